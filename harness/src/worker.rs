//! The default worker task in virtual time, with clients, faults and shutdown.
use crate::cases::*;
use crate::disk::*;
use crate::engine::*;
use crate::refmodel;
use crate::sim::{Choices, Task, clock};
use crate::sys::*;
use crate::vals::{self, Def, DynHandle, V};
use cfg_noodle::error::Error;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum WEv {
    Attach { it: u8, def: Def },
    Write { it: u8, v: V },
    Detach { it: u8 },
    DropHandle { it: u8 },
    CancelAttach { it: u8 },
    /// every storage operation fails from now on
    Down,
    /// every storage operation but reading fails from now on
    Worn,
    Up,
    /// some operations fail
    Fault(Fault),
    Stop,
    /// run the worker again after it was stopped
    Start,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wk {
    pub cfg: StoreCfg,
    pub kept: u8,
    pub items: Vec<(u8, u8)>,
    pub els: Vec<ElSpec>,
    /// milliseconds per storage operation
    pub slow: u8,
    pub yields: bool,
    /// milliseconds before each event
    pub evs: Vec<(u32, WEv)>,
    pub sched: Vec<u8>,
}

type AttachT = Task<'static, Result<Box<dyn DynHandle>, Error>>;
type WriteT = Task<'static, (Box<dyn DynHandle>, Result<(), Error>)>;

enum Cl {
    Off,
    Attaching(AttachT),
    Live(Box<dyn DynHandle>),
    Writing(WriteT, Vec<u8>),
    /// attached, handle dropped
    Parked,
    Detaching(Task<'static, Result<(), Error>>),
}

struct It {
    idx: usize,
    key: &'static str,
    cl: Cl,
    def: Def,
    calls: Rc<Cell<u32>>,
    /// what loading returns
    val: Option<Vec<u8>>,
    /// a write in flight may have taken effect
    maybe: Option<Vec<u8>>,
    /// values of earlier attachments, whose flush may have failed without leaving nothing behind
    ghosts: Vec<Vec<u8>>,
    /// when its value became known (attach completed)
    since: u64,
    attached: bool,
    written: bool,
    /// when the last attach was begun
    begun: u64,
}

struct W {
    hw: Hw,
    sys: Option<Box<dyn Sys>>,
    it: Vec<It>,
    worker: Option<Task<'static, ()>>,
    stop: Rc<Cell<bool>>,
    stop_waker: Rc<std::cell::RefCell<Option<std::task::Waker>>>,
    last_attach: Option<u64>,
    last_write: Option<u64>,
    ever_attached: bool,
    /// a read has certainly succeeded
    read_completed: bool,
    ever_fault: bool,
    cancelled: bool,
    grace: u64,
    pushes: u64,
    stopped_at: Option<u64>,
    /// no worker is running, but one will be started again
    off: bool,
    /// attaches were polled, and writes completed, while no worker was running
    asked_off: (bool, bool),
    restarted: bool,
    /// until when timers of earlier runs (which nobody waits for any more) may still be running
    stale: u64,
    kept: usize,
    /// when the first attach was begun
    first_begun: Option<u64>,
    /// completion of the first attach since the last fault
    gc_read: Option<u64>,
    /// when the worker last used the storage
    last_op: u64,
    /// instants at which attaches were begun and writes completed, and of the first use of the storage
    asked_read: Vec<u64>,
    asked_write: Vec<u64>,
    first_op: Option<u64>,
    worker_polls: u64,
    slow: u64,
    counts: Counts,
    trace: bool,
}

impl Drop for W {
    fn drop(&mut self) {
        if std::thread::panicking() {
            for i in self.it.drain(..) {
                std::mem::forget(i.cl)
            }
            std::mem::forget(self.worker.take());
            std::mem::forget(self.sys.take());
            return;
        }
        for i in self.it.iter_mut() {
            i.cl = Cl::Off;
        }
        self.worker = None;
        if let Some(s) = self.sys.take() {
            s.reclaim();
        }
        vals::live_reset();
    }
}

impl Wk {
    pub fn exec(&self, id: &str) -> Outcome {
        clock::reset();
        vals::live_reset();
        let mut labels = Counts::default();
        let r = self.run(&mut labels);
        let g = |k: &str| labels.get(k) > 0;
        let nt = match id {
            "C21" => g("stopped_with_pending"),
            "C22" => g("faults_fired") && g("persisted_after_fault"),
            "C31" => g("idle") && g("read_asked_for") && (g("flush_asked_for") || g("start_up_collection") || g("faults_fired")),
            "C30" => g("first_collection") || g("first_collection_after_fault") || g("tidy_after_flush") && g("leftovers"),
            _ => g("persisted") && labels.get("attached") >= 2,
        };
        clock::reset();
        Outcome { res: r, labels, evals: 1, nontrivial: u64::from(nt) }
    }

    fn run(&self, labels: &mut Counts) -> R<()> {
        let mut hw = Hw::new(self.cfg, self.kept, 1);
        hw.disks[0].fill(&elements(&self.els));
        let ctl = hw.ctls[0].clone();
        ctl.arm(None);
        hw.cap = None;
        let mut sys = hw.boot();
        let kept = sys.kept();
        let mut it: Vec<It> = vec![];
        for (kind, key) in &self.items {
            let key = key_name(*key);
            if it.iter().any(|i| i.key == key) {
                continue;
            }
            it.push(It {
                idx: sys.new_item(*kind, key),
                key,
                cl: Cl::Off,
                def: Def::Plain,
                calls: Rc::new(Cell::new(0)),
                val: None,
                maybe: None,
                ghosts: vec![],
                since: 0,
                attached: false,
                written: false,
                begun: 0,
            });
        }
        ctl.slow.set(self.slow as u32);
        ctl.yields.set(self.yields);
        let nor = matches!(self.cfg, StoreCfg::Nor(_));
        let mut w = W {
            hw,
            sys: Some(sys),
            it,
            worker: None,
            stop: Rc::default(),
            stop_waker: Rc::default(),
            last_attach: None,
            last_write: None,
            ever_attached: false,
            read_completed: false,
            ever_fault: false,
            cancelled: false,
            grace: self.slow as u64 * if nor { 8000 } else { 1500 },
            pushes: 0,
            stopped_at: None,
            off: true,
            asked_off: (false, false),
            restarted: false,
            stale: 0,
            kept,
            first_begun: None,
            gc_read: None,
            last_op: 0,
            asked_read: vec![],
            asked_write: vec![],
            first_op: None,
            worker_polls: 0,
            slow: self.slow as u64,
            counts: Counts::default(),
            trace: std::env::var("NDL_TRACE").is_ok(),
        };
        if w.hw.disks[0].elems().is_ok_and(|e| refmodel::survivors(&e, kept) != e) {
            w.counts.hit("leftovers");
        }
        w.start();
        let r = self.drive(&mut w);
        *labels = w.counts.clone();
        r
    }

    fn drive(&self, w: &mut W) -> R<()> {
        let mut ch = Choices::new(&self.sched);
        let mut t = 0u64;
        for (i, (dt, ev)) in self.evs.iter().enumerate() {
            t = (t + *dt as u64).max(clock::now());
            (|| {
                w.run_until(t, &mut ch)?;
                if w.trace {
                    eprintln!("[{:>8}] {ev:?}", clock::now());
                }
                w.event(ev)
            })()
            .map_err(|mut f| {
                f.msg = format!("event #{i} at {t} ms {ev:?}: {}", f.msg);
                f
            })?;
            if w.stopped_at.is_some() {
                if !self.evs[i..].iter().any(|(_, e)| matches!(e, WEv::Start)) {
                    break;
                }
                w.shutdown(&mut ch).map_err(|mut f| {
                    f.msg = format!("event #{i} {ev:?}: {}", f.msg);
                    f
                })?;
                w.pause();
            }
        }
        (|| {
            if w.stopped_at.is_some() {
                return w.shutdown(&mut ch);
            }
            if w.hw.ctls[0].down.get() > 0 || w.hw.ctls[0].worn.get() {
                // storage that stays out of order
                w.run_until(clock::now() + 250_100 + 4 * w.grace, &mut ch)?;
                w.check_idle(&mut ch)?;
                w.counts.hit("idle_out_of_order");
            }
            // everything settles
            if w.hw.ctls[0].down.get() > 0 {
                w.hw.ctls[0].down.set(0);
            }
            w.hw.ctls[0].worn.set(false);
            w.hw.ctls[0].fault.set(None);
            w.run_until(clock::now() + 10_100 + 2 * w.grace, &mut ch)?;
            if w.ever_fault {
                // the next requests must be served
                let Some(i) = (0..w.it.len()).find(|i| matches!(w.it[*i].cl, Cl::Live(_))) else {
                    let Some(i) = (0..w.it.len()).find(|i| matches!(w.it[*i].cl, Cl::Off)) else {
                        return Ok(());
                    };
                    w.event(&WEv::Attach { it: i as u8, def: Def::Plain })?;
                    return w.run_until(clock::now() + 150 + w.grace, &mut ch);
                };
                if w.last_write.is_none() {
                    // a read request
                    w.event(&WEv::DropHandle { it: i as u8 })?;
                    w.event(&WEv::Attach { it: i as u8, def: Def::Plain })?;
                } else {
                    w.event(&WEv::Write { it: i as u8, v: V { n: 200, len: 3 } })?;
                }
                w.run_until(clock::now() + 10_100 + 2 * w.grace, &mut ch)?;
            }
            w.run_until(clock::now() + 130_000 + 2 * w.grace, &mut ch)?;
            w.check_idle(&mut ch)?;
            w.event(&WEv::Stop)?;
            w.shutdown(&mut ch)
        })()
        .map_err(|mut f| {
            f.msg = format!("after the last event ({} ms): {}", clock::now(), f.msg);
            f
        })
    }
}

impl W {
    fn sys(&self) -> &dyn Sys {
        self.sys.as_ref().unwrap().as_ref()
    }
    fn ctl(&self) -> Rc<Ctl> {
        self.hw.ctls[0].clone()
    }
    fn tags(&self) -> &'static [&'static str] {
        if self.stopped_at.is_some() {
            &["C21"]
        } else if self.ever_fault {
            &["C22"]
        } else {
            &["C20"]
        }
    }

    /// Run the worker (again).
    fn start(&mut self) {
        let now = clock::now();
        let (stop, waker) = (Rc::new(Cell::new(false)), Rc::new(std::cell::RefCell::new(None)));
        let (s, w) = (stop.clone(), waker.clone());
        let stop_fut = Box::pin(std::future::poll_fn(move |cx: &mut std::task::Context| {
            if s.get() {
                std::task::Poll::Ready(())
            } else {
                *w.borrow_mut() = Some(cx.waker().clone());
                std::task::Poll::Pending
            }
        }));
        self.worker = Some(Task::new(self.sys().worker(0, stop_fut)));
        (self.stop, self.stop_waker) = (stop, waker);
        self.off = false;
        if self.restarted {
            // requests made in between (or at the very end of the last run) are served from now on
            self.last_attach = self.asked_off.0.then_some(now);
            self.last_write = self.asked_off.1.then_some(now);
            self.asked_read = vec![now];
            self.asked_write = vec![now];
            if self.asked_off.1 {
                self.counts.hit("restarted_with_pending");
            }
            self.counts.hit("restarted");
        }
    }

    /// The worker has returned; it will be started again.
    fn pause(&mut self) {
        self.stopped_at = None;
        self.off = true;
        self.restarted = true;
        self.stale = clock::last_alarm().unwrap_or(0);
        // an attach that was not served in time is served by the next run
        self.asked_off = (self.it.iter().any(|i| matches!(i.cl, Cl::Attaching(_))) && !self.ever_fault, false);
        (self.last_attach, self.last_write, self.first_op, self.gc_read) = (None, None, None, None);
    }

    fn event(&mut self, ev: &WEv) -> R<()> {
        let n = self.it.len();
        let now = clock::now();
        let at = |it: &u8| *it as usize % n;
        match ev {
            WEv::Attach { it, def } => {
                let i = at(it);
                if !matches!(self.it[i].cl, Cl::Off | Cl::Parked) {
                    return Ok(());
                }
                self.it[i].def = *def;
                let calls = Rc::new(Cell::new(0));
                let f = self.sys().attach(self.it[i].idx, 0, *def, calls.clone());
                self.it[i].calls = calls;
                self.it[i].begun = now;
                self.first_begun.get_or_insert(now);
                self.asked_read.push(now);
                self.it[i].cl = Cl::Attaching(Task::new(f));
                self.counts.hit("attach");
            }
            WEv::CancelAttach { it } => {
                let i = at(it);
                if matches!(self.it[i].cl, Cl::Attaching(_)) {
                    // (whether the node is on the list already is not known; no later use of it)
                    self.it[i].cl = Cl::Parked;
                    self.cancelled = true;
                    self.counts.hit("attach_cancelled");
                }
            }
            WEv::Write { it, v } => {
                let i = at(it);
                let b = self.sys().make(self.it[i].idx, *v);
                let it = &mut self.it[i];
                match std::mem::replace(&mut it.cl, Cl::Off) {
                    Cl::Live(mut h) => {
                        let v = *v;
                        it.maybe = Some(b.clone());
                        it.cl = Cl::Writing(
                            Task::new(Box::pin(async move {
                                let r = h.write(v).await;
                                (h, r)
                            })),
                            b,
                        );
                    }
                    o => it.cl = o,
                }
            }
            WEv::Detach { it } => {
                let i = at(it);
                if matches!(self.it[i].cl, Cl::Live(_) | Cl::Parked) && self.it[i].attached {
                    self.it[i].cl = Cl::Off;
                    let f = self.sys().detach(self.it[i].idx, 0);
                    self.it[i].attached = false;
                    self.it[i].cl = Cl::Detaching(Task::new(f));
                }
            }
            WEv::DropHandle { it } => {
                let i = at(it);
                if matches!(self.it[i].cl, Cl::Live(_)) {
                    self.it[i].cl = Cl::Parked;
                }
            }
            WEv::Down => {
                self.ctl().down.set(u64::MAX);
            }
            WEv::Worn => self.ctl().worn.set(true),
            WEv::Up => {
                self.ctl().worn.set(false);
                self.ctl().down.set(0);
                self.ctl().fault.set(None);
            }
            WEv::Fault(f) => self.ctl().arm(Some(*f)),
            WEv::Stop => {
                if self.worker.is_none() {
                    return Ok(());
                }
                if self.restarted {
                    self.counts.hit("stopped_again");
                }
                self.stopped_at = Some(now);
                self.stop.set(true);
                if let Some(w) = self.stop_waker.borrow_mut().take() {
                    w.wake();
                }
            }
            WEv::Start => {
                if self.off {
                    self.start();
                }
            }
        }
        Ok(())
    }

    /// Run everything that happens up to time `t`.
    fn run_until(&mut self, t: u64, ch: &mut Choices) -> R<()> {
        loop {
            self.run_ready(ch)?;
            if self.stopped_at.is_some() && self.worker.is_none() {
                return Ok(());
            }
            self.check()?;
            let now = clock::now();
            if now >= t {
                return Ok(());
            }
            // the deadlines of the oracle are instants of interest, too
            let mut next = t;
            for d in [clock::next_alarm(), self.attach_due(), self.write_due()].into_iter().flatten() {
                if d > now {
                    next = next.min(d);
                }
            }
            clock::advance_to(next);
        }
    }

    fn attach_due(&self) -> Option<u64> {
        Some(self.last_attach? + 100 + self.grace)
    }
    fn write_due(&self) -> Option<u64> {
        Some(self.last_write? + 10_000 + self.grace)
    }
    fn no_fault_since(&self, t: u64) -> bool {
        self.ctl().fault_at.get().is_none_or(|f| f < t)
    }

    /// Poll every woken task, in an order given by the schedule, until all are waiting.
    fn run_ready(&mut self, ch: &mut Choices) -> R<()> {
        let mut polls = 0u32;
        loop {
            let n = self.it.len();
            let mut ready: Vec<usize> = vec![];
            for (i, it) in self.it.iter().enumerate() {
                let r = match &it.cl {
                    Cl::Attaching(t) => t.flag.is_set(),
                    Cl::Writing(t, _) => t.flag.is_set(),
                    Cl::Detaching(t) => t.flag.is_set(),
                    _ => false,
                };
                if r {
                    ready.push(i)
                }
            }
            if self.worker.as_ref().is_some_and(|t| t.flag.is_set()) {
                ready.push(n)
            }
            if ready.is_empty() {
                return Ok(());
            }
            polls += 1;
            ensure!(polls < 400_000, if self.stopped_at.is_some() { &["C21", "C31"] } else { &["C20", "C22", "C30", "C31"] }, "tasks keep running without any time passing (spinning)");
            let c = ready[ch.next(ready.len())];
            if c == n {
                let (before, ops, changes) = (self.mutations(), self.ctl().total.get(), self.changes());
                let done = self.worker.as_mut().unwrap().poll().is_ready();
                if self.ctl().fault_at.get().is_some() && !self.ever_fault {
                    self.ever_fault = true;
                    self.counts.hit("faults_fired");
                }
                if self.mutations() != before {
                    self.on_push()?;
                }
                self.worker_polls += 1;
                if self.ctl().total.get() != ops {
                    self.last_op = clock::now();
                    self.on_use()?;
                }
                if self.changes() != changes {
                    self.on_change()?;
                }
                if done {
                    self.worker = None;
                    ensure!(
                        self.stopped_at.is_some(),
                        &["C20", "C21", "C22"],
                        "the worker returned although it was not told to stop"
                    );
                }
            } else {
                self.poll_item(c)?;
            }
        }
    }

    fn mutations(&self) -> u64 {
        self.ctl().io.borrow().pushes
    }

    fn changes(&self) -> u64 {
        let c = self.ctl();
        let io = c.io.borrow();
        io.pushes + io.invals + io.nor_writes + io.nor_erases
    }

    /// The worker changed the storage.
    fn on_change(&mut self) -> R<()> {
        let now = clock::now();
        // nothing was written, so this is not a flush or the collection after it
        if self.stopped_at.is_none() && self.last_write.is_none() && !self.ever_fault && !self.restarted {
            soft_ensure!(
                self.first_begun.is_some_and(|b| now >= b + 120_000),
                &["C30"],
                "storage changed at {now} ms although nothing was written and the first attach was begun at {:?} ms",
                self.first_begun
            );
        }
        Ok(())
    }

    /// The worker used the storage: somebody must have asked for it, and not have done so again since.
    fn on_use(&mut self) -> R<()> {
        let now = clock::now();
        if self.stopped_at.is_some() || self.ever_fault || self.grace > 0 {
            return Ok(());
        }
        let asked = |v: &[u64], quiet: u64| {
            v.iter().any(|a| a + quiet == now) && !v.iter().any(|a| a + quiet > now && *a < now)
        };
        let (rd, wr) = (asked(&self.asked_read, 100), asked(&self.asked_write, 10_000));
        let gc = self.first_op.is_some_and(|f| f + 120_000 == now);
        soft_ensure!(
            rd || wr || gc,
            &["C31"],
            "the worker uses the storage at {now} ms, but nobody asked for it: attaches at {:?}, writes at {:?}, first use at {:?} ms",
            self.asked_read,
            self.asked_write,
            self.first_op
        );
        // (a worker that is run again may flush before it reads)
        if rd || !self.restarted {
            self.first_op.get_or_insert(now);
        }
        if rd {
            self.counts.hit("read_asked_for");
            if self.restarted {
                self.gc_read.get_or_insert(now);
            }
        }
        if wr {
            self.counts.hit("flush_asked_for");
        }
        if gc {
            self.counts.hit("start_up_collection");
        }
        Ok(())
    }

    /// Everything is settled: the worker sleeps until it is asked for something.
    fn check_idle(&mut self, ch: &mut Choices) -> R<()> {
        let now = clock::now();
        soft_ensure!(
            clock::next_alarm().is_none(),
            &["C31"],
            "all requests are served, but at {now} ms a timer is running until {:?} ms",
            clock::next_alarm()
        );
        let (polls, ops) = (self.worker_polls, self.ctl().total.get());
        self.run_until(now + 24 * 3_600_000, ch)?;
        soft_ensure!(
            polls == self.worker_polls && ops == self.ctl().total.get(),
            &["C31"],
            "the worker does not sleep although all requests are served: woken {} times, {} storage operations",
            self.worker_polls - polls,
            self.ctl().total.get() - ops
        );
        self.counts.hit("idle");
        Ok(())
    }

    /// Leftovers are gone once the delayed collection, or a flush, was due.
    fn check_tidy(&mut self) -> R<()> {
        let now = clock::now();
        if now <= self.last_op + self.slow && self.slow > 0 {
            return Ok(()); // busy
        }
        // (after faults, only while all there is stems from before the first read)
        let read = self.gc_read.filter(|r| {
            now > r + 120_000 + self.grace && self.no_fault_since(*r) && (!self.ever_fault || self.last_write.is_none())
        });
        let write = self.last_write.filter(|w| now > w + 10_000 + self.grace && self.no_fault_since(*w));
        if read.is_none() && write.is_none() {
            return Ok(());
        }
        let el = match self.hw.disks[0].elems() {
            Ok(e) => e,
            Err(e) => return fail(&["*"], format!("storage became unreadable: {e}")),
        };
        let want = refmodel::survivors(&el, self.kept);
        soft_ensure!(
            el == want,
            &["C30"],
            "leftovers at {now} ms, although the last write was at {:?} ms and the first read at {:?} ms: {} instead of {}",
            self.last_write,
            self.gc_read,
            show(&el),
            show(&want)
        );
        if read.is_some() && self.ctl().io.borrow().invals + self.ctl().io.borrow().nor_writes > 0 && self.last_write.is_none() {
            self.counts.hit(if self.ever_fault { "first_collection_after_fault" } else { "first_collection" });
        }
        if write.is_some() {
            self.counts.hit("tidy_after_flush");
        }
        Ok(())
    }

    /// An element was pushed to the in-memory queue: a flush is running.
    fn on_push(&mut self) -> R<()> {
        self.pushes += 1;
        let now = clock::now();
        if self.grace == 0 && self.stopped_at.is_none() && !self.ever_fault {
            if let Some(w) = self.last_write.filter(|w| *w != now) {
                soft_ensure!(
                    now >= w + 10_000,
                    &["C20"],
                    "flushed at {now} ms, only {} ms after the last write",
                    now - w
                );
            }
        }
        Ok(())
    }

    fn poll_item(&mut self, i: usize) -> R<()> {
        let now = clock::now();
        let el = self.hw.disks[0].elems();
        let sys = self.sys.as_ref().unwrap().as_ref();
        let it = &mut self.it[i];
        match std::mem::replace(&mut it.cl, Cl::Off) {
            Cl::Attaching(mut t) => {
                // this poll (or a later one, when the list is locked) links the node and asks for a read
                if self.off {
                    self.asked_off.0 = true;
                } else {
                    self.last_attach = Some(now);
                }
                match t.poll() {
                    std::task::Poll::Pending => it.cl = Cl::Attaching(t),
                    std::task::Poll::Ready(Err(e)) => {
                        return fail(&["C12", "C20", "C22"], format!("attach of {:?} failed: {e:?}", it.key));
                    }
                    std::task::Poll::Ready(Ok(h)) => {
                        let got = h.load();
                        if !it.attached {
                            it.since = now + u64::from(self.stopped_at.is_some());
                            it.written = false;
                            // without faults nobody else can have interfered
                            if !self.ever_fault {
                                let stored = match &el {
                                    Ok(el) => refmodel::newest(el).and_then(|r| r.get(it.key)),
                                    Err(_) => None,
                                };
                                let want = match stored.and_then(|b| sys.decode(it.idx, &b)) {
                                    Some(v) => v,
                                    None => match it.def {
                                        Def::Plain => sys.default(it.idx),
                                        Def::With(v) => sys.make(it.idx, v),
                                    },
                                };
                                soft_ensure!(
                                    got == want,
                                    &["C20", "C13"],
                                    "item {:?} was filled with {} instead of {}",
                                    it.key,
                                    hex(&got),
                                    hex(&want)
                                );
                            }
                            it.val = Some(got);
                        } else {
                            soft_ensure!(
                                Some(&got) == it.val.as_ref(),
                                &["C12", "C14", "C20", "C22"],
                                "re-attached item {:?} has another value",
                                it.key
                            );
                        }
                        it.attached = true;
                        it.cl = Cl::Live(h);
                        self.ever_attached = true;
                        // A read that fails later may have filled the item already, if its attach was
                        // begun, cancelled and begun again; otherwise the read did complete.
                        let ctl = &self.hw.ctls[0];
                        let faulty = ctl.fault_at.get().is_some_and(|f| f >= it.begun);
                        if !self.ever_fault && !faulty || !self.cancelled && !faulty {
                            self.read_completed = true;
                        }
                        if !faulty && !self.restarted && self.gc_read.is_none_or(|r| ctl.fault_at.get().is_some_and(|f| f >= r)) {
                            self.gc_read = Some(now);
                        }
                        self.counts.hit("attached");
                    }
                }
            }
            Cl::Writing(mut t, b) => match t.poll() {
                std::task::Poll::Pending => it.cl = Cl::Writing(t, b),
                std::task::Poll::Ready((h, r)) => {
                    ensure!(r.is_ok(), &["C14", "C20", "C22"], "write of {:?} failed: {r:?}", it.key);
                    let old = it.val.replace(b);
                    it.cl = Cl::Live(h);
                    if self.stopped_at.is_some() {
                        // in flight when the worker was stopped: either value may be stored
                        it.maybe = old;
                        return Ok(());
                    }
                    it.maybe = None;
                    it.written = true;
                    if self.off {
                        self.asked_off.1 = true;
                    } else {
                        self.last_write = Some(now);
                        self.asked_write.push(now);
                    }
                    self.counts.hit("written");
                }
            },
            Cl::Detaching(mut t) => match t.poll() {
                std::task::Poll::Pending => it.cl = Cl::Detaching(t),
                std::task::Poll::Ready(r) => {
                    ensure!(r.is_ok(), &["C12", "C20"], "detach of {:?} failed: {r:?}", it.key);
                    if self.ever_fault {
                        it.ghosts.extend(it.val.take());
                        it.ghosts.extend(it.maybe.take());
                    }
                    it.val = None;
                    it.maybe = None;
                    self.counts.hit("detached");
                }
            },
            o => it.cl = o,
        }
        Ok(())
    }

    /// What must hold whenever all tasks wait.
    fn check(&mut self) -> R<()> {
        let now = clock::now();
        for it in &self.it {
            if let Cl::Live(h) = &it.cl {
                let got = h.load();
                soft_ensure!(
                    Some(&got) == it.val.as_ref(),
                    &["C14", "C20", "C22"],
                    "item {:?} loads {} but its last value is {:?}",
                    it.key,
                    hex(&got),
                    it.val.as_ref().map(|v| hex(v))
                );
            }
        }
        if self.stopped_at.is_some() || self.off {
            return Ok(());
        }
        if let Some(d) = self.attach_due() {
            if now >= d && self.no_fault_since(self.last_attach.unwrap()) {
                for it in &self.it {
                    soft_ensure!(
                        !matches!(it.cl, Cl::Attaching(_)),
                        self.tags(),
                        "attach of {:?} still waits at {now} ms, although the last attach was at {} ms",
                        it.key,
                        self.last_attach.unwrap()
                    );
                }
                if self.ever_fault {
                    self.counts.hit("attached_after_fault");
                }
            }
        }
        if let Some(d) = self.write_due() {
            if now >= d && self.no_fault_since(self.last_write.unwrap()) {
                let lw = self.last_write.unwrap();
                self.check_persisted(lw, &format!("at {now} ms (last write at {lw} ms)"))?;
                self.counts.hit(if self.ever_fault { "persisted_after_fault" } else { "persisted" });
            }
        }
        self.check_timers()?;
        self.check_tidy()
    }

    /// No timer runs longer than to the end of a quiet period, or to the start-up collection.
    fn check_timers(&self) -> R<()> {
        if self.ever_fault || self.grace > 0 {
            return Ok(());
        }
        let Some(a) = clock::last_alarm() else { return Ok(()) };
        let due = [
            self.last_attach.max(self.asked_read.last().copied()).map(|t| t + 100),
            self.last_write.max(self.asked_write.last().copied()).map(|t| t + 10_000),
            self.first_op.map(|t| t + 120_000),
        ];
        soft_ensure!(
            a <= self.stale || due.iter().flatten().any(|d| a <= *d),
            &["C31"],
            "at {} ms a timer runs until {a} ms, but the requests (attach, write, start-up collection) are due at {due:?} ms",
            clock::now()
        );
        Ok(())
    }

    fn check_persisted(&self, upto: u64, when: &str) -> R<()> {
        let el = match self.hw.disks[0].elems() {
            Ok(e) => e,
            Err(e) => return fail(&["*"], format!("storage became unreadable: {e}")),
        };
        let r = refmodel::newest(&el);
        for it in &self.it {
            if !it.attached || it.since > upto || it.val.is_none() {
                continue;
            }
            let got = r.as_ref().and_then(|r| r.get(it.key));
            // an unchanged item need not be rewritten, even if its stored bytes are not what it would write
            let dec = got.as_ref().and_then(|b| self.sys().decode(it.idx, b));
            let same = |v: &Option<Vec<u8>>| v.is_some() && (got == *v || dec == *v);
            // (a record whose verification failed counts once the collection of it fails, too)
            let ghost = |b: &Vec<u8>| !it.written && it.ghosts.contains(b);
            let ok = same(&it.val) || same(&it.maybe) || got.as_ref().is_some_and(ghost);
            soft_ensure!(
                ok,
                self.tags(),
                "{when} item {:?} has the value {:?}, but stored is {:?}: {}",
                it.key,
                it.val.as_ref().map(|v| hex(v)),
                got.as_ref().map(|v| hex(v)),
                show(&el)
            );
        }
        Ok(())
    }

    /// The worker was told to stop: it must return, with everything persisted.
    fn shutdown(&mut self, ch: &mut Choices) -> R<()> {
        let at = self.stopped_at.unwrap();
        let before = self.hw.disks[0].elems();
        let ops_before = self.ctl().total.get();
        let pending = {
            let newest = before.as_ref().ok().and_then(|e| refmodel::newest(e));
            self.it.iter().any(|it| {
                it.attached && it.written && it.val != newest.as_ref().and_then(|r| r.get(it.key))
            })
        };
        let had_read = self.read_completed;
        let any_written = self.it.iter().any(|i| i.attached && i.written);
        // values in flight may or may not get in
        self.run_until(clock::now() + 1_000 + 2 * self.grace, ch)?;
        ensure!(self.worker.is_none(), &["C21"], "the worker did not return {} ms after it was told to stop", clock::now() - at);
        let working = self.no_fault_since(at) && self.ctl().down.get() == 0 && !self.ctl().worn.get();
        if working && had_read && any_written {
            self.check_persisted(at, "after the worker was stopped")?;
            if pending {
                self.counts.hit("stopped_with_pending");
            }
            self.counts.hit("stopped_persisted");
        }
        // (a read may have succeeded without anybody noticing if its attach was cancelled)
        if !had_read && !self.ever_attached && !self.cancelled {
            let after = self.hw.disks[0].elems();
            // an interrupted first read may have got far enough to clean up leftovers
            let same = match (&before, &after) {
                (Ok(a), Ok(b)) if ops_before > 0 => refmodel::newest(a) .map(|r| r.data) == refmodel::newest(b).map(|r| r.data),
                (a, b) => a == b,
            };
            soft_ensure!(same, &["C21"], "the worker changed the stored data when stopped before any read had succeeded");
            self.counts.hit("stopped_before_read");
        }
        Ok(())
    }
}
