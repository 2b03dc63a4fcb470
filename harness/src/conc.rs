//! Several clients and a worker, interleaved at every await point by a generated schedule.
use crate::cases::*;
use crate::engine::*;
use crate::refmodel::{self, Rec};
use crate::sim::{Choices, Task, clock, yield_once};
use crate::sys::*;
use crate::vals::{self, Def, DynHandle, V};
use cfg_noodle::error::Error;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::rc::Rc;
use std::task::Poll;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum CEv {
    Attach(Def),
    /// attach, given up after this many polls
    AttachCancel(Def, u8),
    Write(V),
    WriteCancel(V, u8),
    Load,
    DropHandle,
    Detach,
    /// detach, given up after this many polls
    DetachCancel(u8),
    Pause(u8),
    Reset,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum WOp {
    Op(What),
    /// given up after this many polls
    Cancel(What, u8),
    Pause(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conc {
    pub cfg: StoreCfg,
    pub kept: u8,
    pub noop: bool,
    /// one client per item
    pub items: Vec<(u8, u8)>,
    pub els: Vec<ElSpec>,
    pub scripts: Vec<Vec<CEv>>,
    pub worker: Vec<WOp>,
    pub sched: Vec<u8>,
}

const NEVER: u64 = u64::MAX;

/// A value an item had: when it may have come into effect.
#[derive(Clone, Debug)]
struct Val {
    v: Vec<u8>,
    begin: u64,
    end: u64,
    epoch: usize,
}
/// From the start of an attach to the end of the detach.
#[derive(Clone, Debug)]
struct Epoch {
    begin: u64,
    attached: u64,
    detach_begin: u64,
    detached: u64,
}

enum St {
    Idle,
    Attaching(Task<'static, Result<Box<dyn DynHandle>, Error>>, Def, Option<u8>),
    Live(Box<dyn DynHandle>),
    Writing(Task<'static, (Box<dyn DynHandle>, Result<(), Error>)>),
    Detaching(Task<'static, Result<(), Error>>),
    Busy(Task<'static, ()>, Box<St>),
}

struct Client {
    idx: usize,
    key: &'static str,
    st: St,
    pos: usize,
    /// node may be on the list without a handle
    parked: bool,
    hydrated: bool,
    vals: Vec<Val>,
    epochs: Vec<Epoch>,
    calls: Rc<Cell<u32>>,
}

struct FlushRec {
    s: u64,
    e: u64,
    rec: Option<Rec>,
    elided: bool,
}

/// What was stored during a read: the newest record, or the one before an abandoned flush.
struct ReadRec {
    e: u64,
    recs: [Option<Rec>; 2],
}

#[derive(Default)]
struct WState {
    cur: Cell<u64>,
    stop: Cell<bool>,
}

struct Sim {
    hw: Hw,
    sys: Option<Rc<Box<dyn Sys>>>,
    cl: Vec<Client>,
    worker: Option<Task<'static, ()>>,
    reads: Rc<std::cell::RefCell<Vec<ReadRec>>>,
}

impl Drop for Sim {
    fn drop(&mut self) {
        if std::thread::panicking() {
            for c in self.cl.drain(..) {
                std::mem::forget(c.st)
            }
            std::mem::forget(self.worker.take());
            std::mem::forget(self.sys.take());
            return;
        }
        for c in self.cl.iter_mut() {
            c.st = St::Idle;
        }
        self.worker = None;
        if let Some(s) = self.sys.take() {
            match Rc::try_unwrap(s) {
                Ok(s) => s.reclaim(),
                Err(_) => panic!("harness: system still shared"),
            }
        }
        vals::live_reset();
    }
}

impl Conc {
    pub fn exec(&self, _id: &str) -> Outcome {
        clock::reset();
        vals::live_reset();
        let mut labels = Counts::default();
        let mut nt = false;
        let r = self.run(&mut labels, &mut nt);
        Outcome { res: r, labels, evals: 1, nontrivial: u64::from(nt) }
    }

    fn run(&self, counts: &mut Counts, nt: &mut bool) -> R<()> {
        let tag: &'static [&'static str] = if self.noop { &["C28"] } else { &["C23"] };
        let hw = Hw::new(self.cfg, self.kept, 1);
        hw.disks[0].fill(&elements(&self.els));
        hw.ctls[0].arm(None);
        hw.ctls[0].yields.set(true);
        let mut sys = hw.boot();
        let mut cl: Vec<Client> = vec![];
        for (kind, key) in &self.items {
            let key = key_name(*key);
            if cl.iter().any(|c| c.key == key) {
                continue;
            }
            cl.push(Client {
                idx: sys.new_item(*kind, key),
                key,
                st: St::Idle,
                pos: 0,
                parked: false,
                hydrated: false,
                vals: vec![],
                epochs: vec![],
                calls: Rc::new(Cell::new(0)),
            });
        }
        let sys: Rc<Box<dyn Sys>> = Rc::new(sys);
        let clk: Rc<WState> = Rc::default();
        let flushes: Rc<std::cell::RefCell<Vec<FlushRec>>> = Rc::default();
        let problem: Rc<std::cell::RefCell<Option<Fail>>> = Rc::default();
        let hits: Rc<std::cell::RefCell<Counts>> = Rc::default();
        let reads: Rc<std::cell::RefCell<Vec<ReadRec>>> = Rc::default();
        let worker: Task<'static, ()> = if self.noop {
            Task::new(sys.noop_worker(0))
        } else {
            let (sys, clk, flushes, problem, hits, reads) =
                (sys.clone(), clk.clone(), flushes.clone(), problem.clone(), hits.clone(), reads.clone());
            let disk = hw.disks[0].clone();
            let script = self.worker.clone();
            Task::new(Box::pin(async move {
                let known = std::cell::RefCell::new(refmodel::newest(&disk.elems().unwrap_or_default()));
                let one = async |what: What, limit: Option<u8>| {
                    let before = disk.elems().unwrap_or_default();
                    let s = clk.cur.get();
                    let nth = reads.borrow().len();
                    if what == What::Read {
                        reads.borrow_mut().push(ReadRec { e: NEVER, recs: [refmodel::newest(&before), known.borrow().clone()] });
                    }
                    let mut f = sys.op(0, what);
                    let mut left = limit;
                    let r = std::future::poll_fn(|cx| match f.as_mut().poll(cx) {
                        Poll::Ready(r) => Poll::Ready(Some(r)),
                        Poll::Pending if left == Some(0) => Poll::Ready(None),
                        Poll::Pending => {
                            left = left.map(|k| k - 1);
                            Poll::Pending
                        }
                    })
                    .await;
                    drop(f);
                    let e = clk.cur.get();
                    if what == What::Read {
                        reads.borrow_mut()[nth].e = e;
                    }
                    let Some(r) = r else {
                        hits.borrow_mut().hit("op_cancelled");
                        return;
                    };
                    if r.is_ok() && what != What::Read {
                        *known.borrow_mut() = refmodel::newest(&disk.elems().unwrap_or_default());
                    }
                    match (&r, what) {
                        (Ok(c), What::Flush) => {
                            let el = disk.elems().unwrap_or_default();
                            let elided = el == before;
                            if !elided && c.cur == 0 {
                                problem.borrow_mut().get_or_insert(Fail {
                                    tags: vec!["C27", "C23"],
                                    msg: "flush wrote but reports nothing written".into(),
                                });
                            }
                            hits.borrow_mut().hit(if elided { "flush_elided" } else { "flush_ok" });
                            flushes.borrow_mut().push(FlushRec { s, e, rec: refmodel::newest(&el), elided });
                        }
                        (Ok(_), _) => {}
                        (Err(OpErr::NeedsRead | OpErr::NeedsGc), What::Flush) => {
                            hits.borrow_mut().hit("flush_refused");
                        }
                        // (only possible when somebody resets the cache meanwhile)
                        (Err(OpErr::NeedsRead), What::Gc) => {}
                        (Err(x), _) => {
                            problem.borrow_mut().get_or_insert(Fail {
                                tags: vec!["C23"],
                                msg: format!("{what:?} failed on working storage: {x:?}"),
                            });
                        }
                    }
                };
                for w in script {
                    match w {
                        WOp::Op(w) => one(w, None).await,
                        WOp::Cancel(w, k) => one(w, Some(k)).await,
                        WOp::Pause(n) => {
                            for _ in 0..n {
                                yield_once().await
                            }
                        }
                    }
                }
                loop {
                    if clk.stop.get() {
                        return;
                    }
                    let (mut a, mut b) = (sys.wait_read(0), sys.wait_write(0));
                    std::future::poll_fn(|cx| {
                        if a.as_mut().poll(cx).is_ready() || b.as_mut().poll(cx).is_ready() || clk.stop.get() {
                            Poll::Ready(())
                        } else {
                            Poll::Pending
                        }
                    })
                    .await;
                    drop((a, b));
                    for w in [What::Read, What::Gc, What::Flush, What::Gc] {
                        one(w, None).await;
                    }
                }
            }))
        };
        let mut sim = Sim { hw, sys: Some(sys), cl, worker: Some(worker), reads };
        let r = self.drive(&mut sim, &clk, &problem, tag, counts);
        for (k, v) in &hits.borrow().m {
            for _ in 0..*v {
                counts.hit(k)
            }
        }
        r?;
        if !self.noop {
            self.judge(&***sim.sys.as_ref().unwrap(), &sim, &flushes.borrow(), counts)?;
            self.final_flush(&mut sim)?;
        }
        *nt = counts.get("overlap") > 0
            || (self.noop && counts.get("attached") >= 2 && counts.get("written") > 0);
        // everything can be released
        let live: Vec<usize> = (0..sim.cl.len()).collect();
        for i in live {
            sim.cl[i].st = St::Idle;
            if sim.cl[i].parked || sim.cl[i].epochs.last().is_some_and(|e| e.detached == NEVER) {
                let f = sim.sys.as_ref().unwrap().detach(sim.cl[i].idx, 0);
                let r = Task::new(f).run_ready();
                ensure!(matches!(r, Some(Ok(()))), &["C12", "C23", "C28"], "closing detach of {:?}: {r:?}", sim.cl[i].key);
            }
        }
        sim.worker = None;
        if let Some(b) = vals::live_bad() {
            return fail(&["C15", "C23"], b);
        }
        ensure!(vals::live() == 0, &["C15"], "{} values alive after everything was detached", vals::live());
        Ok(())
    }

    fn drive(
        &self,
        sim: &mut Sim,
        clk: &Rc<WState>,
        problem: &Rc<std::cell::RefCell<Option<Fail>>>,
        tag: &'static [&'static str],
        counts: &mut Counts,
    ) -> R<()> {
        let mut ch = Choices::new(&self.sched);
        let n = sim.cl.len();
        let mut steps = 0u64;
        loop {
            steps += 1;
            clk.cur.set(steps);
            ensure!(steps < 300_000, tag, "no end of steps: clients or worker keep running without progress");
            if let Some(p) = problem.borrow_mut().take() {
                return Err(p);
            }
            let mut ready: Vec<usize> = vec![];
            let mut unfinished = false;
            for i in 0..n {
                let script = self.scripts.get(i).map(|s| s.as_slice()).unwrap_or(&[]);
                let c = &sim.cl[i];
                let r = match &c.st {
                    St::Idle | St::Live(_) => c.pos < script.len(),
                    St::Attaching(t, _, left) => {
                        unfinished = true;
                        t.flag.is_set() || left.is_some()
                    }
                    St::Writing(t) => {
                        unfinished = true;
                        t.flag.is_set()
                    }
                    St::Detaching(t) => {
                        unfinished = true;
                        t.flag.is_set()
                    }
                    St::Busy(t, _) => {
                        unfinished = true;
                        t.flag.is_set()
                    }
                };
                if r {
                    ready.push(i)
                }
            }
            let w_ready = sim.worker.as_ref().is_some_and(|t| t.flag.is_set());
            if w_ready {
                ready.push(n)
            }
            if ready.is_empty() {
                ensure!(
                    !unfinished,
                    &[tag[0], "C13", "C24"],
                    "deadlock after {steps} steps: {}",
                    (0..n).map(|i| format!("{}:{}", sim.cl[i].key, st_name(&sim.cl[i].st))).collect::<Vec<_>>().join(" ")
                );
                if self.noop {
                    return Ok(());
                }
                if clk.stop.get() {
                    if sim.worker.is_none() {
                        return Ok(());
                    }
                    return fail(tag, "the worker does not finish although nothing is left to do");
                }
                clk.stop.set(true);
                sim.worker.as_ref().unwrap().flag.set();
                continue;
            }
            let c = ready[ch.next(ready.len())];
            if c == n {
                if sim.worker.as_mut().unwrap().poll().is_ready() {
                    sim.worker = None;
                }
            } else {
                self.client_step(sim, c, steps, counts)?;
            }
        }
    }

    fn client_step(&self, sim: &mut Sim, i: usize, now: u64, counts: &mut Counts) -> R<()> {
        let sys = sim.sys.as_ref().unwrap().clone();
        let noop = self.noop;
        let c = &mut sim.cl[i];
        match std::mem::replace(&mut c.st, St::Idle) {
            St::Busy(mut t, old) => match t.poll() {
                Poll::Pending => c.st = St::Busy(t, old),
                Poll::Ready(()) => c.st = *old,
            },
            St::Attaching(mut t, def, left) => match t.poll() {
                Poll::Pending => match left {
                    Some(0) => {
                        c.parked = true;
                        counts.hit("attach_cancelled");
                    }
                    Some(k) => c.st = St::Attaching(t, def, Some(k - 1)),
                    None => c.st = St::Attaching(t, def, None),
                },
                Poll::Ready(Err(e)) => {
                    return fail(&["C12", "C23", "C28"], format!("attach of {:?} failed: {e:?}", c.key));
                }
                Poll::Ready(Ok(h)) => {
                    let got = h.load();
                    c.parked = false;
                    let ep = c.epochs.last_mut().unwrap();
                    if ep.attached == NEVER {
                        ep.attached = now;
                        let begin = ep.begin;
                        let d = match def {
                            Def::Plain => sys.default(c.idx),
                            Def::With(v) => sys.make(c.idx, v),
                        };
                        if noop {
                            ensure!(
                                got == d,
                                &["C28"],
                                "item {:?} attached with {} instead of its default {}",
                                c.key,
                                hex(&got),
                                hex(&d)
                            );
                        } else {
                            // it was filled by a read since the attach began, from what was stored then
                            let reads = sim.reads.borrow();
                            let want: Vec<Vec<u8>> = reads
                                .iter()
                                .filter(|r| r.e >= begin)
                                .flat_map(|r| &r.recs)
                                .map(|r| {
                                    let b = r.as_ref().and_then(|r| r.get(c.key));
                                    b.and_then(|b| sys.decode(c.idx, &b)).unwrap_or_else(|| d.clone())
                                })
                                .collect();
                            ensure!(
                                want.contains(&got),
                                &["C23", "C05", "C01", "C13"],
                                "item {:?} attached with {}, but during its reads it had {:?} stored",
                                c.key,
                                hex(&got),
                                want.iter().map(|w| hex(w)).collect::<Vec<_>>()
                            );
                            if got != d {
                                counts.hit("attached_stored");
                            }
                        }
                        let epoch = c.epochs.len() - 1;
                        c.vals.push(Val { v: got, begin, end: now, epoch });
                        c.hydrated = true;
                    } else {
                        ensure!(
                            Some(&got) == c.vals.last().map(|v| &v.v),
                            &["C14", "C12", "C23", "C28"],
                            "re-attached item {:?} has another value",
                            c.key
                        );
                    }
                    c.st = St::Live(h);
                    counts.hit("attached");
                }
            },
            St::Writing(mut t) => match t.poll() {
                Poll::Pending => c.st = St::Writing(t),
                Poll::Ready((h, r)) => {
                    ensure!(r.is_ok(), &["C14", "C23", "C28"], "write of {:?} failed: {r:?}", c.key);
                    c.vals.last_mut().unwrap().end = now;
                    c.st = St::Live(h);
                    counts.hit("written");
                }
            },
            St::Detaching(mut t) => match t.poll() {
                Poll::Pending => c.st = St::Detaching(t),
                Poll::Ready(r) => {
                    ensure!(r.is_ok(), &["C12", "C23", "C28"], "detach of {:?} failed: {r:?}", c.key);
                    c.epochs.last_mut().unwrap().detached = now;
                    c.parked = false;
                    counts.hit("detached");
                }
            },
            st => {
                // next operation of the script
                let ev = self.scripts[i][c.pos];
                c.pos += 1;
                match (ev, st) {
                    (CEv::Attach(def) | CEv::AttachCancel(def, _), St::Idle) => {
                        if c.epochs.last().is_none_or(|e| e.detached != NEVER) {
                            c.epochs.push(Epoch { begin: now, attached: NEVER, detach_begin: NEVER, detached: NEVER });
                        }
                        let left = if let CEv::AttachCancel(_, k) = ev { Some(k) } else { None };
                        let f = sys.attach(c.idx, 0, def, c.calls.clone());
                        c.st = St::Attaching(Task::new(f), def, left);
                    }
                    (CEv::Write(v), St::Live(mut h)) => {
                        let b = sys.make(c.idx, v);
                        c.vals.push(Val { v: b, begin: now, end: NEVER, epoch: c.epochs.len() - 1 });
                        c.st = St::Writing(Task::new(Box::pin(async move {
                            let r = h.write(v).await;
                            (h, r)
                        })));
                    }
                    (CEv::WriteCancel(v, polls), St::Live(mut h)) => {
                        let b = sys.make(c.idx, v);
                        let old = h.load();
                        let mut done = false;
                        {
                            let mut t = Task::new(h.write(v));
                            for _ in 0..=polls {
                                if let Poll::Ready(r) = t.poll() {
                                    ensure!(r.is_ok(), &["C14", "C23", "C28"], "write of {:?} failed: {r:?}", c.key);
                                    done = true;
                                    break;
                                }
                            }
                        }
                        let got = h.load();
                        ensure!(
                            got == b || (!done && got == old),
                            &["C14", "C23", "C28"],
                            "after an abandoned write item {:?} loads {}",
                            c.key,
                            hex(&got)
                        );
                        if got == b {
                            c.vals.push(Val { v: b, begin: now, end: now, epoch: c.epochs.len() - 1 });
                            counts.hit("written");
                        }
                        c.st = St::Live(h);
                    }
                    (CEv::Load, St::Live(h)) => {
                        let got = h.load();
                        ensure!(
                            Some(&got) == c.vals.last().map(|v| &v.v),
                            &["C14", "C23", "C28"],
                            "item {:?} loads {} but its last value is {:?}",
                            c.key,
                            hex(&got),
                            c.vals.last().map(|v| hex(&v.v))
                        );
                        c.st = St::Live(h);
                    }
                    (CEv::DropHandle, St::Live(h)) => {
                        drop(h);
                        c.parked = true;
                    }
                    (CEv::Detach, St::Live(h)) => {
                        drop(h);
                        c.epochs.last_mut().unwrap().detach_begin = now;
                        c.st = St::Detaching(Task::new(sys.detach(c.idx, 0)));
                    }
                    (CEv::DetachCancel(polls), St::Live(h)) => {
                        drop(h);
                        let mut t = Task::new(sys.detach(c.idx, 0));
                        c.parked = true;
                        for _ in 0..=polls {
                            if let Poll::Ready(r) = t.poll() {
                                ensure!(r.is_ok(), &["C12", "C23", "C28"], "detach of {:?} failed: {r:?}", c.key);
                                let ep = c.epochs.last_mut().unwrap();
                                (ep.detach_begin, ep.detached) = (now, now);
                                c.parked = false;
                                break;
                            }
                        }
                        counts.hit(if c.parked { "detach_cancelled" } else { "detached" });
                    }
                    (CEv::Pause(k), st) => {
                        c.st = St::Busy(
                            Task::new(Box::pin(async move {
                                for _ in 0..k {
                                    yield_once().await
                                }
                            })),
                            Box::new(st),
                        );
                    }
                    (CEv::Reset, st) => {
                        c.st = St::Busy(Task::new(sys.reset(0)), Box::new(st));
                    }
                    (_, st) => c.st = st,
                }
            }
        }
        Ok(())
    }

    /// Every flush stored, for every item, one value the item had during it.
    fn judge(&self, sys: &dyn Sys, sim: &Sim, flushes: &[FlushRec], counts: &mut Counts) -> R<()> {
        for c in &sim.cl {
            // index of the value stored last
            let mut at = 0usize;
            for (fi, f) in flushes.iter().enumerate() {
                let got = f.rec.as_ref().and_then(|r| r.get(c.key));
                // may the item be missing?
                let mut may_miss = true;
                for ep in &c.epochs {
                    if ep.attached < f.s && ep.detach_begin > f.e {
                        may_miss = false;
                    }
                }
                let Some(got) = got else {
                    ensure!(
                        may_miss,
                        &["C23"],
                        "flush #{fi} [{}..{}] did not store the attached item {:?}",
                        f.s,
                        f.e,
                        c.key
                    );
                    continue;
                };
                if f.elided && may_miss {
                    // an older record may contain anything for items that are not attached
                    continue;
                }
                // ... and what it has may be encoded in another way
                let got = if f.elided { sys.decode(c.idx, &got).unwrap_or(got) } else { got };
                let mut ok = None;
                let mut allowed = vec![];
                for (k, v) in c.vals.iter().enumerate() {
                    let next = c.vals.get(k + 1);
                    let gone = match next {
                        Some(n) if n.epoch == v.epoch => n.end,
                        _ => c.epochs[v.epoch].detached,
                    };
                    if v.begin <= f.e && gone >= f.s {
                        allowed.push(hex(&v.v));
                        if v.begin >= f.s && v.begin <= f.e || v.end >= f.s && v.end <= f.e {
                            counts.hit("overlap");
                        }
                        if v.v == got && k >= at && ok.is_none() {
                            ok = Some(k);
                        }
                    }
                }
                // an attach that never completed within this run: any stored value is the old one
                let pending = c.epochs.iter().any(|e| e.attached == NEVER && e.begin <= f.e);
                match ok {
                    Some(k) => at = k,
                    None if pending => {}
                    None => {
                        return fail(
                            &["C23"],
                            format!(
                                "flush #{fi} [{}..{}] stored {} for item {:?}, which during it had {allowed:?} (values in order: {:?})",
                                f.s,
                                f.e,
                                hex(&got),
                                c.key,
                                c.vals.iter().map(|v| format!("{}@{}..{}", hex(&v.v), v.begin, v.end)).collect::<Vec<_>>()
                            ),
                        );
                    }
                }
            }
        }
        Ok(())
    }

    /// With everything quiet, a last flush must leave exactly the final values.
    fn final_flush(&self, sim: &mut Sim) -> R<()> {
        sim.hw.ctls[0].yields.set(false);
        for w in [What::Read, What::Gc, What::Flush] {
            let f = sim.sys.as_ref().unwrap().op(0, w);
            match Task::new(f).run_ready() {
                Some(Ok(_)) => {}
                o => return fail(&["C23"], format!("closing {w:?}: {o:?}")),
            }
        }
        let el = match sim.hw.disks[0].elems() {
            Ok(e) => e,
            Err(e) => return fail(&["*"], format!("storage became unreadable: {e}")),
        };
        let r = refmodel::newest(&el);
        for c in &sim.cl {
            if let Some(e) = c.epochs.last() {
                if e.attached != NEVER && e.detached == NEVER {
                    let got = r.as_ref().and_then(|r| r.get(c.key));
                    // (data that was there before may be encoded in another way)
                    let got = got.map(|g| sim.sys.as_ref().unwrap().decode(c.idx, &g).unwrap_or(g));
                    ensure!(
                        got.as_ref() == c.vals.last().map(|v| &v.v),
                        &["C23"],
                        "at the end {:?} is stored for item {:?} instead of {:?}",
                        got.map(|v| hex(&v)),
                        c.key,
                        c.vals.last().map(|v| hex(&v.v))
                    );
                }
            }
        }
        Ok(())
    }
}

fn st_name(s: &St) -> &'static str {
    match s {
        St::Idle => "idle",
        St::Attaching(..) => "attaching",
        St::Live(_) => "live",
        St::Writing(_) => "writing",
        St::Detaching(_) => "detaching",
        St::Busy(..) => "busy",
    }
}
