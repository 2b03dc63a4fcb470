//! Clients and a worker on real threads. Also compiled by the Miri driver in /verif/miri.
use crate::refmodel::{self, El, Rec};
use cfg_noodle::error::{Error, LoadStoreError};
use cfg_noodle::minicbor::{self, CborLen, Decode, Encode};
use cfg_noodle::{Elem, NdlDataStorage, NdlElemIter, NdlElemIterNode, SerData, StorageList, StorageListNode, StorageListNodeHandle};
use mutex::raw_impls::cs::CriticalSectionRawMutex;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::num::NonZeroU32;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::thread::Thread;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum MEv {
    Attach(bool),
    /// attach, given up after this many polls
    AttachCancel(u8),
    Write,
    Load,
    /// two other threads load
    Away,
    DropHandle,
    Detach,
    /// attach, write, load and drop an item all clients share, on one of the two lists;
    /// or another item with the same key
    Shared(u8, bool),
    SharedDetach(u8, bool),
    Yield(u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum MOp {
    Read,
    Flush,
    Gc,
    /// given up after this many polls
    Cancel(Call, u8),
    Reset,
    Yield(u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Call {
    Read,
    Flush,
    Gc,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mt {
    pub clients: Vec<Vec<MEv>>,
    /// what the worker does before it begins its rounds (true: on the second list)
    pub worker: Vec<(bool, MOp)>,
    /// the worker waits for requests instead of polling
    pub signals: bool,
    /// reading and collecting happens on a second thread
    pub two: bool,
    /// every so many storage operations one fails (0: none)
    pub faults: u8,
}

#[derive(Clone, Copy, Debug, Default, Serialize, Deserialize)]
pub struct Stats {
    pub flushes: u64,
    pub judged: u64,
    pub overlapping: u64,
    pub attached: u64,
    pub contended: u64,
    /// storage operations refused or failed
    pub failed: u64,
}
impl Stats {
    #[allow(dead_code)]
    pub fn add(&mut self, o: &Stats) {
        self.flushes += o.flushes;
        self.judged += o.judged;
        self.overlapping += o.overlapping;
        self.attached += o.attached;
        self.contended += o.contended;
        self.failed += o.failed;
    }
}

// ------------------------------------------------------------------ values

/// A value all of whose parts say the same.
#[derive(Debug, PartialEq)]
pub struct Val {
    b: Box<u64>,
    l: [u64; 4],
}
impl Val {
    fn new(n: u64) -> Val {
        Val { b: Box::new(n), l: [n; 4] }
    }
    fn get(&self) -> Result<u64, String> {
        if self.l.iter().all(|x| *x == *self.b) { Ok(*self.b) } else { Err(format!("torn value {self:?}")) }
    }
}
impl Default for Val {
    fn default() -> Val {
        Val::new(0)
    }
}
impl Clone for Val {
    fn clone(&self) -> Val {
        let b = self.b.clone();
        if !cfg!(miri) {
            std::hint::spin_loop();
        }
        Val { b, l: self.l }
    }
}
impl<C> Encode<C> for Val {
    fn encode<W: minicbor::encode::Write>(
        &self,
        e: &mut minicbor::Encoder<W>,
        _: &mut C,
    ) -> Result<(), minicbor::encode::Error<W::Error>> {
        e.array(5)?.u64(*self.b)?;
        for x in self.l {
            e.u64(x)?;
        }
        Ok(())
    }
}
impl<'b, C> Decode<'b, C> for Val {
    fn decode(d: &mut minicbor::Decoder<'b>, _: &mut C) -> Result<Val, minicbor::decode::Error> {
        if d.array()? != Some(5) {
            return Err(minicbor::decode::Error::message("length"));
        }
        let b = Box::new(d.u64()?);
        let mut l = [0; 4];
        for x in &mut l {
            *x = d.u64()?;
        }
        Ok(Val { b, l })
    }
}
impl<C> CborLen<C> for Val {
    fn cbor_len(&self, c: &mut C) -> usize {
        1 + self.b.cbor_len(c) + self.l.iter().map(|x| x.cbor_len(c)).sum::<usize>()
    }
}

fn stored(r: &Rec, key: &str) -> Option<Result<u64, String>> {
    let b = r.get(key)?;
    Some(minicbor::decode::<Val>(&b).map_err(|e| format!("stored value of {key} does not decode: {e}")).and_then(|v| v.get()))
}

// ------------------------------------------------------------------ storage

pub type Disk = Arc<Mutex<Vec<Vec<u8>>>>;
pub struct Faults {
    every: AtomicUsize,
    n: AtomicUsize,
}
impl Faults {
    async fn point(&self) -> Result<(), ()> {
        pause().await;
        let e = self.every.load(SeqCst);
        // (faults end: with one in every read, nobody would ever be attached)
        let n = if e == 0 { 0 } else { self.n.fetch_add(1, SeqCst) + 1 };
        if n != 0 && n % e == 0 && n / e <= 24 {
            return Err(());
        }
        Ok(())
    }
}
/// (the last: faults that this one's user saw)
#[derive(Clone)]
pub struct Mem(Disk, Arc<Faults>, Arc<AtomicUsize>);
impl Mem {
    async fn point(&self) -> Result<(), ()> {
        let r = self.1.point().await;
        if r.is_err() {
            self.2.fetch_add(1, SeqCst);
        }
        r
    }
}
pub struct It(Mem, usize);
pub struct Nd<'i, 'b>(Mem, &'i mut usize, &'b [u8]);

/// Lets others run; sometimes returns to the executor.
async fn pause() {
    breathe();
    let mut first = true;
    std::future::poll_fn(|cx| {
        if std::mem::replace(&mut first, false) {
            cx.waker().wake_by_ref();
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    })
    .await
}

fn breathe() {
    // (yielding is slow on a busy machine)
    thread_local!(static N: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });
    let n = N.get().wrapping_add(1);
    N.set(n);
    if cfg!(miri) || n % 4 == 0 {
        std::thread::yield_now();
    } else {
        std::hint::spin_loop();
    }
}

impl NdlDataStorage for Mem {
    type Iter<'this> = It;
    type Error = ();
    async fn iter_elems<'this>(&'this mut self) -> Result<It, ()> {
        self.point().await?;
        Ok(It(self.clone(), 0))
    }
    async fn push(&mut self, data: &Elem<'_>) -> Result<usize, ()> {
        let b = match data {
            Elem::Start { seq_no } => refmodel::enc_start(seq_no.get()),
            Elem::Data { data } => {
                let mut v = vec![data.hdr()];
                v.extend_from_slice(data.key_val());
                v
            }
            Elem::End { seq_no, calc_crc } => refmodel::enc_end(seq_no.get(), *calc_crc),
        };
        self.point().await?;
        let n = b.len();
        self.0.lock().unwrap().push(b);
        Ok(n)
    }
    const MAX_ELEM_SIZE: usize = 128;
}
impl NdlElemIter for It {
    type Item<'this, 'buf>
        = Nd<'this, 'buf>
    where
        Self: 'this,
        Self: 'buf;
    type Error = ();
    async fn next<'iter, 'buf>(&'iter mut self, buf: &'buf mut [u8]) -> Result<Option<Nd<'iter, 'buf>>, ()>
    where
        Self: 'buf,
        Self: 'iter,
    {
        self.0.point().await?;
        let Some(e) = self.0.0.lock().unwrap().get(self.1).cloned() else { return Ok(None) };
        buf[..e.len()].copy_from_slice(&e);
        self.1 += 1;
        Ok(Some(Nd(self.0.clone(), &mut self.1, &buf[..e.len()])))
    }
}
impl NdlElemIterNode for Nd<'_, '_> {
    type Error = ();
    fn data(&self) -> Option<Elem<'_>> {
        match refmodel::decode(self.2) {
            El::Bad => None,
            El::Start(s) => Some(Elem::Start { seq_no: NonZeroU32::new(s)? }),
            El::End(s, c) => Some(Elem::End { seq_no: NonZeroU32::new(s)?, calc_crc: c }),
            El::Data(_) => Some(Elem::Data { data: SerData::from_existing(self.2)? }),
        }
    }
    fn len(&self) -> usize {
        self.2.len()
    }
    async fn invalidate(self) -> Result<(), ()> {
        self.0.point().await?;
        self.0.0.lock().unwrap().remove(*self.1 - 1);
        *self.1 -= 1;
        Ok(())
    }
}

// ------------------------------------------------------------------ executor

struct Unpark(Thread, AtomicBool);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.1.store(true, SeqCst);
        self.0.unpark();
    }
}

/// A task that was not woken in this many turns of 50 ms will never be.
const STUCK: u32 = 1200;

pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let u = Arc::new(Unpark(std::thread::current(), AtomicBool::new(false)));
    let w = Waker::from(u.clone());
    let mut cx = Context::from_waker(&w);
    loop {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
        let mut n = 0;
        while !u.1.swap(false, SeqCst) {
            if cfg!(miri) {
                std::thread::park();
            } else {
                std::thread::park_timeout(std::time::Duration::from_millis(50));
                n += 1;
                if n > STUCK {
                    panic!("a task waits for ever");
                }
            }
        }
    }
}

// ------------------------------------------------------------------ the test

type R = CriticalSectionRawMutex;
type L = StorageList<R, 2>;
type H = StorageListNodeHandle<Val, R, 2>;
const KEYS: [&str; 6] = ["k0", "k1", "k2", "k3", "k4", "k5"];
const SHARED: &str = "shared";

/// What the clients say about an item.
#[derive(Default)]
struct Say {
    /// odd: attached by its client, and stays so until it changes
    epoch: AtomicUsize,
    /// value of the write that was begun last, and of the one that was completed last
    begun: AtomicU64,
    done: AtomicU64,
}

struct Side {
    list: *mut L,
    disk: Disk,
    /// only one operation has the storage at a time, as `&mut` storage has it
    turn: Mutex<()>,
    /// somebody has a handle of an item with the shared key
    owner: AtomicBool,
}

struct World {
    sides: [Side; 2],
    nodes: Vec<*mut StorageListNode<Val>>,
    /// two items with the same key
    shared: [*mut StorageListNode<Val>; 2],
    owner: [AtomicBool; 2],
    shared_n: AtomicU64,
    say: Vec<Say>,
    left: AtomicUsize,
    /// events begun by clients
    steps: AtomicUsize,
    faults: Arc<Faults>,
    /// wakes a worker that waits for requests
    finished: Mutex<Option<Waker>>,
    stats: Mutex<Stats>,
}
// SAFETY: the pointers come from boxes that are freed after all threads have ended
unsafe impl Send for World {}
unsafe impl Sync for World {}
impl World {
    fn list(&self, l: usize) -> &'static L {
        unsafe { &*self.sides[l].list }
    }
    fn node(&self, i: usize) -> &'static StorageListNode<Val> {
        unsafe { &*self.nodes[i] }
    }
    fn shared(&self, i: usize) -> &'static StorageListNode<Val> {
        unsafe { &*self.shared[i] }
    }
    fn mem(&self, l: usize) -> Mem {
        Mem(self.sides[l].disk.clone(), self.faults.clone(), Default::default())
    }
}
impl Drop for World {
    fn drop(&mut self) {
        if std::thread::panicking() {
            return;
        }
        unsafe {
            for s in &self.sides {
                drop(Box::from_raw(s.list));
            }
            for n in self.nodes.iter().chain(&self.shared) {
                drop(Box::from_raw(*n));
            }
        }
    }
}

fn poll_times<F: Future>(f: F, n: u8) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..n {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return Some(r);
        }
        breathe();
    }
    None
}

fn client(w: &World, i: usize, script: &[MEv]) -> Result<Option<u64>, String> {
    let say = &w.say[i];
    let mut h: Option<H> = None;
    // last value, if the item is on the list
    let mut last: Option<u64> = None;
    let mut counter = 0u64;
    let attached = |h: &H, last: &mut Option<u64>, counter: u64| -> Result<(), String> {
        if h.key() != KEYS[i] {
            return Err(format!("handle of {} says it is {}", KEYS[i], h.key()));
        }
        let v = h.load().get()?;
        if let Some(l) = *last {
            if l != v {
                return Err(format!("re-attached item has the value {v} instead of {l}"));
            }
        }
        if v > counter {
            return Err(format!("attached item has the value {v}, never written"));
        }
        *last = Some(v);
        say.begun.store(v, SeqCst);
        say.done.store(v, SeqCst);
        say.epoch.fetch_add(1, SeqCst);
        Ok(())
    };
    for e in script {
        w.steps.fetch_add(1, SeqCst);
        match *e {
            MEv::Attach(def) if h.is_none() => {
                let r = if def {
                    block_on(w.node(i).attach_with_default(w.list(0), Val::default))
                } else {
                    block_on(w.node(i).attach(w.list(0)))
                };
                let x = r.map_err(|e| format!("attach fails: {e:?}"))?;
                attached(&x, &mut last, counter)?;
                h = Some(x);
            }
            MEv::AttachCancel(n) if h.is_none() => match poll_times(w.node(i).attach(w.list(0)), n) {
                Some(r) => {
                    let x = r.map_err(|e| format!("attach fails: {e:?}"))?;
                    attached(&x, &mut last, counter)?;
                    h = Some(x);
                }
                None => {}
            },
            MEv::Write => {
                if let Some(x) = h.as_mut() {
                    counter += 1;
                    say.begun.store(counter, SeqCst);
                    block_on(x.write(&Val::new(counter))).map_err(|e| format!("write fails: {e:?}"))?;
                    last = Some(counter);
                    say.done.store(counter, SeqCst);
                }
            }
            MEv::Load => {
                if let Some(x) = h.as_ref() {
                    let v = x.load().get()?;
                    if Some(v) != last {
                        return Err(format!("loads {v} instead of {last:?}"));
                    }
                }
            }
            MEv::DropHandle => {
                if h.is_some() {
                    // (the item stays on the list, but the epoch ends: the next attach begins a new one)
                    say.epoch.fetch_add(1, SeqCst);
                    h = None;
                }
            }
            MEv::Detach => {
                if h.take().is_some() {
                    say.epoch.fetch_add(1, SeqCst);
                }
                block_on(w.node(i).detach(w.list(0))).map_err(|e| format!("detach fails: {e:?}"))?;
                last = None;
            }
            MEv::Away => {
                if let Some(x) = h.as_ref() {
                    let (a, b) = std::thread::scope(|s| {
                        let a = s.spawn(|| x.load().get());
                        let b = s.spawn(|| x.load().get());
                        (a.join(), b.join())
                    });
                    for v in [a, b] {
                        let v = v.map_err(|p| panic_text(&*p))??;
                        if Some(v) != last {
                            return Err(format!("another thread loads {v} instead of {last:?}"));
                        }
                    }
                }
            }
            MEv::Shared(n, other) => {
                let (n, l) = (n as usize % 2, usize::from(other));
                match block_on(w.shared(n).attach(w.list(l))) {
                    Ok(mut x) => {
                        if w.owner[n].swap(true, SeqCst) {
                            return Err("two handles of one item at the same time".into());
                        }
                        if w.sides[l].owner.swap(true, SeqCst) {
                            return Err("two items with the same key on one list at the same time".into());
                        }
                        let top = w.shared_n.load(SeqCst);
                        let v = x.load().get()?;
                        if v > top {
                            return Err(format!("shared item has the value {v}, never written"));
                        }
                        let m = w.shared_n.fetch_add(1, SeqCst) + 1;
                        block_on(x.write(&Val::new(m))).map_err(|e| format!("write fails: {e:?}"))?;
                        let v = x.load().get()?;
                        if v != m {
                            return Err(format!("loads {v} instead of {m}"));
                        }
                        w.sides[l].owner.store(false, SeqCst);
                        w.owner[n].store(false, SeqCst);
                        drop(x);
                    }
                    Err(Error::AlreadyTaken | Error::NodeInOtherList | Error::DuplicateKey) => {
                        w.stats.lock().unwrap().contended += 1
                    }
                    Err(e) => return Err(format!("attach of the shared item fails: {e:?}")),
                }
            }
            MEv::SharedDetach(n, other) => {
                match block_on(w.shared(n as usize % 2).detach(w.list(usize::from(other)))) {
                    Ok(()) => {}
                    Err(Error::AlreadyTaken | Error::NodeInOtherList) => w.stats.lock().unwrap().contended += 1,
                    Err(e) => return Err(format!("detach of the shared item fails: {e:?}")),
                }
            }
            MEv::Yield(n) => {
                for _ in 0..n {
                    breathe()
                }
            }
            _ => {}
        }
    }
    if h.is_some() {
        w.stats.lock().unwrap().attached += 1;
    }
    Ok(last)
}

struct Seen {
    epoch: Vec<usize>,
    n: Vec<u64>,
}
fn look(w: &World, begun: bool) -> Seen {
    Seen {
        epoch: w.say.iter().map(|s| s.epoch.load(SeqCst)).collect(),
        n: w.say.iter().map(|s| if begun { s.begun.load(SeqCst) } else { s.done.load(SeqCst) }).collect(),
    }
}

/// Whether the operation took effect.
fn operate(w: &World, l: usize, st: &mut Mem, buf: &mut [u8], op: MOp) -> Result<bool, String> {
    let r = call(w, l, st, buf, op)?;
    if !r {
        w.stats.lock().unwrap().failed += 1;
    }
    Ok(r)
}

fn call(w: &World, l: usize, st: &mut Mem, buf: &mut [u8], op: MOp) -> Result<bool, String> {
    let list = w.list(l);
    let _turn = w.sides[l].turn.lock().unwrap_or_else(|e| e.into_inner());
    let f0 = st.2.load(SeqCst);
    let faults = st.2.clone();
    let hit = || faults.load(SeqCst) != f0;
    match op {
        MOp::Read => match block_on(list.process_reads(st, buf)) {
            Ok(_) => Ok(true),
            Err(_) if hit() => Ok(false),
            Err(e) => Err(format!("read fails: {e:?}")),
        },
        MOp::Gc => match block_on(list.process_garbage(st, buf)) {
            Ok(_) => Ok(true),
            Err(LoadStoreError::AppError(Error::NeedsFirstRead)) => Ok(false),
            Err(_) if hit() => Ok(false),
            Err(e) => Err(format!("collection fails: {e:?}")),
        },
        MOp::Cancel(c, n) => Ok(match c {
            Call::Read => poll_times(list.process_reads(st, buf), n).is_some(),
            Call::Flush => poll_times(list.process_writes(st, buf), n).is_some(),
            Call::Gc => poll_times(list.process_garbage(st, buf), n).is_some(),
        }),
        MOp::Reset => {
            block_on(list.reset_cache());
            Ok(true)
        }
        MOp::Yield(n) => {
            for _ in 0..n {
                breathe()
            }
            Ok(true)
        }
        MOp::Flush => {
            let a = look(w, false);
            match block_on(list.process_writes(st, buf)) {
                Ok(_) => {}
                Err(LoadStoreError::AppError(Error::NeedsFirstRead | Error::NeedsGarbageCollect)) => return Ok(false),
                Err(_) if hit() => return Ok(false),
                Err(e) => return Err(format!("flush fails: {e:?}")),
            }
            let rec = refmodel::newest(&w.sides[l].disk.lock().unwrap());
            let b = look(w, true);
            let mut s = w.stats.lock().unwrap();
            s.flushes += 1;
            let get = |k: &str| rec.as_ref().and_then(|r| stored(r, k)).transpose();
            for i in 0..w.say.len() {
                if l != 0 {
                    break;
                }
                let got = get(KEYS[i])?;
                if a.epoch[i] % 2 == 0 || a.epoch[i] != b.epoch[i] {
                    continue;
                }
                s.judged += 1;
                if a.n[i] != b.n[i] {
                    s.overlapping += 1;
                }
                match got {
                    None => return Err(format!("flush did not store the attached item {}", KEYS[i])),
                    Some(v) if v < a.n[i] => {
                        return Err(format!("flush stored {v} for {}, although {} was written before it began", KEYS[i], a.n[i]));
                    }
                    Some(v) if v > b.n[i] => {
                        return Err(format!("flush stored {v} for {}, not written before it ended ({})", KEYS[i], b.n[i]));
                    }
                    Some(_) => {}
                }
            }
            if let Some(v) = get(SHARED)? {
                if v > w.shared_n.load(SeqCst) {
                    return Err("flush stored a value of the shared item that was never written".into());
                }
            }
            Ok(true)
        }
    }
}

/// (only counted under Miri, where time does not tell)
const IDLE: usize = 2000;

const ROUND: [MOp; 4] = [MOp::Read, MOp::Gc, MOp::Flush, MOp::Gc];

fn worker(w: &World, script: &[(bool, MOp)], signals: bool) -> Result<(), String> {
    let mut st = [w.mem(0), w.mem(1)];
    let mut buf = vec![0u8; Mem::MAX_ELEM_SIZE];
    for (l, op) in script {
        let l = usize::from(*l);
        operate(w, l, &mut st[l], &mut buf, *op)?;
    }
    let mut all = true;
    let mut idle = (0, 0);
    while w.left.load(SeqCst) > 0 {
        let now = w.steps.load(SeqCst);
        idle = if now == idle.0 { (now, idle.1 + 1) } else { (now, 0) };
        if cfg!(miri) && idle.1 > IDLE {
            die(&format!("{IDLE} rounds of the worker did not bring any client forward"));
        }
        if signals && all {
            let mut f: [std::pin::Pin<Box<dyn Future<Output = ()>>>; 4] = [
                Box::pin(w.list(0).needs_read()),
                Box::pin(w.list(0).needs_write()),
                Box::pin(w.list(1).needs_read()),
                Box::pin(w.list(1).needs_write()),
            ];
            block_on(std::future::poll_fn(|cx| {
                *w.finished.lock().unwrap() = Some(cx.waker().clone());
                let go = w.left.load(SeqCst) == 0 || f.iter_mut().any(|f| f.as_mut().poll(cx).is_ready());
                if go { Poll::Ready(()) } else { Poll::Pending }
            }));
        }
        all = true;
        for l in 0..2 {
            for op in ROUND {
                all &= operate(w, l, &mut st[l], &mut buf, op)?;
            }
        }
        breathe();
    }
    Ok(())
}

/// The clients would wait for ever.
fn die(m: &str) -> ! {
    println!("FAILED {m}");
    std::process::exit(1)
}

/// Closes the account of a client, also when it fails.
struct Leave<'a>(&'a World);
impl Drop for Leave<'_> {
    fn drop(&mut self) {
        self.0.left.fetch_sub(1, SeqCst);
        if let Some(w) = self.0.finished.lock().unwrap_or_else(|e| e.into_inner()).take() {
            w.wake()
        }
    }
}

impl Mt {
    pub fn run(&self) -> Result<Stats, String> {
        let n = self.clients.len().min(KEYS.len());
        let mut w = World {
            sides: std::array::from_fn(|_| Side {
                list: Box::into_raw(Box::new(L::new())),
                disk: Disk::default(),
                turn: Mutex::new(()),
                owner: AtomicBool::new(false),
            }),
            nodes: (0..n).map(|i| Box::into_raw(Box::new(StorageListNode::new(KEYS[i])))).collect(),
            shared: std::array::from_fn(|_| Box::into_raw(Box::new(StorageListNode::new(SHARED)))),
            owner: Default::default(),
            shared_n: AtomicU64::new(0),
            say: (0..n).map(|_| Say::default()).collect(),
            left: AtomicUsize::new(n),
            steps: AtomicUsize::new(0),
            faults: Arc::new(Faults { every: AtomicUsize::new(self.faults as usize), n: AtomicUsize::new(0) }),
            finished: Mutex::new(None),
            stats: Mutex::default(),
        };
        let wr = &w;
        let lasts = std::thread::scope(|s| {
            let cs: Vec<_> = (0..n)
                .map(|i| {
                    s.spawn(move || {
                        let _l = Leave(wr);
                        client(wr, i, &self.clients[i]).map_err(|e| format!("client {i}: {e}"))
                    })
                })
                .collect();
            let wk = s.spawn(move || worker(wr, &self.worker, self.signals).unwrap_or_else(|e| die(&format!("worker: {e}"))));
            let second = self.two.then(|| {
                s.spawn(move || {
                    let mut st = [wr.mem(0), wr.mem(1)];
                    let mut buf = vec![0u8; Mem::MAX_ELEM_SIZE];
                    while wr.left.load(SeqCst) > 0 {
                        for (l, op) in [(0, MOp::Read), (0, MOp::Gc), (1, MOp::Read), (1, MOp::Gc)] {
                            if let Err(e) = operate(wr, l, &mut st[l], &mut buf, op) {
                                die(&format!("worker: {e}"));
                            }
                        }
                        breathe();
                    }
                })
            });
            let mut lasts = vec![];
            let mut err: Option<String> = None;
            let mut bad = |e: String| {
                err.get_or_insert(e);
            };
            for c in cs {
                match c.join() {
                    Ok(Ok(l)) => lasts.push(l),
                    Ok(Err(e)) => bad(e),
                    Err(p) => bad(format!("client panicked: {}", panic_text(&*p))),
                }
            }
            for t in [Some(wk), second].into_iter().flatten() {
                match t.join() {
                    Ok(()) => {}
                    Err(p) => bad(format!("worker panicked: {}", panic_text(&*p))),
                }
            }
            match err {
                Some(e) => Err(e),
                None => Ok(lasts),
            }
        })?;
        // everything is stored in the end
        w.faults.every.store(0, SeqCst);
        let mut buf = vec![0u8; Mem::MAX_ELEM_SIZE];
        for op in ROUND {
            for l in 0..2 {
                // (a list without items is not read, and then nothing can be stored)
                if !operate(&w, l, &mut w.mem(l), &mut buf, op)? && lasts.iter().any(|l| l.is_some()) && l == 0 {
                    return Err(format!("{op:?} refused at the end"));
                }
            }
        }
        let rec = refmodel::newest(&w.sides[0].disk.lock().unwrap());
        for (i, l) in lasts.iter().enumerate() {
            if let Some(l) = l {
                match rec.as_ref().and_then(|r| stored(r, KEYS[i])).transpose()? {
                    Some(v) if v == *l => {}
                    o => return Err(format!("at the end {o:?} is stored for {} instead of {l}", KEYS[i])),
                }
            }
        }
        let stats = *w.stats.get_mut().unwrap();
        Ok(stats)
    }
}

pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}

