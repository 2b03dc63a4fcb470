//! Stateful engine: runs a generated history of operations against the real library and
//! an abstract model of it, comparing after every step.
use crate::disk::*;
use crate::refmodel::{self, Rec};
use crate::sim::Task;
use crate::sys::*;
use crate::vals::{self, Def, DynHandle, V};
use cfg_noodle::error::Error;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

/// A violated oracle, with the properties it speaks about ("*": any).
#[derive(Clone, Debug)]
pub struct Fail {
    pub tags: Vec<&'static str>,
    pub msg: String,
}
pub type R<T> = Result<T, Fail>;

pub fn fail<T>(tags: &[&'static str], msg: impl Into<String>) -> R<T> {
    Err(Fail { tags: tags.to_vec(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $tags:expr, $($a:tt)*) => {
        if !$c { return $crate::engine::fail($tags, format!($($a)*)); }
    };
}

/// Like `ensure!`, but if the failure is not one of the property under check, the case goes on (the model takes
/// over what happened as far as it can), so that one broken property does not hide another.
#[macro_export]
macro_rules! soft_ensure {
    ($c:expr, $tags:expr, $($a:tt)*) => {
        if !$c { $crate::engine::soft($tags, || format!($($a)*))?; }
    };
}

thread_local! {
    static CHECKED: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
    static PASSED_OVER: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

/// The property whose check runs on this thread.
pub fn set_checked(id: Option<&str>) {
    CHECKED.with(|c| *c.borrow_mut() = id.map(|s| s.to_string()));
    PASSED_OVER.with(|c| *c.borrow_mut() = None);
}

/// The first failure of another property in this case, if any.
pub fn passed_over() -> Option<String> {
    PASSED_OVER.with(|c| c.borrow().clone())
}

pub fn soft(tags: &[&'static str], msg: impl Fn() -> String) -> R<()> {
    let hard = CHECKED.with(|c| match &*c.borrow() {
        Some(id) => tags.iter().any(|t| t == id || *t == "*" || t.starts_with("KNOWN")),
        None => true,
    });
    if hard {
        return fail(tags, msg());
    }
    PASSED_OVER.with(|c| {
        c.borrow_mut().get_or_insert_with(|| format!("[{}] {}", tags.join(","), msg()));
    });
    Ok(())
}

pub const KEYS: [&str; 8] = [
    "a",
    "cfg/b",
    "config/a-rather-long-key-name",
    "dfg/b",
    "",
    "schl\u{fc}ssel/\u{e9}",
    "cfg/bb",
    "g0123456789012345678901",
];

/// Keys with lengths around the limits of their encoding.
const LONG: [usize; 9] = [22, 23, 24, 25, 60, 70, 255, 256, 257];

/// Key of the `i`-th of `n` items, all different up to 100 items; `o` shifts the choice.
pub fn nth_key(i: usize, n: usize, o: u8) -> u8 {
    if n <= KEYS.len() || i < KEYS.len() { (i as u8).wrapping_add(o) % KEYS.len() as u8 } else { 16 + (i - KEYS.len()) as u8 }
}

pub fn key_name(k: u8) -> &'static str {
    static L: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    static N: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    if k < 16 {
        return KEYS[k as usize % KEYS.len()];
    }
    if k < 128 {
        // keys that share beginnings, ends and lengths
        let n = N.get_or_init(|| {
            (0..112).map(|i| &*Box::leak(format!("{}{}", ["n/", "m/", "n/1", "m/x/"][i % 4], i / 2).into_boxed_str())).collect()
        });
        return n[k as usize - 16];
    }
    let l = L.get_or_init(|| {
        LONG.iter()
            .map(|n| {
                let s: String = (0..*n).map(|i| (b'a' + ((i * 3 + n) % 26) as u8) as char).collect();
                &*Box::leak(s.into_boxed_str())
            })
            .collect()
    });
    l[(k - 128) as usize % l.len()]
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Dmg {
    Flip { e: u8, bit: u16 },
    Del { e: u8 },
    Trunc { e: u8, n: u8 },
    Unknown { e: u8, h: u8 },
    /// all elements from the newest record's `e`-th on disappear
    CutTail { e: u8 },
    /// insert an unknown element
    Insert { e: u8, h: u8 },
    /// insert a stray start/data/end element
    Stray { e: u8, k: u8, seq: u8 },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
    Attach { it: u8, l: u8, def: Def },
    AttachAll { l: u8 },
    CancelAttach { it: u8 },
    DropHandle { it: u8 },
    Detach { it: u8, l: u8 },
    Write { it: u8, v: V },
    Store { l: u8, what: What, f: Option<Fault> },
    /// read, collect, flush, collect without faults
    Cycle { l: u8 },
    Reset { l: u8 },
    /// storage replaced under the running system: 0 wiped, 1 older image, 2 foreign data; then documented recovery
    Swap { l: u8, how: u8 },
    Reboot { rot: u8 },
    Damage { l: u8, d: Dmg, d2: Option<Dmg> },
    /// power is cut during this call; the next boot attaches and reads
    Cut { l: u8, what: What, at: u16, k: u16 },
    WaitRead { l: u8 },
    WaitWrite { l: u8 },
    /// poll a waiting attach although it was not woken
    Poke { it: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub cfg: StoreCfg,
    pub kept: u8,
    pub nl: u8,
    pub items: Vec<(u8, u8)>,
    pub ops: Vec<Op>,
    /// the storage has been in use: it holds an (empty) record with this number
    #[serde(default)]
    pub num: u32,
    /// ... after this many elements that belong to no intact record (memory only)
    #[serde(default)]
    pub bulk: u32,
}

impl Case {
    pub fn start(&self) -> R<Eng> {
        let mut e = Eng::new(self.cfg, self.kept, self.nl.max(1) as usize, &self.items, Lim::default());
        e.preset(self.num, self.bulk)?;
        Ok(e)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tri {
    No,
    Yes,
    Unk,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Hyd {
    Initial,
    /// a failed read may or may not have filled it
    Maybe,
    NonRes,
    Valid,
}

pub type Snap = BTreeMap<String, Vec<u8>>;

enum Hand {
    None,
    Waiting(Task<'static, Result<Box<dyn DynHandle>, Error>>),
    Live(Box<dyn DynHandle>),
}

struct Item {
    kind: u8,
    key: &'static str,
    idx: usize,
    at: Option<usize>,
    /// a handle was given out
    used: bool,
    hyd: Hyd,
    val: Option<Vec<u8>>,
    dirty: bool,
    hand: Hand,
    calls: Rc<Cell<u32>>,
    def: Def,
    /// what it may have been filled with, while undecided (`Hyd::Maybe`); `None`: nothing stored
    cands: Vec<Option<Vec<u8>>>,
}

struct Waiter {
    task: Option<Task<'static, ()>>,
    permit: bool,
}

struct ListM {
    scanned: Tri,
    gc: Tri,
    acked: Option<Snap>,
    acked_seq: u32,
    maybe: Vec<Snap>,
    /// flushes since the last successful one that were undone after they had written something
    undone: u32,
    rd: Waiter,
    wr: Waiter,
    olds: Vec<Disk>,
}

impl ListM {
    fn new() -> Self {
        ListM {
            scanned: Tri::No,
            gc: Tri::No,
            acked: None,
            acked_seq: 0,
            maybe: vec![],
            undone: 0,
            rd: Waiter { task: None, permit: false },
            wr: Waiter { task: None, permit: false },
            olds: vec![],
        }
    }
}

#[derive(Default, Debug, Clone)]
pub struct Counts {
    pub m: BTreeMap<&'static str, u64>,
}
impl Counts {
    pub fn hit(&mut self, k: &'static str) {
        *self.m.entry(k).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.m.entry(k).or_insert(0) += n;
    }
    pub fn get(&self, k: &str) -> u64 {
        self.m.get(k).copied().unwrap_or(0)
    }
}

pub struct Eng {
    pub hw: Hw,
    sys: Option<Box<dyn Sys>>,
    items: Vec<Item>,
    lists: Vec<ListM>,
    /// properties concerned because of events in this history
    hist: BTreeSet<&'static str>,
    pub counts: Counts,
    kept: usize,
    clean_exit: bool,
    /// size of the scratch buffers, relative to the largest element
    buf_delta: i32,
    /// properties that speak about the operation being executed
    now: &'static [&'static str],
}

/// Size limits of the simulated storage.
#[derive(Clone, Copy, Debug, Default)]
pub struct Lim {
    /// capacity in bytes of in-memory queues
    pub cap: Option<usize>,
    /// number of NOR pages
    pub pages: Option<usize>,
}

pub enum Res {
    Ok(Cnt),
    Err(OpErr),
    Cancelled,
}

pub fn snap_of(r: &Rec) -> Snap {
    r.kv().into_iter().collect()
}

fn is_subseq(a: &[Vec<u8>], b: &[Vec<u8>]) -> bool {
    let mut i = 0;
    for x in b {
        if i < a.len() && a[i] == *x {
            i += 1
        }
    }
    i == a.len()
}

pub fn show(e: &[Vec<u8>]) -> String {
    let v: Vec<String> = e
        .iter()
        .map(|b| match refmodel::decode(b) {
            refmodel::El::Start(s) => format!("S{s}"),
            refmodel::El::Data(d) => match refmodel::split_kv(&d) {
                Some((k, v)) => format!("D[{k}={}]", hex(&v)),
                None => format!("D?[{}]", hex(&d)),
            },
            refmodel::El::End(s, _) => format!("E{s}"),
            refmodel::El::Bad => format!("X[{}]", hex(b)),
        })
        .collect();
    v.join(" ")
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

impl Drop for Eng {
    fn drop(&mut self) {
        if !self.clean_exit || std::thread::panicking() {
            // something is still attached or broken: leak rather than risk touching freed memory
            for i in self.items.drain(..) {
                std::mem::forget(i.hand)
            }
            for l in self.lists.drain(..) {
                std::mem::forget(l.rd.task);
                std::mem::forget(l.wr.task);
            }
            std::mem::forget(self.sys.take());
        }
    }
}

impl Eng {
    pub fn new(cfg: StoreCfg, kept: u8, nl: usize, items: &[(u8, u8)], lim: Lim) -> Eng {
        vals::live_reset();
        let mut hw = Hw::new(cfg, kept, nl);
        hw.limit(lim);
        let mut e = Eng {
            hw,
            sys: None,
            items: items
                .iter()
                .map(|(k, key)| Item {
                    kind: *k,
                    key: key_name(*key),
                    idx: 0,
                    at: None,
                    hyd: Hyd::Initial,
                    used: false,
                    val: None,
                    dirty: false,
                    hand: Hand::None,
                    calls: Rc::new(Cell::new(0)),
                    def: Def::Plain,
                    cands: vec![],
                })
                .collect(),
            lists: (0..nl).map(|_| ListM::new()).collect(),
            hist: BTreeSet::new(),
            counts: Counts::default(),
            kept: 0,
            clean_exit: false,
            buf_delta: 0,
            now: &[],
        };
        e.boot();
        e
    }

    pub fn run(case: &Case) -> (R<()>, Counts) {
        let mut e = match case.start() {
            Ok(e) => e,
            Err(f) => return (Err(f), Counts::default()),
        };
        let r = e.run_ops(&case.ops);
        let c = e.counts.clone();
        (r, c)
    }

    pub fn run_ops(&mut self, ops: &[Op]) -> R<()> {
        for (i, op) in ops.iter().enumerate() {
            self.step(op).map_err(|mut f| {
                f.msg = format!("op #{i} {op:?}: {}", f.msg);
                f
            })?;
        }
        self.finish().map_err(|mut f| {
            f.msg = format!("closing checks: {}", f.msg);
            f
        })
    }

    /// Storage that has been in use: it holds an empty record with this number (if not 0).
    pub fn preset(&mut self, num: u32, bulk: u32) -> R<()> {
        let bulk = if self.mem() { bulk } else { 0 };
        let junk = |i: u32| match i % 5 {
            0 => refmodel::enc_start(1 + i % 7),
            1 => refmodel::enc_data(self.items[i as usize % self.items.len()].key, &[i as u8]),
            2 => vec![0x13, i as u8],
            3 => refmodel::enc_end(1 + i % 7, i),
            _ => refmodel::enc_data("unknown", &[1]),
        };
        let mut el: Vec<Vec<u8>> = (0..bulk).map(junk).collect();
        if num > 0 {
            el.push(refmodel::enc_start(num));
            el.push(refmodel::enc_end(num, refmodel::crc_cksum(&[])));
        }
        for l in 0..self.lists.len() {
            if !el.is_empty() {
                self.load_elems(l, &el)?;
            }
        }
        Ok(())
    }

    /// Replace the storage contents before anything runs.
    pub fn load_elems(&mut self, l: usize, el: &[Vec<u8>]) -> R<()> {
        self.hw.disks[l].fill(el);
        self.sys().reopen(l);
        let got = self.elems(l)?;
        if got != el {
            panic!("harness: storage holds {} instead of {}", show(&got), show(el));
        }
        self.reference(l)
    }

    fn boot(&mut self) {
        let mut sys = self.hw.boot();
        self.kept = sys.kept();
        for it in self.items.iter_mut() {
            it.idx = sys.new_item(it.kind, it.key);
            it.at = None;
            it.hyd = Hyd::Initial;
            it.used = false;
            it.val = None;
            it.dirty = false;
            it.hand = Hand::None;
        }
        for l in self.lists.iter_mut() {
            l.scanned = Tri::No;
            l.gc = Tri::No;
            l.rd = Waiter { task: None, permit: false };
            l.wr = Waiter { task: None, permit: false };
        }
        self.sys = Some(sys);
        if self.buf_delta != 0 {
            self.set_buf(self.buf_delta);
        }
    }

    /// From now on use scratch buffers of another size.
    pub fn set_buf(&mut self, delta: i32) {
        self.buf_delta = delta;
        let n = (self.sys().max_elem() as i32 + delta).max(0) as usize;
        for l in 0..self.lists.len() {
            self.sys().set_buf(l, n, 0x5a);
        }
    }

    /// Largest element that can be stored.
    pub fn limit(&self) -> usize {
        let m = self.sys().max_elem();
        m.min((m as i32 + self.buf_delta).max(0) as usize)
    }

    pub fn fits(&self, i: usize, v: V) -> bool {
        self.sys().fits(self.items[i].idx, v)
    }

    pub fn all_fit(&self, l: usize) -> bool {
        self.oversize(l).is_empty()
    }

    pub fn max_elem(&self) -> usize {
        self.sys().max_elem()
    }

    fn sys(&self) -> &dyn Sys {
        self.sys.as_ref().unwrap().as_ref()
    }

    fn tags(&self, base: &[&'static str]) -> Vec<&'static str> {
        let mut v: Vec<&'static str> = base.to_vec();
        for h in self.hist.iter().chain(self.now) {
            if !v.contains(h) {
                v.push(h)
            }
        }
        v
    }

    pub fn elems(&self, l: usize) -> R<Vec<Vec<u8>>> {
        match self.hw.disks[l].elems() {
            Ok(e) => Ok(e),
            Err(e) => fail(&["*"], format!("storage of list {l} became unreadable: {e}")),
        }
    }

    /// The newest intact record must be the acknowledged one or a later attempt.
    fn check_disk(&self, l: usize, base: &[&'static str]) -> R<()> {
        let el = self.elems(l)?;
        let m = &self.lists[l];
        let newest = refmodel::newest(&el);
        let got = newest.as_ref().map(snap_of);
        let ok = match (&got, &m.acked) {
            (None, None) => true,
            (Some(g), a) => a.as_ref() == Some(g) || m.maybe.contains(g),
            (None, Some(_)) => false,
        };
        soft_ensure!(
            ok,
            &self.tags(base),
            "newest intact record is not the last acknowledged flush (or a later attempt): acknowledged {:?}, stored {}",
            m.acked.as_ref().map(show_snap),
            show(&el)
        );
        Ok(())
    }

    /// Invariants checked after every step.
    fn invariants(&mut self) -> R<()> {
        for it in &self.items {
            if let Hand::Live(h) = &it.hand {
                let got = h.load();
                soft_ensure!(
                    Some(&got) == it.val.as_ref(),
                    &self.tags(&["C14", "C23"]),
                    "item {:?} loads {} but its last value is {:?}",
                    it.key,
                    hex(&got),
                    it.val.as_ref().map(|v| hex(v))
                );
                soft_ensure!(h.key() == it.key, &["C12"], "handle key {:?} instead of {:?}", h.key(), it.key);
            }
        }
        if let Some(b) = vals::live_bad() {
            soft(&["C15"], || b.clone())?;
        }
        let mut lo = 0;
        let mut hi = 0;
        for it in &self.items {
            if self.sys().is_tracked(it.idx) {
                if it.val.is_some() {
                    lo += 1;
                    hi += 1;
                } else if it.hyd == Hyd::Maybe {
                    hi += 1;
                }
            }
        }
        let live = vals::live();
        soft_ensure!(
            lo <= live && live <= hi,
            &["C15"],
            "{live} values are alive, but items hold between {lo} and {hi}"
        );
        Ok(())
    }

    /// Poll attaches that were woken, and apply the model.
    fn settle(&mut self) -> R<()> {
        for i in 0..self.items.len() {
            let ready = if let Hand::Waiting(t) = &mut self.items[i].hand { t.run_ready() } else { None };
            if let Some(r) = ready {
                self.attached(i, r)?;
            }
        }
        Ok(())
    }

    fn attached(&mut self, i: usize, r: Result<Box<dyn DynHandle>, Error>) -> R<()> {
        let tags = self.tags(&["C12", "C13"]);
        let h = match r {
            Ok(h) => h,
            Err(e) => {
                self.items[i].hand = Hand::None;
                return fail(&tags, format!("attach of {:?} failed with {e:?}", self.items[i].key));
            }
        };
        let mut tags_v = self.tags(&["C01", "C05", "C13"]);
        let sysdef = {
            let it = &self.items[i];
            match it.def {
                Def::Plain => self.sys().default(it.idx),
                Def::With(v) => self.sys().make(it.idx, v),
            }
        };
        let calls = self.items[i].calls.get();
        let plain = self.items[i].def == Def::Plain;
        let l = self.items[i].at.unwrap();
        let got = h.load();
        let _ = l;
        let it = &mut self.items[i];
        let was_valid = it.used;
        it.used = true;
        match it.hyd {
            Hyd::Initial => {
                std::mem::forget(h);
                return fail(&tags, format!("attach of {:?} completed before any read did", it.key));
            }
            Hyd::Maybe => {
                // filled by a read that failed later, or there is a record nobody acknowledged
                let hit = it.cands.iter().flatten().find(|v| **v == got).cloned();
                match hit {
                    Some(v) if calls == 0 => {
                        it.val = Some(v);
                        it.dirty = false;
                    }
                    _ => {
                        it.dirty = true;
                        it.val = Some(sysdef);
                        if !it.cands.contains(&None) {
                            let c: Vec<String> = it.cands.iter().flatten().map(|c| hex(c)).collect();
                            let key = it.key;
                            it.val = Some(got.clone());
                            it.hyd = Hyd::Valid;
                            it.hand = Hand::Live(h);
                            return soft(&tags_v, || {
                                format!("item {key:?} attached with value {} instead of one of {c:?}", hex(&got))
                            });
                        }
                    }
                }
            }
            Hyd::NonRes => {
                it.val = Some(sysdef);
                it.dirty = true;
                let want = if plain { 0 } else { 1 };
                soft_ensure!(calls == want, &tags, "default for {:?} computed {calls} times", it.key);
            }
            Hyd::Valid => {
                // attached before, so a change of its value is one that nobody made
                if was_valid {
                    tags_v.push("C14");
                    tags_v.push("C12");
                }
                soft_ensure!(
                    calls == 0 || Some(&got) != it.val.as_ref(),
                    &tags,
                    "default for {:?} computed although a value was stored",
                    it.key
                );
            }
        }
        it.hyd = Hyd::Valid;
        it.hand = Hand::Live(h);
        let expected = it.val.replace(got.clone());
        soft_ensure!(
            expected.as_ref() == Some(&got),
            &tags_v,
            "item {:?} attached with value {} but {:?} is stored/expected",
            it.key,
            hex(&got),
            expected.as_ref().map(|v| hex(v))
        );
        self.counts.hit("attached");
        Ok(())
    }

    /// Value under this item's key in the newest intact record, as its type reads it.
    fn stored_value(&self, l: usize, i: usize) -> R<Option<Vec<u8>>> {
        let el = self.elems(l)?;
        let it = &self.items[i];
        Ok(refmodel::newest(&el)
            .and_then(|r| r.get(it.key))
            .and_then(|b| self.sys().decode(it.idx, &b)))
    }

    pub fn step(&mut self, op: &Op) -> R<()> {
        let ni = self.items.len();
        let nl = self.lists.len();
        let im = |x: u8| x as usize % ni;
        let lm = |x: u8| x as usize % nl;
        self.now = match *op {
            Op::Attach { .. } | Op::AttachAll { .. } | Op::CancelAttach { .. } | Op::DropHandle { .. } | Op::Detach { .. } => &["C12"],
            Op::Store { what: What::Read, .. } => &["C05", "C13"],
            Op::Store { what: What::Flush, .. } => &["C01"],
            Op::Store { what: What::Gc, .. } => &["C06"],
            Op::Reset { .. } | Op::Swap { .. } => &["C26"],
            Op::Cut { .. } => &["C02"],
            _ => &[],
        };
        match *op {
            Op::Attach { it, l, def } => self.do_attach(im(it), lm(l), def)?,
            Op::AttachAll { l } => {
                for i in 0..ni {
                    if self.items[i].at.is_none() {
                        let l = lm(l);
                        let taken = self.items.iter().any(|o| o.at == Some(l) && o.key == self.items[i].key);
                        if !taken {
                            self.do_attach(i, l, Def::With(V { n: 11 + i as u64, len: 3 }))?;
                        }
                    } else if matches!(self.items[i].hand, Hand::None) {
                        let l = self.items[i].at.unwrap();
                        self.do_attach(i, l, Def::Plain)?;
                    }
                }
            }
            Op::CancelAttach { it } => {
                let it = &mut self.items[im(it)];
                if matches!(it.hand, Hand::Waiting(_)) {
                    it.hand = Hand::None;
                    self.counts.hit("cancelled_attach");
                }
            }
            Op::DropHandle { it } => {
                let it = &mut self.items[im(it)];
                if matches!(it.hand, Hand::Live(_)) {
                    it.hand = Hand::None;
                    self.counts.hit("dropped_handle");
                }
            }
            Op::Detach { it, l } => self.do_detach(im(it), lm(l))?,
            Op::Write { it, v } => self.do_write(im(it), v)?,
            Op::Store { l, what, f } => {
                self.do_store(lm(l), what, f)?;
            }
            Op::Cycle { l } => self.cycle(lm(l))?,
            Op::Reset { l } => {
                let l = lm(l);
                let mut t = Task::new(self.sys().reset(l));
                ensure!(t.run_ready().is_some(), &["*"], "cache reset never completes");
                self.lists[l].scanned = Tri::No;
                self.lists[l].gc = Tri::No;
                self.hist.insert("C26");
                self.counts.hit("reset");
            }
            Op::Swap { l, how } => self.do_swap(lm(l), how)?,
            Op::Reboot { rot } => self.reboot(rot)?,
            Op::Damage { l, d, d2 } => {
                let l = lm(l);
                self.damage(l, d)?;
                if let Some(d2) = d2 {
                    self.damage(l, d2)?;
                }
                // damaged while off: boot again, the newest record still intact is the reference
                self.reference(l)?;
                self.hist.insert("C08");
                self.counts.hit("damage");
                self.reboot(0)?;
            }
            Op::Cut { l, what, at, k } => {
                let l = lm(l);
                self.cut(l, what, Some((at, k)))?;
            }
            Op::WaitRead { l } => self.do_wait(lm(l), true)?,
            Op::WaitWrite { l } => self.do_wait(lm(l), false)?,
            Op::Poke { it } => {
                let i = im(it);
                let r = if let Hand::Waiting(t) = &mut self.items[i].hand {
                    match t.poll() {
                        std::task::Poll::Ready(r) => Some(r),
                        _ => None,
                    }
                } else {
                    None
                };
                if let Some(r) = r {
                    // only legitimate when a failed read may have filled it
                    self.attached(i, r)?;
                }
            }
        }
        self.settle()?;
        self.check_waiters()?;
        self.invariants()
    }

    // ------------------------------------------------------------ waits

    fn do_wait(&mut self, l: usize, rd: bool) -> R<()> {
        let fut = if rd { self.sys().wait_read(l) } else { self.sys().wait_write(l) };
        let w = if rd { &mut self.lists[l].rd } else { &mut self.lists[l].wr };
        if w.task.is_some() {
            return Ok(());
        }
        let mut t = Task::new(fut);
        let ready = t.run_ready().is_some();
        let permit = std::mem::replace(&mut w.permit, false);
        if !ready {
            w.task = Some(t);
        }
        self.counts.hit(if permit { "wait_with_request" } else { "wait_without_request" });
        soft_ensure!(
            ready == permit,
            &["C24"],
            "waiting for {} requests: request outstanding {permit}, wait returned {ready}",
            if rd { "read" } else { "flush" }
        );
        Ok(())
    }

    /// A request was made: it wakes the waiting task, or is remembered.
    fn request(&mut self, l: usize, rd: bool) -> R<()> {
        let w = if rd { &mut self.lists[l].rd } else { &mut self.lists[l].wr };
        w.permit = true;
        if w.task.is_some() { self.check_waiters() } else { Ok(()) }
    }

    /// A waiter must be ready exactly if a request was made.
    fn check_waiters(&mut self) -> R<()> {
        for l in self.lists.iter_mut() {
            for (w, name) in [(&mut l.rd, "read"), (&mut l.wr, "flush")] {
                let Some(t) = w.task.as_mut() else { continue };
                let ready = t.run_ready().is_some();
                if ready {
                    w.task = None;
                }
                let permit = std::mem::replace(&mut w.permit, false);
                if permit {
                    self.counts.hit("waiter_notified");
                }
                soft_ensure!(
                    ready == permit,
                    &["C24"],
                    "a task waiting for {name} requests: request made {permit}, woken {ready}"
                );
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------ client operations

    fn do_attach(&mut self, i: usize, l: usize, def: Def) -> R<()> {
        let it = &self.items[i];
        let taken = !matches!(it.hand, Hand::None);
        let dup = self.items.iter().enumerate().any(|(j, o)| j != i && o.at == Some(l) && o.key == it.key);
        let want_err = match it.at {
            Some(a) if a == l => {
                if taken {
                    Some(Error::AlreadyTaken)
                } else {
                    None
                }
            }
            Some(_) => Some(Error::NodeInOtherList),
            None if dup => Some(Error::DuplicateKey),
            None => None,
        };
        let calls = Rc::new(Cell::new(0));
        let mut t = Task::new(self.sys().attach(it.idx, l, def, calls.clone()));
        let r = t.run_ready();
        match (want_err, r) {
            (Some(e), Some(Err(g))) if e == g => {
                self.counts.hit("attach_refused");
                Ok(())
            }
            (Some(e), r) => {
                let s = match &r {
                    Some(Ok(_)) => "a handle".to_string(),
                    Some(Err(g)) => format!("{g:?}"),
                    None => "waiting".to_string(),
                };
                std::mem::forget(t);
                std::mem::forget(r);
                fail(&["C12"], format!("attach of {:?} should fail with {e:?}, got {s}", self.items[i].key))
            }
            (None, Some(Err(g))) => {
                fail(&["C12"], format!("attach of {:?} should be possible, got {g:?}", self.items[i].key))
            }
            (None, r) => {
                let it = &mut self.items[i];
                it.calls = calls;
                it.def = def;
                if it.at.is_none() {
                    it.at = Some(l);
                    it.hyd = Hyd::Initial;
                    it.used = false;
                    it.val = None;
                    it.dirty = false;
                } else {
                    self.counts.hit("reattach");
                }
                self.request(l, true)?;
                match r {
                    Some(Ok(h)) => self.attached(i, Ok(h)),
                    _ => {
                        let hyd = self.items[i].hyd;
                        self.items[i].hand = Hand::Waiting(t);
                        soft_ensure!(
                            matches!(hyd, Hyd::Initial | Hyd::Maybe),
                            &self.tags(&["C12", "C13"]),
                            "attach of {:?} waits although its value is known",
                            self.items[i].key
                        );
                        self.counts.hit("attach_waits");
                        Ok(())
                    }
                }
            }
        }
    }

    fn do_detach(&mut self, i: usize, l: usize) -> R<()> {
        let it = &self.items[i];
        let taken = !matches!(it.hand, Hand::None);
        let want = match it.at {
            None => Ok(()),
            Some(a) if a != l => Err(Error::NodeInOtherList),
            Some(_) if taken => Err(Error::AlreadyTaken),
            Some(_) => Ok(()),
        };
        let mut t = Task::new(self.sys().detach(it.idx, l));
        let Some(r) = t.run_ready() else {
            return fail(&["C12"], "detach never completes");
        };
        ensure!(r == want, &["C12"], "detach of {:?}: expected {want:?}, got {r:?}", it.key);
        if r.is_ok() {
            let it = &mut self.items[i];
            if it.at.is_some() {
                self.counts.hit("detach");
            }
            it.at = None;
            it.hyd = Hyd::Initial;
            it.used = false;
            it.val = None;
            it.dirty = false;
        } else {
            self.counts.hit("detach_refused");
        }
        Ok(())
    }

    fn do_write(&mut self, i: usize, v: V) -> R<()> {
        if !matches!(self.items[i].hand, Hand::Live(_)) {
            return Ok(());
        }
        let val = self.sys().make(self.items[i].idx, v);
        let it = &mut self.items[i];
        let Hand::Live(h) = &mut it.hand else { unreachable!() };
        let mut t = Task::new(h.write(v));
        match t.run_ready() {
            Some(Ok(())) => {}
            Some(Err(e)) => return fail(&["C14", "C12"], format!("write to {:?} failed: {e:?}", it.key)),
            None => return fail(&["C14", "C23"], format!("write to {:?} never completes", it.key)),
        }
        drop(t);
        it.val = Some(val);
        it.dirty = true;
        let l = it.at.unwrap();
        self.counts.hit("write");
        self.request(l, false)
    }

    // ------------------------------------------------------------ storage operations

    pub fn run_store(&mut self, l: usize, what: What, f: Option<Fault>) -> R<Res> {
        let ctl = self.hw.ctls[l].clone();
        ctl.arm(f);
        let mut t = Task::new(self.sys().op(l, what));
        let r = t.run_ready();
        match r {
            Some(Ok(c)) => Ok(Res::Ok(c)),
            Some(Err(e)) => Ok(Res::Err(e)),
            None if ctl.cancel.get() => {
                drop(t);
                Ok(Res::Cancelled)
            }
            None => {
                std::mem::forget(t);
                fail(&self.tags(&["C23"]), format!("{what:?} never completes"))
            }
        }
    }

    /// Values a complete record of list `l` must contain now; `None` entries are undecided.
    fn current(&self, l: usize) -> Snap {
        self.items
            .iter()
            .filter(|i| i.at == Some(l) && i.hyd == Hyd::Valid)
            .map(|i| (i.key.to_string(), i.val.clone().unwrap()))
            .collect()
    }

    pub fn do_store(&mut self, l: usize, what: What, f: Option<Fault>) -> R<bool> {
        let before = self.elems(l)?;
        let r = self.run_store(l, what, f)?;
        let ctl = self.hw.ctls[l].clone();
        let fired = ctl.fired.get();
        ctl.fault.set(None);
        let io = ctl.io.borrow().clone();
        let after = self.elems(l)?;
        if trace() {
            eprintln!("{what:?} {f:?} fired={fired} -> {}\n    {}\n    {:?}", res_str(&r), show(&after), ctl.kinds.borrow());
        }
        if fired {
            let corr = matches!(f, Some(Fault { kind: FKind::Corr(_), .. }));
            self.hist.insert(match what {
                _ if corr => "C11",
                What::Read => "C04",
                What::Flush => "C03",
                What::Gc => "C07",
            });
            if what == What::Gc {
                self.hist.insert("C04");
            }
            self.counts.hit(match (what, &r) {
                (_, _) if corr => "corrupted",
                (What::Read, Res::Cancelled) => "read_cancelled",
                (What::Read, _) => "read_failed",
                (What::Flush, Res::Cancelled) => "flush_cancelled",
                (What::Flush, _) => "flush_failed",
                (What::Gc, Res::Cancelled) => "gc_cancelled",
                (What::Gc, _) => "gc_failed",
            });
        }
        self.check_cost(l, what, &io, &before, &after)?;
        match what {
            What::Read => self.after_read(l, r, fired, &io, &before, &after),
            What::Flush => self.after_flush(l, r, fired, &io, &before, &after),
            What::Gc => self.after_gc(l, r, fired, &io, &before, &after),
        }
    }

    /// The number of storage operations depends on what is stored and attached, and on nothing else.
    fn check_cost(&mut self, l: usize, what: What, io: &Io, before: &[Vec<u8>], after: &[Vec<u8>]) -> R<()> {
        let (n, m) = (before.len() as u64, after.len() as u64);
        let items = self.items.iter().filter(|i| i.at == Some(l)).count() as u64;
        if self.mem() {
            // (passes over the elements, elements passed, pushes, removals)
            let (passes, nexts, pushes, invals) = match what {
                What::Read => (2, 2 * (n + 1), 0, 0),
                What::Flush => (1, m + 1, items + 2, 0),
                What::Gc => (2, n + 1 + m + 1, 0, n - m.min(n)),
            };
            soft_ensure!(
                io.iters <= passes && io.nexts <= nexts && io.pushes <= pushes && io.invals <= invals + 1, // (one may have failed)
                &["C33"],
                "{what:?} with {n} -> {m} elements stored and {items} items attached took {io:?}"
            );
            if io.nexts > 0 {
                self.counts.hit(match what {
                    What::Read => "read_cost",
                    What::Flush => "flush_cost",
                    What::Gc => "gc_cost",
                });
            }
        } else if what == What::Read && before == after {
            let pass = match self.hw.disks[l].elems_cost() {
                Ok(c) => c.1,
                Err(_) => return Ok(()),
            };
            soft_ensure!(
                io.nor_reads <= 3 * pass + 32, // (mending after a power cut costs some)
                &["C33"],
                "read took {} flash reads, while one pass over the {n} stored elements takes {pass}",
                io.nor_reads
            );
            self.counts.hit("read_cost");
        }
        Ok(())
    }

    /// Storage size of an element of `n` bytes in the flash queue: item header and data, each padded to words.
    pub fn nor_len(&self, n: usize) -> usize {
        let StoreCfg::Nor(g) = self.hw.cfg else { return 0 };
        let (w, r, _, _) = GEO[g as usize];
        let word = w.max(r);
        8usize.next_multiple_of(word) + n.next_multiple_of(word)
    }

    /// Storage contents were changed from outside: its newest intact record is the new reference.
    pub fn reference(&mut self, l: usize) -> R<()> {
        let el = self.elems(l)?;
        let n = refmodel::newest(&el);
        self.lists[l].acked_seq = n.as_ref().map(|r| r.seq).unwrap_or(0);
        self.lists[l].acked = n.as_ref().map(snap_of);
        self.lists[l].maybe.clear();
        Ok(())
    }

    pub fn note(&mut self, tag: &'static str) {
        self.hist.insert(tag);
    }

    pub fn make(&self, i: usize, v: V) -> Vec<u8> {
        self.sys().make(self.items[i].idx, v)
    }

    /// What item `i`'s handle loads.
    pub fn value(&self, i: usize) -> Option<Vec<u8>> {
        match &self.items[i].hand {
            Hand::Live(h) => Some(h.load()),
            _ => None,
        }
    }

    /// Give up an engine whose system was never used.
    pub fn abandon(&mut self) {
        self.shutdown();
        self.clean_exit = true;
    }

    /// Attach futures of all items to the first list, not followed by the model.
    pub fn attach_raw(&self, defs: &[V]) -> Vec<Task<'static, Result<Box<dyn DynHandle>, Error>>> {
        let at = |(i, v): (&Item, &V)| {
            Task::new(self.sys().attach(i.idx, 0, Def::With(*v), Rc::new(Cell::new(0))))
        };
        self.items.iter().zip(defs).map(at).collect()
    }

    /// A reboot that nothing is checked at.
    pub fn restart(&mut self) {
        self.shutdown();
        self.boot();
    }

    pub fn keys(&self) -> Vec<&'static str> {
        self.items.iter().map(|i| i.key).collect()
    }

    pub fn acked(&self, l: usize) -> Option<Snap> {
        self.lists[l].acked.clone()
    }

    fn mem(&self) -> bool {
        matches!(self.hw.cfg, StoreCfg::Mem)
    }

    fn after_read(&mut self, l: usize, r: Res, fired: bool, io: &Io, before: &[Vec<u8>], after: &[Vec<u8>]) -> R<bool> {
        soft_ensure!(before == after, &self.tags(&["C10", "C19"]), "a read changed the stored elements: {} -> {}", show(before), show(after));
        let newest = refmodel::newest(before);
        match r {
            Res::Ok(c) => {
                if self.mem() && !fired {
                    let cur: usize = newest.as_ref().map(|r| r.data.iter().map(|d| mem_len(d.len() + 1)).sum()).unwrap_or(0);
                    let decided = self.lists[l].maybe.is_empty();
                    let idle = !self.items.iter().any(|i| i.at == Some(l) && i.hyd == Hyd::Initial);
                    soft_ensure!(
                        c.total as u64 == io.read_bytes && (c.cur == cur || !decided || (idle && c.cur == 0)),
                        &["C27"],
                        "read reports {c:?}, but {} bytes were read and the newest record's data has {cur}",
                        io.read_bytes
                    );
                }
                let m = &mut self.lists[l];
                match m.scanned {
                    Tri::No => {
                        m.scanned = Tri::Yes;
                        m.gc = if before.is_empty() { Tri::No } else { Tri::Yes };
                    }
                    Tri::Unk => {
                        m.scanned = Tri::Yes;
                        m.gc = Tri::Unk;
                    }
                    Tri::Yes => {}
                }
                self.add_cands(l, newest.as_ref())?;
                for it in self.items.iter_mut() {
                    if it.at == Some(l) && matches!(it.hyd, Hyd::Initial | Hyd::Maybe) {
                        match &it.cands[..] {
                            [Some(v)] => {
                                it.hyd = Hyd::Valid;
                                it.val = Some(v.clone());
                                it.dirty = false;
                                self.counts.hit("hydrated");
                            }
                            [None] => {
                                it.hyd = Hyd::NonRes;
                                self.counts.hit("nonresident");
                            }
                            _ => {
                                it.hyd = Hyd::Maybe;
                                self.counts.hit("hydrated_undecided");
                            }
                        }
                    }
                }
                self.settle()?;
                for it in &self.items {
                    if it.at == Some(l) && matches!(it.hand, Hand::Waiting(_)) {
                        soft(&self.tags(&["C13"]), || format!("attach of {:?} still waits after a successful read", it.key))?;
                    }
                }
                self.counts.hit("read_ok");
                Ok(true)
            }
            Res::Err(e) => {
                soft_ensure!(fired, &self.tags(&["C05", "C13", "C01", "C19"]), "read failed with {e:?} on working storage: {}", show(before));
                self.read_undone(l, newest.as_ref())?;
                Ok(false)
            }
            Res::Cancelled => {
                self.read_undone(l, newest.as_ref())?;
                Ok(false)
            }
        }
    }

    /// Note what a read may fill the unfilled items with.
    fn add_cands(&mut self, l: usize, newest: Option<&Rec>) -> R<()> {
        let acked = self.lists[l].acked.clone();
        let undecided = !self.lists[l].maybe.is_empty();
        for i in 0..self.items.len() {
            let it = &self.items[i];
            if it.at != Some(l) || !matches!(it.hyd, Hyd::Initial | Hyd::Maybe) {
                continue;
            }
            if (crate::schema::FIRST..vals::FUSSY).contains(&it.kind) {
                if let Some(b) = newest.and_then(|r| r.get(it.key)) {
                    self.schema_change(i, &b)?;
                }
            }
            let it = &self.items[i];
            let a = newest.and_then(|r| r.get(it.key)).and_then(|b| self.sys().decode(it.idx, &b));
            let b = acked.as_ref().and_then(|s| s.get(it.key)).and_then(|b| self.sys().decode(it.idx, b));
            let it = &mut self.items[i];
            if it.hyd == Hyd::Initial {
                it.cands.clear();
            }
            if !it.cands.contains(&a) {
                it.cands.push(a);
            }
            if undecided && !it.cands.contains(&b) {
                it.cands.push(b);
            }
        }
        Ok(())
    }

    /// Reading stored data as this item's type must follow the documented rules.
    fn schema_change(&mut self, i: usize, b: &[u8]) -> R<()> {
        use crate::schema::{self, Expect};
        let it = &self.items[i];
        let got = self.sys().decode(it.idx, b);
        let seen = match schema::expect(it.kind, b) {
            Expect::Open => {
                self.counts.hit("schema_open");
                return Ok(());
            }
            Expect::Undecodable => {
                self.counts.hit("schema_default");
                got.is_none()
            }
            Expect::Fields(f) => {
                self.counts.hit("schema_ok");
                got.as_ref().is_some_and(|g| schema::fields(it.kind, g).as_ref() == Some(&f))
            }
        };
        soft_ensure!(
            seen,
            &["C17"],
            "stored {} read as type {} gives {:?}, against the portability rules",
            hex(b),
            it.kind,
            got.as_ref().map(|g| hex(g))
        );
        Ok(())
    }

    fn read_undone(&mut self, l: usize, newest: Option<&Rec>) -> R<()> {
        self.add_cands(l, newest)?;
        let m = &mut self.lists[l];
        if m.scanned != Tri::Yes {
            m.scanned = Tri::Unk;
            m.gc = Tri::Unk;
        }
        for it in self.items.iter_mut() {
            if it.at == Some(l) && it.hyd == Hyd::Initial {
                it.hyd = Hyd::Maybe;
            }
        }
        Ok(())
    }

    /// Items of list `l` whose encoding does not fit the storage, or that refuse to encode.
    fn oversize(&self, l: usize) -> Vec<usize> {
        let max = self.limit();
        (0..self.items.len())
            .filter(|i| {
                let it = &self.items[*i];
                it.at == Some(l)
                    && it.hyd == Hyd::Valid
                    && (1 + refmodel::cbor_text(it.key).len() + it.val.as_ref().map_or(0, |v| v.len()) > max
                        || it.kind == vals::FUSSY && it.val.as_ref().is_some_and(|v| vals::unencodable(v)))
            })
            .collect()
    }

    fn after_flush(&mut self, l: usize, r: Res, fired: bool, io: &Io, before: &[Vec<u8>], after: &[Vec<u8>]) -> R<bool> {
        let initial = self.items.iter().any(|i| i.at == Some(l) && i.hyd == Hyd::Initial);
        let maybe = self.items.iter().any(|i| i.at == Some(l) && i.hyd == Hyd::Maybe);
        let (scanned, gc) = (self.lists[l].scanned, self.lists[l].gc);
        let dirty = self.items.iter().any(|i| i.at == Some(l) && i.hyd == Hyd::Valid && i.dirty);
        let cur = self.current(l);
        let max_seq = refmodel::records(before).iter().map(|r| r.seq).max().unwrap_or(0);
        let had_intact = max_seq > 0;
        let prefix_ok = after.len() >= before.len() && after[..before.len()] == *before;
        match r {
            Res::Err(OpErr::NeedsRead) => {
                soft_ensure!(
                    io.none() && before == after,
                    &["C25", "C10"],
                    "a refused flush touched the storage ({io:?})"
                );
                // a read after faults is always a legitimate request, otherwise it must be needed
                soft_ensure!(
                    scanned != Tri::Yes || initial || maybe,
                    &self.tags(&["C25"]),
                    "flush asks for a read although one was done and all items are filled"
                );
                self.counts.hit("flush_refused_read");
                Ok(false)
            }
            Res::Err(OpErr::NeedsGc) => {
                soft_ensure!(
                    io.none() && before == after,
                    &["C25", "C10"],
                    "a refused flush touched the storage ({io:?})"
                );
                soft_ensure!(
                    gc != Tri::No && scanned != Tri::No,
                    &self.tags(&["C25"]),
                    "flush asks for collection although none is due"
                );
                self.counts.hit("flush_refused_gc");
                Ok(false)
            }
            Res::Ok(c) => {
                soft_ensure!(
                    self.oversize(l).is_empty() || io.no_mutation(),
                    &self.tags(&["C16", "C11"]),
                    "flush accepted although an item does not fit"
                );
                soft_ensure!(scanned != Tri::No, &self.tags(&["C25"]), "flush accepted before any read");
                soft_ensure!(gc != Tri::Yes, &self.tags(&["C25"]), "flush accepted although collection is due");
                soft_ensure!(!initial, &self.tags(&["C25"]), "flush accepted while an attached item has not been filled");
                if io.no_mutation() && before == after {
                    // elided
                    soft_ensure!(
                        !dirty,
                        &self.tags(&["C10", "C03", "C23", "C01", "C11"]),
                        "flush reports success without storing pending changes"
                    );
                    soft_ensure!(
                        had_intact,
                        &self.tags(&["C10", "C26"]),
                        "flush stored nothing although nothing intact is stored"
                    );
                    soft_ensure!(io.none() && c == Cnt::default(), &["C10", "C27"], "elided flush did I/O: {io:?} {c:?}");
                    self.counts.hit("flush_elided");
                    return Ok(true);
                }
                // the storage must now hold an intact newest record of the current values
                let newest = refmodel::newest(after);
                let ok = newest.as_ref().is_some_and(|r| r.seq > max_seq && r.data.len() == r.kv().len());
                ensure!(
                    ok,
                    &self.tags(&["C11", "C01", "C05"]),
                    "flush reports success but no intact record newer than {max_seq} is stored: {}",
                    show(after)
                );
                let rec = newest.unwrap();
                let mut want = cur.clone();
                for it in &self.items {
                    if it.at == Some(l) && it.hyd == Hyd::Maybe {
                        // may be part of it; must be, if it can only have been filled from storage
                        let v = rec.get(it.key);
                        soft_ensure!(
                            v.is_some() || it.cands.contains(&None),
                            &self.tags(&["C25", "C01", "C04"]),
                            "flush accepted while item {:?} has not been filled after a failed read",
                            it.key
                        );
                        if let Some(v) = v {
                            want.insert(it.key.to_string(), v);
                        }
                    }
                }
                let got = snap_of(&rec);
                soft_ensure!(
                    got == want && rec.data.len() == want.len(),
                    &self.tags(&["C01", "C11", "C23", "C14"]),
                    "flush stored {} instead of {}",
                    show_snap(&got),
                    show_snap(&want)
                );
                if !fired {
                    soft_ensure!(
                        dirty || !had_intact || maybe || (scanned, gc) != (Tri::Yes, Tri::No),
                        &["C10"],
                        "flush wrote a record although nothing changed"
                    );
                    // (corrupted page marks of the flash layer can make old leftovers visible later)
                    let marks = !self.mem() && self.hist.contains("C11");
                    soft_ensure!(
                        marks || (prefix_ok && after.len() == before.len() + rec.data.len() + 2),
                        &["C10", "C01"],
                        "flush did more than append one record: {} -> {}",
                        show(before),
                        show(after)
                    );
                    if !self.mem() {
                        let wrote: usize = after[before.len()..].iter().map(|e| self.nor_len(e.len())).sum();
                        soft_ensure!(
                            marks || (c.cur == wrote && c.total >= wrote),
                            &["C27", "C18"],
                            "flush reports {c:?}, but its record takes {wrote} bytes"
                        );
                    }
                    if self.mem() {
                        soft_ensure!(
                            c.cur as u64 == io.push_bytes && c.total as u64 == io.read_bytes,
                            &["C27"],
                            "flush reports {c:?}, but {} bytes were written and {} read",
                            io.push_bytes,
                            io.read_bytes
                        );
                    }
                }
                for it in self.items.iter_mut() {
                    if it.at == Some(l) {
                        if it.hyd == Hyd::Valid {
                            it.dirty = false;
                        } else if it.hyd == Hyd::Maybe {
                            if let Some(v) = rec.get(it.key) {
                                it.hyd = Hyd::Valid;
                                it.val = Some(v);
                                it.dirty = false;
                            }
                        }
                    }
                }
                let m = &mut self.lists[l];
                m.acked = Some(got);
                m.acked_seq = rec.seq;
                m.maybe.clear();
                m.undone = 0;
                m.scanned = Tri::Yes;
                m.gc = Tri::Yes;
                self.counts.hit("flush_ok");
                Ok(true)
            }
            Res::Err(e) => {
                let over = !self.oversize(l).is_empty();
                if over && !fired {
                    soft_ensure!(e == OpErr::Ser, &["C16"], "flush of a too large item fails with {e:?}");
                    self.counts.hit("flush_oversize");
                    self.hist.insert("C03");
                    self.hist.insert("C16");
                }
                // known finding (see DESIGN.md): undone flushes move the head of the ring up to the
                // page of the oldest kept record, which only a successful flush can release
                soft_ensure!(
                    fired
                        || over
                        || scanned == Tri::Unk
                        || gc == Tri::Unk
                        || self.mem()
                        || self.lists[l].undone < 8
                        || !format!("{e:?}").contains("FullStorage"),
                    &["KNOWN:pinned-ring"],
                    "flush failed with {e:?} on working storage after {} undone flushes in a row",
                    self.lists[l].undone
                );
                soft_ensure!(
                    fired || over || scanned == Tri::Unk || gc == Tri::Unk,
                    &self.tags(&["C01", "C09", "C03"]),
                    "flush failed with {e:?} on working storage"
                );
                self.flush_undone(l, io, cur);
                if self.mem() && !self.hist.contains("C11") {
                    soft_ensure!(prefix_ok, &self.tags(&["C03"]), "failed flush altered older elements");
                }
                self.check_disk(l, &["C03"])?;
                Ok(false)
            }
            Res::Cancelled => {
                self.flush_undone(l, io, cur);
                if self.mem() {
                    soft_ensure!(prefix_ok, &self.tags(&["C03"]), "cancelled flush altered older elements");
                }
                self.check_disk(l, &["C03"])?;
                Ok(false)
            }
        }
    }

    fn flush_undone(&mut self, l: usize, io: &Io, cur: Snap) {
        // (items in Maybe state may have been part of the attempt)
        let mut all = vec![cur];
        for it in self.items.iter().filter(|it| it.at == Some(l) && it.hyd == Hyd::Maybe) {
            let n = all.len();
            for v in it.cands.iter().flatten() {
                for k in 0..n {
                    let mut s = all[k].clone();
                    s.insert(it.key.to_string(), v.clone());
                    all.push(s);
                }
            }
        }
        let m = &mut self.lists[l];
        if !io.no_mutation() {
            m.maybe.extend(all);
            m.undone += 1;
        }
        m.scanned = Tri::Unk;
        m.gc = Tri::Unk;
    }

    fn after_gc(&mut self, l: usize, r: Res, fired: bool, io: &Io, before: &[Vec<u8>], after: &[Vec<u8>]) -> R<bool> {
        let (scanned, gc) = (self.lists[l].scanned, self.lists[l].gc);
        soft_ensure!(
            is_subseq(after, before),
            &self.tags(&["C06", "C07"]),
            "collection changed or reordered elements: {} -> {}",
            show(before),
            show(after)
        );
        match r {
            Res::Ok(c) => {
                if io.none() {
                    soft_ensure!(
                        !(gc == Tri::Yes && scanned == Tri::Yes) || fired,
                        &self.tags(&["C06", "C09", "C08", "C07"]),
                        "collection did nothing although it was due"
                    );
                    soft_ensure!(c == Cnt::default(), &["C27"], "collection without I/O reports {c:?}");
                    self.counts.hit("gc_noop");
                    return Ok(true);
                }
                soft_ensure!(
                    gc != Tri::No,
                    &["C10"],
                    "collection touched the storage although none was due"
                );
                let s1 = refmodel::survivors(before, self.kept);
                let mut ok = after == s1.as_slice();
                if !ok && gc == Tri::Unk {
                    // records that were stored by a failed flush need not be kept
                    let a = self.lists[l].acked_seq;
                    let cut: Vec<Vec<u8>> = {
                        let recs = refmodel::records(before);
                        before
                            .iter()
                            .enumerate()
                            .filter(|(i, _)| !recs.iter().any(|r| r.seq > a && r.start <= *i && *i <= r.end))
                            .map(|(_, e)| e.clone())
                            .collect()
                    };
                    ok = after == refmodel::survivors(&cut, self.kept).as_slice();
                }
                let more: &[&str] = if after.len() > s1.len() { &["C06", "C09"] } else { &["C06"] };
                soft_ensure!(
                    ok,
                    &self.tags(more),
                    "collection (keeping {}) left {} instead of {} (before: {})",
                    self.kept,
                    show(after),
                    show(&s1),
                    show(before)
                );
                if !self.mem() && !fired {
                    let sum = |v: &[Vec<u8>]| v.iter().map(|e| self.nor_len(e.len())).sum::<usize>();
                    let gone = sum(before) - sum(after);
                    soft_ensure!(
                        c.popped == gone && c.total >= sum(before),
                        &["C27", "C18"],
                        "collection reports {c:?}, but {gone} bytes of {} were removed",
                        sum(before)
                    );
                }
                if self.mem() && !fired {
                    soft_ensure!(
                        c.total as u64 == io.read_bytes && c.popped as u64 == io.inval_bytes,
                        &["C27"],
                        "collection reports {c:?}, but {} bytes were read and {} removed",
                        io.read_bytes,
                        io.inval_bytes
                    );
                    let post: usize = after.iter().map(|e| mem_len(e.len())).sum();
                    let post = if io.iters > 1 { post } else { 0 };
                    soft_ensure!(c.cur == post, &["C27"], "collection reports {} bytes left, there are {post}", c.cur);
                }
                let m = &mut self.lists[l];
                m.scanned = Tri::Yes;
                m.gc = Tri::No;
                if before.len() != after.len() {
                    self.counts.hit("gc_removed");
                }
                self.counts.hit("gc_ok");
                self.check_disk(l, &["C06", "C01"])?;
                Ok(true)
            }
            Res::Err(e) => {
                soft_ensure!(fired, &self.tags(&["C06", "C09", "C07", "C01"]), "collection failed with {e:?} on working storage");
                self.lists[l].scanned = Tri::Unk;
                self.lists[l].gc = Tri::Unk;
                self.check_disk(l, &["C07"])?;
                Ok(false)
            }
            Res::Cancelled => {
                self.lists[l].scanned = Tri::Unk;
                self.lists[l].gc = Tri::Unk;
                self.check_disk(l, &["C07"])?;
                Ok(false)
            }
        }
    }

    /// Documented normal use: read, collect, flush, collect; everything must work.
    fn cycle(&mut self, l: usize) -> R<()> {
        self.do_store(l, What::Read, None)?;
        self.do_store(l, What::Gc, None)?;
        self.recover(l)
    }

    /// Follow what flushes ask for until one succeeds; then collect.
    pub fn recover(&mut self, l: usize) -> R<()> {
        for i in self.oversize(l) {
            // make it fit
            if matches!(self.items[i].hand, Hand::None) {
                self.do_attach(i, l, Def::Plain)?;
            }
            self.do_write(i, V { n: 3, len: 0 })?;
        }
        let mut done = false;
        for _ in 0..6 {
            let before = self.elems(l)?;
            let r = self.run_store(l, What::Flush, None)?;
            let io = self.hw.ctls[l].io.borrow().clone();
            let after = self.elems(l)?;
            if trace() {
                eprintln!("recovery flush -> {}\n    {}", res_str(&r), show(&after));
            }
            let e = match &r {
                Res::Err(e) => Some(e.clone()),
                _ => None,
            };
            if self.after_flush(l, r, false, &io, &before, &after)? {
                done = true;
                break;
            }
            match e {
                Some(OpErr::NeedsGc) => {
                    self.do_store(l, What::Gc, None)?;
                }
                Some(OpErr::NeedsRead) => {
                    self.do_store(l, What::Read, None)?;
                    self.settle()?;
                }
                _ => {
                    self.do_store(l, What::Read, None)?;
                    self.settle()?;
                    self.do_store(l, What::Gc, None)?;
                }
            }
        }
        soft_ensure!(
            done,
            &self.tags(&["C01", "C25"]),
            "flush does not succeed on working storage although all requested steps were done"
        );
        self.do_store(l, What::Gc, None)?;
        soft_ensure!(
            !self.items.iter().any(|i| i.at == Some(l) && i.dirty),
            &["C01"],
            "items still pending after a successful flush"
        );
        self.check_disk(l, &["C01"])
    }

    fn do_swap(&mut self, l: usize, how: u8) -> R<()> {
        // bring every attached item into a filled state first
        self.do_store(l, What::Read, None)?;
        self.settle()?;
        self.hist.insert("C26");
        self.counts.hit("swap");
        let now = self.hw.disks[l].copy();
        match how % 3 {
            0 => self.hw.disks[l].wipe(),
            1 => {
                if let Some(o) = self.lists[l].olds.first() {
                    self.hw.disks[l].assign(o)
                } else {
                    self.hw.disks[l].wipe()
                }
            }
            _ => {
                if self.mem() {
                    let mut v = refmodel::build(9, &[("foreign".into(), vec![0x01])]);
                    v.insert(0, vec![0x55; 4]);
                    v.extend(refmodel::build(4, &[("a".into(), vec![0x02])]));
                    v.push(refmodel::enc_start(77));
                    *self.hw.disks[l].mem().borrow_mut() = v;
                } else {
                    self.hw.disks[l].wipe()
                }
            }
        }
        self.lists[l].olds.push(now);
        self.sys().reopen(l);
        let mut t = Task::new(self.sys().reset(l));
        ensure!(t.run_ready().is_some(), &["C26"], "cache reset never completes");
        let el = self.elems(l)?;
        let n = refmodel::newest(&el);
        let m = &mut self.lists[l];
        m.scanned = Tri::No;
        m.gc = Tri::No;
        m.acked = n.as_ref().map(snap_of);
        m.acked_seq = n.as_ref().map(|r| r.seq).unwrap_or(0);
        m.maybe.clear();
        self.do_store(l, What::Read, None)?;
        self.settle()?;
        self.do_store(l, What::Gc, None)?;
        self.do_store(l, What::Flush, None)?;
        if how % 3 == 0 {
            let cur = self.current(l);
            let el = self.elems(l)?;
            let got = refmodel::newest(&el).as_ref().map(snap_of);
            soft_ensure!(
                got.as_ref() == Some(&cur),
                &["C26"],
                "after wiping and resetting, stored {:?} instead of {}",
                got.as_ref().map(show_snap),
                show_snap(&cur)
            );
            self.counts.hit("rewritten");
        }
        Ok(())
    }

    /// Invert a bit of (every copy of) these stored bytes on flash.
    pub fn nor_rot(&mut self, l: usize, bytes: &[u8], bit: u16) {
        let d = self.hw.disks[l].nor().clone();
        let img = &mut d.borrow_mut().bytes;
        let k = bit as usize % (bytes.len() * 8);
        let mut i = 0;
        while i + bytes.len() <= img.len() {
            if img[i..i + bytes.len()] == *bytes {
                img[i + k / 8] ^= 1 << (k % 8);
                i += bytes.len();
            } else {
                i += 1;
            }
        }
    }

    fn damage(&mut self, l: usize, d: Dmg) -> R<()> {
        if !self.mem() {
            let el = self.elems(l)?;
            if el.is_empty() {
                return Ok(());
            }
            let pos = |e: u8| el.len() - 1 - (e as usize % el.len());
            let (e, bit) = match d {
                Dmg::Flip { e, bit } => (e, bit),
                Dmg::Del { e } | Dmg::CutTail { e } => (e, 3),
                Dmg::Trunc { e, n } => (e, n as u16),
                Dmg::Unknown { e, h } | Dmg::Insert { e, h } => (e, h as u16),
                Dmg::Stray { e, k, seq } => (e, k as u16 * 8 + seq as u16),
            };
            let b = el[pos(e)].clone();
            if b.len() >= 4 {
                self.nor_rot(l, &b, bit);
            }
            return Ok(());
        }
        let disk = self.hw.disks[l].mem().clone();
        let mut v = disk.borrow_mut();
        let n = v.len();
        // positions count from the newest element back, so small numbers hit the newest records
        let pos = |e: u8| n - 1 - (e as usize % n.max(1));
        let max_seq = refmodel::records(&v).iter().map(|r| r.seq).max().unwrap_or(0);
        match d {
            Dmg::Insert { e, h } => {
                let p = if n == 0 { 0 } else { pos(e) };
                v.insert(p, vec![h.max(3), 1, 2, 3]);
            }
            Dmg::Stray { e, k, seq } => {
                let p = if n == 0 { 0 } else { pos(e) };
                let s = max_seq.saturating_add(1 + seq as u32).max(1);
                let x = match k % 3 {
                    0 => refmodel::enc_start(s),
                    1 => refmodel::enc_data("a", &[seq]),
                    _ => refmodel::enc_end(s, 0x1234_5678),
                };
                v.insert(p, x);
            }
            _ if n == 0 => {}
            Dmg::Flip { e, bit } => {
                let b = &mut v[pos(e)];
                let i = bit as usize % (b.len() * 8);
                b[i / 8] ^= 1 << (i % 8);
            }
            Dmg::Del { e } => {
                v.remove(pos(e));
            }
            Dmg::Trunc { e, n } => {
                let b = &mut v[pos(e)];
                let k = 1 + n as usize % b.len();
                b.truncate(k);
            }
            Dmg::Unknown { e, h } => {
                v[pos(e)][0] = h.max(3);
            }
            Dmg::CutTail { e } => {
                let p = pos(e);
                v.truncate(p);
            }
        }
        // two different intact records with one sequence number cannot be ordered: not a case
        let rs = refmodel::records(&v);
        let mut seqs: Vec<u32> = rs.iter().map(|r| r.seq).collect();
        seqs.sort();
        seqs.dedup();
        if seqs.len() != rs.len() || seqs.last() == Some(&u32::MAX) {
            v.clear();
        }
        Ok(())
    }

    /// Everything in memory is lost; storage stays.
    pub fn reboot(&mut self, rot: u8) -> R<()> {
        for l in 0..self.lists.len() {
            self.check_disk(l, &["C01"])?;
            let el = self.elems(l)?;
            let n = refmodel::newest(&el);
            let m = &mut self.lists[l];
            m.acked = n.as_ref().map(snap_of);
            m.acked_seq = n.as_ref().map(|r| r.seq).unwrap_or(0);
            m.maybe.clear();
            if m.olds.len() < 3 {
                let c = self.hw.disks[l].copy();
                self.lists[l].olds.push(c);
            }
        }
        self.shutdown();
        if rot > 0 {
            // a firmware change: items change their types
            self.hist.insert("C17");
            for (i, it) in self.items.iter_mut().enumerate() {
                if (rot >> (i % 8)) & 1 == 1 {
                    use crate::schema::{COUNT, FIRST};
                    it.kind = if (FIRST..vals::FUSSY).contains(&it.kind) {
                        FIRST + ((it.kind - FIRST) as u16 + 1 + (rot / 3) as u16).rem_euclid(COUNT as u16) as u8
                    } else {
                        (it.kind + 1 + rot / 3) % vals::NKINDS
                    };
                }
            }
        }
        self.boot();
        self.counts.hit("reboot");
        Ok(())
    }

    fn shutdown(&mut self) {
        for it in self.items.iter_mut() {
            it.hand = Hand::None;
        }
        for l in self.lists.iter_mut() {
            l.rd.task = None;
            l.wr.task = None;
        }
        if let Some(s) = self.sys.take() {
            s.reclaim();
        }
        // values of items that were never detached are not dropped by the library: not its job
        vals::live_reset();
    }

    /// The call `what`, power failing in the middle of it; then a boot that attaches everything and reads.
    pub fn cut(&mut self, l: usize, what: What, at: Option<(u16, u16)>) -> R<()> {
        let f = at.map(|(at, k)| Fault { at, kind: FKind::Cut(k), burst: 0 });
        self.do_store(l, what, f)?;
        if !self.hw.ctls[l].fired.get() && at.is_some() {
            return Ok(());
        }
        self.hist.insert("C02");
        self.counts.hit("power_cut");
        // what may be loaded now: the acknowledged snapshot, or the one in progress
        let mut allowed: Vec<Option<Snap>> = self.lists[l].maybe.iter().cloned().map(Some).collect();
        allowed.push(self.lists[l].acked.clone());
        self.reboot(0)?;
        self.step(&Op::AttachAll { l: l as u8 })?;
        self.do_store(l, What::Read, None)?;
        self.settle()?;
        // all items come from one of them
        let fits = |s: &Option<Snap>| {
            self.items.iter().enumerate().all(|(i, it)| {
                if it.at != Some(l) || !matches!(it.hand, Hand::Live(_)) {
                    return true;
                }
                let stored = s
                    .as_ref()
                    .and_then(|s| s.get(it.key))
                    .and_then(|b| self.sys().decode(it.idx, b))
                    .unwrap_or_else(|| match it.def {
                        Def::Plain => self.sys().default(it.idx),
                        Def::With(v) => self.sys().make(it.idx, v),
                    });
                self.value(i) == Some(stored)
            })
        };
        soft_ensure!(
            allowed.iter().any(fits),
            &self.tags(&["C02"]),
            "after the power cut the loaded values are of no complete flush that may be loaded ({:?}): {:?}",
            allowed.iter().map(|s| s.as_ref().map(show_snap)).collect::<Vec<_>>(),
            self.current(l)
        );
        Ok(())
    }

    /// Closing checks: everything settles, survives a reboot, and all resources are released.
    pub fn finish(&mut self) -> R<()> {
        self.close(true)
    }
    /// The same, but without attaching everything once more.
    pub fn finish_without_last_boot(&mut self) -> R<()> {
        self.close(false)
    }
    fn close(&mut self, last_boot: bool) -> R<()> {
        for l in 0..self.lists.len() {
            self.do_store(l, What::Read, None)?;
            self.settle()?;
            self.recover(l)?;
        }
        self.invariants()?;
        let mut want: Vec<Option<Snap>> = vec![];
        for l in 0..self.lists.len() {
            // (a failed attempt that reached storage may be newer than the last acknowledged flush)
            self.check_disk(l, &["C01"])?;
            want.push(refmodel::newest(&self.elems(l)?).as_ref().map(snap_of));
        }
        // detach everything: nothing may stay alive
        for i in 0..self.items.len() {
            self.items[i].hand = Hand::None;
            if let Some(l) = self.items[i].at {
                self.do_detach(i, l)?;
            }
        }
        if let Some(b) = vals::live_bad() {
            soft(&["C15"], || b.clone())?;
        }
        soft_ensure!(vals::live() == 0, &["C15"], "{} values alive after everything was detached", vals::live());
        self.reboot(0)?;
        for l in 0..self.lists.len() {
            soft_ensure!(
                self.lists[l].acked == want[l],
                &self.tags(&["C01"]),
                "after the last reboot {:?} is stored instead of {:?}",
                self.lists[l].acked.as_ref().map(show_snap),
                want[l].as_ref().map(show_snap)
            );
            if !last_boot {
                continue;
            }
            self.step(&Op::AttachAll { l: l as u8 })?;
            self.do_store(l, What::Read, None)?;
            self.settle()?;
            self.invariants()?;
            for i in 0..self.items.len() {
                self.items[i].hand = Hand::None;
                if self.items[i].at == Some(l) {
                    self.do_detach(i, l)?;
                }
            }
        }
        if let Some(b) = vals::live_bad() {
            soft(&["C15"], || b.clone())?;
        }
        soft_ensure!(vals::live() == 0, &["C15"], "{} values alive after everything was detached", vals::live());
        self.shutdown();
        self.clean_exit = true;
        Ok(())
    }
}

fn trace() -> bool {
    thread_local!(static T: bool = std::env::var("NDL_TRACE").is_ok());
    T.with(|t| *t)
}

fn res_str(r: &Res) -> String {
    match r {
        Res::Ok(c) => format!("{c:?}"),
        Res::Err(e) => format!("{e:?}"),
        Res::Cancelled => "cancelled".into(),
    }
}

pub fn show_snap(s: &Snap) -> String {
    let v: Vec<String> = s.iter().map(|(k, v)| format!("{k}={}", hex(v))).collect();
    format!("{{{}}}", v.join(", "))
}
