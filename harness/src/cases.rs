//! All kinds of generated cases, and how each is executed.
use crate::disk::*;
use crate::engine::*;
use crate::refmodel;
use crate::sys::*;
use crate::vals::{Def, V};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum AnyCase {
    /// random history on the engine
    Hist(Case),
    /// every storage operation of one call fails / is cancelled / is corrupted in turn
    FaultEnum(FaultEnum),
    /// power is cut at every point of one call
    CutEnum(FaultEnum),
    /// arbitrary stored elements, then normal use
    Els(Els),
    Fallback(crate::more::Fallback),
    Bounded(crate::more::Bounded),
    Wk(crate::worker::Wk),
    Conc(crate::conc::Conc),
    Size(crate::size::Size),
    FlashQ(crate::queue::FlashQ),
    Junk(crate::fuzz::Junk),
    Threads(crate::thr::Threads),
}

pub struct Outcome {
    pub res: R<()>,
    pub labels: Counts,
    pub evals: u64,
    pub nontrivial: u64,
}

impl AnyCase {
    pub fn exec(&self, id: &str) -> Outcome {
        match self {
            AnyCase::Hist(c) => {
                let (res, labels) = Eng::run(c);
                let nontrivial = u64::from(hist_nontrivial(id, &labels));
                Outcome { res, labels, evals: 1, nontrivial }
            }
            AnyCase::FaultEnum(c) => c.exec(),
            AnyCase::CutEnum(c) => c.exec_cuts(),
            AnyCase::Els(c) => c.exec(),
            AnyCase::Fallback(c) => c.exec(),
            AnyCase::Bounded(c) => c.exec(id),
            AnyCase::Wk(c) => c.exec(id),
            AnyCase::Conc(c) => c.exec(id),
            AnyCase::Size(c) => c.exec(),
            AnyCase::FlashQ(c) => c.exec(),
            AnyCase::Junk(c) => c.exec(),
            AnyCase::Threads(c) => c.exec(),
        }
    }
}

/// When is a history worth counting for a property?
pub fn hist_nontrivial(id: &str, c: &Counts) -> bool {
    let g = |k: &str| c.get(k) > 0;
    match id {
        "C02" => g("power_cut") && g("flush_ok") && g("hydrated"),
        "C01" => g("flush_ok") && c.get("reboot") >= 2 && g("hydrated"),
        "C03" => (g("flush_failed") || g("flush_cancelled") || g("flush_oversize")) && g("flush_ok"),
        "C04" => g("read_failed") || g("read_cancelled") || g("gc_failed") || g("gc_cancelled"),
        "C05" => g("hydrated"),
        "C06" => g("gc_removed"),
        "C07" => g("gc_failed") || g("gc_cancelled"),
        "C08" => g("damage") && g("hydrated"),
        "C09" => c.get("flush_ok") >= 6 && g("gc_removed"),
        "C10" => g("flush_elided") || g("gc_noop"),
        "C11" => g("corrupted"),
        "C12" => (g("attach_refused") || g("detach_refused")) && (g("reattach") || g("detach")),
        "C13" => g("attach_waits") && (g("read_failed") || g("read_cancelled") || c.get("attached") >= 2),
        "C14" => c.get("write") >= 2,
        "C16" => g("flush_oversize"),
        "C15" => g("detach") && g("write"),
        "C17" => c.get("reboot") >= 2 && g("hydrated"),
        "C24" => g("waiter_notified") || g("wait_with_request"),
        "C25" => g("flush_refused_read") || g("flush_refused_gc"),
        "C26" => g("swap") || g("reset"),
        "C27" => g("flush_ok") && g("gc_ok"),
        "C33" => c.get("read_cost") >= 2 && (g("flush_cost") || g("gc_cost")),
        _ => true,
    }
}

// ------------------------------------------------------------------ fault enumeration

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FaultEnum {
    /// history leading up to the call
    pub base: Case,
    pub what: What,
    /// how many of the base's operations happen between preparation and the call
    pub pre: Vec<Op>,
    /// corrupt instead of fail
    pub corr: Option<Corr>,
    /// what the system does afterwards, before the closing checks
    pub tail: Vec<Op>,
}

impl FaultEnum {
    fn prepare(&self) -> R<Eng> {
        let c = &self.base;
        let mut e = c.start()?;
        let mut ops = c.ops.clone();
        match self.what {
            What::Read => {
                ops.push(Op::Reboot { rot: 0 });
                ops.extend(self.pre.iter().cloned());
                ops.push(Op::AttachAll { l: 0 });
            }
            What::Flush => {
                ops.push(Op::AttachAll { l: 0 });
                ops.push(Op::Store { l: 0, what: What::Read, f: None });
                ops.push(Op::Store { l: 0, what: What::Gc, f: None });
                ops.extend(self.pre.iter().cloned());
                ops.push(Op::Write { it: 0, v: V { n: 77, len: 5 } });
            }
            What::Gc => {
                ops.push(Op::AttachAll { l: 0 });
                ops.push(Op::Cycle { l: 0 });
                ops.push(Op::Write { it: 0, v: V { n: 78, len: 6 } });
                ops.push(Op::Store { l: 0, what: What::Flush, f: None });
                ops.extend(self.pre.iter().cloned());
            }
        }
        for (i, o) in ops.iter().enumerate() {
            e.step(o).map_err(|mut f| {
                f.msg = format!("preparation op #{i} {o:?}: {}", f.msg);
                f
            })?;
        }
        Ok(e)
    }

    fn exec(&self) -> Outcome {
        let kinds: Vec<FKind> = match self.corr {
            Some(c) => vec![FKind::Corr(c)],
            None => vec![FKind::ErrB, FKind::ErrA, FKind::CanB, FKind::CanA],
        };
        let mut labels = Counts::default();
        let mut evals = 0;
        let mut nontrivial = 0;
        // operation count of the undisturbed call
        let total = match self.prepare() {
            Err(f) => return Outcome { res: Err(f), labels, evals: 1, nontrivial: 0 },
            Ok(mut e) => match e.step(&Op::Store { l: 0, what: self.what, f: None }) {
                Err(f) => return Outcome { res: Err(f), labels, evals: 1, nontrivial: 0 },
                Ok(()) => e.hw.ctls[0].n.get(),
            },
        };
        for kind in kinds {
            for at in 0..total.min(400) as u16 {
                evals += 1;
                let f = Fault { at, kind, burst: 0 };
                let r = (|| -> R<bool> {
                    let mut e = self.prepare()?;
                    e.step(&Op::Store { l: 0, what: self.what, f: Some(f) })?;
                    let fired = e.hw.ctls[0].fired.get();
                    e.run_ops(&self.tail)?;
                    for (k, v) in &e.counts.m {
                        *labels.m.entry(k).or_insert(0) += v;
                    }
                    Ok(fired)
                })();
                match r {
                    Ok(fired) => nontrivial += u64::from(fired),
                    Err(mut x) => {
                        x.msg = format!("{:?} with {f:?}: {}", self.what, x.msg);
                        return Outcome { res: Err(x), labels, evals, nontrivial };
                    }
                }
            }
        }
        Outcome { res: Ok(()), labels, evals, nontrivial }
    }
}

impl FaultEnum {
    fn exec_cuts(&self) -> Outcome {
        let mut labels = Counts::default();
        let mut evals = 0;
        let mut nontrivial = 0;
        // every operation that changes storage, word by word
        let cuts: Vec<(u16, u16)> = match self.prepare() {
            Err(f) => return Outcome { res: Err(f), labels, evals: 1, nontrivial: 0 },
            Ok(mut e) => {
                let ctl = e.hw.ctls[0].clone();
                *ctl.kinds.borrow_mut() = Some(vec![]);
                match e.step(&Op::Store { l: 0, what: self.what, f: None }) {
                    Err(f) => return Outcome { res: Err(f), labels, evals: 1, nontrivial: 0 },
                    Ok(()) => {
                        let words = ctl.words.borrow();
                        let kinds = ctl.kinds.borrow();
                        let mut v = vec![];
                        for (n, k) in kinds.as_ref().unwrap().iter().enumerate().take(600) {
                            match k {
                                OpK::NWrite => {
                                    let w = words.iter().find(|w| w.0 == n as u64).map_or(1, |w| w.1);
                                    v.extend((0..w.max(1)).map(|i| (n as u16, i as u16)));
                                    // after the last word, before anything else
                                    v.push((n as u16, w as u16));
                                }
                                OpK::NErase | OpK::Push | OpK::Inval => v.extend([(n as u16, 0), (n as u16, 1)]),
                                // power failing around a read changes nothing: once is enough
                                _ if n == 0 => v.push((0, 0)),
                                _ => {}
                            }
                        }
                        v
                    }
                }
            }
        };
        for (at, k) in cuts {
            evals += 1;
            let r = (|| -> R<bool> {
                let mut e = self.prepare()?;
                e.note("C02");
                e.cut(0, self.what, Some((at, k)))?;
                let fired = e.counts.get("power_cut") > 0;
                e.run_ops(&self.tail)?;
                for (k, v) in &e.counts.m {
                    *labels.m.entry(k).or_insert(0) += v;
                }
                Ok(fired)
            })();
            match r {
                Ok(fired) => nontrivial += u64::from(fired),
                Err(mut x) => {
                    x.msg = format!("{:?} cut at operation {at}, word {k}: {}", self.what, x.msg);
                    return Outcome { res: Err(x), labels, evals, nontrivial };
                }
            }
        }
        Outcome { res: Ok(()), labels, evals, nontrivial }
    }
}

// ------------------------------------------------------------------ arbitrary element lists

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ElSpec {
    /// an intact record
    Rec { seq: u32, kvs: Vec<(u8, Val)> },
    /// a record with one thing wrong
    Broken { seq: u32, kvs: Vec<(u8, Val)>, how: Break },
    Start(u32),
    Data(u8, Val),
    End(u32, u32),
    Raw(Vec<u8>),
    /// an intact record of any data elements
    RecRaw { seq: u32, datas: Vec<Vec<u8>> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Break {
    NoEnd,
    NoStart,
    EndSeq(u32),
    Crc(u32),
    DropData(u8),
    DupData(u8),
    FlipData(u8, u16),
    Insert(u8, Vec<u8>),
    SwapData(u8, u8),
    CutAfter(u8),
}

/// Stored bytes of a value
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Val {
    U(u64),
    S(String),
    Raw(Vec<u8>),
    /// value of the item kind
    K(u8, V),
}

pub fn val_bytes(v: &Val) -> Vec<u8> {
    use crate::vals::*;
    match v {
        Val::U(n) => n.enc(),
        Val::S(s) => s.clone().enc(),
        Val::Raw(b) => b.clone(),
        Val::K(k, v) => match k % NKINDS {
            0 => u8::make(*v).enc(),
            1 => u64::make(*v).enc(),
            2 => String::make(*v).enc(),
            3 => Rec3::make(*v).enc(),
            4 => Tracked::make(*v).enc(),
            _ => Aligned::make(*v).enc(),
        },
    }
}

pub fn kv_bytes(kvs: &[(u8, Val)]) -> Vec<(String, Vec<u8>)> {
    let mut out: Vec<(String, Vec<u8>)> = vec![];
    for (k, v) in kvs {
        let key = key_name(*k).to_string();
        if !out.iter().any(|(x, _)| *x == key) {
            out.push((key, val_bytes(v)));
        }
    }
    out
}

pub fn raw_elements(specs: &[ElSpec]) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    for s in specs {
        let add: Vec<Vec<u8>> = match s {
            ElSpec::Rec { seq, kvs } => refmodel::build((*seq).max(1), &kv_bytes(kvs)),
            ElSpec::Broken { seq, kvs, how } => {
                let mut r = refmodel::build((*seq).max(1), &kv_bytes(kvs));
                let n = r.len();
                let d = |i: u8| if n > 2 { 1 + i as usize % (n - 2) } else { 0 };
                match how {
                    Break::NoEnd => {
                        r.pop();
                    }
                    Break::NoStart => {
                        r.remove(0);
                    }
                    Break::EndSeq(s) => {
                        let b = r[n - 1].clone();
                        let crc = u32::from_le_bytes([b[5], b[6], b[7], b[8]]);
                        r[n - 1] = refmodel::enc_end((*s).max(1), crc)
                    }
                    Break::Crc(x) => {
                        let b = r[n - 1].clone();
                        let crc = u32::from_le_bytes([b[5], b[6], b[7], b[8]]);
                        r[n - 1] = refmodel::enc_end((*seq).max(1), crc ^ (*x).max(1))
                    }
                    Break::DropData(i) => {
                        r.remove(d(*i));
                    }
                    Break::DupData(i) => {
                        let x = r[d(*i)].clone();
                        r.insert(d(*i), x);
                    }
                    Break::FlipData(i, bit) => {
                        let b = &mut r[d(*i)];
                        let k = *bit as usize % (b.len() * 8);
                        b[k / 8] ^= 1 << (k % 8);
                    }
                    Break::Insert(i, e) => {
                        let mut e = e.clone();
                        if e.is_empty() {
                            e.push(9)
                        }
                        r.insert(d(*i).max(1), e)
                    }
                    Break::SwapData(i, j) => {
                        let (i, j) = (d(*i), d(*j));
                        r.swap(i, j)
                    }
                    Break::CutAfter(i) => r.truncate(1 + *i as usize % n),
                }
                r
            }
            ElSpec::RecRaw { seq, datas } => {
                let mut r = vec![refmodel::enc_start((*seq).max(1))];
                let ch: Vec<&[u8]> = datas.iter().filter(|d| !d.is_empty()).map(|d| d.as_slice()).collect();
                let crc = refmodel::crc_cksum(&ch);
                for d in ch {
                    let mut b = vec![refmodel::H_DATA];
                    b.extend_from_slice(d);
                    r.push(b);
                }
                r.push(refmodel::enc_end((*seq).max(1), crc));
                r
            }
            ElSpec::Start(s) => vec![refmodel::enc_start((*s).max(1))],
            ElSpec::Data(k, v) => vec![refmodel::enc_data(key_name(*k), &val_bytes(v))],
            ElSpec::End(s, c) => vec![refmodel::enc_end((*s).max(1), *c)],
            ElSpec::Raw(b) => vec![if b.is_empty() { vec![0xee] } else { b.clone() }],
        };
        out.extend(add);
    }
    out
}

pub fn elements(specs: &[ElSpec]) -> Vec<Vec<u8>> {
    let mut out = raw_elements(specs);
    for e in out.iter_mut() {
        e.truncate(MEM_MAX - 4);
    }
    // two intact records with one number cannot be ordered, and numbers near the end have no successors (documented limit)
    loop {
        let rs = refmodel::records(&out);
        let mut bad = None;
        for (i, r) in rs.iter().enumerate() {
            if r.seq > u32::MAX - 1000 || rs[..i].iter().any(|o| o.seq == r.seq) {
                bad = Some(r.end);
                break;
            }
        }
        match bad {
            Some(i) => {
                out.remove(i);
            }
            None => return out,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Els {
    pub cfg: StoreCfg,
    pub kept: u8,
    pub items: Vec<(u8, u8)>,
    pub els: Vec<ElSpec>,
    /// put into storage without the usual clean-up of ambiguous records
    pub ops: Vec<Op>,
    pub def: Def,
}

impl Els {
    fn exec(&self) -> Outcome {
        let el = elements(&self.els);
        let recs = refmodel::records(&el);
        let mut labels = Counts::default();
        let r = (|| -> R<()> {
            let mut e = Eng::new(self.cfg, self.kept, 1, &self.items, Lim::default());
            e.load_elems(0, &el)?;
            // the order of first operations is part of the case
            let ops: Vec<Op> = self.ops.clone();
            let r = e.run_ops(&ops);
            labels = e.counts.clone();
            r
        })();
        if !recs.is_empty() {
            labels.hit("has_intact");
        }
        let intact: usize = recs.iter().map(|r| r.end - r.start + 1).sum();
        if intact < el.len() {
            labels.hit("has_garbage");
        }
        if recs.windows(2).any(|w| w[0].seq > w[1].seq) {
            labels.hit("unordered_records");
        }
        if recs.len() > self.kept as usize {
            labels.hit("more_than_kept");
        }
        let nontrivial = u64::from(!recs.is_empty() && (intact < el.len() || recs.len() > 1));
        Outcome { res: r, labels, evals: 1, nontrivial }
    }
}
