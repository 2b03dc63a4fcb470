//! Values around the size limit of the storage.
use crate::cases::*;
use crate::disk::mem_len;
use crate::engine::*;
use crate::refmodel;
use crate::sys::*;
use crate::vals::{self, Def, V};
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct SizeRound {
    /// element size aimed at, relative to the limit
    pub delta: i16,
    pub pat: u8,
    /// write to another item as well
    pub other: Option<(u8, V)>,
    /// flush this often before doing anything about a refusal
    pub retries: u8,
    pub reboot: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Size {
    pub cfg: StoreCfg,
    pub kept: u8,
    /// kind and key of the big item
    pub big: (u8, u8),
    /// attached before the big one
    pub first: Vec<(u8, u8)>,
    /// attached after it
    pub last: Vec<(u8, u8)>,
    /// scratch buffers are this much larger (or smaller) than needed
    pub buf: i16,
    pub rounds: Vec<SizeRound>,
}

fn head(n: usize) -> usize {
    match n {
        0..24 => 1,
        24..256 => 2,
        _ => 3,
    }
}

/// The value length that makes an element of `total` bytes (or slightly fewer)
fn value_len(key: &str, total: usize) -> usize {
    let fixed = 1 + refmodel::cbor_text(key).len();
    let room = total.saturating_sub(fixed);
    (0..=room).rev().find(|n| head(*n) + n <= room).unwrap_or(0)
}

impl Size {
    pub fn exec(&self) -> Outcome {
        let mut labels = Counts::default();
        let mut nontrivial = 0;
        let res = self.run(&mut labels, &mut nontrivial);
        Outcome { res, labels, evals: 1, nontrivial }
    }
    fn run(&self, labels: &mut Counts, nontrivial: &mut u64) -> R<()> {
        let (mut cfg, mut kept) = (self.cfg, self.kept);
        let mut items: Vec<(u8, u8)> = vec![];
        let mut add = |i: &(u8, u8)| {
            if !items.iter().any(|o| key_name(o.1) == key_name(i.1)) {
                items.push(*i)
            }
        };
        // the big item's key has priority
        self.first.iter().filter(|i| key_name(i.1) != key_name(self.big.1)).for_each(&mut add);
        add(&self.big);
        self.last.iter().for_each(&mut add);
        if let StoreCfg::Nor(g) = &mut cfg {
            // every record may take three pages, and one more has to be written
            *g %= NGEO;
            let (_, _, _, p) = GEO[*g as usize];
            while kept > 1 && (kept as usize + 1) * 3 + 2 > p {
                kept -= 1;
            }
        }
        let big = items.iter().position(|i| key_name(i.1) == key_name(self.big.1)).unwrap();
        let mut e = Eng::new(cfg, kept, 1, &items, Lim::default());
        e.note("C16");
        if self.buf != 0 {
            // (flash reads are padded to whole words)
            let d = match cfg {
                StoreCfg::Mem => (self.buf as i32).max(-60),
                _ => (self.buf as i32).max(0),
            };
            e.set_buf(d);
        }
        for i in 0..items.len() {
            e.step(&Op::Attach { it: i as u8, l: 0, def: if i == big { Def::Plain } else { Def::With(V { n: 3, len: 2 }) } })?;
        }
        e.step(&Op::Store { l: 0, what: What::Read, f: None })?;
        let key = key_name(self.big.1);
        for (n, r) in self.rounds.iter().enumerate() {
            let res = (|| -> R<()> {
                let limit = e.limit();
                let total = (limit as i32 + r.delta as i32).max(0) as usize;
                let v = V { n: value_len(key, total) as u64, len: r.pat };
                let size = 1 + refmodel::cbor_text(key).len() + e.make(big, v).len();
                let fits = e.fits(big, v);
                ensure!(
                    fits == (size <= e.max_elem()),
                    &["C16"],
                    "the size check says {fits} for an element of {size} bytes (limit {})",
                    e.max_elem()
                );
                e.step(&Op::Write { it: big as u8, v })?;
                if let Some((it, w)) = r.other {
                    if it as usize % items.len() != big {
                        e.step(&Op::Write { it, v: w })?;
                    }
                }
                labels.hit(match (size <= limit, size as i64 - limit as i64) {
                    (_, 0) => "exact",
                    (true, -8..0) => "just_fits",
                    (true, _) => "fits",
                    (false, 1..=8) => "just_too_large",
                    (false, _) => "too_large",
                });
                *nontrivial |= u64::from((size as i64 - limit as i64).abs() <= 8);
                // (with a small buffer another item may be the one that is too large)
                let ok = e.all_fit(0);
                let acked = e.acked(0);
                let written = e.counts.get("flush_ok");
                for _ in 0..=r.retries % 3 {
                    // whatever it takes: collect, then flush
                    e.step(&Op::Store { l: 0, what: What::Read, f: None })?;
                    e.step(&Op::Store { l: 0, what: What::Gc, f: None })?;
                    e.step(&Op::Store { l: 0, what: What::Flush, f: None })?;
                }
                if ok {
                    let el = e.elems(0)?;
                    let got = refmodel::newest(&el).and_then(|r| r.get(key));
                    ensure!(
                        got == Some(e.make(big, v)) && e.counts.get("flush_ok") > written,
                        &["C16"],
                        "a value passing the size check ({size} of {limit} bytes) is not stored by a flush"
                    );
                } else {
                    ensure!(
                        e.acked(0) == acked && e.counts.get("flush_ok") == written,
                        &["C16"],
                        "a flush succeeded although an item is too large ({size} of {limit} bytes)"
                    );
                }
                if r.reboot {
                    let before = e.value(big);
                    e.step(&Op::Reboot { rot: 0 })?;
                    e.step(&Op::AttachAll { l: 0 })?;
                    e.step(&Op::Store { l: 0, what: What::Read, f: None })?;
                    if ok {
                        ensure!(
                            e.value(big) == before,
                            &["C16"],
                            "a value of {size} bytes (limit {limit}) does not load again"
                        );
                    }
                }
                Ok(())
            })();
            res.map_err(|mut f| {
                f.msg = format!("round #{n}: {}", f.msg);
                f
            })?;
        }
        if 1 + refmodel::cbor_text(key).len() + 4 > e.limit() {
            // not even the key fits: the rest works without this item
            labels.hit("key_too_large");
            e.step(&Op::DropHandle { it: big as u8 })?;
            e.step(&Op::Detach { it: big as u8, l: 0 })?;
            e.step(&Op::Cycle { l: 0 })?;
            e.finish_without_last_boot()?;
        } else {
            e.run_ops(&[])?;
        }
        let r = Ok(());
        for (k, v) in &e.counts.m {
            *labels.m.entry(k).or_insert(0) += v;
        }
        r
    }
}

#[allow(unused)]
fn unused() {
    let _ = (mem_len(1), vals::NKINDS);
}
