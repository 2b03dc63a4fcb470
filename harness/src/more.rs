//! Cases with their own shape: fall-back to older records, bounded storage.
use crate::cases::*;
use crate::disk::*;
use crate::engine::*;
use crate::refmodel;
use crate::sim::Task;
use crate::sys::*;
use crate::vals::{Def, DynHandle, V};
use serde::{Deserialize, Serialize};

pub fn finish_case(e: R<()>, labels: Counts, nontrivial: u64) -> Outcome {
    Outcome { res: e, labels, evals: 1, nontrivial }
}

/// Distinct keys, so that every item can be attached to one list.
fn distinct(items: &[(u8, u8)]) -> Vec<(u8, u8)> {
    let mut out: Vec<(u8, u8)> = vec![];
    for (k, key) in items {
        if !out.iter().any(|o| key_name(o.1) == key_name(*key)) {
            out.push((*k, *key));
        }
    }
    out
}

// ------------------------------------------------------------------ falling back to kept records

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Hit {
    /// which element of the record
    pub e: u8,
    pub how: u8,
    pub bit: u16,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fallback {
    pub cfg: StoreCfg,
    pub kept: u8,
    pub items: Vec<(u8, u8)>,
    /// writes before each flush, and a fault during the collection that follows it
    pub rounds: Vec<(Vec<(u8, V)>, Option<Fault>)>,
    /// damage to the newest record, the one before it, ...
    pub hits: Vec<Hit>,
    /// as in `Case`
    #[serde(default)]
    pub num: u32,
}

impl Fallback {
    pub fn exec(&self) -> Outcome {
        let mut labels = Counts::default();
        let mut nontrivial = 0;
        let r = self.run(&mut labels, &mut nontrivial);
        finish_case(r, labels, nontrivial)
    }
    fn run(&self, labels: &mut Counts, nontrivial: &mut u64) -> R<()> {
        let items = distinct(&self.items);
        let mut e = Eng::new(self.cfg, self.kept, 1, &items, Lim::default());
        e.note("C08");
        e.preset(self.num, 0)?;
        let mut snaps: Vec<Snap> = e.acked(0).into_iter().collect();
        e.step(&Op::AttachAll { l: 0 })?;
        e.step(&Op::Store { l: 0, what: What::Read, f: None })?;
        e.step(&Op::Store { l: 0, what: What::Gc, f: None })?;
        for (i, (ws, f)) in self.rounds.iter().enumerate() {
            for (it, v) in ws {
                e.step(&Op::Write { it: *it, v: *v })?;
            }
            e.step(&Op::Write { it: 0, v: V { n: i as u64 + 100, len: 1 + (i % 9) as u8 } })?;
            e.step(&Op::Store { l: 0, what: What::Flush, f: None })?;
            snaps.push(e.acked(0).unwrap_or_default());
            if f.is_some() {
                e.step(&Op::Store { l: 0, what: What::Gc, f: *f })?;
                e.step(&Op::Store { l: 0, what: What::Read, f: None })?;
            }
            e.step(&Op::Store { l: 0, what: What::Gc, f: None })?;
        }
        // N-1 damaged records are survived when N are kept and N flushes were done
        let k = e.hw.kept as usize;
        let m = self.hits.len().min(k - 1).min(snaps.len().saturating_sub(1));
        let el = e.elems(0)?;
        let recs = refmodel::records(&el);
        let mut by_age: Vec<&refmodel::Rec> = recs.iter().collect();
        by_age.sort_by_key(|r| std::cmp::Reverse(r.seq));
        ensure!(
            by_age.len() == k.min(snaps.len()),
            &["C08", "C06"],
            "{} flushes were done and {k} records are to be kept, but {} are stored: {}",
            snaps.len(),
            by_age.len(),
            show(&el)
        );
        let gone: Vec<u32> = by_age.iter().take(m).map(|r| r.seq).collect();
        let mut edits: Vec<(usize, Hit)> = vec![];
        for (i, h) in self.hits.iter().take(m).enumerate() {
            let r = by_age[i];
            edits.push((r.start + h.e as usize % (r.end - r.start + 1), *h));
        }
        edits.sort_by_key(|x| std::cmp::Reverse(x.0));
        for (pos, h) in edits {
            match self.cfg {
                StoreCfg::Mem => {
                    let d = e.hw.disks[0].mem().clone();
                    let mut v = d.borrow_mut();
                    match h.how % 4 {
                        0 => {
                            let k = h.bit as usize % (v[pos].len() * 8);
                            v[pos][k / 8] ^= 1 << (k % 8);
                        }
                        1 => {
                            v.remove(pos);
                        }
                        2 => {
                            let n = 1 + h.bit as usize % v[pos].len();
                            let len = v[pos].len();
                            v[pos].truncate(n.min(len - 1).max(1));
                        }
                        _ => v[pos][0] = 3 + (h.bit % 250) as u8,
                    }
                }
                StoreCfg::Nor(_) => {
                    // the closing element carries number and checksum: its bytes are unique
                    let r = recs.iter().find(|r| r.start <= pos && pos <= r.end).unwrap();
                    let b = el[r.end].clone();
                    e.nor_rot(0, &b, h.bit);
                }
            }
        }
        let left = refmodel::records(&e.elems(0)?);
        if left.iter().any(|r| gone.contains(&r.seq)) {
            // truncating a one-byte value to itself, say
            labels.hit("damage_without_effect");
            return Ok(());
        }
        labels.hit(["damaged_0", "damaged_1", "damaged_2", "damaged_3", "damaged_4", "damaged_5", "damaged_6"][m.min(6)]);
        *nontrivial = u64::from(m > 0);
        e.reference(0)?;
        let want = &snaps[snaps.len() - 1 - m];
        ensure!(
            e.acked(0).as_ref() == Some(want),
            &["C08"],
            "after damage to the {m} newest records, {:?} is left instead of {}",
            e.acked(0).as_ref().map(show_snap),
            show_snap(want)
        );
        e.reboot(0)?;
        e.step(&Op::AttachAll { l: 0 })?;
        e.step(&Op::Store { l: 0, what: What::Read, f: None })?;
        for (i, key) in e.keys().iter().enumerate() {
            let got = e.value(i);
            ensure!(
                got.as_ref() == want.get(*key) || want.is_empty(), // (the preset record has no items)
                &["C08"],
                "after damage to the {m} newest records, item {key:?} loads {:?} instead of {:?}",
                got.as_ref().map(|v| hex(v)),
                want.get(*key).map(|v| hex(v))
            );
        }
        e.run_ops(&[])
    }
}

// ------------------------------------------------------------------ bounded storage

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Round {
    pub writes: Vec<(u8, V)>,
    /// a disturbed call before the round's flush
    pub f: Option<(What, Fault)>,
    /// power cut right after it
    pub reboot: bool,
    pub reboot_after: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bounded {
    pub cfg: StoreCfg,
    pub kept: u8,
    pub items: Vec<(u8, u8)>,
    pub len: u8,
    pub rounds: Vec<Round>,
    /// as in `Case`
    #[serde(default)]
    pub num: u32,
}

impl Bounded {
    pub fn exec(&self, id: &str) -> Outcome {
        let mut labels = Counts::default();
        let mut nontrivial = 0;
        let r = if id == "C32" {
            self.wear(&mut labels, &mut nontrivial)
        } else {
            self.run(&mut labels, &mut nontrivial)
        };
        finish_case(r, labels, nontrivial)
    }
    /// Storage for `kept + 1` records of the largest size.
    fn limit(&self, items: &[(u8, u8)], faulty: bool, more: usize) -> Lim {
        let mut probe = Eng::new(self.cfg, self.kept, 1, items, Lim::default());
        let mut data = vec![];
        let sizes: Vec<u8> = (self.len.saturating_sub(2)..=self.len).collect();
        for (i, key) in probe.keys().iter().enumerate() {
            let v = sizes.iter().map(|l| probe.make(i, V { n: u64::MAX, len: *l }).len()).max().unwrap();
            let d = probe.make(i, V { n: 11 + i as u64, len: 3 }).len();
            data.push(1 + refmodel::cbor_text(key).len() + v.max(d));
        }
        let kept = probe.hw.kept as usize;
        let lim = match self.cfg {
            StoreCfg::Mem => {
                let rec: usize = mem_len(5) + mem_len(9) + data.iter().map(|d| mem_len(*d)).sum::<usize>();
                Lim { cap: Some((kept + 1) * rec), pages: None }
            }
            StoreCfg::Nor(g) => {
                let rec: usize =
                    probe.nor_len(5) + probe.nor_len(9) + data.iter().map(|d| probe.nor_len(*d)).sum::<usize>();
                let (w, r, e, _) = GEO[g as usize];
                let biggest = data.iter().map(|d| probe.nor_len(*d)).max().unwrap().max(probe.nor_len(9));
                // items do not cross pages: the end of a page may stay unused
                let usable = e - 2 * w.max(r) - (biggest - 1);
                let n = (kept + 1) * if faulty { 2 } else { 1 };
                Lim { cap: None, pages: Some(((n * rec).div_ceil(usable) + 2).max(3) + more) }
            }
        };
        probe.abandon();
        lim
    }
    /// Write, flush and collect through the public API, whatever the stored contents are, and look at
    /// nothing but the erase counts: pages are erased in turn, and only when the room is needed.
    fn wear(&self, labels: &mut Counts, nontrivial: &mut u64) -> R<()> {
        let items = distinct(&self.items);
        let lim = self.limit(&items, false, self.rounds.len() % 3);
        let StoreCfg::Nor(g) = self.cfg else { return Ok(()) };
        let (w, r, page, _) = GEO[g as usize];
        let mut e = Eng::new(self.cfg, self.kept, 1, &items, lim);
        e.preset(self.num, 0)?;
        let mut pushed = if self.num > 0 { e.nor_len(5) + e.nor_len(9) } else { 0 };
        let mut biggest = e.nor_len(9);
        let clip = |v: &V| V { n: v.n, len: v.len.min(self.len) };
        let defs: Vec<V> = (0..items.len()).map(|i| V { n: 11 + i as u64, len: 3 }).collect();
        let keys = e.keys();
        let mut handles = self.open(&mut e, &defs);
        for (i, rd) in self.rounds.iter().enumerate() {
            for (it, v) in &rd.writes {
                let k = *it as usize % items.len();
                if let Some(h) = handles.get_mut(k).and_then(|h| h.as_mut()) {
                    let _ = Task::new(h.write(clip(v))).run_ready();
                }
            }
            let mut what = What::Flush;
            let mut done = false;
            for _ in 0..12 {
                let res = e.run_store(0, what, None);
                let changed = !e.hw.ctls[0].io.borrow().no_mutation();
                what = match (what, res) {
                    (_, Err(_)) => break,
                    (What::Flush, Ok(Res::Ok(_))) => {
                        done = true;
                        if changed {
                            labels.hit("flush_ok");
                            pushed += e.nor_len(5) + e.nor_len(9);
                            for (h, key) in handles.iter().zip(&keys) {
                                if let Some(h) = h {
                                    let n = e.nor_len(1 + refmodel::cbor_text(key).len() + h.load().len());
                                    biggest = biggest.max(n);
                                    pushed += n;
                                }
                            }
                        }
                        break;
                    }
                    (What::Flush, Ok(Res::Err(OpErr::NeedsGc))) => What::Gc,
                    (What::Read, _) => What::Gc,
                    (What::Gc, _) => What::Flush,
                    (What::Flush, _) => What::Read,
                };
            }
            if !done {
                // not for this check to judge
                labels.hit("stuck");
                break;
            }
            let _ = e.run_store(0, What::Gc, None);
            let d = e.hw.disks[0].nor().borrow();
            let pages = d.bytes.len() / page;
            let at = |k: usize| d.erases.get(k).copied().unwrap_or(0);
            let (min, max) = ((0..pages).map(at).min().unwrap(), (0..pages).map(at).max().unwrap());
            ensure!(max - min <= 1, &["C32"], "round #{i}, {pages} pages: they have been erased {:?} times", d.erases);
            let sum: u64 = (0..pages).map(at).sum();
            let usable = (page - 2 * w.max(r) - (biggest - 1)) as u64;
            ensure!(
                sum * usable <= pushed as u64,
                &["C32"],
                "round #{i}: {sum} pages of {usable} usable bytes have been erased for {pushed} bytes written"
            );
            if min > 0 {
                labels.hit("all_pages_erased");
                *nontrivial = 1;
            }
            if max > 3 {
                labels.hit("fourth_turn");
            }
            drop(d);
            if rd.reboot_after {
                handles.clear();
                e.restart();
                handles = self.open(&mut e, &defs);
                labels.hit("reboot");
            }
        }
        handles.clear();
        e.abandon();
        Ok(())
    }
    /// Attach everything and read.
    fn open(&self, e: &mut Eng, defs: &[V]) -> Vec<Option<Box<dyn DynHandle>>> {
        let mut tasks = e.attach_raw(defs);
        tasks.iter_mut().for_each(|t| drop(t.run_ready().map(std::mem::forget)));
        let _ = e.run_store(0, What::Read, None);
        let h = tasks.iter_mut().map(|t| t.run_ready().and_then(|r| r.ok())).collect();
        let _ = e.run_store(0, What::Gc, None);
        h
    }
    fn run(&self, labels: &mut Counts, nontrivial: &mut u64) -> R<()> {
        let items = distinct(&self.items);
        let faulty = self.rounds.iter().any(|r| r.f.is_some());
        let lim = self.limit(&items, faulty, 0);
        let mut e = Eng::new(self.cfg, self.kept, 1, &items, lim);
        e.note("C09");
        let clip = |v: &V| V { n: v.n, len: v.len.min(self.len) };
        let r = (|| -> R<()> {
            e.preset(self.num, 0)?;
            e.step(&Op::AttachAll { l: 0 })?;
            e.step(&Op::Store { l: 0, what: What::Read, f: None })?;
            for (i, rd) in self.rounds.iter().enumerate() {
                (|| -> R<()> {
                    for (it, v) in &rd.writes {
                        e.step(&Op::Write { it: *it, v: clip(v) })?;
                    }
                    if let Some((what, f)) = rd.f {
                        e.step(&Op::Store { l: 0, what, f: Some(f) })?;
                        if rd.reboot {
                            e.reboot(0)?;
                            e.step(&Op::AttachAll { l: 0 })?;
                            e.step(&Op::Store { l: 0, what: What::Read, f: None })?;
                            for (it, v) in &rd.writes {
                                e.step(&Op::Write { it: *it, v: clip(v) })?;
                            }
                        }
                        // documented steps
                        e.step(&Op::Store { l: 0, what: What::Read, f: None })?;
                        e.step(&Op::Store { l: 0, what: What::Gc, f: None })?;
                    }
                    e.recover(0)?;
                    if rd.reboot_after {
                        e.reboot(0)?;
                        e.step(&Op::AttachAll { l: 0 })?;
                        e.step(&Op::Store { l: 0, what: What::Read, f: None })?;
                        e.step(&Op::Store { l: 0, what: What::Gc, f: None })?;
                    }
                    Ok(())
                })()
                .map_err(|mut f| {
                    f.msg = format!("round #{i} ({lim:?}): {}", f.msg);
                    f
                })?;
            }
            e.finish()
        })();
        *labels = e.counts.clone();
        *nontrivial = u64::from(labels.get("flush_ok") >= 6 && labels.get("gc_removed") > 0);
        if faulty {
            labels.hit("with_faults");
        }
        r
    }
}

#[allow(unused)]
fn unused(_: Def) {}
