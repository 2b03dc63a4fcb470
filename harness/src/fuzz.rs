//! Arbitrary stored bytes: element byte strings and flash images.
use crate::cases::{ElSpec, Outcome, raw_elements};
use crate::disk::*;
use crate::engine::*;
use crate::refmodel;
use crate::sim::Task;
use crate::sys::*;
use crate::vals::{self, Def, DynHandle, V};
use cfg_noodle::sequential_storage::cache::{CacheImpl, NoCache, PagePointerCache, PageStateCache};
use cfg_noodle::sequential_storage::queue::{QueueConfig, QueueStorage};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ElEdit {
    Set(u16, u16, u8),
    Xor(u16, u16, u8),
    Ins(u16, u16, Vec<u8>),
    Cut(u16, u16, u8),
    Trunc(u16, u16),
    DupEl(u16, u16),
    SwapEl(u16, u16),
    DelEl(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ImgEdit {
    Set(u32, u8),
    Xor(u32, u8),
    Fill(u32, u16, u8),
    Bytes(u32, Vec<u8>),
    CopyPage(u8, u8),
    ErasePage(u8),
    /// the page's first / last word
    Marker(u8, bool, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum JOp {
    Attach(u8, Def),
    Read,
    Flush,
    Gc,
    Write(u8, V),
    Drop(u8),
    Detach(u8),
    Reboot,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Junk {
    pub cfg: StoreCfg,
    pub kept: u8,
    pub items: Vec<(u8, u8)>,
    pub els: Vec<ElSpec>,
    pub edits: Vec<ElEdit>,
    /// make records intact again after the edits
    pub fix: bool,
    pub img: Vec<ImgEdit>,
    pub ops: Vec<JOp>,
}

fn edit_elements(v: &mut Vec<Vec<u8>>, e: &ElEdit) {
    let n = v.len();
    if n == 0 {
        return;
    }
    let at = |i: &u16| *i as usize % n;
    match e {
        ElEdit::Set(i, p, b) => {
            let x = &mut v[at(i)];
            let l = x.len();
            x[*p as usize % l] = *b
        }
        ElEdit::Xor(i, p, b) => {
            let x = &mut v[at(i)];
            let l = x.len();
            x[*p as usize % l] ^= *b
        }
        ElEdit::Ins(i, p, b) => {
            let x = &mut v[at(i)];
            let p = *p as usize % (x.len() + 1);
            x.splice(p..p, b.iter().copied());
        }
        ElEdit::Cut(i, p, k) => {
            let x = &mut v[at(i)];
            let p = *p as usize % x.len();
            let e = (p + 1 + *k as usize % 8).min(x.len());
            x.drain(p..e);
        }
        ElEdit::Trunc(i, p) => {
            let x = &mut v[at(i)];
            let l = x.len();
            x.truncate(1 + *p as usize % l)
        }
        ElEdit::DupEl(i, j) => {
            let x = v[at(i)].clone();
            v.insert(at(j), x)
        }
        ElEdit::SwapEl(i, j) => v.swap(at(i), at(j)),
        ElEdit::DelEl(i) => {
            v.remove(at(i));
        }
    }
    v.retain(|x| !x.is_empty());
}

/// Correct the checksum of every end element that follows a start element.
fn fix_records(v: &mut [Vec<u8>]) {
    let mut start: Option<(u32, usize)> = None;
    for i in 0..v.len() {
        match refmodel::decode(&v[i]) {
            refmodel::El::Start(s) => start = Some((s, i)),
            refmodel::El::End(..) => {
                if let Some((s, from)) = start.take() {
                    let data: Vec<&[u8]> = v[from + 1..i].iter().map(|d| &d[1..]).collect();
                    v[i] = refmodel::enc_end(s, refmodel::crc_cksum(&data));
                }
            }
            refmodel::El::Bad => start = None,
            refmodel::El::Data(_) => {}
        }
    }
}

fn edit_image(b: &mut [u8], page: usize, word: usize, e: &ImgEdit) {
    let n = b.len();
    let pages = n / page;
    let at = |p: &u32| *p as usize % n;
    match e {
        ImgEdit::Set(p, x) => b[at(p)] = *x,
        ImgEdit::Xor(p, x) => b[at(p)] ^= *x,
        ImgEdit::Fill(p, l, x) => {
            let e = (at(p) + *l as usize).min(n);
            b[at(p)..e].fill(*x)
        }
        ImgEdit::Bytes(p, x) => {
            let e = (at(p) + x.len()).min(n);
            let l = e - at(p);
            b[at(p)..e].copy_from_slice(&x[..l])
        }
        ImgEdit::CopyPage(f, t) => {
            let f = *f as usize % pages * page;
            let t = *t as usize % pages * page;
            b.copy_within(f..f + page, t)
        }
        ImgEdit::ErasePage(p) => {
            let p = *p as usize % pages * page;
            b[p..p + page].fill(0xff)
        }
        ImgEdit::Marker(p, first, x) => {
            let p = *p as usize % pages * page;
            let p = if *first { p } else { p + page - word };
            b[p..p + word].fill(*x)
        }
    }
}

/// Can the queue alone do with this image what a garbage collection and two flushes need?
fn usable<const W: usize, const RD: usize, const E: usize, C: CacheImpl>(
    img: &[u8],
    kept: usize,
    max_data: usize,
    items: usize,
    mkc: &dyn Fn() -> C,
) -> bool {
    let disk: NorRef = Rc::new(RefCell::new(NorDisk { bytes: img.to_vec(), ..Default::default() }));
    let len = img.len() as u32;
    let ctl = Ctl::new();
    let open = || QueueStorage::new(Nor::<W, RD, E> { disk: disk.clone(), ctl: ctl.clone() }, QueueConfig::new(0..len), mkc());
    type L = Option<Vec<Vec<u8>>>;
    let read = |q: &mut QueueStorage<Nor<W, RD, E>, C>, keep: Option<&[bool]>| -> L {
        run_now(async {
            let mut out = vec![];
            let mut buf = vec![0u8; E];
            let mut it = q.iter().await.ok()?;
            let mut i = 0;
            while let Some(e) = it.next(&mut buf).await.ok()? {
                out.push(e.to_vec());
                if keep.is_some_and(|k| !k.get(i).copied().unwrap_or(true)) {
                    e.pop().await.ok()?;
                }
                i += 1;
            }
            Some(out)
        })
    };
    let go = || -> Option<()> {
        let mut q = open();
        let all = read(&mut q, None)?;
        if read(&mut q, None)? != all {
            return None;
        }
        let mut rs = refmodel::records(&all);
        rs.sort_by_key(|r| r.seq);
        let keep: Vec<bool> = (0..all.len())
            .map(|i| rs.iter().rev().take(kept).any(|r| r.start <= i && i <= r.end))
            .collect();
        read(&mut q, Some(&keep))?;
        let mut want: Vec<Vec<u8>> = all.iter().zip(&keep).filter(|x| *x.1).map(|x| x.0.clone()).collect();
        if read(&mut q, None)? != want {
            return None;
        }
        for round in 0..3u8 {
            let mut add = vec![vec![0u8, round, 0, 0, 1]];
            add.extend((0..items).map(|i| vec![i as u8; max_data]));
            add.push(vec![2, 9, 9, 9, 9, 9, 9, 9, round]);
            for e in add {
                run_now(q.push(&e, false)).ok()?;
                want.push(e);
                if read(&mut q, None)? != want {
                    return None;
                }
            }
            if read(&mut open(), None)? != want {
                return None;
            }
        }
        Some(())
    };
    catch_unwind(AssertUnwindSafe(go)).ok().flatten().is_some()
}

struct It {
    idx: usize,
    key: &'static str,
    att: Option<Task<'static, Result<Box<dyn DynHandle>, cfg_noodle::error::Error>>>,
    h: Option<Box<dyn DynHandle>>,
    attached: bool,
    /// values it may have
    ok: Vec<Vec<u8>>,
}

struct Run {
    hw: Hw,
    sys: Option<Box<dyn Sys>>,
    items: Vec<It>,
    labels: Counts,
    done: bool,
}

impl Drop for Run {
    fn drop(&mut self) {
        if !self.done {
            for i in self.items.drain(..) {
                std::mem::forget((i.att, i.h))
            }
            std::mem::forget(self.sys.take());
        }
    }
}

fn bad<T>(msg: String) -> R<T> {
    Err(Fail { tags: vec!["C19"], msg })
}

impl Run {
    fn sys(&self) -> &dyn Sys {
        self.sys.as_deref().unwrap()
    }
    fn stored(&self) -> Option<Vec<Vec<u8>>> {
        let d = &self.hw.disks[0];
        catch_unwind(AssertUnwindSafe(|| d.elems().ok())).ok().flatten()
    }
    fn boot(&mut self, kinds: &[(u8, u8)]) {
        for i in &mut self.items {
            (i.att, i.h, i.attached) = (None, None, false);
        }
        if let Some(s) = self.sys.take() {
            s.reclaim();
        }
        let mut sys = self.hw.boot();
        let el = self.stored();
        if el.is_none() {
            self.labels.hit("unreadable");
        }
        let recs = refmodel::records(&el.unwrap_or_default());
        if !recs.is_empty() {
            self.labels.hit("has_intact");
        }
        self.items = kinds
            .iter()
            .map(|(k, key)| {
                let key = key_name(*key);
                let idx = sys.new_item(*k, key);
                let mut ok = vec![];
                for r in &recs {
                    for (_, v) in r.kv().iter().filter(|x| x.0 == key) {
                        ok.extend(sys.decode(idx, v));
                    }
                }
                It { idx, key, att: None, h: None, attached: false, ok }
            })
            .collect();
        self.sys = Some(sys);
    }
    fn attach(&mut self, i: usize, def: Def) {
        let i = i % self.items.len();
        if self.items[i].attached {
            return;
        }
        let sys = self.sys.as_deref().unwrap();
        let it = &mut self.items[i];
        it.ok.push(match def {
            Def::Plain => sys.default(it.idx),
            Def::With(v) => sys.make(it.idx, v),
        });
        it.att = Some(Task::new(sys.attach(it.idx, 0, def, Rc::new(Cell::new(0)))));
        it.attached = true;
    }
    fn settle(&mut self) -> R<()> {
        for i in 0..self.items.len() {
            let it = &mut self.items[i];
            if let Some(t) = it.att.as_mut() {
                if let Some(r) = t.run_ready() {
                    it.att = None;
                    match r {
                        Ok(h) => {
                            it.h = Some(h);
                            self.labels.hit("attached");
                        }
                        // e.g. two items with one key
                        Err(_) => it.attached = false,
                    }
                }
            }
            if let Some(h) = &it.h {
                let v = h.load();
                if !it.ok.contains(&v) {
                    return bad(format!(
                        "item {:?} has the value {}, which is neither its default, nor written, nor in an intact record",
                        it.key,
                        hex(&v)
                    ));
                }
                if it.ok.len() > 1 && it.ok[..it.ok.len() - 1].contains(&v) {
                    self.labels.hit("loaded");
                }
            }
        }
        Ok(())
    }
    fn op(&mut self, what: What) -> R<Result<Cnt, OpErr>> {
        if what == What::Read {
            // (collecting a damaged image can bring forgotten elements to light)
            let recs = refmodel::records(&self.stored().unwrap_or_default());
            let sys = self.sys.as_deref().unwrap();
            for it in &mut self.items {
                for r in &recs {
                    for (_, v) in r.kv().iter().filter(|x| x.0 == it.key) {
                        if let Some(v) = sys.decode(it.idx, v) {
                            if !it.ok.contains(&v) {
                                it.ok.insert(0, v);
                            }
                        }
                    }
                }
            }
        }
        self.hw.ctls[0].arm(None);
        self.hw.ctls[0].budget.set(400_000);
        let mut t = Task::new(self.sys().op(0, what));
        let r = t.run_ready();
        drop(t);
        let Some(r) = r else { return bad(format!("{what:?} waits although the storage does not")) };
        self.labels.hit(match (what, &r) {
            (What::Read, Ok(_)) => "read_ok",
            (What::Read, Err(_)) => "read_error",
            (What::Flush, Ok(_)) => "flush_ok",
            (What::Flush, Err(_)) => "flush_error",
            (What::Gc, Ok(_)) => "gc_ok",
            (What::Gc, Err(_)) => "gc_error",
        });
        self.settle()?;
        Ok(r)
    }
}

impl Junk {
    pub fn exec(&self) -> Outcome {
        vals::live_reset();
        let mut run = Run {
            hw: Hw::new(self.cfg, self.kept, 1),
            sys: None,
            items: vec![],
            labels: Counts::default(),
            done: false,
        };
        let res = catch_unwind(AssertUnwindSafe(|| self.run(&mut run)));
        let labels = run.labels.clone();
        let res = match res {
            Ok(r) => {
                run.done = r.is_ok();
                r
            }
            Err(p) => {
                drop(run);
                // the queue itself fails on this image: nothing cfg-noodle could do about it
                std::panic::resume_unwind(p)
            }
        };
        let nontrivial = u64::from(labels.get("damaged") > 0 && labels.get("read_ok") > 0 && labels.get("recovered") > 0);
        Outcome { res, labels, evals: 1, nontrivial }
    }

    fn run(&self, r: &mut Run) -> R<()> {
        let mut el = raw_elements(&self.els);
        for e in &self.edits {
            edit_elements(&mut el, e);
        }
        if self.fix {
            fix_records(&mut el);
        }
        let max = match self.cfg {
            StoreCfg::Mem => MEM_MAX,
            StoreCfg::Nor(g) => {
                let (w, rd, e, _) = GEO[g as usize];
                let word = w.max(rd);
                e - 2 * word - 8usize.next_multiple_of(word)
            }
        };
        for e in &mut el {
            e.truncate(max.min(300));
        }
        if let StoreCfg::Nor(g) = self.cfg {
            // what fits, with room to work
            let (w, rd, e, p) = GEO[g as usize];
            let word = w.max(rd);
            let mut left = e * p / 3;
            el.retain(|x| {
                let n = 8usize.next_multiple_of(word) + x.len().next_multiple_of(word);
                left = left.saturating_sub(n);
                left > 0
            });
        }
        r.hw.disks[0].fill(&el);
        if !self.edits.is_empty() {
            r.labels.hit("damaged");
        }
        if let StoreCfg::Nor(g) = self.cfg {
            let (w, rd, e, _) = GEO[g as usize];
            for x in &self.img {
                r.labels.hit("damaged");
                edit_image(&mut r.hw.disks[0].nor().borrow_mut().bytes, e, w.max(rd), x);
            }
        }
        r.boot(&self.items);
        for (i, op) in self.ops.iter().enumerate() {
            (|| -> R<()> {
                match op {
                    JOp::Attach(i, d) => r.attach(*i as usize, *d),
                    JOp::Read => drop(r.op(What::Read)?),
                    JOp::Flush => drop(r.op(What::Flush)?),
                    JOp::Gc => drop(r.op(What::Gc)?),
                    JOp::Write(i, v) => {
                        let i = *i as usize % r.items.len();
                        let val = r.sys().make(r.items[i].idx, *v);
                        if let Some(h) = r.items[i].h.as_mut() {
                            let ok = run_now(h.write(*v)).is_ok();
                            ensure!(ok && h.load() == val, &["C19"], "a write is not visible");
                            r.items[i].ok.push(val);
                        }
                    }
                    JOp::Drop(i) => {
                        let i = *i as usize % r.items.len();
                        r.items[i].h = None;
                    }
                    JOp::Detach(i) => {
                        let i = *i as usize % r.items.len();
                        (r.items[i].h, r.items[i].att) = (None, None);
                        let ok = run_now(r.sys().detach(r.items[i].idx, 0)).is_ok();
                        if ok {
                            r.items[i].attached = false;
                        }
                    }
                    JOp::Reboot => r.boot(&self.items),
                }
                r.settle()
            })()
            .map_err(|mut f| {
                f.msg = format!("op #{i} {op:?}: {}", f.msg);
                f
            })?;
        }
        r.boot(&self.items);
        self.recover(r)?;
        for i in &mut r.items {
            (i.h, i.att) = (None, None);
        }
        if let Some(s) = r.sys.take() {
            s.reclaim()
        }
        Ok(())
    }

    fn usable_now(&self, r: &Run, items: usize) -> bool {
        let StoreCfg::Nor(g) = self.cfg else { return true };
        let img = r.hw.disks[0].nor().borrow().bytes.clone();
        macro_rules! go {
            ($w:literal, $r:literal, $e:literal, $c:ty, $ce:expr, $i:expr) => {
                usable::<$w, $r, $e, $c>($i, r.sys().kept(), 60, items, &|| $ce)
            };
        }
        with_geo!(g, go!(&img))
    }

    fn recover(&self, r: &mut Run) -> R<()> {
        let items: Vec<(u8, u8)> = {
            let mut v: Vec<(u8, u8)> = vec![];
            for i in &self.items {
                if !v.iter().any(|o| key_name(o.1) == key_name(i.1)) {
                    v.push(*i)
                }
            }
            v
        };
        if let Some(s) = r.stored() {
            if refmodel::records(&s).iter().any(|r| r.seq > u32::MAX - 100) {
                r.labels.hit("numbers_used_up");
                return Ok(());
            }
        }
        // one number, or one key, used twice: which one counts is not specified
        let rs = refmodel::records(&r.stored().unwrap_or_default());
        let twice = |mut v: Vec<String>| {
            let n = v.len();
            v.sort();
            v.dedup();
            v.len() < n
        };
        let ambiguous = twice(rs.iter().map(|r| r.seq.to_string()).collect())
            || rs.iter().any(|r| twice(r.kv().into_iter().map(|x| x.0).collect()));
        if ambiguous {
            r.labels.hit("ambiguous");
        }
        if !self.usable_now(r, items.len()) {
            r.labels.hit("unusable");
            return Ok(());
        }
        r.boot(&items);
        for i in 0..items.len() {
            r.attach(i, Def::Plain);
        }
        r.settle()?;
        let mut last: Vec<Vec<u8>> = vec![];
        for round in 0..3u8 {
            // leftovers in flash that is not erased spoil what is written over them: noticed, and tried again
            let most = if self.img.is_empty() { 1 } else { 12 };
            for t in 1..=most {
                let mut err = None;
                for (what, name) in [(What::Read, "reading"), (What::Gc, "collecting"), (What::Flush, "flushing")] {
                    if let Err(e) = r.op(what)? {
                        err = Some(format!("{name} readable storage fails: {e:?} (round {round}, attempt {t})"));
                        break;
                    }
                }
                let Some(err) = err else { break };
                if !self.usable_now(r, items.len()) {
                    r.labels.hit("unusable");
                    return Ok(());
                }
                r.labels.hit("spoiled");
                if t == most {
                    return bad(err);
                }
            }
            let el = r.stored();
            let new = refmodel::newest(&el.unwrap_or_default());
            last.clear();
            for i in 0..r.items.len() {
                let it = &r.items[i];
                let Some(h) = it.h.as_ref() else {
                    return bad(format!("item {:?} is still not attached after a successful read", it.key));
                };
                let v = h.load();
                let got = new.as_ref().and_then(|n| n.get(it.key));
                // (a value that was only loaded is not written again, whatever follows it)
                ensure!(
                    (round == 0 && ambiguous) || got.as_ref().and_then(|b| r.sys().decode(it.idx, b)).as_ref() == Some(&v),
                    &["C19"],
                    "after a successful flush, item {:?} is stored as {:?} instead of {} (round {round})",
                    it.key,
                    got.map(|g| hex(&g)),
                    hex(&v)
                );
                last.push(v);
            }
            if round < 2 {
                for i in 0..r.items.len() {
                    let v = V { n: 3 + round as u64, len: 4 + round };
                    let val = r.sys().make(r.items[i].idx, v);
                    r.items[i].ok.push(val);
                    let _ = run_now(r.items[i].h.as_mut().unwrap().write(v));
                }
                continue;
            }
        }
        r.boot(&items);
        for i in 0..items.len() {
            r.attach(i, Def::With(V { n: 250, len: 9 }));
        }
        r.settle()?;
        let res = r.op(What::Read)?;
        ensure!(res.is_ok(), &["C19"], "reading fails after the recovery: {res:?}");
        for (i, want) in last.iter().enumerate() {
            let got = r.items[i].h.as_ref().map(|h| h.load());
            ensure!(
                got.as_ref() == Some(want),
                &["C19"],
                "after recovery and reboot, item {:?} is {:?} instead of {}",
                r.items[i].key,
                got.map(|g| hex(&g)),
                hex(want)
            );
        }
        r.labels.hit("recovered");
        Ok(())
    }
}

#[allow(unused)]
fn unused() {
    let _ = NoCache::new();
}
