//! The flash back end used directly: push, iterate, invalidate, re-open.
use crate::cases::Outcome;
use crate::disk::*;
use crate::engine::*;
use crate::refmodel::{self, El};
use crate::sim::Task;
use crate::sys::*;
use cfg_noodle::flash::Flash;
use cfg_noodle::sequential_storage::cache::{CacheImpl, NoCache, PagePointerCache, PageStateCache};
use cfg_noodle::sequential_storage::queue::{QueueConfig, QueueStorage};
use cfg_noodle::{Elem, NdlDataStorage, NdlElemIter, NdlElemIterNode, SerData};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::num::NonZeroU32;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum QEl {
    Start(u32),
    /// key length, value length, pattern
    Data(u16, u16, u8),
    /// a data element as large as possible (minus this)
    Max(u16),
    End(u32, u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum QOp {
    Push { e: QEl, f: Option<Fault>, by_ref: bool },
    /// stored by someone else, directly in the queue
    Raw { b: Vec<u8> },
    /// iterate, invalidating elements by their position modulo 8
    Iter { kill: u8, stop: Option<u8>, extra: u8, fill: u8, f: Option<Fault> },
    /// fill the queue up
    Fill { e: QEl },
    /// remove this many of the oldest
    Trim(u8),
    Reopen,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FlashQ {
    pub geo: u8,
    /// pages before the range, in it, and after it
    pub pages: (u8, u8, u8),
    pub ops: Vec<QOp>,
}

fn el_bytes(e: &QEl, max: usize) -> Vec<u8> {
    let data = |kl: usize, vl: usize, pat: u8| {
        let key: String = (0..kl).map(|i| (b'a' + ((i + pat as usize) % 26) as u8) as char).collect();
        let val: Vec<u8> = (0..vl).map(|i| (i as u8).wrapping_mul(7) ^ pat.wrapping_mul(31)).collect();
        let mut b = refmodel::enc_data(&key, &val);
        b.truncate(max + 2);
        b
    };
    match e {
        QEl::Start(n) => refmodel::enc_start((*n).max(1)),
        QEl::End(n, c) => refmodel::enc_end((*n).max(1), *c),
        QEl::Data(k, v, p) => data((*k % 300) as usize, *v as usize % (max + 2), *p),
        QEl::Max(d) => {
            let mut b = data(5, max, *d as u8);
            // zero is one too large
            b.truncate((max + 1).saturating_sub(*d as usize).max(2));
            b
        }
    }
}

fn with_elem<T>(b: &[u8], f: impl FnOnce(&Elem<'_>) -> T) -> T {
    match refmodel::decode(b) {
        El::Start(n) => f(&Elem::Start { seq_no: NonZeroU32::new(n).unwrap() }),
        El::End(n, c) => f(&Elem::End { seq_no: NonZeroU32::new(n).unwrap(), calc_crc: c }),
        _ => {
            let mut b = b.to_vec();
            // the constructor fills the header in
            b[0] = 0x5a;
            f(&Elem::Data { data: SerData::new(&mut b).unwrap() })
        }
    }
}

impl FlashQ {
    pub fn exec(&self) -> Outcome {
        let mut labels = Counts::default();
        macro_rules! go {
            ($w:literal, $r:literal, $e:literal, $c:ty, $ce:expr, $l:expr) => {
                self.run::<$w, $r, $e, $c>(|| $ce, $l)
            };
        }
        let res = with_geo!(self.geo % NGEO, go!(&mut labels));
        let nontrivial = u64::from(labels.get("invalidated") > 0 && labels.get("iterated_after_reopen") > 0);
        Outcome { res, labels, evals: 1, nontrivial }
    }

    fn run<const W: usize, const RD: usize, const E: usize, C: CacheImpl>(
        &self,
        mkc: impl Fn() -> C,
        labels: &mut Counts,
    ) -> R<()> {
        let most = GEO[(self.geo % NGEO) as usize].3;
        let (a, n, z) =
            (self.pages.0 as usize % 3, (2 + self.pages.1 as usize % 8).min(most), self.pages.2 as usize % 3);
        let total = (a + n + z) * E;
        let range = (a * E) as u32..((a + n) * E) as u32;
        let inside = range.start as usize..range.end as usize;
        let mut init: Vec<u8> = (0..total).map(|i| (i * 37 % 251) as u8).collect();
        init[inside.clone()].fill(0xff);
        let disk: NorRef = Rc::new(RefCell::new(NorDisk { bytes: init.clone(), ..Default::default() }));
        let ctl = Ctl::new();
        let mk = |d: &NorRef, c: &Rc<Ctl>| Nor::<W, RD, E> { disk: d.clone(), ctl: c.clone() };
        let open = || Flash::try_new(mk(&disk, &ctl), range.clone(), mkc());
        let opened = open();
        ensure!(
            opened.is_some() == QueueConfig::<Nor<W, RD, E>>::try_new(range.clone()).is_some(),
            &["C18"],
            "range {range:?} of {E}-byte pages: opening the flash is {}",
            opened.is_some()
        );
        let Some(mut fl) = opened else { return Ok(()) };
        let max = <Flash<Nor<W, RD, E>, C> as NdlDataStorage>::MAX_ELEM_SIZE;
        let word = W.max(RD);
        let stored = |len: usize| 8usize.next_multiple_of(word) + len.next_multiple_of(word);
        let mut model: Vec<Vec<u8>> = vec![];
        let mut pushes = 0;
        // the same calls on the underlying queue alone: where that is not faithful itself, the case ends
        let sdisk: NorRef = Rc::new(RefCell::new(disk.borrow().clone()));
        let sctl = Ctl::new();
        let sopen = || QueueStorage::new(mk(&sdisk, &sctl), QueueConfig::new(range.clone()), mkc());
        let mut sh = sopen();
        for (i, op) in self.ops.iter().enumerate() {
            let r = (|| -> R<bool> {
                match op {
                    QOp::Push { e, f, by_ref } => {
                        let b = el_bytes(e, max);
                        let ok = push_one::<W, RD, E, C>(
                            &mut fl, &mut sh, &b, *f, *by_ref, &disk, &ctl, &sctl, &range, &mut model, max, &stored, labels,
                        )?;
                        if !ok {
                            return Ok(false);
                        }
                        pushes += 1;
                    }
                    QOp::Fill { e } => {
                        let b = el_bytes(e, max);
                        for _ in 0..400 {
                            let n = model.len();
                            if !push_one::<W, RD, E, C>(
                                &mut fl, &mut sh, &b, None, false, &disk, &ctl, &sctl, &range, &mut model, max, &stored, labels,
                            )? {
                                return Ok(false);
                            }
                            if model.len() == n {
                                break;
                            }
                        }
                    }
                    QOp::Trim(n) => {
                        {
                            let kill = |p: usize| p < *n as usize;
                            if !shadow_iter::<W, RD, E, C>(&mut sh, &kill, None, None, &sctl, &model) {
                                return Ok(false);
                            }
                            iterate::<W, RD, E, C>(&mut fl, kill, None, 0, 0, None, &disk, &ctl, &range, &mut model, &stored, labels)?
                        }
                    }
                    QOp::Raw { b } => {
                        let mut b = b.clone();
                        if b.is_empty() {
                            b.push(0);
                        }
                        b.truncate(max);
                        let mut q = QueueStorage::new(mk(&disk, &Ctl::new()), QueueConfig::new(range.clone()), NoCache::new());
                        let ok = run_now(q.push(&b, false)).is_ok();
                        sdisk.borrow_mut().bytes = disk.borrow().bytes.clone();
                        sh = sopen();
                        if ok {
                            labels.hit("raw");
                            if refmodel::decode(&b) == El::Bad {
                                labels.hit("raw_undecodable");
                            }
                            model.push(b);
                        }
                        fl = open().unwrap();
                    }
                    QOp::Iter { kill, stop, extra, fill, f } => {
                        let kill = |p: usize| kill >> (p % 8) & 1 == 1;
                        if !shadow_iter::<W, RD, E, C>(&mut sh, &kill, *stop, *f, &sctl, &model) {
                            return Ok(false);
                        }
                        iterate::<W, RD, E, C>(
                        &mut fl,
                        kill,
                        *stop,
                        *extra as usize,
                        *fill,
                        *f,
                        &disk,
                        &ctl,
                        &range,
                        &mut model,
                        &stored,
                        labels,
                    )?},
                    QOp::Reopen => {
                        fl = open().unwrap();
                        sh = sopen();
                        if !shadow_iter::<W, RD, E, C>(&mut sh, &|_| false, None, None, &sctl, &model) {
                            return Ok(false);
                        }
                        iterate::<W, RD, E, C>(&mut fl, |_| false, None, 0, 0xff, None, &disk, &ctl, &range, &mut model, &stored, labels)?;
                        if pushes > 0 && !model.is_empty() {
                            labels.hit("iterated_after_reopen");
                        }
                    }
                }
                // what is really stored, read without cfg-noodle
                let real = raw::<W, RD, E>(&disk, &range)?;
                ensure!(
                    real == model,
                    &["C18"],
                    "stored are {} instead of {}",
                    show(&real),
                    show(&model)
                );
                let d = disk.borrow();
                for k in (0..inside.start).chain(inside.end..total) {
                    ensure!(d.bytes[k] == init[k], &["C18"], "byte {k} outside of {range:?} was changed");
                }
                // (each call rebuilds the shadow where a disturbed call left them different)
                if sdisk.borrow().bytes != d.bytes {
                    sdisk.borrow_mut().bytes = d.bytes.clone();
                    drop(d);
                    sh = sopen();
                    fl = open().unwrap();
                    labels.hit("resynchronised");
                }
                Ok(true)
            })();
            let go_on = r.map_err(|mut f| {
                f.msg = format!("op #{i} {op:?} (range {range:?}, pages of {E}): {}", f.msg);
                f
            })?;
            if !go_on {
                labels.hit("queue_unfaithful");
                return Ok(());
            }
        }
        Ok(())
    }
}

fn bad(msg: String) -> Fail {
    Fail { tags: vec!["C18"], msg }
}

fn raw<const W: usize, const RD: usize, const E: usize>(disk: &NorRef, range: &std::ops::Range<u32>) -> R<Vec<Vec<u8>>> {
    // (on a copy: iterating erases pages that have become empty)
    let disk = Rc::new(RefCell::new(disk.borrow().clone()));
    let nor = Nor::<W, RD, E> { disk, ctl: Ctl::new() };
    let mut q = QueueStorage::new(nor, QueueConfig::new(range.clone()), NoCache::new());
    let r: Result<Vec<Vec<u8>>, String> = run_now(async {
        let mut out = vec![];
        let mut buf = vec![0u8; E];
        let mut it = q.iter().await.map_err(|e| format!("{e:?}"))?;
        while let Some(e) = it.next(&mut buf).await.map_err(|e| format!("{e:?}"))? {
            out.push(e.to_vec());
        }
        Ok(out)
    });
    r.map_err(|e| bad(format!("the queue cannot be read any more: {e}")))
}

enum End<T> {
    Done(T),
    Cancelled,
}

fn drive<T>(fut: impl std::future::Future<Output = T>, ctl: &Rc<Ctl>) -> R<End<T>> {
    let mut t = Task::new(Box::pin(fut));
    match t.run_ready() {
        Some(v) => Ok(End::Done(v)),
        None if ctl.cancel.get() => Ok(End::Cancelled),
        None => Err(bad("a call waits although the flash does not".into())),
    }
}

#[allow(clippy::too_many_arguments)]
fn push_one<const W: usize, const RD: usize, const E: usize, C: CacheImpl>(
    fl: &mut Flash<Nor<W, RD, E>, C>,
    sh: &mut QueueStorage<Nor<W, RD, E>, C>,
    b: &[u8],
    f: Option<Fault>,
    by_ref: bool,
    disk: &NorRef,
    ctl: &Rc<Ctl>,
    sctl: &Rc<Ctl>,
    range: &std::ops::Range<u32>,
    model: &mut Vec<Vec<u8>>,
    max: usize,
    stored: &dyn Fn(usize) -> usize,
    labels: &mut Counts,
) -> R<bool> {
    sctl.arm(f);
    let reference = match drive(sh.push(b, false), sctl)? {
        End::Done(r) => r.map_err(|e| format!("{e:?}")),
        End::Cancelled => Err("cancelled".into()),
    };
    let sfired = sctl.fired.get();
    sctl.arm(None);
    if reference.is_err() && !sfired && b.len() <= max && model.is_empty() {
        return Ok(false);
    }
    ctl.arm(f);
    let end = with_elem(b, |e| {
        let r = async {
            if by_ref {
                let mut r: &mut Flash<_, _> = fl;
                NdlDataStorage::push(&mut r, e).await
            } else {
                fl.push(e).await
            }
        };
        drive(r, ctl)
    })?;
    let fired = ctl.fired.get();
    ctl.arm(None);
    match end {
        End::Done(Ok(n)) => {
            ensure!(reference.is_ok() || fired, &["C18"], "{} was accepted where the queue has {reference:?}", hex(b));
            ensure!(
                n == stored(b.len()),
                &["C18"],
                "pushing {} bytes reports {n} bytes of storage instead of {}",
                b.len(),
                stored(b.len())
            );
            ensure!(b.len() <= max, &["C18"], "{} bytes were accepted where {max} are the maximum", b.len());
            labels.hit("pushed");
            if b.len() == max {
                labels.hit("pushed_max");
            }
            model.push(b.to_vec());
        }
        End::Done(Err(_)) if !fired => {
            ensure!(
                reference.is_err(),
                &["C18"],
                "an element of {} bytes is refused, although the queue takes it",
                b.len()
            );
            labels.hit(if b.len() > max { "too_large" } else { "full" });
            ensure!(
                b.len() > max || !model.is_empty(),
                &["C18"],
                "an element of {} bytes (maximum {max}) does not fit into an empty queue",
                b.len()
            );
        }
        End::Done(Err(_)) | End::Cancelled => {
            // this element may or may not be stored
            labels.hit("push_disturbed");
            let now = raw::<W, RD, E>(disk, range)?;
            if now.len() == model.len() + 1 && now.last().map(|x| x.as_slice()) == Some(b) {
                model.push(b.to_vec());
            }
        }
    }
    Ok(true)
}

/// The same iteration on the queue alone. Is it faithful?
fn shadow_iter<const W: usize, const RD: usize, const E: usize, C: CacheImpl>(
    sh: &mut QueueStorage<Nor<W, RD, E>, C>,
    kill: &dyn Fn(usize) -> bool,
    stop: Option<u8>,
    f: Option<Fault>,
    ctl: &Rc<Ctl>,
    model: &[Vec<u8>],
) -> bool {
    ctl.arm(f);
    let fired = || ctl.fired.get();
    let go = async {
        let mut it = match sh.iter().await {
            Ok(it) => it,
            Err(_) => return fired(),
        };
        let mut buf = vec![0u8; E];
        for pos in 0.. {
            if stop.is_some_and(|s| pos >= s as usize) {
                return true;
            }
            match it.next(&mut buf).await {
                Err(_) => return fired(),
                Ok(None) => return pos == model.len(),
                Ok(Some(e)) => {
                    if Some(&*e) != model.get(pos).map(|m| m.as_slice()) {
                        return false;
                    }
                    if kill(pos) && e.pop().await.is_err() {
                        return fired();
                    }
                }
            }
        }
        true
    };
    let r = match drive(go, ctl) {
        Ok(End::Done(r)) => r,
        _ => true,
    };
    ctl.arm(None);
    r
}

#[allow(clippy::too_many_arguments)]
fn iterate<const W: usize, const RD: usize, const E: usize, C: CacheImpl>(
    fl: &mut Flash<Nor<W, RD, E>, C>,
    kill: impl Fn(usize) -> bool,
    stop: Option<u8>,
    extra: usize,
    fill: u8,
    f: Option<Fault>,
    disk: &NorRef,
    ctl: &Rc<Ctl>,
    range: &std::ops::Range<u32>,
    model: &mut Vec<Vec<u8>>,
    stored: &dyn Fn(usize) -> usize,
    labels: &mut Counts,
) -> R<()> {
    ctl.arm(f);
    let mut killed: Vec<usize> = vec![];
    let mut maybe: Option<usize> = None;
    let max = <Flash<Nor<W, RD, E>, C> as NdlDataStorage>::MAX_ELEM_SIZE;
    let seen = RefCell::new(0usize);
    let res: R<End<R<bool>>> = {
        let (killed, maybe) = (&mut killed, &mut maybe);
        let (model, seen) = (&*model, &seen);
        let fired = || ctl.fired.get();
        let go = async move {
            let mut it = match fl.iter_elems().await {
                Ok(it) => it,
                Err(_) if fired() => return Ok(false),
                Err(e) => return Err(bad(format!("iterating fails: {e:?}"))),
            };
            loop {
                let pos = *seen.borrow();
                if stop.is_some_and(|s| pos >= s as usize) {
                    return Ok(false);
                }
                let mut buf = vec![fill; max + extra];
                let node = match it.next(&mut buf).await {
                    Ok(n) => n,
                    Err(_) if fired() => return Ok(false),
                    Err(e) => return Err(bad(format!("element {pos} cannot be read: {e:?}"))),
                };
                let Some(node) = node else { return Ok(true) };
                *seen.borrow_mut() += 1;
                let Some(want) = model.get(pos) else {
                    return Err(bad(format!("element {pos} appears from nowhere")));
                };
                ensure!(
                    node.len() == stored(want.len()),
                    &["C18"],
                    "element {pos} of {} bytes reports {} bytes of storage instead of {}",
                    want.len(),
                    node.len(),
                    stored(want.len())
                );
                match (node.data(), refmodel::decode(want)) {
                    (None, El::Bad) => {}
                    (Some(Elem::Start { seq_no }), El::Start(n)) if seq_no.get() == n => {}
                    (Some(Elem::End { seq_no, calc_crc }), El::End(n, c)) if seq_no.get() == n && calc_crc == c => {}
                    (Some(Elem::Data { data }), El::Data(d)) if data.hdr() == refmodel::H_DATA && data.key_val() == d => {
                        match (data.kv_pair(), refmodel::split_kv(&d)) {
                            (Ok(kv), Some((k, v))) if kv.key == k && kv.body == v => {}
                            (Err(_), None) => {}
                            (kv, want) => {
                                return Err(bad(
                                    format!("element {pos} is split into {:?} instead of {want:?}", kv.map(|k| (k.key.to_string(), hex(k.body)))),
                                ));
                            }
                        }
                    }
                    (got, _) => {
                        return Err(bad(format!("element {pos} is {got:?} instead of {}", hex(want))));
                    }
                }
                if kill(pos) {
                    *maybe = Some(pos);
                    match node.invalidate().await {
                        Ok(()) => {
                            *maybe = None;
                            killed.push(pos);
                        }
                        Err(_) if fired() => return Ok(false),
                        Err(e) => return Err(bad(format!("element {pos} cannot be invalidated: {e:?}"))),
                    }
                }
            }
        };
        drive(go, ctl)
    };
    let fired = ctl.fired.get();
    ctl.arm(None);
    let disturbed = match res? {
        End::Cancelled => true,
        End::Done(r) => {
            let whole = r?;
            ensure!(
                !whole || *seen.borrow() == model.len(),
                &["C18"],
                "iteration ends after {} of {} elements",
                seen.borrow(),
                model.len()
            );
            fired
        }
    };
    if disturbed {
        labels.hit("iteration_disturbed");
    }
    labels.hit("iterated");
    if let Some(p) = maybe {
        // the interrupted invalidation may or may not have happened
        labels.hit("invalidation_disturbed");
        let gone: Vec<Vec<u8>> = model
            .iter()
            .enumerate()
            .filter(|(i, _)| *i != p && !killed.contains(i))
            .map(|(_, m)| m.clone())
            .collect();
        if raw::<W, RD, E>(disk, range)? == gone {
            killed.push(p);
        }
    }
    if !killed.is_empty() {
        labels.hit("invalidated");
    }
    let mut i = 0;
    model.retain(|_| {
        i += 1;
        !killed.contains(&(i - 1))
    });
    Ok(())
}
