//! Simulated storage: an in-memory element queue and a NOR flash, both under control of
//! a `Ctl` that injects errors, silent corruption, cancellation points and yields.
use crate::refmodel::{self, El};
use crate::sim::yield_once;
use cfg_noodle::{Elem, NdlDataStorage, NdlElemIter, NdlElemIterNode, SerData};
use embedded_storage_async::nor_flash::{
    ErrorType, MultiwriteNorFlash, NorFlash, NorFlashError, NorFlashErrorKind, ReadNorFlash,
};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::num::NonZeroU32;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Corr {
    /// the operation is acknowledged but nothing is stored
    Lost,
    /// one bit of the stored bytes is inverted
    Flip(u16),
    /// only a prefix is stored
    Trunc(u8),
    /// stored twice
    Dup,
    /// stored with an unknown header
    Unknown(u8),
    /// an unrelated element appears before it
    Junk,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum FKind {
    /// error, without effect
    ErrB,
    /// effect, then error
    ErrA,
    /// cancelled before the effect
    CanB,
    /// cancelled after the effect
    CanA,
    /// acknowledged, but wrong
    Corr(Corr),
    /// power cut after this many words of a write (other operations: 0 before the effect, else after it)
    Cut(u16),
}

/// A fault injected at the `at`-th storage operation of one call (and the following `burst` ones, for errors)
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Fault {
    pub at: u16,
    pub kind: FKind,
    #[serde(default)]
    pub burst: u16,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OpK {
    Iter,
    Next,
    Push,
    Inval,
    NRead,
    NWrite,
    NErase,
}

/// Traffic of one call (element level only for the in-memory queue)
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Io {
    pub iters: u64,
    pub nexts: u64,
    pub read_bytes: u64,
    pub pushes: u64,
    pub push_bytes: u64,
    pub invals: u64,
    pub inval_bytes: u64,
    pub nor_reads: u64,
    pub nor_writes: u64,
    pub nor_erases: u64,
}

impl Io {
    pub fn none(&self) -> bool {
        *self == Io::default()
    }
    pub fn no_mutation(&self) -> bool {
        self.pushes + self.invals + self.nor_writes + self.nor_erases == 0
    }
}

pub struct BudgetExceeded;

#[derive(Default)]
pub struct Ctl {
    pub n: Cell<u64>,
    pub budget: Cell<u64>,
    pub fault: Cell<Option<Fault>>,
    pub fired: Cell<bool>,
    pub cancel: Cell<bool>,
    pub yields: Cell<bool>,
    pub io: RefCell<Io>,
    pub kinds: RefCell<Option<Vec<OpK>>>,
    /// (operation, words) of the flash writes of this call, when `kinds` are recorded
    pub words: RefCell<Vec<(u64, usize)>>,
    /// global error switch: every operation fails while set (counts down when finite)
    pub down: Cell<u64>,
    /// every operation that changes the storage fails while set
    pub worn: Cell<bool>,
    pub total: Cell<u64>,
    /// virtual milliseconds every operation takes
    pub slow: Cell<u32>,
    /// when a fault last took effect (virtual time)
    pub fault_at: Cell<Option<u64>>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum SErr {
    Injected,
    Full,
    BufTooSmall,
    Align,
    Bounds,
}

async fn forever() {
    std::future::pending::<()>().await
}

impl Ctl {
    pub fn new() -> Rc<Ctl> {
        let c = Ctl::default();
        c.budget.set(1_000_000);
        Rc::new(c)
    }
    fn fire(&self) {
        self.fired.set(true);
        self.fault_at.set(Some(crate::sim::clock::now()));
    }
    /// Start of a new call.
    pub fn arm(&self, f: Option<Fault>) {
        self.n.set(0);
        self.fault.set(f);
        self.fired.set(false);
        self.cancel.set(false);
        *self.io.borrow_mut() = Io::default();
        if let Some(k) = self.kinds.borrow_mut().as_mut() {
            k.clear()
        }
        self.words.borrow_mut().clear();
    }
    /// Before the effect; returns a corruption to apply to this operation.
    async fn before(&self, k: OpK) -> Result<(u64, Option<Corr>), SErr> {
        let n = self.n.get();
        self.n.set(n + 1);
        self.total.set(self.total.get() + 1);
        if n > self.budget.get() {
            std::panic::panic_any(BudgetExceeded);
        }
        {
            let mut io = self.io.borrow_mut();
            match k {
                OpK::Iter => io.iters += 1,
                OpK::Next => io.nexts += 1,
                OpK::Push => io.pushes += 1,
                OpK::Inval => io.invals += 1,
                OpK::NRead => io.nor_reads += 1,
                OpK::NWrite => io.nor_writes += 1,
                OpK::NErase => io.nor_erases += 1,
            }
        }
        if let Some(v) = self.kinds.borrow_mut().as_mut() {
            v.push(k)
        }
        if self.yields.get() {
            yield_once().await;
        }
        if self.slow.get() > 0 {
            embassy_time::Timer::after_millis(self.slow.get() as u64).await;
        }
        if self.down.get() > 0 {
            self.down.set(self.down.get() - 1);
            self.fire();
            return Err(SErr::Injected);
        }
        if self.worn.get() && matches!(k, OpK::Push | OpK::Inval | OpK::NWrite | OpK::NErase) {
            self.fire();
            return Err(SErr::Injected);
        }
        if let Some(f) = self.fault.get() {
            let at = f.at as u64;
            let hit = n >= at && n <= at + f.burst as u64;
            match f.kind {
                FKind::ErrB if hit => {
                    self.fire();
                    return Err(SErr::Injected);
                }
                FKind::CanB | FKind::Cut(0) if n == at => {
                    self.fire();
                    self.cancel.set(true);
                    forever().await;
                }
                FKind::Corr(c) if n == at && matches!(k, OpK::Push | OpK::NWrite) => {
                    if k == OpK::Push {
                        self.fire();
                    }
                    return Ok((n, Some(c)));
                }
                _ => {}
            }
        }
        Ok((n, None))
    }
    async fn after(&self, n: u64) -> Result<(), SErr> {
        if let Some(f) = self.fault.get() {
            let at = f.at as u64;
            let hit = n >= at && n <= at + f.burst as u64;
            match f.kind {
                FKind::ErrA if hit => {
                    self.fire();
                    return Err(SErr::Injected);
                }
                FKind::CanA | FKind::Cut(_) if n == at => {
                    self.fire();
                    self.cancel.set(true);
                    forever().await;
                }
                _ => {}
            }
        }
        Ok(())
    }
    /// Number of words of write `n` that take effect before the power is cut.
    fn cut_words(&self, n: u64) -> Option<usize> {
        match self.fault.get() {
            Some(Fault { at, kind: FKind::Cut(k), .. }) if at as u64 == n => Some(k as usize),
            _ => None,
        }
    }
}

// ------------------------------------------------------------------ in-memory queue

pub type MemDisk = Rc<RefCell<Vec<Vec<u8>>>>;

pub struct Mem<const MAX: usize> {
    pub disk: MemDisk,
    pub ctl: Rc<Ctl>,
    /// capacity in storage bytes, if bounded
    pub cap: Option<usize>,
}

/// Storage size of an element in the in-memory queue (with some overhead and padding)
pub fn mem_len(n: usize) -> usize {
    n.next_multiple_of(4) + 8
}

pub fn elem_bytes(e: &Elem<'_>) -> Vec<u8> {
    match e {
        Elem::Start { seq_no } => refmodel::enc_start(seq_no.get()),
        Elem::Data { data } => {
            let mut v = vec![data.hdr()];
            v.extend_from_slice(data.key_val());
            v
        }
        Elem::End { seq_no, calc_crc } => refmodel::enc_end(seq_no.get(), *calc_crc),
    }
}

pub struct MemIter<const MAX: usize> {
    disk: MemDisk,
    ctl: Rc<Ctl>,
    pos: usize,
}

pub struct MemNode<'iter, 'buf> {
    disk: MemDisk,
    ctl: Rc<Ctl>,
    pos: &'iter mut usize,
    bytes: &'buf [u8],
}

impl<const MAX: usize> NdlDataStorage for Mem<MAX> {
    type Iter<'this> = MemIter<MAX>;
    type Error = SErr;
    async fn iter_elems<'this>(&'this mut self) -> Result<MemIter<MAX>, SErr> {
        let (n, _) = self.ctl.before(OpK::Iter).await?;
        self.ctl.after(n).await?;
        Ok(MemIter { disk: self.disk.clone(), ctl: self.ctl.clone(), pos: 0 })
    }
    async fn push(&mut self, data: &Elem<'_>) -> Result<usize, SErr> {
        let b = elem_bytes(data);
        let len = mem_len(b.len());
        let (n, corr) = self.ctl.before(OpK::Push).await?;
        if let Some(cap) = self.cap {
            let used: usize = self.disk.borrow().iter().map(|e| mem_len(e.len())).sum();
            if used + len > cap {
                return Err(SErr::Full);
            }
        }
        {
            let mut d = self.disk.borrow_mut();
            match corr {
                None => d.push(b),
                Some(c) => apply_corr(&mut d, b, c),
            }
        }
        self.ctl.io.borrow_mut().push_bytes += len as u64;
        self.ctl.after(n).await?;
        Ok(len)
    }
    const MAX_ELEM_SIZE: usize = MAX;
}

fn apply_corr(d: &mut Vec<Vec<u8>>, mut b: Vec<u8>, c: Corr) {
    match c {
        Corr::Lost => {}
        Corr::Flip(i) => {
            let i = i as usize % (b.len() * 8);
            b[i / 8] ^= 1 << (i % 8);
            d.push(b)
        }
        Corr::Trunc(n) => {
            let n = 1 + (n as usize % b.len().max(2)).min(b.len().saturating_sub(1));
            b.truncate(n.min(b.len().saturating_sub(1)).max(1));
            d.push(b)
        }
        Corr::Dup => {
            d.push(b.clone());
            d.push(b)
        }
        Corr::Unknown(h) => {
            b[0] = h.max(3);
            d.push(b)
        }
        Corr::Junk => {
            d.push(vec![0x7f, 1, 2]);
            d.push(b)
        }
    }
}

impl<const MAX: usize> NdlElemIter for MemIter<MAX> {
    type Item<'this, 'buf>
        = MemNode<'this, 'buf>
    where
        Self: 'this,
        Self: 'buf;
    type Error = SErr;
    async fn next<'iter, 'buf>(
        &'iter mut self,
        buf: &'buf mut [u8],
    ) -> Result<Option<MemNode<'iter, 'buf>>, SErr>
    where
        Self: 'buf,
        Self: 'iter,
    {
        let (n, _) = self.ctl.before(OpK::Next).await?;
        let got = {
            let d = self.disk.borrow();
            d.get(self.pos).cloned()
        };
        self.ctl.after(n).await?;
        match got {
            None => Ok(None),
            Some(e) => {
                if e.len() > buf.len() {
                    return Err(SErr::BufTooSmall);
                }
                // leave the rest of the buffer dirty on purpose
                buf.fill(0xa5);
                buf[..e.len()].copy_from_slice(&e);
                self.pos += 1;
                self.ctl.io.borrow_mut().read_bytes += mem_len(e.len()) as u64;
                Ok(Some(MemNode {
                    disk: self.disk.clone(),
                    ctl: self.ctl.clone(),
                    pos: &mut self.pos,
                    bytes: &buf[..e.len()],
                }))
            }
        }
    }
}

impl NdlElemIterNode for MemNode<'_, '_> {
    type Error = SErr;
    fn data(&self) -> Option<Elem<'_>> {
        match refmodel::decode(self.bytes) {
            El::Bad => None,
            El::Start(s) => Some(Elem::Start { seq_no: NonZeroU32::new(s)? }),
            El::End(s, c) => Some(Elem::End { seq_no: NonZeroU32::new(s)?, calc_crc: c }),
            El::Data(_) => Some(Elem::Data { data: SerData::from_existing(self.bytes)? }),
        }
    }
    fn len(&self) -> usize {
        mem_len(self.bytes.len())
    }
    async fn invalidate(self) -> Result<(), SErr> {
        let (n, _) = self.ctl.before(OpK::Inval).await?;
        let idx = *self.pos - 1;
        let gone = self.disk.borrow_mut().remove(idx);
        *self.pos -= 1;
        self.ctl.io.borrow_mut().inval_bytes += mem_len(gone.len()) as u64;
        self.ctl.after(n).await?;
        Ok(())
    }
}

// ------------------------------------------------------------------ NOR flash

#[derive(Clone, Debug)]
pub enum Mutation {
    Write(u32, Vec<u8>),
    Erase(u32, u32),
}

#[derive(Clone, Debug, Default)]
pub struct NorDisk {
    pub bytes: Vec<u8>,
    /// where the item header written last ended
    pub hdr_end: usize,
    pub log: Option<Vec<Mutation>>,
    /// how often each page was erased
    pub erases: Vec<u64>,
}

pub fn apply_mutation(bytes: &mut [u8], m: &Mutation, upto: Option<usize>) {
    match m {
        Mutation::Write(a, d) => {
            let n = upto.unwrap_or(d.len()).min(d.len());
            for i in 0..n {
                bytes[*a as usize + i] &= d[i];
            }
        }
        Mutation::Erase(f, t) => {
            let len = (t - f) as usize;
            let n = upto.unwrap_or(len).min(len);
            for i in 0..n {
                bytes[*f as usize + i] = 0xff;
            }
        }
    }
}

pub type NorRef = Rc<RefCell<NorDisk>>;

pub struct Nor<const W: usize, const R: usize, const E: usize> {
    pub disk: NorRef,
    pub ctl: Rc<Ctl>,
}

impl NorFlashError for SErr {
    fn kind(&self) -> NorFlashErrorKind {
        match self {
            SErr::Align => NorFlashErrorKind::NotAligned,
            SErr::Bounds => NorFlashErrorKind::OutOfBounds,
            _ => NorFlashErrorKind::Other,
        }
    }
}

impl<const W: usize, const R: usize, const E: usize> ErrorType for Nor<W, R, E> {
    type Error = SErr;
}

impl<const W: usize, const R: usize, const E: usize> ReadNorFlash for Nor<W, R, E> {
    const READ_SIZE: usize = R;
    async fn read(&mut self, offset: u32, bytes: &mut [u8]) -> Result<(), SErr> {
        let (n, _) = self.ctl.before(OpK::NRead).await?;
        let o = offset as usize;
        if o % R != 0 || bytes.len() % R != 0 {
            return Err(SErr::Align);
        }
        {
            let d = self.disk.borrow();
            if o + bytes.len() > d.bytes.len() {
                return Err(SErr::Bounds);
            }
            bytes.copy_from_slice(&d.bytes[o..o + bytes.len()]);
        }
        self.ctl.after(n).await?;
        Ok(())
    }
    fn capacity(&self) -> usize {
        self.disk.borrow().bytes.len()
    }
}

impl<const W: usize, const R: usize, const E: usize> NorFlash for Nor<W, R, E> {
    const WRITE_SIZE: usize = W;
    const ERASE_SIZE: usize = E;
    async fn erase(&mut self, from: u32, to: u32) -> Result<(), SErr> {
        let (n, _) = self.ctl.before(OpK::NErase).await?;
        if from as usize % E != 0 || to as usize % E != 0 {
            return Err(SErr::Align);
        }
        {
            let mut d = self.disk.borrow_mut();
            if from > to || to as usize > d.bytes.len() {
                return Err(SErr::Bounds);
            }
            let m = Mutation::Erase(from, to);
            apply_mutation(&mut d.bytes, &m, None);
            let pages = d.bytes.len() / E;
            d.erases.resize(pages, 0);
            d.erases[from as usize / E..to as usize / E].iter_mut().for_each(|n| *n += 1);
            if let Some(l) = d.log.as_mut() {
                l.push(m)
            }
        }
        self.ctl.after(n).await?;
        Ok(())
    }
    async fn write(&mut self, offset: u32, bytes: &[u8]) -> Result<(), SErr> {
        let (n, mut corr) = self.ctl.before(OpK::NWrite).await?;
        if self.ctl.kinds.borrow().is_some() {
            self.ctl.words.borrow_mut().push((n, bytes.len() / W));
        }
        if offset as usize % W != 0 || bytes.len() % W != 0 {
            return Err(SErr::Align);
        }
        {
            let mut d = self.disk.borrow_mut();
            if offset as usize + bytes.len() > d.bytes.len() {
                return Err(SErr::Bounds);
            }
            let mut data = bytes.to_vec();
            // only the contents of stored items are corrupted, not the queue's own bookkeeping:
            // the write that directly follows an item header
            if !data.is_empty() {
                // (the first word of a page is a marker; the last one, too, but it is never followed by data)
                let is_data = d.hdr_end == offset as usize && offset as usize % E != 0;
                d.hdr_end = 0;
                if is_data {
                    if corr.is_some() {
                        self.ctl.fired.set(true);
                    }
                } else if offset as usize % E != 0 && data.len() == 8usize.next_multiple_of(W) {
                    d.hdr_end = offset as usize + data.len();
                }
                if !is_data {
                    corr = None;
                }
            } else {
                corr = None;
            }
            match corr {
                None => {}
                Some(Corr::Flip(i)) => {
                    let i = i as usize % (data.len() * 8);
                    data[i / 8] ^= 1 << (i % 8);
                }
                Some(Corr::Trunc(k)) => {
                    let k = k as usize % data.len();
                    data[k..].fill(0xff);
                }
                Some(_) => data.fill(0xff),
            }
            if let Some(k) = self.ctl.cut_words(n) {
                data.truncate(k * W);
            }
            let m = Mutation::Write(offset, data);
            apply_mutation(&mut d.bytes, &m, None);
            if let Some(l) = d.log.as_mut() {
                l.push(m)
            }
        }
        self.ctl.after(n).await?;
        Ok(())
    }
}

impl<const W: usize, const R: usize, const E: usize> MultiwriteNorFlash for Nor<W, R, E> {}
