//! A booted system: lists, items and storage, erased over kept-record count and back end.
use crate::disk::{Ctl, MemDisk, Mem, Nor, NorDisk, NorRef, SErr};
use crate::sim::{BoxFut, Task};
use crate::vals::*;
use cfg_noodle::NdlDataStorage;
use cfg_noodle::error::{Error, LoadStoreError};
use cfg_noodle::flash::Flash;
use cfg_noodle::minicbor::Decode;
use cfg_noodle::sequential_storage::cache::{CacheImpl, NoCache, PagePointerCache, PageStateCache};
use cfg_noodle::sequential_storage::queue::{QueueConfig, QueueStorage};
use cfg_noodle::{StorageListNode, worker_task};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum OpErr {
    NeedsRead,
    NeedsGc,
    Ser,
    Inconsistent,
    Verify,
    FlashR(String),
    FlashW(String),
    Other(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Cnt {
    pub total: usize,
    pub cur: usize,
    pub popped: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum What {
    Read,
    Flush,
    Gc,
}

fn map_err<E: Debug>(e: LoadStoreError<E>) -> OpErr
where
{
    match e {
        LoadStoreError::FlashWrite(e) => OpErr::FlashW(format!("{e:?}")),
        LoadStoreError::FlashRead(e) => OpErr::FlashR(format!("{e:?}")),
        LoadStoreError::InvalidBufferSize => OpErr::Other("buffer size".into()),
        LoadStoreError::WriteVerificationFailed => OpErr::Verify,
        LoadStoreError::AppError(Error::NeedsFirstRead) => OpErr::NeedsRead,
        LoadStoreError::AppError(Error::NeedsGarbageCollect) => OpErr::NeedsGc,
        LoadStoreError::AppError(Error::Serialization) => OpErr::Ser,
        LoadStoreError::AppError(Error::InconsistentFlash) => OpErr::Inconsistent,
        LoadStoreError::AppError(e) => OpErr::Other(format!("{e:?}")),
    }
}

pub type AttachFut = BoxFut<'static, Result<Box<dyn DynHandle>, Error>>;

pub trait Sys {
    fn kept(&self) -> usize;
    fn max_elem(&self) -> usize;
    fn new_item(&mut self, kind: u8, key: &'static str) -> usize;
    fn attach(&self, it: usize, l: usize, def: Def, calls: Rc<Cell<u32>>) -> AttachFut;
    fn detach(&self, it: usize, l: usize) -> BoxFut<'static, Result<(), Error>>;
    fn decode(&self, it: usize, b: &[u8]) -> Option<Vec<u8>>;
    fn make(&self, it: usize, v: V) -> Vec<u8>;
    fn default(&self, it: usize) -> Vec<u8>;
    fn is_tracked(&self, it: usize) -> bool;
    /// the storage's own size check for this value
    fn fits(&self, it: usize, v: V) -> bool;
    fn op(&self, l: usize, what: What) -> BoxFut<'static, Result<Cnt, OpErr>>;
    fn reset(&self, l: usize) -> BoxFut<'static, ()>;
    fn wait_read(&self, l: usize) -> BoxFut<'static, ()>;
    fn wait_write(&self, l: usize) -> BoxFut<'static, ()>;
    fn worker(&self, l: usize, stop: BoxFut<'static, ()>) -> BoxFut<'static, ()>;
    fn noop_worker(&self, l: usize) -> BoxFut<'static, ()>;
    /// Replace the scratch buffer size used for storage calls.
    fn set_buf(&self, l: usize, len: usize, fill: u8);
    /// Re-create the storage object (e.g. after its contents were replaced).
    fn reopen(&self, l: usize);
    /// Free everything. All handles and futures must be gone.
    fn reclaim(self: Box<Self>);
}

type Store<S> = Rc<RefCell<(S, Vec<u8>)>>;

struct SysImpl<S: NdlDataStorage + 'static, const K: usize> {
    lists: Vec<&'static List<K>>,
    stores: Vec<Store<S>>,
    mk: Box<dyn Fn(usize) -> S>,
    ops: Cell<u32>,
    nodes: Vec<Box<dyn DynNode<K>>>,
    fits: Vec<Box<dyn Fn(V) -> bool>>,
    free: Vec<Box<dyn FnOnce()>>,
}

impl<S: NdlDataStorage + 'static, const K: usize> SysImpl<S, K>
where
    S::Error: Debug,
{
    fn boot(nl: usize, mk: Box<dyn Fn(usize) -> S>) -> Box<dyn Sys> {
        let mut lists = Vec::new();
        let mut stores = Vec::new();
        let mut free: Vec<Box<dyn FnOnce()>> = Vec::new();
        for l in 0..nl {
            let p = Box::into_raw(Box::new(List::<K>::new()));
            // SAFETY: freed only in `reclaim`, when nothing refers to it any more
            lists.push(unsafe { &*p } as &'static List<K>);
            free.push(Box::new(move || drop(unsafe { Box::from_raw(p) })));
            stores.push(Rc::new(RefCell::new((mk(l), vec![0x5a; S::MAX_ELEM_SIZE]))));
        }
        Box::new(SysImpl { lists, stores, mk, ops: Cell::new(0), nodes: vec![], fits: vec![], free })
    }
    fn add<T: Cv>(&mut self, key: &'static str) -> usize
    where
        for<'a> T: Decode<'a, ()>,
    {
        let p = Box::into_raw(Box::new(StorageListNode::<T>::new(key)));
        // SAFETY: as above
        let node: &'static StorageListNode<T> = unsafe { &*p };
        self.nodes.push(Box::new(N { node, key }));
        let n = Cell::new(0u32);
        self.fits.push(Box::new(move |v| {
            n.set(n.get() + 1);
            if n.get() % 2 == 1 {
                S::check_node_size(key, T::make(v))
            } else {
                <&mut S as NdlDataStorage>::check_node_size(key, T::make(v))
            }
        }));
        self.free.push(Box::new(move || drop(unsafe { Box::from_raw(p) })));
        self.nodes.len() - 1
    }
}

impl<S: NdlDataStorage + 'static, const K: usize> Sys for SysImpl<S, K>
where
    S::Error: Debug,
{
    fn kept(&self) -> usize {
        K
    }
    fn max_elem(&self) -> usize {
        S::MAX_ELEM_SIZE
    }
    fn new_item(&mut self, kind: u8, key: &'static str) -> usize {
        match if kind < KIND_END { kind } else { kind % NKINDS } {
            FUSSY => self.add::<Fussy>(key),
            k if (crate::schema::FIRST..FUSSY).contains(&k) => {
                macro_rules! go {
                    ($t:ty) => {
                        self.add::<$t>(key)
                    };
                }
                with_schema!(k, go)
            }
            BLOB => self.add::<Blob>(key),
            TEXT => self.add::<Text>(key),
            0 => self.add::<u8>(key),
            1 => self.add::<u64>(key),
            2 => self.add::<String>(key),
            3 => self.add::<Rec3>(key),
            4 => self.add::<Tracked>(key),
            _ => self.add::<Aligned>(key),
        }
    }
    fn attach(&self, it: usize, l: usize, def: Def, calls: Rc<Cell<u32>>) -> AttachFut {
        self.nodes[it].attach(self.lists[l], def, calls)
    }
    fn detach(&self, it: usize, l: usize) -> BoxFut<'static, Result<(), Error>> {
        self.nodes[it].detach(self.lists[l])
    }
    fn decode(&self, it: usize, b: &[u8]) -> Option<Vec<u8>> {
        self.nodes[it].decode(b)
    }
    fn make(&self, it: usize, v: V) -> Vec<u8> {
        self.nodes[it].make(v)
    }
    fn default(&self, it: usize) -> Vec<u8> {
        self.nodes[it].default()
    }
    fn is_tracked(&self, it: usize) -> bool {
        self.nodes[it].is_tracked()
    }
    fn fits(&self, it: usize, v: V) -> bool {
        self.fits[it](v)
    }
    fn op(&self, l: usize, what: What) -> BoxFut<'static, Result<Cnt, OpErr>> {
        let st = self.stores[l].clone();
        let list = self.lists[l];
        // storage is also accepted by reference
        let by_ref = self.ops.get() % 2 == 1;
        self.ops.set(self.ops.get() + 1);
        match what {
            What::Read => Box::pin(async move {
                let mut g = st.borrow_mut();
                let (s, b) = &mut *g;
                let r = if by_ref {
                    list.process_reads(&mut &mut *s, b).await.map_err(map_err)?
                } else {
                    list.process_reads(s, b).await.map_err(map_err)?
                };
                Ok(Cnt { total: r.total_bytes_read, cur: r.current_bytes_read, popped: 0 })
            }),
            What::Flush => Box::pin(async move {
                let mut g = st.borrow_mut();
                let (s, b) = &mut *g;
                let r = if by_ref {
                    list.process_writes(&mut &mut *s, b).await.map_err(map_err)?
                } else {
                    list.process_writes(s, b).await.map_err(map_err)?
                };
                Ok(Cnt { total: r.total_bytes_read, cur: r.current_bytes_written, popped: 0 })
            }),
            What::Gc => Box::pin(async move {
                let mut g = st.borrow_mut();
                let (s, b) = &mut *g;
                let r = if by_ref {
                    list.process_garbage(&mut &mut *s, b).await.map_err(map_err)?
                } else {
                    list.process_garbage(s, b).await.map_err(map_err)?
                };
                Ok(Cnt {
                    total: r.total_bytes_read,
                    cur: r.post_collection_bytes_read,
                    popped: r.total_bytes_popped,
                })
            }),
        }
    }
    fn reset(&self, l: usize) -> BoxFut<'static, ()> {
        Box::pin(self.lists[l].reset_cache())
    }
    fn wait_read(&self, l: usize) -> BoxFut<'static, ()> {
        Box::pin(self.lists[l].needs_read())
    }
    fn wait_write(&self, l: usize) -> BoxFut<'static, ()> {
        Box::pin(self.lists[l].needs_write())
    }
    fn worker(&self, l: usize, stop: BoxFut<'static, ()>) -> BoxFut<'static, ()> {
        let s = (self.mk)(l);
        let list = self.lists[l];
        Box::pin(async move {
            let mut buf = vec![0u8; S::MAX_ELEM_SIZE];
            worker_task::default_worker_task(list, s, stop, &mut buf).await
        })
    }
    fn noop_worker(&self, l: usize) -> BoxFut<'static, ()> {
        let list = self.lists[l];
        Box::pin(async move {
            worker_task::no_op_worker_task(list).await;
        })
    }
    fn set_buf(&self, l: usize, len: usize, fill: u8) {
        self.stores[l].borrow_mut().1 = vec![fill; len];
    }
    fn reopen(&self, l: usize) {
        self.stores[l].borrow_mut().0 = (self.mk)(l);
    }
    fn reclaim(self: Box<Self>) {
        let SysImpl { lists, stores, nodes, free, .. } = *self;
        drop((lists, stores, nodes));
        for f in free {
            f()
        }
    }
}

// ------------------------------------------------------------------ back ends

/// Storage configuration of a case.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum StoreCfg {
    Mem,
    /// NOR geometry index
    Nor(u8),
}

pub const MEM_MAX: usize = 96;
pub const NGEO: u8 = 7;

/// (write, read, erase, pages)
pub const GEO: [(usize, usize, usize, usize); NGEO as usize] = [
    (4, 4, 256, 20),
    (1, 1, 128, 40),
    (8, 8, 512, 14),
    (4, 1, 1024, 10),
    (4, 4, 4096, 8),
    (1, 4, 256, 20),
    (32, 32, 1024, 10),
];

#[derive(Clone)]
pub enum Disk {
    Mem(MemDisk),
    Nor(NorRef, u8),
}

macro_rules! with_geo {
    ($g:expr, $m:ident ! ( $($a:tt)* )) => {
        match $g {
            0 => $m!(4, 4, 256, NoCache, NoCache::new(), $($a)*),
            1 => $m!(1, 1, 128, PagePointerCache<40>, PagePointerCache::<40>::new(), $($a)*),
            2 => $m!(8, 8, 512, PageStateCache<14>, PageStateCache::<14>::new(), $($a)*),
            3 => $m!(4, 1, 1024, NoCache, NoCache::new(), $($a)*),
            4 => $m!(4, 4, 4096, PagePointerCache<8>, PagePointerCache::<8>::new(), $($a)*),
            5 => $m!(1, 4, 256, PageStateCache<20>, PageStateCache::<20>::new(), $($a)*),
            _ => $m!(32, 32, 1024, NoCache, NoCache::new(), $($a)*),
        }
    };
}
#[allow(unused_imports)]
pub(crate) use with_geo;

/// Runs a future that never really waits.
pub fn run_now<T>(f: impl std::future::Future<Output = T>) -> T {
    let mut t = Task::new(Box::pin(f));
    t.run_ready().expect("future stalled")
}

/// Also returns the number of flash reads it took.
fn nor_elems<const W: usize, const R: usize, const E: usize>(bytes: &[u8]) -> Result<(Vec<Vec<u8>>, u64), String> {
    let n = bytes.len() as u32;
    let disk = Rc::new(RefCell::new(NorDisk { bytes: bytes.to_vec(), ..Default::default() }));
    let ctl = Ctl::new();
    let nor = Nor::<W, R, E> { disk, ctl: ctl.clone() };
    let mut q = QueueStorage::new(nor, QueueConfig::new(0..n), NoCache::new());
    run_now(async {
        let mut out = Vec::new();
        let mut buf = vec![0u8; E];
        let mut it = q.iter().await.map_err(|e| format!("{e:?}"))?;
        while let Some(e) = it.next(&mut buf).await.map_err(|e| format!("{e:?}"))? {
            out.push(e.to_vec());
        }
        let reads = ctl.io.borrow().nor_reads;
        Ok((out, reads))
    })
}

impl Disk {
    pub fn new(cfg: StoreCfg) -> Disk {
        match cfg {
            StoreCfg::Mem => Disk::Mem(Rc::new(RefCell::new(vec![]))),
            StoreCfg::Nor(g) => {
                let (_, _, e, p) = GEO[g as usize];
                Disk::Nor(Rc::new(RefCell::new(NorDisk { bytes: vec![0xff; e * p], ..Default::default() })), g)
            }
        }
    }
    pub fn nor_image(bytes: Vec<u8>, g: u8) -> Disk {
        Disk::Nor(Rc::new(RefCell::new(NorDisk { bytes, ..Default::default() })), g)
    }
    /// The stored elements, read without going through cfg-noodle.
    pub fn elems(&self) -> Result<Vec<Vec<u8>>, String> {
        self.elems_cost().map(|e| e.0)
    }
    /// The stored elements, and the number of flash reads of one pass over them.
    pub fn elems_cost(&self) -> Result<(Vec<Vec<u8>>, u64), String> {
        match self {
            Disk::Mem(d) => Ok((d.borrow().clone(), 0)),
            Disk::Nor(d, g) => {
                let b = d.borrow().bytes.clone();
                macro_rules! go {
                    ($w:literal, $r:literal, $e:literal, $c:ty, $ce:expr, $b:expr) => {
                        nor_elems::<$w, $r, $e>($b)
                    };
                }
                with_geo!(*g, go!(&b))
            }
        }
    }
    /// Store exactly these elements.
    pub fn fill(&self, el: &[Vec<u8>]) {
        self.wipe();
        match self {
            Disk::Mem(d) => *d.borrow_mut() = el.to_vec(),
            Disk::Nor(d, g) => {
                macro_rules! go {
                    ($w:literal, $r:literal, $e:literal, $c:ty, $ce:expr, $d:expr, $el:expr) => {{
                        let n = $d.borrow().bytes.len() as u32;
                        let nor = Nor::<$w, $r, $e> { disk: $d.clone(), ctl: Ctl::new() };
                        let mut q = QueueStorage::new(nor, QueueConfig::new(0..n), NoCache::new());
                        run_now(async {
                            for e in $el {
                                if q.push(e, false).await.is_err() {
                                    panic!("harness: elements do not fit");
                                }
                            }
                        })
                    }};
                }
                with_geo!(*g, go!(d, el))
            }
        }
    }
    pub fn copy(&self) -> Disk {
        match self {
            Disk::Mem(d) => Disk::Mem(Rc::new(RefCell::new(d.borrow().clone()))),
            Disk::Nor(d, g) => Disk::nor_image(d.borrow().bytes.clone(), *g),
        }
    }
    /// Replace the contents by those of `o` (same kind).
    pub fn assign(&self, o: &Disk) {
        match (self, o) {
            (Disk::Mem(a), Disk::Mem(b)) => *a.borrow_mut() = b.borrow().clone(),
            (Disk::Nor(a, _), Disk::Nor(b, _)) => a.borrow_mut().bytes = b.borrow().bytes.clone(),
            _ => unreachable!(),
        }
    }
    pub fn wipe(&self) {
        match self {
            Disk::Mem(a) => a.borrow_mut().clear(),
            Disk::Nor(a, _) => a.borrow_mut().bytes.fill(0xff),
        }
    }
    pub fn mem(&self) -> &MemDisk {
        match self {
            Disk::Mem(m) => m,
            _ => panic!("harness: not an in-memory disk"),
        }
    }
    pub fn nor(&self) -> &NorRef {
        match self {
            Disk::Nor(m, _) => m,
            _ => panic!("harness: not a NOR disk"),
        }
    }
}

/// Hardware that outlives reboots.
pub struct Hw {
    pub cfg: StoreCfg,
    pub kept: u8,
    pub disks: Vec<Disk>,
    pub ctls: Vec<Rc<Ctl>>,
    /// capacity in bytes of in-memory queues
    pub cap: Option<usize>,
}

pub const KEPTS: [u8; 5] = [1, 2, 3, 4, 7];

fn boot_nor<const W: usize, const R: usize, const E: usize, C: CacheImpl + 'static>(
    kept: u8,
    nl: usize,
    disks: Vec<Disk>,
    ctls: Vec<Rc<Ctl>>,
    mkc: impl Fn() -> C + 'static,
) -> Box<dyn Sys> {
    let mk = Box::new(move |l: usize| {
        let disk = disks[l].nor().clone();
        let n = disk.borrow().bytes.len() as u32;
        Flash::new(Nor::<W, R, E> { disk, ctl: ctls[l].clone() }, 0..n, mkc())
    });
    match kept {
        1 => SysImpl::<Flash<Nor<W, R, E>, C>, 1>::boot(nl, mk),
        2 => SysImpl::<Flash<Nor<W, R, E>, C>, 2>::boot(nl, mk),
        _ => SysImpl::<Flash<Nor<W, R, E>, C>, 3>::boot(nl, mk),
    }
}

impl Hw {
    pub fn new(cfg: StoreCfg, kept: u8, nl: usize) -> Hw {
        Hw {
            cfg,
            kept,
            disks: (0..nl).map(|_| Disk::new(cfg)).collect(),
            ctls: (0..nl).map(|_| Ctl::new()).collect(),
            cap: None,
        }
    }
    pub fn limit(&mut self, lim: crate::engine::Lim) {
        self.cap = lim.cap;
        if let (Some(p), StoreCfg::Nor(g)) = (lim.pages, self.cfg) {
            for d in &self.disks {
                d.nor().borrow_mut().bytes = vec![0xff; GEO[g as usize].2 * p];
            }
        }
    }
    pub fn boot(&self) -> Box<dyn Sys> {
        let nl = self.disks.len();
        let disks = self.disks.clone();
        let ctls = self.ctls.clone();
        match self.cfg {
            StoreCfg::Mem => {
                let cap = self.cap;
                let mk = Box::new(move |l: usize| Mem::<MEM_MAX> {
                    disk: disks[l].mem().clone(),
                    ctl: ctls[l].clone(),
                    cap,
                });
                match self.kept {
                    1 => SysImpl::<Mem<MEM_MAX>, 1>::boot(nl, mk),
                    2 => SysImpl::<Mem<MEM_MAX>, 2>::boot(nl, mk),
                    3 => SysImpl::<Mem<MEM_MAX>, 3>::boot(nl, mk),
                    4 => SysImpl::<Mem<MEM_MAX>, 4>::boot(nl, mk),
                    _ => SysImpl::<Mem<MEM_MAX>, 7>::boot(nl, mk),
                }
            }
            StoreCfg::Nor(g) => {
                macro_rules! go {
                    ($w:literal, $r:literal, $e:literal, $c:ty, $ce:expr, $k:expr) => {
                        boot_nor::<$w, $r, $e, $c>($k, nl, disks, ctls, || $ce)
                    };
                }
                with_geo!(g, go!(self.kept))
            }
        }
    }
}

#[allow(unused)]
pub fn serr(e: &SErr) -> String {
    format!("{e:?}")
}
