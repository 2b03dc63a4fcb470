//! Value types stored in items, and a type-erased view of nodes and handles.
use crate::sim::BoxFut;
use cfg_noodle::error::Error;
use cfg_noodle::minicbor::{self, CborLen, Decode, Encode};
use cfg_noodle::mutex::raw_impls::cs::CriticalSectionRawMutex;
use cfg_noodle::{StorageList, StorageListNode, StorageListNodeHandle};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::rc::Rc;

pub type Raw = CriticalSectionRawMutex;
pub type List<const K: usize> = StorageList<Raw, K>;

/// Generated description of a value; each item type derives its value from it.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct V {
    pub n: u64,
    pub len: u8,
}

pub trait Cv: Encode<()> + CborLen<()> + Clone + Default + Send + 'static
where
    for<'a> Self: Decode<'a, ()>,
{
    fn make(v: V) -> Self;
    fn enc(&self) -> Vec<u8> {
        minicbor::to_vec(self).expect("encode")
    }
}

impl Cv for u8 {
    fn make(v: V) -> Self {
        v.n as u8
    }
}
impl Cv for u64 {
    fn make(v: V) -> Self {
        v.n
    }
}
impl Cv for String {
    fn make(v: V) -> Self {
        (0..v.len).map(|i| (b'a' + ((v.n as u8).wrapping_add(i)) % 26) as char).collect()
    }
}
#[derive(Clone, Debug, Default, PartialEq, Encode, Decode, CborLen)]
pub struct Rec3 {
    #[n(0)]
    a: u16,
    #[n(1)]
    b: Option<String>,
    #[n(2)]
    c: bool,
}
impl Cv for Rec3 {
    fn make(v: V) -> Self {
        Rec3 {
            a: v.n as u16,
            b: if v.len % 3 == 0 { None } else { Some(String::make(v)) },
            c: v.n % 2 == 1,
        }
    }
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Encode, Decode, CborLen)]
#[repr(align(32))]
pub struct Aligned(#[n(0)] u64, #[n(1)] u8);
impl Cv for Aligned {
    fn make(v: V) -> Self {
        Aligned(v.n, v.len)
    }
}

/// Bytes of any length (`n` modulo 8192).
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Blob(Vec<u8>);
impl<C> Encode<C> for Blob {
    fn encode<W: minicbor::encode::Write>(
        &self,
        e: &mut minicbor::Encoder<W>,
        _: &mut C,
    ) -> Result<(), minicbor::encode::Error<W::Error>> {
        e.bytes(&self.0)?;
        Ok(())
    }
}
impl<C> CborLen<C> for Blob {
    fn cbor_len(&self, c: &mut C) -> usize {
        let l = self.0.len();
        (l as u64).cbor_len(c) + l
    }
}
impl<'b, C> Decode<'b, C> for Blob {
    fn decode(d: &mut minicbor::Decoder<'b>, _: &mut C) -> Result<Self, minicbor::decode::Error> {
        Ok(Blob(d.bytes()?.to_vec()))
    }
}
impl Cv for Blob {
    fn make(v: V) -> Self {
        let n = (v.n % 8192) as usize;
        Blob((0..n).map(|i| (i * 7 + n) as u8 ^ v.len).collect())
    }
}
/// Text of any length (`n` modulo 8192).
#[derive(Clone, Debug, Default, PartialEq, Encode, Decode, CborLen)]
#[cbor(transparent)]
pub struct Text(#[n(0)] String);
impl Cv for Text {
    fn make(v: V) -> Self {
        let n = (v.n % 8192) as usize;
        Text((0..n).map(|i| (b'!' + ((i * 5 + n + v.len as usize) % 90) as u8) as char).collect())
    }
}
/// A type that refuses to encode some of its values (after writing a part of them).
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Fussy(u32, Vec<u8>);
impl<C> Encode<C> for Fussy {
    fn encode<W: minicbor::encode::Write>(
        &self,
        e: &mut minicbor::Encoder<W>,
        _: &mut C,
    ) -> Result<(), minicbor::encode::Error<W::Error>> {
        e.array(2)?.u32(self.0)?;
        if unencodable(&self.enc()) {
            return Err(minicbor::encode::Error::message("value refused"));
        }
        e.bytes(&self.1)?;
        Ok(())
    }
}
impl<C> CborLen<C> for Fussy {
    fn cbor_len(&self, c: &mut C) -> usize {
        let l = self.1.len();
        1 + self.0.cbor_len(c) + (l as u64).cbor_len(c) + l
    }
}
impl<'b, C> Decode<'b, C> for Fussy {
    fn decode(d: &mut minicbor::Decoder<'b>, _: &mut C) -> Result<Self, minicbor::decode::Error> {
        if d.array()? != Some(2) {
            return Err(minicbor::decode::Error::message("bad array"));
        }
        Ok(Fussy(d.u32()?, d.bytes()?.to_vec()))
    }
}
impl Cv for Fussy {
    fn make(v: V) -> Self {
        Fussy(v.n as u32, (0..v.len).map(|i| i ^ v.n as u8).collect())
    }
    fn enc(&self) -> Vec<u8> {
        minicbor::to_vec((self.0, minicbor::bytes::ByteVec::from(self.1.clone()))).expect("encode")
    }
}
/// Does a `Fussy` item with this encoding refuse to encode?
pub fn unencodable(enc: &[u8]) -> bool {
    minicbor::decode::<Fussy>(enc).is_ok_and(|f| f.0 % 4 == 1)
}
pub const FUSSY: u8 = KIND_END - 1;

pub const BLOB: u8 = 6;
pub const TEXT: u8 = 7;
pub const KIND_END: u8 = crate::schema::FIRST + crate::schema::COUNT + 1;

thread_local! {
    static LIVE: RefCell<BTreeSet<u64>> = const { RefCell::new(BTreeSet::new()) };
    static NEXT: Cell<u64> = const { Cell::new(1) };
    static BAD: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// A value that owns a resource: every live instance is registered.
#[derive(Debug)]
pub struct Tracked {
    id: u64,
    magic: u64,
    pub n: u32,
    pub body: Vec<u8>,
}
const MAGIC: u64 = 0x5eed_cafe_f00d_beef;

impl Tracked {
    pub fn new(n: u32, body: Vec<u8>) -> Self {
        let id = NEXT.with(|c| {
            let v = c.get();
            c.set(v + 1);
            v
        });
        LIVE.with(|l| l.borrow_mut().insert(id));
        Tracked { id, magic: MAGIC, n, body }
    }
    fn check(&self, what: &str) {
        let live = LIVE.with(|l| l.borrow().contains(&self.id));
        if self.magic != MAGIC || !live {
            BAD.with(|b| {
                b.borrow_mut().get_or_insert_with(|| format!("{what} of a value that is not live"));
            });
        }
    }
}
/// Number of live instances.
pub fn live() -> usize {
    LIVE.with(|l| l.borrow().len())
}
pub fn live_reset() {
    LIVE.with(|l| l.borrow_mut().clear());
    BAD.with(|b| *b.borrow_mut() = None);
}
/// Misuse noticed so far, if any.
pub fn live_bad() -> Option<String> {
    BAD.with(|b| b.borrow_mut().take())
}
impl Drop for Tracked {
    fn drop(&mut self) {
        self.check("drop");
        LIVE.with(|l| l.borrow_mut().remove(&self.id));
        self.magic = 0;
        if BAD.with(|b| b.borrow().is_some()) {
            // a bogus instance: do not free its buffer
            std::mem::forget(std::mem::take(&mut self.body));
        }
    }
}
impl Clone for Tracked {
    fn clone(&self) -> Self {
        self.check("clone");
        if self.magic != MAGIC {
            return Tracked::new(0, vec![]);
        }
        Tracked::new(self.n, self.body.clone())
    }
}
impl Default for Tracked {
    fn default() -> Self {
        Tracked::new(7, vec![1])
    }
}
impl<C> Encode<C> for Tracked {
    fn encode<W: minicbor::encode::Write>(
        &self,
        e: &mut minicbor::Encoder<W>,
        _: &mut C,
    ) -> Result<(), minicbor::encode::Error<W::Error>> {
        self.check("encode");
        e.array(2)?.u32(self.n)?.bytes(if self.magic == MAGIC { &self.body } else { &[] })?;
        Ok(())
    }
}
impl<C> CborLen<C> for Tracked {
    fn cbor_len(&self, c: &mut C) -> usize {
        let l = self.body.len();
        1 + self.n.cbor_len(c) + (l as u64).cbor_len(c) + l
    }
}
impl<'b, C> Decode<'b, C> for Tracked {
    fn decode(d: &mut minicbor::Decoder<'b>, _: &mut C) -> Result<Self, minicbor::decode::Error> {
        let n = d.array()?;
        if n != Some(2) {
            return Err(minicbor::decode::Error::message("bad array"));
        }
        let a = d.u32()?;
        // build the value first, so that a failing decode has to clean up
        let mut t = Tracked::new(a, vec![]);
        t.body = d.bytes()?.to_vec();
        Ok(t)
    }
}
impl Cv for Tracked {
    fn make(v: V) -> Self {
        Tracked::new(v.n as u32, (0..v.len).map(|i| i ^ v.n as u8).collect())
    }
}

pub const NKINDS: u8 = 6;

/// How an attach supplies its default.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Def {
    /// plain `attach`
    Plain,
    /// `attach_with_default` with this value
    With(V),
}

pub type AttachRes<const K: usize> = Result<Box<dyn DynHandle>, Error>;

pub trait DynNode<const K: usize> {
    fn key(&self) -> &'static str;
    fn attach(&self, list: &'static List<K>, def: Def, calls: Rc<Cell<u32>>) -> BoxFut<'static, AttachRes<K>>;
    fn detach(&self, list: &'static List<K>) -> BoxFut<'static, Result<(), Error>>;
    /// decode stored bytes as this item's type and re-encode
    fn decode(&self, b: &[u8]) -> Option<Vec<u8>>;
    fn make(&self, v: V) -> Vec<u8>;
    fn default(&self) -> Vec<u8>;
    fn is_tracked(&self) -> bool;
}

pub trait DynHandle {
    fn key(&self) -> &'static str;
    fn load(&self) -> Vec<u8>;
    fn write<'a>(&'a mut self, v: V) -> BoxFut<'a, Result<(), Error>>;
}

struct H<T: 'static, const K: usize>(StorageListNodeHandle<T, Raw, K>);

impl<T: Cv, const K: usize> DynHandle for H<T, K>
where
    for<'a> T: Decode<'a, ()>,
{
    fn key(&self) -> &'static str {
        self.0.key()
    }
    fn load(&self) -> Vec<u8> {
        self.0.load().enc()
    }
    fn write<'a>(&'a mut self, v: V) -> BoxFut<'a, Result<(), Error>> {
        Box::pin(async move { self.0.write(&T::make(v)).await })
    }
}

pub struct N<T: 'static> {
    pub node: &'static StorageListNode<T>,
    pub key: &'static str,
}

impl<T: Cv, const K: usize> DynNode<K> for N<T>
where
    for<'a> T: Decode<'a, ()>,
{
    fn key(&self) -> &'static str {
        self.key
    }
    fn attach(&self, list: &'static List<K>, def: Def, calls: Rc<Cell<u32>>) -> BoxFut<'static, AttachRes<K>> {
        let node = self.node;
        Box::pin(async move {
            let h = match def {
                Def::Plain => node.attach(list).await?,
                Def::With(v) => {
                    node.attach_with_default(list, || {
                        calls.set(calls.get() + 1);
                        T::make(v)
                    })
                    .await?
                }
            };
            Ok(Box::new(H::<T, K>(h)) as Box<dyn DynHandle>)
        })
    }
    fn detach(&self, list: &'static List<K>) -> BoxFut<'static, Result<(), Error>> {
        let node = self.node;
        Box::pin(node.detach(list))
    }
    fn decode(&self, b: &[u8]) -> Option<Vec<u8>> {
        minicbor::decode::<T>(b).ok().map(|t| t.enc())
    }
    fn make(&self, v: V) -> Vec<u8> {
        T::make(v).enc()
    }
    fn default(&self) -> Vec<u8> {
        T::default().enc()
    }
    fn is_tracked(&self) -> bool {
        std::any::TypeId::of::<T>() == std::any::TypeId::of::<Tracked>()
    }
}
