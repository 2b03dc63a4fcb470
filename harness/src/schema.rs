//! Item types as they change between firmware versions, and the documented rules for
//! reading data of one version as another.
use crate::vals::{Cv, V};
use cfg_noodle::minicbor::{self, CborLen, Decode, Encode};
use std::collections::BTreeMap;

pub const FIRST: u8 = 8;
pub const COUNT: u8 = 17;

fn txt(v: V) -> String {
    String::make(v)
}
fn opt<T>(v: V, t: T) -> Option<T> {
    if v.n % 3 == 0 { None } else { Some(t) }
}

macro_rules! schema {
    ($(#[$m:meta])* $name:ident { $($(#[$a:meta])* $f:ident : $t:ty = $e:expr),* $(,)? }) => {
        #[derive(Clone, Debug, Default, PartialEq, Encode, Decode, CborLen)]
        $(#[$m])*
        pub struct $name { $($(#[$a])* $f: $t),* }
        impl Cv for $name {
            fn make(v: V) -> Self {
                #[allow(clippy::redundant_closure_call)]
                $name { $($f: ($e)(v)),* }
            }
        }
    };
}

schema!(A0 { #[n(1)] a: u32 = |v: V| v.n as u32, #[n(2)] b: String = txt });
schema!(A1 { #[n(2)] b: String = txt });
schema!(A2 { #[n(1)] a: u32 = |v: V| v.n as u32, #[n(2)] b: String = txt, #[n(3)] c: Option<u16> = |v: V| opt(v, v.n as u16) });
schema!(A3 { #[n(1)] a: u32 = |v: V| v.n as u32, #[n(2)] b: String = txt, #[n(4)] #[cbor(default)] d: u8 = |v: V| v.len });
schema!(A4 {
    #[n(1)] a: u32 = |v: V| v.n as u32,
    #[n(2)] b: String = txt,
    #[n(3)] c: Option<u16> = |v: V| opt(v, v.len as u16),
    #[n(4)] #[cbor(default)] d: u8 = |v: V| v.len,
    #[n(6)] f: Option<String> = |v: V| opt(v, txt(v)),
});
schema!(A5 { #[n(1)] a: u32 = |v: V| v.n as u32, #[n(2)] b: String = txt, #[n(5)] e: bool = |v: V| v.n % 2 == 0 });
schema!(A6 { #[n(1)] a: String = txt, #[n(2)] b: String = txt });
schema!(A7 { #[n(1)] a: u32 = |v: V| v.n as u32 });
schema!(A8 { #[n(0)] z: Option<bool> = |v: V| opt(v, v.n % 2 == 0), #[n(1)] a: u32 = |v: V| v.n as u32, #[n(6)] f: Option<String> = |v: V| opt(v, txt(v)) });
schema!(#[cbor(map)] M0 { #[n(1)] a: u32 = |v: V| v.n as u32, #[n(2)] b: String = txt });
schema!(#[cbor(map)] M1 { #[n(1)] a: u32 = |v: V| v.n as u32, #[n(2)] b: String = txt, #[n(3)] c: Option<u16> = |v: V| opt(v, v.n as u16) });
schema!(#[cbor(map)] M2 { #[n(2)] b: String = txt, #[n(4)] #[cbor(default)] d: u8 = |v: V| v.len });
schema!(#[cbor(map)] M3 { #[n(1)] a: u32 = |v: V| v.n as u32, #[n(2)] b: String = txt, #[n(5)] e: bool = |v: V| v.n % 2 == 0 });
schema!(#[cbor(map)] M4 { #[n(1)] a: u32 = |v: V| v.n as u32, #[n(4)] #[cbor(default)] d: u8 = |v: V| v.len, #[n(300)] g: Option<u16> = |v: V| opt(v, v.len as u16) });

#[derive(Clone, Copy, Debug, Default, PartialEq, Encode, Decode, CborLen)]
pub enum E0 {
    #[default]
    #[n(0)]
    X,
    #[n(1)]
    Y(#[n(0)] u32),
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Encode, Decode, CborLen)]
pub enum E1 {
    #[default]
    #[n(0)]
    X,
    #[n(1)]
    Y(#[n(0)] u32),
    #[n(2)]
    Z(#[n(0)] u32, #[n(1)] bool),
}
schema!(O0 { #[n(0)] e: Option<E0> = |v: V| opt(v, if v.len % 2 == 0 { E0::X } else { E0::Y(v.n as u32) }), #[n(1)] a: u32 = |v: V| v.n as u32 });
schema!(O1 { #[n(0)] e: Option<E1> = |v: V| opt(v, match v.len % 3 { 0 => E1::X, 1 => E1::Y(v.n as u32), _ => E1::Z(v.n as u32, true) }), #[n(1)] a: u32 = |v: V| v.n as u32 });
schema!(O2 { #[n(1)] a: u32 = |v: V| v.n as u32 });

#[macro_export]
macro_rules! with_schema {
    ($k:expr, $m:ident) => {
        match $k - $crate::schema::FIRST {
            0 => $m!($crate::schema::A0),
            1 => $m!($crate::schema::A1),
            2 => $m!($crate::schema::A2),
            3 => $m!($crate::schema::A3),
            4 => $m!($crate::schema::A4),
            5 => $m!($crate::schema::A5),
            6 => $m!($crate::schema::A6),
            7 => $m!($crate::schema::A7),
            8 => $m!($crate::schema::A8),
            9 => $m!($crate::schema::M0),
            10 => $m!($crate::schema::M1),
            11 => $m!($crate::schema::M2),
            12 => $m!($crate::schema::M3),
            13 => $m!($crate::schema::M4),
            14 => $m!($crate::schema::O0),
            15 => $m!($crate::schema::O1),
            _ => $m!($crate::schema::O2),
        }
    };
}

#[derive(Clone, Copy, PartialEq)]
enum Ty {
    U8,
    U16,
    U32,
    S,
    B,
    /// enum with this many variants
    E(u64),
}
#[derive(Clone, Copy, PartialEq)]
enum Need {
    Req,
    Opt,
    Dflt,
}
use Need::*;
use Ty::*;

type Field = (u64, Ty, Need);

fn desc(kind: u8) -> (bool, &'static [Field]) {
    match kind - FIRST {
        0 => (false, &[(1, U32, Req), (2, S, Req)]),
        1 => (false, &[(2, S, Req)]),
        2 => (false, &[(1, U32, Req), (2, S, Req), (3, U16, Opt)]),
        3 => (false, &[(1, U32, Req), (2, S, Req), (4, U8, Dflt)]),
        4 => (false, &[(1, U32, Req), (2, S, Req), (3, U16, Opt), (4, U8, Dflt), (6, S, Opt)]),
        5 => (false, &[(1, U32, Req), (2, S, Req), (5, B, Req)]),
        6 => (false, &[(1, S, Req), (2, S, Req)]),
        7 => (false, &[(1, U32, Req)]),
        8 => (false, &[(0, B, Opt), (1, U32, Req), (6, S, Opt)]),
        9 => (true, &[(1, U32, Req), (2, S, Req)]),
        10 => (true, &[(1, U32, Req), (2, S, Req), (3, U16, Opt)]),
        11 => (true, &[(2, S, Req), (4, U8, Dflt)]),
        12 => (true, &[(1, U32, Req), (2, S, Req), (5, B, Req)]),
        13 => (true, &[(1, U32, Req), (4, U8, Dflt), (300, U16, Opt)]),
        14 => (false, &[(0, E(2), Opt), (1, U32, Req)]),
        15 => (false, &[(0, E(3), Opt), (1, U32, Req)]),
        _ => (false, &[(1, U32, Req)]),
    }
}

/// A small independent CBOR reader.
#[derive(Clone, Debug, PartialEq)]
pub enum C {
    U(u64),
    S(String),
    Bool(bool),
    Null,
    Arr(Vec<C>),
    Map(Vec<(C, C)>),
}

fn arg(b: &mut &[u8], low: u8) -> Option<u64> {
    let n = match low {
        0..=23 => return Some(low as u64),
        24 => 1,
        25 => 2,
        26 => 4,
        27 => 8,
        _ => return None,
    };
    if b.len() < n {
        return None;
    }
    let v = b[..n].iter().fold(0u64, |a, x| a << 8 | *x as u64);
    *b = &b[n..];
    Some(v)
}

fn cbor(b: &mut &[u8]) -> Option<C> {
    let h = *b.first()?;
    *b = &b[1..];
    let n = arg(b, h & 31);
    Some(match h >> 5 {
        0 => C::U(n?),
        3 => {
            let n = n? as usize;
            let s = b.get(..n)?;
            *b = &b[n..];
            C::S(String::from_utf8(s.to_vec()).ok()?)
        }
        4 => C::Arr((0..n?).map(|_| cbor(b)).collect::<Option<Vec<_>>>()?),
        5 => C::Map((0..n?).map(|_| Some((cbor(b)?, cbor(b)?))).collect::<Option<Vec<_>>>()?),
        7 if h == 0xf4 => C::Bool(false),
        7 if h == 0xf5 => C::Bool(true),
        7 if h == 0xf6 => C::Null,
        _ => return None,
    })
}

/// Index of an enum's variant: `[index, [fields]]`.
fn variant(c: &C) -> Option<u64> {
    match c {
        C::Arr(v) => match v.first() {
            Some(C::U(n)) => Some(*n),
            _ => None,
        },
        _ => None,
    }
}

pub enum Expect {
    /// the rules say nothing
    Open,
    Undecodable,
    Fields(BTreeMap<u64, C>),
}

fn stored_fields(map: bool, b: &[u8]) -> Option<Option<BTreeMap<u64, C>>> {
    let mut r = b;
    let c = cbor(&mut r)?;
    if !r.is_empty() {
        return None;
    }
    Some(match (map, c) {
        (false, C::Arr(v)) => Some(v.into_iter().enumerate().map(|(i, c)| (i as u64, c)).collect()),
        (true, C::Map(v)) => Some(
            v.into_iter()
                .filter_map(|(k, c)| if let C::U(k) = k { Some((k, c)) } else { None })
                .collect(),
        ),
        _ => None,
    })
}

fn type_ok(t: Ty, c: &C) -> Option<bool> {
    Some(match (t, c) {
        (U8, C::U(n)) => *n <= 0xff,
        (U16, C::U(n)) => *n <= 0xffff,
        (U32, C::U(n)) => *n <= 0xffff_ffff,
        (S, C::S(_)) | (B, C::Bool(_)) => true,
        // how enums are laid out is not our business beyond the variant's index
        (E(_), _) => return None,
        _ => false,
    })
}

/// What data `b` must load as, for an item of type `kind`.
pub fn expect(kind: u8, b: &[u8]) -> Expect {
    let (map, fields) = desc(kind);
    let Some(st) = stored_fields(map, b) else { return Expect::Open };
    let Some(st) = st else { return Expect::Undecodable };
    let mut out = BTreeMap::new();
    for (i, t, need) in fields {
        match st.get(i) {
            None => match need {
                Req => return Expect::Undecodable,
                Opt => {}
                Dflt => {
                    out.insert(*i, C::U(0));
                }
            },
            Some(C::Null) => match need {
                Req => return Expect::Undecodable,
                Opt => {}
                // a gap in an array is not a missing field
                Dflt => return Expect::Open,
            },
            Some(c) => {
                if let E(n) = t {
                    if !matches!(c, C::Arr(_)) {
                        return Expect::Undecodable;
                    }
                    match variant(c) {
                        // an unknown variant: none
                        Some(v) if v >= *n => continue,
                        Some(_) => {
                            out.insert(*i, c.clone());
                            continue;
                        }
                        None => return Expect::Open,
                    }
                }
                match type_ok(*t, c) {
                    Some(true) => {
                        out.insert(*i, c.clone());
                    }
                    Some(false) => return Expect::Undecodable,
                    None => return Expect::Open,
                }
            }
        }
    }
    Expect::Fields(out)
}

/// The fields of a value of type `kind`, from its encoding.
pub fn fields(kind: u8, b: &[u8]) -> Option<BTreeMap<u64, C>> {
    let (map, fields) = desc(kind);
    let mut f = stored_fields(map, b)??;
    f.retain(|k, c| *c != C::Null && fields.iter().any(|x| x.0 == *k));
    Some(f)
}
