//! Generators for engine histories.
use crate::disk::{Corr, FKind, Fault};
use crate::engine::*;
use crate::sys::*;
use crate::vals::{Def, NKINDS, V};
use proptest::prelude::*;
use proptest::strategy::Union;

/// Weights and ranges of one kind of history.
#[derive(Clone, Copy, Debug)]
pub struct Prof {
    pub mem: u32,
    pub nor: u32,
    pub nl: u8,
    pub items: (usize, usize),
    pub ops: (usize, usize),
    pub attach: u32,
    pub attach_all: u32,
    pub cancel: u32,
    pub drop: u32,
    pub detach: u32,
    pub write: u32,
    pub read: u32,
    pub flush: u32,
    pub gc: u32,
    pub cycle: u32,
    pub reset: u32,
    pub swap: u32,
    pub reboot: u32,
    pub damage: u32,
    pub waits: u32,
    pub poke: u32,
    /// power cuts
    pub cut: u32,
    /// percentage of storage calls that get a fault, per kind of call
    pub f_read: u32,
    pub f_flush: u32,
    pub f_gc: u32,
    /// silent corruption instead of errors and cancellations
    pub corr: bool,
    /// percentage of reboots that change item types
    pub rot: u32,
    /// longest value
    pub len: u8,
    /// only one kind of item type
    pub kind: Option<u8>,
    /// item types that are versions of each other, some items under one key
    pub schema: bool,
    /// thousands of stored elements
    pub huge: bool,
}

pub const BASE: Prof = Prof {
    mem: 3,
    nor: 2,
    nl: 1,
    items: (1, 6),
    ops: (4, 40),
    attach: 6,
    attach_all: 3,
    cancel: 1,
    drop: 2,
    detach: 2,
    write: 14,
    read: 5,
    flush: 6,
    gc: 5,
    cycle: 6,
    reset: 0,
    swap: 0,
    reboot: 3,
    damage: 0,
    waits: 0,
    poke: 0,
    cut: 0,
    f_read: 0,
    f_flush: 0,
    f_gc: 0,
    corr: false,
    rot: 0,
    len: 14,
    kind: None,
    schema: false,
    huge: false,
};

pub fn v(len: u8) -> impl Strategy<Value = V> + Clone {
    (prop_oneof![3 => 0u64..30, 1 => any::<u64>(), 1 => Just(u64::MAX)], 0..=len).prop_map(|(n, len)| V { n, len })
}

pub fn def(len: u8) -> impl Strategy<Value = Def> + Clone {
    prop_oneof![1 => Just(Def::Plain), 2 => v(len).prop_map(Def::With)]
}

pub fn corr() -> impl Strategy<Value = Corr> + Clone {
    prop_oneof![
        2 => Just(Corr::Lost),
        3 => (0u16..400).prop_map(Corr::Flip),
        2 => (0u8..40).prop_map(Corr::Trunc),
        1 => Just(Corr::Dup),
        1 => (3u8..=255).prop_map(Corr::Unknown),
        1 => Just(Corr::Junk),
    ]
}

pub fn fault(c: bool) -> BoxedStrategy<Fault> {
    let at = prop_oneof![6 => 0u16..12, 3 => 0u16..40, 1 => 0u16..150];
    if c {
        (at, corr()).prop_map(|(at, c)| Fault { at, kind: FKind::Corr(c), burst: 0 }).boxed()
    } else {
        let k = prop_oneof![Just(FKind::ErrB), Just(FKind::ErrA), Just(FKind::CanB), Just(FKind::CanA)];
        (at, k, prop_oneof![4 => Just(0u16), 1 => 1u16..5]).prop_map(|(at, kind, burst)| Fault { at, kind, burst }).boxed()
    }
}

fn maybe_fault(pct: u32, corr: bool) -> BoxedStrategy<Option<Fault>> {
    if pct == 0 {
        Just(None).boxed()
    } else if pct >= 100 {
        fault(corr).prop_map(Some).boxed()
    } else {
        prop_oneof![100 - pct => Just(None), pct => fault(corr).prop_map(Some)].boxed()
    }
}

pub fn dmg() -> impl Strategy<Value = Dmg> + Clone {
    let e = prop_oneof![4 => 0u8..12, 1 => 0u8..60];
    prop_oneof![
        4 => (e.clone(), 0u16..400).prop_map(|(e, bit)| Dmg::Flip { e, bit }),
        2 => e.clone().prop_map(|e| Dmg::Del { e }),
        2 => (e.clone(), 0u8..30).prop_map(|(e, n)| Dmg::Trunc { e, n }),
        1 => (e.clone(), 3u8..=255).prop_map(|(e, h)| Dmg::Unknown { e, h }),
        2 => e.clone().prop_map(|e| Dmg::CutTail { e }),
        1 => (e.clone(), 3u8..=255).prop_map(|(e, h)| Dmg::Insert { e, h }),
        2 => (e, 0u8..3, 0u8..6).prop_map(|(e, k, seq)| Dmg::Stray { e, k, seq }),
    ]
}

pub fn op(p: Prof) -> BoxedStrategy<Op> {
    let mut u: Vec<(u32, BoxedStrategy<Op>)> = vec![];
    let l = 0..p.nl;
    let it = 0..p.items.1 as u8;
    let mut add = |w: u32, s: BoxedStrategy<Op>| {
        if w > 0 {
            u.push((w, s))
        }
    };
    add(p.write, (it.clone(), v(p.len)).prop_map(|(it, v)| Op::Write { it, v }).boxed());
    add(p.cycle, l.clone().prop_map(|l| Op::Cycle { l }).boxed());
    add(p.attach_all, l.clone().prop_map(|l| Op::AttachAll { l }).boxed());
    add(
        p.attach,
        (it.clone(), l.clone(), def(p.len)).prop_map(|(it, l, def)| Op::Attach { it, l, def }).boxed(),
    );
    add(p.cancel, it.clone().prop_map(|it| Op::CancelAttach { it }).boxed());
    add(p.drop, it.clone().prop_map(|it| Op::DropHandle { it }).boxed());
    add(p.detach, (it.clone(), l.clone()).prop_map(|(it, l)| Op::Detach { it, l }).boxed());
    let st = |what: What, pct: u32| {
        (l.clone(), maybe_fault(pct, p.corr && what == What::Flush))
            .prop_map(move |(l, f)| Op::Store { l, what, f })
            .boxed()
    };
    let (r, f, g) = (st(What::Read, p.f_read), st(What::Flush, p.f_flush), st(What::Gc, p.f_gc));
    add(p.read, r);
    add(p.flush, f);
    add(p.gc, g);
    add(p.reset, l.clone().prop_map(|l| Op::Reset { l }).boxed());
    add(p.swap, (l.clone(), 0u8..3).prop_map(|(l, how)| Op::Swap { l, how }).boxed());
    let rot: BoxedStrategy<u8> = if p.rot == 0 {
        Just(0u8).boxed()
    } else {
        prop_oneof![100 - p.rot => Just(0u8), p.rot => 1u8..=255].boxed()
    };
    add(p.reboot, rot.prop_map(|rot| Op::Reboot { rot }).boxed());
    add(
        p.damage,
        (l.clone(), dmg(), proptest::option::of(dmg())).prop_map(|(l, d, d2)| Op::Damage { l, d, d2 }).boxed(),
    );
    add(
        p.waits,
        (l.clone(), any::<bool>())
            .prop_map(|(l, r)| if r { Op::WaitRead { l } } else { Op::WaitWrite { l } })
            .boxed(),
    );
    let what = prop_oneof![1 => Just(What::Read), 4 => Just(What::Flush), 3 => Just(What::Gc)];
    let at = prop_oneof![4 => 0u16..12, 4 => 0u16..60, 2 => 0u16..250];
    add(p.cut, (l.clone(), what, at, 0u16..5).prop_map(|(l, what, at, k)| Op::Cut { l, what, at, k }).boxed());
    add(p.poke, it.prop_map(|it| Op::Poke { it }).boxed());
    Union::new_weighted(u).boxed()
}

/// Sequences of operations: mostly single ones, some of them in groups that matter together.
pub fn ops(p: Prof, n: (usize, usize)) -> BoxedStrategy<Vec<Op>> {
    let single = op(p).prop_map(|o| vec![o]).boxed();
    if p.attach + p.drop + p.cancel == 0 {
        return proptest::collection::vec(op(p), n.0..=n.1).boxed();
    }
    let chunk = prop_oneof![30 => single, 1 => reattach(p)];
    proptest::collection::vec(chunk, n.0..=n.1).prop_map(|v| v.concat()).boxed()
}

/// An item (waiting or not) is attached anew and perhaps written, perhaps with a collection and a flush after it.
pub fn reattach(p: Prof) -> BoxedStrategy<Vec<Op>> {
    let wr = proptest::option::of(v(p.len));
    (0..p.items.1 as u8, 0..p.nl, def(p.len), wr, 0u8..4)
        .prop_map(|(it, l, def, wr, then)| {
            let mut o = vec![Op::DropHandle { it }, Op::CancelAttach { it }, Op::Attach { it, l, def }];
            o.extend(wr.map(|v| Op::Write { it, v }));
            if then & 1 != 0 {
                o.push(Op::Store { l, what: What::Gc, f: None });
            }
            if then & 2 != 0 {
                o.push(Op::Store { l, what: What::Flush, f: None });
            }
            o
        })
        .boxed()
}

pub fn cfg_kept(p: Prof) -> BoxedStrategy<(StoreCfg, u8)> {
    let mem = proptest::sample::select(KEPTS.to_vec()).prop_map(|k| (StoreCfg::Mem, k)).boxed();
    let nor = (0..NGEO, 1u8..=3).prop_map(|(g, k)| (StoreCfg::Nor(g), k)).boxed();
    match (p.mem, p.nor) {
        (_, 0) => mem,
        (0, _) => nor,
        (m, n) => prop_oneof![m => mem, n => nor].boxed(),
    }
}

pub fn items(p: Prof) -> BoxedStrategy<Vec<(u8, u8)>> {
    let kind: BoxedStrategy<u8> = match p.kind {
        None => (0..NKINDS).boxed(),
        Some(k) => prop_oneof![4 => Just(k), 1 => 0..NKINDS].boxed(),
    };
    if p.schema {
        let kind = prop_oneof![
            6 => (0u8..9).prop_map(|k| crate::schema::FIRST + k),
            3 => (9u8..14).prop_map(|k| crate::schema::FIRST + k),
            2 => (14u8..crate::schema::COUNT).prop_map(|k| crate::schema::FIRST + k),
            1 => 0..NKINDS,
        ];
        let many = p.items.1 > 8;
        return proptest::collection::vec((kind, 0u8..5), p.items.0..=p.items.1)
            .prop_map(move |v| {
                v.into_iter().enumerate().map(|(i, (k, key))| (k, if many && i >= 5 { 16 + i as u8 } else { key })).collect()
            })
            .boxed();
    }
    let n = p.items;
    // keys mostly distinct: item i starts from key i, shifted now and then
    proptest::collection::vec((kind, prop_oneof![8 => Just(0u8), 1 => 1u8..8]), n.0..=n.1)
        .prop_map(|v| {
            let n = v.len();
            v.into_iter().enumerate().map(|(i, (k, s))| (k, nth_key(i, n, s))).collect()
        })
        .boxed()
}

/// The number of a record stored before: mostly none, else around numbers at which narrower arithmetic would wrap.
pub fn num() -> BoxedStrategy<u32> {
    prop_oneof![
        7 => Just(0u32),
        1 => (prop_oneof![3 => Just(8u32), 3 => Just(16), 1 => Just(15), 1 => Just(24), 2 => Just(31)], 0u32..6).prop_map(|(b, d)| (1u32 << b) - d),
    ]
    .boxed()
}

pub fn case(p: Prof) -> BoxedStrategy<Case> {
    let bulk = if p.huge {
        prop_oneof![1 => 65500u32..65600, 1 => 1000u32..5000].boxed()
    } else {
        prop_oneof![60 => Just(0u32), 1 => 200u32..300, 1 => 10u32..700].boxed()
    };
    (cfg_kept(p), items(p), ops(p, p.ops), num(), bulk)
        .prop_map(move |((cfg, kept), items, ops, num, bulk)| Case { cfg, kept, nl: p.nl, items, ops, num, bulk })
        .boxed()
}
