//! What each check runs.
use crate::refmodel;
use crate::cases::*;
use crate::engine::*;
use crate::more::{Bounded, Fallback, Hit, Round};
use crate::strat::{self, BASE, Prof};
use crate::sys::*;
use crate::vals::V;
use proptest::prelude::*;

pub struct Part {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub strat: Box<dyn Fn() -> BoxedStrategy<AnyCase>>,
}

pub struct Spec {
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub parts: Vec<Part>,
}

fn hist(name: &'static str, p: Prof, quick: u64) -> Part {
    Part {
        name,
        quick,
        thorough: quick * 30,
        strat: Box::new(move || strat::case(p).prop_map(AnyCase::Hist).boxed()),
    }
}

fn fault_enum(name: &'static str, p: Prof, what: What, corr: bool, quick: u64) -> Part {
    Part {
        name,
        quick,
        thorough: quick * 30,
        strat: Box::new(move || {
            let base = strat::case(Prof { ops: (0, 10), items: (1, 4), ..p });
            let pre = proptest::collection::vec(strat::op(Prof { reboot: 0, read: 0, flush: 0, gc: 0, cycle: 0, reset: 0, swap: 0, damage: 0, ..p }), 0..5);
            let tail = strat::ops(Prof { f_read: 15, f_flush: 15, f_gc: 15, corr: false, reboot: 4, ..p }, (0, 6));
            let tail = (prop_oneof![2 => Just(vec![]).boxed(), 1 => strat::reattach(Prof { nl: 1, ..p })], tail)
                .prop_map(|(a, b)| [a, b].concat());
            let c: BoxedStrategy<Option<crate::disk::Corr>> =
                if corr { strat::corr().prop_map(Some).boxed() } else { Just(None).boxed() };
            (base, pre, tail, c)
                .prop_map(move |(base, pre, tail, corr)| (Case { bulk: 0, ..base }, pre, tail, corr))
                .prop_map(move |(base, pre, tail, corr)| AnyCase::FaultEnum(FaultEnum { base, what, pre, corr, tail }))
                .boxed()
        }),
    }
}

fn cut_enum(name: &'static str, p: Prof, what: What, quick: u64) -> Part {
    Part {
        name,
        quick,
        thorough: quick * 30,
        strat: Box::new(move || {
            let base = strat::case(Prof { ops: (0, 12), items: (1, 4), ..p });
            let pre = proptest::collection::vec(strat::op(Prof { reboot: 0, read: 0, flush: 0, gc: 0, cycle: 0, cut: 0, ..p }), 0..5);
            let tail = proptest::collection::vec(strat::op(Prof { cut: 14, reboot: 3, flush: 10, gc: 8, ..p }), 0..10);
            (base, pre, tail)
                .prop_map(move |(base, pre, tail)| (Case { bulk: 0, ..base }, pre, tail))
                .prop_map(move |(base, pre, tail)| AnyCase::CutEnum(FaultEnum { base, what, pre, corr: None, tail }))
                .boxed()
        }),
    }
}

fn val() -> BoxedStrategy<Val> {
    prop_oneof![
        6 => (0u8..crate::vals::NKINDS, strat::v(14)).prop_map(|(k, v)| Val::K(k, v)),
        1 => any::<u64>().prop_map(Val::U),
        1 => "[a-z]{0,10}".prop_map(Val::S),
        1 => proptest::collection::vec(any::<u8>(), 0..10).prop_map(Val::Raw),
    ]
    .boxed()
}

fn elspec(items: Vec<(u8, u8)>) -> BoxedStrategy<ElSpec> {
    // values mostly of the attached item's kind, so that they decode
    let kinds = items.clone();
    let kv = move || {
        let kinds = kinds.clone();
        (0u8..8, any::<u8>(), strat::v(14), any::<u8>(), val())
            .prop_map(move |(k, i, v, c, other)| {
                // with many items, mostly one of theirs
                let k = if kinds.len() > 8 && i < 230 { kinds[i as usize % kinds.len()].1 } else { k };
                let kind = kinds.iter().find(|(_, key)| key_name(*key) == key_name(k)).map(|x| x.0);
                match kind {
                    Some(kind) if c % 10 != 0 => (k, Val::K(kind, v)),
                    _ => (k, other),
                }
            })
            .boxed()
    };
    let seq = prop_oneof![
        16 => 1u32..14,
        2 => any::<u32>(),
        2 => (u32::MAX - 3)..=u32::MAX,
        1 => (0u32..32, 0u32..4).prop_map(|(b, d)| (1u32 << b).wrapping_sub(2).wrapping_add(d).max(1)),
    ];
    let kvs = proptest::collection::vec(kv(), 0..if items.len() > 8 { 40 } else { 6 });
    // an intact record in which some data elements hold no key and value
    let odd = prop_oneof![
        2 => Just(vec![0x7f, 0x61, 97, 0xff, 1]),
        2 => Just(vec![1, 2, 3]),
        2 => Just(vec![0x64, 97, 98]),
        1 => Just(vec![0x62, 0xc3, 0x28, 5]),
        1 => (0u8..0x60, proptest::collection::vec(any::<u8>(), 0..12)).prop_map(|(h, mut v)| { v.insert(0, h); v }),
        1 => (0x80u8..=255, proptest::collection::vec(any::<u8>(), 0..12)).prop_map(|(h, mut v)| { v.insert(0, h); v }),
    ];
    let mixed = (seq.clone(), kvs.clone(), proptest::collection::vec((any::<u8>(), odd), 1..4)).prop_map(|(seq, kvs, odd)| {
        let mut datas: Vec<Vec<u8>> =
            kv_bytes(&kvs).iter().map(|(k, b)| refmodel::enc_data(k, b)[1..].to_vec()).collect();
        for (at, b) in odd {
            datas.insert(at as usize % (datas.len() + 1), b);
        }
        ElSpec::RecRaw { seq, datas }
    });
    let brk = prop_oneof![
        Just(Break::NoEnd),
        Just(Break::NoStart),
        seq.clone().prop_map(Break::EndSeq),
        any::<u32>().prop_map(Break::Crc),
        any::<u8>().prop_map(Break::DropData),
        any::<u8>().prop_map(Break::DupData),
        (any::<u8>(), any::<u16>()).prop_map(|(a, b)| Break::FlipData(a, b)),
        (any::<u8>(), proptest::collection::vec(any::<u8>(), 1..12)).prop_map(|(a, b)| Break::Insert(a, b)),
        (any::<u8>(), seq.clone()).prop_map(|(a, s)| Break::Insert(a, crate::refmodel::enc_start(s))),
        (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Break::SwapData(a, b)),
        any::<u8>().prop_map(Break::CutAfter),
    ];
    prop_oneof![
        10 => (seq.clone(), kvs.clone()).prop_map(|(seq, kvs)| ElSpec::Rec { seq, kvs }),
        2 => mixed,
        6 => (seq.clone(), kvs, brk).prop_map(|(seq, kvs, how)| ElSpec::Broken { seq, kvs, how }),
        1 => seq.clone().prop_map(ElSpec::Start),
        1 => kv().prop_map(|(k, v)| ElSpec::Data(k, v)),
        1 => (seq, any::<u32>()).prop_map(|(s, c)| ElSpec::End(s, c)),
        2 => proptest::collection::vec(any::<u8>(), 1..14).prop_map(ElSpec::Raw),
    ]
    .boxed()
}

fn els(name: &'static str, p: Prof, quick: u64) -> Part {
    Part {
        name,
        quick,
        thorough: quick * 30,
        strat: Box::new(move || {
            (strat::cfg_kept(p), strat::items(p))
                .prop_flat_map(move |(ck, items)| {
                    let first = prop_oneof![
                        2 => Just(vec![Op::AttachAll { l: 0 }, Op::Store { l: 0, what: What::Read, f: None }]),
                        1 => Just(vec![Op::Store { l: 0, what: What::Read, f: None }, Op::AttachAll { l: 0 }]),
                        1 => Just(vec![]),
                    ];
                    (
                        Just(ck),
                        Just(items.clone()),
                        proptest::collection::vec(elspec(items), 0..9),
                        first,
                        strat::ops(p, p.ops),
                    )
                })
                .prop_map(|((cfg, kept), items, els, mut first, ops)| {
                    first.extend(ops);
                    AnyCase::Els(Els { cfg, kept, items, els, ops: first, def: crate::vals::Def::Plain })
                })
                .boxed()
        }),
    }
}

fn distinct_items(n: (usize, usize), kind: Option<u8>) -> BoxedStrategy<Vec<(u8, u8)>> {
    let k = match kind {
        Some(k) => Just(k).boxed(),
        None => (0u8..crate::vals::NKINDS).boxed(),
    };
    (proptest::collection::vec(k, n.0..=n.1), 0u8..8)
        .prop_map(|(v, o)| {
            let n = v.len();
            v.into_iter().enumerate().map(|(i, k)| (k, nth_key(i, n, o))).collect()
        })
        .boxed()
}

fn fallback(name: &'static str, p: Prof, quick: u64) -> Part {
    Part {
        name,
        quick,
        thorough: quick * 30,
        strat: Box::new(move || {
            let n = p.items.1 as u8;
            let write = (0..n, strat::v(p.len));
            let rounds = proptest::collection::vec(
                (
                    proptest::collection::vec(write, 0..4),
                    prop_oneof![4 => Just(None), 1 => strat::fault(false).prop_map(Some)],
                ),
                1..9,
            );
            let hits = proptest::collection::vec(
                (any::<u8>(), any::<u8>(), any::<u16>()).prop_map(|(e, how, bit)| Hit { e, how, bit }),
                1..7,
            );
            (strat::cfg_kept(p), distinct_items(p.items, None), rounds, hits, strat::num())
                .prop_map(|((cfg, kept), items, rounds, hits, num)| {
                    AnyCase::Fallback(Fallback { cfg, kept, items, rounds, hits, num })
                })
                .boxed()
        }),
    }
}

fn bounded(name: &'static str, p: Prof, faulty: bool, rounds: (usize, usize), kind: Option<u8>, quick: u64) -> Part {
    Part {
        name,
        quick,
        thorough: quick * 30,
        strat: Box::new(move || {
            let n = p.items.1 as u8;
            let f: BoxedStrategy<Option<(What, crate::disk::Fault)>> = if faulty {
                let what = prop_oneof![1 => Just(What::Read), 4 => Just(What::Flush), 3 => Just(What::Gc)];
                prop_oneof![1 => Just(None), 1 => (what, strat::fault(false)).prop_map(Some)].boxed()
            } else {
                Just(None).boxed()
            };
            let round = (
                proptest::collection::vec((0..n, strat::v(p.len)), 1..4),
                f,
                any::<bool>(),
                prop_oneof![5 => Just(false), 1 => Just(true)],
            )
                .prop_map(|(writes, f, reboot, reboot_after)| Round { writes, f, reboot, reboot_after });
            (
                strat::cfg_kept(p),
                distinct_items(p.items, kind),
                proptest::collection::vec(round, rounds.0..=rounds.1),
                strat::num(),
            )
                .prop_map(move |((cfg, kept), items, rounds, num)| {
                    AnyCase::Bounded(Bounded { cfg, kept, items, len: p.len, rounds, num })
                })
                .boxed()
        }),
    }
}

#[derive(Clone, Copy)]
struct WkProf {
    slow: bool,
    yields: bool,
    faults: u32,
    stop: u32,
    nor: u32,
    n: (usize, usize),
    writes: bool,
    /// the worker is stopped and started again
    again: bool,
}

fn wk(name: &'static str, p: WkProf, quick: u64) -> Part {
    use crate::worker::{WEv, Wk};
    Part {
        name,
        quick,
        thorough: quick * 30,
        strat: Box::new(move || {
            let dt = prop_oneof![
                6 => Just(0u32),
                2 => 1u32..99,
                2 => 99u32..=101,
                3 => 102u32..1000,
                3 => 1000u32..9000,
                4 => 9890u32..10110,
                2 => 10110u32..25000,
                1 => 110_000u32..130_000,
            ];
            let it = 0u8..6;
            let again = p.again;
            let fault = (0u16..60, any::<bool>(), prop_oneof![3 => Just(0u16), 1 => 1u16..6]).prop_map(|(at, a, burst)| {
                WEv::Fault(crate::disk::Fault {
                    at,
                    kind: if a { crate::disk::FKind::ErrA } else { crate::disk::FKind::ErrB },
                    burst,
                })
            });
            let ev = {
                let mut v: Vec<(u32, BoxedStrategy<WEv>)> = vec![
                    (10, (it.clone(), strat::def(14)).prop_map(|(it, def)| WEv::Attach { it, def }).boxed()),
                    (16, (it.clone(), strat::v(14)).prop_map(|(it, v)| WEv::Write { it, v }).boxed()),
                    (2, it.clone().prop_map(|it| WEv::Detach { it }).boxed()),
                    (2, it.clone().prop_map(|it| WEv::DropHandle { it }).boxed()),
                    (1, it.clone().prop_map(|it| WEv::CancelAttach { it }).boxed()),
                ];
                if !p.writes {
                    drop(v.remove(1));
                }
                if p.faults > 0 {
                    v.push((p.faults, fault.boxed()));
                    v.push((p.faults / 2 + 1, Just(WEv::Down).boxed()));
                    v.push((p.faults / 2, Just(WEv::Worn).boxed()));
                    v.push((p.faults, Just(WEv::Up).boxed()));
                }
                if p.stop > 0 && !again {
                    v.push((p.stop, Just(WEv::Stop).boxed()));
                }
                proptest::strategy::Union::new_weighted(v)
            };
            // single events, and runs of writes or (re-)attaches that keep the worker waiting
            let single = (dt.clone(), ev.clone()).prop_map(|e| vec![e]);
            let gap = prop_oneof![3 => 0u32..9999, 2 => 9000u32..10000, 1 => Just(9999u32)];
            let writes = proptest::collection::vec((gap, (it.clone(), strat::v(14)).prop_map(|(it, v)| WEv::Write { it, v })), 3..14);
            let attaches = proptest::collection::vec((0u32..100, it.clone(), strat::def(14)), 3..10)
                .prop_map(|v| v.into_iter().flat_map(|(d, it, def)| [(d, WEv::DropHandle { it }), (0, WEv::Attach { it, def })]).collect::<Vec<_>>());
            // stop, some events, start again
            let off = (dt.clone(), proptest::collection::vec((dt.clone(), ev.clone()), 0..5), dt.clone()).prop_map(|(d, mut v, e)| {
                v.insert(0, (d, WEv::Stop));
                v.push((e, WEv::Start));
                v
            });
            let chunk = if again {
                prop_oneof![16 => single, 1 => writes, 1 => attaches, 3 => off].boxed()
            } else if p.writes { prop_oneof![14 => single, 1 => writes, 1 => attaches].boxed() } else { prop_oneof![14 => single, 1 => attaches].boxed() };
            let body = proptest::collection::vec(chunk, p.n.0..=p.n.1).prop_map(|v| v.concat());
            // usually begin with everything attached
            let head = prop_oneof![
                1 => Just(vec![]),
                2 => proptest::collection::vec((Just(0u32), strat::def(14)), 5..=5)
                    .prop_map(|v| v.into_iter().enumerate().map(|(i, (d, def))| (d, WEv::Attach { it: i as u8, def })).collect::<Vec<_>>()),
            ];
            let tail: BoxedStrategy<Vec<(u32, WEv)>> = if p.stop > 0 {
                let w = (dt.clone(), it.clone(), strat::v(14)).prop_map(|(d, it, v)| (d, WEv::Write { it, v }));
                (proptest::collection::vec(w, 1..4), prop_oneof![2 => 0u32..10000, 1 => 9990u32..10200, 1 => 0u32..3])
                    .prop_map(|(mut v, d)| { v.push((d, WEv::Stop)); v })
                    .boxed()
            } else {
                Just(vec![]).boxed()
            };
            let evs = (head, body, tail).prop_map(|(a, b, c)| [a, b, c].concat());
            let cfg = prop_oneof![8 => Just(StoreCfg::Mem), p.nor => (0..NGEO).prop_map(StoreCfg::Nor)];
            let slow: BoxedStrategy<u8> = if p.slow { prop_oneof![Just(1u8), Just(7u8), Just(40u8)].boxed() } else { Just(0u8).boxed() };
            let y: BoxedStrategy<bool> = if p.yields { any::<bool>().boxed() } else { Just(false).boxed() };
            (distinct_items((1, 5), None), 1u8..4, cfg, slow, y)
                .prop_flat_map(move |(items, kept, cfg, slow, yields)| {
                    (
                        Just((items.clone(), kept, cfg, slow, yields)),
                        proptest::collection::vec(elspec(items), 0..4),
                        evs.clone(),
                        proptest::collection::vec(any::<u8>(), 0..12),
                    )
                })
                .prop_map(|((items, kept, cfg, slow, yields), els, evs, sched)| {
                    AnyCase::Wk(Wk { cfg, kept, items, els, slow, yields, evs, sched })
                })
                .boxed()
        }),
    }
}

fn conc(
    name: &'static str,
    noop: bool,
    reset: u32,
    nor: u32,
    clients: (usize, usize),
    n: (usize, usize),
    quick: u64,
) -> Part {
    use crate::conc::{CEv, Conc, WOp};
    Part {
        name,
        quick,
        thorough: quick * 30,
        strat: Box::new(move || {
            let cev = {
                let mut v: Vec<(u32, BoxedStrategy<CEv>)> = vec![
                    (8, strat::def(14).prop_map(CEv::Attach).boxed()),
                    (2, (strat::def(14), 0u8..6).prop_map(|(d, k)| CEv::AttachCancel(d, k)).boxed()),
                    (16, strat::v(14).prop_map(CEv::Write).boxed()),
                    (2, (strat::v(14), 0u8..3).prop_map(|(v, k)| CEv::WriteCancel(v, k)).boxed()),
                    (2, Just(CEv::Load).boxed()),
                    (2, Just(CEv::DropHandle).boxed()),
                    (3, Just(CEv::Detach).boxed()),
                    (1, (0u8..4).prop_map(CEv::DetachCancel).boxed()),
                    (5, (0u8..12).prop_map(CEv::Pause).boxed()),
                ];
                if reset > 0 {
                    v.push((reset, Just(CEv::Reset).boxed()));
                }
                proptest::strategy::Union::new_weighted(v)
            };
            let script = (strat::def(14), proptest::collection::vec(cev, n.0..=n.1)).prop_map(|(d, mut v)| {
                v.insert(0, CEv::Attach(d));
                v
            });
            let wop = prop_oneof![
                4 => Just(WOp::Op(What::Flush)),
                3 => Just(WOp::Op(What::Read)),
                3 => Just(WOp::Op(What::Gc)),
                2 => (
                    prop_oneof![2 => Just(What::Flush), 1 => Just(What::Read), 1 => Just(What::Gc)],
                    prop_oneof![3 => 0u8..12, 1 => 0u8..60]
                )
                    .prop_map(|(w, k)| WOp::Cancel(w, k)),
                3 => (0u8..14).prop_map(WOp::Pause),
            ];
            let cfg = prop_oneof![8 => Just(StoreCfg::Mem), nor => (0..NGEO).prop_map(StoreCfg::Nor)];
            (distinct_items(clients, None), 1u8..4, cfg)
                .prop_flat_map(move |(items, kept, cfg)| {
                    (
                        Just((items.clone(), kept, cfg)),
                        proptest::collection::vec(elspec(items.clone()), 0..4),
                        proptest::collection::vec(script.clone(), items.len()..=items.len()),
                        proptest::collection::vec(wop.clone(), 0..10),
                        proptest::collection::vec(any::<u8>(), 0..12 * clients.1),
                    )
                })
                .prop_map(move |((items, kept, cfg), els, scripts, worker, sched)| {
                    AnyCase::Conc(Conc { cfg, kept, noop, items, els, scripts, worker, sched })
                })
                .boxed()
        }),
    }
}

fn threads(name: &'static str, miri: bool, clients: (usize, usize), n: (usize, usize), quick: u64) -> Part {
    use crate::mt::{Call, MEv, MOp, Mt};
    Part {
        name,
        quick,
        thorough: quick * 30,
        strat: Box::new(move || {
            let ev = prop_oneof![
                3 => any::<bool>().prop_map(MEv::Attach),
                1 => (1u8..12).prop_map(MEv::AttachCancel),
                6 => Just(MEv::Write),
                2 => Just(MEv::Load),
                1 => Just(MEv::Away),
                2 => Just(MEv::DropHandle),
                2 => Just(MEv::Detach),
                4 => (0u8..2, any::<bool>()).prop_map(|(n, l)| MEv::Shared(n, l)),
                2 => (0u8..2, any::<bool>()).prop_map(|(n, l)| MEv::SharedDetach(n, l)),
                2 => (0u8..4).prop_map(MEv::Yield),
            ];
            // items mostly used by several clients at once
            let hot = prop_oneof![
                6 => (0u8..2, any::<bool>()).prop_map(|(n, l)| MEv::Shared(n, l)),
                4 => (0u8..2, any::<bool>()).prop_map(|(n, l)| MEv::SharedDetach(n, l)),
                1 => (0u8..4).prop_map(MEv::Yield),
            ];
            let script = prop_oneof![
                4 => (any::<bool>(), proptest::collection::vec(ev, n.0..=n.1)).prop_map(|(d, mut v)| {
                    v.insert(0, MEv::Attach(d));
                    v
                }),
                1 => proptest::collection::vec(hot, n.0..=n.1),
            ];
            let call = prop_oneof![Just(Call::Read), Just(Call::Flush), Just(Call::Gc)];
            let op = prop_oneof![
                2 => Just(MOp::Read),
                3 => Just(MOp::Flush),
                2 => Just(MOp::Gc),
                3 => (call, 1u8..30).prop_map(|(c, n)| MOp::Cancel(c, n)),
                1 => Just(MOp::Reset),
                2 => (0u8..5).prop_map(MOp::Yield),
            ];
            (
                proptest::collection::vec(script, clients.0..=clients.1),
                proptest::collection::vec((proptest::bool::weighted(0.25), op), 0..8),
                any::<bool>(),
                proptest::bool::weighted(0.35),
                prop_oneof![3 => Just(0u8), 1 => 5u8..40],
                any::<u32>(),
            )
                .prop_map(move |(clients, worker, signals, two, faults, seed)| {
                    AnyCase::Threads(crate::thr::Threads {
                        mt: Mt { clients, worker, signals, two, faults },
                        miri: miri.then_some(seed),
                    })
                })
                .boxed()
        }),
    }
}

fn size(name: &'static str, nor: bool, quick: u64) -> Part {
    use crate::size::{Size, SizeRound};
    Part {
        name,
        quick,
        thorough: quick * 30,
        strat: Box::new(move || {
            let cfg: BoxedStrategy<StoreCfg> =
                if nor { (0..NGEO).prop_map(StoreCfg::Nor).boxed() } else { Just(StoreCfg::Mem).boxed() };
            let delta = prop_oneof![6 => -3i16..=3, 4 => -12i16..=12, 3 => Just(0i16), 2 => -100i16..100, 1 => -2000i16..2000];
            let round = (delta, any::<u8>(), proptest::option::of((0u8..5, strat::v(14))), 0u8..3, any::<bool>())
                .prop_map(|(delta, pat, other, retries, reboot)| SizeRound { delta, pat, other, retries, reboot });
            let key = prop_oneof![2 => 0u8..8, 3 => 128u8..137];
            let small = || proptest::collection::vec((0u8..crate::vals::NKINDS, 0u8..8), 0..3);
            let buf = prop_oneof![5 => Just(0i16), 1 => 1i16..80, 1 => -60i16..0, 1 => Just(4096i16)];
            (
                cfg,
                1u8..4,
                (prop_oneof![Just(crate::vals::BLOB), Just(crate::vals::TEXT)], key),
                small(),
                small(),
                buf,
                proptest::collection::vec(round, 1..7),
            )
                .prop_map(|(cfg, kept, big, first, last, buf, rounds)| {
                    AnyCase::Size(Size { cfg, kept, big, first, last, buf, rounds })
                })
                .boxed()
        }),
    }
}

fn flashq(name: &'static str, faults: bool, quick: u64) -> Part {
    use crate::queue::{FlashQ, QEl, QOp};
    Part {
        name,
        quick,
        thorough: quick * 30,
        strat: Box::new(move || {
            let el = || {
                prop_oneof![
                    3 => prop_oneof![any::<u32>(), 0u32..300, Just(u32::MAX)].prop_map(QEl::Start),
                    8 => (prop_oneof![4 => 0u16..30, 1 => 0u16..300], prop_oneof![5 => 0u16..40, 2 => any::<u16>()], any::<u8>())
                        .prop_map(|(k, v, p)| QEl::Data(k, v, p)),
                    2 => (0u16..5).prop_map(QEl::Max),
                    3 => (any::<u32>(), any::<u32>()).prop_map(|(n, c)| QEl::End(n, c)),
                ]
            };
            let f = move || -> BoxedStrategy<Option<crate::disk::Fault>> {
                if faults { prop_oneof![2 => Just(None), 1 => strat::fault(false).prop_map(Some)].boxed() } else { Just(None).boxed() }
            };
            let bytes = prop_oneof![
                3 => proptest::collection::vec(any::<u8>(), 1..20),
                2 => (0u8..4, proptest::collection::vec(any::<u8>(), 0..12)).prop_map(|(h, mut v)| { v.insert(0, h); v }),
                2 => (prop_oneof![Just(0u8), Just(2u8)], 0usize..12).prop_map(|(h, n)| { let mut v = vec![0; n]; v.insert(0, h); v }),
                // keys not encoded the shortest way
                2 => (0x78u8..0x7c, 0u8..6, proptest::collection::vec(97u8..123, 0..9)).prop_map(|(h, n, d)| {
                    let mut v = vec![1, h];
                    v.extend(std::iter::repeat_n(0, (1 << (h - 0x78)) - 1));
                    v.push(n);
                    v.extend(d);
                    v
                }),
            ];
            let op = prop_oneof![
                12 => (el(), f(), any::<bool>()).prop_map(|(e, f, by_ref)| QOp::Push { e, f, by_ref }),
                3 => bytes.prop_map(|b| QOp::Raw { b }),
                5 => (any::<u8>(), proptest::option::of(0u8..9), 0u8..40, any::<u8>(), f())
                    .prop_map(|(kill, stop, extra, fill, f)| QOp::Iter { kill, stop, extra, fill, f }),
                1 => el().prop_map(|e| QOp::Fill { e }),
                2 => (0u8..40).prop_map(QOp::Trim),
                3 => Just(QOp::Reopen),
            ];
            (0..NGEO, (0u8..3, 0u8..8, 0u8..3), proptest::collection::vec(op, 4..40))
                .prop_map(|(geo, pages, ops)| AnyCase::FlashQ(FlashQ { geo, pages, ops }))
                .boxed()
        }),
    }
}

/// Far more items than keys that were thought of, on few lists.
const MANY: Prof = Prof { nor: 0, items: (9, 40), ops: (10, 60), attach: 12, attach_all: 4, write: 20, ..BASE };

/// Payloads of data elements, sensible and not.
fn payload(items: Vec<(u8, u8)>) -> BoxedStrategy<Vec<u8>> {
    let key = (0u8..8).prop_map(|k| key_name(k).to_string());
    let pick = (0usize..8, strat::v(14)).prop_map(move |(i, v)| {
        let (k, key) = items[i % items.len()];
        (key_name(key).to_string(), crate::cases::val_bytes(&Val::K(k, v)))
    });
    let head = prop_oneof![Just(0x60u8), Just(0x78), Just(0x79), Just(0x7a), Just(0x7b), Just(0x7f), Just(0x40), Just(0x58), any::<u8>()];
    prop_oneof![
        6 => pick.clone().prop_map(|(k, v)| [refmodel::cbor_text(&k), v].concat()),
        // the key in a longer encoding
        4 => (pick.clone(), 0u8..4).prop_map(|((k, v), w)| {
            let mut b = vec![0x78 + w];
            b.extend(vec![0; (1usize << w) - 1]);
            b.push(k.len() as u8);
            [b, k.into_bytes(), v].concat()
        }),
        // wrong length, odd header
        4 => (pick.clone(), head, -3i8..4).prop_map(|((k, v), h, d)| {
            let n = (k.len() as i8 + d).max(0) as u8;
            let b = if h == 0x60 { vec![0x60 | n] } else { vec![h, n] };
            [b, k.into_bytes(), v].concat()
        }),
        // announced lengths far too large
        2 => (proptest::sample::select(vec![0x78u8, 0x79, 0x7a, 0x7b]), proptest::collection::vec(prop_oneof![Just(0xffu8), any::<u8>()], 0..14))
            .prop_map(|(h, mut v)| { v.insert(0, h); v }),
        // a value cut short, or with something behind it
        2 => (pick.clone(), 0usize..6, proptest::collection::vec(any::<u8>(), 0..3)).prop_map(|((k, v), n, t)| {
            let m = v.len().saturating_sub(n);
            [refmodel::cbor_text(&k), v[..m].to_vec(), t].concat()
        }),
        2 => (key, proptest::collection::vec(any::<u8>(), 0..12)).prop_map(|(k, v)| [refmodel::cbor_text(&k), v].concat()),
        // not text
        2 => (pick, any::<u8>()).prop_map(|((k, v), x)| {
            let mut k = k.into_bytes();
            let n = k.len();
            if n > 0 { k[x as usize % n] = 0x80 | x; }
            [vec![0x60 | n.min(23) as u8], k, v].concat()
        }),
        1 => proptest::collection::vec(any::<u8>(), 1..20),
    ]
    .boxed()
}

fn junk(name: &'static str, p: Prof, edits: (usize, usize), img: (usize, usize), quick: u64) -> Part {
    use crate::fuzz::{ElEdit, ImgEdit, JOp, Junk};
    Part {
        name,
        quick,
        thorough: quick * 30,
        strat: Box::new(move || {
            let e = || prop_oneof![2 => 0u16..12, 1 => any::<u16>()];
            let pos = || prop_oneof![3 => 0u16..10, 1 => 0u16..80];
            let bit = (0u8..8).prop_map(|b| 1 << b);
            let byte = prop_oneof![2 => any::<u8>(), 1 => Just(0u8), 1 => Just(0xffu8), 2 => 0u8..4, 1 => 0x60u8..0x80];
            let edit = prop_oneof![
                6 => (e(), pos(), byte.clone()).prop_map(|(a, b, c)| ElEdit::Set(a, b, c)),
                4 => (e(), pos(), bit.clone()).prop_map(|(a, b, c)| ElEdit::Xor(a, b, c)),
                2 => (e(), pos(), proptest::collection::vec(any::<u8>(), 1..5)).prop_map(|(a, b, c)| ElEdit::Ins(a, b, c)),
                2 => (e(), pos(), any::<u8>()).prop_map(|(a, b, c)| ElEdit::Cut(a, b, c)),
                2 => (e(), pos()).prop_map(|(a, b)| ElEdit::Trunc(a, b)),
                2 => (e(), e()).prop_map(|(a, b)| ElEdit::DupEl(a, b)),
                1 => (e(), e()).prop_map(|(a, b)| ElEdit::SwapEl(a, b)),
                1 => e().prop_map(ElEdit::DelEl),
            ];
            let at = || prop_oneof![3 => 0u32..300, 3 => 0u32..1200, 1 => any::<u32>()];
            let iedit = prop_oneof![
                4 => (at(), byte.clone()).prop_map(|(a, b)| ImgEdit::Set(a, b)),
                6 => (at(), bit).prop_map(|(a, b)| ImgEdit::Xor(a, b)),
                2 => (at(), 1u16..40, byte.clone()).prop_map(|(a, b, c)| ImgEdit::Fill(a, b, c)),
                1 => (at(), 1u16..3000, byte.clone()).prop_map(|(a, b, c)| ImgEdit::Fill(a, b, c)),
                2 => (at(), proptest::collection::vec(byte, 1..12)).prop_map(|(a, b)| ImgEdit::Bytes(a, b)),
                1 => (at(), proptest::collection::vec(any::<u8>(), 1..300)).prop_map(|(a, b)| ImgEdit::Bytes(a, b)),
                1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| ImgEdit::CopyPage(a, b)),
                1 => any::<u8>().prop_map(ImgEdit::ErasePage),
                2 => (0u8..6, any::<bool>(), prop_oneof![Just(0u8), Just(0xff), any::<u8>()]).prop_map(|(a, b, c)| ImgEdit::Marker(a, b, c)),
            ];
            let op = prop_oneof![
                5 => (0u8..6, strat::def(14)).prop_map(|(a, b)| JOp::Attach(a, b)),
                4 => Just(JOp::Read),
                3 => Just(JOp::Flush),
                3 => Just(JOp::Gc),
                3 => (0u8..6, strat::v(14)).prop_map(|(a, b)| JOp::Write(a, b)),
                1 => (0u8..6).prop_map(JOp::Drop),
                1 => (0u8..6).prop_map(JOp::Detach),
                1 => Just(JOp::Reboot),
            ];
            (strat::cfg_kept(p), strat::items(p))
                .prop_flat_map(move |(ck, items)| {
                    let seq = prop_oneof![8 => 1u32..10, 1 => any::<u32>(), 1 => (u32::MAX - 3)..=u32::MAX];
                    let raw = (seq, proptest::collection::vec(payload(items.clone()), 0..6))
                        .prop_map(|(seq, datas)| ElSpec::RecRaw { seq, datas });
                    let el = prop_oneof![2 => elspec(items.clone()), 2 => raw];
                    (
                        Just((ck, items)),
                        proptest::collection::vec(el, 0..8),
                        proptest::collection::vec(edit.clone(), edits.0..=edits.1),
                        any::<bool>(),
                        proptest::collection::vec(iedit.clone(), img.0..=img.1),
                        proptest::collection::vec(op.clone(), 0..16),
                    )
                })
                .prop_map(|(((cfg, kept), items), els, edits, fix, img, ops)| {
                    AnyCase::Junk(Junk { cfg, kept, items, els, edits, fix, img, ops })
                })
                .boxed()
        }),
    }
}

const LIB: &str = "in-memory element queue and simulated NOR flash (7 geometries, sequential-storage 7.0.0) stand for real storage; storage calls take effect atomically per element (queue) or per flash operation";
const SINGLE: &str = "single-threaded executor: tasks interleave at await points only";

pub fn spec(id: &str) -> Option<Spec> {
    let s = |level, rule, parts| Some(Spec { level, rule, assumptions: vec![LIB, SINGLE], parts });
    let _ = V { n: 0, len: 0 };
    let mem = |p: Prof| Prof { nor: 0, ..p };
    let nor = |p: Prof| Prof { mem: 0, ..p };
    match id {
        "C01" => s(
            "exploration",
            "a history counts if it has an acknowledged flush, at least two reboots and an item filled from storage",
            vec![
                hist("histories", Prof { reboot: 5, ..BASE }, 24000),
                hist("two-lists", Prof { nl: 2, reboot: 4, ..BASE }, 6000),
                hist(
                    "with-faults",
                    Prof { reboot: 5, f_read: 8, f_flush: 8, f_gc: 8, reset: 1, ..BASE },
                    12000,
                ),
                hist("long", Prof { ops: (60, 160), reboot: 8, ..BASE }, 1500),
                hist("many-items", Prof { reboot: 5, cycle: 10, f_read: 3, f_flush: 3, f_gc: 3, ..MANY }, 2500),
            ],
        ),
        "C02" => s(
            "fault_enumeration",
            "an execution counts if power was cut in the middle of the call (enumeration), or the history has a power cut, an acknowledged flush and an item filled from storage",
            vec![
                cut_enum("every-word-flush", nor(BASE), What::Flush, 400),
                cut_enum("every-word-gc", nor(BASE), What::Gc, 400),
                cut_enum("every-word-read", nor(BASE), What::Read, 400),
                cut_enum("every-element", mem(BASE), What::Flush, 1500),
                cut_enum("every-element-gc", mem(BASE), What::Gc, 1500),
                hist("histories", Prof { cut: 10, flush: 10, gc: 8, reboot: 1, ..nor(BASE) }, 8000),
                hist("histories-elements", Prof { cut: 10, flush: 10, gc: 8, reboot: 1, ..mem(BASE) }, 8000),
                hist("long", Prof { cut: 20, flush: 10, gc: 8, reboot: 1, ops: (60, 200), ..nor(BASE) }, 600),
            ],
        ),
        "C03" => s(
            "fault_enumeration",
            "an execution counts if the injected fault really fired during the flush (enumeration), or the history has a failed, cancelled or oversized flush and a later acknowledged one",
            vec![
                fault_enum("every-op", BASE, What::Flush, false, 3000),
                hist("histories", Prof { f_flush: 40, flush: 12, ..BASE }, 16000),
                hist("oversize", Prof { f_flush: 10, flush: 12, len: 120, mem: 5, nor: 1, ..BASE }, 12000),
                hist("unencodable", Prof { f_flush: 10, flush: 12, kind: Some(crate::vals::FUSSY), ..BASE }, 8000),
                hist("many-items", Prof { f_flush: 40, flush: 12, ..MANY }, 2500),
            ],
        ),
        "C04" => s(
            "fault_enumeration",
            "an execution counts if the injected fault really fired during the read or re-scan",
            vec![
                fault_enum("every-op", BASE, What::Read, false, 3000),
                fault_enum("every-op-gc", BASE, What::Gc, false, 1200),
                hist("histories", Prof { f_read: 50, f_gc: 20, read: 12, poke: 2, reset: 1, ..BASE }, 16000),
                hist("many-items", Prof { f_read: 40, read: 14, ..MANY }, 2500),
            ],
        ),
        "C05" => s(
            "exploration",
            "a case counts if the initial storage contents hold an intact record and something else (another record or other elements)",
            vec![
                els("elements", Prof { ops: (0, 10), ..BASE }, 24000),
                els("elements-faults", Prof { ops: (2, 14), f_read: 25, f_gc: 15, f_flush: 15, ..BASE }, 8000),
                hist("damage", Prof { damage: 4, ..mem(BASE) }, 6000),
                hist("huge", Prof { huge: true, ..mem(BASE) }, 24),
                els("many-items", Prof { ops: (0, 10), ..MANY }, 3000),
            ],
        ),
        "C06" => s(
            "exploration",
            "a case counts if a collection removed elements (histories) or the initial contents mix intact records with others",
            vec![
                els("elements", Prof { ops: (0, 12), gc: 12, read: 10, ..BASE }, 16000),
                hist("histories", Prof { gc: 12, flush: 10, ..BASE }, 16000),
                hist("faults", Prof { gc: 12, flush: 10, f_flush: 20, f_gc: 15, damage: 2, ..BASE }, 12000),
                hist("huge", Prof { huge: true, gc: 12, flush: 10, ops: (4, 20), ..mem(BASE) }, 24),
                els("many-items", Prof { ops: (0, 14), gc: 12, read: 10, f_gc: 10, ..MANY }, 2500),
            ],
        ),
        "C07" => s(
            "fault_enumeration",
            "an execution counts if the injected fault really fired during the collection",
            vec![
                fault_enum("every-op", BASE, What::Gc, false, 3000),
                hist("histories", Prof { f_gc: 50, gc: 12, ..BASE }, 16000),
                els("elements", Prof { ops: (1, 12), gc: 12, read: 10, f_gc: 50, ..BASE }, 8000),
                hist("many-items", Prof { f_gc: 50, gc: 12, cycle: 10, ..MANY }, 2000),
            ],
        ),
        "C08" => s(
            "exploration",
            "a case counts if at least one newest record was really destroyed and an older one had to be loaded",
            vec![
                fallback("fall-back", Prof { items: (1, 5), ..BASE }, 16000),
                hist("damage", Prof { damage: 6, ..BASE }, 12000),
            ],
        ),
        "C09" => s(
            "exploration",
            "a case counts if at least six flushes succeeded and collections removed elements, in a storage sized for N+1 records",
            vec![
                bounded("fixed-size", Prof { items: (1, 5), len: 8, ..mem(BASE) }, false, (8, 30), Some(1), 4000),
                bounded("any-size", Prof { items: (1, 6), len: 14, ..mem(BASE) }, false, (8, 30), None, 3000),
                bounded("faults", Prof { items: (1, 5), len: 8, ..mem(BASE) }, true, (8, 40), Some(1), 4000),
                bounded("flash", Prof { items: (1, 5), len: 10, ..nor(BASE) }, false, (30, 90), None, 800),
                bounded("flash-faults", Prof { items: (1, 5), len: 10, ..nor(BASE) }, true, (30, 90), None, 800),
            ],
        ),
        "C32" => s(
            "exploration",
            "a case counts if every page was erased at least once",
            vec![
                bounded("small", Prof { items: (1, 5), len: 10, ..nor(BASE) }, false, (30, 90), None, 4000),
                bounded("long", Prof { items: (1, 3), len: 10, ..nor(BASE) }, false, (90, 300), None, 1200),
            ],
        ),
        "C10" => s(
            "exploration",
            "a history counts if a flush or collection with nothing to do was observed",
            vec![
                hist("histories", Prof { flush: 16, gc: 10, read: 8, write: 8, ..BASE }, 20000),
                hist("huge", Prof { huge: true, flush: 16, gc: 10, ops: (4, 20), ..mem(BASE) }, 24),
                hist("refusals", Prof { flush: 16, gc: 10, read: 4, reset: 3, nl: 2, f_flush: 5, ..BASE }, 10000),
                els("elements", Prof { ops: (1, 12), flush: 12, ..BASE }, 8000),
                hist("many-items", Prof { flush: 16, gc: 10, write: 10, ..MANY }, 2000),
            ],
        ),
        "C11" => s(
            "fault_enumeration",
            "an execution counts if the silent corruption was really applied to a write of the record being flushed",
            vec![
                fault_enum("every-op", BASE, What::Flush, true, 8000),
                hist("histories", Prof { f_flush: 50, flush: 12, corr: true, ..BASE }, 16000),
                hist("unencodable", Prof { f_flush: 10, flush: 12, corr: true, kind: Some(crate::vals::FUSSY), ..BASE }, 4000),
                hist("many-items", Prof { f_flush: 50, flush: 12, corr: true, ..MANY }, 2500),
            ],
        ),
        "C12" => s(
            "exploration",
            "a history counts if it has a refused attach or detach and a re-attach or a successful detach",
            vec![
                hist(
                    "protocol",
                    Prof { nl: 3, attach: 16, detach: 10, drop: 10, cancel: 5, attach_all: 1, ..BASE },
                    24000,
                ),
                hist(
                    "faults",
                    Prof {
                        nl: 2,
                        attach: 16,
                        detach: 10,
                        drop: 10,
                        cancel: 5,
                        f_read: 20,
                        f_flush: 10,
                        poke: 1,
                        reset: 1,
                        ..BASE
                    },
                    10000,
                ),
                hist("many-items", Prof { nl: 2, attach: 30, detach: 16, drop: 16, cancel: 5, f_read: 5, ..MANY }, 3000),
            ],
        ),
        "C13" => s(
            "exploration",
            "a history counts if an attach had to wait, and a read failed or several attaches completed",
            vec![
                hist(
                    "histories",
                    Prof {
                        attach: 14,
                        read: 10,
                        f_read: 30,
                        reboot: 6,
                        detach: 6,
                        drop: 6,
                        cancel: 3,
                        items: (1, 8),
                        poke: 1,
                        ..BASE
                    },
                    20000,
                ),
                hist("two-lists", Prof { nl: 2, attach: 14, read: 10, f_read: 20, f_gc: 15, reboot: 6, items: (1, 8), ..BASE }, 8000),
                fault_enum("every-op", Prof { items: (2, 6), ..BASE }, What::Read, false, 600),
                hist("many-items", Prof { attach: 30, read: 10, f_read: 25, reboot: 5, detach: 6, drop: 6, cancel: 5, ..MANY }, 3000),
            ],
        ),
        "C14" => s(
            "exploration",
            "a history counts if it has at least two writes",
            vec![
                hist(
                    "histories",
                    Prof {
                        write: 24,
                        f_read: 15,
                        f_flush: 15,
                        f_gc: 15,
                        reset: 2,
                        swap: 1,
                        poke: 1,
                        detach: 4,
                        drop: 4,
                        ..BASE
                    },
                    20000,
                ),
                hist("two-lists", Prof { nl: 2, write: 24, f_read: 10, f_flush: 10, f_gc: 10, detach: 6, drop: 6, attach: 10, ..BASE }, 8000),
                hist("many-items", Prof { write: 30, attach: 20, detach: 8, drop: 8, f_read: 10, f_flush: 10, f_gc: 10, ..MANY }, 2500),
            ],
        ),
        "C15" => s(
            "exploration",
            "a history counts if an item was detached and values were written (values register their construction and destruction)",
            vec![
                hist(
                    "histories",
                    Prof {
                        kind: Some(4),
                        write: 20,
                        detach: 8,
                        drop: 8,
                        cancel: 3,
                        f_read: 20,
                        f_flush: 15,
                        f_gc: 15,
                        poke: 1,
                        reset: 1,
                        ..BASE
                    },
                    20000,
                ),
                hist("decode-failures", Prof { kind: Some(4), rot: 50, reboot: 10, detach: 8, drop: 8, f_read: 20, ..BASE }, 12000),
                els("elements", Prof { kind: Some(4), ops: (2, 14), detach: 8, drop: 8, f_read: 30, ..BASE }, 8000),
                hist("many-items", Prof { kind: Some(4), write: 30, attach: 20, detach: 8, drop: 8, f_read: 15, f_flush: 10, ..MANY }, 2000),
            ],
        ),
        "C16" => s(
            "exploration",
            "a round counts if it writes a value whose element is within 8 bytes of the size limit",
            vec![
                size("elements", false, 12000),
                size("flash", true, 6000),
                hist("histories", Prof { len: 120, flush: 12, f_flush: 5, ..mem(BASE) }, 8000),
                hist("unencodable", Prof { flush: 12, kind: Some(crate::vals::FUSSY), ..BASE }, 6000),
            ],
        ),
        "C17" => s(
            "exploration",
            "a history counts if stored data was read as another (or the same) version of its type, and an item was filled from storage after at least two boots",
            vec![
                hist("versions", Prof { schema: true, items: (2, 6), rot: 70, reboot: 8, ..BASE }, 24000),
                hist(
                    "versions-in-session",
                    Prof { schema: true, items: (3, 7), attach: 16, attach_all: 1, detach: 10, drop: 10, read: 8, cycle: 10, rot: 30, reboot: 3, ..BASE },
                    12000,
                ),
                hist(
                    "faults",
                    Prof { schema: true, items: (2, 6), rot: 50, reboot: 8, detach: 5, drop: 5, f_read: 15, f_flush: 10, f_gc: 10, cut: 2, ..BASE },
                    8000,
                ),
                hist("any-types", Prof { rot: 60, reboot: 8, ..BASE }, 8000),
                hist("many-items", Prof { schema: true, rot: 70, reboot: 8, ..MANY }, 2500),
            ],
        ),
        "C18" => s(
            "exploration",
            "a history counts if an element was invalidated and remaining ones were read after re-opening",
            vec![flashq("queue", false, 12000), flashq("faults", true, 6000)],
        ),
        "C19" => s(
            "exploration",
            "a case counts if stored bytes were damaged, a read still succeeded, and the recovery that must follow was checked",
            vec![
                junk("elements", Prof { items: (1, 5), ..mem(BASE) }, (0, 10), (0, 0), 16000),
                junk("flash-elements", Prof { items: (1, 5), ..nor(BASE) }, (0, 6), (0, 0), 4000),
                junk("images", Prof { items: (1, 5), ..nor(BASE) }, (0, 1), (1, 8), 8000),
                junk("images-heavy", Prof { items: (1, 5), ..nor(BASE) }, (0, 1), (10, 80), 4000),
            ],
        ),
        "C20" => s(
            "exploration",
            "an execution counts if at least two attaches completed and a change was seen persisted after its quiet period",
            vec![
                wk("exact", WkProf { slow: false, yields: true, faults: 0, stop: 0, nor: 1, n: (4, 30), writes: true, again: false }, 16000),
                wk("slow-storage", WkProf { slow: true, yields: true, faults: 0, stop: 0, nor: 1, n: (4, 30), writes: true, again: false }, 6000),
                wk("restarts", WkProf { slow: false, yields: true, faults: 0, stop: 0, nor: 1, n: (3, 20), writes: true, again: true }, 8000),
                wk("restarts-slow", WkProf { slow: true, yields: true, faults: 0, stop: 0, nor: 1, n: (3, 20), writes: true, again: true }, 3000),
            ],
        ),
        "C21" => s(
            "exploration",
            "an execution counts if a written value was not stored yet when the worker was told to stop, and was checked afterwards",
            vec![
                wk("exact", WkProf { slow: false, yields: true, faults: 0, stop: 1, nor: 1, n: (0, 12), writes: true, again: false }, 12000),
                wk("slow-storage", WkProf { slow: true, yields: true, faults: 0, stop: 1, nor: 1, n: (0, 12), writes: true, again: false }, 12000),
                wk("faults", WkProf { slow: true, yields: true, faults: 4, stop: 1, nor: 1, n: (2, 12), writes: true, again: false }, 8000),
                wk("restarts", WkProf { slow: false, yields: true, faults: 0, stop: 1, nor: 1, n: (3, 20), writes: true, again: true }, 8000),
                wk("restarts-slow", WkProf { slow: true, yields: true, faults: 0, stop: 1, nor: 1, n: (3, 20), writes: true, again: true }, 4000),
                wk("restarts-faults", WkProf { slow: true, yields: true, faults: 4, stop: 1, nor: 1, n: (3, 20), writes: true, again: true }, 4000),
            ],
        ),
        "C22" => s(
            "exploration",
            "an execution counts if storage errors occurred and a later change was seen persisted after its quiet period",
            vec![
                wk("exact", WkProf { slow: false, yields: true, faults: 4, stop: 0, nor: 1, n: (4, 30), writes: true, again: false }, 16000),
                wk("slow-storage", WkProf { slow: true, yields: true, faults: 4, stop: 0, nor: 1, n: (4, 30), writes: true, again: false }, 8000),
                wk("restarts", WkProf { slow: true, yields: true, faults: 4, stop: 0, nor: 1, n: (3, 20), writes: true, again: true }, 6000),
            ],
        ),
        "C23" => s(
            "exploration",
            "an execution counts if some value came into effect (write or attach) while a flush was running",
            vec![
                conc("memory", false, 0, 0, (1, 5), (2, 14), 24000),
                conc("resets", false, 1, 0, (1, 5), (2, 14), 6000),
                conc("flash", false, 0, 60, (1, 5), (2, 8), 4000),
                conc("long", false, 0, 1, (1, 5), (20, 60), 1500),
                conc("many-clients", false, 0, 0, (6, 16), (2, 10), 3000),
            ],
        ),
        "C28" => s(
            "exploration",
            "an execution counts if at least two attaches completed and a value was written",
            vec![conc("clients", true, 0, 1, (1, 5), (2, 16), 30000), conc("long", true, 0, 1, (1, 5), (20, 80), 3000), conc("many-clients", true, 0, 0, (6, 24), (2, 12), 4000)],
        ),
        "C30" => s(
            "exploration",
            "an execution counts if a delayed collection or a flush was due while the storage held leftovers from before the start",
            vec![
                wk("reads-only", WkProf { slow: false, yields: true, faults: 0, stop: 0, nor: 1, n: (0, 10), writes: false, again: false }, 12000),
                wk("reads-only-slow", WkProf { slow: true, yields: true, faults: 0, stop: 0, nor: 1, n: (0, 10), writes: false, again: false }, 4000),
                wk("reads-only-faults", WkProf { slow: true, yields: true, faults: 4, stop: 0, nor: 1, n: (2, 14), writes: false, again: false }, 12000),
                wk("writes", WkProf { slow: true, yields: true, faults: 0, stop: 0, nor: 1, n: (0, 14), writes: true, again: false }, 4000),
                wk("writes-faults", WkProf { slow: true, yields: true, faults: 4, stop: 0, nor: 1, n: (2, 20), writes: true, again: false }, 4000),
                wk("restarts", WkProf { slow: false, yields: true, faults: 0, stop: 0, nor: 1, n: (3, 20), writes: true, again: true }, 6000),
                wk("restarts-reads", WkProf { slow: false, yields: true, faults: 0, stop: 0, nor: 1, n: (3, 20), writes: false, again: true }, 4000),
            ],
        ),
        "C31" => s(
            "exploration",
            "an execution counts if the worker served a read request and a flush or the start-up collection (or met a fault), and then was idle",
            vec![
                wk("exact", WkProf { slow: false, yields: true, faults: 0, stop: 0, nor: 1, n: (1, 30), writes: true, again: false }, 16000),
                wk("reads-only", WkProf { slow: false, yields: true, faults: 0, stop: 0, nor: 1, n: (1, 12), writes: false, again: false }, 6000),
                wk("faults", WkProf { slow: true, yields: true, faults: 4, stop: 0, nor: 1, n: (2, 20), writes: true, again: false }, 8000),
                wk("restarts", WkProf { slow: false, yields: true, faults: 0, stop: 0, nor: 1, n: (3, 20), writes: true, again: true }, 8000),
            ],
        ),
        "C29" => s(
            "exploration",
            "a script counts if some write overlapped a flush, or several clients contended for an item",
            vec![
                threads("sanitizer", false, (1, 4), (1, 24), 1600),
                threads("sanitizer-many", false, (4, 6), (4, 40), 240),
                threads("miri", true, (1, 3), (0, 5), 160),
            ],
        ),
        "C24" => s(
            "exploration",
            "a history counts if a waiting task was notified, or a wait found an earlier request",
            vec![
                hist("histories", Prof { nl: 2, waits: 24, attach: 12, detach: 5, drop: 5, f_read: 10, f_flush: 10, ..BASE }, 20000),
                hist("one-list", Prof { waits: 16, attach: 12, detach: 5, drop: 5, reset: 1, cancel: 3, ..BASE }, 8000),
                hist("many-items", Prof { nl: 2, waits: 24, attach: 20, detach: 6, drop: 6, f_read: 10, ..MANY }, 2000),
            ],
        ),
        "C25" => s(
            "exploration",
            "a history counts if a flush was refused",
            vec![
                hist("histories", Prof { flush: 20, gc: 6, read: 6, attach: 10, detach: 4, drop: 4, reset: 3, cycle: 2, ..BASE }, 20000),
                hist("two-lists", Prof { nl: 2, flush: 20, gc: 6, read: 6, attach: 10, detach: 4, drop: 4, reset: 2, reboot: 6, f_read: 10, f_flush: 10, f_gc: 10, ..BASE }, 10000),
                els("elements", Prof { ops: (1, 12), flush: 16, ..BASE }, 8000),
                hist(
                    "failed-reads",
                    Prof { flush: 16, gc: 10, read: 12, f_read: 50, attach: 10, cancel: 4, drop: 4, detach: 3, reboot: 6, cycle: 2, ..BASE },
                    10000,
                ),
                fault_enum("every-op", Prof { items: (2, 5), ..BASE }, What::Read, false, 2500),
                hist("many-items", Prof { flush: 20, gc: 6, read: 6, attach: 20, detach: 4, drop: 4, reset: 2, f_read: 15, ..MANY }, 2500),
            ],
        ),
        "C26" => s(
            "exploration",
            "a history counts if the storage was replaced or the cache was reset",
            vec![
                hist("swap", Prof { swap: 5, reset: 3, ..BASE }, 16000),
                hist("faults", Prof { swap: 5, reset: 3, f_read: 10, f_flush: 10, f_gc: 10, nl: 2, ..BASE }, 10000),
                hist("many-items", Prof { swap: 5, reset: 3, ..MANY }, 2000),
            ],
        ),
        "C27" => s(
            "exploration",
            "a history counts if a flush and a collection succeeded, and their reports were compared with the observed traffic",
            vec![
                hist("histories", Prof { flush: 10, gc: 8, read: 8, ..BASE }, 16000),
                els("elements", Prof { ops: (2, 12), ..BASE }, 8000),
                hist("reboots", Prof { reboot: 10, read: 10, reset: 3, damage: 2, ..BASE }, 8000),
                hist("many-items", Prof { flush: 10, gc: 8, read: 8, damage: 2, ..MANY }, 2000),
            ],
        ),
        "C33" => s(
            "exploration",
            "a history counts if at least two reads and a flush or collection passed over stored elements, their operations being counted",
            vec![
                hist("histories", Prof { flush: 10, gc: 8, read: 10, f_read: 6, f_gc: 6, f_flush: 6, ..BASE }, 12000),
                hist("flash", Prof { nor: 100, flush: 10, gc: 6, read: 10, attach: 10, ..BASE }, 2000),
                els("elements", Prof { ops: (2, 12), read: 10, ..BASE }, 8000),
                hist("late-attaches", Prof { attach: 12, read: 14, detach: 5, drop: 4, cancel: 4, cycle: 2, reset: 2, ..BASE }, 8000),
                hist("many-items", Prof { flush: 10, gc: 8, read: 10, reboot: 8, damage: 2, ..MANY }, 2500),
            ],
        ),
        _ => None,
    }
}
