//! Runs the parts of a check: sharded generation, shrinking, evidence, replay files.
use crate::cases::{AnyCase, Outcome};
use crate::checks::{self, Part};
use crate::disk::BudgetExceeded;
use crate::engine::Fail;
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Violation {
    pub part: String,
    pub shard: usize,
    pub msg: String,
    pub case: AnyCase,
}

#[derive(Serialize, Deserialize, Default, Debug)]
pub struct ShardRes {
    pub cases: u64,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub hashes: Vec<u64>,
    pub labels: BTreeMap<String, u64>,
    pub foreign: u64,
    pub foreign_msg: Option<String>,
    pub samples: Vec<serde_json::Value>,
    pub violation: Option<Violation>,
    pub done: bool,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let p = i.payload();
        let msg = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else if p.is::<BudgetExceeded>() {
            "ran far beyond any sensible number of steps (endless loop)".to_string()
        } else {
            "panic".to_string()
        };
        LAST_PANIC.with(|l| *l.borrow_mut() = Some((loc, msg)));
    }));
}

pub enum Verdict {
    Pass(Outcome),
    /// violates the property under check
    Fail(String),
    /// some other property's oracle failed
    Foreign(String),
    /// the harness itself is broken
    Harness(String),
}

fn is_harness(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/harness/") || loc.contains("proptest") || loc.contains("serde")
}

/// Execute one case and judge it for property `id`.
pub fn judge(id: &str, c: &AnyCase) -> Verdict {
    LAST_PANIC.with(|l| *l.borrow_mut() = None);
    crate::engine::set_checked(Some(id));
    match catch_unwind(AssertUnwindSafe(|| c.exec(id))) {
        Ok(o) => match &o.res {
            Ok(()) => match crate::engine::passed_over() {
                Some(m) => Verdict::Foreign(m),
                None => Verdict::Pass(o),
            },
            Err(Fail { tags, msg }) => {
                let known = tags.iter().find_map(|t| t.strip_prefix("KNOWN:"));
                if let Some(k) = known.filter(|k| !known_findings().iter().any(|f| f.tag == *k)) {
                    Verdict::Fail(format!("[{k}] {msg}"))
                } else if tags.iter().any(|t| *t == id || *t == "*") {
                    Verdict::Fail(msg.clone())
                } else {
                    Verdict::Foreign(format!("[{}] {msg}", tags.join(",")))
                }
            }
        },
        Err(p) => {
            let (loc, msg) = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
            if p.is::<BudgetExceeded>() {
                Verdict::Fail(msg)
            } else if let (true, Some(m)) = (is_harness(&loc), crate::engine::passed_over()) {
                // (the model was left behind by another property's failure)
                Verdict::Foreign(m)
            } else if is_harness(&loc) {
                Verdict::Harness(format!("{msg} at {loc}"))
            } else {
                Verdict::Fail(format!("panic: {msg} (at {loc})"))
            }
        }
    }
}

fn seed_bytes(seed: u64, id: &str, part: &str, shard: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (i, ch) in out.chunks_mut(8).enumerate() {
        // FNV-1a over all inputs: stable across toolchains
        let mut h: u64 = 0xcbf29ce484222325 ^ (i as u64).wrapping_mul(0x9e3779b97f4a7c15);
        let mut eat = |b: u8| {
            h ^= b as u64;
            h = h.wrapping_mul(0x100000001b3);
        };
        seed.to_le_bytes().iter().for_each(|b| eat(*b));
        id.bytes().chain([0xff]).chain(part.bytes()).chain([0xff]).for_each(&mut eat);
        (shard as u64).to_le_bytes().iter().for_each(|b| eat(*b));
        ch.copy_from_slice(&h.to_le_bytes());
    }
    out
}

fn runner(seed: u64, id: &str, part: &str, shard: usize) -> TestRunner {
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, id, part, shard));
    TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, rng)
}

/// What a quick run may take if the machine is slow (they normally end long before).
pub const BUDGET: Duration = Duration::from_secs(420);
/// The parts' quick numbers are in proportion to each other; this brings each check to some ten seconds on 8 cores.
fn quick_factor(id: &str) -> u64 {
    match id {
        "C03" | "C04" | "C07" | "C29" => 1,
        "C11" | "C25" => 2,
        "C02" | "C09" | "C13" => 4,
        _ => 6,
    }
}
pub const SHRINK_EVALS: u32 = 3000;
pub const SHRINK_SECS: u64 = 25;

fn hash_case(c: &AnyCase) -> u64 {
    let mut h = DefaultHasher::new();
    serde_json::to_string(c).unwrap().hash(&mut h);
    h.finish()
}

fn log_case(c: &AnyCase) {
    if let Ok(p) = std::env::var("NDL_LOG_CASE") {
        std::fs::write(p, serde_json::to_string(c).unwrap()).unwrap();
    }
}

/// One part, one shard.
fn run_part(id: &str, part: &Part, n: u64, seed: u64, shard: usize, until: Option<Instant>, res: &mut ShardRes, seen: &mut HashSet<u64>) {
    let mut r = runner(seed, id, part.name, shard);
    let strat = (part.strat)();
    for k in 0..n {
        if k > 0 && until.is_some_and(|u| Instant::now() > u) {
            *res.labels.entry("cases_left_out_for_lack_of_time".into()).or_insert(0) += n - k;
            break;
        }
        let mut tree = strat.new_tree(&mut r).expect("generator");
        let c = tree.current();
        log_case(&c);
        res.cases += 1;
        match judge(id, &c) {
            Verdict::Pass(o) => {
                res.evaluations += o.evals;
                for (k, v) in &o.labels.m {
                    *res.labels.entry(k.to_string()).or_insert(0) += v;
                }
                if o.nontrivial > 0 {
                    let h = hash_case(&c);
                    if seen.insert(h) {
                        res.nontrivial += o.nontrivial;
                        res.hashes.push(h);
                        if res.samples.len() < 2 && o.nontrivial > 0 {
                            res.samples.push(serde_json::json!({"part": part.name, "case": c}));
                        }
                    }
                }
            }
            Verdict::Foreign(m) => {
                res.evaluations += 1;
                res.foreign += 1;
                res.foreign_msg
                    .get_or_insert_with(|| format!("{m} | {}", serde_json::to_string(&c).unwrap_or_default()));
            }
            Verdict::Harness(m) => {
                eprintln!("HARNESS ERROR in {id}/{}: {m}\ncase: {}", part.name, serde_json::to_string(&c).unwrap());
                std::process::exit(2);
            }
            Verdict::Fail(m) => {
                res.evaluations += 1;
                let (c, m) = shrink(id, &mut tree, c, m);
                res.violation = Some(Violation { part: part.name.into(), shard, msg: m, case: c });
                return;
            }
        }
    }
}

fn shrink(id: &str, tree: &mut Box<dyn ValueTree<Value = AnyCase>>, c: AnyCase, m: String) -> (AnyCase, String) {
    let t0 = Instant::now();
    let mut best = (c, m);
    let mut evals = 0;
    let mut failing = true;
    loop {
        if evals >= SHRINK_EVALS || t0.elapsed() > Duration::from_secs(SHRINK_SECS) {
            break;
        }
        let moved = if failing { tree.simplify() } else { tree.complicate() };
        if !moved {
            break;
        }
        let c = tree.current();
        log_case(&c);
        evals += 1;
        match judge(id, &c) {
            Verdict::Fail(m) => {
                failing = true;
                best = (c, m);
            }
            _ => failing = false,
        }
    }
    best
}

pub fn shard_main(id: &str, tier: Tier, seed: u64, shard: usize, nshards: usize, out: &str) {
    let spec = checks::spec(id).expect("unknown check");
    let mut res = ShardRes::default();
    let mut seen = HashSet::new();
    let scale: f64 = std::env::var("NDL_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    for part in &spec.parts {
        if let Ok(f) = std::env::var("NDL_PART") {
            if f != part.name {
                continue;
            }
        }
        let total = if tier == Tier::Quick { part.quick * quick_factor(id) } else { part.thorough };
        let total = ((total as f64) * scale).ceil() as u64;
        let n = total / nshards as u64 + u64::from((shard as u64) < total % nshards as u64);
        let t0 = Instant::now();
        // (a share for each part, should the machine be slow)
        run_part(id, part, n, seed, shard, (tier == Tier::Quick).then(|| t0 + BUDGET / spec.parts.len() as u32), &mut res, &mut seen);
        if std::env::var("NDL_TIMES").is_ok() && shard == 0 {
            eprintln!("part {}: {} cases in {:?}", part.name, n, t0.elapsed());
        }
        if res.violation.is_some() {
            break;
        }
    }
    res.done = true;
    std::fs::write(out, serde_json::to_vec(&res).unwrap()).unwrap();
}

/// A recorded, unrepaired defect: one line `finding: property=ID tag=TAG case=FILE what fails`
/// of known_findings.txt.
struct Known {
    id: String,
    tag: String,
    case: std::path::PathBuf,
    what: String,
}

fn known_findings() -> Vec<Known> {
    let text = std::fs::read_to_string("known_findings.txt").unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let mut w = l.strip_prefix("finding: property=")?.splitn(4, ' ');
            Some(Known {
                id: w.next()?.into(),
                tag: w.next()?.strip_prefix("tag=")?.into(),
                case: w.next()?.strip_prefix("case=")?.into(),
                what: w.next()?.into(),
            })
        })
        .collect()
}

pub fn run_main(id: &str, tier: Tier, seed: u64, dir: &str) -> i32 {
    let t0 = Instant::now();
    let Some(spec) = checks::spec(id) else {
        eprintln!("unknown check {id}");
        return 2;
    };
    let nshards = 8usize;
    let exe = std::env::current_exe().unwrap();
    // counterexamples found earlier must stay fixed
    let mut regress = 0u64;
    let mut regress_viol: Option<String> = None;
    let mut rf: Vec<_> = std::fs::read_dir("regress").into_iter().flatten().flatten().map(|e| e.path()).collect();
    rf.sort();
    for p in rf {
        let name = p.file_name().unwrap().to_string_lossy().to_string();
        if !name.starts_with(&format!("{id}-")) {
            continue;
        }
        regress += 1;
        let out = Command::new(&exe).args(["replay".as_ref(), p.as_os_str()]).output().expect("replay");
        match out.status.code() {
            Some(0) => {}
            Some(2) => {
                eprintln!("{id}: {name}: {}", String::from_utf8_lossy(&out.stdout));
                return 2;
            }
            _ => {
                print!("{}", String::from_utf8_lossy(&out.stdout).lines().filter(|l| !l.starts_with("VIOLATION")).map(|l| format!("{l}\n")).collect::<String>());
                regress_viol.get_or_insert(format!("regress/{name}"));
            }
        }
    }
    // recorded defects of the unchanged code: reported, not raised
    for k in known_findings().iter().filter(|k| k.id == id) {
        let out = Command::new(&exe).args(["replay".as_ref(), k.case.as_os_str()]).output().expect("replay");
        let text = String::from_utf8_lossy(&out.stdout);
        match out.status.code() {
            Some(0) if text.contains(&format!("[KNOWN:{}]", k.tag)) => {
                println!("KNOWN-FINDING: property={id} {} (replay={})", k.what, k.case.display())
            }
            Some(0) => println!("{id}: recorded finding {} does not show on this tree", k.tag),
            Some(1) => {
                print!("{}", text.lines().filter(|l| !l.starts_with("VIOLATION")).map(|l| format!("{l}\n")).collect::<String>());
                regress_viol.get_or_insert(k.case.display().to_string());
            }
            _ => {
                eprintln!("{id}: {}: {text}", k.case.display());
                return 2;
            }
        }
    }
    let tmp = std::env::temp_dir().join(format!("ndlcheck-{id}-{}", std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let limit = Duration::from_secs(if tier == Tier::Quick { 700 } else { 3 * 3600 });
    let spawn = |i: usize, log: Option<&std::path::Path>| {
        let mut c = Command::new(&exe);
        c.args(["shard", id, if tier == Tier::Quick { "quick" } else { "thorough" }, &seed.to_string(), &i.to_string(), &nshards.to_string()])
            .arg(tmp.join(format!("{i}.json")))
            .stdin(Stdio::null());
        if let Some(l) = log {
            c.env("NDL_LOG_CASE", l);
        }
        c.spawn().expect("spawn shard")
    };
    let wait = |ch: &mut std::process::Child, until: Instant| -> Option<std::process::ExitStatus> {
        loop {
            if let Some(s) = ch.try_wait().unwrap() {
                return Some(s);
            }
            if Instant::now() > until {
                let _ = ch.kill();
                let _ = ch.wait();
                return None;
            }
            std::thread::sleep(Duration::from_millis(10));
        }
    };
    let mut children: Vec<_> = (0..nshards).map(|i| spawn(i, None)).collect();
    let mut all: Vec<ShardRes> = vec![];
    let mut err = None;
    for (i, ch) in children.iter_mut().enumerate() {
        let st = wait(ch, t0 + limit);
        match st {
            None => err = Some(format!("shard {i} exceeded its time limit (no verdict)")),
            Some(s) if s.success() => {
                let b = std::fs::read(tmp.join(format!("{i}.json"))).unwrap();
                all.push(serde_json::from_slice(&b).unwrap());
            }
            Some(s) => {
                use std::os::unix::process::ExitStatusExt;
                if let Some(sig) = s.signal() {
                    // the process died: find the case that kills it
                    let log = tmp.join(format!("{i}.case"));
                    let mut c2 = spawn(i, Some(&log));
                    let s2 = wait(&mut c2, t0 + limit);
                    let again = s2.and_then(|s| s.signal());
                    if let (Some(sig2), Ok(b)) = (again, std::fs::read(&log)) {
                        if [4, 6, 7, 8, 11].contains(&sig2) {
                            let case: AnyCase = serde_json::from_slice(&b).unwrap();
                            all.push(ShardRes {
                                violation: Some(Violation {
                                    part: "crash".into(),
                                    shard: i,
                                    msg: format!("the process was killed by signal {sig2} (memory corruption or abort) while executing this case"),
                                    case,
                                }),
                                ..Default::default()
                            });
                            continue;
                        }
                    }
                    err = Some(format!("shard {i} died from signal {sig} and this did not reproduce"));
                } else {
                    err = Some(format!("shard {i} ended with {s}"));
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes = HashSet::new();
    let (mut cases, mut evals, mut nontriv, mut foreign) = (0, 0, 0, 0);
    let mut samples = vec![];
    let mut foreign_msg = None;
    let mut violation: Option<Violation> = None;
    for r in &all {
        cases += r.cases;
        evals += r.evaluations;
        foreign += r.foreign;
        // the same case may be generated by two shards: weight per case is kept once
        let dup = r.hashes.iter().filter(|h| !hashes.insert(**h)).count() as u64;
        let avg = if r.hashes.is_empty() { 0 } else { r.nontrivial / r.hashes.len() as u64 };
        nontriv += r.nontrivial.saturating_sub(dup * avg);
        for (k, v) in &r.labels {
            *labels.entry(k.clone()).or_insert(0) += v;
        }
        if samples.len() < 4 {
            samples.extend(r.samples.iter().cloned());
        }
        if foreign_msg.is_none() {
            foreign_msg = r.foreign_msg.clone();
        }
        if violation.is_none() {
            violation = r.violation.clone();
        }
    }
    samples.truncate(4);
    let wall = t0.elapsed().as_secs_f64();
    let mut viol = 0;
    let mut code = 0;
    if let Some(v) = &violation {
        viol = 1;
        let rdir = format!("{dir}/evidence/replay");
        std::fs::create_dir_all(&rdir).unwrap();
        let path = format!("{rdir}/{id}.json");
        std::fs::write(
            &path,
            serde_json::to_string_pretty(&serde_json::json!({
                "property": id, "part": v.part, "message": v.msg, "case": v.case, "seed": seed,
            }))
            .unwrap(),
        )
        .unwrap();
        println!("{id}: {}", v.msg);
        println!("VIOLATION property={id} replay={path}");
        code = 1;
    } else if let Some(p) = &regress_viol {
        viol = 1;
        println!("VIOLATION property={id} replay={p}");
        code = 1;
    } else if let Some(e) = &err {
        eprintln!("{id}: error: {e}");
        code = 2;
    }
    if code == 0 && err.is_none() && nontriv == 0 {
        eprintln!("{id}: error: no non-trivial case was generated");
        code = 2;
    }
    if evals > 0 && samples.is_empty() && violation.is_some() {
        samples.push(serde_json::json!({"part": violation.as_ref().unwrap().part, "case": violation.as_ref().unwrap().case}));
    }
    let ev = serde_json::json!({
        "property": id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": spec.level,
        "coverage": {
            "evaluations": evals,
            "generated_cases": cases,
            "distinct_nontrivial": nontriv,
            "rule": spec.rule,
            "samples": samples,
            "labels": labels,
            "regression_replays": regress,
            "other_property_failures": foreign,
            "other_property_failure_example": foreign_msg,
        },
        "assumptions": spec.assumptions,
        "wall_s": wall,
        "violations": viol,
    });
    std::fs::create_dir_all(format!("{dir}/evidence")).unwrap();
    let mut f = std::fs::File::create(format!("{dir}/evidence/{id}.json")).unwrap();
    f.write_all(serde_json::to_string_pretty(&ev).unwrap().as_bytes()).unwrap();
    f.write_all(b"\n").unwrap();
    println!(
        "{id}: {cases} cases, {evals} executions, {nontriv} distinct non-trivial, {foreign} stopped by other properties' oracles, {wall:.1}s"
    );
    code
}

pub fn replay_main(path: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_slice(&std::fs::read(path).unwrap()).unwrap();
    let id = v["property"].as_str().unwrap().to_string();
    let Ok(c) = serde_json::from_value::<AnyCase>(v["case"].clone()) else {
        println!("{path}: not a case of this harness version");
        return 2;
    };
    match judge(&id, &c) {
        Verdict::Pass(_) => {
            println!("{id}: replayed case passes");
            0
        }
        Verdict::Fail(m) => {
            println!("{id}: {m}");
            println!("VIOLATION property={id} replay={path}");
            1
        }
        Verdict::Foreign(m) => {
            println!("{id}: another property's oracle fails: {m}");
            0
        }
        Verdict::Harness(m) => {
            println!("{id}: harness error: {m}");
            2
        }
    }
}
