//! Scripts for real threads, run by the driver in /verif/threads: under the thread sanitizer,
//! and under Miri.
use crate::cases::Outcome;
use crate::engine::{Counts, Fail};
use crate::mt::{Mt, Stats};
use serde::{Deserialize, Serialize};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Threads {
    pub mt: Mt,
    /// interpreted by Miri with this schedule seed; otherwise native, with the thread sanitizer
    pub miri: Option<u32>,
}

/// Native runs are repeated: the schedule is not under control.
const TIMES: u32 = 12;
const LIMIT: Duration = Duration::from_secs(240);

fn dir() -> String {
    std::env::var("NDL_THREADS").unwrap_or_else(|_| "threads/target".into())
}

impl Threads {
    fn command(&self) -> Command {
        let json = serde_json::to_string(&self.mt).unwrap();
        let mut c;
        match self.miri {
            None => {
                c = Command::new(format!("{}/tsan/x86_64-unknown-linux-gnu/debug/ndlthreads", dir()));
                c.arg(TIMES.to_string());
                c.env("TSAN_OPTIONS", "halt_on_error=1 exitcode=66 detect_deadlocks=0 report_thread_leaks=0 report_signal_unsafe=0");
            }
            Some(seed) => {
                let sys = std::fs::read_to_string(format!("{}/miri.cmd", dir())).expect("threads/target/miri.cmd");
                let mut l = sys.lines();
                c = Command::new(l.next().unwrap());
                c.arg("runner").arg(format!("{}/miri/miri/x86_64-unknown-linux-gnu/debug/ndlthreads", dir()));
                c.arg("1");
                c.env("MIRIFLAGS", format!("-Zmiri-tree-borrows -Zmiri-ignore-leaks -Zmiri-seed={seed}"));
                for kv in l {
                    if let Some((k, v)) = kv.split_once('=') {
                        c.env(k, v);
                    }
                }
            }
        }
        c.arg(json).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
        c
    }

    pub fn exec(&self) -> Outcome {
        let mut labels = Counts::default();
        let res = self.go(&mut labels);
        let nontrivial = u64::from(labels.get("flush_overlapped_write") > 0 || labels.get("contended") > 0);
        let evals = if self.miri.is_some() { 1 } else { TIMES as u64 };
        Outcome { res, labels, evals, nontrivial }
    }

    fn go(&self, labels: &mut Counts) -> Result<(), Fail> {
        let mut ch = self.command().spawn().expect("thread driver");
        // (the output is small, so that it fits the pipes, except for a sanitizer report: read as it comes)
        let rd = |mut s: Box<dyn std::io::Read + Send>| {
            std::thread::spawn(move || {
                let mut v = vec![];
                let _ = s.read_to_end(&mut v);
                String::from_utf8_lossy(&v).into_owned()
            })
        };
        let out = rd(Box::new(ch.stdout.take().unwrap()));
        let err = rd(Box::new(ch.stderr.take().unwrap()));
        let t0 = Instant::now();
        let mut dead = false;
        let st = loop {
            if let Some(s) = ch.try_wait().unwrap() {
                break s;
            }
            if t0.elapsed() > LIMIT && !dead {
                dead = true;
                let _ = ch.kill();
            }
            std::thread::sleep(Duration::from_millis(1));
        };
        let (out, err) = (out.join().unwrap(), err.join().unwrap());
        let fail = |msg: String| Err(Fail { tags: vec!["C29"], msg });
        if dead {
            panic!("thread driver did not end: {self:?}");
        }
        let how = if self.miri.is_some() { "Miri" } else { "thread sanitizer" };
        if let Some(m) = out.lines().find_map(|l| l.strip_prefix("FAILED ")) {
            return fail(format!("on real threads ({how}): {m}"));
        }
        let pick = |pats: &[&str]| err.lines().find(|l| pats.iter().any(|p| l.contains(p))).map(|l| l.trim().to_string());
        if st.code() == Some(66) {
            let m = pick(&["SUMMARY: ThreadSanitizer"]).unwrap_or_default();
            return fail(format!("on real threads: {m}\n{}", head(&err)));
        }
        if st.success() {
            let Some(s) = out.lines().find_map(|l| l.strip_prefix("OK ")) else { panic!("thread driver says nothing") };
            let s: Stats = serde_json::from_str(s).unwrap();
            labels.add("flushes", s.flushes);
            labels.add("values_judged", s.judged);
            labels.add("flush_overlapped_write", s.overlapping);
            labels.add("contended", s.contended);
            labels.add("failed_operations", s.failed);
            labels.hit(if self.miri.is_some() { "miri" } else { "tsan" });
            return Ok(());
        }
        if let Some(m) = pick(&["Undefined Behavior", "error: deadlock", "error: the evaluated program deadlocked", "panicked at"]) {
            if !m.contains("threads/src") {
                return fail(format!("on real threads ({how}): {m}\n{}", head(&err)));
            }
        }
        use std::os::unix::process::ExitStatusExt;
        if let Some(sig @ (4 | 6 | 7 | 8 | 11)) = st.signal() {
            return fail(format!("on real threads ({how}): killed by signal {sig}\n{}", head(&err)));
        }
        panic!("thread driver: {st}\n{out}\n{err}");
    }
}

fn head(s: &str) -> String {
    let l = s.lines().filter(|l| !l.trim().is_empty() && !l.contains("core::") && !l.contains("std::"));
    l.take(16).map(|l| l.chars().take(160).collect::<String>()).collect::<Vec<_>>().join("\n")
}
