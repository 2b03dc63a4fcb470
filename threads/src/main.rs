//! Runs multi-threaded scripts (JSON, one per argument after the first) so many times each.
//! Built with the thread sanitizer, and interpreted by Miri.
#[path = "../../harness/src/mt.rs"]
mod mt;
#[allow(dead_code)]
#[path = "../../harness/src/refmodel.rs"]
mod refmodel;

struct NoTime;
impl embassy_time_driver::Driver for NoTime {
    fn now(&self) -> u64 {
        0
    }
    fn schedule_wake(&self, _: u64, _: &std::task::Waker) {}
}
embassy_time_driver::time_driver_impl!(static T: NoTime = NoTime);

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let times: u32 = a[0].parse().unwrap();
    let mut t = mt::Stats::default();
    for s in &a[1..] {
        let m: mt::Mt = serde_json::from_str(s).unwrap();
        for _ in 0..times {
            match m.run() {
                Ok(s) => t.add(&s),
                Err(e) => {
                    println!("FAILED {e}");
                    std::process::exit(1);
                }
            }
        }
    }
    println!("OK {}", serde_json::to_string(&t).unwrap());
}
