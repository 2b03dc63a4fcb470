//! Tiny deterministic executor pieces: flag wakers, a driver for one future, and a
//! scheduler that interleaves several tasks according to a list of choices.
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::task::{Context, Poll, Wake, Waker};

pub type BoxFut<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;

/// A waker that only records that it was woken.
pub struct Flag(AtomicBool);

impl Flag {
    pub fn new() -> Arc<Flag> {
        Arc::new(Flag(AtomicBool::new(false)))
    }
    pub fn set(&self) {
        self.0.store(true, Ordering::SeqCst)
    }
    pub fn take(&self) -> bool {
        self.0.swap(false, Ordering::SeqCst)
    }
    pub fn is_set(&self) -> bool {
        self.0.load(Ordering::SeqCst)
    }
}

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.set()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.set()
    }
}

/// A task that keeps waking itself without end is stopped here.
pub const POLL_BUDGET: u32 = 3_000_000;

/// A future together with its own wake flag: it is only polled when woken.
pub struct Task<'a, T> {
    pub fut: BoxFut<'a, T>,
    pub flag: Arc<Flag>,
    waker: Waker,
}

impl<'a, T> Task<'a, T> {
    pub fn new(fut: BoxFut<'a, T>) -> Self {
        let flag = Flag::new();
        flag.set();
        let waker = Waker::from(flag.clone());
        Task { fut, flag, waker }
    }
    /// Poll once, unconditionally.
    pub fn poll(&mut self) -> Poll<T> {
        self.flag.take();
        self.fut.as_mut().poll(&mut Context::from_waker(&self.waker))
    }
    /// Poll as long as it was woken.
    pub fn run_ready(&mut self) -> Option<T> {
        let mut polls = 0u32;
        while self.flag.is_set() {
            polls += 1;
            if polls > POLL_BUDGET {
                std::panic::panic_any(crate::disk::BudgetExceeded);
            }
            if let Poll::Ready(v) = self.poll() {
                return Some(v);
            }
        }
        None
    }
}

/// Yields to the executor exactly once (and asks to be polled again).
pub async fn yield_once() {
    let mut done = false;
    std::future::poll_fn(move |cx| {
        if done {
            Poll::Ready(())
        } else {
            done = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    })
    .await
}

/// Source of scheduling decisions: consumes bytes of the case, 0 when exhausted.
pub struct Choices<'a> {
    data: &'a [u8],
    pos: usize,
}

impl<'a> Choices<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        Choices { data, pos: 0 }
    }
    pub fn next(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let b = if self.data.is_empty() {
            0
        } else if self.pos < self.data.len() {
            self.data[self.pos]
        } else {
            // keep interleaving after the explicit choices ran out: cheap mixing of
            // position and given bytes (still a pure function of the case)
            let x = self.data[self.pos % self.data.len()] as usize;
            ((x * 31 + self.pos * 17) & 0xff) as u8
        };
        self.pos += 1;
        b as usize % n
    }
}

// ------------------------------------------------------------------ virtual time

struct Clock;
#[derive(Default)]
struct ClockState {
    now: u64,
    alarms: Vec<(u64, Waker)>,
}
thread_local! {
    static CLOCK: std::cell::RefCell<ClockState> = std::cell::RefCell::new(ClockState::default());
}
impl embassy_time_driver::Driver for Clock {
    fn now(&self) -> u64 {
        CLOCK.with(|c| c.borrow().now)
    }
    fn schedule_wake(&self, at: u64, waker: &Waker) {
        let due = CLOCK.with(|c| {
            let mut c = c.borrow_mut();
            if at <= c.now {
                return true;
            }
            if !c.alarms.iter().any(|(a, w)| *a == at && w.will_wake(waker)) {
                c.alarms.push((at, waker.clone()));
            }
            false
        });
        if due {
            waker.wake_by_ref()
        }
    }
}
embassy_time_driver::time_driver_impl!(static DRIVER: Clock = Clock);

/// Virtual time in milliseconds (the time driver of the whole process).
pub mod clock {
    use super::*;
    const TICKS: u64 = embassy_time_driver::TICK_HZ / 1000;
    pub fn reset() {
        let old = CLOCK.with(|c| std::mem::take(&mut *c.borrow_mut()));
        drop(old);
    }
    pub fn now() -> u64 {
        CLOCK.with(|c| c.borrow().now) / TICKS
    }
    /// When the next timer expires (rounded up).
    pub fn next_alarm() -> Option<u64> {
        CLOCK.with(|c| c.borrow().alarms.iter().map(|a| a.0.div_ceil(TICKS)).min())
    }
    /// When the last timer expires (rounded up).
    pub fn last_alarm() -> Option<u64> {
        CLOCK.with(|c| c.borrow().alarms.iter().map(|a| a.0.div_ceil(TICKS)).max())
    }
    pub fn advance_to(ms: u64) {
        let due: Vec<Waker> = CLOCK.with(|c| {
            let mut c = c.borrow_mut();
            c.now = c.now.max(ms * TICKS);
            let now = c.now;
            let (due, rest) = std::mem::take(&mut c.alarms).into_iter().partition(|a| a.0 <= now);
            c.alarms = rest;
            let due: Vec<(u64, Waker)> = due;
            due.into_iter().map(|a| a.1).collect()
        });
        due.into_iter().for_each(|w| w.wake());
    }
}
