//! Virtual clock behind embassy-time, one per explorer thread.
use std::cell::RefCell;
use std::task::Waker;

#[derive(Default)]
struct Clock {
    now: u64,
    timers: Vec<(u64, Waker)>,
}
thread_local! { static CLOCK: RefCell<Clock> = RefCell::new(Clock::default()); }

struct VDriver;
impl embassy_time_driver::Driver for VDriver {
    fn now(&self) -> u64 {
        now()
    }
    fn schedule_wake(&self, at: u64, w: &Waker) {
        CLOCK.with(|c| {
            let mut c = c.borrow_mut();
            if !c.timers.iter().any(|(t, x)| *t == at && x.will_wake(w)) {
                c.timers.push((at, w.clone()))
            }
        })
    }
}
embassy_time_driver::time_driver_impl!(static DRIVER: VDriver = VDriver);

pub fn reset() {
    CLOCK.with(|c| *c.borrow_mut() = Clock::default())
}
/// Virtual microseconds
pub fn now() -> u64 {
    CLOCK.with(|c| c.borrow().now)
}
/// Earliest pending timer
pub fn next() -> Option<u64> {
    CLOCK.with(|c| c.borrow().timers.iter().map(|t| t.0).min())
}
/// Advance to `t`, waking everything due
pub fn advance(t: u64) {
    let due: Vec<Waker> = CLOCK.with(|c| {
        let mut c = c.borrow_mut();
        assert!(t >= c.now);
        c.now = t;
        let (due, rest): (Vec<_>, Vec<_>) = std::mem::take(&mut c.timers).into_iter().partition(|x| x.0 <= t);
        c.timers = rest;
        due.into_iter().map(|x| x.1).collect()
    });
    for w in due {
        w.wake()
    }
}
/// Advance to `t` without waking anything (what is due stays due)
pub fn advance_quiet(t: u64) {
    CLOCK.with(|c| {
        let mut c = c.borrow_mut();
        assert!(t >= c.now);
        c.now = t;
    })
}
