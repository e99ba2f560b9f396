//! Controlled scheduler: the "threads" of a scenario are stackful coroutines on one OS thread and
//! every access to a shared atomic, list lock or storage operation is a scheduling point. Switching
//! away from a runnable thread is a preemption (one deviation); when the running thread blocks or
//! ends, the next one is enumerated freely.

use crate::exec::Flag;
use crate::mc;
use generator::{Generator, Gn};
use std::cell::RefCell;
use std::future::Future;
use std::mem::ManuallyDrop;
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};
use std::pin::pin;
use std::sync::Arc;
use std::sync::atomic::Ordering;
use std::task::{Context, Poll, Waker};

#[derive(Clone)]
enum St {
    Ready,
    Blocked(Arc<Flag>),
    Done,
}
struct Sched {
    cur: usize,
    st: Vec<St>,
    daemon: Vec<bool>,
    shutdown: bool,
    next: Option<usize>,
    panicked: Option<Box<dyn std::any::Any + Send>>,
    switches: u64,
}
impl Sched {
    fn enabled(&self, i: usize) -> bool {
        match &self.st[i] {
            St::Ready => true,
            St::Blocked(f) => self.shutdown && self.daemon[i] || f.woken.load(Ordering::SeqCst),
            St::Done => false,
        }
    }
}
thread_local! { static POOL: RefCell<Vec<ManuallyDrop<Generator<'static, (), ()>>>> = const { RefCell::new(vec![]) }; }
thread_local! { static S: RefCell<Option<Sched>> = const { RefCell::new(None) }; }

/// Index of the running scenario thread
pub fn me() -> Option<usize> {
    S.with(|s| s.borrow().as_ref().map(|s| s.cur))
}

/// Scheduling point
pub fn point() {
    if std::thread::panicking() {
        return;
    }
    let others: Option<Vec<usize>> = S.with(|s| {
        let s = s.borrow();
        let s = s.as_ref()?;
        Some((0..s.st.len()).filter(|&i| i != s.cur && s.enabled(i)).collect())
    });
    let Some(others) = others else { return };
    mc::step();
    // a thread may be held up for so long that a timer fires
    let timer = crate::vtime::next();
    let c = mc::deviate(1 + others.len() + timer.is_some() as usize);
    if c == 0 {
        return;
    }
    if c > others.len() {
        mc::log(|| "time passes".into());
        crate::vtime::advance(timer.unwrap().max(crate::vtime::now()));
        let others: Vec<usize> = S.with(|s| {
            let s = s.borrow();
            let s = s.as_ref().unwrap();
            (0..s.st.len()).filter(|&i| i != s.cur && s.enabled(i)).collect()
        });
        if !others.is_empty() {
            switch_to(Some(others[mc::pick(others.len())]));
        }
        return;
    }
    switch_to(Some(others[c - 1]));
}

fn switch_to(n: Option<usize>) {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.as_mut().unwrap();
        s.next = n;
        s.switches += 1;
    });
    generator::yield_with(());
}

/// Wait until the flag is woken. False: the scenario is over (daemons only)
fn block(f: &Arc<Flag>) -> bool {
    loop {
        if S.with(|s| s.borrow().as_ref().unwrap().shutdown) {
            return false;
        }
        if f.woken.load(Ordering::SeqCst) {
            return true;
        }
        S.with(|s| {
            let mut s = s.borrow_mut();
            let s = s.as_mut().unwrap();
            let c = s.cur;
            s.st[c] = St::Blocked(f.clone());
        });
        switch_to(None);
        S.with(|s| {
            let mut s = s.borrow_mut();
            let s = s.as_mut().unwrap();
            let c = s.cur;
            s.st[c] = St::Ready;
        });
    }
}

/// Drive a future on the current scenario thread. None: the scenario is over (daemons only)
pub fn block_on<F: Future>(f: F) -> Option<F::Output> {
    let mut f = pin!(f);
    let flag = crate::exec::flag();
    let w = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&w);
    loop {
        flag.woken.store(false, Ordering::SeqCst);
        point();
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return Some(r);
        }
        if !block(&flag) {
            return None;
        }
    }
}

/// Bodies never leave the OS thread they were made on
struct SendBox(Box<dyn FnOnce()>);
unsafe impl Send for SendBox {}
impl SendBox {
    fn into_inner(self) -> Box<dyn FnOnce()> {
        self.0
    }
}

pub struct Body {
    pub f: Box<dyn FnOnce()>,
    pub daemon: bool,
}
pub fn body(f: impl FnOnce() + 'static) -> Body {
    Body { f: Box::new(f), daemon: false }
}
pub fn daemon(f: impl FnOnce() + 'static) -> Body {
    Body { f: Box::new(f), daemon: true }
}

/// Run the bodies to completion under the explorer's schedule.
/// Err: the indices of threads that wait for ever.
pub fn run(bodies: Vec<Body>) -> Result<(), Vec<usize>> {
    let n = bodies.len();
    S.with(|s| {
        *s.borrow_mut() = Some(Sched {
            cur: 0,
            st: (0..n).map(|_| St::Ready).collect(),
            daemon: bodies.iter().map(|b| b.daemon).collect(),
            shutdown: false,
            next: None,
            panicked: None,
            switches: 0,
        })
    });
    let mut gens: Vec<Generator<'static, (), ()>> = bodies
        .into_iter()
        .map(|b| {
            let f = SendBox(b.f);
            let code = move || {
                let f = f;
                let r = catch_unwind(AssertUnwindSafe(f.into_inner()));
                if let Err(p) = r {
                    S.with(|s| s.borrow_mut().as_mut().unwrap().panicked = Some(p));
                }
            };
            // stacks are expensive to make: use those of finished bodies again
            match POOL.with(|p| p.borrow_mut().pop()) {
                Some(mut g) => {
                    g.init_code(code);
                    ManuallyDrop::into_inner(g)
                }
                None => Gn::new_opt(0x8000, code),
            }
        })
        .collect();
    let res = loop {
        // who runs next?
        let next = S.with(|s| s.borrow_mut().as_mut().unwrap().next.take());
        let i = match next {
            Some(i) => i,
            None => {
                let en: Vec<usize> = S.with(|s| {
                    let s = s.borrow();
                    let s = s.as_ref().unwrap();
                    (0..n).filter(|&i| s.enabled(i)).collect()
                });
                if en.is_empty() {
                    // everybody waits: time goes on
                    if let Some(t) = crate::vtime::next() {
                        crate::vtime::advance(t.max(crate::vtime::now()));
                        continue;
                    }
                    let (stuck, daemons): (Vec<usize>, Vec<usize>) = S.with(|s| {
                        let s = s.borrow();
                        let s = s.as_ref().unwrap();
                        (0..n).filter(|&i| !matches!(s.st[i], St::Done)).partition(|&i| !s.daemon[i])
                    });
                    if !stuck.is_empty() {
                        break Err(stuck);
                    }
                    if daemons.is_empty() {
                        break Ok(());
                    }
                    S.with(|s| s.borrow_mut().as_mut().unwrap().shutdown = true);
                    continue;
                }
                // choices are made outside of any coroutine here
                let over = S.with(|s| s.borrow().as_ref().unwrap().shutdown);
                if over {
                    en[0]
                } else {
                    // as above: all of them may be held up for so long that a timer fires
                    let timer = crate::vtime::next();
                    if timer.is_some() && mc::deviate(2) == 1 {
                        mc::log(|| "time passes".into());
                        crate::vtime::advance(timer.unwrap().max(crate::vtime::now()));
                        continue;
                    }
                    en[mc::pick(en.len())]
                }
            }
        };
        S.with(|s| s.borrow_mut().as_mut().unwrap().cur = i);
        gens[i].resume();
        let p = S.with(|s| s.borrow_mut().as_mut().unwrap().panicked.take());
        if let Some(p) = p {
            gens.into_iter().for_each(std::mem::forget);
            S.with(|s| *s.borrow_mut() = None);
            resume_unwind(p);
        }
        if gens[i].is_done() {
            S.with(|s| s.borrow_mut().as_mut().unwrap().st[i] = St::Done);
        }
    };
    S.with(|s| *s.borrow_mut() = None);
    if res.is_err() {
        gens.into_iter().for_each(std::mem::forget);
    } else {
        POOL.with(|p| p.borrow_mut().extend(gens.into_iter().map(ManuallyDrop::new)));
    }
    res
}

/// To be called at the start of an execution (a previous one may have been abandoned)
pub fn reset() {
    S.with(|s| *s.borrow_mut() = None);
}

/// The raw mutex of the lists under test. All scenario threads share one OS thread and nothing
/// inside the closures is a scheduling point, so mutual exclusion is given; the ends are points.
pub struct McRaw;
unsafe impl cfg_noodle::mutex_traits::ScopedRawMutex for McRaw {
    fn try_with_lock<T>(&self, f: impl FnOnce() -> T) -> Option<T> {
        Some(self.with_lock(f))
    }
    fn with_lock<T>(&self, f: impl FnOnce() -> T) -> T {
        point();
        let r = f();
        point();
        r
    }
    fn is_locked(&self) -> bool {
        false
    }
}
impl cfg_noodle::mutex_traits::ConstInit for McRaw {
    const INIT: Self = McRaw;
}

/// Every execution is confined to one OS thread, so critical sections need no lock
struct NoCs;
critical_section::set_impl!(NoCs);
unsafe impl critical_section::Impl for NoCs {
    unsafe fn acquire() -> critical_section::RawRestoreState {}
    unsafe fn release(_: critical_section::RawRestoreState) {}
}
