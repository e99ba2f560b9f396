//! Hand polling of futures.
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::task::{Context, Poll, Wake, Waker};

pub struct Flag {
    pub woken: AtomicBool,
    pub count: AtomicU32,
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.woken.store(true, Ordering::SeqCst);
        self.count.fetch_add(1, Ordering::SeqCst);
    }
}
pub fn flag() -> Arc<Flag> {
    Arc::new(Flag { woken: AtomicBool::new(true), count: AtomicU32::new(0) })
}

pub async fn yield_now() {
    let mut done = false;
    std::future::poll_fn(|cx| {
        if done {
            Poll::Ready(())
        } else {
            done = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    })
    .await
}

pub fn poll_once<F: Future + ?Sized>(f: Pin<&mut F>) -> Poll<F::Output> {
    f.poll(&mut Context::from_waker(Waker::noop()))
}

/// A future that can be polled to completion in steps and dropped half way
pub struct Task<T> {
    fut: Option<Pin<Box<dyn Future<Output = T>>>>,
    pub flag: Arc<Flag>,
}
impl<T> Task<T> {
    pub fn new(f: impl Future<Output = T> + 'static) -> Self {
        Task { fut: Some(Box::pin(f)), flag: flag() }
    }
    pub fn is_live(&self) -> bool {
        self.fut.is_some()
    }
    pub fn woken(&self) -> bool {
        self.flag.woken.load(Ordering::SeqCst)
    }
    /// Poll (even if not woken)
    pub fn poll(&mut self) -> Option<T> {
        let f = self.fut.as_mut()?;
        self.flag.woken.store(false, Ordering::SeqCst);
        let w = Waker::from(self.flag.clone());
        match f.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Ready(t) => {
                self.fut = None;
                Some(t)
            }
            Poll::Pending => None,
        }
    }
    /// Poll only if woken since the last poll
    pub fn poll_if_woken(&mut self) -> Option<T> {
        if self.woken() { self.poll() } else { None }
    }
    pub fn cancel(&mut self) {
        self.fut = None;
    }
}
impl<T> Drop for Task<T> {
    fn drop(&mut self) {
        if std::thread::panicking() {
            std::mem::forget(self.fut.take());
        }
    }
}

/// Do not run destructors while unwinding (state may be inconsistent then)
pub struct Keep<T>(pub Option<T>);
impl<T> Drop for Keep<T> {
    fn drop(&mut self) {
        if std::thread::panicking() {
            std::mem::forget(self.0.take());
        }
    }
}
impl<T> std::ops::Deref for Keep<T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0.as_ref().unwrap()
    }
}
impl<T> std::ops::DerefMut for Keep<T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0.as_mut().unwrap()
    }
}
