//! Lists and nodes must be `'static`; they are leaked per execution and reclaimed after it.
use std::cell::RefCell;

type Free = (*mut (), unsafe fn(*mut ()));
thread_local! {
    static LISTS: RefCell<Vec<Free>> = const { RefCell::new(vec![]) };
    static NODES: RefCell<Vec<Free>> = const { RefCell::new(vec![]) };
}
unsafe fn free<T>(p: *mut ()) {
    drop(unsafe { Box::from_raw(p as *mut T) })
}
pub fn list<T: 'static>(t: T) -> &'static T {
    let p = Box::into_raw(Box::new(t));
    LISTS.with(|l| l.borrow_mut().push((p as *mut (), free::<T>)));
    unsafe { &*p }
}
pub fn node<T: 'static>(t: T) -> &'static T {
    let p = Box::into_raw(Box::new(t));
    NODES.with(|l| l.borrow_mut().push((p as *mut (), free::<T>)));
    unsafe { &*p }
}
/// A copy at an address of its own
pub fn text(s: &str) -> &'static str {
    node(s.to_string())
}
/// To be used through this reference only
pub fn exclusive<T: 'static>(t: T) -> &'static mut T {
    let p = Box::into_raw(Box::new(t));
    NODES.with(|l| l.borrow_mut().push((p as *mut (), free::<T>)));
    unsafe { &mut *p }
}
/// Free everything of this execution (or forget it after a panic)
pub fn reset(ok: bool) {
    for v in [&LISTS, &NODES] {
        let items: Vec<Free> = v.with(|l| std::mem::take(&mut *l.borrow_mut()));
        if ok {
            for (p, f) in items {
                unsafe { f(p) }
            }
        }
    }
}
