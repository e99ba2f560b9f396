//! Thread interleavings: C18 (no lost wake-ups), C19 (concurrent writes), C20 (ownership).
//!
//! The bodies below are the "threads"; `sched` explores every schedule within the preemption bound.

use crate::dev::*;
use crate::exec::{Keep, flag};
use crate::hist::{Handle, LErr, List, Snap};
use crate::mc::{self, pick, pick_of};
use crate::sched::{self, Body};
use crate::{Scen, ensure, scen};
use cfg_noodle::error::{Error, LoadStoreError};
use cfg_noodle::{StorageList, StorageListNode};
use minicbor::{CborLen, Decode, Decoder, Encode, Encoder};
use std::cell::RefCell;
use std::future::Future;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

/// Two halves that belong together, with a scheduling point between accesses to them
pub struct Sv(u32, u32);
impl Sv {
    fn new(v: u32) -> Self {
        Sv(v, !v)
    }
    fn whole(&self) -> u32 {
        ensure!(self.1 == !self.0, "a value is torn");
        self.0
    }
}
impl Clone for Sv {
    fn clone(&self) -> Self {
        let a = self.0;
        sched::point();
        let c = Sv(a, self.1);
        ensure!(c.1 == !c.0, "a value is torn while it is cloned");
        c
    }
}
impl<C> Encode<C> for Sv {
    fn encode<W: minicbor::encode::Write>(&self, e: &mut Encoder<W>, _: &mut C) -> Result<(), minicbor::encode::Error<W::Error>> {
        e.array(2)?.u32(self.0)?;
        sched::point();
        e.u32(self.1)?;
        Ok(())
    }
}
impl<C> CborLen<C> for Sv {
    fn cbor_len(&self, ctx: &mut C) -> usize {
        1 + self.0.cbor_len(ctx) + self.1.cbor_len(ctx)
    }
}
impl<'b, C> Decode<'b, C> for Sv {
    fn decode(d: &mut Decoder<'b>, _: &mut C) -> Result<Self, minicbor::decode::Error> {
        d.array()?;
        let a = d.u32()?;
        sched::point();
        Ok(Sv(a, d.u32()?))
    }
}
/// Value in a stored record
fn stored(b: &[u8]) -> Option<u32> {
    let mut d = Decoder::new(b);
    d.array().ok()?;
    let (x, y) = (d.u32().ok()?, d.u32().ok()?);
    (y == !x).then_some(x)
}
fn kv(key: &str, v: u32) -> Vec<u8> {
    enc_kv(key, &Sv::new(v))
}

type L = List<2>;
type H = Handle<Sv, 2>;
type Node = &'static StorageListNode<Sv>;

fn list() -> &'static L {
    crate::arena::list(StorageList::new())
}
fn node(key: &'static str) -> Node {
    crate::arena::node(StorageListNode::new(crate::arena::text(key)))
}
fn latest(dev: &Dev) -> Option<Snap> {
    newest(&dev.records()).first().map(|r| r.map())
}
fn show(m: &Option<Snap>) -> String {
    match m {
        None => "nothing".into(),
        Some(m) => m.iter().map(|(k, v)| format!("{k}={:?}", stored(v))).collect::<Vec<_>>().join(","),
    }
}

fn app(e: &LErr) -> Option<&Error> {
    match e {
        LoadStoreError::AppError(e) => Some(e),
        _ => None,
    }
}

async fn do_load(list: &'static L, dev: &mut Dev, buf: &mut [u8]) {
    if let Err(e) = list.process_reads(dev, buf).await {
        mc::violation(format!("load fails: {e:?}"))
    }
}
async fn do_gc(list: &'static L, dev: &mut Dev, buf: &mut [u8]) {
    match list.process_garbage(dev, buf).await {
        Ok(_) => {}
        Err(e) if matches!(app(&e), Some(Error::NeedsFirstRead)) => {}
        Err(e) => mc::violation(format!("collection fails: {e:?}")),
    }
}
/// collect, flush (loading first if asked to), collect
async fn do_flush(list: &'static L, dev: &mut Dev, buf: &mut [u8]) {
    for _ in 0..20 {
        do_gc(list, dev, buf).await;
        match list.process_writes(dev, buf).await {
            Ok(_) => {
                do_gc(list, dev, buf).await;
                return;
            }
            Err(e) if matches!(app(&e), Some(Error::NeedsFirstRead)) => do_load(list, dev, buf).await,
            Err(e) if matches!(app(&e), Some(Error::NeedsGarbageCollect)) => {}
            Err(e) => mc::violation(format!("flush fails: {e:?}")),
        }
    }
    mc::violation("flush keeps asking for a load")
}

/// A worker that does nothing but act on the two signals
fn worker(list: &'static L, dev: Dev, flushes: bool) -> Body {
    sched::daemon(move || {
        let mut dev = dev;
        let mut buf = [0u8; 96];
        let r = list.needs_read();
        let w = list.needs_write();
        let mut r = Box::pin(r);
        let mut w = Box::pin(w);
        loop {
            let sel = std::future::poll_fn(|cx| {
                if r.as_mut().poll(cx).is_ready() {
                    return Poll::Ready(true);
                }
                if flushes && w.as_mut().poll(cx).is_ready() {
                    return Poll::Ready(false);
                }
                Poll::Pending
            });
            let Some(which) = sched::block_on(sel) else { return };
            if which {
                r = Box::pin(list.needs_read());
                if sched::block_on(do_load(list, &mut dev, &mut buf)).is_none() {
                    return;
                }
            } else {
                w = Box::pin(list.needs_write());
                if sched::block_on(do_flush(list, &mut dev, &mut buf)).is_none() {
                    return;
                }
            }
        }
    })
}

/// Poll once on the current thread
fn once<F: Future>(f: F) -> Poll<F::Output> {
    let mut f = Box::pin(f);
    let fl = flag();
    let w = Waker::from(fl);
    let r = f.as_mut().poll(&mut Context::from_waker(&w));
    sched::point();
    drop(f);
    r
}

/// Like `block_on`, but may be given up (one deviation) whenever it is suspended
fn fragile<F: Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    sched::block_on(std::future::poll_fn(move |cx| match f.as_mut().poll(cx) {
        Poll::Ready(r) => Poll::Ready(Some(r)),
        Poll::Pending if mc::deviate(2) == 1 => Poll::Ready(None),
        Poll::Pending => Poll::Pending,
    }))
    .unwrap()
}

fn attach(n: Node, l: &'static L, d: u32) -> H {
    match sched::block_on(n.attach_with_default(l, move || Sv::new(d))) {
        Some(Ok(h)) => h,
        Some(Err(e)) => mc::violation(format!("attach fails: {e:?}")),
        None => unreachable!(),
    }
}
fn write(h: &mut H, v: u32) {
    match sched::block_on(h.write(&Sv::new(v))) {
        Some(Ok(())) => {}
        Some(Err(e)) => mc::violation(format!("write fails: {e:?}")),
        None => unreachable!(),
    }
}

fn start_content(which: usize) -> Vec<Vec<u8>> {
    match which {
        0 => vec![],
        1 => enc_record(3, &[kv("b", 1001), kv("a", 1000)]),
        2 => enc_record(3, &[kv("z", 1003)]),
        3 => enc_record(3, &[]),
        // unfinished
        4 => enc_record(3, &[kv("b", 1001), kv("a", 1000)])[..2].to_vec(),
        5 => vec![vec![0xEE, 0xEE]],
        // an unreadable end
        _ => {
            let mut v = enc_record(3, &[kv("b", 1001), kv("a", 1000)]);
            v[3][7] ^= 0x40;
            v
        }
    }
}

// ---- C18 ----

#[derive(Clone, Copy, PartialEq, Debug)]
enum U {
    /// attach, nothing else
    Attach,
    /// attach and write
    Write,
    /// attach and write twice
    Write2,
    /// give up waiting, then attach and write
    Cancel,
    /// release and attach again, write
    Again,
    /// a write is started and given up, then done
    CancelWrite,
}

/// `users` threads, each with its own node, on one list with one worker
fn wakeups(users: usize, progs: &[U], starts: usize) {
    let l = list();
    let start = pick(starts);
    let dev: Dev = Dev::with_items(start_content(start));
    let keys = ["a", "b", "c"];
    let mut bodies = vec![];
    let fin: Rc<RefCell<Vec<(usize, H, Option<u32>)>>> = Rc::default();
    let mut fin = Keep(Some(fin));
    for u in 0..users {
        let n = node(keys[u]);
        let prog = pick_of(progs);
        let fin = fin.clone();
        let devs = dev.clone();
        mc::log(|| format!("thread {u}: {prog:?} {}", keys[u]));
        bodies.push(sched::body(move || {
            let v = (u as u32 + 1) * 10;
            let mut early = false;
            let before = devs.records();
            if prog == U::Cancel {
                early = once(n.attach_with_default(l, || Sv::new(1))).is_ready();
            }
            let mut h = attach(n, l, 500 + u as u32);
            let got = h.load().whole();
            let mut last = None;
            ensure!(
                got == 500 + u as u32 || start == 1 && got == 1000 + u as u32 || early && got == 1,
                "attach yields {got}"
            );
            // a default is only right if some record that was the newest in the meantime lacks the key
            if got < 1000
                && let Some(first) = newest(&before).first()
            {
                let mut seen = vec![(first.seq, first.map())];
                seen.extend(devs.records().iter().filter(|r| r.seq > first.seq).map(|r| (r.seq, r.map())));
                seen.sort();
                let all = seen.windows(2).all(|w| w[1].0 == w[0].0 + 1);
                ensure!(
                    !all || early || seen.iter().any(|(_, m)| !m.contains_key(keys[u])),
                    "attach yields the default {got} although a value was stored all the time"
                );
            }
            match prog {
                U::Attach => {}
                U::Write | U::Cancel => {
                    write(&mut h, v);
                    last = Some(v);
                }
                U::Write2 => {
                    write(&mut h, v);
                    write(&mut h, v + 1);
                    last = Some(v + 1);
                }
                U::Again => {
                    drop(h);
                    h = attach(n, l, 900);
                    ensure!(h.load().whole() == got, "the value changes between two handles");
                    write(&mut h, v);
                    last = Some(v);
                }
                U::CancelWrite => {
                    if once(h.write(&Sv::new(v))).is_ready() {
                        mc::log(|| "first write went through".into());
                    }
                    write(&mut h, v + 1);
                    last = Some(v + 1);
                }
            }
            if let Some(v) = last {
                ensure!(h.load().whole() == v, "a handle does not read its last write");
            }
            mc::log(|| format!("thread {u} done"));
            mc::state(mc::hash_of(&(u, devs.items())));
            fin.borrow_mut().push((u, h, last));
        }));
    }
    bodies.push(worker(l, dev.clone(), true));
    mc::nontrivial();
    if let Err(stuck) = sched::run(bodies) {
        mc::violation(format!("threads {stuck:?} wait for ever (nobody was told) with {} stored", show(&latest(&dev))));
    }
    let m = latest(&dev);
    for (u, _, last) in fin.borrow().iter() {
        if let Some(v) = last {
            let got = m.as_ref().and_then(|m| m.get(keys[*u])).and_then(|b| stored(b));
            ensure!(got == Some(*v), "{}={v} was written and nobody was told to flush it: storage holds {}", keys[*u], show(&m));
        }
    }
    mc::outcome(mc::hash_of(&dev.items()));
    drop(fin.0.take());
}

/// Tells waiting threads that a load has failed
#[derive(Default)]
struct Bad {
    n: u32,
    wakers: Vec<Waker>,
}

/// Loads may fail. A worker does not repeat them, but says so; whoever waits then gives up its
/// attach and starts a new one (the worker has consumed all signals by then)
fn retried(users: usize) {
    let l = list();
    let start = pick(2);
    let dev: Dev = Dev::with_items(start_content(start));
    dev.set_menu(Menu { iter: vec![Ans::Err], next: vec![Ans::Err], ..Default::default() });
    let bad: Rc<RefCell<Bad>> = Rc::default();
    let keys = ["a", "b"];
    let fin: Rc<RefCell<Vec<H>>> = Rc::default();
    let mut fin = Keep(Some(fin));
    let mut bodies = vec![];
    for u in 0..users {
        let n = node(keys[u]);
        let (fin, bad) = (fin.clone(), bad.clone());
        bodies.push(sched::body(move || {
            let h = loop {
                let seen = bad.borrow().n;
                let mut f = Box::pin(n.attach_with_default(l, move || Sv::new(500 + u as u32)));
                let r = sched::block_on(std::future::poll_fn(|cx| {
                    if let Poll::Ready(r) = f.as_mut().poll(cx) {
                        return Poll::Ready(Some(r));
                    }
                    let mut b = bad.borrow_mut();
                    if b.n != seen {
                        return Poll::Ready(None);
                    }
                    b.wakers.push(cx.waker().clone());
                    Poll::Pending
                }))
                .unwrap();
                drop(f);
                match r {
                    Some(Ok(h)) => break h,
                    Some(Err(e)) => mc::violation(format!("attach fails: {e:?}")),
                    None => mc::log(|| format!("thread {u} gives up and tries again")),
                }
            };
            let got = h.load().whole();
            mc::state(mc::hash_of(&(u, got, bad.borrow().n, fin.borrow().len())));
            ensure!(got == if start == 1 { 1000 } else { 500 } + u as u32, "attach yields {got}");
            fin.borrow_mut().push(h);
        }));
    }
    {
        let dev = dev.clone();
        bodies.push(sched::daemon(move || {
            let mut dev = dev;
            let mut buf = [0u8; 96];
            loop {
                if sched::block_on(l.needs_read()).is_none() {
                    return;
                }
                match sched::block_on(l.process_reads(&mut dev, &mut buf)) {
                    None => return,
                    Some(Ok(_)) => {}
                    Some(Err(_)) => {
                        mc::nontrivial();
                        let mut b = bad.borrow_mut();
                        b.n += 1;
                        b.wakers.drain(..).for_each(Waker::wake);
                    }
                }
            }
        }));
    }
    if let Err(stuck) = sched::run(bodies) {
        mc::violation(format!("threads {stuck:?} wait for ever for an attach that was started after the last failed load"));
    }
    mc::outcome(mc::hash_of(&dev.0.borrow().faults));
    drop(fin.0.take());
}

// ---- C19 ----

#[derive(Default)]
struct Trace {
    now: u64,
    /// (node, value, begin, end)
    writes: Vec<(usize, u32, u64, u64)>,
}
impl Trace {
    fn tick(&mut self) -> u64 {
        self.now += 1;
        self.now
    }
}

/// Writers with their own nodes, readers, and a thread that loads, collects and flushes on its own
fn concurrent(writers: usize, per: u32, flushes: usize, calls: bool, cancel: bool) {
    let l = list();
    let start = pick(2);
    let dev: Dev = Dev::with_items(start_content(start));
    let keys = ["a", "b"];
    let tr: Rc<RefCell<Trace>> = Rc::default();
    // attached and loaded beforehand
    let nodes: Vec<Node> = (0..writers).map(|i| node(keys[i])).collect();
    let hs: Rc<RefCell<Vec<(usize, H)>>> = Rc::default();
    let mut hs = Keep(Some(hs));
    {
        let (hs, nodes, dev) = (hs.clone(), nodes.clone(), dev.clone());
        let b = sched::body(move || {
            for (i, n) in nodes.iter().enumerate() {
                drop(once(n.attach_with_default(l, move || Sv::new(500 + i as u32))));
            }
            let mut dev = dev;
            let mut buf = [0u8; 96];
            sched::block_on(do_load(l, &mut dev, &mut buf)).unwrap();
            for (i, n) in nodes.iter().enumerate() {
                let h = attach(n, l, 500 + i as u32);
                hs.borrow_mut().push((i, h));
            }
        });
        // one thread: no interleavings
        sched::run(vec![b]).unwrap();
    }
    let init: Vec<u32> = hs.borrow().iter().map(|(_, h)| h.load().whole()).collect();
    for (i, v) in init.iter().enumerate() {
        tr.borrow_mut().writes.push((i, *v, 0, 0));
    }
    dev.0.borrow_mut().yielding = cancel;
    let mut bodies = vec![];
    let given: Vec<(usize, H)> = hs.borrow_mut().drain(..).collect();
    for (i, h) in given {
        let (tr, hs) = (tr.clone(), hs.clone());
        let again = calls && i == 0;
        let n = nodes[i];
        let devs = dev.clone();
        bodies.push(sched::body(move || {
            let mut h = h;
            for k in 0..per {
                let v = (i as u32 + 1) * 100 + k;
                let b = tr.borrow_mut().tick();
                let at = {
                    let mut t = tr.borrow_mut();
                    t.writes.push((i, v, b, u64::MAX));
                    t.writes.len() - 1
                };
                if cancel && fragile(h.write(&Sv::new(v))).is_none() {
                    mc::log(|| format!("writing {v} given up"));
                }
                write(&mut h, v);
                let e = tr.borrow_mut().tick();
                mc::state(mc::hash_of(&(i, v, devs.items())));
                tr.borrow_mut().writes[at].3 = e;
                mc::log(|| format!("{}={v} written [{b}..{e}]", ["a", "b"][i]));
                let got = h.load().whole();
                ensure!(got == v, "a handle reads {got} after writing {v}");
                if again && k + 1 < per {
                    // the pending value survives a change of handles
                    drop(h);
                    h = attach(n, l, 900);
                    let got = h.load().whole();
                    ensure!(got == v, "a new handle reads {got} after {v} was written");
                }
            }
            hs.borrow_mut().push((i, h));
        }));
    }
    {
        let (tr, dev) = (tr.clone(), dev.clone());
        let nn = nodes.len();
        bodies.push(sched::body(move || {
            let mut dev = dev;
            let mut buf = [0u8; 96];
            for f in 0..flushes {
                let pushes0 = dev.0.borrow().next_id;
                let b = tr.borrow_mut().tick();
                let ok = loop {
                    let r = if cancel {
                        match fragile(l.process_writes(&mut dev, &mut buf)) {
                            Some(r) => r,
                            None => {
                                mc::log(|| "flush given up".into());
                                break false;
                            }
                        }
                    } else {
                        sched::block_on(l.process_writes(&mut dev, &mut buf)).unwrap()
                    };
                    match r {
                        Ok(_) => break true,
                        Err(e) if cancel && matches!(app(&e), Some(Error::NeedsFirstRead)) => {
                            sched::block_on(do_load(l, &mut dev, &mut buf)).unwrap();
                        }
                        Err(e) if matches!(app(&e), Some(Error::NeedsGarbageCollect)) => {
                            sched::block_on(do_gc(l, &mut dev, &mut buf)).unwrap();
                        }
                        Err(e) => mc::violation(format!("flush fails: {e:?}")),
                    }
                };
                let e = tr.borrow_mut().tick();
                mc::state(mc::hash_of(&(f, dev.items())));
                let wrote = dev.0.borrow().next_id != pushes0;
                mc::log(|| format!("flush {f} [{b}..{e}] {}", dev.describe()));
                let m = latest(&dev);
                let t = tr.borrow();
                if ok {
                    for i in 0..nn {
                        let got = m.as_ref().and_then(|m| m.get(["a", "b"][i])).map(|x| stored(x));
                        let Some(got) = got else {
                            mc::violation(format!("after a flush storage holds {}", show(&m)));
                        };
                        let Some(got) = got else { mc::violation("a torn value is flushed") };
                        let Some(w) = t.writes.iter().find(|w| w.0 == i && w.1 == got) else {
                            mc::violation(format!("a flush stores {got}, which nobody wrote yet"))
                        };
                        ensure!(w.2 < e, "a flush stores a value written later");
                        if let Some(x) = t.writes.iter().find(|x| x.0 == i && x.2 > w.3 && x.3 < b) {
                            mc::violation(format!(
                                "after a flush storage holds {got} although {} was written before it began ({})",
                                x.1,
                                if wrote { "a record was written" } else { "nothing was written" }
                            ));
                        }
                    }
                }
                drop(t);
                if calls {
                    sched::block_on(do_gc(l, &mut dev, &mut buf)).unwrap();
                    sched::block_on(do_load(l, &mut dev, &mut buf)).unwrap();
                }
            }
        }));
    }
    mc::nontrivial();
    if let Err(s) = sched::run(bodies) {
        mc::violation(format!("threads {s:?} wait for ever"));
    }
    // quiescence: what is pending is flushed now
    {
        let dev = dev.clone();
        sched::run(vec![sched::body(move || {
            let mut dev = dev;
            let mut buf = [0u8; 96];
            sched::block_on(do_flush(l, &mut dev, &mut buf)).unwrap();
        })])
        .unwrap();
    }
    let m = latest(&dev);
    for (i, h) in hs.borrow().iter() {
        let mem = h.load().whole();
        let want = tr.borrow().writes.iter().filter(|w| w.0 == *i).last().unwrap().1;
        ensure!(mem == want, "{} reads {mem} instead of {want}", keys[*i]);
        let got = m.as_ref().and_then(|m| m.get(keys[*i])).and_then(|b| stored(b));
        ensure!(got == Some(mem), "the last flush leaves {} in storage, memory has {}={mem}", show(&m), keys[*i]);
    }
    mc::outcome(mc::hash_of(&dev.items()));
    drop(hs.0.take());
}

// ---- C21, C29 ----

/// Threads that use nodes while the default worker runs on another thread, in virtual time
fn default_worker(users: usize, waits: &'static [u64], progs: &[U]) {
    let l = list();
    let start = pick(2);
    let dev: Dev = Dev::with_items(start_content(start));
    let keys = ["a", "b", "c"];
    let fin: Rc<RefCell<Vec<(usize, H, Option<u32>)>>> = Rc::default();
    let mut fin = Keep(Some(fin));
    let mut bodies = vec![];
    for u in 0..users {
        let n = node(keys[u]);
        let prog = pick_of(progs);
        let (w1, w2) = (pick_of(waits), pick_of(waits));
        let fin = fin.clone();
        let devs = dev.clone();
        mc::log(|| format!("thread {u}: waits {w1} ms, attaches {}, waits {w2} ms, {prog:?}", keys[u]));
        bodies.push(sched::body(move || {
            let sleep = |ms: u64| {
                if ms > 0 {
                    sched::block_on(embassy_time::Timer::after_millis(ms)).unwrap()
                }
            };
            sleep(w1);
            let d = 500 + u as u32;
            let mut h = attach(n, l, d);
            let got = h.load().whole();
            // another thread's record may be written before this key is attached, and it keeps
            // attached keys only: then the default applies
            let kept = start == 1 && got == 1000 + u as u32;
            ensure!(kept || got == d && (start == 0 || users > 1), "attach yields {got}");
            sleep(w2);
            let v = (u as u32 + 1) * 10;
            let mut last = None;
            if prog != U::Attach {
                write(&mut h, v);
                last = Some(v);
            }
            if prog == U::Write2 {
                sleep(w1);
                write(&mut h, v + 1);
                last = Some(v + 1);
            }
            mc::state(mc::hash_of(&(u, crate::vtime::now(), devs.items())));
            fin.borrow_mut().push((u, h, last));
        }));
    }
    {
        let dev = dev.clone();
        bodies.push(sched::daemon(move || {
            let mut buf = [0u8; 96];
            sched::block_on(cfg_noodle::worker_task::default_worker_task(l, dev, std::future::pending::<()>(), &mut buf));
        }));
    }
    mc::nontrivial();
    if let Err(stuck) = sched::run(bodies) {
        mc::violation(format!("threads {stuck:?} wait for ever, storage holds {}", show(&latest(&dev))));
    }
    let m = latest(&dev);
    for (u, _, last) in fin.borrow().iter() {
        if let Some(v) = last {
            let got = m.as_ref().and_then(|m| m.get(keys[*u])).and_then(|b| stored(b));
            ensure!(got == Some(*v), "{}={v} was written and does not become durable: storage holds {}", keys[*u], show(&m));
        }
    }
    mc::outcome(mc::hash_of(&(dev.items(), crate::vtime::now())));
    drop(fin.0.take());
}

/// Something that is told to stop
#[derive(Default)]
struct Stop {
    told: bool,
    waker: Option<Waker>,
}
/// Threads that write while another one stops the default worker: what was written before the
/// stop is stored when the worker returns
fn stopped_worker(users: usize, per: u32, waits: &'static [u64]) {
    let l = list();
    let start = pick(2);
    let dev: Dev = Dev::with_items(start_content(start));
    let keys = ["a", "b", "c"];
    let nodes: Vec<Node> = keys[..users].iter().map(|k| node(k)).collect();
    let stop: Rc<RefCell<Stop>> = Rc::default();
    let hs: Rc<RefCell<Vec<(usize, H)>>> = Rc::default();
    let mut hs = Keep(Some(hs));
    // (node, value, written before the stop)
    let done: Rc<RefCell<Vec<(usize, u32, bool)>>> = Rc::default();
    {
        let (hs, nodes, dev) = (hs.clone(), nodes.clone(), dev.clone());
        sched::run(vec![sched::body(move || {
            for n in &nodes {
                drop(once(n.attach_with_default(l, move || Sv::new(500))));
            }
            let mut dev = dev;
            let mut buf = [0u8; 96];
            sched::block_on(do_load(l, &mut dev, &mut buf)).unwrap();
            for (i, n) in nodes.iter().enumerate() {
                let h = attach(n, l, 500);
                hs.borrow_mut().push((i, h));
            }
        })])
        .unwrap();
    }
    let mut bodies = vec![];
    let given: Vec<(usize, H)> = hs.borrow_mut().drain(..).collect();
    for (i, h) in given {
        let (hs, stop, done, devs) = (hs.clone(), stop.clone(), done.clone(), dev.clone());
        let w = pick_of(waits);
        bodies.push(sched::body(move || {
            let mut h = h;
            for k in 0..per {
                let v = (i as u32 + 1) * 100 + k;
                write(&mut h, v);
                let in_time = !stop.borrow().told;
                mc::log(|| format!("{}={v} written, stopped: {}", ["a", "b", "c"][i], !in_time));
                done.borrow_mut().push((i, v, in_time));
                mc::state(mc::hash_of(&(i, v, in_time, devs.items())));
                if k + 1 < per && w > 0 {
                    sched::block_on(embassy_time::Timer::after_millis(w)).unwrap();
                }
            }
            hs.borrow_mut().push((i, h));
        }));
    }
    {
        let (dev, stop) = (dev.clone(), stop.clone());
        bodies.push(sched::body(move || {
            let mut buf = [0u8; 96];
            let stopper = std::future::poll_fn(|cx| {
                let mut s = stop.borrow_mut();
                if s.told {
                    return Poll::Ready(());
                }
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            });
            sched::block_on(cfg_noodle::worker_task::default_worker_task(l, dev, stopper, &mut buf));
        }));
    }
    {
        let w = pick_of(waits);
        let stop = stop.clone();
        bodies.push(sched::body(move || {
            if w > 0 {
                sched::block_on(embassy_time::Timer::after_millis(w)).unwrap();
            }
            sched::point();
            let mut s = stop.borrow_mut();
            s.told = true;
            mc::log(|| "stop".into());
            if let Some(w) = s.waker.take() {
                w.wake();
            }
        }));
    }
    mc::nontrivial();
    if let Err(s) = sched::run(bodies) {
        mc::violation(format!("threads {s:?} wait for ever: the worker does not return when it is stopped"));
    }
    let m = latest(&dev);
    for i in 0..users {
        let got = m.as_ref().and_then(|m| m.get(keys[i])).and_then(|b| stored(b));
        let all: Vec<(u32, bool)> = done.borrow().iter().filter(|d| d.0 == i).map(|d| (d.1, d.2)).collect();
        let last = all.iter().rposition(|d| d.1);
        let ok = match last {
            None => true,
            Some(x) => all[x..].iter().any(|d| Some(d.0) == got),
        };
        ensure!(ok, "stopped after {}={:?} was written, storage holds {}", keys[i], last.map(|x| all[x].0), show(&m));
    }
    mc::outcome(mc::hash_of(&dev.items()));
    drop(hs.0.take());
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum V {
    Attach,
    Write,
    /// release, attach again
    Again,
    /// release, detach, attach again
    Fresh,
    /// give up waiting, then attach
    Cancel,
}
/// Threads that use nodes while the no-op worker runs on another thread
fn no_op_worker(users: usize, progs: &[V]) {
    let l = list();
    let keys = ["a", "b", "c"];
    let fin: Rc<RefCell<Vec<H>>> = Rc::default();
    let mut fin = Keep(Some(fin));
    let mut bodies = vec![];
    for u in 0..users {
        let n = node(keys[u]);
        let prog = pick_of(progs);
        let fin = fin.clone();
        mc::log(|| format!("thread {u}: {prog:?} {}", keys[u]));
        bodies.push(sched::body(move || {
            let d = 500 + u as u32;
            if prog == V::Cancel {
                drop(once(n.attach_with_default(l, move || Sv::new(d))));
            }
            let mut h = attach(n, l, d);
            ensure!(h.load().whole() == d, "attach yields {} instead of the default", h.load().whole());
            if prog != V::Attach {
                write(&mut h, 7);
                ensure!(h.load().whole() == 7, "a handle does not read its last write");
            }
            if prog == V::Again || prog == V::Fresh {
                drop(h);
                if prog == V::Fresh {
                    let r = sched::block_on(n.detach(l)).unwrap();
                    ensure!(r.is_ok(), "detach fails: {r:?}");
                }
                h = attach(n, l, d + 100);
                let want = if prog == V::Fresh { d + 100 } else { 7 };
                ensure!(h.load().whole() == want, "attach again yields {} instead of {want}", h.load().whole());
            }
            mc::state(mc::hash_of(&(u, h.load().whole(), fin.borrow().len())));
            fin.borrow_mut().push(h);
        }));
    }
    bodies.push(sched::daemon(move || {
        sched::block_on(cfg_noodle::worker_task::no_op_worker_task(l));
    }));
    mc::nontrivial();
    if let Err(stuck) = sched::run(bodies) {
        mc::violation(format!("threads {stuck:?} wait for ever for an attach"));
    }
    mc::outcome(mc::hash_of(&fin.borrow().iter().map(|h| h.load().whole()).collect::<Vec<_>>()));
    drop(fin.0.take());
}

// ---- C20 ----

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum O {
    /// attach and release the handle some time later
    Attach(usize, usize),
    /// give up an attach after its first poll
    Cancel(usize, usize),
    Detach(usize, usize),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum R {
    Ok,
    Taken,
    Other,
    Dup,
    /// given up: may have taken the node or not
    Pending,
}
fn res<T>(r: &Result<T, Error>) -> R {
    match r {
        Ok(_) => R::Ok,
        Err(Error::AlreadyTaken) => R::Taken,
        Err(Error::NodeInOtherList) => R::Other,
        Err(Error::DuplicateKey) => R::Dup,
        Err(e) => mc::violation(format!("unexpected error {e:?}")),
    }
}
#[derive(Clone, Copy, Debug)]
enum E {
    /// attach; on success the node is taken
    Take(usize, usize, R, u64),
    Release(usize, u64),
    Detach(usize, usize, R),
    /// is there a node with this key?
    Probe(usize, usize, bool),
}
#[derive(Clone, Copy, Debug)]
struct Ev {
    e: E,
    b: u64,
    t: u64,
}
/// (list, taken by which call) per node
type Spec = Vec<(Option<usize>, u64)>;

/// All states after `e`, none if its result is impossible
fn apply(s: &Spec, e: &E, keys: &[&str]) -> Vec<Spec> {
    let attach = |n: usize, l: usize, id: u64| -> (R, Spec) {
        let mut t = s.clone();
        match s[n] {
            (Some(x), taken) if x == l => {
                if taken != 0 {
                    return (R::Taken, t);
                }
            }
            (Some(_), _) => return (R::Other, t),
            (None, _) => {
                if (0..s.len()).any(|m| m != n && keys[m] == keys[n] && s[m].0 == Some(l)) {
                    return (R::Dup, t);
                }
            }
        }
        t[n] = (Some(l), id);
        (R::Ok, t)
    };
    match *e {
        E::Take(n, l, R::Pending, id) => {
            let (r, t) = attach(n, l, id);
            let mut v = vec![s.clone()];
            if r == R::Ok {
                v.push(t)
            }
            v
        }
        E::Take(n, l, want, id) => {
            let (r, t) = attach(n, l, id);
            if r == want { vec![t] } else { vec![] }
        }
        E::Release(n, id) => {
            let mut t = s.clone();
            if t[n].1 == id {
                t[n].1 = 0;
            }
            vec![t]
        }
        E::Detach(n, l, want) => {
            let mut t = s.clone();
            let r = match s[n] {
                (Some(x), id) if x == l && id != 0 => R::Taken,
                (Some(x), _) if x == l => {
                    t[n] = (None, 0);
                    R::Ok
                }
                (Some(_), _) => R::Other,
                (None, _) => R::Ok,
            };
            if r == want { vec![t] } else { vec![] }
        }
        E::Probe(n, l, there) => {
            let r = (0..s.len()).any(|m| keys[m] == keys[n] && s[m].0 == Some(l));
            if r == there { vec![s.clone()] } else { vec![] }
        }
    }
}
/// Is there an order of the events, compatible with their times, that explains every result?
fn explained(s: &Spec, evs: &[Ev], done: u32, keys: &[&str]) -> bool {
    if done == (1u32 << evs.len()) - 1 {
        return true;
    }
    let first_end = evs.iter().enumerate().filter(|(i, _)| done & (1 << i) == 0).map(|(_, e)| e.t).min().unwrap();
    for (i, e) in evs.iter().enumerate() {
        if done & (1 << i) != 0 || e.b > first_end {
            continue;
        }
        for t in apply(s, &e.e, keys) {
            if explained(&t, evs, done | 1 << i, keys) {
                return true;
            }
        }
    }
    false
}

#[derive(Default)]
struct Own {
    now: u64,
    evs: Vec<Ev>,
    live: Vec<i32>,
}
fn begin(o: &Rc<RefCell<Own>>) -> u64 {
    let mut o = o.borrow_mut();
    o.now += 1;
    o.now
}
fn end(o: &Rc<RefCell<Own>>, b: u64, e: E) {
    let mut o = o.borrow_mut();
    o.now += 1;
    let t = o.now;
    mc::log(|| format!("[{b}..{t}] {e:?}"));
    o.evs.push(Ev { e, b, t });
    if mc::logging() || t <= 12 {
        let h = mc::hash_of(&format!("{:?}", o.evs));
        mc::state(h);
    }
}
fn hold(o: &Rc<RefCell<Own>>, n: usize, h: H, id: u64) {
    {
        let mut o = o.borrow_mut();
        o.live[n] += 1;
        ensure!(o.live[n] == 1, "two handles to one node exist");
    }
    h.load().whole();
    sched::point();
    o.borrow_mut().live[n] -= 1;
    let b = begin(o);
    drop(h);
    end(o, b, E::Release(n, id));
}
fn perform(o: &Rc<RefCell<Own>>, op: O, nodes: &[Node], lists: &[&'static L]) {
    let b = begin(o);
    match op {
        O::Attach(n, l) => {
            let r = sched::block_on(nodes[n].attach_with_default(lists[l], || Sv::new(5))).unwrap();
            end(o, b, E::Take(n, l, res(&r), b));
            if let Ok(h) = r {
                hold(o, n, h, b);
            }
        }
        O::Cancel(n, l) => {
            let mut f = Box::pin(nodes[n].attach_with_default(lists[l], || Sv::new(6)));
            let w = Waker::from(flag());
            let r = f.as_mut().poll(&mut Context::from_waker(&w));
            match r {
                Poll::Ready(r) => {
                    end(o, b, E::Take(n, l, res(&r), b));
                    if let Ok(h) = r {
                        hold(o, n, h, b);
                    }
                }
                Poll::Pending => {
                    end(o, b, E::Take(n, l, R::Pending, b));
                    sched::point();
                    let b2 = begin(o);
                    drop(f);
                    // may not have taken it: then this changes nothing
                    end(o, b2, E::Release(n, b));
                }
            }
        }
        O::Detach(n, l) => {
            let r = sched::block_on(nodes[n].detach(lists[l])).unwrap();
            end(o, b, E::Detach(n, l, res(&r)));
        }
    }
}

/// `threads` programs of `len` operations out of `ops`
fn ownership(threads: usize, len: usize, ops: &'static [O], keys: &'static [&'static str], nlists: usize) {
    let lists: Vec<&'static L> = (0..nlists).map(|_| list()).collect();
    let devs: Vec<Dev> = (0..nlists).map(|i| Dev::with_items(start_content(i % 2))).collect();
    let nodes: Vec<Node> = keys.iter().map(|k| node(k)).collect();
    let o: Rc<RefCell<Own>> = Rc::default();
    o.borrow_mut().live = vec![0; keys.len()];
    // before: nothing, attached but not loaded, or attached and loaded
    let mut spec: Spec = vec![(None, 0); keys.len()];
    let init = pick(3);
    if init > 0 {
        let (n, l, dev) = (nodes[0], lists[0], devs[0].clone());
        spec[0].0 = Some(0);
        sched::run(vec![sched::body(move || {
            drop(once(n.attach_with_default(l, || Sv::new(7))));
            if init == 2 {
                let mut dev = dev;
                let mut buf = [0u8; 96];
                sched::block_on(do_load(l, &mut dev, &mut buf)).unwrap();
                drop(attach(n, l, 8));
            }
        })])
        .unwrap();
    }
    let mut bodies = vec![];
    let mut prev = 0;
    for t in 0..threads {
        // threads are interchangeable: first operations in order only
        let mut prog = vec![];
        for k in 0..len {
            let i = if k == 0 { prev + pick(ops.len() - prev) } else { pick(ops.len()) };
            if k == 0 {
                prev = i;
            }
            prog.push(ops[i]);
        }
        mc::log(|| format!("thread {t}: {prog:?}"));
        let (o, nodes, lists) = (o.clone(), nodes.clone(), lists.clone());
        bodies.push(sched::body(move || {
            for op in prog {
                perform(&o, op, &nodes, &lists);
            }
        }));
    }
    for i in 0..nlists {
        bodies.push(worker(lists[i], devs[i].clone(), false));
    }
    if let Err(s) = sched::run(bodies) {
        mc::violation(format!("threads {s:?} wait for ever"));
    }
    mc::nontrivial();
    // what is left, observed one call after another
    {
        let (o, nodes, lists) = (o.clone(), nodes.clone(), lists.clone());
        sched::run(vec![sched::body(move || {
            for l in 0..lists.len() {
                for n in 0..nodes.len() {
                    // would a fresh node with this key be accepted?
                    let f = node(keys[n]);
                    let b = begin(&o);
                    let there = probe(f, lists[l]);
                    end(&o, b, E::Probe(n, l, there));
                    perform(&o, O::Detach(n, l), &nodes, &lists);
                }
            }
            // now nothing may be attached to anything
            for l in &lists {
                for k in keys {
                    ensure!(!probe(node(k), l), "a list still holds {k} after all nodes were detached");
                }
            }
        })])
        .unwrap();
    }
    let o = o.borrow();
    ensure!(
        explained(&spec, &o.evs, 0, keys),
        "no order of the calls explains their results: {}",
        o.evs.iter().map(|e| format!("[{}..{}] {:?}", e.b, e.t, e.e)).collect::<Vec<_>>().join(" ")
    );
    mc::outcome(mc::hash_of(&format!("{:?}", o.evs)));
}
/// Does the list hold a node with the key of this fresh one?
fn probe(f: Node, l: &'static L) -> bool {
    match once(f.attach_with_default(l, || Sv::new(9))) {
        Poll::Ready(Err(Error::DuplicateKey)) => true,
        Poll::Ready(Err(e)) => mc::violation(format!("a fresh node is refused: {e:?}")),
        _ => {
            let r = sched::block_on(f.detach(l)).unwrap();
            ensure!(r.is_ok(), "cannot detach a released node: {r:?}");
            false
        }
    }
}

const SAME_KEY: &[&str] = &["a", "a"];
const ONE: &[&str] = &["a"];
const ONE_OPS: &[O] = &[O::Attach(0, 0), O::Cancel(0, 0), O::Detach(0, 0), O::Attach(0, 1), O::Cancel(0, 1), O::Detach(0, 1)];
const TWO_OPS: &[O] = &[
    O::Attach(0, 0), O::Cancel(0, 0), O::Detach(0, 0), O::Attach(0, 1), O::Detach(0, 1),
    O::Attach(1, 0), O::Cancel(1, 0), O::Detach(1, 0), O::Attach(1, 1), O::Detach(1, 1),
];

const SHORT_OPS: &[O] = &[O::Attach(0, 0), O::Cancel(0, 0), O::Detach(0, 0), O::Attach(0, 1)];
const THREE_OPS: &[O] = &[
    O::Attach(0, 0), O::Cancel(0, 0), O::Detach(0, 0), O::Attach(0, 1), O::Attach(1, 0), O::Detach(1, 0),
];

pub fn scenarios(id: u32, thorough: bool) -> Vec<Scen> {
    let t8 = thorough as u8;
    match id {
        18 => vec![
            scen("one-user", 3 + t8, || wakeups(1, &[U::Attach, U::Write, U::Write2, U::Cancel, U::Again, U::CancelWrite], 2)),
            scen("two-users", 1 + t8, || wakeups(2, &[U::Attach, U::Write, U::Cancel, U::Again, U::CancelWrite], 2)),
            scen("two-users-plain", 2 + t8, || wakeups(2, &[U::Attach, U::Write], 2)),
            scen("three-users", 1 + t8, || wakeups(3, &[U::Write], 2)),
            scen("contents", 2 + t8, || wakeups(2, &[U::Attach], 7)),
            scen("contents-three-users", 1 + t8, || wakeups(3, &[U::Attach], 7)),
            scen("failing-loads", 3 + t8, || retried(1)),
            scen("failing-loads-two", 2 + t8, || retried(2)),
        ],
        13 => vec![
            scen("threads-two", 2 + t8, || wakeups(2, &[U::Attach, U::Write], 2)),
            scen("threads-three", 1 + t8, || wakeups(3, &[U::Attach], 2)),
        ],
        19 => vec![
            scen("one-writer", 3 + t8, || concurrent(1, 2, 2, false, false)),
            scen("two-writers", 3, || concurrent(2, 1, 2, false, false)),
            scen("with-calls", 2 + t8, || concurrent(2, 2, 2, true, false)),
            scen("cancelled", 2 + t8, || concurrent(2, 1, 2, false, true)),
        ],
        21 => vec![
            scen("threads-one", 2 + t8, || default_worker(1, &[0, 50, 99, 100, 9_999, 10_000, 10_001], &[U::Attach, U::Write, U::Write2])),
            scen("threads-two", 1 + t8, move || {
                default_worker(2, &[0, 100, 10_000], if thorough { &[U::Attach, U::Write, U::Write2] } else { &[U::Write] })
            }),
        ],
        23 => vec![
            scen("threads-stop-one", 2 + t8, || stopped_worker(1, 2, &[0, 50, 9_999, 10_000, 10_001])),
            scen("threads-stop-two", 1 + t8, || stopped_worker(2, 2, &[0, 10_000])),
        ],
        29 => vec![
            scen("threads-one", 3 + t8, || no_op_worker(1, &[V::Attach, V::Write, V::Again, V::Fresh, V::Cancel])),
            scen("threads-two", 1 + t8, || no_op_worker(2, &[V::Attach, V::Write, V::Again, V::Fresh, V::Cancel])),
            scen("threads-two-plain", 2 + t8, || no_op_worker(2, &[V::Attach, V::Fresh])),
            scen("threads-three", 1 + t8, || no_op_worker(3, &[V::Attach])),
        ],
        20 => vec![
            scen("one-node", 2 + t8, || ownership(2, 1, ONE_OPS, ONE, 2)),
            scen("one-node-long", 1 + t8, move || ownership(2, 2, if thorough { ONE_OPS } else { SHORT_OPS }, ONE, 2)),
            scen("same-key", 1 + t8, || ownership(2, 1, TWO_OPS, SAME_KEY, 2)),
            scen("three-threads", 1 + t8, || ownership(3, 1, THREE_OPS, SAME_KEY, 2)),
        ],
        _ => vec![],
    }
}
