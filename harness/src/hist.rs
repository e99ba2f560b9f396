//! History engine: a reference model of nodes, lists and durable snapshots that runs in lockstep
//! with the real lists over the ideal storage of `dev`. Every operation of a history is a call of
//! the public API; the model says what may be observed afterwards. Each property owns a set of
//! assertions, switched on by `flags`.

use crate::dev::*;
use crate::exec::{Keep, Task};
use crate::mc;
use crate::sched::McRaw;
use cfg_noodle::error::{Error, LoadStoreError};
use cfg_noodle::{StorageList, StorageListNode, StorageListNodeHandle};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::pin;
use std::task::{Context, Poll, Waker};

pub type List<const K: usize> = StorageList<McRaw, K>;
pub type Handle<T, const K: usize> = StorageListNodeHandle<T, McRaw, K>;
/// key -> encoded value
pub type Snap = BTreeMap<String, Vec<u8>>;
pub type LErr = LoadStoreError<DErr>;

pub const fn p(n: u32) -> u64 {
    1 << n
}

/// Stored value types usable in histories
pub trait Value:
    Clone + 'static + minicbor::Encode<()> + minicbor::CborLen<()> + for<'b> minicbor::Decode<'b, ()> + Send
{
    fn mk(v: u32) -> Self;
    fn get(&self) -> u32;
    /// between `min` and `max` values should exist now
    fn audit(_min: usize, _max: usize) {}
    /// nodes are gone without their values being dropped
    fn forget_all() {}
}
impl Value for u32 {
    fn mk(v: u32) -> Self {
        v
    }
    fn get(&self) -> u32 {
        *self
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum St {
    /// attached, not loaded
    Waiting,
    /// loaded, nothing found, default not yet placed
    NonRes,
    Has(u32),
}

pub struct N<T: Value, const K: usize> {
    pub key: &'static str,
    pub node: &'static StorageListNode<T>,
    /// list it is attached to
    pub att: Option<usize>,
    /// a handle exists or an attach is in progress
    pub live: bool,
    pub task: Option<(Task<Result<Handle<T, K>, Error>>, u32)>,
    pub handle: Option<Handle<T, K>>,
    pub st: St,
    /// a load that failed may have filled it
    pub maybe: bool,
    pub dirty: bool,
    /// values the pending load may yield
    pub written: bool,
    /// it has been detached before
    pub again: bool,
}

pub struct L<const K: usize> {
    pub list: &'static List<K>,
    pub dev: Dev,
    pub acked: Option<Snap>,
    pub pending: Vec<Snap>,
    /// every snapshot ever handed to storage
    pub ever: Vec<Snap>,
    pub scanned: bool,
    pub gc_due: bool,
    /// a failed or cancelled call makes the gates above uncertain until the next collection
    pub fuzzy: bool,
    /// only because a load failed or was cancelled, perhaps after its scan
    pub fuzzy_scan: bool,
    /// a successful flush has happened since the start
    pub flushed: bool,
    /// storage was replaced by other valid content and nothing has been flushed since
    pub foreign: bool,
    /// a flush or collection did not complete: a collection is due whatever else is known
    pub must_gc: bool,
    /// a load stopped half way: nodes that still wait may already hold their value
    pub partial: bool,
}

pub struct World<T: Value, const K: usize> {
    pub flags: u64,
    pub n: Vec<N<T, K>>,
    pub l: Vec<L<K>>,
    pub buf: Vec<u8>,
    pub next_val: u32,
    /// storage corruption or content outside the model: skip the snapshot assertions
    pub wild: bool,
    /// attaches are not polled after loads
    pub lazy: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Call {
    Load,
    Flush,
    Gc,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Cnt {
    pub read: usize,
    pub second: usize,
    pub third: usize,
}
#[derive(Debug)]
pub enum Res {
    Ok(Cnt),
    Err(LErr),
    Cancelled,
    Crashed,
}
impl Res {
    pub fn is_ok(&self) -> bool {
        matches!(self, Res::Ok(_))
    }
}

/// Operations of a history
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Write(usize),
    Load,
    /// a load after which the waiting attaches are not polled
    LoadLazy,
    Flush,
    Gc,
    /// the calls a well-behaved worker makes: load, collect, flush, collect
    Cycle,
    Reboot,
    /// restart, attach everything and load
    Restart,
    Reset,
    /// (node, list)
    Attach(usize, usize),
    CancelAttach(usize),
    Release(usize),
    Detach(usize, usize),
    /// poll waiting attaches
    Poll,
    LoadL(usize),
    LoadLazyL(usize),
    FlushL(usize),
    GcL(usize),
    CycleL(usize),
    /// the storage is erased and the cache reset
    Wipe,
    /// the storage is replaced by a record of foreign values, and the cache reset
    Foreign(u32),
}

pub type W<T, const K: usize> = Keep<World<T, K>>;

pub fn enc(v: u32) -> Vec<u8> {
    minicbor::to_vec(v).unwrap()
}

pub fn menu_err() -> Menu {
    use Ans::*;
    Menu { iter: vec![Err], next: vec![Err], push: vec![Err, ErrAfter, ErrTorn], inval: vec![Err, ErrAfter, ErrTorn] }
}
pub fn menu_cancel() -> Menu {
    use Ans::*;
    Menu {
        iter: vec![Cancel],
        next: vec![Cancel],
        push: vec![Cancel, CancelAfter, CancelTorn],
        inval: vec![Cancel, CancelAfter, CancelTorn],
    }
}
pub fn menu_crash() -> Menu {
    use Ans::*;
    Menu { iter: vec![], next: vec![], push: vec![Crash, CrashAfter, CrashTorn], inval: vec![CrashAfter, CrashTorn] }
}
pub fn menu_all() -> Menu {
    use Ans::*;
    Menu {
        iter: vec![Err, Cancel],
        next: vec![Err, Cancel],
        push: vec![Err, ErrAfter, ErrTorn, Cancel, CancelAfter, CancelTorn, Crash, CrashAfter, CrashTorn],
        inval: vec![Err, ErrAfter, ErrTorn, Cancel, CancelAfter, CrashAfter, CrashTorn],
    }
}

impl<T: Value, const K: usize> World<T, K> {
    pub fn new(flags: u64, keys: &[&'static str], lists: usize) -> W<T, K> {
        let mut w = World { flags, n: vec![], l: vec![], buf: vec![0; 96], next_val: 0, wild: false, lazy: false };
        for _ in 0..lists {
            w.l.push(L {
                list: crate::arena::list(StorageList::new()),
                dev: Dev::new(),
                acked: None,
                pending: vec![],
                ever: vec![],
                scanned: false,
                gc_due: false,
                fuzzy: false,
                fuzzy_scan: false,
                flushed: false,
                foreign: false,
                partial: false,
                must_gc: false,
            });
        }
        for k in keys {
            w.n.push(Self::fresh_node(k));
        }
        Keep(Some(w))
    }
    fn fresh_node(key: &'static str) -> N<T, K> {
        N {
            key,
            node: crate::arena::node(StorageListNode::new(crate::arena::text(key))),
            att: None,
            live: false,
            task: None,
            handle: None,
            st: St::Waiting,
            maybe: false,
            dirty: false,
            written: false,
            again: false,
        }
    }
    pub fn on(&self, n: u32) -> bool {
        self.flags & p(n) != 0
    }
    /// A condition that belongs to the properties in `ps`; when none of them is being checked
    /// and the model cannot go on without it, the execution is abandoned.
    pub fn want(&self, ps: &[u32], cond: bool, msg: impl FnOnce() -> String) {
        if !cond {
            let hit: Vec<String> = ps.iter().filter(|x| self.on(**x)).map(|x| format!("C{x:02}")).collect();
            if hit.is_empty() {
                mc::prune(msg());
            }
            mc::violation(format!("{}: {}", hit.join(","), msg()));
        }
    }
    /// As `want`, but the model can go on
    pub fn check(&self, ps: &[u32], cond: bool, msg: impl FnOnce() -> String) {
        if !cond && ps.iter().any(|x| self.on(*x)) {
            self.want(ps, cond, msg)
        }
    }
    pub fn val(&mut self) -> u32 {
        self.next_val += 1;
        // every second value has a longer encoding, so that record sizes vary
        self.next_val + 7 * (self.next_val & 1) * 20
    }

    /// Snapshot of the loaded nodes of list `l`
    pub fn snap(&self, l: usize) -> Snap {
        self.n
            .iter()
            .filter(|n| n.att == Some(l))
            .filter_map(|n| match n.st {
                St::Has(v) => Some((n.key.to_string(), minicbor::to_vec(T::mk(v)).unwrap())),
                _ => None,
            })
            .collect()
    }
    pub fn dirty(&self, l: usize) -> bool {
        self.n.iter().any(|n| n.att == Some(l) && n.dirty && matches!(n.st, St::Has(_)))
    }
    pub fn waiting(&self, l: usize) -> bool {
        self.n.iter().any(|n| n.att == Some(l) && n.st == St::Waiting)
    }
    pub fn allowed(&self, l: usize) -> Vec<Option<Snap>> {
        let l = &self.l[l];
        let mut v = vec![l.acked.clone()];
        v.extend(l.pending.iter().cloned().map(Some));
        v
    }

    // ---------------------------------------------------------------- calls

    pub fn raw_call(&mut self, l: usize, c: Call) -> Res {
        let list = self.l[l].list;
        let mut dev = self.l[l].dev.clone();
        let d2 = dev.clone();
        let buf = &mut self.buf[..];
        let mut fut = pin!(async move {
            match c {
                Call::Load => list
                    .process_reads(&mut dev, buf)
                    .await
                    .map(|c| Cnt { read: c.total_bytes_read, second: c.current_bytes_read, third: 0 }),
                Call::Flush => list
                    .process_writes(&mut dev, buf)
                    .await
                    .map(|c| Cnt { read: c.total_bytes_read, second: c.current_bytes_written, third: 0 }),
                Call::Gc => list.process_garbage(&mut dev, buf).await.map(|c| Cnt {
                    read: c.total_bytes_read,
                    second: c.total_bytes_popped,
                    third: c.post_collection_bytes_read,
                }),
            }
        });
        let mut idle = 0;
        loop {
            match fut.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
                Poll::Ready(Ok(c)) => return Res::Ok(c),
                Poll::Ready(Err(e)) => return Res::Err(e),
                Poll::Pending => match d2.take_intr() {
                    Some(Intr::Cancel) => return Res::Cancelled,
                    Some(Intr::Crash) => return Res::Crashed,
                    None => {
                        idle += 1;
                        if idle > 1000 || !d2.0.borrow().yielding {
                            mc::violation(format!("{c:?} waits although nobody else uses the list"));
                        }
                    }
                },
            }
        }
    }

    /// One call with all assertions about its effects. Returns its result.
    pub fn call(&mut self, l: usize, c: Call) -> Res {
        let before = self.l[l].dev.0.borrow().items.clone();
        let recs = self.l[l].dev.records();
        let faults = self.l[l].dev.0.borrow().faults;
        self.l[l].dev.take_log();
        let mut snap = self.snap(l);
        let dirty = self.dirty(l);
        let waiting = self.waiting(l);
        // nodes that a load which stopped half way may have filled; what is not stored is only
        // settled at the end of a load
        let hidden: Vec<(&'static str, Vec<Option<u32>>)> = self
            .n
            .iter()
            .filter(|n| n.att == Some(l) && n.st == St::Waiting && n.maybe)
            .map(|n| (n.key, self.options(l, n.key, &recs)))
            .filter(|(_, o)| o.iter().any(|v| v.is_some()))
            .collect();
        let waiters = self.n.iter().filter(|n| n.att == Some(l) && n.st == St::Waiting).count();
        let (scanned, gc_due, fuzzy) = (self.l[l].scanned, self.l[l].gc_due, self.l[l].fuzzy);
        let r = self.raw_call(l, c);
        let log = self.l[l].dev.take_log();
        let after = self.l[l].dev.0.borrow().items.clone();
        let arecs = self.l[l].dev.records();
        let faulted = self.l[l].dev.0.borrow().faults != faults || log.iter().any(|o| !o.ok);
        if c == Call::Flush && !hidden.is_empty() {
            // a node that was filled by a load that stopped half way is written like any other
            let m = parse(&after.iter().skip(before.len()).map(|i| &i.b[..]).collect::<Vec<_>>()).first().map(|r| r.map());
            for (k, o) in &hidden {
                match m.as_ref().and_then(|m| m.get(*k)) {
                    Some(v) if o.contains(&Self::decode(v)) => drop(snap.insert(k.to_string(), v.clone())),
                    _ => self.check(&[1, 8, 9, 12, 16], m.is_none() || !r.is_ok() || self.wild, || {
                        format!("a flush while {k} waits for a load stores a record without its value")
                    }),
                }
            }
        }
        mc::log(|| format!("{c:?}{} -> {r:?} | {}", if l > 0 { format!("@{l}") } else { String::new() }, self.l[l].dev.describe()));
        mc::step();
        let ids = |v: &[Item]| v.iter().map(|i| i.id).collect::<Vec<_>>();

        // -- what each kind of call may do to storage, whatever its result
        let pushes = log.iter().filter(|o| o.k == OpK::Push).count();
        let invals = log.iter().filter(|o| o.k == OpK::Inval).count();
        match c {
            Call::Load => self.check(&[11], pushes == 0 && invals == 0, || "a load writes or removes elements".into()),
            Call::Flush => self.check(&[11, 4], invals == 0, || "a flush removes elements".into()),
            Call::Gc => self.check(&[4], pushes == 0, || "a collection writes elements".into()),
        }
        if faulted && !self.wild {
            self.check(&[8], !r.is_ok(), || format!("{c:?} reports success although storage failed"));
        }

        // -- gates
        if c == Call::Flush && self.l[l].must_gc && !faulted {
            let refused = matches!(
                r,
                Res::Err(LoadStoreError::AppError(Error::NeedsGarbageCollect | Error::NeedsFirstRead))
            );
            self.check(&[12], refused && log.is_empty(), || {
                format!("a flush after a flush or collection that did not complete gives {r:?}")
            });
        }
        if !faulted && !fuzzy {
            match (c, &r) {
                (Call::Flush, r) => {
                    let need_load = !scanned || waiters > hidden.len();
                    let may_load = need_load || waiting;
                    let refused_l = matches!(r, Res::Err(LoadStoreError::AppError(Error::NeedsFirstRead)));
                    let refused_g = matches!(r, Res::Err(LoadStoreError::AppError(Error::NeedsGarbageCollect)));
                    let ok = match (need_load, gc_due) {
                        (true, true) => refused_l || refused_g,
                        (true, false) => refused_l,
                        (false, true) => refused_g || may_load && refused_l,
                        (false, false) => !(refused_l && !may_load) && !refused_g,
                    };
                    self.check(&[12], ok, || {
                        format!("flush with load needed={need_load}, collection due={gc_due} gives {r:?}")
                    });
                    if need_load || gc_due || refused_l {
                        self.check(&[12], log.is_empty(), || "a refused flush touches storage".into());
                    } else {
                        self.want(&[1, 3, 5, 8, 9, 10, 11, 12, 16, 26, 27, 30], r.is_ok(), || {
                            format!("flush on working storage fails: {r:?}")
                        });
                    }
                }
                (Call::Gc, r) => {
                    self.want(&[3, 4, 5, 6, 7, 8, 9, 12, 26, 30], r.is_ok(), || format!("collection on working storage fails: {r:?}"));
                    if !gc_due {
                        self.check(&[12], log.is_empty(), || "a collection that is not due touches storage".into());
                    }
                }
                (Call::Load, r) => {
                    self.want(&[1, 2, 3, 5, 6, 7, 8, 9, 13, 16, 26, 27, 30, 31], r.is_ok(), || format!("load on working storage fails: {r:?}"))
                }
            }
        }

        // -- effects
        match (c, &r) {
            (Call::Load, Res::Ok(cnt)) => {
                self.after_load(l, &arecs);
                self.l[l].partial = false;
                if before.is_empty() {
                    self.l[l].must_gc = false;
                }
                if !scanned {
                    self.l[l].scanned = true;
                    self.l[l].gc_due = !before.is_empty();
                }
                if self.l[l].fuzzy_scan {
                    self.l[l].fuzzy = false;
                    self.l[l].fuzzy_scan = false;
                }
                let read: usize = log.iter().filter(|o| o.k == OpK::Next).map(|o| o.size).sum();
                self.check(&[28], cnt.read == read, || format!("load reports {} bytes read, storage {read}", cnt.read));
                if !self.wild && !fuzzy {
                    let ov = self.l[l].dev.0.borrow().overhead;
                    let data: usize =
                        newest(&arecs).first().map(|r| r.kvs.iter().map(|k| k.len() + 1 + ov).sum()).unwrap_or(0);
                    self.check(&[28], cnt.second == data, || {
                        format!("load reports {} bytes of current data, stored {data}", cnt.second)
                    });
                }
            }
            (Call::Flush, Res::Ok(cnt)) => {
                let wrote = pushes > 0;
                if dirty || recs.is_empty() {
                    self.check(&[1, 8, 9, 11, 16, 30], !dirty || wrote, || "flush with unflushed changes writes nothing".into());
                    self.check(&[30], wrote || self.wild, || "flush on storage without records writes nothing".into());
                } else if !fuzzy {
                    self.check(&[11], log.is_empty(), || "flush without unflushed changes touches storage".into());
                }
                if wrote {
                    self.l[l].foreign = false;
                    let new: Vec<Vec<u8>> = after.iter().skip(before.len()).map(|i| i.b.clone()).collect();
                    let keep = ids(&after)[..before.len().min(after.len())] == ids(&before)[..];
                    if !faulted {
                        self.check(&[11], keep, || "flush changes existing elements".into());
                        let nr = parse(&new);
                        let one = nr.len() == 1 && nr[0].n == new.len();
                        self.check(&[11], one, || format!("flush does not append exactly one record: {}", describe(&new)));
                        if one {
                            let m: Snap = nr[0].map();
                            self.check(&[11, 16], m == snap && nr[0].kvs.len() == snap.len(), || {
                                format!("flushed record is not the loaded nodes once each: {} instead of {}", describe(&new), show(&snap))
                            });
                        }
                    }
                    // acknowledged: the newest record in storage is the memory image
                    let nw = newest(&arecs);
                    self.check(&[1, 2, 8, 9, 10, 11, 16, 27, 30], nw.len() == 1 && nw[0].map() == snap && nw[0].kvs.len() == snap.len(), || {
                        format!("flush acknowledged, but storage holds {} instead of {}", self.l[l].dev.describe(), show(&snap))
                    });
                    if let Some(x) = nw.first() {
                        self.check(&[27], recs.iter().all(|r| r.seq < x.seq), || {
                            format!("sequence number {} is not above all of {:?}", x.seq, recs.iter().map(|r| r.seq).collect::<Vec<_>>())
                        });
                    }
                    self.l[l].gc_due = true;
                }
                if wrote || !dirty {
                    if wrote {
                        self.l[l].ever.push(snap.clone());
                        self.l[l].acked = Some(snap.clone());
                        self.l[l].pending.clear();
                    }
                    for n in self.n.iter_mut().filter(|n| n.att == Some(l)) {
                        n.dirty = false;
                    }
                }
                self.l[l].flushed = true;
                let read: usize = log.iter().filter(|o| o.k == OpK::Next).map(|o| o.size).sum();
                let pushed: usize = log.iter().filter(|o| o.k == OpK::Push && o.ok).map(|o| o.size).sum();
                self.check(&[28], cnt.read == read && cnt.second == pushed, || {
                    format!("flush reports {cnt:?}, storage read {read} wrote {pushed}")
                });
            }
            (Call::Gc, Res::Ok(cnt)) => {
                if gc_due && !fuzzy {
                    self.check_gc(&recs, &before, &after);
                }
                if self.l[l].scanned || log.iter().any(|o| o.k == OpK::Iter) {
                    self.l[l].scanned = true;
                    self.l[l].gc_due = false;
                    self.l[l].fuzzy = false;
                    self.l[l].fuzzy_scan = false;
                    self.l[l].must_gc = false;
                }
                let read: usize = log.iter().filter(|o| o.k == OpK::Next).map(|o| o.size).sum();
                let popped: usize = log.iter().filter(|o| o.k == OpK::Inval && o.ok).map(|o| o.size).sum();
                let post = match log.iter().rposition(|o| o.k == OpK::Inval) {
                    Some(_) => {
                        let last = log.iter().rposition(|o| o.k == OpK::Iter).unwrap_or(0);
                        Some(log[last..].iter().filter(|o| o.k == OpK::Next).map(|o| o.size).sum::<usize>())
                    }
                    None => None,
                };
                self.check(&[28], cnt.read == read && cnt.second == popped && post.is_none_or(|p| p == cnt.third), || {
                    format!("collection reports {cnt:?}, storage read {read} removed {popped} re-read {post:?}")
                });
            }
            (Call::Flush, _) => {
                if pushes > 0 {
                    self.l[l].ever.push(snap.clone());
                    self.l[l].pending.push(snap.clone());
                    self.l[l].fuzzy = true;
                    self.l[l].fuzzy_scan = false;
                    self.l[l].must_gc = true;
                } else if faulted {
                    self.l[l].fuzzy = true;
                    self.l[l].fuzzy_scan = false;
                    self.l[l].must_gc = true;
                }
            }
            (Call::Gc, _) => {
                if faulted {
                    self.l[l].fuzzy = true;
                    self.l[l].fuzzy_scan = false;
                    self.l[l].must_gc = true;
                }
                // what was to be kept is still there
                let keep = keep_set::<K>(&recs);
                for r in &recs {
                    if keep.contains(&r.at) {
                        let want = &before[r.at..r.at + r.n];
                        let have: Vec<&Item> = after.iter().filter(|i| want.iter().any(|w| w.id == i.id)).collect();
                        self.check(&[5], have.len() == want.len() && have.iter().zip(want).all(|(a, b)| *a == b), || {
                            format!("interrupted collection damaged record {}", r.seq)
                        });
                    }
                }
            }
            (Call::Load, _) => {
                // the scan may have been completed before the call failed
                if !scanned && !fuzzy {
                    self.l[l].fuzzy = true;
                    self.l[l].fuzzy_scan = true;
                }
            }
        }
        if matches!(r, Res::Err(_) | Res::Cancelled) && !self.wild {
            // memory is as before; what is waiting may have been loaded
            if c == Call::Load {
                self.after_failed_load(l, &arecs);
                self.l[l].partial = self.waiting(l);
                for n in self.n.iter_mut().filter(|n| n.att == Some(l) && n.st == St::Waiting) {
                    n.maybe = true;
                }
            }
        }
        self.check_storage(l);
        if matches!(r, Res::Crashed) {
            self.power_off();
        } else {
            self.check_handles();
        }
        mc::state(mc::hash_of(&(self.l[l].dev.items(), self.model_hash())));
        r
    }

    pub fn model_hash(&self) -> u64 {
        let v: Vec<_> = self.n.iter().map(|n| (n.st, n.dirty, n.att, n.live)).collect();
        let l: Vec<_> = self.l.iter().map(|l| (l.scanned, l.gc_due, l.fuzzy)).collect();
        mc::hash_of(&(v, l))
    }

    fn check_gc(&self, recs: &[RefRecord], before: &[Item], after: &[Item]) {
        let mut seqs: Vec<u32> = recs.iter().map(|r| r.seq).collect();
        seqs.sort();
        seqs.dedup();
        if seqs.len() != recs.len() {
            return;
        }
        let keep = keep_set::<K>(recs);
        let want: Vec<&Item> = recs
            .iter()
            .filter(|r| keep.contains(&r.at))
            .flat_map(|r| before[r.at..r.at + r.n].iter())
            .collect();
        // also: a collection that follows an interrupted one completes its work
        let ids: &[u32] = if mc::deviations_used() > 0 { &[4, 5] } else { &[4] };
        self.check(ids, want.len() == after.len() && want.iter().zip(after).all(|(a, b)| *a == b), || {
            format!(
                "collection leaves {} instead of {}",
                describe(&after.iter().map(|i| &i.b[..]).collect::<Vec<_>>()),
                describe(&want.iter().map(|i| &i.b[..]).collect::<Vec<_>>())
            )
        });
    }

    /// Records a load may have used: the newest one; after failures any that may be current
    fn candidates<'a>(&self, l: usize, recs: &'a [RefRecord]) -> Vec<Option<&'a RefRecord>> {
        let nw = newest(recs);
        if self.wild || !self.l[l].fuzzy {
            if nw.is_empty() { vec![None] } else { nw.into_iter().map(Some).collect() }
        } else {
            let al = self.allowed(l);
            let mut v: Vec<_> =
                recs.iter().filter(|r| al.iter().any(|a| a.as_ref() == Some(&r.map()))).map(Some).collect();
            v.extend(nw.into_iter().map(Some));
            if recs.is_empty() || al.contains(&None) {
                v.push(None)
            }
            v
        }
    }

    fn decode(v: &[u8]) -> Option<u32> {
        minicbor::decode::<T>(v).ok().map(|t| t.get())
    }
    fn options(&self, l: usize, key: &str, recs: &[RefRecord]) -> Vec<Option<u32>> {
        let mut v: Vec<Option<u32>> = self
            .candidates(l, recs)
            .into_iter()
            .map(|r| r.and_then(|r| r.map().get(key).and_then(|v| Self::decode(v))))
            .collect();
        v.sort();
        v.dedup();
        v
    }

    /// After a successful load nothing is waiting any more
    fn after_load(&mut self, l: usize, recs: &[RefRecord]) {
        for i in 0..self.n.len() {
            if self.n[i].att != Some(l) || self.n[i].st != St::Waiting {
                continue;
            }
            let opts = self.options(l, self.n[i].key, recs);
            self.settle(i, opts, true);
        }
    }
    /// After a failed load each waiting node may or may not have been filled
    fn after_failed_load(&mut self, l: usize, recs: &[RefRecord]) {
        for i in 0..self.n.len() {
            if self.n[i].att != Some(l) || self.n[i].st != St::Waiting {
                continue;
            }
            let opts: Vec<Option<u32>> = self.options(l, self.n[i].key, recs);
            self.settle(i, opts, false);
        }
    }
    /// Poll the attach of node `i` (waiting until now) and adopt what it got
    fn settle(&mut self, i: usize, opts: Vec<Option<u32>>, must: bool) {
        let key = self.n[i].key;
        if self.n[i].task.is_none() || self.lazy && must && opts.len() == 1 {
            // nobody looks: only possible if the attach was cancelled; observe it by attaching again
            if must {
                match &opts[..] {
                    [Some(v)] => self.n[i].st = St::Has(*v),
                    [None] => self.n[i].st = St::NonRes,
                    _ => mc::prune("ambiguous unobserved load"),
                }
                self.n[i].dirty = false;
                return;
            }
            // a later attach will tell
            return;
        }
        let default = self.n[i].task.as_ref().unwrap().1;
        let r = self.n[i].task.as_mut().unwrap().0.poll();
        match r {
            None => {
                self.want(&[8, 9, 13, 18, 29], !must, || format!("attach of {key} does not complete after a load"));
                self.n[i].st = St::Waiting;
            }
            Some(Ok(h)) => {
                let got = h.load().get();
                self.n[i].task = None;
                self.n[i].handle = Some(h);
                let from_store = opts.contains(&Some(got));
                let from_default = opts.contains(&None) && got == default;
                self.want(&[1, 2, 3, 5, 6, 7, 8, 9, 13, 16, 26, 27, 30, 31], from_store || from_default, || {
                    format!("{key} loads {got}; stored {opts:?}, default {default}")
                });
                self.n[i].st = St::Has(got);
                self.n[i].dirty = !from_store;
            }
            Some(Err(e)) => self.want(&[13, 15], false, || format!("attach of {key} fails after a load: {e:?}")),
        }
    }

    /// The newest durable record is an allowed one
    pub fn check_storage(&self, l: usize) {
        if self.wild {
            return;
        }
        let recs = self.l[l].dev.records();
        let nw = newest(&recs);
        let al = self.allowed(l);
        if nw.is_empty() {
            self.check(&[1, 2, 5, 8, 9, 27], al.contains(&None), || {
                format!("acknowledged values lost: storage holds no record: {}", self.l[l].dev.describe())
            });
        }
        for r in &nw {
            let m = r.map();
            self.check(&[1, 5, 8, 9, 27], al.contains(&Some(m.clone())), || {
                format!("storage would load {}, allowed {}", show(&m), al.iter().map(show_o).collect::<Vec<_>>().join(" or "))
            });
            self.check(&[2], self.l[l].ever.contains(&m), || format!("storage would load {}, which was never flushed", show(&m)));
        }
        self.check(&[27], nw.len() <= 1, || format!("two records share sequence number {}", nw[0].seq));
        let mut seqs: Vec<u32> = recs.iter().map(|r| r.seq).collect();
        let n = seqs.len();
        seqs.sort();
        seqs.dedup();
        self.check(&[27], seqs.len() == n, || format!("two intact records share a sequence number: {}", self.l[l].dev.describe()));
    }

    pub fn check_handles(&self) {
        for n in &self.n {
            if let (Some(h), St::Has(v)) = (&n.handle, n.st) {
                let got = h.load().get();
                self.check(&[14, 8, 9, 16, 30], got == v, || format!("handle of {} reads {got} instead of {v}", n.key));
            }
        }
    }

    // ---------------------------------------------------------------- node operations

    pub fn attach(&mut self, i: usize, l: usize) {
        let d = self.val();
        let node = self.n[i].node;
        let list = self.l[l].list;
        let mut t: Task<Result<Handle<T, K>, Error>> =
            Task::new(async move { node.attach_with_default(list, move || T::mk(d)).await });
        let key = self.n[i].key;
        let expect = match self.n[i].att {
            Some(x) if x != l => Some(Error::NodeInOtherList),
            Some(_) if self.n[i].live => Some(Error::AlreadyTaken),
            Some(_) => None,
            None if self.n.iter().any(|n| n.att == Some(l) && n.key == key) => Some(Error::DuplicateKey),
            None => None,
        };
        let r = t.poll();
        mc::log(|| format!("attach {key}#{i} to list {l} -> {r:?}"));
        mc::step();
        match (&expect, r) {
            (Some(e), r) => {
                self.want(&[15], matches!(&r, Some(Err(x)) if x == e), || {
                    format!("attach of {key} gives {r:?}, expected {e:?}")
                });
                std::mem::forget(t);
            }
            (None, Some(Err(e))) => self.want(&[15, 9, 16], false, || format!("attach of {key} refused: {e:?}")),
            (None, Some(Ok(h))) => {
                let got = h.load().get();
                let first = self.n[i].att.is_none();
                if self.n[i].st == St::Waiting && !first && self.n[i].maybe {
                    // filled by a load that stopped half way
                    let opts = self.options(l, key, &self.l[l].dev.records());
                    self.want(&[2, 8, 9, 13, 16], opts.contains(&Some(got)), || {
                        format!("{key} loads {got}; stored {opts:?}, default {d}")
                    });
                    self.n[i].st = St::Has(got);
                    self.n[i].dirty = false;
                }
                let ps: &[u32] = if self.n[i].again { &[13, 15, 16] } else { &[13, 15] };
                self.want(ps, !first, || format!("attach of {key} completes without a load"));
                match self.n[i].st {
                    St::Has(v) => self.want(&[14, 16], got == v, || format!("re-attached {key} reads {got} instead of {v}")),
                    St::NonRes => {
                        self.want(&[13, 16], got == d, || format!("{key} reads {got} instead of default {d}"));
                        self.n[i].st = St::Has(d);
                        self.n[i].dirty = true;
                    }
                    St::Waiting => self.want(&[13, 15], false, || format!("{key} got {got} before being loaded")),
                }
                self.n[i].handle = Some(h);
                self.n[i].live = true;
            }
            (None, None) => {
                self.want(&[13, 15, 16, 18], self.n[i].att.is_none() || self.n[i].st == St::Waiting, || {
                    format!("attach of loaded {key} does not complete")
                });
                if self.n[i].att.is_none() {
                    self.n[i].att = Some(l);
                    self.n[i].st = St::Waiting;
                    self.n[i].maybe = false;
                    self.n[i].dirty = false;
                }
                self.n[i].live = true;
                self.n[i].task = Some((t, d));
            }
        }
    }
    /// Drop an unfinished attach
    pub fn cancel_attach(&mut self, i: usize) -> bool {
        if self.n[i].task.is_none() {
            return false;
        }
        mc::log(|| format!("cancel attach {}", self.n[i].key));
        self.n[i].task = None;
        self.n[i].live = false;
        true
    }
    pub fn release(&mut self, i: usize) -> bool {
        if self.n[i].handle.is_none() {
            return false;
        }
        mc::log(|| format!("release {}#{i}", self.n[i].key));
        self.n[i].handle = None;
        self.n[i].live = false;
        true
    }
    pub fn detach(&mut self, i: usize, l: usize) {
        let node = self.n[i].node;
        let list = self.l[l].list;
        let r = crate::exec::poll_once(pin!(node.detach(list)));
        mc::log(|| format!("detach {}#{i} from list {l} -> {r:?}", self.n[i].key));
        mc::step();
        let expect = match self.n[i].att {
            None => Ok(()),
            Some(x) if x != l => Err(Error::NodeInOtherList),
            Some(_) if self.n[i].live => Err(Error::AlreadyTaken),
            Some(_) => Ok(()),
        };
        self.want(&[15], matches!(&r, Poll::Ready(x) if *x == expect), || {
            format!("detach of {} gives {r:?}, expected {expect:?}", self.n[i].key)
        });
        if expect.is_ok() {
            self.n[i].att = None;
            self.n[i].again = true;
            self.n[i].st = St::Waiting;
            self.n[i].dirty = false;
        }
    }
    pub fn write(&mut self, i: usize) -> bool {
        if self.n[i].handle.is_none() {
            return false;
        }
        let v = self.val();
        let r = {
            let h = self.n[i].handle.as_mut().unwrap();
            let t = T::mk(v);
            crate::exec::poll_once(pin!(h.write(&t)))
        };
        mc::log(|| format!("write {}={v} -> {r:?}", self.n[i].key));
        mc::step();
        self.want(&[14, 8, 9, 15], r == Poll::Ready(Ok(())), || format!("write to {} gives {r:?}", self.n[i].key));
        self.n[i].st = St::Has(v);
        self.n[i].dirty = true;
        self.n[i].written = true;
        self.check_handles();
        true
    }
    pub fn reset_cache(&mut self, l: usize) {
        let list = self.l[l].list;
        self.l[l].dev.take_log();
        let r = crate::exec::poll_once(pin!(list.reset_cache()));
        mc::log(|| "reset cache".into());
        self.want(&[30], r == Poll::Ready(()), || "reset_cache does not complete".into());
        self.check(&[30], self.l[l].dev.take_log().is_empty(), || "reset_cache touches storage".into());
        self.l[l].scanned = false;
        self.l[l].gc_due = false;
        self.l[l].fuzzy = false;
        self.l[l].fuzzy_scan = false;
        self.l[l].must_gc = false;
        self.check_handles();
    }
    /// Poll all waiting attaches
    pub fn poll(&mut self) {
        for i in 0..self.n.len() {
            let Some((t, d)) = &mut self.n[i].task else { continue };
            let d = *d;
            let r = t.poll();
            match r {
                None => self.want(&[13, 18], self.n[i].st == St::Waiting, || format!("attach of loaded {} hangs", self.n[i].key)),
                Some(Err(e)) => self.want(&[13, 15], false, || format!("attach of {} fails: {e:?}", self.n[i].key)),
                Some(Ok(h)) => {
                    let got = h.load().get();
                    if let (St::Waiting, true, Some(l)) = (self.n[i].st, self.n[i].maybe, self.n[i].att)
                        && self.options(l, self.n[i].key, &self.l[l].dev.records()).contains(&Some(got))
                    {
                        self.n[i].st = St::Has(got);
                        self.n[i].dirty = false;
                    }
                    match self.n[i].st {
                        St::Has(v) => self.want(&[14, 16], got == v, || format!("{} reads {got} instead of {v}", self.n[i].key)),
                        St::NonRes => {
                            self.want(&[13, 16], got == d, || format!("{} reads {got} instead of default {d}", self.n[i].key));
                            self.n[i].st = St::Has(got);
                            self.n[i].dirty = true;
                        }
                        St::Waiting => self.want(&[13, 15], false, || format!("{} got {got} before being loaded", self.n[i].key)),
                    }
                    self.n[i].handle = Some(h);
                    self.n[i].task = None;
                }
            }
        }
    }

    // ---------------------------------------------------------------- restarts

    /// The device loses power: all in-memory state is gone
    /// As many values exist as the nodes hold
    pub fn audit(&self) {
        let min = self.n.iter().filter(|n| matches!(n.st, St::Has(_))).count();
        let hidden =
            self.n.iter().filter(|n| n.att.is_some_and(|l| self.l[l].partial) && n.st == St::Waiting).count();
        T::audit(min, min + hidden)
    }
    pub fn power_off(&mut self) {
        self.audit();
        for n in &mut self.n {
            let key = n.key;
            n.task = None;
            n.handle = None;
            *n = Self::fresh_node(key);
        }
        T::forget_all();
        for l in &mut self.l {
            l.list = crate::arena::list(StorageList::new());
            l.scanned = false;
            l.gc_due = false;
            l.fuzzy = false;
            l.fuzzy_scan = false;
            l.flushed = false;
            l.foreign = false;
            l.partial = false;
            l.must_gc = false;
            l.dev.0.borrow_mut().dead = false;
            l.dev.0.borrow_mut().intr = None;
        }
        mc::log(|| "power off".into());
    }
    pub fn alive(&self) -> bool {
        self.n.iter().any(|n| n.att.is_some())
    }
    /// Attach every node (to list 0) that is not attached
    pub fn attach_all(&mut self) {
        for i in 0..self.n.len() {
            if self.n[i].att.is_none() && !self.n.iter().any(|m| m.att == Some(0) && m.key == self.n[i].key) {
                self.attach(i, 0);
            }
        }
    }
    /// Attach everything and load on list 0. Without faults this must work.
    pub fn boot(&mut self) -> Res {
        self.attach_all();
        let r = self.call(0, Call::Load);
        if r.is_ok() {
            self.after_boot();
        }
        r
    }
    /// What a restart loaded is from now on what must stay
    pub fn after_boot(&mut self) {
        if self.wild {
            return;
        }
        let recs = self.l[0].dev.records();
        let al = self.allowed(0);
        // which durable snapshot was observed?
        let stored: Snap = self
            .n
            .iter()
            .filter(|n| n.att == Some(0) && !n.dirty)
            .filter_map(|n| match n.st {
                St::Has(v) => Some((n.key.to_string(), minicbor::to_vec(T::mk(v)).unwrap())),
                _ => None,
            })
            .collect();
        let restrict = |s: &Snap| -> Snap {
            s.iter().filter(|(k, _)| self.n.iter().any(|n| n.att == Some(0) && n.key == **k)).map(|(k, v)| (k.clone(), v.clone())).collect()
        };
        if self.n.iter().all(|n| n.att == Some(0) && n.handle.is_some()) {
            self.check(&[1], al.iter().any(|a| a.as_ref().map(&restrict).unwrap_or_default() == stored), || {
                format!("restart loads {}, allowed {}", show(&stored), al.iter().map(show_o).collect::<Vec<_>>().join(" or "))
            });
            self.check(&[2], stored.is_empty() && al.contains(&None) || self.l[0].ever.iter().any(|a| restrict(a) == stored), || {
                format!("restart loads {}, which no single flush stored", show(&stored))
            });
        }
        self.l[0].acked = newest(&recs).first().map(|r| r.map());
        self.l[0].pending.clear();
    }
    pub fn restart(&mut self) -> Res {
        self.power_off();
        self.boot()
    }

    /// load, collect, flush, collect; stops at the first failure
    pub fn cycle(&mut self, l: usize) -> Option<Call> {
        for c in [Call::Load, Call::Gc, Call::Flush, Call::Gc] {
            match self.call(l, c) {
                Res::Ok(_) => {}
                _ => return Some(c),
            }
        }
        None
    }

    /// Storage works from now on: everything must work at the first attempt, and storage must
    /// then equal memory. `ps` are the properties that promise it.
    pub fn recover(&mut self, ps: &[u32]) {
        for l in &self.l {
            l.dev.no_faults();
            l.dev.0.borrow_mut().broken = false;
        }
        for l in 0..self.l.len() {
            self.recover_list(l, ps);
        }
    }
    pub fn recover_list(&mut self, l: usize, ps: &[u32]) {
        for c in [Call::Load, Call::Gc, Call::Flush, Call::Gc] {
            let r = self.call(l, c);
            self.want(ps, r.is_ok(), || format!("with storage working again, {c:?} fails: {r:?}"));
            self.poll();
            if self.waiting(l) {
                self.want(ps, false, || "nodes still wait after a successful load".into());
            }
        }
        let s = self.snap(l);
        let recs = self.l[l].dev.records();
        let nw = newest(&recs);
        if !s.is_empty() || !nw.is_empty() {
            // keys no longer loaded may remain until the next write, and storage that was
            // replaced as a whole is only overwritten once something changes
            let ok = nw.len() == 1 && s.iter().all(|(k, v)| nw[0].map().get(k) == Some(v));
            self.want(ps, ok || self.l[l].foreign, || format!("after recovery storage holds {} instead of {}", self.l[l].dev.describe(), show(&s)));
        }
        self.want(ps, !self.dirty(l), || "changes are still pending after a successful flush".into());
    }
    /// A restart now loads exactly `memory`
    pub fn verify_durable(&mut self, ps: &[u32]) {
        let expect = self.snap(0);
        let r = self.restart();
        self.want(ps, r.is_ok(), || format!("restart on working storage fails: {r:?}"));
        self.poll();
        let got = self.snap(0);
        let same = expect.iter().all(|(k, v)| got.get(k) == Some(v));
        self.want(ps, same, || format!("restart loads {} instead of {}", show(&got), show(&expect)));
    }

    /// Perform one operation of a history. False: it is not possible now (skip such histories).
    pub fn op(&mut self, op: Op) -> bool {
        match op {
            Op::Write(i) => return self.write(i),
            Op::Load => drop(self.call(0, Call::Load)),
            Op::LoadLazy => {
                self.lazy = true;
                self.call(0, Call::Load);
                self.lazy = false;
            }
            Op::Flush => drop(self.call(0, Call::Flush)),
            Op::Gc => drop(self.call(0, Call::Gc)),
            Op::LoadL(l) => drop(self.call(l, Call::Load)),
            Op::LoadLazyL(l) => {
                self.lazy = true;
                self.call(l, Call::Load);
                self.lazy = false;
            }
            Op::FlushL(l) => drop(self.call(l, Call::Flush)),
            Op::GcL(l) => drop(self.call(l, Call::Gc)),
            Op::Cycle => drop(self.cycle(0)),
            Op::CycleL(l) => drop(self.cycle(l)),
            Op::Wipe | Op::Foreign(_) if self.l[0].partial => mc::prune("storage replaced during a partial load"),
            Op::Wipe => {
                mc::log(|| "storage erased".into());
                self.l[0].dev.set_items(vec![]);
                self.l[0].acked = None;
                self.l[0].pending.clear();
                self.l[0].foreign = false;
                self.reset_cache(0);
            }
            Op::Foreign(seq) => {
                let kvs: Vec<Vec<u8>> = ["a", "zz"].iter().map(|k| enc_kv(k, &(1_000_000 + seq))).collect();
                self.l[0].dev.set_items(enc_record(seq, &kvs));
                mc::log(|| format!("storage replaced: {}", self.l[0].dev.describe()));
                let m = self.l[0].dev.records()[0].map();
                self.l[0].ever.push(m.clone());
                self.l[0].acked = Some(m);
                self.l[0].pending.clear();
                self.l[0].foreign = true;
                self.reset_cache(0);
            }
            Op::Reboot => {
                self.power_off();
                self.attach_all();
            }
            Op::Restart => drop(self.restart()),
            Op::Reset => self.reset_cache(0),
            Op::Attach(i, l) => self.attach(i, l),
            Op::CancelAttach(i) => return self.cancel_attach(i),
            Op::Release(i) => return self.release(i),
            Op::Detach(i, l) => self.detach(i, l),
            Op::Poll => {
                if self.n.iter().all(|n| n.task.is_none()) {
                    return false;
                }
                self.poll()
            }
        }
        true
    }
}

/// start positions of the K newest records
pub fn keep_set<const K: usize>(recs: &[RefRecord]) -> Vec<usize> {
    let mut v: Vec<&RefRecord> = recs.iter().collect();
    v.sort_by_key(|r| std::cmp::Reverse((r.seq, r.at)));
    v.into_iter().take(K).map(|r| r.at).collect()
}
pub fn show(s: &Snap) -> String {
    let v: Vec<String> =
        s.iter().map(|(k, v)| format!("{k}={}", v.iter().map(|x| format!("{x:02x}")).collect::<String>())).collect();
    format!("{{{}}}", v.join(" "))
}
pub fn show_o(s: &Option<Snap>) -> String {
    s.as_ref().map(show).unwrap_or("nothing".into())
}
