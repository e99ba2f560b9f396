//! The library's worker tasks in virtual time: C21-C23 (default worker), C29 (no-op worker).
//!
//! An execution is a script of application events (attach, write, release and attach again,
//! storage going away and coming back, stop) separated by gaps chosen around the worker's own
//! delays. Between events the real worker future runs against a virtual clock; what is due at the
//! very moment of an event may run before or after it, and (scenarios named "busy") an event may
//! also fall between any two storage operations of the worker.

use crate::dev::*;
use crate::exec::{Keep, Task};
use crate::hist::{Handle, List, Snap, enc, menu_err, show};
use crate::mc::{self, pick, pick_of};
use crate::vtime;
use crate::{Scen, ensure, scen};
use cfg_noodle::error::Error;
use cfg_noodle::worker_task::{default_worker_task, no_op_worker_task};
use cfg_noodle::{StorageList, StorageListNode};
use std::cell::RefCell;
use std::rc::Rc;
use std::task::{Poll, Waker};

const MS: u64 = 1000;
const SEC: u64 = 1_000_000;

type H = Handle<u32, 2>;

struct App {
    key: &'static str,
    node: &'static StorageListNode<u32>,
    default: u32,
    attach: Option<Task<Result<H, Error>>>,
    attached_at: u64,
    handle: Option<H>,
    write: Option<(Task<(H, Result<(), Error>)>, u32)>,
    /// value a handle must read
    mem: Option<u32>,
    /// a written value must become durable
    written: bool,
}

#[derive(Default)]
struct Stop {
    fired: bool,
    waker: Option<Waker>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ev {
    Attach(usize),
    Write(usize),
    Reattach(usize),
    Break,
    Heal,
    Stop,
}

struct Sim {
    id: u32,
    list: &'static List<2>,
    dev: Dev,
    worker: Task<()>,
    stop: Rc<RefCell<Stop>>,
    apps: Vec<App>,
    next: u32,
    /// (time, poll number) of completed writes
    writes: Vec<(u64, u64)>,
    attaches: Vec<(u64, u64)>,
    polls: u64,
    /// number of the poll in which the worker last left its waiting state
    busy_since: u64,
    busy: bool,
    /// nothing could run any more
    idle: bool,
    stopped_at: Option<u64>,
    /// time of the last load
    last_load: u64,
    done: bool,
    busy_events: bool,
    /// decides all ties between events and what is due at the same moment
    ties: Option<bool>,
}
type S = Keep<Sim>;

fn sim(id: u32, start: usize, busy: bool) -> S {
    sim_of(id, start, busy, &["a", "b", "c"])
}
fn sim_of(id: u32, start: usize, busy: bool, keys: &[&'static str]) -> S {
    let list: &'static List<2> = crate::arena::list(StorageList::new());
    let kvs = |v: u32| -> Vec<Vec<u8>> { ["b", "a"].iter().map(|k| enc_kv(k, &v)).collect() };
    let items = match start {
        0 => vec![],
        1 => enc_record(3, &kvs(1003)),
        // none of our keys, no keys, nothing complete, nothing readable
        3 => enc_record(3, &[enc_kv("z", &1u32)]),
        4 => enc_record(3, &[]),
        5 => enc_record(4, &kvs(1004)).into_iter().take(2).collect(),
        6 => vec![vec![0xEE, 0xEE]],
        // an old record and a partial one
        _ => {
            let mut v = enc_record(3, &kvs(1003));
            v.extend(enc_record(4, &kvs(1004)).into_iter().take(2));
            v
        }
    };
    let dev = Dev::with_items(items);
    dev.0.borrow_mut().yielding = busy;
    let stop = Rc::new(RefCell::new(Stop::default()));
    let (s2, d2) = (stop.clone(), dev.clone());
    let worker = Task::new(async move {
        let stopper = std::future::poll_fn(move |cx| {
            let mut s = s2.borrow_mut();
            if s.fired {
                return Poll::Ready(());
            }
            s.waker = Some(cx.waker().clone());
            Poll::Pending
        });
        let mut buf = [0u8; 96];
        default_worker_task(list, d2, stopper, &mut buf).await
    });
    let apps = keys
        .iter()
        .enumerate()
        .map(|(i, key)| App {
            key,
            node: crate::arena::node(StorageListNode::new(key)),
            default: 2000 + i as u32,
            attach: None,
            attached_at: 0,
            handle: None,
            write: None,
            mem: None,
            written: false,
        })
        .collect();
    let mut s = Keep(Some(Sim {
        id,
        list,
        dev,
        worker,
        stop,
        apps,
        next: 0,
        writes: vec![],
        attaches: vec![],
        polls: 0,
        busy_since: 0,
        busy: false,
        idle: true,
        stopped_at: None,
        last_load: 0,
        done: false,
        busy_events: busy,
        ties: None,
    }));
    s.settle(&mut vec![]);
    s
}

impl Sim {
    fn newest(&self) -> Option<Snap> {
        let r = self.dev.records();
        newest(&r).first().map(|r| r.map())
    }
    /// Memory of all nodes whose attach has completed
    fn memory(&self) -> Snap {
        self.apps.iter().filter_map(|a| a.mem.map(|v| (a.key.to_string(), enc(v)))).collect()
    }
    /// Does the node's value come from storage or the default?
    fn loaded(&mut self, i: usize) {
        let a = &mut self.apps[i];
        let got = a.handle.as_ref().unwrap().load();
        match a.mem {
            Some(v) => ensure!(got == v, "{} reads {got} instead of {v}", a.key),
            None => {
                ensure!(
                    got == a.default || got == 1003 && a.key != "c",
                    "{} loads {got}",
                    a.key
                );
                a.mem = Some(got);
            }
        }
    }
    fn poll_apps(&mut self) {
        for i in 0..self.apps.len() {
            if let Some(t) = &mut self.apps[i].attach
                && let Some(r) = t.poll_if_woken()
            {
                mc::step();
                let h = match r {
                    Ok(h) => h,
                    Err(e) => mc::violation(format!("attach of {} fails: {e:?}", self.apps[i].key)),
                };
                self.apps[i].attach = None;
                self.apps[i].handle = Some(h);
                let first = self.apps[i].mem.is_none();
                self.loaded(i);
                let at = self.apps[i].attached_at;
                mc::log(|| format!("{:>9} ms: attach of {} completes", vtime::now() / MS, self.apps[i].key));
                if self.id == 22 && first {
                    // a load has run just now: it must have waited for a quiet period
                    let now = vtime::now();
                    let flush = self.flushes_at(now);
                    for &(t, p) in &self.attaches {
                        ensure!(
                            now - t >= 100 * MS || p >= self.busy_since && t == now || flush,
                            "a load runs {} ms after an attach",
                            (now - t) / MS
                        );
                    }
                    ensure!(now - at >= 100 * MS || flush, "attach of {} is served after {} ms", self.apps[i].key, (now - at) / MS);
                }
            }
            if let Some((t, v)) = &mut self.apps[i].write
                && let Some((h, r)) = t.poll_if_woken()
            {
                let v = *v;
                mc::step();
                ensure!(r.is_ok(), "write fails: {r:?}");
                self.apps[i].write = None;
                self.apps[i].handle = Some(h);
                self.apps[i].mem = Some(v);
                self.apps[i].written = true;
                self.writes.push((vtime::now(), self.polls));
                self.loaded(i);
                mc::log(|| format!("{:>9} ms: {}={v} written", vtime::now() / MS, self.apps[i].key));
            }
        }
    }
    /// Is a flush due at `now` (then it may load what it needs)?
    fn flushes_at(&self, now: u64) -> bool {
        self.stopped_at.is_some() || self.writes.iter().any(|(t, _)| now - t >= 10 * SEC)
    }
    fn tie(&self) -> bool {
        self.ties.unwrap_or_else(|| pick(2) == 1)
    }
    fn slow(&self) -> bool {
        self.dev.0.borrow().delay > 0
    }
    /// Poll the worker once
    fn poll_worker(&mut self) {
        self.polls += 1;
        if self.idle {
            self.busy_since = self.polls;
            self.idle = false;
        }
        let before = self.newest();
        let mem = self.memory();
        let n = self.dev.0.borrow().log.len();
        mc::step();
        if self.worker.poll().is_some() {
            self.done = true;
            mc::log(|| format!("{:>9} ms: worker returns | {}", vtime::now() / MS, self.dev.describe()));
            ensure!(self.stopped_at.is_some(), "the worker ends without being stopped");
            ensure!(self.id == 23 || self.slow() || self.stopped_at == Some(vtime::now()), "the worker takes its time to stop");
        }
        self.busy = !self.done && self.worker.woken();
        let log: Vec<DevOp> = self.dev.0.borrow().log[n..].to_vec();
        if !log.is_empty() {
            mc::log(|| {
                let k: String = log
                    .iter()
                    .map(|o| match o.k {
                        OpK::Iter => 'i',
                        OpK::Next => 'n',
                        OpK::Push => 'P',
                        OpK::Inval => 'X',
                    })
                    .collect();
                format!("{:>9} ms: storage {k} | {}", vtime::now() / MS, self.dev.describe())
            });
        }
        if self.id == 22 && log.iter().any(|o| o.k == OpK::Push) && !self.busy_events && !self.slow() {
            let now = vtime::now();
            if self.stopped_at.is_none() {
                for &(t, _) in &self.writes {
                    ensure!(now - t >= 10 * SEC, "a flush runs {} ms after a write", (now - t) / MS);
                }
                ensure!(!self.writes.is_empty(), "a flush without any write");
            }
            let pushes = log.iter().filter(|o| o.k == OpK::Push).count();
            ensure!(
                Some(&mem) != before.as_ref() && pushes <= 2 + self.apps.len(),
                "storage is written although nothing has changed"
            );
        }
        if self.id == 22 && !self.busy_events && !self.slow() && !log.is_empty() {
            let now = vtime::now();
            if log.iter().any(|o| o.k == OpK::Inval) {
                ensure!(
                    self.flushes_at(now) || now - self.last_load >= 120 * SEC,
                    "a collection runs {} ms after a load, without a flush",
                    (now - self.last_load) / MS
                );
            } else if !log.iter().any(|o| o.k == OpK::Push) {
                self.last_load = now;
            }
        }
        if self.id == 22 && self.busy_events && log.iter().any(|o| o.k == OpK::Push) && self.stopped_at.is_none() {
            let now = vtime::now();
            for &(t, p) in &self.writes {
                ensure!(
                    now - t >= 10 * SEC || t == now && p >= self.busy_since,
                    "a flush runs {} ms after a write",
                    (now - t) / MS
                );
            }
        }
        mc::state(mc::hash_of(&(self.dev.items(), self.memory(), self.busy, self.apps.iter().map(|a| a.attach.is_some()).collect::<Vec<_>>())));
    }
    /// Run everything that can run now. In busy scenarios pending events may happen in between.
    fn settle(&mut self, script: &mut Vec<(u64, Ev)>) {
        loop {
            self.poll_apps();
            if self.done || !self.worker.woken() {
                // tasks woken by each other
                if !self.apps.iter().any(|a| {
                    a.attach.as_ref().is_some_and(|t| t.woken()) || a.write.as_ref().is_some_and(|t| t.0.woken())
                }) {
                    self.idle = true;
                    return;
                }
                continue;
            }
            if self.busy && self.busy_events && !script.is_empty() && mc::deviate(2) == 1 {
                let (_, e) = script.remove(0);
                mc::nontrivial();
                self.event(e);
                continue;
            }
            self.poll_worker();
        }
    }
    /// False: not possible now
    fn possible(&self, e: Ev) -> bool {
        if self.stopped_at.is_some() {
            return false;
        }
        match e {
            Ev::Attach(i) => self.apps[i].attach.is_none() && self.apps[i].handle.is_none() && self.apps[i].write.is_none(),
            Ev::Write(i) | Ev::Reattach(i) => self.apps[i].handle.is_some(),
            Ev::Break => !self.dev.0.borrow().broken,
            Ev::Heal => self.dev.0.borrow().broken,
            Ev::Stop => true,
        }
    }
    fn event(&mut self, e: Ev) {
        if !self.possible(e) {
            return;
        }
        mc::log(|| format!("{:>9} ms: {e:?}", vtime::now() / MS));
        mc::step();
        match e {
            Ev::Attach(i) | Ev::Reattach(i) => {
                self.apps[i].handle = None;
                let (node, list, d) = (self.apps[i].node, self.list, self.apps[i].default);
                self.apps[i].attach = Some(Task::new(async move { node.attach_with_default(list, move || d).await }));
                self.apps[i].attached_at = vtime::now();
                // the signal is given even if the value is already there
                self.attaches.push((vtime::now(), self.polls));
                self.poll_apps();
            }
            Ev::Write(i) => {
                self.next += 1;
                let v = self.next * 37;
                let mut h = self.apps[i].handle.take().unwrap();
                self.apps[i].write = Some((
                    Task::new(async move {
                        let r = h.write(&v).await;
                        (h, r)
                    }),
                    v,
                ));
                self.poll_apps();
            }
            Ev::Break => self.dev.0.borrow_mut().broken = true,
            Ev::Heal => self.dev.0.borrow_mut().broken = false,
            Ev::Stop => {
                self.stopped_at = Some(vtime::now());
                let w = {
                    let mut s = self.stop.borrow_mut();
                    s.fired = true;
                    s.waker.take()
                };
                if let Some(w) = w {
                    w.wake()
                }
            }
        }
    }
    /// Let time pass until `t`; what is due exactly at `t` only runs if `incl`
    fn until(&mut self, t: u64, incl: bool, script: &mut Vec<(u64, Ev)>) {
        loop {
            match vtime::next() {
                Some(n) if n < t || n == t && incl => {
                    vtime::advance(n.max(vtime::now()));
                    self.settle(script);
                    if self.done {
                        return;
                    }
                }
                _ => break,
            }
        }
        if t > vtime::now() {
            vtime::advance_quiet(t)
        }
    }
    /// All events, in order
    fn script(&mut self, mut script: Vec<(u64, Ev)>) {
        while !script.is_empty() && !self.done {
            let (gap, _) = script[0];
            let t = vtime::now() + gap;
            // what is due (or woken) at the moment of the event: before or after it?
            let n = script.len();
            if gap > 0 {
                self.settle(&mut script);
                self.until(t, false, &mut script);
                if script.len() != n {
                    continue;
                }
                if vtime::next() == Some(t) && self.tie() {
                    self.until(t, true, &mut script);
                }
            } else if self.worker.woken() && self.tie() {
                self.settle(&mut script);
            }
            if script.len() != n || self.done {
                continue;
            }
            let (_, e) = script.remove(0);
            self.event(e);
        }
        self.settle(&mut vec![]);
    }
    /// Nothing happens any more for a long time
    fn quiet(&mut self) {
        let t = vtime::now() + 600 * SEC;
        self.settle(&mut vec![]);
        self.until(t, true, &mut vec![]);
        if self.id == 22 && self.apps.iter().any(|a| a.mem.is_some()) && !self.done {
            // by now the collection that follows every flush, and the first load, has run
            let r = self.dev.records();
            let n: usize = r.iter().map(|r| r.n).sum();
            ensure!(r.len() <= 2 && n == self.dev.items().len(), "collected only in part: {}", self.dev.describe());
        }
    }
    fn check_served(&self) {
        for a in &self.apps {
            ensure!(a.attach.is_none(), "attach of {} never completes", a.key);
            ensure!(a.write.is_none(), "write to {} never completes", a.key);
        }
    }
    fn check_durable(&self, why: &str) {
        let s = self.newest().unwrap_or_default();
        for a in self.apps.iter().filter(|a| a.written) {
            let want = enc(a.mem.unwrap());
            ensure!(s.get(a.key) == Some(&want), "{why}: {} = {} is not durable; storage would load {}", a.key, a.mem.unwrap(), show(&s));
        }
    }
    fn end(&mut self) {
        for a in &mut self.apps {
            a.attach = None;
            a.write = None;
            a.handle = None;
        }
    }
}

fn choose_script(evs: &[Ev], gaps: &[u64], depth: usize) -> Vec<(u64, Ev)> {
    let mut v = vec![];
    let mut attached = 0;
    for i in 0..depth {
        let gap = if i == 0 { 0 } else { pick_of(gaps) };
        // nodes are attached in order: their names are interchangeable
        let e = pick_of(evs);
        if let Ev::Attach(k) = e {
            if k > attached {
                return vec![];
            }
            attached = attached.max(k + 1);
        }
        v.push((gap, e));
    }
    v
}

/// C21
fn served(depth: usize, gaps: &[u64], busy: bool, slow: &[u64], starts: &[usize]) {
    let mut s = sim(21, pick_of(starts), busy);
    s.dev.0.borrow_mut().delay = pick_of(slow);
    let script = choose_script(&[Ev::Attach(0), Ev::Write(0), Ev::Attach(1), Ev::Write(1), Ev::Reattach(0), Ev::Attach(2)], gaps, depth);
    if script.is_empty() {
        return;
    }
    s.script(script);
    s.quiet();
    ensure!(!s.done, "the worker ended");
    if s.apps.iter().any(|a| a.written) {
        mc::nontrivial();
    }
    s.check_served();
    s.check_durable("after a long quiet period");
    mc::outcome(mc::hash_of(&(s.dev.items(), s.memory())));
    s.end();
}

/// Two nodes are loaded, perhaps long ago
fn settled(id: u32, start: usize) -> S {
    let mut s = sim(id, start, false);
    s.script(vec![(0, Ev::Attach(0)), (0, Ev::Attach(1))]);
    let t = vtime::now() + pick_of(&[150 * MS, 119 * SEC, 130 * SEC]);
    s.until(t, true, &mut vec![]);
    s.check_served();
    s.ties = Some(pick(2) == 1);
    s
}
fn starts(s: &Sim) -> usize {
    s.dev.0.borrow().log.iter().filter(|o| o.k == OpK::Push).count()
}

/// Long bursts of signals (C21, C22): one flush, or load, and not before the quiet period
fn bursts(id: u32, max: usize, gaps: &[u64]) {
    let mut s = settled(id, pick(3));
    let gap = pick_of(gaps);
    let n = pick(max + 1);
    let n = if n < 2 { 256 + n } else { n };
    mc::nontrivial();
    match pick(3) {
        // writes, to one node or to both
        k @ (0 | 1) => {
            for i in 0..n {
                s.script(vec![(gap, Ev::Write(i % (k + 1)))]);
            }
            ensure!(id != 22 || starts(&s) == 0, "a flush runs during a burst of writes");
            s.quiet();
            ensure!(
                id != 22 || starts(&s) == 4,
                "{n} writes every {} ms lead to {} appended elements instead of one record of two nodes",
                gap / MS,
                starts(&s)
            );
        }
        // attaches, one of them by a node that needs a load
        _ => {
            let (gap, at) = (gap / 100, pick(n));
            for i in 0..n {
                s.script(vec![(gap, if i == at { Ev::Attach(2) } else { Ev::Reattach(i % 2) })]);
            }
            s.quiet();
        }
    }
    ensure!(!s.done, "the worker ended");
    s.check_served();
    s.check_durable("after a long quiet period");
    mc::outcome(mc::hash_of(&(s.dev.items(), s.memory(), vtime::now())));
    s.end();
}

/// Many rounds of writes and quiet periods (C21, C22)
fn rounds(id: u32, n: usize, gaps: &[u64]) {
    let mut s = settled(id, pick(3));
    let (g1, g2) = (pick_of(gaps), pick_of(gaps));
    let n = if g1 == g2 && pick(2) == 1 { 264 } else { n };
    mc::nontrivial();
    for i in 0..n {
        let before = starts(&s);
        let e = match i % 4 {
            2 => Ev::Write(1),
            3 if i == n / 4 * 4 - 1 => Ev::Attach(2),
            3 => Ev::Reattach(1),
            _ => Ev::Write(0),
        };
        s.script(vec![(if i % 2 == 0 { g1 } else { g2 }, e)]);
        let t = vtime::now() + 20_100 * MS;
        s.until(t, true, &mut vec![]);
        s.check_served();
        s.check_durable("twenty seconds later");
        let wrote = starts(&s) - before;
        ensure!(id != 22 || wrote == 0 || matches!(e, Ev::Write(_)) && (4..=5).contains(&wrote), "round {i}: {wrote} elements appended after {e:?}");
    }
    ensure!(!s.done, "the worker ended");
    s.script(vec![(0, Ev::Write(0)), (g1.min(SEC), Ev::Stop)]);
    s.settle(&mut vec![]);
    ensure!(s.done, "the worker does not return when stopped");
    s.check_durable("after stop");
    mc::outcome(mc::hash_of(&(s.dev.items(), s.memory(), vtime::now())));
    s.end();
}

/// Many nodes that attach at about the same time, while others are in use (C21, C22, C23)
fn crowd(id: u32, counts: &[usize], faults: bool) {
    let n = pick_of(counts);
    let mut keys = vec!["a", "b", "c"];
    keys.extend(&crate::p_hist::many_keys()[..n]);
    let mut s = sim_of(id, pick(3), false, &keys);
    s.ties = Some(pick(2) == 1);
    if pick(2) == 1 {
        s.script(vec![(0, Ev::Attach(1))]);
        s.quiet();
    }
    let gap = pick_of(&[0u64, MS, 100 * MS]);
    if faults {
        s.dev.set_menu(menu_err());
    }
    for i in 0..n + 3 {
        if i != 1 || s.apps[1].handle.is_none() {
            s.script(vec![(if i == 0 { 0 } else { gap }, Ev::Attach(i))]);
        }
    }
    mc::nontrivial();
    s.quiet();
    if faults {
        s.dev.no_faults();
        for i in 0..n + 3 {
            if s.apps[i].handle.is_none() {
                // a failed load is repeated with the next attach
                s.apps[i].attach = None;
                s.script(vec![(0, Ev::Attach(i))]);
                break;
            }
        }
        s.quiet();
    }
    s.check_served();
    let before = starts(&s);
    for i in 0..n + 3 {
        s.script(vec![(gap, Ev::Write(i))]);
    }
    s.quiet();
    s.check_served();
    s.check_durable("after a long quiet period");
    let wrote = starts(&s) - before;
    ensure!(id != 22 || wrote == n + 5, "{wrote} elements appended for one burst of writes to {} nodes", n + 3);
    s.script(vec![(0, Ev::Write(n / 2)), (0, Ev::Stop)]);
    s.settle(&mut vec![]);
    ensure!(s.done, "the worker does not return when stopped");
    s.check_durable("after stop");
    mc::outcome(mc::hash_of(&(s.dev.items(), s.memory(), vtime::now())));
    s.end();
}

/// A long outage with activity (C23)
fn long_outage(max: usize) {
    let loaded = pick(2) == 1;
    let mut s = if loaded { settled(23, pick(3)) } else { sim(23, pick(3), false) };
    if !loaded {
        s.script(vec![(0, Ev::Attach(0))]);
        s.ties = Some(pick(2) == 1);
    }
    s.script(vec![(0, Ev::Break)]);
    let gap = pick_of(&[200 * MS, 10 * SEC, 11 * SEC, 130 * SEC]);
    let n = 1 + pick(max + 1);
    let n = if n > max { 258 } else { n };
    for i in 0..n {
        let e = if !loaded {
            Ev::Attach(1 + i % 2)
        } else if pick_once(i, 0) {
            Ev::Reattach(1)
        } else {
            Ev::Write(i % 2)
        };
        // nodes that wait are attached anew
        if let Ev::Attach(k) = e {
            s.apps[k].attach = None;
        }
        s.script(vec![(gap, e)]);
    }
    mc::nontrivial();
    ensure!(!s.done, "the worker ended");
    let stop = pick(3);
    if stop == 2 {
        s.quiet();
        ensure!(!s.done, "the worker ended");
    }
    s.script(vec![(gap, Ev::Heal)]);
    if stop == 0 {
        s.script(vec![(0, Ev::Stop)]);
        s.settle(&mut vec![]);
        ensure!(s.done, "the worker does not return when stopped");
        s.check_durable("after stop");
    } else {
        if loaded {
            s.script(vec![(SEC, Ev::Write(0))]);
        } else {
            s.apps[2].attach = None;
            s.script(vec![(SEC, Ev::Attach(2))]);
        }
        s.quiet();
        s.check_served();
        s.check_durable("after storage works again and a write");
        s.script(vec![(SEC, Ev::Write(0))]);
        s.quiet();
        s.check_served();
        s.check_durable("after storage works again and a write");
    }
    mc::outcome(mc::hash_of(&(s.dev.items(), s.memory(), vtime::now())));
    s.end();
}
fn pick_once(i: usize, at: usize) -> bool {
    i == at && pick(2) == 1
}

/// C22
fn quiet_periods(depth: usize, gaps: &[u64], busy: bool, stop: bool) {
    let mut s = sim(22, pick(3), busy);
    let mut script = choose_script(&[Ev::Attach(0), Ev::Write(0), Ev::Attach(1), Ev::Write(1)], gaps, depth);
    if script.is_empty() {
        return;
    }
    if stop {
        let g = pick_of(gaps);
        script.push((g, Ev::Stop));
    }
    s.script(script);
    if stop {
        s.settle(&mut vec![]);
        ensure!(s.done, "the worker does not return when stopped");
        s.check_durable("after stop");
    } else {
        s.quiet();
    }
    if s.apps.iter().any(|a| a.written) {
        mc::nontrivial();
    }
    mc::outcome(mc::hash_of(&(s.dev.items(), s.memory(), vtime::now())));
    s.end();
}

/// C23
fn survives(depth: usize, gaps: &[u64], busy: bool, outages: bool, slow: &[u64]) {
    let mut s = sim(23, pick(3), busy);
    s.dev.0.borrow_mut().delay = pick_of(slow);
    let evs: &[Ev] = if outages {
        &[Ev::Attach(0), Ev::Write(0), Ev::Break, Ev::Heal, Ev::Attach(1), Ev::Write(1)]
    } else {
        &[Ev::Attach(0), Ev::Write(0), Ev::Attach(1), Ev::Write(1)]
    };
    let script = choose_script(evs, gaps, depth);
    if script.is_empty() {
        return;
    }
    if !outages {
        s.dev.set_menu(menu_err());
    }
    s.script(script);
    let how = pick(4);
    if how == 3 {
        // time passes while storage is still bad
        s.quiet();
    }
    ensure!(!s.done, "the worker ended");
    if s.dev.0.borrow().faults > 0 || s.dev.0.borrow().log.iter().any(|o| !o.ok) {
        mc::nontrivial();
    }
    s.dev.no_faults();
    s.dev.0.borrow_mut().broken = false;
    mc::log(|| "storage works".into());
    match how {
        // stopped at once
        0 => {
            s.script(vec![(0, Ev::Stop)]);
            s.settle(&mut vec![]);
            if s.slow() {
                s.quiet();
            }
            ensure!(s.done, "the worker does not return when stopped");
            s.check_durable("after stop");
        }
        // later activity is served: a new attach
        1 => {
            let i = 2;
            s.script(vec![(SEC, Ev::Attach(i))]);
            s.quiet();
            s.check_served();
            // and a write flushes everything
            s.script(vec![(SEC, Ev::Write(i))]);
            s.quiet();
            s.check_served();
            s.check_durable("after storage works again and a write");
        }
        // a new write through any handle there is
        _ => {
            let Some(i) = (0..3).find(|i| s.apps[*i].handle.is_some()) else { return s.end() };
            s.script(vec![(SEC, Ev::Write(i))]);
            s.quiet();
            ensure!(s.apps.iter().all(|a| a.write.is_none()), "a write never completes");
            s.check_durable("after storage works again and a write");
            // an attach that met an error is served with the next one
            s.script(vec![(SEC, Ev::Attach(2))]);
            s.quiet();
            s.check_served();
        }
    }
    mc::outcome(mc::hash_of(&(s.dev.items(), s.memory())));
    s.end();
}

/// C29
fn no_op(depth: usize) {
    #[derive(Clone, Copy, Debug)]
    enum A {
        Attach(usize),
        Write(usize),
        Release(usize),
        Detach(usize),
        Cancel(usize),
        Run,
    }
    let list: &'static List<2> = crate::arena::list(StorageList::new());
    type T = Task<Result<H, Error>>;
    struct Nd {
        node: &'static StorageListNode<u32>,
        attached: bool,
        task: Option<(T, u32)>,
        handle: Option<H>,
        mem: Option<u32>,
    }
    let mut keep: Keep<(Vec<Nd>, Task<()>)> = Keep(Some((
        ["a", "b"]
            .iter()
            .map(|k| Nd { node: crate::arena::node(StorageListNode::new(k)), attached: false, task: None, handle: None, mem: None })
            .collect(),
        Task::new(async move { no_op_worker_task(list).await }),
    )));
    let w: &mut (Vec<Nd>, Task<()>) = &mut keep;
    let acts = [
        A::Attach(0),
        A::Run,
        A::Write(0),
        A::Release(0),
        A::Detach(0),
        A::Cancel(0),
        A::Attach(1),
        A::Write(1),
        A::Release(1),
        A::Detach(1),
    ];
    let mut val = 0;
    let finish = |n: &mut Nd, must: bool| {
        if let Some((t, d)) = &mut n.task {
            let d = *d;
            match t.poll() {
                None => ensure!(!must, "attach of {:?} does not complete", n.node as *const _),
                Some(Err(e)) => mc::violation(format!("attach fails: {e:?}")),
                Some(Ok(h)) => {
                    let want = n.mem.unwrap_or(d);
                    ensure!(h.load() == want, "attach yields {} instead of {want}", h.load());
                    n.mem = Some(want);
                    n.handle = Some(h);
                    n.task = None;
                }
            }
        }
    };
    let run = |w: &mut (Vec<Nd>, Task<()>)| {
        for _ in 0..20 {
            if w.1.woken() {
                ensure!(w.1.poll().is_none(), "the worker ended");
            }
        }
        for n in &mut w.0 {
            finish(n, true);
        }
    };
    for _ in 0..depth {
        let a = pick_of(&acts);
        mc::log(|| format!("{a:?}"));
        mc::step();
        val += 1;
        match a {
            A::Run => {
                run(w);
            }
            A::Attach(i) => {
                let n = &mut w.0[i];
                if n.task.is_some() || n.handle.is_some() {
                    return;
                }
                let (node, d) = (n.node, 1000 + val);
                let mut t: T = Task::new(async move { node.attach_with_default(list, move || d).await });
                let r = t.poll();
                match r {
                    None => n.task = Some((t, d)),
                    Some(Ok(h)) => {
                        let want = n.mem.unwrap_or(h.load());
                        ensure!(n.attached, "a first attach completes by itself");
                        ensure!(h.load() == want, "attach yields {} instead of {want}", h.load());
                        n.mem = Some(want);
                        n.handle = Some(h);
                    }
                    Some(Err(e)) => mc::violation(format!("attach fails: {e:?}")),
                }
                n.attached = true;
            }
            A::Cancel(i) => {
                if w.0[i].task.take().is_none() {
                    return;
                }
            }
            A::Write(i) => {
                let n = &mut w.0[i];
                let Some(h) = &mut n.handle else { return };
                let r = crate::exec::poll_once(std::pin::pin!(h.write(&val)));
                ensure!(r == Poll::Ready(Ok(())), "write gives {r:?}");
                ensure!(h.load() == val, "reads {} after writing {val}", h.load());
                n.mem = Some(val);
            }
            A::Release(i) => {
                if w.0[i].handle.take().is_none() {
                    return;
                }
            }
            A::Detach(i) => {
                let n = &mut w.0[i];
                if n.handle.is_some() || n.task.is_some() || !n.attached {
                    return;
                }
                let r = crate::exec::poll_once(std::pin::pin!(n.node.detach(list)));
                ensure!(r == Poll::Ready(Ok(())), "detach gives {r:?}");
                n.mem = None;
                n.attached = false;
            }
        }
        for n in &w.0 {
            if let Some(h) = &n.handle {
                ensure!(Some(h.load()) == n.mem, "reads {} instead of {:?}", h.load(), n.mem);
            }
        }
        mc::state(mc::hash_of(&w.0.iter().map(|n| (n.attached, n.task.is_some(), n.handle.is_some(), n.mem.is_some())).collect::<Vec<_>>()));
    }
    mc::nontrivial();
    run(w);
    mc::outcome(mc::hash_of(&w.0.iter().map(|n| n.mem).collect::<Vec<_>>()));
    for n in &mut w.0 {
        n.handle = None;
    }
}

/// Many nodes and the no-op worker
fn no_op_crowd(plain: bool) {
    let n = pick(80);
    let n = if n > 70 { [99, 100, 101, 127, 128, 129, 255, 256, 300][n - 71] } else { n };
    let late = pick_of(&[0, 1, n / 2, n.saturating_sub(1)]).min(n);
    let again = pick(2) == 1;
    let list: &'static List<2> = crate::arena::list(StorageList::new());
    type T = Task<Result<H, Error>>;
    let store: Dev = Dev::new();
    let mut dev = store.clone();
    let mut keep: Keep<(Task<()>, Vec<T>, Vec<H>)> = Keep(Some((
        Task::new(async move {
            if plain {
                no_op_worker_task(list).await
            }
            // a worker of the application that only acts on the signals
            let mut buf = [0; 96];
            loop {
                let read = {
                    let (mut r, mut w) = (std::pin::pin!(list.needs_read()), std::pin::pin!(list.needs_write()));
                    std::future::poll_fn(|cx| {
                        if r.as_mut().poll(cx).is_ready() {
                            return Poll::Ready(true);
                        }
                        w.as_mut().poll(cx).map(|_| false)
                    })
                    .await
                };
                if read {
                    let _ = list.process_reads(&mut dev, &mut buf).await;
                } else {
                    let _ = list.process_garbage(&mut dev, &mut buf).await;
                    let _ = list.process_writes(&mut dev, &mut buf).await;
                }
            }
        }),
        vec![],
        vec![],
    )));
    let w: &mut (Task<()>, Vec<T>, Vec<H>) = &mut keep;
    let nodes: Vec<&'static StorageListNode<u32>> =
        crate::p_hist::many_keys()[..n].iter().map(|k| crate::arena::node(StorageListNode::new(k))).collect();
    let attach = |i: usize, d: u32| -> T {
        let node = nodes[i];
        Task::new(async move { node.attach_with_default(list, move || d).await })
    };
    let early = pick(2) == 1;
    if early {
        ensure!(w.0.poll().is_none(), "the worker ended");
    }
    let run = |w: &mut (Task<()>, Vec<T>, Vec<H>), base: usize| {
        for _ in 0..20 {
            if w.0.woken() {
                ensure!(w.0.poll().is_none(), "the worker ended");
            }
        }
        for (i, mut t) in std::mem::take(&mut w.1).into_iter().enumerate() {
            match t.poll_if_woken() {
                Some(Ok(h)) => {
                    ensure!(h.load() == (base + i) as u32, "attach {} of {n} yields {}", base + i, h.load());
                    w.2.push(h);
                }
                Some(Err(e)) => mc::violation(format!("attach {} of {n} fails: {e:?}", base + i)),
                None => mc::violation(format!("attach {} of {n} does not complete", base + i)),
            }
        }
    };
    for (from, to) in [(0, n - late), (n - late, n)] {
        for i in from..to {
            let mut t = attach(i, i as u32);
            let r = t.poll();
            ensure!(r.is_none(), "a first attach completes by itself");
            if again && i % 3 == 1 {
                // cancelled, and attached again
                t = attach(i, i as u32);
                ensure!(t.poll().is_none(), "a first attach completes by itself");
            }
            w.1.push(t);
            mc::step();
        }
        run(w, from);
    }
    mc::nontrivial();
    for (i, h) in w.2.iter_mut().enumerate() {
        let v = 5000 + i as u32;
        let r = crate::exec::poll_once(std::pin::pin!(h.write(&v)));
        ensure!(r == Poll::Ready(Ok(())), "write gives {r:?}");
    }
    run(w, 0);
    for (i, h) in w.2.iter().enumerate() {
        ensure!(h.load() == 5000 + i as u32, "node {i} reads {}", h.load());
    }
    if !plain && n > 0 {
        let r = store.records();
        let want: Snap = (0..n).map(|i| (crate::p_hist::many_keys()[i].to_string(), enc(5000 + i as u32))).collect();
        ensure!(newest(&r).first().is_some_and(|r| r.map() == want), "what was written is not stored: {}", store.describe());
    }
    mc::outcome(mc::hash_of(&(n, late, again, early)));
    w.2.clear();
}

pub fn scenarios(id: u32, thorough: bool) -> Vec<Scen> {
    let t = thorough as usize;
    let t8 = thorough as u8;
    const CROWD: &[usize] = &[0, 1, 5, 6, 13, 14, 29, 30, 62, 125, 126, 253, 254];
    const CROWDS: &[usize] = &[5, 6, 13, 29, 61, 62, 97, 125, 126, 252, 253, 254];
    const SHORT: &[u64] = &[0, 50 * MS, 100 * MS, 5 * SEC, 10 * SEC];
    const FULL: &[u64] = &[0, 50 * MS, 100 * MS, 150 * MS, 9_950 * MS, 10 * SEC, 10_050 * MS, 119_950 * MS, 130 * SEC];
    const GAPS: &[u64] = &[0, SEC, 5 * SEC, 9_950 * MS];
    const LONG: &[u64] = &[0, 9_950 * MS, 10 * SEC, 109_900 * MS, 120 * SEC];
    match id {
        21 => vec![
            scen("timing", 0, move || served(4 + t, SHORT, false, &[0], &[0, 1, 2])),
            scen("timing-fine", 0, move || served(3 + t, FULL, false, &[0], &[0, 1, 2])),
            scen("collection-delay", 0, move || served(4 + t, LONG, false, &[0], &[0, 1, 2])),
            scen("busy", 1 + t8, move || served(4, &[100 * MS, 10 * SEC], true, &[0], &[0, 1, 2])),
            scen("contents", 0, move || served(4, &[0, 100 * MS, 10 * SEC], false, &[0], &[3, 4, 5, 6])),
            scen("slow-storage", 0, move || served(4 + t, &[0, 100 * MS, 10 * SEC, 40 * SEC], false, &[15 * MS, 300 * MS, 6 * SEC], &[0, 1, 2])),
            scen("bursts", 0, move || bursts(21, 30 + 30 * t, GAPS)),
            scen("crowd", 0, move || crowd(21, if t > 0 { CROWDS } else { CROWD }, false)),
            scen("rounds", 0, move || rounds(21, 12 + 20 * t, FULL)),
        ],
        22 => vec![
            scen("crowd", 0, move || crowd(22, if t > 0 { CROWDS } else { CROWD }, false)),
            scen("bursts", 0, move || bursts(22, 30 + 30 * t, GAPS)),
            scen("rounds", 0, move || rounds(22, 12 + 20 * t, FULL)),
            scen("quiet", 0, move || quiet_periods(4 + t, SHORT, false, false)),
            scen("quiet-fine", 0, move || quiet_periods(3 + t, FULL, false, false)),
            scen("stop", 0, move || quiet_periods(4 + t, SHORT, false, true)),
            scen("stop-fine", 0, move || quiet_periods(3 + t, FULL, false, true)),
            scen("collection-delay", 0, move || quiet_periods(4 + t, LONG, false, false)),
            scen("busy", 1 + t8, move || quiet_periods(4, &[100 * MS, 10 * SEC], true, pick(2) == 1)),
        ],
        23 => vec![
            scen("crowd", 1, move || crowd(23, if t > 0 { CROWDS } else { &[5, 30] }, true)),
            scen("long-outage", 0, move || long_outage(16 + 16 * t)),
            scen("slow-storage", 1, move || survives(3, &[100 * MS, 10 * SEC, 40 * SEC], false, false, &[15 * MS, 300 * MS, 6 * SEC])),
            scen("errors", 1, move || survives(3 + t, SHORT, false, false, &[0])),
            scen("two-errors", 2, move || survives(3, &[100 * MS, 10 * SEC], false, false, &[0])),
            scen("outages", 0, move || survives(4 + t, SHORT, false, true, &[0])),
            scen("busy-outages", 1, move || survives(3 + t, &[100 * MS, 10 * SEC], true, true, &[0])),
        ],
        29 => vec![scen("histories", 0, move || no_op(6 + t)), scen("crowd", 0, || no_op_crowd(true))],
        18 => vec![scen("crowd", 0, || no_op_crowd(false))],
        _ => vec![],
    }
}
