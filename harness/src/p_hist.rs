//! Scenarios over the history engine (single caller, ideal storage): C01-C06, C08-C12, C14-C16,
//! C27, C28, C30.

use crate::dev::*;
use crate::hist::*;
use crate::mc::{self, pick, pick_of};
use crate::{Scen, scen};

pub const KEYS: [&str; 4] = ["a", "b", "c", "d"];

/// Where histories start
pub fn prelude<T: Value, const K: usize>(w: &mut W<T, K>, which: usize) {
    match which {
        // just attached, nothing loaded
        0 => w.attach_all(),
        // running on empty storage
        1 => {
            w.boot();
        }
        // running, one record stored
        2 => {
            w.boot();
            w.cycle(0);
        }
        // running, the retention limit reached, one change pending, last flush not collected
        _ => {
            w.boot();
            w.cycle(0);
            for _ in 0..K {
                w.write(0);
                w.cycle(0);
            }
            w.write(0);
            w.call(0, Call::Flush);
        }
    }
}

/// Run `depth` freely chosen operations; restarts after each power loss
pub fn history<T: Value, const K: usize>(w: &mut W<T, K>, ops: &[Op], depth: usize) -> bool {
    for _ in 0..depth {
        let o = pick_of(ops);
        if !w.op(o) {
            return false;
        }
        revive(w);
        w.audit();
    }
    true
}
pub fn revive<T: Value, const K: usize>(w: &mut W<T, K>) {
    while !w.alive() {
        mc::nontrivial();
        w.boot();
    }
}
pub fn faults<T: Value, const K: usize>(w: &W<T, K>, m: fn() -> Menu) {
    for l in &w.l {
        l.dev.set_menu(m());
    }
}

macro_rules! with_k {
    ($ks:expr, $f:ident ( $($a:expr),* )) => {
        match $ks[pick($ks.len())] {
            1 => $f::<1>($($a),*),
            2 => $f::<2>($($a),*),
            3 => $f::<3>($($a),*),
            4 => $f::<4>($($a),*),
            5 => $f::<5>($($a),*),
            8 => $f::<8>($($a),*),
            17 => $f::<17>($($a),*),
            40 => $f::<40>($($a),*),
            _ => unreachable!(),
        }
    };
}

/// Free histories under a fault menu, then recovery on working storage
#[derive(Clone, Copy)]
struct Cfg {
    flags: u64,
    nodes: usize,
    ops: &'static [Op],
    depth: usize,
    preludes: &'static [usize],
    menu: Option<fn() -> Menu>,
    /// faults already during the prelude
    early: bool,
    recover: &'static [u32],
    /// what a restart afterwards must load
    durable: &'static [u32],
    /// end with or without a restart
    restart: bool,
}

fn free<const K: usize>(c: &Cfg) {
    let mut w = World::<u32, K>::new(c.flags, &KEYS[..c.nodes], 1);
    if c.early
        && let Some(m) = c.menu
    {
        faults(&w, m);
    }
    prelude(&mut w, pick_of(c.preludes));
    revive(&mut w);
    if let Some(m) = c.menu {
        faults(&w, m);
    }
    if !history(&mut w, c.ops, c.depth) {
        return;
    }
    if w.l[0].dev.0.borrow().faults > 0 || c.menu.is_none() {
        mc::nontrivial();
    }
    for l in &w.l {
        l.dev.no_faults();
    }
    if c.restart && pick(2) == 1 {
        w.power_off();
        w.attach_all();
    }
    w.recover(c.recover);
    if !w.l[0].foreign {
        w.verify_durable(c.durable);
    }
    mc::outcome(mc::hash_of(&(w.l[0].dev.items(), w.model_hash())));
}
fn free_k(ks: &[usize], c: &Cfg) {
    with_k!(ks, free(c))
}

const OPS_BASIC: &[Op] = &[Op::Write(0), Op::Flush, Op::Gc, Op::Cycle, Op::Restart];
const OPS_FULL: &[Op] = &[Op::Write(0), Op::Write(1), Op::Flush, Op::Gc, Op::Load, Op::Cycle, Op::Restart, Op::Reset];
const OPS_NODES: &[Op] =
    &[Op::Write(0), Op::Cycle, Op::Flush, Op::Release(1), Op::Detach(1, 0), Op::Attach(1, 0), Op::Load, Op::Gc];

fn hist_scen(name: &str, c: Cfg, ks: &'static [usize], bound: u8) -> Scen {
    scen(name, bound, move || free_k(ks, &c))
}


const OPS_GATES: &[Op] =
    &[Op::Write(0), Op::Load, Op::Flush, Op::Gc, Op::Reset, Op::Attach(1, 0), Op::Release(1), Op::Detach(1, 0), Op::Reboot];
const OPS_OWN: &[Op] = &[
    Op::Attach(0, 0), Op::Attach(1, 0), Op::Attach(2, 0), Op::Attach(0, 1), Op::Attach(1, 1),
    Op::CancelAttach(0), Op::CancelAttach(1), Op::Release(0), Op::Release(1), Op::Release(2),
    Op::Detach(0, 0), Op::Detach(0, 1), Op::Detach(1, 0), Op::Detach(1, 1), Op::Detach(2, 0),
    Op::LoadL(0), Op::LoadL(1), Op::Write(0),
];
const OPS_MOVE: &[Op] = &[
    Op::Attach(0, 0), Op::Attach(0, 1), Op::CancelAttach(0), Op::Release(0), Op::Detach(0, 0), Op::Detach(0, 1),
    Op::Write(0), Op::Write(1), Op::CycleL(0), Op::CycleL(1), Op::Restart,
];
const OPS_MOVE1: &[Op] = &[
    Op::Attach(0, 0), Op::CancelAttach(0), Op::Release(0), Op::Detach(0, 0), Op::Write(0), Op::Load, Op::Gc, Op::Flush,
];
const OPS_MOVE_LAZY: &[Op] = &[
    Op::Attach(0, 0), Op::Attach(0, 1), Op::CancelAttach(0), Op::Release(0), Op::Detach(0, 0), Op::Detach(0, 1),
    Op::LoadLazyL(0), Op::LoadLazyL(1), Op::CycleL(0), Op::CycleL(1),
];
const OPS_RESET: &[Op] = &[
    Op::Write(0), Op::Load, Op::Flush, Op::Gc, Op::Reset, Op::Wipe, Op::Foreign(1), Op::Foreign(300), Op::Attach(2, 0), Op::Cycle,
];

/// Free histories with two lists; node 1 shares its key with node 0
fn own<const K: usize>(flags: u64, keys: &[&'static str], ops: &[Op], depth: usize, start: bool) {
    let mut w = World::<u32, K>::new(flags, keys, 2);
    if start {
        w.boot();
        w.cycle(0);
    }
    if !history(&mut w, ops, depth) {
        return;
    }
    mc::nontrivial();
    for l in 0..2 {
        w.recover_list(l, &[]);
    }
    // whatever happened: everything can be released, detached and attached again
    for i in 0..w.n.len() {
        w.cancel_attach(i);
        w.release(i);
        if let Some(l) = w.n[i].att {
            w.detach(i, l);
        }
        w.attach(i, 0);
        if w.n[i].att.is_some() {
            w.cancel_attach(i);
            w.detach(i, 0);
        }
    }
    mc::outcome(mc::hash_of(&(w.l[0].dev.items(), w.l[1].dev.items(), w.model_hash())));
}

/// Two lists: node a may be stored in either, node b lives in the first
fn own_stored<const K: usize>(flags: u64, ops: &[Op], depth: usize) {
    let mut w = World::<u32, K>::new(flags, &["a", "b"], 2);
    let which = pick(4);
    for l in 0..2 {
        if which >> l & 1 == 1 {
            w.attach(0, l);
            w.cycle(l);
            w.poll();
            w.cycle(l);
            w.release(0);
            w.detach(0, l);
        }
    }
    w.attach(1, 0);
    w.cycle(0);
    w.poll();
    if !history(&mut w, ops, depth) {
        return;
    }
    mc::nontrivial();
    w.poll();
    for l in 0..2 {
        w.recover_list(l, &[]);
    }
    mc::outcome(mc::hash_of(&(w.l[0].dev.items(), w.l[1].dev.items(), w.model_hash())));
}

const OPS_LAZY: &[Op] = &[
    Op::Attach(1, 0), Op::Attach(2, 0), Op::LoadLazy, Op::Poll, Op::Flush, Op::Gc, Op::Write(0), Op::CancelAttach(1),
    Op::CancelAttach(2), Op::Release(1), Op::Detach(1, 0), Op::Detach(2, 0),
];

/// Attaches that are polled long after their load, or dropped
fn slow_attach<const K: usize>(c: &Cfg) {
    let mut w = World::<u32, K>::new(c.flags, &KEYS[..3], 1);
    w.attach(0, 0);
    w.attach(1, 0);
    w.call(0, Call::Load);
    w.cycle(0);
    w.power_off();
    w.attach(0, 0);
    w.call(0, Call::Load);
    w.call(0, Call::Gc);
    if let Some(m) = c.menu {
        faults(&w, m);
    }
    if !history(&mut w, c.ops, c.depth) {
        return;
    }
    mc::nontrivial();
    w.poll();
    w.recover(c.recover);
    w.verify_durable(c.durable);
    mc::outcome(mc::hash_of(&(w.l[0].dev.items(), w.model_hash())));
}

/// Loads that fail half way, and what can be done before one completes
fn partial_loads<const K: usize>(c: &Cfg) {
    let mut w = World::<u32, K>::new(c.flags, &KEYS[..3], 1);
    // the order of attaching is the order in the list, and that of writing the order of a record
    let (x, y) = pick_of(&[(0, 1), (1, 0)]);
    w.attach(x, 0);
    w.attach(y, 0);
    w.call(0, Call::Load);
    w.cycle(0);
    w.power_off();
    let (x, y) = pick_of(&[(0, 1), (1, 0)]);
    w.attach(x, 0);
    w.attach(y, 0);
    if pick(2) == 1 {
        w.attach(2, 0);
    }
    if let Some(m) = c.menu {
        faults(&w, m);
    }
    w.call(0, Call::Load);
    if let Some(x) = pick_of(&[None, Some(0), Some(1)]) {
        if !w.cancel_attach(x) {
            return;
        }
        w.attach(x, 0);
        if !w.write(x) {
            return;
        }
    }
    if !history(&mut w, c.ops, c.depth) {
        return;
    }
    if w.l[0].dev.0.borrow().faults > 0 {
        mc::nontrivial();
    }
    w.recover(c.recover);
    w.verify_durable(c.durable);
    mc::outcome(mc::hash_of(&(w.l[0].dev.items(), w.model_hash())));
}

/// Many cycles with a fault anywhere: defects that need a long history
fn long<const K: usize>(c: &Cfg, cycles: usize, nodes: usize) {
    let n = 1 + pick(nodes);
    let mut w = World::<u32, K>::new(c.flags, &KEYS[..n], 1);
    let style = pick(3);
    let reboot = pick_of(&[0usize, 1, 4]);
    if let Some(m) = c.menu {
        faults(&w, m);
    }
    w.boot();
    for i in 0..cycles {
        revive(&mut w);
        w.write(i % n);
        match style {
            // like the default worker
            0 => {
                w.call(0, Call::Gc);
                w.call(0, Call::Flush);
                w.call(0, Call::Gc);
            }
            1 => {
                w.cycle(0);
            }
            // collections only every third time
            _ => {
                w.call(0, Call::Flush);
                if i % 3 == 2 {
                    w.call(0, Call::Gc);
                }
            }
        }
        revive(&mut w);
        if reboot > 0 && i % reboot == reboot - 1 {
            w.restart();
        }
        w.audit();
    }
    revive(&mut w);
    mc::nontrivial();
    w.recover(c.recover);
    w.verify_durable(c.durable);
    mc::outcome(mc::hash_of(&(w.l[0].dev.items(), w.model_hash())));
}
fn long_k(ks: &[usize], c: &Cfg, cycles: usize, nodes: usize) {
    with_k!(ks, long(c, cycles, nodes))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Rep {
    Op(Op),
    /// release and attach again
    Retake(usize),
    /// release, detach, attach, load
    Renew(usize),
    /// attach (2) and drop the attach again
    Abandon,
    Leave(usize),
    WriteFlush,
    /// a call while the storage does not work
    Broken(Call),
    /// a call in which every operation of a kind ends like this
    Forced(Call, OpK, Ans),
}
const REPS: &[Rep] = &[
    Rep::Op(Op::Write(0)), Rep::Op(Op::Write(1)), Rep::Op(Op::Load), Rep::Op(Op::Gc), Rep::Op(Op::Flush), Rep::Op(Op::Reset),
    Rep::Op(Op::Restart), Rep::Retake(0), Rep::Renew(0), Rep::Abandon, Rep::Leave(1), Rep::WriteFlush,
    Rep::Broken(Call::Load), Rep::Broken(Call::Flush), Rep::Broken(Call::Gc),
    Rep::Forced(Call::Load, OpK::Iter, Ans::Cancel), Rep::Forced(Call::Load, OpK::Next, Ans::Err), Rep::Forced(Call::Load, OpK::Next, Ans::Cancel),
    Rep::Forced(Call::Flush, OpK::Push, Ans::ErrTorn), Rep::Forced(Call::Flush, OpK::Push, Ans::ErrAfter), Rep::Forced(Call::Flush, OpK::Push, Ans::Cancel),
    Rep::Forced(Call::Flush, OpK::Next, Ans::Err), Rep::Forced(Call::Flush, OpK::Next, Ans::Cancel),
    Rep::Forced(Call::Gc, OpK::Inval, Ans::Err), Rep::Forced(Call::Gc, OpK::Inval, Ans::ErrAfter), Rep::Forced(Call::Gc, OpK::Inval, Ans::Cancel),
    Rep::Forced(Call::Gc, OpK::Next, Ans::Err),
];
fn rep<const K: usize>(w: &mut W<u32, K>, r: Rep) {
    match r {
        Rep::Op(o) => {
            w.op(o);
        }
        Rep::Retake(i) => {
            w.release(i);
            w.attach(i, 0);
        }
        Rep::Renew(i) => {
            w.release(i);
            w.detach(i, 0);
            w.attach(i, 0);
            w.call(0, Call::Load);
        }
        Rep::Abandon => {
            w.attach(2, 0);
            w.cancel_attach(2);
        }
        Rep::Leave(i) => {
            w.release(i);
            w.detach(i, 0);
        }
        Rep::WriteFlush => {
            w.write(0);
            w.call(0, Call::Gc);
            w.call(0, Call::Flush);
        }
        Rep::Broken(c) => {
            w.l[0].dev.0.borrow_mut().broken = true;
            w.call(0, c);
            w.l[0].dev.0.borrow_mut().broken = false;
        }
        Rep::Forced(c, k, a) => {
            // a flush is only begun after a collection
            if c == Call::Flush {
                w.call(0, Call::Gc);
                w.write(0);
            }
            w.l[0].dev.0.borrow_mut().force = Some((k, a));
            w.call(0, c);
            w.l[0].dev.0.borrow_mut().force = None;
        }
    }
    w.poll();
}

/// One operation many times, between others: defects that need a number of repetitions
fn repeats<const K: usize>(c: &Cfg, counts: &[usize]) {
    let mut w = World::<u32, K>::new(c.flags, &KEYS[..3], 1);
    for i in 0..2 {
        w.attach(i, 0);
    }
    w.call(0, Call::Load);
    w.poll();
    if pick(2) == 1 {
        w.cycle(0);
        w.write(0);
    }
    if let Some(r) = pick_of(&[None, Some(Rep::Op(Op::Flush)), Some(Rep::Op(Op::Reset)), Some(Rep::Broken(Call::Flush)), Some(Rep::Broken(Call::Gc))]) {
        rep(&mut w, r);
    }
    let r = pick_of(REPS);
    for _ in 0..pick_of(counts) {
        rep(&mut w, r);
    }
    w.audit();
    if let Some(r) = pick_of(&[None, Some(Rep::Op(Op::Write(1))), Some(Rep::Op(Op::Flush)), Some(Rep::Renew(0)), Some(Rep::Abandon), Some(Rep::Broken(Call::Flush))]) {
        rep(&mut w, r);
    }
    mc::nontrivial();
    w.audit();
    w.recover(c.recover);
    w.write(0);
    w.recover(c.recover);
    w.verify_durable(c.durable);
    mc::outcome(mc::hash_of(&(w.l[0].dev.items(), w.model_hash())));
}

pub fn many_keys() -> &'static [&'static str] {
    static KEYS: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    KEYS.get_or_init(|| (0..300).map(|i| &*Box::leak(format!("node/{i}").into_boxed_str())).collect())
}

/// Many nodes in one list
fn many<const K: usize>(flags: u64, max: usize, ps: &[u32]) {
    let n = pick(max + 1);
    let n = if n == max { 300 } else { n };
    let mut keys = many_keys()[..n].to_vec();
    let dup = flags == p(15);
    if dup && n > 0 {
        // more nodes with keys that are already attached: they never get in
        keys.extend([keys[0], keys[n / 2], keys[n - 1]]);
    }
    let mut w = World::<u32, K>::new(flags, &keys, 1);
    w.boot();
    w.poll();
    w.cycle(0);
    w.poll();
    w.cycle(0);
    if n == 0 {
        return;
    }
    mc::nontrivial();
    for j in n..keys.len() {
        w.attach(j, 0);
    }
    let i = pick_of(&[0, n / 2, n - 1]);
    w.write(i);
    w.cycle(0);
    match pick(3) {
        0 => {}
        // some leave
        1 => {
            for j in (0..n).step_by(3) {
                w.release(j);
                w.detach(j, 0);
            }
            w.write(i);
            w.cycle(0);
        }
        // a restart with half of them, the others come later
        _ => {
            w.power_off();
            for j in (0..n).step_by(2) {
                w.attach(j, 0);
            }
            w.call(0, Call::Load);
            w.poll();
            w.attach_all();
            w.call(0, Call::Load);
            w.poll();
        }
    }
    w.recover(ps);
    w.verify_durable(ps);
    mc::outcome(mc::hash_of(&(w.l[0].dev.items(), w.model_hash())));
}

/// Elements that take much space in storage
fn large_sizes<const K: usize>(flags: u64, depth: usize) {
    let mut w = World::<u32, K>::new(flags, &KEYS[..2], 1);
    w.l[0].dev.0.borrow_mut().overhead = pick_of(&[0usize, 27, 60, 120, 250, 1000, 8_000, 16_380, 32_760, 65_530, 1 << 24, 1 << 30, 1 << 31, 1 << 40]);
    prelude(&mut w, pick_of(&[1, 2, 3]));
    if !history(&mut w, OPS_BASIC, depth) {
        return;
    }
    for _ in 0..3 {
        w.write(0);
        w.cycle(0);
    }
    w.restart();
    mc::nontrivial();
    mc::outcome(mc::hash_of(&(w.l[0].dev.items(), w.model_hash())));
}

/// Long records: one fault at any place of a flush and the calls after it
fn crowd<const K: usize>(c: &Cfg, counts: &[usize], whats: &[Call]) {
    let n = pick_of(counts);
    let mut w = World::<u32, K>::new(c.flags, &many_keys()[..n], 1);
    w.boot();
    w.cycle(0);
    let what = pick_of(whats);
    for i in [0, n / 2, n - 1] {
        w.write(i);
    }
    if what != Call::Flush {
        w.call(0, Call::Flush);
    }
    if what == Call::Load {
        w.restart();
        w.write(n / 3);
    }
    if let Some(m) = c.menu {
        faults(&w, m);
    }
    w.call(0, what);
    revive(&mut w);
    w.l[0].dev.no_faults();
    w.call(0, Call::Gc);
    mc::nontrivial();
    w.recover(c.recover);
    w.verify_durable(c.durable);
    mc::outcome(mc::hash_of(&(w.l[0].dev.items(), w.model_hash())));
}

/// Long records that are silently corrupted at any place
fn silent_crowd<const K: usize>(flags: u64, counts: &[usize]) {
    use Ans::*;
    let n = pick_of(counts);
    let mut w = World::<u32, K>::new(flags, &many_keys()[..n], 1);
    w.boot();
    w.cycle(0);
    w.write(0);
    w.write(n - 1);
    w.wild = true;
    w.l[0].dev.set_menu(Menu { push: vec![Drop, Dup, OkTorn, Unreadable, Trunc, Flip(3, 1), ReplaceOld], ..Default::default() });
    silent_flush(&mut w);
}

/// K cycles, then every combination of damage to at most K-1 of the kept records
fn damage<const K: usize>(flags: u64, extra: usize) {
    damage_by::<K>(flags, extra, |_, r| pick(1 + r * 4));
}
/// Many kept records; all but one, or all newer ones, are damaged in the same way
fn damage_many<const K: usize>(flags: u64) {
    let extra = pick_of(&[0, 1, 30]);
    let (survivor, all, how) = (pick(K), pick(2) == 1, pick_of(&[1, 2, 4, 6, 9, 16]));
    damage_by::<K>(flags, extra, |i, r| if i == survivor || i < survivor && !all { 0 } else { how.min(r * 4) });
}
fn damage_by<const K: usize>(flags: u64, extra: usize, how: impl Fn(usize, usize) -> usize) {
    let mut w = World::<u32, K>::new(flags, &KEYS[..2], 1);
    w.boot();
    w.cycle(0);
    for _ in 1..K + extra {
        w.write(0);
        w.cycle(0);
    }
    let recs = w.l[0].dev.records();
    w.want(&[6], recs.len() >= K, || format!("after {} cycles only {} intact records are stored", K + extra, recs.len()));
    let mut items = w.l[0].dev.items();
    let maps: Vec<Snap> = recs.iter().map(|r| r.map()).collect();
    let mut hurt = vec![false; recs.len()];
    for (i, r) in recs.iter().enumerate() {
        // 0: intact, then (element, kind)
        let c = how(i, r.n);
        if c == 0 {
            continue;
        }
        let (e, kind) = ((c - 1) / 4 + r.at, (c - 1) % 4);
        hurt[i] = true;
        match kind {
            0 => items[e] = vec![0xEE; 3],
            1 => {
                let l = items[e].len();
                items[e][l - 1] ^= 1
            }
            2 => items[e] = vec![],
            _ => {
                items[e].pop();
            }
        }
    }
    if hurt.iter().filter(|h| **h).count() >= K.max(2) && K > 1 {
        return;
    }
    mc::nontrivial();
    items.retain(|b| !b.is_empty());
    w.l[0].dev.set_items(items);
    // an intact neighbour may only survive as a whole: the reference parser decides
    w.power_off();
    w.wild = true;
    mc::log(|| format!("damaged storage: {}", w.l[0].dev.describe()));
    let r = w.boot();
    w.want(&[6], r.is_ok(), || format!("load of damaged storage fails: {r:?}"));
    let best = (0..recs.len()).filter(|i| !hurt[*i]).max_by_key(|i| recs[*i].seq);
    w.poll();
    let got: Snap = w.n.iter().filter(|n| !n.dirty).filter_map(|n| match n.st {
        St::Has(v) => Some((n.key.to_string(), enc(v))),
        _ => None,
    }).collect();
    match best {
        Some(i) => w.want(&[6], got == maps[i], || format!("loads {} instead of the newest intact {}", show(&got), show(&maps[i]))),
        None => w.want(&[6], got.is_empty(), || format!("loads {} although no record is intact", show(&got))),
    }
    // and goes on from there
    w.write(0);
    for c in [Call::Gc, Call::Flush, Call::Gc] {
        let r = w.call(0, c);
        w.want(&[6, 27], r.is_ok(), || format!("{c:?} after fallback fails: {r:?}"));
    }
    let s = w.snap(0);
    let r = w.restart();
    w.want(&[6, 27], r.is_ok() && w.snap(0) == s, || format!("after fallback and flush {} loads instead of {}", show(&w.snap(0)), show(&s)));
    mc::outcome(mc::hash_of(&(best, got)));
}

/// Silent corruption of what is written
fn silent<const K: usize>(flags: u64, full: bool, preludes: &[usize]) {
    use Ans::*;
    let mut w = World::<u32, K>::new(flags, &KEYS[..2], 1);
    prelude(&mut w, pick_of(preludes));
    w.call(0, Call::Load);
    w.call(0, Call::Gc);
    if pick(2) == 1 {
        w.write(1);
    }
    w.write(0);
    w.wild = true;
    let mut push = vec![Drop, Dup, TornOk, OkTorn, Unreadable, Trunc, Extend, ReplaceOld, ReplaceNew];
    for i in 0..if full { 9 } else { 6 } {
        push.push(Flip(i, 1));
        if full {
            push.push(Flip(i, 0x80));
        }
    }
    w.l[0].dev.set_menu(Menu { push, ..Default::default() });
    silent_flush(&mut w);
}
fn silent_flush<const K: usize>(w: &mut W<u32, K>) {
    let r = w.call(0, Call::Flush);
    w.l[0].dev.no_faults();
    if w.l[0].dev.0.borrow().faults > 0 {
        mc::nontrivial();
    }
    let ok = r.is_ok();
    mc::outcome(mc::hash_of(&(ok, format!("{r:?}"), w.l[0].dev.items())));
    // a restart right now: an acknowledged flush must load
    if pick(2) == 1 {
        if ok {
            w.verify_durable(&[10]);
        }
        return;
    }
    // a later flush makes the changes durable
    let s = w.snap(0);
    for c in [Call::Load, Call::Gc, Call::Flush] {
        let r = w.call(0, c);
        w.want(&[10], r.is_ok(), || format!("after a detected corruption {c:?} fails: {r:?}"));
    }
    let recs = w.l[0].dev.records();
    let nw = newest(&recs);
    w.want(&[10], nw.len() == 1 && nw[0].map() == s, || {
        format!("changes did not stay pending: storage {} instead of {}", w.l[0].dev.describe(), show(&s))
    });
    w.verify_durable(&[10]);
}

/// Sequence numbers around encoding and counter boundaries
fn seqs<const K: usize>(flags: u64) {
    let mut w = World::<u32, K>::new(flags, &KEYS[..2], 1);
    let s0 = pick_of(&[1u32, 23, 127, 254, 255, 256, 32767, 65534, 65535, 65536, 0xff_ffff, 0x7fff_ffff, 0xffff_fff0]);
    let kvs: Vec<Vec<u8>> = KEYS[..2].iter().map(|k| enc_kv(k, &9u32)).collect();
    let mut items = vec![];
    let older = pick(3);
    for i in (0..=older as u32).rev() {
        if s0 > i {
            items.extend(enc_record(s0 - i, &kvs));
        }
    }
    w.l[0].dev.set_items(items);
    let m = w.l[0].dev.records()[0].map();
    w.l[0].ever.push(m.clone());
    w.l[0].acked = Some(m);
    w.l[0].dev.set_menu(menu_crash());
    w.boot();
    for _ in 0..K + 2 {
        revive(&mut w);
        w.write(0);
        w.cycle(0);
    }
    revive(&mut w);
    mc::nontrivial();
    w.recover(&[27]);
    w.verify_durable(&[27]);
    mc::outcome(w.l[0].dev.hash());
}

pub fn scenarios(id: u32, thorough: bool) -> Vec<Scen> {
    let t = thorough as usize;
    let t8 = thorough as u8;
    let ks: &'static [usize] = if thorough { &[1, 2, 3] } else { &[1, 2] };
    let base = Cfg {
        flags: p(id),
        nodes: 2,
        ops: OPS_BASIC,
        depth: 3 + t,
        preludes: &[0, 1, 2, 3],
        menu: None,
        early: false,
        recover: &[],
        durable: match id {
            1 => &[1],
            2 => &[2],
            3 => &[3],
            5 => &[5],
            8 => &[8],
            9 => &[9],
            16 => &[16],
            27 => &[27],
            30 => &[30],
            _ => &[],
        },
        restart: false,
    };
    let mut v = by_id(id, t, t8, base, ks);
    let cycles = 10 + 14 * t;
    let lks: &'static [usize] = if thorough { &[1, 2, 3, 4, 5, 8] } else { &[1, 2, 3, 5] };
    let menu: Option<(Option<fn() -> Menu>, &'static [u32])> = match id {
        1 | 2 => Some((Some(menu_crash), &[])),
        3 => Some((Some(menu_crash), &[3])),
        4 | 11 | 12 | 14 | 28 => Some((Some(menu_all), &[])),
        5 => Some((Some(menu_gc), &[5])),
        8 => Some((Some(menu_err), &[8])),
        9 => Some((Some(menu_cancel), &[9])),
        27 => Some((Some(menu_all), &[27])),
        _ => None,
    };
    if let Some((menu, recover)) = menu {
        let c = Cfg { menu, recover, ..base };
        v.push(scen("long-run", 1, move || long_k(lks, &c, cycles, if menu.is_some() && !thorough { 2 } else { 3 })));
        v.push(scen("very-long-run", 0, move || long_k(lks, &c, 300, 3)));
        let c0 = Cfg { menu: None, ..c };
        v.push(scen("many-kept", 0, move || with_k!([17, 40], long(&c0, 60, 2))));
    }
    if let 1 | 2 | 4 | 5 | 8 | 9 | 11 | 12 | 14 | 15 | 16 | 27 | 28 | 30 = id {
        let counts: &'static [usize] = if thorough {
            &[2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025]
        } else {
            &[3, 7, 8, 9, 16, 17, 32, 33, 64, 65, 127, 128, 254, 255, 256, 257]
        };
        let recover: &'static [u32] = match id {
            5 => &[5],
            8 => &[8],
            9 => &[9],
            30 => &[30],
            _ => &[],
        };
        let c = Cfg { recover, ..base };
        v.push(scen("repeats", 0, move || repeats::<2>(&c, counts)));
    }
    let crowds: Option<(fn() -> Menu, &'static [u32])> = match id {
        1 | 2 => Some((menu_few_cuts, &[])),
        3 => Some((menu_few_cuts, &[3])),
        4 | 11 | 12 | 14 | 28 => Some((menu_few, &[])),
        5 => Some((menu_few_gc, &[5])),
        8 => Some((menu_few_err, &[8])),
        9 => Some((menu_few_cancel, &[9])),
        27 => Some((menu_few, &[27])),
        _ => None,
    };
    let counts: &'static [usize] = if thorough {
        &[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 253, 254, 255, 256, 257, 300]
    } else {
        &[9, 17, 33, 65]
    };
    if let Some((menu, recover)) = crowds {
        let c = Cfg { menu: Some(menu), recover, ..base };
        let all = &[Call::Flush, Call::Gc, Call::Load];
        v.push(scen("long-records", 1, move || with_k!([1, 2], crowd(&c, counts, all))));
        if !thorough {
            let one: &[Call] = if id == 5 { &[Call::Gc] } else { &[Call::Flush] };
            v.push(scen("very-long-records", 1, move || crowd::<1>(&c, &[257], one)));
        }
    }
    if id == 10 {
        v.push(scen("long-records", 1, move || with_k!([1, 2], silent_crowd(p(id), counts))));
        v.push(scen("very-long-records", 1, move || silent_crowd::<1>(p(id), &[257])));
    }
    let sa = Cfg { ops: OPS_LAZY, depth: 5 + t, ..base };
    match id {
        8 | 9 => {
            let c = Cfg { menu: Some(if id == 8 { menu_err } else { menu_cancel }), depth: 4 + t, recover: if id == 8 { &[8] } else { &[9] }, ..sa };
            v.push(scen("slow-attaches", 1, move || slow_attach::<2>(&c)));
        }
        11 | 12 | 13 | 14 | 15 | 16 | 28 => v.push(scen("slow-attaches", 0, move || slow_attach::<2>(&sa))),
        _ => {}
    }
    if let 1 | 2 | 8 | 9 | 11 | 12 | 13 | 16 = id {
        let c = Cfg {
            menu: Some(if id == 9 { menu_cancel } else { menu_err }),
            ops: &[Op::Load, Op::CancelAttach(0), Op::Attach(0, 0), Op::Write(0), Op::Write(1), Op::Gc, Op::Flush, Op::Poll],
            depth: 4 + t,
            recover: if id == 8 { &[8] } else if id == 9 { &[9] } else { &[] },
            ..sa
        };
        v.push(scen("partial-loads", 1, move || partial_loads::<2>(&c)));
    }
    if let 1 | 2 | 4 | 7 | 11 | 13 | 14 | 15 | 28 = id {
        let max = if thorough { 260 } else { 70 };
        v.push(scen("many-nodes", 0, move || match id {
            2 => many::<2>(p(id), max, &[2]),
            7 => many::<1>(p(id), max, &[7]),
            11 => many::<2>(p(id), max, &[11]),
            1 | 4 | 15 | 28 => many::<1>(p(id), max, &[id]),
            13 => many::<1>(p(id), max, &[13]),
            _ => many::<1>(p(id), max, &[14]),
        }));
    }
    v
}
fn by_id(id: u32, t: usize, t8: u8, base: Cfg, ks: &'static [usize]) -> Vec<Scen> {
    let thorough = t > 0;
    // (id, fault menu of the property)
    let with = |m: fn() -> Menu, r: &'static [u32]| Cfg { menu: Some(m), recover: r, ..base };
    let h = |name: &str, c: Cfg, bound: u8| hist_scen(name, c, ks, bound);
    match id {
        1 | 2 => vec![
            h("power-loss", Cfg { early: true, ..with(menu_crash, &[]) }, 2),
            h("errors-cancel-power-loss", Cfg { depth: 2 + t, ..with(menu_all, &[]) }, 2),
            h("mixed-ops", Cfg { ops: OPS_FULL, ..with(menu_all, &[]) }, 1),
            h("nodes-come-and-go", Cfg { ops: OPS_NODES, nodes: 3, preludes: &[2, 3], depth: 4 + t, ..with(menu_crash, &[]) }, 1),
        ],
        3 => vec![
            h("power-loss", Cfg { early: true, restart: true, ..with(menu_crash, &[3]) }, 2),
            h(
                "repeated-power-loss",
                Cfg { early: true, depth: 2, ops: &[Op::Cycle, Op::Write(0)], ..with(menu_crash, &[3]) },
                3 + t8,
            ),
            h("mixed-ops", Cfg { ops: OPS_FULL, restart: true, ..with(menu_crash, &[3]) }, 1 + t8),
        ],
        4 => vec![
            h("histories", Cfg { ops: OPS_FULL, depth: 4 + t, ..base }, 0),
            h("after-faults", Cfg { depth: 3 + t, ..with(menu_all, &[]) }, 1),
            hist_scen("after-two-faults", Cfg { depth: 1 + t, preludes: &[2, 3], ..with(menu_all, &[]) }, &[1, 2, 3], 2),
            scen("boundaries", t8, move || with_k!([1, 2, 3], seqs(p(id)))),
        ],
        5 => vec![
            h("interrupted-collections", Cfg { depth: 2 + t, restart: true, preludes: &[2, 3], ..with(menu_gc, &[5]) }, 2),
            h(
                "collections-only",
                Cfg { depth: 3, ops: &[Op::Gc, Op::Load], preludes: &[3], restart: true, ..with(menu_gc, &[5]) },
                2 + t8,
            ),
        ],
        6 => vec![
            scen("damaged-records", 0, move || match pick(3) {
                0 => damage::<1>(p(id), pick(2)),
                1 => damage::<2>(p(id), pick(3)),
                _ => damage::<3>(p(id), 0),
            }),
            scen("many-kept", 0, move || match pick(4) {
                0 => damage_many::<4>(p(id)),
                1 => damage_many::<9>(p(id)),
                2 => damage_many::<20>(p(id)),
                _ => damage_many::<40>(p(id)),
            }),
            scen("bit-errors", 0, move || crate::p_content::bits(id)),
            scen("bit-errors-own", 0, crate::p_content::own_bits),
        ],
        8 => vec![
            h("errors", Cfg { early: true, ..with(menu_err, &[8]) }, 1),
            h("two-errors", Cfg { depth: 2 + t, ..with(menu_err, &[8]) }, 2),
            h("mixed-ops", Cfg { ops: OPS_FULL, restart: true, ..with(menu_err, &[8]) }, 1),
            h("late-nodes", Cfg { ops: OPS_NODES, nodes: 3, preludes: &[0, 2, 3], ..with(menu_err, &[8]) }, 1),
        ],
        9 => vec![
            h("cancels", Cfg { early: true, ..with(menu_cancel, &[9]) }, 1),
            h("two-cancels", Cfg { depth: 2 + t, ..with(menu_cancel, &[9]) }, 2),
            h("mixed-ops", Cfg { ops: OPS_FULL, restart: true, ..with(menu_cancel, &[9]) }, 1),
            h("late-nodes", Cfg { ops: OPS_NODES, nodes: 3, preludes: &[0, 2, 3], ..with(menu_cancel, &[9]) }, 1),
        ],
        10 => vec![
            scen("silent-corruption", 2, move || match pick(2) {
                0 => silent::<1>(p(id), thorough, &[0, 2, 3]),
                _ => silent::<3>(p(id), thorough, &[1, 3]),
            }),
            scen("silent-bit-errors", 1, || crate::p_content::silent_bits(false)),
            scen("silent-matching-errors", 2, || crate::p_content::silent_bits(true)),
        ],
        11 => vec![
            h("histories", Cfg { ops: OPS_FULL, depth: 4 + t, ..base }, 0),
            h("nodes-come-and-go", Cfg { ops: OPS_NODES, nodes: 3, depth: 4 + t, ..base }, 0),
            h("after-faults", Cfg { ops: OPS_FULL, ..with(menu_all, &[]) }, 1),
        ],
        12 => vec![
            h("histories", Cfg { ops: OPS_GATES, depth: 4 + t, ..base }, 0),
            h("after-faults", Cfg { ops: OPS_FULL, ..with(menu_all, &[]) }, 1),
        ],
        14 => vec![
            h("histories", Cfg { ops: OPS_GATES, depth: 4 + t, ..base }, 0),
            h("faults", Cfg { ops: OPS_FULL, ..with(menu_all, &[]) }, 1),
            scen("moves", 0, move || own::<1>(p(id), &["a", "b"], OPS_MOVE, 4 + t, true)),
            h("replaced-storage", Cfg { ops: OPS_RESET, nodes: 3, depth: 4 + t, ..base }, 0),
            h("replaced-storage-faults", Cfg { ops: OPS_RESET, nodes: 3, depth: 2 + t, ..with(menu_all, &[]) }, 1),
        ],
        15 => vec![
            scen("two-lists", 0, move || own::<1>(p(id), &["a", "a", "b"], OPS_OWN, 4 + t, false)),
            scen("two-lists-loaded", 0, move || own::<1>(p(id), &["a", "a", "b"], OPS_OWN, 4 + t, true)),
        ],
        16 => vec![
            scen("two-lists", 0, move || own::<1>(p(id), &["a", "b"], OPS_MOVE, 5 + t, true)),
            scen("two-lists-slow", 0, move || own_stored::<1>(p(id), OPS_MOVE_LAZY, 5 + t)),
            h("one-list", Cfg { ops: OPS_MOVE1, depth: 5 + t, preludes: &[1, 2], ..base }, 0),
        ],
        27 => vec![
            h("faults", Cfg { ops: OPS_FULL, ..with(menu_all, &[27]) }, 1),
            h("two-faults", Cfg { depth: 2 + t, ..with(menu_all, &[27]) }, 2),
            scen("boundaries", 1 + t8, move || with_k!([1, 2, 3], seqs(p(id)))),
            scen("fallback", 0, move || match pick(2) {
                0 => damage::<2>(p(id), pick(3)),
                _ => damage::<3>(p(id), 0),
            }),
            scen("much-content", 0, move || crate::p_content::much_any_order(thorough)),
            scen("any-order", 0, move || crate::p_content::any_order(if thorough { 6 } else { 5 })),
        ],
        28 => vec![
            h("histories", Cfg { ops: OPS_FULL, depth: 4 + t, ..base }, 0),
            h("nodes-come-and-go", Cfg { ops: OPS_NODES, nodes: 3, depth: 4 + t, ..base }, 0),
            h("after-faults", Cfg { ops: OPS_FULL, ..with(menu_all, &[]) }, 1),
            scen("large-sizes", 0, move || with_k!([1, 2, 3], large_sizes(p(id), 3 + t))),
        ],
        30 => vec![
            h("histories", Cfg { ops: OPS_RESET, nodes: 3, depth: 4 + t, recover: &[30], ..base }, 0),
            h("faults", Cfg { ops: OPS_RESET, nodes: 3, depth: 2 + t, ..with(menu_all, &[30]) }, 1),
        ],
        _ => vec![],
    }
}

/// faults of every kind, but only in removals and reads
fn menu_gc() -> Menu {
    let m = menu_all();
    Menu { push: vec![], ..m }
}

fn menu_few() -> Menu {
    use Ans::*;
    Menu { next: vec![Err], push: vec![ErrAfter, CancelTorn, CrashAfter], inval: vec![Err, CancelAfter, CrashAfter], ..Default::default() }
}
fn menu_few_cuts() -> Menu {
    use Ans::*;
    Menu { push: vec![CrashAfter, CrashTorn], inval: vec![CrashAfter], ..Default::default() }
}
fn menu_few_gc() -> Menu {
    use Ans::*;
    Menu { next: vec![Err], inval: vec![Err, CancelAfter, CrashAfter], ..Default::default() }
}
fn menu_few_err() -> Menu {
    use Ans::*;
    Menu { next: vec![Err], push: vec![Err, ErrAfter], inval: vec![Err, ErrAfter], ..Default::default() }
}
fn menu_few_cancel() -> Menu {
    use Ans::*;
    Menu { next: vec![Cancel], push: vec![Cancel, CancelAfter], inval: vec![Cancel, CancelAfter], ..Default::default() }
}
