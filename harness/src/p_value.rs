//! C17: every value put into a node is dropped exactly once and never used outside its life.
//! The histories of `hist` with a value type that registers every construction, use and drop.

use crate::dev::*;
use crate::hist::*;
use crate::mc::{self, pick, pick_of};
use crate::p_hist::{faults, history, prelude, revive};
use crate::{Scen, scen};
use minicbor::{CborLen, Decode, Decoder, Encode, Encoder};
use std::cell::RefCell;
use std::collections::HashSet;

const MAGIC: u64 = 0x1cfa_0000_d1e5_ab1e;

thread_local! {
    static LIVE: RefCell<(HashSet<u64>, u64)> = RefCell::new((HashSet::new(), 0));
}

/// Not plain data: owns its registration (and some memory, so that sizes and alignment matter)
pub struct Tracked {
    magic: u64,
    serial: u64,
    v: u32,
    pad: [u8; 5],
}
impl Tracked {
    fn new(v: u32) -> Self {
        let serial = LIVE.with(|l| {
            let mut l = l.borrow_mut();
            l.1 += 1;
            let s = l.1;
            l.0.insert(s);
            s
        });
        Tracked { magic: MAGIC ^ serial, serial, v, pad: [v as u8; 5] }
    }
    fn bad(&self) -> bool {
        self.magic != MAGIC ^ self.serial
            || self.pad != [self.v as u8; 5]
            || !LIVE.with(|l| l.borrow().0.contains(&self.serial))
    }
    fn used(&self, how: &str) {
        if self.bad() {
            mc::violation(format!("a value is {how} that does not exist (never constructed, or dropped before)"));
        }
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        if self.bad() {
            mc::note_violation("a value is dropped that does not exist (never constructed, or dropped before)");
            return;
        }
        LIVE.with(|l| l.borrow_mut().0.remove(&self.serial));
        self.magic = 0;
    }
}
impl Clone for Tracked {
    fn clone(&self) -> Self {
        self.used("cloned");
        Tracked::new(self.v)
    }
}
impl<C> Encode<C> for Tracked {
    fn encode<W: minicbor::encode::Write>(&self, e: &mut Encoder<W>, _: &mut C) -> Result<(), minicbor::encode::Error<W::Error>> {
        self.used("encoded");
        e.u32(self.v)?;
        Ok(())
    }
}
impl<C> CborLen<C> for Tracked {
    fn cbor_len(&self, ctx: &mut C) -> usize {
        self.used("measured");
        self.v.cbor_len(ctx)
    }
}
impl<'b, C> Decode<'b, C> for Tracked {
    fn decode(d: &mut Decoder<'b>, _: &mut C) -> Result<Self, minicbor::decode::Error> {
        Ok(Tracked::new(d.u32()?))
    }
}
impl Value for Tracked {
    fn mk(v: u32) -> Self {
        Tracked::new(v)
    }
    fn get(&self) -> u32 {
        self.used("read");
        self.v
    }
    fn audit(min: usize, max: usize) {
        let n = LIVE.with(|l| l.borrow().0.len());
        if n < min || n > max {
            mc::violation(format!("{n} values exist while nodes hold {min} to {max}"));
        }
    }
    fn forget_all() {
        LIVE.with(|l| l.borrow_mut().0.clear())
    }
}

const OPS: &[Op] = &[
    Op::Attach(0, 0), Op::CancelAttach(0), Op::Release(0), Op::Detach(0, 0), Op::Write(0),
    Op::Attach(1, 0), Op::Release(1), Op::Detach(1, 0), Op::Write(1), Op::Attach(0, 1),
    Op::Load, Op::CycleL(0), Op::LoadL(1), Op::CycleL(1), Op::Detach(0, 1),
];
const OPS_FAULT: &[Op] = &[
    Op::Attach(0, 0), Op::CancelAttach(0), Op::Release(0), Op::Detach(0, 0), Op::Write(0), Op::Load, Op::Cycle,
];
const OPS_LONG: &[Op] = &[Op::Attach(0, 0), Op::CancelAttach(0), Op::Release(0), Op::Detach(0, 0), Op::Write(0), Op::Load, Op::Reset];

fn contents(i: usize) -> Vec<Vec<u8>> {
    let num = |k: &str| enc_kv(k, &(300u32 + k.len() as u32));
    let text = |k: &str| enc_kv(k, &"no number");
    match i {
        0 => vec![],
        1 => enc_record(3, &[num("b"), num("a")]),
        // values that do not decode
        2 => enc_record(3, &[num("b"), text("a")]),
        3 => enc_record(3, &[text("b"), num("a")]),
        // behind an older record
        4 => {
            let mut v = enc_record(3, &[num("b"), num("a")]);
            v.extend(enc_record(4, &[text("a")]));
            v
        }
        // more behind the values
        5 => enc_record(3, &[[num("a"), vec![0]].concat(), [num("b"), num("b")].concat()]),
        // values that are there twice
        _ => enc_record(3, &[num("a"), num("b"), num("a"), num("b")]),
    }
}

fn lives(ops: &[Op], depth: usize, menu: Option<fn() -> Menu>, lists: usize) {
    Tracked::forget_all();
    let mut w = World::<Tracked, 2>::new(p(17), &["a", "b"], lists);
    let start = pick(7);
    w.l[0].dev.set_items(contents(start));
    if start > 0 {
        w.l[0].acked = newest(&w.l[0].dev.records()).first().map(|r| r.map());
        let m = w.l[0].acked.clone().unwrap();
        w.l[0].ever.push(m);
    }
    prelude(&mut w, pick_of(&[0, 1]));
    w.audit();
    if let Some(m) = menu {
        faults(&w, m);
    }
    if !history(&mut w, ops, depth) {
        return;
    }
    revive(&mut w);
    if menu.is_none() || w.l[0].dev.0.borrow().faults > 0 {
        mc::nontrivial();
    }
    for l in &w.l {
        l.dev.no_faults();
    }
    for l in 0..lists {
        w.recover_list(l, &[]);
        w.audit();
    }
    mc::outcome(mc::hash_of(&(w.l[0].dev.items(), w.model_hash())));
    // in the end everything is released and detached: nothing may be left
    for i in 0..w.n.len() {
        w.cancel_attach(i);
        w.release(i);
        if let Some(l) = w.n[i].att {
            w.detach(i, l);
        }
        w.audit();
    }
    Tracked::audit(0, 0);
    mc::step();
}

pub fn scenarios(id: u32, thorough: bool) -> Vec<Scen> {
    let t = thorough as usize;
    match id {
        17 => vec![
            scen("two-lists", 0, move || lives(OPS, 4 + t, None, 2)),
            scen("one-node", 0, move || lives(OPS_LONG, 6 + t, None, 1)),
            scen("faults", 1, move || lives(OPS_FAULT, 3 + t, Some(menu_all), 1)),
        ],
        _ => vec![],
    }
}
