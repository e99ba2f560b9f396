//! Ideal in-memory element queue whose every operation asks the explorer for the environment's
//! answer (success, error before/after taking effect, torn append, suspension for ever, silent
//! corruption).  Elements are kept as raw bytes and decoded by this file's own decoder, which is
//! also the reference for what is a well-formed write record.

use crate::mc;
use cfg_noodle::{Elem, NdlDataStorage, NdlElemIter, NdlElemIterNode, SerData};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::num::NonZeroU32;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum DErr {
    Io(u8),
    TooSmall,
    Dead,
}

/// Answers of the environment to a storage operation
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ans {
    /// error, no effect
    Err,
    /// effect, but an error is reported
    ErrAfter,
    /// push only: an unreadable element is stored, error reported
    ErrTorn,
    /// suspended for ever, no effect: the driver cancels the call
    Cancel,
    CancelAfter,
    CancelTorn,
    /// power cut
    Crash,
    CrashAfter,
    CrashTorn,
    /// push only, success reported
    Drop,
    Dup,
    /// an unreadable element in front of / behind the element
    TornOk,
    OkTorn,
    Unreadable,
    Flip(u8, u8),
    /// the last four bytes are changed such that the checksum of an element at the end of a
    /// record differs in this bit only
    CrcBit(u8),
    Trunc,
    /// one byte longer
    Extend,
    /// the oldest / newest stored data element is stored again instead
    ReplaceOld,
    ReplaceNew,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Intr {
    Cancel,
    Crash,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum RefElem {
    Start(u32),
    Data(Vec<u8>),
    End(u32, u32),
}

/// Reference element decoder
pub fn dec(b: &[u8]) -> Option<RefElem> {
    let u = |s: &[u8]| u32::from_le_bytes([s[0], s[1], s[2], s[3]]);
    match (b.first()?, b.len()) {
        (0, 5) if u(&b[1..]) != 0 => Some(RefElem::Start(u(&b[1..]))),
        (1, n) if n > 1 => Some(RefElem::Data(b[1..].to_vec())),
        (2, 9) if u(&b[1..]) != 0 => Some(RefElem::End(u(&b[1..]), u(&b[5..]))),
        _ => None,
    }
}
pub fn enc_start(seq: u32) -> Vec<u8> {
    let mut v = vec![0];
    v.extend(seq.to_le_bytes());
    v
}
pub fn enc_end(seq: u32, crc: u32) -> Vec<u8> {
    let mut v = vec![2];
    v.extend(seq.to_le_bytes());
    v.extend(crc.to_le_bytes());
    v
}
pub fn enc_data(kv: &[u8]) -> Vec<u8> {
    let mut v = vec![1];
    v.extend(kv);
    v
}
pub fn enc_kv<T: minicbor::Encode<()>>(key: &str, t: &T) -> Vec<u8> {
    let mut v = minicbor::to_vec(key).unwrap();
    v.extend(minicbor::to_vec(t).unwrap());
    v
}
/// CRC-32/CKSUM, written out independently of the crc crate
pub fn cksum<'a>(parts: impl Iterator<Item = &'a [u8]>) -> u32 {
    let mut crc = 0u32;
    for p in parts {
        for &b in p {
            crc ^= (b as u32) << 24;
            for _ in 0..8 {
                crc = if crc & 0x8000_0000 != 0 { (crc << 1) ^ 0x04c1_1db7 } else { crc << 1 };
            }
        }
    }
    !crc
}
/// Change the last four bytes such that only bit `k` of the checksum of a sequence that ends with
/// them changes
pub fn xor_tail(b: &mut [u8], k: u8) {
    let zero = cksum([&[0u8; 4][..]].into_iter());
    let delta = |m: u32| cksum([&m.to_le_bytes()[..]].into_iter()) ^ zero;
    // Gauss: pairs (mask, delta) with distinct leading bits
    let mut basis: Vec<(u32, u32)> = vec![];
    for j in 0..32 {
        let (mut m, mut d) = (1u32 << j, delta(1 << j));
        for &(bm, bd) in &basis {
            if d & (1 << bd.ilog2()) != 0 {
                m ^= bm;
                d ^= bd;
            }
        }
        if d != 0 {
            basis.push((m, d));
        }
    }
    let (mut m, mut d) = (0u32, 1u32 << k);
    for &(bm, bd) in &basis {
        if d & (1 << bd.ilog2()) != 0 {
            m ^= bm;
            d ^= bd;
        }
    }
    assert_eq!(d, 0);
    let n = b.len();
    for (x, y) in b[n - 4..].iter_mut().zip(m.to_le_bytes()) {
        *x ^= y
    }
}
/// Encode a complete valid record
pub fn enc_record(seq: u32, kvs: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let mut v = vec![enc_start(seq)];
    v.extend(kvs.iter().map(|kv| enc_data(kv)));
    v.push(enc_end(seq, cksum(kvs.iter().map(|k| &k[..]))));
    v
}

/// A well-formed record found by the reference parser
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RefRecord {
    pub seq: u32,
    /// position of the start element
    pub at: usize,
    /// number of elements
    pub n: usize,
    pub kvs: Vec<Vec<u8>>,
}
impl RefRecord {
    /// raw key -> raw value bytes
    pub fn map(&self) -> BTreeMap<String, Vec<u8>> {
        self.kvs.iter().filter_map(|kv| split_kv(kv)).collect()
    }
}
pub fn split_kv(kv: &[u8]) -> Option<(String, Vec<u8>)> {
    let mut d = minicbor::Decoder::new(kv);
    let k = d.str().ok()?.to_string();
    Some((k, kv[d.position()..].to_vec()))
}
/// Reference scan: all well-formed records, in storage order
pub fn parse<B: AsRef<[u8]>>(items: &[B]) -> Vec<RefRecord> {
    let mut out = vec![];
    let mut cur: Option<(u32, usize, Vec<Vec<u8>>)> = None;
    for (i, it) in items.iter().enumerate() {
        match dec(it.as_ref()) {
            None => cur = None,
            Some(RefElem::Start(s)) => cur = Some((s, i, vec![])),
            Some(RefElem::Data(d)) => {
                if let Some(c) = &mut cur {
                    c.2.push(d)
                }
            }
            Some(RefElem::End(s, crc)) => {
                if let Some((seq, at, kvs)) = cur.take()
                    && seq == s
                    && crc == cksum(kvs.iter().map(|k| &k[..]))
                {
                    out.push(RefRecord { seq, at, n: i - at + 1, kvs })
                }
            }
        }
    }
    out
}
/// The record(s) with the highest sequence number
pub fn newest(recs: &[RefRecord]) -> Vec<&RefRecord> {
    let m = recs.iter().map(|r| r.seq).max();
    recs.iter().filter(|r| Some(r.seq) == m).collect()
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Item {
    pub id: u32,
    pub b: Vec<u8>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum OpK {
    Iter,
    Next,
    Push,
    Inval,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct DevOp {
    pub k: OpK,
    pub id: u32,
    pub size: usize,
    pub ok: bool,
    pub time: u64,
}

#[derive(Default)]
pub struct Menu {
    pub iter: Vec<Ans>,
    pub next: Vec<Ans>,
    pub push: Vec<Ans>,
    pub inval: Vec<Ans>,
}

#[derive(Default)]
pub struct DevState {
    pub items: Vec<Item>,
    pub next_id: u32,
    pub menu: Menu,
    pub intr: Option<Intr>,
    pub log: Vec<DevOp>,
    pub dead: bool,
    /// every operation fails (without effect) while set
    pub broken: bool,
    /// every operation of this kind ends like this
    pub force: Option<(OpK, Ans)>,
    /// suspend (and wake) once in every operation
    pub yielding: bool,
    /// every operation takes this long (virtual microseconds)
    pub delay: u64,
    /// size added to each element's reported length
    pub overhead: usize,
    /// the length is rounded up to this first
    pub align: usize,
    pub faults: u32,
}

pub const DEV_OVERHEAD: usize = 7;

#[derive(Clone)]
pub struct Dev<const MAX: usize = 96>(pub Rc<RefCell<DevState>>);

impl<const MAX: usize> Dev<MAX> {
    pub fn new() -> Self {
        Dev(Rc::new(RefCell::new(DevState { overhead: DEV_OVERHEAD, align: 1, next_id: 1, ..Default::default() })))
    }
    pub fn with_items(items: Vec<Vec<u8>>) -> Self {
        let d = Self::new();
        d.set_items(items);
        d
    }
    pub fn set_items(&self, items: Vec<Vec<u8>>) {
        let mut s = self.0.borrow_mut();
        s.items.clear();
        for b in items {
            let id = s.next_id;
            s.next_id += 1;
            s.items.push(Item { id, b });
        }
    }
    pub fn items(&self) -> Vec<Vec<u8>> {
        self.0.borrow().items.iter().map(|i| i.b.clone()).collect()
    }
    pub fn records(&self) -> Vec<RefRecord> {
        parse(&self.items())
    }
    pub fn take_intr(&self) -> Option<Intr> {
        self.0.borrow_mut().intr.take()
    }
    pub fn take_log(&self) -> Vec<DevOp> {
        std::mem::take(&mut self.0.borrow_mut().log)
    }
    pub fn set_menu(&self, m: Menu) {
        self.0.borrow_mut().menu = m
    }
    pub fn no_faults(&self) {
        self.set_menu(Menu::default())
    }
    pub fn describe(&self) -> String {
        describe(&self.items())
    }
    pub fn hash(&self) -> u64 {
        mc::hash_of(&self.items())
    }

    fn size_of(&self, len: usize) -> usize {
        let s = self.0.borrow();
        s.overhead + len.next_multiple_of(s.align)
    }
    fn ask(&self, k: OpK) -> Option<Ans> {
        mc::step();
        crate::sched::point();
        let force = self.0.borrow().force;
        if let Some((fk, a)) = force
            && fk == k
        {
            self.0.borrow_mut().faults += 1;
            return Some(a);
        }
        let n = {
            let s = self.0.borrow();
            let m = match k {
                OpK::Iter => &s.menu.iter,
                OpK::Next => &s.menu.next,
                OpK::Push => &s.menu.push,
                OpK::Inval => &s.menu.inval,
            };
            m.len()
        };
        if n == 0 {
            return None;
        }
        let c = mc::deviate(n + 1);
        if c == 0 {
            return None;
        }
        let mut s = self.0.borrow_mut();
        s.faults += 1;
        let a = match k {
            OpK::Iter => s.menu.iter[c - 1],
            OpK::Next => s.menu.next[c - 1],
            OpK::Push => s.menu.push[c - 1],
            OpK::Inval => s.menu.inval[c - 1],
        };
        mc::log(|| format!("   storage {k:?} -> {a:?}"));
        Some(a)
    }
    fn push_raw(&self, b: Vec<u8>) -> u32 {
        let mut s = self.0.borrow_mut();
        let id = s.next_id;
        s.next_id += 1;
        s.items.push(Item { id, b });
        id
    }
    fn oplog(&self, k: OpK, id: u32, size: usize, ok: bool) {
        let mut s = self.0.borrow_mut();
        s.log.push(DevOp { k, id, size, ok, time: crate::vtime::now() });
    }
    async fn suspend(&self, i: Intr) -> ! {
        std::future::poll_fn(|_| {
            let mut s = self.0.borrow_mut();
            s.intr = Some(i);
            if i == Intr::Crash {
                s.dead = true;
            }
            std::task::Poll::<()>::Pending
        })
        .await;
        unreachable!()
    }
    async fn maybe_yield(&self) {
        let y = self.0.borrow().yielding;
        if y {
            crate::exec::yield_now().await
        }
        let d = self.0.borrow().delay;
        if d > 0 {
            embassy_time::Timer::after(embassy_time::Duration::from_micros(d)).await
        }
    }
    fn io(&self) -> Result<(), DErr> {
        let s = self.0.borrow();
        if s.dead {
            return Err(DErr::Dead);
        }
        if s.broken { Err(DErr::Io(9)) } else { Ok(()) }
    }
}

pub fn describe<B: AsRef<[u8]>>(items: &[B]) -> String {
    items
        .iter()
        .map(|b| match dec(b.as_ref()) {
            Some(RefElem::Start(s)) => format!("S{s}"),
            Some(RefElem::Data(d)) => match split_kv(&d) {
                Some((k, v)) => format!("{k}={}", v.iter().map(|x| format!("{x:02x}")).collect::<String>()),
                None => format!("D{d:02x?}"),
            },
            Some(RefElem::End(s, c)) => format!("E{s}/{c:08x}"),
            None => "?".into(),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

pub fn elem_bytes(e: &Elem<'_>) -> Vec<u8> {
    match e {
        Elem::Start { seq_no } => enc_start(seq_no.get()),
        Elem::Data { data } => {
            let mut v = vec![data.hdr()];
            v.extend_from_slice(data.key_val());
            v
        }
        Elem::End { seq_no, calc_crc } => enc_end(seq_no.get(), *calc_crc),
    }
}

impl<const MAX: usize> NdlDataStorage for Dev<MAX> {
    type Iter<'this> = DevIter<MAX>;
    type Error = DErr;
    const MAX_ELEM_SIZE: usize = MAX;

    async fn iter_elems<'this>(&'this mut self) -> Result<Self::Iter<'this>, DErr> {
        self.maybe_yield().await;
        match self.ask(OpK::Iter) {
            None => {}
            Some(Ans::Err) => {
                self.oplog(OpK::Iter, 0, 0, false);
                return Err(DErr::Io(1));
            }
            Some(Ans::Cancel) => self.suspend(Intr::Cancel).await,
            Some(Ans::Crash) => self.suspend(Intr::Crash).await,
            Some(a) => unreachable!("{a:?}"),
        }
        let r = self.io();
        self.oplog(OpK::Iter, 0, 0, r.is_ok());
        r?;
        Ok(DevIter { dev: self.clone(), last: 0, order: self.0.borrow().items.iter().map(|i| i.id).collect(), pos: 0 })
    }

    async fn push(&mut self, data: &Elem<'_>) -> Result<usize, DErr> {
        self.maybe_yield().await;
        let b = elem_bytes(data);
        let size = self.size_of(b.len());
        if b.len() > MAX {
            self.oplog(OpK::Push, 0, 0, false);
            return Err(DErr::TooSmall);
        }
        let a = self.ask(OpK::Push);
        if let Err(e) = self.io() {
            self.oplog(OpK::Push, 0, 0, false);
            return Err(e);
        }
        let torn = vec![0xEE; b.len().min(3)];
        let (eff, end): (Option<Vec<u8>>, Option<Result<(), Intr>>) = match a {
            None => (Some(b), None),
            Some(Ans::Err) => (None, Some(Ok(()))),
            Some(Ans::ErrAfter) => (Some(b), Some(Ok(()))),
            Some(Ans::ErrTorn) => (Some(torn), Some(Ok(()))),
            Some(Ans::Cancel) => (None, Some(Err(Intr::Cancel))),
            Some(Ans::CancelAfter) => (Some(b), Some(Err(Intr::Cancel))),
            Some(Ans::CancelTorn) => (Some(torn), Some(Err(Intr::Cancel))),
            Some(Ans::Crash) => (None, Some(Err(Intr::Crash))),
            Some(Ans::CrashAfter) => (Some(b), Some(Err(Intr::Crash))),
            Some(Ans::CrashTorn) => (Some(torn), Some(Err(Intr::Crash))),
            Some(Ans::Drop) => (None, None),
            Some(a @ (Ans::ReplaceOld | Ans::ReplaceNew)) => {
                let items = self.items();
                let mut it = items.into_iter().filter(|b| b.first() == Some(&1));
                (if a == Ans::ReplaceOld { it.next() } else { it.last() }, None)
            }
            Some(Ans::Unreadable) => (Some(vec![0xEE, 0xEE]), None),
            Some(Ans::TornOk) => {
                self.push_raw(torn);
                (Some(b), None)
            }
            Some(Ans::OkTorn) => {
                self.push_raw(b);
                (Some(torn), None)
            }
            Some(Ans::Dup) => {
                self.push_raw(b.clone());
                (Some(b), None)
            }
            Some(Ans::Flip(i, m)) => {
                let mut b = b;
                let l = b.len();
                b[(i as usize) % l] ^= m;
                (Some(b), None)
            }
            Some(Ans::CrcBit(k)) => {
                let mut b = b;
                xor_tail(&mut b, k);
                (Some(b), None)
            }
            Some(Ans::Trunc) => {
                let mut b = b;
                b.pop();
                (Some(b), None)
            }
            Some(Ans::Extend) => {
                let mut b = b;
                b.push(0);
                (Some(b), None)
            }
        };
        let id = eff.map(|b| self.push_raw(b)).unwrap_or(0);
        self.oplog(OpK::Push, id, size, end.is_none());
        match end {
            None => Ok(size),
            Some(Ok(())) => Err(DErr::Io(3)),
            Some(Err(i)) => self.suspend(i).await,
        }
    }
}

pub struct DevIter<const MAX: usize> {
    dev: Dev<MAX>,
    last: u32,
    order: Vec<u32>,
    pos: usize,
}

impl<const MAX: usize> NdlElemIter for DevIter<MAX> {
    type Item<'this, 'buf> = DevNode<'buf, MAX>;
    type Error = DErr;
    async fn next<'iter, 'buf>(&'iter mut self, buf: &'buf mut [u8]) -> Result<Option<DevNode<'buf, MAX>>, DErr>
    where
        Self: 'buf,
        Self: 'iter,
    {
        self.dev.maybe_yield().await;
        match self.dev.ask(OpK::Next) {
            None => {}
            Some(Ans::Err) => {
                self.dev.oplog(OpK::Next, 0, 0, false);
                return Err(DErr::Io(2));
            }
            Some(Ans::Cancel) => self.dev.suspend(Intr::Cancel).await,
            Some(Ans::Crash) => self.dev.suspend(Intr::Crash).await,
            Some(a) => unreachable!("{a:?}"),
        }
        self.dev.io()?;
        let _ = self.last;
        // elements in queue order, skipping those removed meanwhile
        let (id, b) = loop {
            let Some(&id) = self.order.get(self.pos) else {
                self.dev.oplog(OpK::Next, 0, 0, true);
                return Ok(None);
            };
            self.pos += 1;
            let s = self.dev.0.borrow();
            if let Some(i) = s.items.iter().find(|i| i.id == id) {
                break (id, i.b.clone());
            }
        };
        self.last = id;
        if b.len() > buf.len() {
            self.dev.oplog(OpK::Next, id, 0, false);
            return Err(DErr::TooSmall);
        }
        // the buffer is the storage's to use as a whole during this call
        buf.fill(0xA5);
        buf[..b.len()].copy_from_slice(&b);
        let size = self.dev.size_of(b.len());
        self.dev.oplog(OpK::Next, id, size, true);
        let n = b.len();
        Ok(Some(DevNode { dev: self.dev.clone(), id, b: &buf[..n], size }))
    }
}

pub struct DevNode<'buf, const MAX: usize> {
    dev: Dev<MAX>,
    id: u32,
    b: &'buf [u8],
    size: usize,
}

impl<const MAX: usize> NdlElemIterNode for DevNode<'_, MAX> {
    type Error = DErr;
    fn data(&self) -> Option<Elem<'_>> {
        match dec(self.b)? {
            RefElem::Start(s) => Some(Elem::Start { seq_no: NonZeroU32::new(s)? }),
            RefElem::Data(_) => Some(Elem::Data { data: SerData::from_existing(self.b)? }),
            RefElem::End(s, c) => Some(Elem::End { seq_no: NonZeroU32::new(s)?, calc_crc: c }),
        }
    }
    fn len(&self) -> usize {
        self.size
    }
    async fn invalidate(self) -> Result<(), DErr> {
        self.dev.maybe_yield().await;
        let a = self.dev.ask(OpK::Inval);
        if let Err(e) = self.dev.io() {
            self.dev.oplog(OpK::Inval, self.id, 0, false);
            return Err(e);
        }
        let (eff, end) = match a {
            None => (true, None),
            Some(Ans::Err) => (false, Some(Ok(()))),
            Some(Ans::ErrAfter) => (true, Some(Ok(()))),
            Some(Ans::Cancel) => (false, Some(Err(Intr::Cancel))),
            Some(Ans::CancelAfter) => (true, Some(Err(Intr::Cancel))),
            Some(Ans::Crash) => (false, Some(Err(Intr::Crash))),
            Some(Ans::CrashAfter) => (true, Some(Err(Intr::Crash))),
            // the element can no longer be decoded, but is still there
            Some(a @ (Ans::ErrTorn | Ans::CancelTorn | Ans::CrashTorn)) => {
                let id = self.id;
                if let Some(i) = self.dev.0.borrow_mut().items.iter_mut().find(|i| i.id == id) {
                    i.b[0] = 0xEE
                }
                let e = match a {
                    Ans::ErrTorn => Ok(()),
                    Ans::CancelTorn => Err(Intr::Cancel),
                    _ => Err(Intr::Crash),
                };
                (false, Some(e))
            }
            Some(a) => unreachable!("{a:?}"),
        };
        if eff {
            let id = self.id;
            self.dev.0.borrow_mut().items.retain(|i| i.id != id);
        }
        self.dev.oplog(OpK::Inval, self.id, self.size, end.is_none());
        match end {
            None => Ok(()),
            Some(Ok(())) => Err(DErr::Io(4)),
            Some(Err(i)) => self.dev.suspend(i).await,
        }
    }
}
