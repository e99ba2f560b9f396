//! The real flash backend over simulated NOR flash: C24 (elements), C25 (sizes), C26 (space),
//! C32 (same behaviour on every backend).

use crate::dev::*;
use crate::exec::{Keep, poll_once};
use crate::hist::{Call, Cnt, Handle, List};
use crate::mc::{self, pick, pick_of};
use crate::nor::*;
use crate::p_content::Att;
use crate::{Scen, ensure, scen};
use cfg_noodle::error::{Error, LoadStoreError};
use cfg_noodle::flash::Flash;
use cfg_noodle::{Elem, NdlDataStorage, NdlElemIter, NdlElemIterNode, SerData, StorageList, StorageListNode};
use minicbor::bytes::ByteVec;
use sequential_storage::cache::{NoCache, PagePointerCache, PageStateCache};
use std::num::NonZeroU32;
use std::pin::pin;
use std::task::Poll;

type SErr = sequential_storage::Error<NErr>;

// ------------------------------------------------------------------ C24

fn push_elem<S: NdlDataStorage>(s: &mut S, e: &RefElem) -> Result<usize, S::Error> {
    match e {
        RefElem::Start(n) => ready(s.push(&Elem::Start { seq_no: NonZeroU32::new(*n).unwrap() })),
        RefElem::Data(d) => {
            let b = enc_data(d);
            ready(s.push(&Elem::Data { data: SerData::from_existing(&b).expect("data element") }))
        }
        RefElem::End(n, c) => ready(s.push(&Elem::End { seq_no: NonZeroU32::new(*n).unwrap(), calc_crc: *c })),
    }
}
fn raw_of(e: &RefElem) -> Vec<u8> {
    match e {
        RefElem::Start(n) => enc_start(*n),
        RefElem::Data(d) => enc_data(d),
        RefElem::End(n, c) => enc_end(*n, *c),
    }
}
/// What one element takes: an 8 byte header and the data, each padded to the flash word
fn stored_size(word: usize, len: usize) -> usize {
    8usize.next_multiple_of(word) + len.next_multiple_of(word)
}

/// Iterate; `sel(i)` says whether element `i` is to be removed. Everything seen must be `want`.
fn sweep<const R: usize, const W: usize, const E: usize, C: Fresh>(
    f: &mut Flash<Nor<R, W, E>, C>,
    want: &[Vec<u8>],
    mut sel: impl FnMut(usize) -> bool,
) -> Vec<Vec<u8>> {
    let mut buf = vec![0u8; E];
    let mut left = vec![];
    ready(async {
        let mut it = match f.iter_elems().await {
            Ok(i) => i,
            Err(e) => mc::violation(format!("iteration fails: {e:?}")),
        };
        let mut i = 0;
        loop {
            mc::step();
            let n = match it.next(&mut buf).await {
                Ok(n) => n,
                Err(e) => mc::violation(format!("iteration fails at element {i}: {e:?}")),
            };
            let Some(n) = n else { break };
            ensure!(i < want.len(), "iteration gives more elements than are stored: {:?}", n.data().map(|e| elem_bytes(&e)));
            let w = &want[i];
            let got = n.data().map(|e| elem_bytes(&e));
            let exp = dec(w).map(|e| raw_of(&e));
            ensure!(got == exp, "element {i} {w:02x?} is presented as {got:02x?}");
            ensure!(
                n.len() == stored_size(Nor::<R, W, E>::WORD, w.len()),
                "element {i} of {} bytes is reported as {} bytes",
                w.len(),
                n.len()
            );
            if sel(i) {
                mc::nontrivial();
                if let Err(e) = n.invalidate().await {
                    mc::violation(format!("removing element {i} fails: {e:?}"))
                }
            } else {
                left.push(w.clone());
            }
            i += 1;
        }
        ensure!(i == want.len(), "iteration ends after {i} of {} elements", want.len());
    });
    left
}

fn palette(max: usize, word: usize) -> Vec<RefElem> {
    let d = |n: usize| RefElem::Data((0..n).map(|i| (i * 37 + n) as u8).collect());
    let mut v = vec![
        RefElem::Start(1),
        RefElem::Start(0x01_02_03_84),
        RefElem::Start(u32::MAX),
        RefElem::End(1, 0),
        RefElem::End(0x8403_0201, 0x0506_07f8),
        RefElem::End(u32::MAX, u32::MAX),
        d(1),
        d(max - 1),
    ];
    // all lengths around the word
    for n in [word - 1, word, word + 1, 2 * word - 1, 2 * word] {
        if n > 1 && n < max - 1 {
            v.push(d(n))
        }
    }
    v.push(RefElem::Data(vec![0; word]));
    v.push(RefElem::Data(vec![0xff; word]));
    v
}

/// Bounded sequences of append, sweep with removal, reboot
fn c24_ops<const R: usize, const W: usize, const E: usize, C: Fresh>(depth: usize, foreign: bool) {
    type Fl<const R: usize, const W: usize, const E: usize, C> = Flash<Nor<R, W, E>, C>;
    // no element can be refused for lack of room
    let nor = Nor::<R, W, E>::new(depth + 1);
    let max = <Fl<R, W, E, C> as NdlDataStorage>::MAX_ELEM_SIZE;
    let pal = palette(max, Nor::<R, W, E>::WORD);
    let mut f = Keep(Some(nor.flash(C::fresh())));
    let mut model: Vec<Vec<u8>> = vec![];
    for _ in 0..depth {
        let kinds = 2 + foreign as usize + !model.is_empty() as usize;
        match pick(kinds) {
            0 => {
                let e = &pal[pick(pal.len())];
                let raw = raw_of(e);
                let r = push_elem(&mut *f, e);
                mc::log(|| format!("push {raw:02x?} -> {r:?}"));
                match r {
                    Ok(n) => ensure!(
                        n == stored_size(Nor::<R, W, E>::WORD, raw.len()),
                        "storing {} bytes is reported as {n} bytes",
                        raw.len()
                    ),
                    Err(e) => mc::violation(format!("storing {} bytes fails: {e:?}", raw.len())),
                }
                model.push(raw);
            }
            1 => {
                mc::log(|| "reboot".into());
                f = Keep(Some(nor.flash(C::fresh())));
            }
            2 if !model.is_empty() => {
                let mask = 1 + pick((1 << model.len()) - 1);
                mc::log(|| format!("remove {mask:#b}"));
                model = sweep(&mut *f, &model, |i| mask >> i & 1 == 1);
            }
            _ => {
                let raw = pick_of(&[&[7u8, 1, 0, 0, 0][..], &[0, 0, 0, 0, 0], &[1], &[0x41, 9, 9], &[2, 1, 0, 0, 0, 1, 2, 3]]);
                mc::log(|| format!("push foreign {raw:02x?}"));
                f = Keep(None);
                if let Err(e) = ready(nor.queue().push(raw, false)) {
                    mc::prune(format!("{e:?}"))
                }
                f = Keep(Some(nor.flash(C::fresh())));
                model.push(raw.to_vec());
            }
        }
        let now = nor.items();
        ensure!(now == model, "stored bytes are {now:02x?} instead of {model:02x?}");
        mc::state(nor.hash());
    }
    sweep(&mut *f, &model, |_| false);
    mc::outcome(mc::hash_of(&model));
}

/// All header bytes and short lengths: a byte string between two good elements
fn c24_bytes<const R: usize, const W: usize, const E: usize, C: Fresh>() {
    let nor = Nor::<R, W, E>::new(3);
    let hdr = pick(256) as u8;
    let len = pick(12);
    let fill = pick(4);
    let mut raw = vec![];
    if len > 0 {
        raw.push(hdr);
        raw.extend((1..len).map(|i| match fill {
            0 => 0u8,
            1 => (i == 1) as u8,
            2 => (i == 4) as u8 * 0x80,
            _ => 0xff,
        }));
    } else if hdr > 0 || fill > 0 {
        mc::prune("empty");
    }
    let first = RefElem::Start(3);
    let last = RefElem::End(3, 4);
    {
        let mut f = Keep(Some(nor.flash(C::fresh())));
        if let Err(e) = push_elem(&mut *f, &first) {
            mc::violation(format!("{e:?}"))
        }
    }
    if let Err(e) = ready(nor.queue().push(&raw, false)) {
        mc::prune(format!("{e:?}"))
    }
    let mut f = Keep(Some(nor.flash(C::fresh())));
    if let Err(e) = push_elem(&mut *f, &last) {
        mc::violation(format!("{e:?}"))
    }
    let all = vec![raw_of(&first), raw.clone(), raw_of(&last)];
    ensure!(nor.items() == all, "storage holds {:02x?} instead of {all:02x?}", nor.items());
    // it is presented as what it is, can be removed and does not disturb its neighbours
    let left = sweep(&mut *f, &all, |i| i == 1);
    sweep(&mut *f, &left, |_| false);
    ensure!(nor.items() == left, "after removal storage holds {:02x?}", nor.items());
    mc::outcome(mc::hash_of(&raw));
    mc::state(nor.hash());
}

/// Truncated and overlong elements of each kind
fn c24_lengths<const R: usize, const W: usize, const E: usize, C: Fresh>() {
    let max = <Flash<Nor<R, W, E>, C> as NdlDataStorage>::MAX_ELEM_SIZE;
    let nor = Nor::<R, W, E>::new(2);
    let hdr = pick(4) as u8;
    let len = 1 + pick(max);
    let mut raw = vec![hdr];
    raw.resize(len, 0x11);
    if let Err(e) = ready(nor.queue().push(&raw, false)) {
        mc::violation(format!("an element of {len} of {max} bytes does not fit: {e:?}"))
    }
    let mut f = Keep(Some(nor.flash(C::fresh())));
    let all = vec![raw];
    sweep(&mut *f, &all, |_| true);
    sweep(&mut *f, &[], |_| true);
    mc::state(nor.hash());
}

// ------------------------------------------------------------------ a list on flash

pub struct FSys<const K: usize, const R: usize, const W: usize, const E: usize, C: Fresh> {
    pub list: &'static List<K>,
    pub nor: Nor<R, W, E>,
    pub flash: Keep<Flash<Nor<R, W, E>, C>>,
    pub buf: Vec<u8>,
}
#[derive(Debug)]
pub enum FRes {
    Ok(Cnt),
    Err(LoadStoreError<SErr>),
    Intr(Intr),
}
impl FRes {
    pub fn is_ok(&self) -> bool {
        matches!(self, FRes::Ok(_))
    }
}

impl<const K: usize, const R: usize, const W: usize, const E: usize, C: Fresh> FSys<K, R, W, E, C> {
    pub const MAX: usize = <Flash<Nor<R, W, E>, C> as NdlDataStorage>::MAX_ELEM_SIZE;
    pub const P: usize = E - 2 * Nor::<R, W, E>::WORD;
    pub fn new(nor: &Nor<R, W, E>) -> Self {
        nor.power_on();
        FSys {
            list: crate::arena::list(StorageList::new()),
            nor: nor.clone(),
            flash: Keep(Some(nor.flash(C::fresh()))),
            buf: vec![0; Self::MAX],
        }
    }
    pub fn call(&mut self, c: Call) -> FRes {
        let list = self.list;
        let fl = &mut *self.flash;
        let buf = &mut self.buf[..];
        let r = poll_once(pin!(async move {
            match c {
                Call::Load => list
                    .process_reads(fl, buf)
                    .await
                    .map(|c| Cnt { read: c.total_bytes_read, second: c.current_bytes_read, third: 0 }),
                Call::Flush => list
                    .process_writes(fl, buf)
                    .await
                    .map(|c| Cnt { read: c.total_bytes_read, second: c.current_bytes_written, third: 0 }),
                Call::Gc => list.process_garbage(fl, buf).await.map(|c| Cnt {
                    read: c.total_bytes_read,
                    second: c.total_bytes_popped,
                    third: c.post_collection_bytes_read,
                }),
            }
        }));
        mc::step();
        let r = match r {
            Poll::Ready(Ok(c)) => FRes::Ok(c),
            Poll::Ready(Err(e)) => FRes::Err(e),
            Poll::Pending => match self.nor.take_intr() {
                Some(i) => FRes::Intr(i),
                None => mc::violation(format!("{c:?} waits although nobody else uses the list")),
            },
        };
        mc::log(|| format!("{c:?} -> {r:?} | {}", self.nor.describe()));
        mc::state(self.nor.hash());
        r
    }
    pub fn ok(&mut self, c: Call) -> Cnt {
        match self.call(c) {
            FRes::Ok(c) => c,
            e => mc::violation(format!("{c:?} fails: {e:?}")),
        }
    }
    pub fn attach<T: cfg_value::Val>(&self, key: &'static str, default: T) -> Att<T, K> {
        let list = self.list;
        let node = crate::arena::node(StorageListNode::<T>::new(key));
        let mut t = crate::exec::Task::new(async move { node.attach_with_default(list, move || default).await });
        ensure!(t.poll().is_none(), "attach completes before anything was loaded");
        Keep(Some(t))
    }
}
pub mod cfg_value {
    pub trait Val:
        Clone + 'static + minicbor::Encode<()> + minicbor::CborLen<()> + for<'b> minicbor::Decode<'b, ()> + Send
    {
    }
    impl<T> Val for T where
        T: Clone + 'static + minicbor::Encode<()> + minicbor::CborLen<()> + for<'b> minicbor::Decode<'b, ()> + Send
    {
    }
}
pub fn done<T: 'static, const K: usize>(mut t: Att<T, K>) -> Keep<Handle<T, K>> {
    match t.poll() {
        Some(Ok(h)) => Keep(Some(h)),
        Some(Err(e)) => mc::violation(format!("attach fails: {e:?}")),
        None => mc::violation("attach does not complete after a load"),
    }
}
pub fn write<T: cfg_value::Val, const K: usize>(h: &mut Handle<T, K>, v: &T) {
    let r = poll_once(pin!(h.write(v)));
    ensure!(r == Poll::Ready(Ok(())), "write gives {r:?}");
}
fn ignore(_: Result<(), Error>) {}

// ------------------------------------------------------------------ C25

fn bytes(n: usize, seed: u8) -> ByteVec {
    (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(seed)).collect::<Vec<u8>>().into()
}
/// CBOR byte string of n bytes / text key of n bytes
fn cbor_len(n: usize) -> usize {
    n + match n {
        0..24 => 1,
        24..256 => 2,
        256..65536 => 3,
        _ => 5,
    }
}
/// largest n with cbor_len(n) <= l
fn fit(l: usize) -> usize {
    (0..l).rev().find(|&n| cbor_len(n) <= l).unwrap_or(0)
}
static KEYS: &[&str] = &["", "k", "0123456789abcdefghijklm", "0123456789abcdefghijklmn", "0123456789abcdefghijklmno"];

fn load_one<const K: usize, const R: usize, const W: usize, const E: usize, C: Fresh>(
    nor: &Nor<R, W, E>,
    keys: &[&'static str],
    buf: usize,
) -> Vec<Vec<u8>> {
    let mut s = FSys::<K, R, W, E, C>::new(&nor.fork());
    s.buf = vec![0; buf];
    let t: Vec<_> = keys.iter().map(|k| s.attach(k, bytes(0, 0))).collect();
    s.ok(Call::Load);
    t.into_iter().map(|t| done(t).load().to_vec()).collect()
}

/// One value around the size limit, with a small one before or after it in the record
fn c25_sizes<const R: usize, const W: usize, const E: usize, C: Fresh>(all: bool) {
    let max = FSys::<1, R, W, E, C>::MAX;
    let word = Nor::<R, W, E>::WORD;
    let nor = Nor::<R, W, E>::new(if E < 64 { 16 } else { 6 });
    let key = pick_of(KEYS);
    let room = max.saturating_sub(1 + cbor_len(key.len()));
    if room < 2 {
        mc::prune("key too long");
    }
    // data bytes of the value
    let size = if all { pick(max + word + 2) } else { fit(room).saturating_sub(word + 1) + pick(2 * word + 4) };
    let buf = match pick(5) {
        0 => max,
        1 => max + word,
        2 => max + 4 * word + 1,
        3 => max - word,
        _ => max - 1,
    };
    let big_first = pick(2) == 0;
    // the element's size: header, key, value
    let elem = 1 + cbor_len(key.len()) + cbor_len(size);
    // padding must fit the buffer as well
    let fits = elem <= max && elem.next_multiple_of(word) <= buf;
    mc::log(|| format!("page {E}, word {word}, limit {max}, buffer {buf}, key of {} bytes, element of {elem} bytes", key.len()));
    let accepted = <Flash<Nor<R, W, E>, C> as NdlDataStorage>::check_node_size(key, bytes(size, 1));
    ensure!(accepted == (elem <= max), "check_node_size gives {accepted} for {elem} bytes with a limit of {max}");
    let mut s = FSys::<1, R, W, E, C>::new(&nor);
    s.buf = vec![0; buf];
    // the node attached last comes first in the record
    let (mut a, mut b);
    if big_first {
        let tb = s.attach("s", bytes(0, 0));
        let ta = s.attach(key, bytes(1, 2));
        s.ok(Call::Load);
        (a, b) = (done(ta), done(tb));
    } else {
        let ta = s.attach(key, bytes(1, 2));
        let tb = s.attach("s", bytes(0, 0));
        s.ok(Call::Load);
        (a, b) = (done(ta), done(tb));
    }
    write(&mut b, &bytes(1, 7));
    s.ok(Call::Flush);
    let before = load_one::<1, R, W, E, C>(&nor, &[key, "s"], buf);
    ensure!(before == [bytes(1, 2).to_vec(), bytes(1, 7).to_vec()], "small values are loaded as {before:?}");
    s.ok(Call::Gc);
    write(&mut a, &bytes(size, 1));
    let r = s.call(Call::Flush);
    if fits {
        ensure!(r.is_ok(), "a value of {elem} bytes (limit {max}, buffer {buf}) cannot be flushed: {r:?}");
        let got = load_one::<1, R, W, E, C>(&nor, &[key, "s"], buf);
        ensure!(got == [bytes(size, 1).to_vec(), bytes(1, 7).to_vec()], "the flushed values are loaded as {got:?}");
    } else {
        mc::nontrivial();
        ensure!(matches!(r, FRes::Err(_)), "a value of {elem} bytes (limit {max}, buffer {buf}) is flushed: {r:?}");
        {
            ensure!(
                matches!(r, FRes::Err(LoadStoreError::AppError(Error::Serialization))),
                "a value that is too large gives {r:?} instead of a serialization error"
            );
        }
        let got = load_one::<1, R, W, E, C>(&nor, &[key, "s"], buf);
        ensure!(got == before, "after the refused flush the values are loaded as {got:?}");
        // again: still refused, still nothing lost
        if pick(2) == 1 {
            s.ok(Call::Gc);
        }
        let r = s.call(Call::Flush);
        ensure!(matches!(r, FRes::Err(_)), "the second flush of a value of {elem} bytes gives {r:?}");
        let got = load_one::<1, R, W, E, C>(&nor, &[key, "s"], buf);
        ensure!(got == before, "after the second refused flush the values are loaded as {got:?}");
    }
    let gc = s.call(Call::Gc);
    ensure!(gc.is_ok(), "collecting after the flush fails: {gc:?}");
    // and once it is small enough everything works
    write(&mut a, &bytes(2, 3));
    s.ok(Call::Flush);
    let got = load_one::<1, R, W, E, C>(&nor, &[key, "s"], buf);
    ensure!(got == [bytes(2, 3).to_vec(), bytes(1, 7).to_vec()], "small values are finally loaded as {got:?}");
    s.ok(Call::Gc);
    mc::outcome(mc::hash_of(&(elem, buf, fits)));
    drop((a, b));
}

/// The same on the ideal queue, for buffers of every length
fn c25_queue() {
    let buf = 24 + pick(24);
    let size = pick(40);
    let big_first = pick(2) == 0;
    let elem = 1 + cbor_len(1) + cbor_len(size);
    let max = 40;
    let dev = Dev::<40>::new();
    ensure!(
        <Dev<40> as NdlDataStorage>::check_node_size("k", bytes(size, 1)) == (elem <= max),
        "check_node_size is wrong for {elem} bytes with a limit of {max}"
    );
    let mut s = crate::p_content::Sys::<1, 40>::new(&dev);
    s.buf = vec![0; buf];
    let first = s.attach(if big_first { "s" } else { "k" }, bytes(0, 2));
    let second = s.attach(if big_first { "k" } else { "s" }, bytes(0, 2));
    s.ok(Call::Load);
    let (mut a, mut b) = (done(first), done(second));
    if big_first {
        std::mem::swap(&mut a, &mut b);
    }
    write(&mut b, &bytes(1, 7));
    s.ok(Call::Flush);
    s.ok(Call::Gc);
    let load = || {
        let mut s = crate::p_content::Sys::<1, 40>::new(&Dev::with_items(dev.items()));
        s.buf = vec![0; buf];
        let (a, b) = (s.attach("k", bytes(0, 9)), s.attach("s", bytes(0, 9)));
        s.ok(Call::Load);
        [done(a).load().to_vec(), done(b).load().to_vec()]
    };
    let before = load();
    write(&mut a, &bytes(size, 1));
    let r = s.call(Call::Flush);
    let fits = elem <= max && elem <= buf;
    ensure!(r.is_ok() == fits, "flushing {elem} bytes (limit {max}, buffer {buf}) gives {r:?}");
    let want = if fits { [bytes(size, 1).to_vec(), bytes(1, 7).to_vec()] } else { before };
    ensure!(load() == want, "loaded {:?} instead of {want:?}", load());
    if !fits {
        mc::nontrivial();
        {
            ensure!(
                matches!(r, Err(LoadStoreError::AppError(Error::Serialization))),
                "a value that is too large gives {r:?} instead of a serialization error"
            );
        }
        let r = s.call(Call::Gc);
        ensure!(r.is_ok(), "collecting after the refused flush fails: {r:?}");
        let r = s.call(Call::Flush);
        ensure!(r.is_err(), "flushing {elem} bytes again gives {r:?}");
        ensure!(load() == want, "loaded {:?} instead of {want:?}", load());
    }
    write(&mut a, &bytes(0, 3));
    s.ok(Call::Gc);
    s.ok(Call::Flush);
    ensure!(load() == [vec![], bytes(1, 7).to_vec()], "finally loaded {:?}", load());
    mc::state(dev.hash());
    mc::outcome(mc::hash_of(&(elem, buf)));
}

// ------------------------------------------------------------------ C26

/// Bytes a record with these value sizes (bytes, in element form) takes
fn record_size(word: usize, sizes: &[usize], keys: &[&str]) -> usize {
    stored_size(word, 5)
        + stored_size(word, 9)
        + sizes.iter().zip(keys).map(|(n, k)| stored_size(word, 1 + cbor_len(k.len()) + cbor_len(*n))).sum::<usize>()
}
/// Pages that hold `n` records of at most `b` bytes with elements of at most `e` bytes wherever
/// the first one starts, page capacity `p`
fn pages_for(n: usize, b: usize, e: usize, p: usize, word: usize) -> usize {
    let usable = p - (e - word);
    (n * b).div_ceil(usable) + 1
}

/// The least number of pages in which these records can be cycled: the elements are laid out one
/// after the other, and an element starts a new page when it does not fit the current one. While a
/// record is written, it and the `k` records before it must be in different pages than anything
/// erased.
fn pages_exact(k: usize, pat: &[[usize; 2]], n: usize, p: usize, word: usize) -> usize {
    // in whichever order the nodes are written
    let rev: Vec<[usize; 2]> = pat.iter().map(|[a, b]| [*b, *a]).collect();
    pages_laid_out(k, pat, n, p, word).max(pages_laid_out(k, &rev, n, p, word))
}
fn pages_laid_out(k: usize, pat: &[[usize; 2]], n: usize, p: usize, word: usize) -> usize {
    let (mut page, mut at) = (0usize, 0usize);
    let mut span: Vec<(usize, usize)> = vec![];
    for i in 0..n {
        let mut first = None;
        let v = |x: usize| stored_size(word, 1 + cbor_len(1) + cbor_len(x));
        for e in [stored_size(word, 5), v(pat[i % pat.len()][1]), v(pat[i % pat.len()][0]), stored_size(word, 9)] {
            if at + e > p {
                page += 1;
                at = 0;
            }
            at += e;
            first.get_or_insert(page);
        }
        span.push((first.unwrap(), page));
    }
    (0..n).map(|i| span[i].1 - span[i.saturating_sub(k)].0 + 1).max().unwrap().max(2)
}

struct Cycle<const K: usize, const R: usize, const W: usize, const E: usize, C: Fresh> {
    s: FSys<K, R, W, E, C>,
    h: [Keep<Handle<ByteVec, K>>; 2],
    /// what storage must give on a restart: one of these
    may: Vec<[Vec<u8>; 2]>,
}
const CK: [&str; 2] = ["k", "s"];
impl<const K: usize, const R: usize, const W: usize, const E: usize, C: Fresh> Cycle<K, R, W, E, C> {
    fn boot(nor: &Nor<R, W, E>, may: Vec<[Vec<u8>; 2]>) -> Self {
        let mut s = FSys::<K, R, W, E, C>::new(nor);
        loop {
            let t = CK.map(|k| s.attach(k, bytes(0, 0)));
            match s.call(Call::Load) {
                FRes::Ok(_) => {
                    let h = t.map(done);
                    let got = [h[0].load().to_vec(), h[1].load().to_vec()];
                    ensure!(may.contains(&got), "after a restart {got:?} is loaded, expected one of {may:?}");
                    return Cycle { s, h, may: vec![got] };
                }
                // restart once more
                r => {
                    ensure!(nor.0.borrow().hits > 0, "load fails: {r:?}");
                    drop(t);
                    s = FSys::new(nor);
                }
            }
        }
    }
    /// Calls until it succeeds. None: the power was cut.
    fn insist(&mut self, c: Call) -> Option<()> {
        for _ in 0..4 {
            let hits = self.s.nor.0.borrow().hits;
            match self.s.call(c) {
                FRes::Ok(_) => return Some(()),
                FRes::Intr(Intr::Crash) => return None,
                r => {
                    ensure!(self.s.nor.0.borrow().hits > hits, "{c:?} fails although storage works and has room: {r:?}");
                    // a failed flush has to be cleaned up first
                    if c == Call::Flush {
                        self.insist(Call::Gc)?;
                    }
                }
            }
        }
        mc::violation(format!("{c:?} does not succeed"))
    }
    /// write, flush, collect. false: the power was cut
    fn cycle(&mut self, sizes: [usize; 2], seed: u8) -> bool {
        let vals = [bytes(sizes[0], seed), bytes(sizes[1], seed ^ 0x80)];
        write(&mut self.h[0], &vals[0]);
        write(&mut self.h[1], &vals[1]);
        self.may.push([vals[0].to_vec(), vals[1].to_vec()]);
        if self.insist(Call::Flush).is_none() {
            return false;
        }
        self.may.remove(0);
        self.insist(Call::Gc).is_some()
    }
    fn check(&self) {
        let got = load_one::<K, R, W, E, C>(&self.s.nor, &CK, self.s.buf.len());
        let got = [got[0].clone(), got[1].clone()];
        ensure!(self.may.contains(&got), "a restart would load {got:?}, expected one of {:?}", self.may);
    }
}

/// Many cycles with exactly the room that is needed: all size patterns, faults anywhere
fn c26<const K: usize, const R: usize, const W: usize, const E: usize, C: Fresh>(
    sizes: &[usize],
    period: usize,
    extra: usize,
    faults: Faults,
) {
    let word = Nor::<R, W, E>::WORD;
    let max = *sizes.iter().max().unwrap();
    let b = record_size(word, &[max, max], &CK);
    let e = stored_size(word, 1 + cbor_len(1) + cbor_len(max)).max(stored_size(word, 9));
    let f = mc::budget() as usize;
    let pat: Vec<[usize; 2]> = (0..period).map(|_| [pick_of(sizes), pick_of(sizes)]).collect();
    let used: usize = pat.iter().map(|p| record_size(word, p, &CK)).sum();
    // with faults an interrupted record takes room until older records are collected
    let mut pages = pages_for(K + 1 + f, b, e, E - 2 * word, word).max(2) + extra;
    // until the storage has been filled twice
    let n = (2 * pages * E * period).div_ceil(used) + period;
    if f == 0 {
        pages = pages_exact(K, &pat, n, E - 2 * word, word) + extra;
    }
    let nor = Nor::<R, W, E>::new(pages);
    nor.set_faults(faults);
    nor.0.borrow_mut().window = 12;
    let reboots = if f > 1 { 0 } else { pick(3) };
    mc::log(|| format!("{pages} pages of {E}, word {word}, {K} records kept, sizes {pat:?}, restarts {reboots}"));
    let mut c = Cycle::<K, R, W, E, C>::boot(&nor, vec![[vec![], vec![]]]);
    for i in 0..n {
        if !c.cycle(pat[i % period], i as u8) {
            mc::nontrivial();
            let may = std::mem::take(&mut c.may);
            c = Cycle::boot(&nor, may);
            // a restart collects before anything else is written
            if c.insist(Call::Gc).is_none() {
                let may = std::mem::take(&mut c.may);
                c = Cycle::boot(&nor, may);
                while c.insist(Call::Gc).is_none() {
                    let may = std::mem::take(&mut c.may);
                    c = Cycle::boot(&nor, may);
                }
            }
        }
        if reboots == 1 || reboots == 2 && i % 3 == 1 {
            let may = std::mem::take(&mut c.may);
            c = Cycle::boot(&nor, may);
            while c.insist(Call::Gc).is_none() {
                let may = std::mem::take(&mut c.may);
                c = Cycle::boot(&nor, may);
            }
        } else {
            c.check();
        }
    }
    ensure!(nor.0.borrow().erases > 0, "no page was ever reused");
    mc::outcome(nor.hash());
}

/// Cycles of records with many values
fn c26_many<const K: usize, const R: usize, const W: usize, const E: usize, C: Fresh>(counts: &[usize]) {
    let word = Nor::<R, W, E>::WORD;
    let n = pick_of(counts);
    let size = pick_of(&[0, 9]);
    let reboots = pick(2) == 1;
    let keys: Vec<&'static str> = (0..n).map(|i| MANY[i]).collect();
    let b = record_size(word, &vec![size; n], &keys);
    let e = stored_size(word, 1 + cbor_len(3) + cbor_len(size)).max(stored_size(word, 9));
    let pages = pages_for(K + 1, b, e, E - 2 * word, word).max(2);
    mc::log(|| format!("{n} values of {size} bytes, {pages} pages of {E}, word {word}, {K} records kept, restarts {reboots}"));
    let nor = Nor::<R, W, E>::new(pages);
    let boot = || {
        let mut s = FSys::<K, R, W, E, C>::new(&nor);
        let t: Vec<_> = keys.iter().map(|k| s.attach(k, bytes(0, 0))).collect();
        let r = s.call(Call::Load);
        ensure!(matches!(r, FRes::Ok(_)), "load fails: {r:?}");
        (s, t.into_iter().map(done).collect::<Vec<_>>())
    };
    let (mut s, mut h) = boot();
    for i in 0..2 * pages * E / b + 4 {
        for (k, h) in h.iter_mut().enumerate() {
            if i == 0 || k % 3 == i % 3 {
                write(h, &bytes(size, (i + k) as u8));
            }
        }
        let want: Vec<Vec<u8>> = h.iter().map(|h| h.load().to_vec()).collect();
        for c in [Call::Gc, Call::Flush, Call::Gc] {
            let r = s.call(c);
            ensure!(matches!(r, FRes::Ok(_)), "{c:?} of cycle {i} fails although storage works and has room: {r:?}");
        }
        let (s2, h2) = boot();
        let got: Vec<Vec<u8>> = h2.iter().map(|h| h.load().to_vec()).collect();
        ensure!(got == want, "a restart after cycle {i} loads other values than those flushed");
        if reboots {
            (s, h) = (s2, h2);
        }
    }
    ensure!(nor.0.borrow().erases > 0, "no page was ever reused");
    mc::nontrivial();
    mc::outcome(nor.hash());
}
static MANY: std::sync::LazyLock<Vec<&'static str>> =
    std::sync::LazyLock::new(|| (0..300).map(|i| &*Box::leak(format!("{i:03}").into_boxed_str())).collect());

// ------------------------------------------------------------------ C32

/// A list over any storage, with three nodes
struct Side<const K: usize, S: NdlDataStorage> {
    list: &'static List<K>,
    mk: Box<dyn Fn() -> S>,
    st: Keep<S>,
    buf: Vec<u8>,
    node: [&'static StorageListNode<ByteVec>; 3],
    task: [Option<Att<ByteVec, K>>; 3],
    h: [Option<Keep<Handle<ByteVec, K>>>; 3],
}
const SK: [&str; 3] = ["a", "bb", "c"];
impl<const K: usize, S: NdlDataStorage> Side<K, S>
where
    S::Error: std::fmt::Debug,
{
    fn new(mk: Box<dyn Fn() -> S>) -> Self {
        let st = Keep(Some(mk()));
        let mut s = Side {
            list: crate::arena::list(StorageList::new()),
            mk,
            st,
            buf: vec![0; S::MAX_ELEM_SIZE],
            node: SK.map(|k| crate::arena::node(StorageListNode::new(k))),
            task: [const { None }; 3],
            h: [const { None }; 3],
        };
        s.attach(0);
        s.attach(1);
        s
    }
    fn attach(&mut self, i: usize) -> String {
        let (list, node) = (self.list, self.node[i]);
        let mut t = crate::exec::Task::new(async move { node.attach_with_default(list, move || bytes(i, 0x40)).await });
        match t.poll() {
            None => {
                self.task[i] = Some(Keep(Some(t)));
                "waits".into()
            }
            Some(Ok(h)) => {
                self.h[i] = Some(Keep(Some(h)));
                "attached".into()
            }
            Some(Err(e)) => format!("{e:?}"),
        }
    }
    fn poll(&mut self) {
        for i in 0..3 {
            if let Some(t) = &mut self.task[i] {
                match t.poll() {
                    None => {}
                    Some(Ok(h)) => {
                        self.h[i] = Some(Keep(Some(h)));
                        self.task[i] = None;
                    }
                    Some(Err(e)) => mc::violation(format!("attach fails: {e:?}")),
                }
            }
        }
    }
    fn call(&mut self, c: Call) -> String {
        let list = self.list;
        let st = &mut *self.st;
        let buf = &mut self.buf[..];
        let r = ready(async move {
            match c {
                Call::Load => list.process_reads(st, buf).await.map(|c| format!("{c:?}")),
                Call::Flush => list.process_writes(st, buf).await.map(|c| format!("{c:?}")),
                Call::Gc => list.process_garbage(st, buf).await.map(|c| format!("{c:?}")),
            }
        });
        mc::step();
        self.poll();
        match r {
            Ok(s) => s,
            Err(LoadStoreError::AppError(e)) => format!("{e:?}"),
            Err(e) => {
                let s = format!("{e:?}");
                if s.contains("FullStorage") {
                    mc::prune("the flash is full");
                }
                s.split('(').next().unwrap().to_string()
            }
        }
    }
    fn values(&self) -> Vec<Option<Vec<u8>>> {
        self.h.iter().map(|h| h.as_ref().map(|h| h.load().to_vec())).collect()
    }
    fn op(&mut self, op: usize, seq: usize) -> Option<String> {
        Some(match op {
            0 => self.call(Call::Load),
            1 => self.call(Call::Flush),
            2 => self.call(Call::Gc),
            3 => {
                write(self.h[0].as_mut()?, &bytes([1, 9, 25][seq % 3], seq as u8));
                String::new()
            }
            4 => {
                // sometimes too large
                let n = if seq % 2 == 1 { S::MAX_ELEM_SIZE } else { 3 };
                write(self.h[1].as_mut()?, &bytes(n, seq as u8));
                String::new()
            }
            // restart
            5 => {
                let mk = std::mem::replace(&mut self.mk, Box::new(|| unreachable!()));
                *self = Side::new(mk);
                String::new()
            }
            // the storage object is made afresh, the list goes on
            6 => {
                self.st = Keep(Some((self.mk)()));
                String::new()
            }
            7 => {
                if self.h[2].is_some() || self.task[2].is_some() {
                    return None;
                }
                self.attach(2)
            }
            8 => {
                let mut h = self.h[1].take()?;
                drop(h.0.take());
                let (node, list) = (self.node[1], self.list);
                let r = ready(node.detach(list));
                let a = self.attach(1);
                format!("{r:?} {a}")
            }
            9 => {
                ready(self.list.reset_cache());
                String::new()
            }
            // a whole cycle
            10 => {
                write(self.h[0].as_mut()?, &bytes(12, seq as u8));
                let a = self.call(Call::Flush);
                let b = self.call(Call::Gc);
                format!("{a} {b}")
            }
            _ => unreachable!(),
        })
    }
}

fn c32<const K: usize, const MAX: usize, const R: usize, const W: usize, const E: usize, C: Fresh>(pages: usize, depth: usize, ops: &[usize]) {
    c32_on::<K, MAX, R, W, E, C, Flash<Nor<R, W, E>, C>>(pages, depth, ops, |f| f)
}
/// The same with a storage that is only borrowed
fn c32_ref<const K: usize, const MAX: usize, const R: usize, const W: usize, const E: usize, C: Fresh>(pages: usize, depth: usize, ops: &[usize]) {
    c32_on::<K, MAX, R, W, E, C, &'static mut Flash<Nor<R, W, E>, C>>(pages, depth, ops, crate::arena::exclusive)
}
fn c32_on<const K: usize, const MAX: usize, const R: usize, const W: usize, const E: usize, C: Fresh, S: NdlDataStorage + 'static>(
    pages: usize,
    depth: usize,
    ops: &[usize],
    wrap: fn(Flash<Nor<R, W, E>, C>) -> S,
) where
    S::Error: std::fmt::Debug,
{
    let nor = Nor::<R, W, E>::new(pages);
    let word = Nor::<R, W, E>::WORD;
    let dev = Dev::<MAX>::new();
    {
        let mut d = dev.0.borrow_mut();
        d.align = word;
        d.overhead = 8usize.next_multiple_of(word);
    }
    ensure!(
        S::MAX_ELEM_SIZE == MAX,
        "the largest element of a page of {E} with words of {word} is {} instead of {MAX}",
        S::MAX_ELEM_SIZE
    );
    let kv = |k: &str, n: usize| enc_kv(k, &bytes(n, 0x20));
    let start: Vec<Vec<u8>> = match pick(4) {
        0 => vec![],
        1 => enc_record(5, &[kv("a", 4), kv("c", 2)]),
        2 => [vec![vec![0xEE, 1]], enc_record(9, &[kv("bb", 8)]), vec![enc_start(10), enc_data(&kv("a", 7))]].concat(),
        _ => [enc_record(2, &[kv("a", 1)]), enc_record(3, &[kv("a", 2), kv("bb", 9)]), vec![enc_end(3, 4)]].concat(),
    };
    dev.set_items(start.clone());
    {
        let mut q = nor.queue();
        for b in &start {
            if let Err(e) = ready(q.push(b, false)) {
                mc::prune(format!("{e:?}"))
            }
        }
    }
    let (d2, n2) = (dev.clone(), nor.clone());
    let mut a: Side<K, Dev<MAX>> = Side::new(Box::new(move || d2.clone()));
    let mut b: Side<K, S> = Side::new(Box::new(move || wrap(n2.flash(C::fresh()))));
    let mut hist = vec![];
    for seq in 0..depth {
        let op = pick_of(ops);
        let ra = a.op(op, seq);
        let rb = b.op(op, seq);
        mc::log(|| format!("op {op}: queue {ra:?} | flash {rb:?} | {}", nor.describe()));
        ensure!(ra == rb, "operation {op} gives {ra:?} on the ideal queue and {rb:?} on flash");
        if ra.is_none() {
            // same as a shorter history
            mc::prune("operation not possible");
        }
        ensure!(a.values() == b.values(), "after operation {op} the values are {:?} on the ideal queue, {:?} on flash", a.values(), b.values());
        let (ia, ib) = (dev.items(), nor.items());
        ensure!(ia == ib, "after operation {op} the ideal queue holds {}, the flash {}", describe(&ia), describe(&ib));
        mc::state(nor.hash());
        hist.push((op, ra));
        if nor.0.borrow().erases > 0 {
            mc::nontrivial();
        }
    }
    mc::outcome(mc::hash_of(&hist));
}

// ------------------------------------------------------------------ faults at every word (C01, C02, C03, C05, C08, C09)

/// Histories on real flash with faults at every write and erase. Before each call and after each
/// restart what must be loaded is known up to the snapshots of unfinished flushes.
fn faulty<const K: usize, const R: usize, const W: usize, const E: usize, C: Fresh>(pages: usize, depth: usize, faults: Faults) {
    let nor = Nor::<R, W, E>::new(pages);
    let pre = pick(3);
    let mut c = Cycle::<K, R, W, E, C>::boot(&nor, vec![[vec![], vec![]]]);
    for i in 0..pre {
        c.cycle([3 + 2 * i, 8 - i], i as u8);
    }
    let mut mem = c.may[0].clone();
    nor.set_faults(faults);
    let mut dirty = false;
    let mut dirty_since = vec![];
    for seq in 0..depth {
        let op = pick(6);
        let mut res = None;
        match op {
            i @ 0..=1 => {
                let v = bytes(2 + seq, (seq * 2 + i) as u8 | 0x10);
                write(&mut c.h[i], &v);
                mem[i] = v.to_vec();
                dirty = true;
                mc::log(|| format!("write {i}"));
            }
            2 => {
                if dirty {
                    c.may.push(mem.clone());
                }
                let hits = nor.0.borrow().hits;
                let r = c.s.call(Call::Flush);
                match &r {
                    FRes::Ok(_) => {
                        c.may = vec![mem.clone()];
                        dirty = false;
                    }
                    FRes::Err(LoadStoreError::AppError(Error::NeedsGarbageCollect | Error::NeedsFirstRead)) => {
                        // nothing was written
                        if dirty {
                            c.may.pop();
                        }
                        dirty_since.push(seq);
                    }
                    FRes::Err(e) => ensure!(nor.0.borrow().hits > hits, "flush fails on working storage: {e:?}"),
                    _ => {}
                }
                res = Some(r);
            }
            3 => res = Some(c.s.call(Call::Gc)),
            4 => res = Some(c.s.call(Call::Load)),
            _ => {
                mc::log(|| "restart".into());
                let may = std::mem::take(&mut c.may);
                c = Cycle::boot(&nor, may);
                mem = c.may[0].clone();
                dirty = false;
            }
        }
        match res {
            Some(FRes::Intr(Intr::Crash)) => {
                mc::nontrivial();
                let may = std::mem::take(&mut c.may);
                c = Cycle::boot(&nor, may);
                mem = c.may[0].clone();
                dirty = false;
            }
            Some(FRes::Intr(_) | FRes::Err(_)) => mc::nontrivial(),
            _ => {}
        }
        for (i, m) in mem.iter().enumerate() {
            ensure!(c.h[i].load().to_vec() == *m, "node {i} holds {:?} instead of {m:?}", c.h[i].load());
        }
        c.check();
    }
    // without further faults everything works
    nor.set_faults(Faults::default());
    c.s.ok(Call::Load);
    c.s.ok(Call::Gc);
    c.check();
    let keep = nor.0.borrow().writes;
    c.may.push(mem.clone());
    c.s.ok(Call::Flush);
    ensure!(!dirty || nor.0.borrow().writes > keep, "unflushed changes are not written");
    c.may = vec![mem.clone()];
    c.check();
    c.s.ok(Call::Gc);
    c.check();
    // nothing but the kept records remains
    let recs = parse(&nor.items());
    let n: usize = recs.iter().map(|r| r.n).sum();
    ensure!(n == nor.items().len() && recs.len() <= K, "after the collection storage holds {}", nor.describe());
    ensure!(recs.windows(2).all(|w| w[0].seq < w[1].seq), "sequence numbers do not increase: {}", nor.describe());
    mc::outcome(nor.hash());
}

/// More than fits: flushes fail because the storage is full, and nothing is lost by that
fn full<const K: usize, const R: usize, const W: usize, const E: usize, C: Fresh>(pages: usize, depth: usize, sizes: &[[usize; 2]]) {
    let nor = Nor::<R, W, E>::new(pages);
    let mut c = Cycle::<K, R, W, E, C>::boot(&nor, vec![[vec![], vec![]]]);
    let mut mem = c.may[0].clone();
    let mut failed = 0;
    for seq in 0..depth {
        match pick(3) {
            0 => {
                let s = pick_of(sizes);
                let v = [bytes(s[0], seq as u8), bytes(s[1], seq as u8 | 0x80)];
                write(&mut c.h[0], &v[0]);
                write(&mut c.h[1], &v[1]);
                mem = [v[0].to_vec(), v[1].to_vec()];
                c.may.push(mem.clone());
                match c.s.call(Call::Flush) {
                    FRes::Ok(_) => c.may = vec![mem.clone()],
                    FRes::Err(LoadStoreError::AppError(Error::NeedsGarbageCollect)) => drop(c.may.pop()),
                    FRes::Err(LoadStoreError::FlashWrite(sequential_storage::Error::FullStorage)) => {
                        // not even the last element can have been stored
                        c.may.pop();
                        failed += 1;
                        mc::nontrivial();
                    }
                    r => mc::violation(format!("flush gives {r:?}")),
                }
            }
            1 => drop(c.s.ok(Call::Gc)),
            _ => {
                mc::log(|| "restart".into());
                let may = std::mem::take(&mut c.may);
                c = Cycle::boot(&nor, may);
                mem = c.may[0].clone();
            }
        }
        for (i, m) in mem.iter().enumerate() {
            ensure!(c.h[i].load().to_vec() == *m, "node {i} holds {:?} instead of {m:?}", c.h[i].load());
        }
        c.check();
    }
    c.s.ok(Call::Load);
    c.s.ok(Call::Gc);
    c.check();
    mc::outcome(mc::hash_of(&(nor.hash(), failed)));
}

pub fn scenarios(id: u32, thorough: bool) -> Vec<Scen> {
    let mut v: Vec<Scen> = vec![];
    const CUT: Faults = Faults { cut: true, err: false, cancel: false, read_err: false, read_cancel: false };
    const ERR: Faults = Faults { cut: false, err: true, cancel: false, read_err: true, read_cancel: false };
    const CANCEL: Faults = Faults { cut: false, err: false, cancel: true, read_err: false, read_cancel: true };
    const BOTH: Faults = Faults { cut: false, err: true, cancel: true, read_err: false, read_cancel: false };
    const NO: Faults = Faults { cut: false, err: false, cancel: false, read_err: false, read_cancel: false };
    if let 1 | 2 | 8 = id {
        let d = if thorough { 8 } else { 6 };
        const S: &[[usize; 2]] = &[[2, 3], [40, 5], [70, 70]];
        v.push(scen("nor-full-k1", 0, move || full::<1, 4, 4, 128, NoCache>(2, d, S)));
        v.push(scen("nor-full-k2", 0, move || full::<2, 1, 4, 128, PagePointerCache<4>>(4, d, S)));
        v.push(scen("nor-full-k3", 0, move || full::<3, 1, 8, 160, PageStateCache<4>>(4, d, S)));
    }
    match id {
        1 | 2 | 3 | 5 => {
            let d = if thorough { 5 } else { 4 };
            let b = if thorough { 3 } else { 2 };
            v.push(scen("nor-cut-k1", b, move || faulty::<1, 4, 4, 128, NoCache>(3, d, CUT)));
            v.push(scen("nor-cut-k2", b, move || faulty::<2, 1, 8, 160, PagePointerCache<4>>(4, d, CUT)));
        }
        8 | 9 => {
            let d = if thorough { 5 } else { 4 };
            let f = if id == 8 { ERR } else { CANCEL };
            if thorough {
                v.push(scen("nor-twice", 2, move || faulty::<1, 4, 4, 128, PageStateCache<4>>(3, 3, f)));
            }
            v.push(scen("nor-k1", 1, move || faulty::<1, 4, 4, 128, NoCache>(3, d, f)));
            v.push(scen("nor-k2", 1, move || faulty::<2, 1, 4, 96, PagePointerCache<5>>(5, d, f)));
        }
        24 => {
            let d = if thorough { 5 } else { 4 };
            v.push(scen("bytes-word4", 0, || c24_bytes::<4, 4, 128, NoCache>()));
            v.push(scen("bytes-word1", 0, || c24_bytes::<1, 1, 64, PagePointerCache<3>>()));
            v.push(scen("bytes-word8", 0, || c24_bytes::<1, 8, 128, PageStateCache<3>>()));
            v.push(scen("lengths-word4", 0, || c24_lengths::<4, 4, 128, NoCache>()));
            v.push(scen("lengths-word8", 0, || c24_lengths::<8, 4, 128, NoCache>()));
            v.push(scen("lengths-word16", 0, || c24_lengths::<1, 16, 256, PagePointerCache<2>>()));
            v.push(scen("lengths-page4096", 0, || c24_lengths::<1, 4, 4096, NoCache>()));
            v.push(scen("ops-word4", 0, move || c24_ops::<4, 4, 128, NoCache>(d, false)));
            v.push(scen("ops-foreign-word4", 0, move || c24_ops::<4, 4, 128, PageStateCache<8>>(3, true)));
            v.push(scen("ops-word1", 0, move || c24_ops::<1, 1, 64, PagePointerCache<8>>(d, false)));
            v.push(scen("ops-word8", 0, move || c24_ops::<8, 1, 96, PagePointerCache<8>>(3, true)));
        }
        28 => {
            let d = if thorough { 4 } else { 3 };
            v.push(scen("nor-sizes-word4", 0, move || c24_ops::<4, 4, 128, NoCache>(d, false)));
            v.push(scen("nor-sizes-word1", 0, move || c24_ops::<1, 1, 64, PagePointerCache<8>>(d, false)));
            v.push(scen("nor-sizes-word8", 0, move || c24_ops::<8, 1, 96, PageStateCache<8>>(d, false)));
            v.push(scen("nor-sizes-word16", 0, move || c24_ops::<1, 16, 256, NoCache>(d, false)));
        }
        25 => {
            v.push(scen("queue", 0, c25_queue));
            v.push(scen("word4", 0, || c25_sizes::<4, 4, 128, NoCache>(true)));
            v.push(scen("word1", 0, || c25_sizes::<1, 1, 64, PagePointerCache<6>>(true)));
            v.push(scen("word8", 0, || c25_sizes::<1, 8, 128, PageStateCache<6>>(true)));
            v.push(scen("word8-read", 0, || c25_sizes::<8, 2, 96, PagePointerCache<6>>(true)));
            v.push(scen("word16", 0, || c25_sizes::<4, 16, 256, NoCache>(false)));
            v.push(scen("word32", 0, || c25_sizes::<32, 32, 256, NoCache>(false)));
            v.push(scen("page4096", 0, || c25_sizes::<1, 4, 4096, PagePointerCache<6>>(false)));
            if thorough {
                v.push(scen("page4096-all", 0, || c25_sizes::<1, 4, 4096, NoCache>(true)));
                v.push(scen("word32-all", 0, || c25_sizes::<1, 32, 512, NoCache>(true)));
                v.push(scen("tiny", 0, || c25_sizes::<1, 1, 40, PageStateCache<16>>(true)));
            }
            v.push(scen("page64k", 0, || c25_sizes::<1, 4, 65536, PagePointerCache<6>>(false)));
            v.push(scen("page128k", 0, || c25_sizes::<1, 4, 131072, PagePointerCache<6>>(false)));
        }
        26 => {
            let p = if thorough { 5 } else { 3 };
let many: &'static [usize] = if thorough { &[3, 5, 10, 17, 20, 33, 40, 65, 80, 129, 160, 250, 257] } else { &[3, 5, 10, 20, 33, 40, 65, 129] };
            v.push(scen("many-values-k1", 0, move || c26_many::<1, 4, 4, 128, NoCache>(many)));
            v.push(scen("many-values-k2", 0, move || c26_many::<2, 1, 8, 256, PagePointerCache<96>>(many)));
                        v.push(scen("sizes-k1", 0, move || c26::<1, 4, 4, 128, NoCache>(&[0, 5, 17], p, 0, NO)));
            v.push(scen("sizes-k2", 0, move || c26::<2, 1, 4, 96, PagePointerCache<16>>(&[0, 5, 17], p, 0, NO)));
            v.push(scen("sizes-k3", 0, move || c26::<3, 1, 1, 64, PageStateCache<24>>(&[0, 3, 9], p, 0, NO)));
            v.push(scen("sizes-k1-word16", 0, move || c26::<1, 4, 16, 256, PagePointerCache<8>>(&[0, 20], p, 0, NO)));
            v.push(scen("cut-k1", 1, || c26::<1, 4, 4, 128, NoCache>(&[1, 17], 1, 0, CUT)));
            v.push(scen("cut-k2", 1, || c26::<2, 4, 4, 128, PagePointerCache<16>>(&[1, 17], 1, 0, CUT)));
            v.push(scen("err-k1", 1, || c26::<1, 4, 4, 128, PagePointerCache<16>>(&[1, 17], 1, 0, BOTH)));
            v.push(scen("err-k2", 1, || c26::<2, 1, 4, 96, PageStateCache<16>>(&[1, 17], 1, 0, BOTH)));
            if thorough {
                v.push(scen("cut-twice", 2, || c26::<1, 4, 4, 128, NoCache>(&[9], 1, 0, CUT)));
                v.push(scen("cut-twice-pointers", 2, || c26::<1, 1, 8, 160, PagePointerCache<16>>(&[9], 1, 0, CUT)));
                v.push(scen("err-twice", 2, || c26::<1, 4, 4, 128, PagePointerCache<16>>(&[9], 1, 0, BOTH)));
            } else {
                v.push(scen("cut-k1-pointers", 1, || c26::<1, 1, 8, 160, PagePointerCache<16>>(&[2, 9], 1, 0, CUT)));
            }
        }
        32 => {
            const ALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10];
            let d = if thorough { 6 } else { 5 };
            v.push(scen("word4-none", 0, move || c32::<2, 112, 4, 4, 128, NoCache>(12, d, ALL)));
            v.push(scen("word4-pages", 0, move || c32::<2, 112, 1, 4, 128, PageStateCache<6>>(6, d, ALL)));
            v.push(scen("word4-pointers", 0, move || c32::<1, 112, 4, 1, 128, PagePointerCache<5>>(5, d, ALL)));
            v.push(scen("word1-pointers", 0, move || c32::<2, 54, 1, 1, 64, PagePointerCache<8>>(8, d, ALL)));
            v.push(scen("word8-pages", 0, move || c32::<3, 136, 8, 2, 160, PageStateCache<9>>(9, d, ALL)));
            v.push(scen("page4096-none", 0, move || c32::<2, 4080, 1, 4, 4096, NoCache>(2, d.min(4), ALL)));
            // long enough for pages to be reused
            const REUSE: &[usize] = &[10, 5, 6, 0];
            let d = if thorough { 10 } else { 8 };
            v.push(scen("by-reference", 0, move || c32_ref::<2, 136, 8, 2, 160, PagePointerCache<9>>(9, d.min(4), ALL)));
            v.push(scen("reuse-none", 0, move || c32::<1, 112, 4, 4, 128, NoCache>(3, d, REUSE)));
            v.push(scen("reuse-pages", 0, move || c32::<1, 112, 1, 4, 128, PageStateCache<3>>(3, d, REUSE)));
            v.push(scen("reuse-pointers", 0, move || c32::<1, 112, 1, 4, 128, PagePointerCache<3>>(3, d, REUSE)));
            v.push(scen("reuse-pointers-k2", 0, move || c32::<2, 88, 8, 8, 112, PagePointerCache<6>>(6, d, REUSE)));
            v.push(scen("reuse-word1", 0, move || c32::<2, 54, 1, 1, 64, PageStateCache<5>>(5, d, REUSE)));
        }
        _ => {}
    }
    let _ = ignore;
    v
}
