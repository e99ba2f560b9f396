//! Arbitrary storage contents: C04 and C07 (which elements count), C13 (which node gets which
//! value), C31 (firmware versions with different types).

use crate::dev::*;
use crate::exec::{Keep, Task};
use crate::hist::{Call, Cnt, Handle, List};
use crate::mc::{self, pick, pick_of};
use crate::{Scen, ensure, scen};
use cfg_noodle::error::{Error, LoadStoreError};
use cfg_noodle::{StorageList, StorageListNode};
use minicbor::{CborLen, Decode, Encode};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::pin;
use std::task::{Context, Poll, Waker};

/// A list with its storage; a new one is a reboot
pub struct Sys<const K: usize, const MAX: usize> {
    pub list: &'static List<K>,
    pub dev: Dev<MAX>,
    pub buf: Vec<u8>,
}
pub type Att<T, const K: usize> = Keep<Task<Result<Handle<T, K>, Error>>>;

impl<const K: usize, const MAX: usize> Sys<K, MAX> {
    pub fn new(dev: &Dev<MAX>) -> Self {
        Sys { list: crate::arena::list(StorageList::new()), dev: dev.clone(), buf: vec![0; MAX] }
    }
    pub fn call(&mut self, c: Call) -> Result<Cnt, LoadStoreError<DErr>> {
        let list = self.list;
        let mut dev = self.dev.clone();
        let buf = &mut self.buf[..];
        let mut fut = pin!(async move {
            match c {
                Call::Load => list
                    .process_reads(&mut dev, buf)
                    .await
                    .map(|c| Cnt { read: c.total_bytes_read, second: c.current_bytes_read, third: 0 }),
                Call::Flush => list
                    .process_writes(&mut dev, buf)
                    .await
                    .map(|c| Cnt { read: c.total_bytes_read, second: c.current_bytes_written, third: 0 }),
                Call::Gc => list.process_garbage(&mut dev, buf).await.map(|c| Cnt {
                    read: c.total_bytes_read,
                    second: c.total_bytes_popped,
                    third: c.post_collection_bytes_read,
                }),
            }
        });
        match fut.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
            Poll::Ready(r) => {
                mc::step();
                mc::log(|| format!("{c:?} -> {r:?} | {}", self.dev.describe()));
                r
            }
            Poll::Pending => mc::violation(format!("{c:?} waits although nobody else uses the list")),
        }
    }
    pub fn ok(&mut self, c: Call) -> Cnt {
        match self.call(c) {
            Ok(c) => c,
            Err(e) => mc::violation(format!("{c:?} fails: {e:?}")),
        }
    }
    pub fn attach<T>(&self, key: &'static str, default: T) -> Att<T, K>
    where
        T: Clone + 'static + Encode<()> + CborLen<()> + for<'b> Decode<'b, ()> + Send,
    {
        self.attach_node(crate::arena::node(StorageListNode::new(key)), default)
    }
    pub fn attach_node<T>(&self, node: &'static StorageListNode<T>, default: T) -> Att<T, K>
    where
        T: Clone + 'static + Encode<()> + CborLen<()> + for<'b> Decode<'b, ()> + Send,
    {
        let list = self.list;
        let mut t = Task::new(async move { node.attach_with_default(list, move || default).await });
        ensure!(t.poll().is_none(), "attach completes before anything was loaded");
        Keep(Some(t))
    }
}
pub fn done<T: 'static, const K: usize>(mut t: Att<T, K>) -> Keep<Handle<T, K>> {
    match t.poll() {
        Some(Ok(h)) => Keep(Some(h)),
        Some(Err(e)) => mc::violation(format!("attach fails: {e:?}")),
        None => mc::violation("attach does not complete after a load"),
    }
}
fn write<T, const K: usize>(h: &mut Handle<T, K>, v: &T)
where
    T: Clone + 'static + Encode<()> + CborLen<()> + for<'b> Decode<'b, ()> + Send,
{
    let r = crate::exec::poll_once(pin!(h.write(v)));
    ensure!(r == Poll::Ready(Ok(())), "write gives {r:?}");
}

// ------------------------------------------------------------------ C04, C07

/// Is `after` what a collection may leave of `before`?
pub fn check_kept(before: &[Vec<u8>], after: &[Vec<u8>], k: usize) {
    let recs = parse(before);
    let kept = parse(after);
    let n: usize = kept.iter().map(|r| r.n).sum();
    ensure!(n == after.len(), "after collection elements outside intact records remain: {}", describe(after));
    let mut want: Vec<u32> = recs.iter().map(|r| r.seq).collect();
    want.sort_unstable_by(|a, b| b.cmp(a));
    want.truncate(k);
    let mut got: Vec<u32> = kept.iter().map(|r| r.seq).collect();
    got.sort_unstable_by(|a, b| b.cmp(a));
    ensure!(got == want, "after collection records {got:?} remain instead of {want:?}");
    // unmodified and in order
    let mut it = recs.iter();
    for r in &kept {
        ensure!(
            it.any(|x| x.seq == r.seq && x.kvs == r.kvs),
            "a collection changed or reordered records: {} -> {}",
            describe(before),
            describe(after)
        );
    }
}

const D: [u32; 2] = [900, 901];

fn loads<const K: usize>(dev: &Dev, what: &str) -> Option<[u32; 2]> {
    let mut s = Sys::<K, 96>::new(dev);
    let a = s.attach("a", D[0]);
    let b = s.attach("b", D[1]);
    let before = dev.items();
    s.ok(Call::Load);
    ensure!(dev.items() == before, "a load changes storage");
    let got = [done(a).load(), done(b).load()];
    let recs = parse(&before);
    let new = newest(&recs);
    let wants: Vec<[u32; 2]> = if new.is_empty() {
        vec![D]
    } else {
        new.iter()
            .flat_map(|r| {
                // a key may occur more than once in a hand-made record: then either will do
                let vals = |k: &str, d: u32| -> Vec<u32> {
                    let v: Vec<Option<u32>> = r
                        .kvs
                        .iter()
                        .filter_map(|kv| split_kv(kv))
                        .filter(|(x, _)| x == k)
                        .map(|(_, b)| minicbor::decode(&b).ok())
                        .collect();
                    if v.is_empty() { vec![d] } else { v.into_iter().map(|x| x.unwrap_or(d)).collect() }
                };
                let (va, vb) = (vals("a", D[0]), vals("b", D[1]));
                va.into_iter().flat_map(move |a| vb.clone().into_iter().map(move |b| [a, b])).collect::<Vec<_>>()
            })
            .collect()
    };
    ensure!(wants.contains(&got), "{what}: loads {got:?} instead of {wants:?} from {}", describe(&before));
    // one value each: no ties, no repeated keys
    (wants.len() == 1).then_some(got)
}

fn content<const K: usize>(id: u32, items: Vec<Vec<u8>>) {
    let dev: Dev = Dev::with_items(items.clone());
    let recs = parse(&items);
    mc::state(mc::hash_of(&recs.iter().map(|r| r.seq).collect::<Vec<_>>()));
    if !recs.is_empty() && recs.iter().map(|r| r.n).sum::<usize>() != items.len() || recs.len() > 1 {
        mc::nontrivial();
    }
    mc::log(|| format!("stored: {}", dev.describe()));
    let first = if id == 6 || id == 7 { loads::<K>(&dev, "first load") } else { None };

    let mut s = Sys::<K, 96>::new(&dev);
    let a = s.attach("a", D[0]);
    let b = s.attach("b", D[1]);
    s.ok(Call::Load);
    s.ok(Call::Gc);
    if id == 4 {
        check_kept(&items, &dev.items(), K);
        // nothing more to do
        let i = dev.items();
        s.ok(Call::Gc);
        ensure!(dev.items() == i, "a second collection changes storage");
    }
    if id == 6 || id == 7 {
        let again = loads::<K>(&dev, "load after collection");
        ensure!(first.is_none() || again.is_none() || first == again, "a collection changes what is loaded");
    }
    let (mut a, b) = (done(a), done(b));
    write(&mut a, &77);
    let vb = b.load();
    let before = dev.items();
    s.ok(Call::Flush);
    if id != 4 {
        let i = dev.items();
        ensure!(i.starts_with(&before), "a flush changes older elements");
        let r = parse(&i[before.len()..]);
        ensure!(r.len() == 1 && r[0].n == i.len() - before.len(), "a flush stores {}", describe(&i[before.len()..]));
        ensure!(recs.iter().all(|x| x.seq < r[0].seq), "the new record {} is not the newest", r[0].seq);
        // read through a new start
        let mut s2 = Sys::<K, 96>::new(&dev);
        let a2 = s2.attach("a", D[0]);
        let b2 = s2.attach("b", D[1]);
        s2.ok(Call::Load);
        let got = [done(a2).load(), done(b2).load()];
        ensure!(got == [77, vb], "loads {got:?} after flushing {:?}", [77, vb]);
    }
    let before = dev.items();
    s.ok(Call::Gc);
    if id == 4 {
        check_kept(&before, &dev.items(), K);
    } else {
        let got = loads::<K>(&dev, "load after flush and collection");
        ensure!(got == Some([77, vb]), "loads {got:?} after a flush and collection");
    }
    mc::outcome(dev.hash());
}

fn kv(k: &str, v: u32) -> Vec<u8> {
    enc_kv(k, &v)
}

/// Intact records (and some partial ones) in any order: the numbers that follow (C27)
pub fn much_any_order(big: bool) {
    much(27, big)
}
pub fn any_order(len: usize) {
    let full = |seq: u32| enc_record(seq, &[kv("b", seq + 1), kv("a", seq)]);
    let mut partial = full(8);
    partial.pop();
    let alpha = [full(2), full(5), full(3), full(6), full(4), partial, vec![vec![0xEE]]];
    any_content(27, len, &alpha, &[]);
}

/// Single elements: everything a scan can meet in any order
fn single_elements() -> Vec<Vec<u8>> {
    let c = |kvs: &[Vec<u8>]| cksum(kvs.iter().map(|k| &k[..]));
    let a = kv("a", 11);
    let b = kv("b", 300);
    vec![
        enc_start(1),
        enc_data(&a),
        enc_end(1, c(&[a.clone()])),
        enc_start(2),
        enc_end(2, c(&[a.clone()])),
        enc_data(&b),
        enc_end(2, c(&[b.clone(), a.clone()])),
        // unreadable
        vec![0xEE, 1, 2],
        enc_end(1, c(&[])),
        // well-formed data that is not a key and value
        enc_data(&[0xff, 0x00]),
    ]
}

/// Groups of elements
fn groups(n: usize) -> Vec<Vec<Vec<u8>>> {
    let full = |seq, va, vb| enc_record(seq, &[kv("b", vb), kv("a", va)]);
    let mut no_end = full(7, 71, 72);
    no_end.pop();
    let mut no_start = full(8, 81, 82);
    no_start.remove(0);
    let mut bad_crc = full(9, 91, 92);
    *bad_crc.last_mut().unwrap() = enc_end(9, 0x1234_5678);
    let mut other_end = full(6, 61, 62);
    other_end.pop();
    let crc = cksum([kv("b", 62), kv("a", 61)].iter().map(|k| &k[..]));
    other_end.push(enc_end(5, crc));
    let mut torn = full(4, 41, 42);
    torn[2] = vec![0xEE];
    let big = full(0xFFFF_FFF0, 51, 52);
    let partial = enc_record(3, &[kv("a", 31)]);
    let v = vec![
        full(3, 33, 34),
        full(5, 55, 56),
        full(2, 22, 23),
        no_end,
        bad_crc,
        torn,
        full(4, 44, 45),
        no_start,
        other_end,
        vec![vec![0xEE]],
        enc_record(6, &[]),
        big,
        partial,
        full(5, 57, 58),
    ];
    v.into_iter().take(n).collect()
}

/// Records around the places where numbers grow longer
fn large_seqs(id: u32, len: usize) {
    let base = pick_of(&[0xfeu32, 0xfffe, 0xff_fffe, 0x7fff_fffe, 0xffff_fff0]);
    let full = |i: u32| enc_record(base + i, &[kv("b", 20 + i), kv("a", 10 + i)]);
    let mut partial = full(5);
    partial.pop();
    let mut bad = full(6);
    *bad.last_mut().unwrap() = enc_end(base + 6, 0x1234_5678);
    any_content(id, len, &[full(0), full(1), full(2), full(3), full(4), partial, bad], &[])
}

/// More records than are usually kept, for longer histories
fn keeps_more(id: u32, len: usize) {
    let full = |i: u32| enc_record(i, &[kv("b", 20 + i), kv("a", 10 + i)]);
    let mut bad = full(9);
    *bad.last_mut().unwrap() = enc_end(9, 0x1234_5678);
    let alpha = [full(1), full(2), full(3), full(4), full(5), full(6), bad, vec![vec![0xEE]]];
    let mut items = vec![];
    for _ in 0..len {
        let i = pick(alpha.len() + 1);
        if i == 0 {
            break;
        }
        items.extend(alpha[i - 1].iter().cloned());
    }
    match pick(3) {
        0 => content::<4>(id, items),
        1 => content::<5>(id, items),
        _ => content::<8>(id, items),
    }
}

/// Much content: many records with the newest one anywhere among them, and leftovers in between
fn much(id: u32, big: bool) {
    let n = pick_of(if big { &[9usize, 33, 65, 129, 300] } else { &[9usize, 33, 66] });
    let at = pick(n);
    let junk = pick_of(if big { &[0usize, 1, 30, 70, 260] } else { &[0usize, 40, 260] });
    let junk_at = pick_of(&[0, n / 2, n - 1]);
    if junk == 0 && junk_at > 0 {
        return;
    }
    let kind = pick(3);
    let mut items = vec![];
    for i in 0..n {
        if i == junk_at {
            for j in 0..junk {
                items.push(match kind {
                    0 => vec![0xEE, 0xEE],
                    1 => enc_data(&kv("a", 5000 + j as u32)),
                    _ => enc_start(1 + j as u32),
                });
            }
        }
        // in order, but with the newest one moved
        let seq = if i == at { 1000 } else { 1 + i as u32 };
        items.extend(enc_record(seq, &[kv("b", seq + 1), kv("a", seq)]));
    }
    match pick(2) {
        0 => content::<1>(id, items),
        _ => content::<3>(id, items),
    }
}

fn any_content(id: u32, len: usize, alpha: &[Vec<Vec<u8>>], prefix: &[Vec<u8>]) {
    let k = pick(3);
    let mut items = prefix.to_vec();
    for _ in 0..len {
        let i = pick(alpha.len() + 1);
        if i == 0 {
            break;
        }
        items.extend(alpha[i - 1].iter().cloned());
    }
    match k {
        0 => content::<1>(id, items),
        1 => content::<2>(id, items),
        _ => content::<3>(id, items),
    }
}

/// Elements whose size is near the limits of the scratch buffer or whose bytes are odd
fn odd_bytes(id: u32) {
    let heads = [0u8, 1, 2, 3, 0xEE];
    let mut items = enc_record(3, &[kv("b", 34), kv("a", 33)]);
    for _ in 0..2 {
        let len = pick_of(&[1usize, 2, 3, 4, 5, 6, 8, 9, 10, 50, 95, 96]);
        let mut b = vec![pick_of(&heads)];
        let fill = pick_of(&[0u8, 1, 0x61, 0xff]);
        b.resize(len, fill);
        if matches!(dec(&b), Some(RefElem::Start(u32::MAX))) {
            // sequence numbers that leave no room for another one are out of scope
            return;
        }
        let at = if pick(2) == 0 { items.len() } else { pick_of(&[0, 1, 3]) };
        items.insert(at, b);
    }
    content::<2>(id, items)
}

/// Every single-bit error in a record, and changes of the checksum in one bit (or a few) only
pub fn bits(id: u32) {
    let long = minicbor::to_vec("z").unwrap().into_iter().chain(minicbor::to_vec("x".repeat(70)).unwrap()).collect::<Vec<_>>();
    let newest = enc_record(0x0102_0305, &[long, kv("b", 300), kv("a", 0x1234_5678)]);
    let mut bad = newest.clone();
    let kind = pick(5);
    let n = bad.len();
    match kind {
        0 => {
            let e = pick(n);
            let i = pick(bad[e].len());
            bad[e][i] ^= 1 << pick(8);
        }
        1 => xor_tail(&mut bad[n - 2], pick(32) as u8),
        2 => {
            let e = &mut bad[n - 1];
            let c = u32::from_le_bytes(e[5..9].try_into().unwrap());
            let c = pick_of(&[0, u32::MAX, !c, c.swap_bytes(), c.rotate_left(16), c ^ 0xffff, c ^ 0xffff_0000, c.wrapping_add(1), c.reverse_bits()]);
            e[5..9].copy_from_slice(&c.to_le_bytes());
        }
        3 => {}
        _ => {
            // elements exchanged, repeated or lost
            let (i, j) = (1 + pick(n - 2), 1 + pick(n - 2));
            if pick(2) == 0 {
                if i == j {
                    bad.remove(i);
                } else {
                    bad.swap(i, j);
                }
            } else {
                let e = bad[i].clone();
                bad.insert(j, e);
            }
        }
    }
    let older = enc_record(0x0102_0304, &[kv("b", 301), kv("a", 7)]);
    let items = match pick(3) {
        0 => [older, bad].concat(),
        1 => [bad, older].concat(),
        _ => bad,
    };
    match pick(2) {
        0 => content::<1>(id, items),
        _ => content::<2>(id, items),
    }
}

/// The same for records that the implementation itself has written: any damage to the newest one
/// makes the one before it count
pub fn own_bits() {
    let dev: Dev = Dev::new();
    let mut s = Sys::<2, 96>::new(&dev);
    let z = |c: &str| c.repeat(70);
    let a = s.attach("a", 7u32);
    let m = s.attach("z", z("x"));
    let b = s.attach("b", 301u32);
    s.ok(Call::Load);
    s.ok(Call::Gc);
    let (mut a, mut m, mut b) = (done(a), done(m), done(b));
    s.ok(Call::Flush);
    s.ok(Call::Gc);
    write(&mut a, &0x1234_5678);
    write(&mut b, &300);
    write(&mut m, &z("y"));
    let n = dev.items().len();
    s.ok(Call::Flush);
    let mut items = dev.items();
    let total = items.len() - n;
    match pick(3) {
        0 => {
            let e = n + pick(total);
            let i = pick(items[e].len());
            items[e][i] ^= 1 << pick(8);
        }
        1 => xor_tail(&mut items[n + total - 2], pick(32) as u8),
        _ => {
            // a byte replaced
            let e = n + pick(total);
            let i = pick(items[e].len());
            let v = pick_of(&[0u8, 0xff, 0x80]);
            if items[e][i] == v {
                return;
            }
            items[e][i] = v;
        }
    }
    mc::nontrivial();
    dev.set_items(items);
    mc::log(|| format!("damaged: {}", dev.describe()));
    let mut s2 = Sys::<2, 96>::new(&dev);
    let (a2, z2, b2) = (s2.attach("a", 1u32), s2.attach("z", String::new()), s2.attach("b", 2u32));
    s2.ok(Call::Load);
    let got = (done(a2).load(), done(z2).load(), done(b2).load());
    ensure!(got == (7, z("x"), 301), "a damaged newest record: loads {got:?} instead of the older record's values");
    mc::outcome(dev.hash());
}

/// One bit (or the checksum in one bit) of what a flush stores is wrong: it must not be
/// acknowledged unless the values can be read back all the same
pub fn silent_bits(matching: bool) {
    let dev: Dev = Dev::new();
    let mut s = Sys::<2, 96>::new(&dev);
    let (va, vz) = (0x1234_5678u32, "y".repeat(70));
    let first = pick(2);
    let (a, z);
    if first == 0 {
        a = s.attach("a", va);
        z = s.attach("z", vz.clone());
    } else {
        z = s.attach("z", vz.clone());
        a = s.attach("a", va);
    }
    s.ok(Call::Load);
    s.ok(Call::Gc);
    let (mut a, z) = (done(a), done(z));
    if pick(2) == 1 {
        s.ok(Call::Flush);
        s.ok(Call::Gc);
        write(&mut a, &(va + 1));
    }
    let got = [a.load().to_string(), z.load()];
    let mut push = vec![];
    for i in if matching { 5..9 } else { 0..80 } {
        for b in 0..8 {
            push.push(Ans::Flip(i, 1 << b));
        }
    }
    push.extend((0..32).map(Ans::CrcBit));
    dev.set_menu(Menu { push, ..Default::default() });
    let r = s.call(Call::Flush);
    dev.no_faults();
    if dev.0.borrow().faults > 0 {
        mc::nontrivial();
    }
    mc::outcome(mc::hash_of(&(r.is_ok(), dev.hash())));
    if r.is_err() {
        for c in [Call::Load, Call::Gc, Call::Flush] {
            s.ok(c);
        }
    }
    let mut s2 = Sys::<2, 96>::new(&dev);
    let (a2, z2) = (s2.attach("a", 1u32), s2.attach("z", String::new()));
    s2.ok(Call::Load);
    let now = [done(a2).load().to_string(), done(z2).load()];
    ensure!(now == got, "an acknowledged flush of {got:?} reads back as {now:?}");
}

// ------------------------------------------------------------------ C13

const LONG: &[&str] = &[
    // lengths around the CBOR header boundaries: 23 and 24, 255 and 256
    "abcdefghijklmnopqrstuvw",
    "abcdefghijklmnopqrstuvwx",
];

fn key_menu() -> &'static [&'static str] {
    use std::sync::OnceLock;
    static M: OnceLock<Vec<&'static str>> = OnceLock::new();
    M.get_or_init(|| {
        let mut v = vec!["a", "ab", "", "A", "b", "a/b", "ä", "a\0", LONG[0], LONG[1]];
        let l: &'static str = Box::leak("k".repeat(255).into_boxed_str());
        let l2: &'static str = Box::leak("k".repeat(256).into_boxed_str());
        v.push(l);
        v.push(l2);
        v
    })
}

/// What is stored for a key
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Sv {
    Num(u32),
    /// of another type
    Text,
    /// cut short
    Cut,
    /// nothing at all
    Empty,
}
impl Sv {
    fn bytes(self, key: &str) -> Vec<u8> {
        let mut v = minicbor::to_vec(key).unwrap();
        match self {
            Sv::Num(n) => v.extend(minicbor::to_vec(n).unwrap()),
            Sv::Text => v.extend(minicbor::to_vec("text").unwrap()),
            Sv::Cut => v.extend(&minicbor::to_vec(70_000u32).unwrap()[..3]),
            Sv::Empty => {}
        }
        v
    }
}

type Big = Sys<2, 400>;

/// A key and another that differs from it in one place only, wherever that is
pub fn near_keys(depth: bool) {
    let len = pick_of(if depth { &[1usize, 2, 3, 7, 8, 9, 15, 16, 17, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257] } else { &[1usize, 4, 9, 17, 24, 33, 65, 129, 257] });
    let base: String = (0..len).map(|i| (b'a' + (i % 23) as u8) as char).collect();
    let near: String = match pick(5) {
        // one character is another, at any position
        0 => {
            let p = pick(len);
            let c = pick_of(&['A', '0', '/', '-', ' ', '\u{1}']);
            let c = if c == 'A' { base.as_bytes()[p].to_ascii_uppercase() as char } else { c };
            base.char_indices().map(|(i, x)| if i == p { c } else { x }).collect()
        }
        // longer at the end or in front
        1 => format!("{base}{}", pick_of(&["a", "/", " ", "\0", "0", "A"])),
        2 => format!("{}{base}", pick_of(&["a", "/", " ", "\0", "_"])),
        // shorter
        3 => base[..pick(len)].to_string(),
        _ => {
            if len < 2 {
                return;
            }
            let p = pick(len - 1);
            let mut b = base.clone().into_bytes();
            b.swap(p, p + 1);
            String::from_utf8(b).unwrap()
        }
    };
    let (base, near): (&'static str, &'static str) = (crate::arena::node(base), crate::arena::node(near));
    let order = if pick(2) == 0 { [base, near] } else { [near, base] };
    let stored = pick(4);
    let mut kvs = vec![];
    for (i, k) in order.iter().enumerate() {
        if stored & (1 << i) != 0 {
            kvs.push(kv(k, 10 + i as u32));
        }
    }
    mc::log(|| format!("keys {order:?}, stored {stored:02b}"));
    mc::nontrivial();
    let dev: Dev<400> = Dev::with_items(enc_record(5, &kvs));
    let mut s = Big::new(&dev);
    // both before the load, or one after it
    let late = pick(2) == 1;
    let a = s.attach(order[0], 500);
    let b = if late { None } else { Some(s.attach(order[1], 501)) };
    s.ok(Call::Load);
    let a = done(a);
    let b = match b {
        Some(b) => done(b),
        None => {
            let b = s.attach(order[1], 501);
            s.ok(Call::Load);
            done(b)
        }
    };
    let got = [a.load(), b.load()];
    let want = [0u32, 1].map(|i| if stored & (1 << i) != 0 { 10 + i } else { 500 + i });
    ensure!(got == want, "{order:?} load {got:?} instead of {want:?}");
    s.ok(Call::Gc);
    let (mut a, mut b) = (a, b);
    write(&mut a, &20);
    write(&mut b, &21);
    s.ok(Call::Flush);
    let mut s2 = Big::new(&dev);
    let b = s2.attach(order[1], 501);
    let a = s2.attach(order[0], 500);
    s2.ok(Call::Load);
    let got = [done(a).load(), done(b).load()];
    ensure!(got == [20, 21], "{order:?} load {got:?} after writing 20 and 21");
    mc::outcome(mc::hash_of(&(stored, late)));
}

/// Values and keys of every length: what is stored is what is loaded
pub fn lengths(deep: bool) {
    const MAX: usize = 70_000;
    let lens = |deep: bool| -> usize {
        if deep {
            pick(1000)
        } else {
            let v: Vec<usize> = (0..140).chain(250..262).chain(508..516).chain([700, 1000]).collect();
            pick_of(&v)
        }
    };
    let text = |n: usize, seed: usize| -> String { (0..n).map(|i| (b'!' + ((i * 7 + i / 13 + seed) % 90) as u8) as char).collect() };
    let (l1, l2, kl) = match pick(3) {
        2 => (pick_of(&[4095usize, 4096, 65_529, 65_530, 65_531, 65_532, 65_533, 65_534, 65_535, 65_536, 65_537, 69_000]), pick_of(&[0usize, 65_536]), pick_of(&[1usize, 300])),
        0 => (lens(deep), pick_of(&[0usize, 23, 24, 64, 255, 256]), 1),
        _ => (pick_of(&[0usize, 5, 100]), pick_of(&[0usize, 30]), lens(deep)),
    };
    let key: &'static str = crate::arena::node(text(kl, 3));
    let order = pick(2);
    mc::nontrivial();
    mc::log(|| format!("key of {kl}, values of {l1} and {l2} characters"));
    let dev: Dev<MAX> = Dev::new();
    let boot = |seed: u32| {
        let mut s = Sys::<2, MAX>::new(&dev);
        let (z, a);
        if order == 0 {
            z = s.attach(key, text(l1, 0));
            a = s.attach("other", seed);
        } else {
            a = s.attach("other", seed);
            z = s.attach(key, text(l1, 0));
        }
        s.ok(Call::Load);
        s.ok(Call::Gc);
        (s, done(z), done(a))
    };
    let (mut s, mut z, a) = boot(70_000);
    s.ok(Call::Flush);
    s.ok(Call::Gc);
    let check = |z: &str, a: u32, want: (&str, u32)| {
        ensure!(z == want.0 && a == want.1, "loads {} characters {z:?} and {a} instead of {} characters and {}", z.len(), want.0.len(), want.1);
        let r = dev.records();
        let m = newest(&r).first().map(|r| r.map()).unwrap_or_default();
        ensure!(
            m.get(key) == Some(&minicbor::to_vec(want.0).unwrap()) && m.get("other") == Some(&minicbor::to_vec(want.1).unwrap()),
            "storage holds something else than the values: {}", dev.describe()
        );
    };
    check(&z.load(), a.load(), (&text(l1, 0), 70_000));
    write(&mut z, &text(l2, 5));
    s.ok(Call::Flush);
    s.ok(Call::Gc);
    let (mut s, mut z, mut a) = boot(1);
    check(&z.load(), a.load(), (&text(l2, 5), 70_000));
    write(&mut z, &text(l1, 9));
    write(&mut a, &3);
    s.ok(Call::Flush);
    let (_s, z, a) = boot(2);
    check(&z.load(), a.load(), (&text(l1, 9), 3));
    mc::outcome(dev.hash());
}

/// Which node gets what; some nodes attach after the first load
fn keys(menu: &'static [&'static str], stored: usize, nodes: usize, late: bool) {
    let vals = [Sv::Num(1), Sv::Num(70_000), Sv::Text, Sv::Cut, Sv::Empty];
    let mut rec: Vec<(&str, Sv)> = vec![];
    let mut raw = vec![];
    for i in 0..stored {
        let k = pick(menu.len() + 2);
        if k == 0 {
            break;
        }
        if k == 1 {
            // a data element that is no key and value at all
            let bads: [&[u8]; 5] = [&[0x62, 0xc3, 0x28, 1], &[0x05, 0x01], &[0x63, 0x61], &[0x41, 0x61, 0x01], &[0x7f, 0x61, 0x61, 0xff, 0x01]];
            raw.push(bads[pick(5)].to_vec());
            continue;
        }
        let key = menu[k - 2];
        if rec.iter().any(|r| r.0 == key) {
            return;
        }
        let v = if i == 0 { pick_of(&vals) } else { pick_of(&vals[1..3]) };
        rec.push((key, v));
        raw.push(v.bytes(key));
    }
    // an older record must have no influence
    let old: Vec<Vec<u8>> = menu.iter().map(|k| Sv::Num(555).bytes(k)).collect();
    let mut items = if pick(2) == 0 { vec![] } else { enc_record(4, &old) };
    items.extend(enc_record(5, &raw));
    let dev: Dev<400> = Dev::with_items(items);
    let mut s = Big::new(&dev);
    // in order of the menu, so that the order of nodes and stored elements varies
    let mut att = vec![];
    for i in 0..nodes {
        let k = pick(menu.len());
        let key = menu[k];
        if att.iter().any(|(x, _, _): &(&str, u32, _)| *x == key) {
            return;
        }
        let d = 1000 + i as u32;
        att.push((key, d, None::<Att<u32, 2>>));
    }
    mc::nontrivial();
    let want = |key: &str, d: u32| match rec.iter().find(|r| r.0 == key) {
        Some((_, Sv::Num(n))) => *n,
        _ => d,
    };
    let n_late = if late { 1 } else { 0 };
    let mut have: Vec<(&'static str, u32, Keep<Handle<u32, 2>>)> = vec![];
    for a in att.iter_mut().take(nodes - n_late) {
        a.2 = Some(s.attach(a.0, a.1));
    }
    s.ok(Call::Load);
    for a in att.iter_mut().take(nodes - n_late) {
        let h = done(a.2.take().unwrap());
        let w = want(a.0, a.1);
        mc::log(|| format!("{:?} loads {}", a.0, h.load()));
        ensure!(h.load() == w, "{:?} loads {} instead of {w}", a.0, h.load());
        have.push((a.0, w, h));
    }
    if late {
        if pick(2) == 1 {
            write(&mut have[0].2, &88);
            have[0].1 = 88;
        }
        let a = att.last_mut().unwrap();
        let t = s.attach(a.0, a.1);
        if pick(2) == 1 {
            s.ok(Call::Gc);
        }
        s.ok(Call::Load);
        let h = done(t);
        let w = want(a.0, a.1);
        ensure!(h.load() == w, "late {:?} loads {} instead of {w}", a.0, h.load());
        have.push((a.0, w, h));
    }
    for (k, v, h) in &have {
        ensure!(h.load() == *v, "{k:?} reads {} instead of {v}", h.load());
    }
    // all of it survives a flush
    s.ok(Call::Gc);
    write(&mut have[0].2, &99);
    have[0].1 = 99;
    s.ok(Call::Flush);
    let mut s = Big::new(&dev);
    let t: Vec<_> = have.iter().rev().map(|(k, v, _)| (*k, *v, s.attach(k, 3333u32))).collect();
    s.ok(Call::Load);
    for (k, v, t) in t {
        let h = done(t);
        ensure!(h.load() == v, "{k:?} loads {} after a flush of {v}", h.load());
    }
    mc::outcome(dev.hash());
}

// ------------------------------------------------------------------ C31

#[derive(Clone, PartialEq, Debug, Hash)]
enum F {
    U(u32),
    S(String),
    B(bool),
}
type Fields = BTreeMap<u32, F>;

/// One version of the firmware's type
trait Schema: Clone + 'static + Encode<()> + CborLen<()> + for<'b> Decode<'b, ()> + Send + PartialEq + std::fmt::Debug {
    fn make(seed: u32) -> Self;
    /// present fields
    fn fields(&self) -> Fields;
    /// what the guide promises for data with these fields; None: incompatible
    fn expect(f: &Fields, map: bool) -> Option<Self>;
}

trait Fld: Sized {
    fn make(seed: u32) -> Self;
    fn put(&self) -> Option<F>;
    /// Err: incompatible
    fn get(f: Option<&F>) -> Result<Option<Self>, ()>;
}
impl Fld for u32 {
    fn make(seed: u32) -> Self {
        seed
    }
    fn put(&self) -> Option<F> {
        Some(F::U(*self))
    }
    fn get(f: Option<&F>) -> Result<Option<Self>, ()> {
        match f {
            None => Ok(None),
            Some(F::U(v)) => Ok(Some(*v)),
            _ => Err(()),
        }
    }
}
impl Fld for String {
    fn make(seed: u32) -> Self {
        format!("s{seed}")
    }
    fn put(&self) -> Option<F> {
        Some(F::S(self.clone()))
    }
    fn get(f: Option<&F>) -> Result<Option<Self>, ()> {
        match f {
            None => Ok(None),
            Some(F::S(v)) => Ok(Some(v.clone())),
            _ => Err(()),
        }
    }
}
impl Fld for bool {
    fn make(seed: u32) -> Self {
        seed & 1 == 0
    }
    fn put(&self) -> Option<F> {
        Some(F::B(*self))
    }
    fn get(f: Option<&F>) -> Result<Option<Self>, ()> {
        match f {
            None => Ok(None),
            Some(F::B(v)) => Ok(Some(*v)),
            _ => Err(()),
        }
    }
}
impl<T: Fld> Fld for Option<T> {
    fn make(seed: u32) -> Self {
        (seed & 2 == 0).then(|| T::make(seed))
    }
    fn put(&self) -> Option<F> {
        self.as_ref().and_then(|x| x.put())
    }
    fn get(f: Option<&F>) -> Result<Option<Self>, ()> {
        Ok(Some(T::get(f)?))
    }
}

macro_rules! version {
    ($name:ident $(#[$top:meta])* { $( $n:literal $f:ident : $t:ty $(= $dflt:ident)? ),* }) => {
        #[derive(Clone, PartialEq, Debug, Encode, Decode, CborLen)]
        $(#[$top])*
        struct $name {
            $( #[n($n)] $(#[cbor($dflt)])? $f: $t ),*
        }
        impl Schema for $name {
            fn make(seed: u32) -> Self {
                Self { $( $f: <$t as Fld>::make(seed * 10 + $n) ),* }
            }
            fn fields(&self) -> Fields {
                let mut m = Fields::new();
                $( if let Some(v) = self.$f.put() { m.insert($n, v); } )*
                m
            }
            fn expect(m: &Fields, map: bool) -> Option<Self> {
                // an array has an explicit null for a missing field in the middle
                let end = if map { 0 } else { m.keys().last().map_or(0, |x| *x) };
                let _ = end;
                $( let $f = match <$t as Fld>::get(m.get(&$n)) {
                    Err(()) => return None,
                    Ok(Some(v)) => v,
                    Ok(None) => {
                        #[allow(unused_mut, unused_assignments)]
                        let mut d: Option<$t> = None;
                        $( if $n > end { version!(@dflt $dflt d $t); } )?
                        match d { Some(v) => v, None => return None }
                    }
                }; )*
                Some(Self { $($f),* })
            }
        }
    };
    (@dflt default $d:ident $t:ty) => { $d = Some(<$t>::default()) };
}

version!(V1 { 1 a: u32, 2 b: u32 });
// optional, defaulted and required additions
version!(V2 { 1 a: u32, 2 b: u32, 3 c: Option<u32> });
version!(V3 { 1 a: u32, 2 b: u32, 3 c: u32 = default });
version!(V4 { 1 a: u32, 2 b: u32, 3 c: u32 });
// a field less
version!(V5 { 2 b: u32 });
version!(V6 { 1 a: u32, 3 c: Option<u32>, 5 e: Option<String> });
// another type for a field
version!(V7 { 1 a: String, 2 b: u32 });
// everything optional
version!(V8 { 1 a: Option<u32>, 2 b: Option<u32>, 3 c: Option<u32>, 4 d: bool = default });
version!(M1 #[cbor(map)] { 1 a: u32, 2 b: u32 });
version!(M2 #[cbor(map)] { 1 a: u32, 3 c: Option<String>, 4 d: u32 = default });
version!(M3 #[cbor(map)] { 2 b: Option<u32>, 4 d: u32 });

/// what a record holds for the key
#[derive(Clone, PartialEq, Debug)]
struct Stored {
    map: bool,
    f: Fields,
}
struct Fw {
    /// value of the key in the newest record; None: not in it
    stored: Option<Stored>,
    /// an unrelated key
    other: Option<u32>,
    third: Option<u32>,
    any: bool,
    seed: u32,
}

/// Run one firmware version: boot, load, perhaps write, flush, collect
fn firmware<T: Schema>(dev: &Dev<400>, m: &mut Fw, map: bool) {
    let act = pick(4);
    let mut s = Big::new(dev);
    m.seed += 1;
    let dflt = T::make(m.seed + 50);
    let first = pick(2) == 0;
    let mut at = None;
    if first {
        at = Some(s.attach("cfg", dflt.clone()));
    }
    let other_d = 4000 + m.seed;
    let other = s.attach("other", other_d);
    if !first {
        at = Some(s.attach("cfg", dflt.clone()));
    }
    s.ok(Call::Load);
    let mut h = done(at.unwrap());
    let mut o = done(other);
    let loaded = m.stored.as_ref().and_then(|st| if st.map == map { T::expect(&st.f, map) } else { None });
    let found = loaded.is_some();
    let want = loaded.unwrap_or_else(|| dflt.clone());
    mc::log(|| format!("{} loads {:?} from {:?}", std::any::type_name::<T>(), h.load(), m.stored));
    if m.stored.is_some() {
        mc::nontrivial();
    }
    ensure!(h.load() == want, "{} loads {:?} instead of {want:?} from {:?}", std::any::type_name::<T>(), h.load(), m.stored);
    let want_o = m.other.unwrap_or(other_d);
    ensure!(o.load() == want_o, "the other node loads {} instead of {want_o}", o.load());
    let mut dirty = !found || m.other.is_none() || !m.any;
    let mut now = want;
    let mut now_o = want_o;
    match act {
        0 => {}
        1 => {
            now = T::make(m.seed);
            write(&mut h, &now);
            dirty = true;
        }
        2 => {
            now_o = 100 + m.seed;
            write(&mut o, &now_o);
            dirty = true;
        }
        _ => {}
    }
    s.ok(Call::Gc);
    if act == 3 {
        // no flush in this run
        ensure!(h.load() == now, "a collection changes a value");
        return;
    }
    let before = dev.items();
    s.ok(Call::Flush);
    if dirty {
        m.stored = Some(Stored { map, f: now.fields() });
        m.other = Some(now_o);
        m.third = None;
        m.any = true;
    } else {
        ensure!(dev.items() == before, "a flush without changes stores something");
    }
    ensure!(h.load() == now && o.load() == now_o, "a flush changes a value");
    mc::state(mc::hash_of(&(m.stored.as_ref().map(|s| (s.map, s.f.clone())), m.other)));
}

type Run = fn(&Dev<400>, &mut Fw);
fn versions(n: usize) -> Vec<Run> {
    let v: Vec<Run> = vec![
        |d, m| firmware::<V1>(d, m, false),
        |d, m| firmware::<V2>(d, m, false),
        |d, m| firmware::<V3>(d, m, false),
        |d, m| firmware::<V4>(d, m, false),
        |d, m| firmware::<V5>(d, m, false),
        |d, m| firmware::<V6>(d, m, false),
        |d, m| firmware::<V7>(d, m, false),
        |d, m| firmware::<V8>(d, m, false),
        |d, m| firmware::<M1>(d, m, true),
        |d, m| firmware::<M2>(d, m, true),
        |d, m| firmware::<M3>(d, m, true),
    ];
    v.into_iter().take(n).collect()
}

fn schema(boots: usize, n: usize) {
    let dev: Dev<400> = Dev::new();
    let mut m = Fw { stored: None, other: None, third: None, any: false, seed: 0 };
    let v = versions(n);
    for _ in 0..boots {
        v[pick(v.len())](&dev, &mut m);
    }
    mc::outcome(mc::hash_of(&dev.items()));
}

pub fn scenarios(id: u32, thorough: bool) -> Vec<Scen> {
    let t = thorough as usize;
    let singles: Vec<Vec<Vec<u8>>> = single_elements().into_iter().map(|e| vec![e]).collect();
    match id {
        4 | 7 => {
            let s8: Vec<_> = singles.iter().take(7).cloned().collect();
            let pre = enc_record(3, &[kv("b", 34), kv("a", 33)]);
            let pre2 = pre.clone();
            vec![
                scen("elements", 0, move || any_content(id, 5 + t, &singles, &[])),
                scen("elements-deep", 0, move || any_content(id, 7 + t, &s8, &[])),
                scen("records", 0, move || any_content(id, 4 + t, &groups(14), &[])),
                scen("records-deep", 0, move || any_content(id, 6 + t, &groups(8), &[])),
                scen("behind-a-record", 0, move || any_content(id, 5 + t, &single_elements().into_iter().map(|e| vec![e]).take(9).collect::<Vec<_>>(), &pre2)),
                scen("large-numbers", 0, move || large_seqs(id, 4 + t)),
                scen("keeps-more", 0, move || keeps_more(id, 5 + t)),
                scen("much-content", 0, move || much(id, t > 0)),
                scen("odd-bytes", 0, move || odd_bytes(id)),
                scen("bit-errors", 0, move || bits(id)),
            ]
        }
        13 => {
            let small: &'static [&'static str] = &["a", "ab", "b", "", "A"];
            vec![
                scen("keys", 0, move || keys(key_menu(), 2, 2, false)),
                scen("near-keys", 0, move || near_keys(t > 0)),
                scen("lengths", 0, move || lengths(t > 0)),
                scen("similar-keys", 0, move || keys(small, 3 + t, 3, false)),
                scen("late-nodes", 0, move || keys(small, 3, 2 + t, true)),
                scen("late-nodes-all-keys", 0, move || keys(key_menu(), 1 + t, 2, true)),
            ]
        }
        1 | 2 => vec![scen("lengths", 0, move || lengths(t > 0))],
        15 => vec![scen("near-keys", 0, move || near_keys(t > 0))],
        31 => vec![
            scen("pairs-and-triples", 0, move || schema(3, 11)),
            scen("lengths", 0, move || lengths(t > 0)),
            scen("longer", 0, move || schema(4, 5 + 2 * t)),
        ],
        _ => vec![],
    }
}
