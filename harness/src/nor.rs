//! Simulated NOR flash for the real `cfg_noodle::flash::Flash` backend.  Writing clears bits,
//! erasing sets them.  Every write and erase asks the explorer where a power cut, an error or a
//! cancellation hits it, at the granularity of the write unit (and half of it).

use crate::dev::Intr;
use crate::mc;
use cfg_noodle::flash::Flash;
use embedded_storage_async::nor_flash::*;
use sequential_storage::cache::{CacheImpl, NoCache, PagePointerCache, PageStateCache};
use sequential_storage::queue::{QueueConfig, QueueStorage};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum NErr {
    Io,
    Dead,
    Align,
    Bounds,
}
impl NorFlashError for NErr {
    fn kind(&self) -> NorFlashErrorKind {
        match self {
            NErr::Align => NorFlashErrorKind::NotAligned,
            NErr::Bounds => NorFlashErrorKind::OutOfBounds,
            _ => NorFlashErrorKind::Other,
        }
    }
}

#[derive(Default, Clone, Copy)]
pub struct Faults {
    /// power cuts at writes and erases
    pub cut: bool,
    /// failing writes and erases
    pub err: bool,
    /// calls abandoned at writes and erases
    pub cancel: bool,
    /// failing reads
    pub read_err: bool,
    /// calls abandoned at reads
    pub read_cancel: bool,
}

pub struct NorState {
    pub mem: Vec<u8>,
    pub faults: Faults,
    pub dead: bool,
    pub intr: Option<Intr>,
    /// number of faults so far
    pub hits: u32,
    /// after the first fault, faults only hit this many further operations
    pub window: u32,
    pub writes: u64,
    pub erases: u64,
    /// every write fails (without effect) while set
    pub broken: bool,
}

pub struct Nor<const R: usize, const W: usize, const E: usize>(pub Rc<RefCell<NorState>>);
impl<const R: usize, const W: usize, const E: usize> Clone for Nor<R, W, E> {
    fn clone(&self) -> Self {
        Nor(self.0.clone())
    }
}

#[derive(Clone, Copy, Debug)]
enum Hit {
    Cut,
    Err,
    Cancel,
}

impl<const R: usize, const W: usize, const E: usize> Nor<R, W, E> {
    pub const WORD: usize = if R > W { R } else { W };

    pub fn new(pages: usize) -> Self {
        Self::from_mem(vec![0xff; pages * E])
    }
    pub fn from_mem(mem: Vec<u8>) -> Self {
        Nor(Rc::new(RefCell::new(NorState {
            mem,
            faults: Faults::default(),
            dead: false,
            intr: None,
            hits: 0,
            window: u32::MAX,
            writes: 0,
            erases: 0,
            broken: false,
        })))
    }
    /// An independent copy of the memory, without faults
    pub fn fork(&self) -> Self {
        Self::from_mem(self.0.borrow().mem.clone())
    }
    pub fn size(&self) -> usize {
        self.0.borrow().mem.len()
    }
    pub fn pages(&self) -> usize {
        self.size() / E
    }
    pub fn set_faults(&self, f: Faults) {
        self.0.borrow_mut().faults = f
    }
    pub fn take_intr(&self) -> Option<Intr> {
        self.0.borrow_mut().intr.take()
    }
    pub fn power_on(&self) {
        let mut s = self.0.borrow_mut();
        s.dead = false;
        s.intr = None;
    }
    pub fn flash<C: CacheImpl>(&self, cache: C) -> Flash<Self, C> {
        Flash::new(self.clone(), 0..self.size() as u32, cache)
    }
    pub fn queue(&self) -> QueueStorage<Self, NoCache> {
        QueueStorage::new(self.clone(), QueueConfig::new(0..self.size() as u32), NoCache::new())
    }
    /// The stored elements, oldest first, without touching the memory
    pub fn items(&self) -> Vec<Vec<u8>> {
        let f = self.fork();
        let mut q = f.queue();
        let mut buf = vec![0u8; E.next_multiple_of(32)];
        let mut out = vec![];
        crate::nor::ready(async {
            let mut it = q.iter().await.map_err(|e| format!("{e:?}"))?;
            while let Some(x) = it.next(&mut buf).await.map_err(|e| format!("{e:?}"))? {
                out.push(x.to_vec());
            }
            Ok::<(), String>(())
        })
        .unwrap_or_else(|e| mc::prune(format!("the queue cannot be read: {e}")));
        out
    }
    pub fn describe(&self) -> String {
        crate::dev::describe(&self.items())
    }
    pub fn hash(&self) -> u64 {
        mc::hash_of(&self.0.borrow().mem)
    }

    /// `n`: number of units of the operation; gives the number of half units that take effect
    fn ask(&self, n: usize, erase: bool) -> Option<(Hit, usize)> {
        mc::step();
        crate::sched::point();
        let f = self.0.borrow().faults;
        if !(f.cut || f.err || f.cancel) {
            return None;
        }
        {
            let mut s = self.0.borrow_mut();
            if s.hits > 0 {
                if s.window == 0 {
                    return None;
                }
                s.window -= 1;
            }
        }
        // half units that take effect
        let parts: Vec<usize> = if erase {
            vec![0, 1, n, 2 * n - 1]
        } else if W == 1 {
            (0..n).map(|k| 2 * k).collect()
        } else {
            (0..2 * n).collect()
        };
        let mut menu = vec![];
        if f.cut {
            menu.extend(parts.iter().map(|&k| (Hit::Cut, k)));
            menu.push((Hit::Cut, 2 * n));
        }
        if f.err {
            menu.extend([(Hit::Err, 0), (Hit::Err, n & !1), (Hit::Err, 2 * n)]);
        }
        if f.cancel {
            menu.extend([(Hit::Cancel, 0), (Hit::Cancel, n & !1), (Hit::Cancel, 2 * n)]);
        }
        let c = mc::deviate(menu.len() + 1);
        if c == 0 {
            return None;
        }
        self.0.borrow_mut().hits += 1;
        Some(menu[c - 1])
    }
    fn io(&self) -> Result<(), NErr> {
        if self.0.borrow().dead { Err(NErr::Dead) } else { Ok(()) }
    }
    async fn end(&self, h: Hit) -> Result<(), NErr> {
        let i = match h {
            Hit::Err => return Err(NErr::Io),
            Hit::Cut => Intr::Crash,
            Hit::Cancel => Intr::Cancel,
        };
        std::future::poll_fn(|_| {
            let mut s = self.0.borrow_mut();
            s.intr = Some(i);
            s.dead |= i == Intr::Crash;
            std::task::Poll::<()>::Pending
        })
        .await;
        unreachable!()
    }
    fn range(&self, off: u32, len: usize, unit: usize) -> Result<std::ops::Range<usize>, NErr> {
        let off = off as usize;
        let e = if off % unit != 0 || len % unit != 0 {
            NErr::Align
        } else if off + len > self.size() {
            NErr::Bounds
        } else {
            return Ok(off..off + len);
        };
        mc::note_violation(format!("bad flash access: {e:?} at {off} length {len}"));
        Err(e)
    }
}

/// Drive a future that never waits
pub fn ready<F: Future>(f: F) -> F::Output {
    match crate::exec::poll_once(std::pin::pin!(f)) {
        std::task::Poll::Ready(t) => t,
        std::task::Poll::Pending => mc::violation("a storage operation waits"),
    }
}

impl<const R: usize, const W: usize, const E: usize> ErrorType for Nor<R, W, E> {
    type Error = NErr;
}
impl<const R: usize, const W: usize, const E: usize> ReadNorFlash for Nor<R, W, E> {
    const READ_SIZE: usize = R;
    async fn read(&mut self, offset: u32, bytes: &mut [u8]) -> Result<(), NErr> {
        let f = self.0.borrow().faults;
        if f.read_err || f.read_cancel {
            let mut menu = vec![];
            if f.read_err {
                menu.push(Hit::Err);
            }
            if f.read_cancel {
                menu.push(Hit::Cancel);
            }
            mc::step();
            let c = mc::deviate(menu.len() + 1);
            if c > 0 {
                mc::log(|| format!("   flash read of {} at {offset:#x}: {:?}", bytes.len(), menu[c - 1]));
                self.0.borrow_mut().hits += 1;
                return self.end(menu[c - 1]).await;
            }
        }
        self.io()?;
        let r = self.range(offset, bytes.len(), R)?;
        bytes.copy_from_slice(&self.0.borrow().mem[r]);
        Ok(())
    }
    fn capacity(&self) -> usize {
        self.size()
    }
}
impl<const R: usize, const W: usize, const E: usize> NorFlash for Nor<R, W, E> {
    const WRITE_SIZE: usize = W;
    const ERASE_SIZE: usize = E;
    async fn erase(&mut self, from: u32, to: u32) -> Result<(), NErr> {
        self.io()?;
        let r = self.range(from, (to - from) as usize, E)?;
        let units = r.len() / Self::WORD;
        let hit = self.ask(units, true);
        if self.0.borrow().broken {
            return Err(NErr::Io);
        }
        let n = hit.map_or(r.len(), |(_, k)| k * Self::WORD / 2);
        if let Some((h, _)) = hit {
            mc::log(|| format!("   flash erase {from:#x}..{to:#x}: {h:?} after {n} bytes"));
        }
        {
            let mut s = self.0.borrow_mut();
            s.erases += 1;
            s.mem[r.start..r.start + n].fill(0xff);
        }
        match hit {
            None => Ok(()),
            Some((h, _)) => self.end(h).await,
        }
    }
    async fn write(&mut self, offset: u32, bytes: &[u8]) -> Result<(), NErr> {
        self.io()?;
        let r = self.range(offset, bytes.len(), W)?;
        let hit = self.ask(bytes.len() / W, false);
        if self.0.borrow().broken {
            return Err(NErr::Io);
        }
        let n = hit.map_or(r.len(), |(_, k)| k * W / 2);
        if let Some((h, _)) = hit {
            mc::log(|| format!("   flash write of {} at {offset:#x}: {h:?} after {n} bytes", r.len()));
        }
        {
            let mut s = self.0.borrow_mut();
            s.writes += 1;
            for (m, b) in s.mem[r.start..r.start + n].iter_mut().zip(bytes) {
                *m &= b;
            }
        }
        match hit {
            None => Ok(()),
            Some((h, _)) => self.end(h).await,
        }
    }
}
impl<const R: usize, const W: usize, const E: usize> MultiwriteNorFlash for Nor<R, W, E> {}

/// A cache that can be made afresh
pub trait Fresh: CacheImpl + 'static {
    const NAME: &'static str;
    fn fresh() -> Self;
}
impl Fresh for NoCache {
    const NAME: &'static str = "no cache";
    fn fresh() -> Self {
        NoCache::new()
    }
}
impl<const N: usize> Fresh for PageStateCache<N> {
    const NAME: &'static str = "page state cache";
    fn fresh() -> Self {
        PageStateCache::new()
    }
}
impl<const N: usize> Fresh for PagePointerCache<N> {
    const NAME: &'static str = "page pointer cache";
    fn fresh() -> Self {
        PagePointerCache::new()
    }
}
