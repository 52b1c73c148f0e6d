//! Memory placement as a fault dimension. While a run with `mem != 0` is going on, byte buffers
//! (alignment 1: strings, line buffers) allocated by the simulation thread are placed by the
//! simulator: either flush against an unmapped page (any access past the end crashes), or at
//! a chosen misalignment, surrounded by bytes that look like message syntax (`;`, `=`, space,
//! ...). Freed buffers are overwritten, and growing always moves the buffer.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};

pub struct Placer;

const PAGE: usize = 4096;
struct Class {
  pages: usize,
  slots: usize,
}
const CLASSES: [Class; 3] = [Class { pages: 1, slots: 3000 }, Class { pages: 17, slots: 400 }, Class { pages: 161, slots: 40 }];
struct Arena {
  base: usize,
  len: usize,
  /// FIFO of free slots
  free: [u16; 4096],
  head: usize,
  n: usize,
}
const EMPTY: Arena = Arena { base: 0, len: 0, free: [0; 4096], head: 0, n: 0 };
static mut ARENAS: [Arena; 3] = [EMPTY; 3];
static LOCK: AtomicBool = AtomicBool::new(false);
static READY: AtomicBool = AtomicBool::new(false);
static LO: AtomicUsize = AtomicUsize::new(0);
static HI: AtomicUsize = AtomicUsize::new(0);
pub static PLACED: AtomicUsize = AtomicUsize::new(0);

thread_local! {
  static MODE: Cell<u64> = const { Cell::new(0) };
}

fn lock() {
  while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
    std::hint::spin_loop();
  }
}
fn unlock() {
  LOCK.store(false, Release);
}

fn setup() {
  if READY.load(Acquire) {
    return;
  }
  unsafe {
    let total: usize = CLASSES.iter().map(|c| (c.pages + 1) * c.slots * PAGE).sum::<usize>() + PAGE;
    let p = libc::mmap(std::ptr::null_mut(), total, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
    assert!(p != libc::MAP_FAILED);
    let mut at = p as usize + PAGE;
    LO.store(p as usize, Relaxed);
    HI.store(p as usize + total, Relaxed);
    for (i, c) in CLASSES.iter().enumerate() {
      let a = &mut ARENAS[i];
      a.base = at;
      a.len = (c.pages + 1) * c.slots * PAGE;
      for s in 0..c.slots {
        let r = libc::mprotect((at + s * (c.pages + 1) * PAGE) as *mut _, c.pages * PAGE, libc::PROT_READ | libc::PROT_WRITE);
        assert!(r == 0);
        a.free[s] = s as u16;
      }
      a.head = 0;
      a.n = c.slots;
      at += a.len;
    }
  }
  READY.store(true, Release);
}

pub fn start(mode: u64) {
  if mode != 0 {
    setup();
  }
  MODE.with(|m| m.set(mode));
}
pub fn stop() {
  MODE.with(|m| m.set(0));
}

const FILL: &[u8] = b"; = :@#\r\n\xC3\xFF;=A";

fn rnd(m: &Cell<u64>) -> u64 {
  let mut r = crate::plan::Rng(m.get());
  let x = r.next();
  m.set(if r.0 == 0 { 1 } else { r.0 });
  x
}

unsafe fn place(size: usize, mode: &Cell<u64>) -> *mut u8 {
  let Some(k) = CLASSES.iter().position(|c| size + 256 <= c.pages * PAGE) else {
    return std::ptr::null_mut();
  };
  lock();
  let a = &mut ARENAS[k];
  if a.n == 0 {
    unlock();
    return std::ptr::null_mut();
  }
  let s = a.free[a.head] as usize;
  a.head = (a.head + 1) % CLASSES[k].slots;
  a.n -= 1;
  let base = a.base + s * (CLASSES[k].pages + 1) * PAGE;
  unlock();
  let end = base + CLASSES[k].pages * PAGE;
  let x = rnd(mode);
  let at = if x & 3 != 0 { end - size } else { end - size - 64 - ((x >> 8) as usize & 63) };
  let fill = FILL[(x >> 16) as usize % FILL.len()];
  let lo = (at - 64).max(base);
  std::ptr::write_bytes(lo as *mut u8, fill, at - lo);
  let after = (end - at - size).min(128);
  std::ptr::write_bytes((at + size) as *mut u8, fill, after);
  // fresh memory holds leftovers that look like syntax, too
  std::ptr::write_bytes(at as *mut u8, fill, size.min(512));
  PLACED.fetch_add(1, Relaxed);
  at as *mut u8
}
fn ours(p: *mut u8) -> bool {
  let p = p as usize;
  p >= LO.load(Relaxed) && p < HI.load(Relaxed)
}
unsafe fn give_back(p: *mut u8, size: usize) {
  std::ptr::write_bytes(p, 0xDD, size.min(4096));
  lock();
  for (k, a) in ARENAS.iter_mut().enumerate() {
    let p = p as usize;
    if p >= a.base && p < a.base + a.len {
      let s = (p - a.base) / ((CLASSES[k].pages + 1) * PAGE);
      let i = (a.head + a.n) % CLASSES[k].slots;
      a.free[i] = s as u16;
      a.n += 1;
      break;
    }
  }
  unlock();
}

unsafe impl GlobalAlloc for Placer {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    if l.align() == 1 && l.size() > 0 {
      let p = MODE.try_with(|m| if m.get() != 0 { place(l.size(), m) } else { std::ptr::null_mut() }).unwrap_or(std::ptr::null_mut());
      if !p.is_null() {
        return p;
      }
    }
    System.alloc(l)
  }
  unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
    if l.align() == 1 && l.size() <= 700_000 {
      let p = self.alloc(l);
      if !p.is_null() {
        std::ptr::write_bytes(p, 0, l.size());
      }
      return p;
    }
    System.alloc_zeroed(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    if ours(p) {
      give_back(p, l.size());
    } else {
      System.dealloc(p, l)
    }
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
    if l.align() == 1 && (ours(p) || MODE.try_with(|m| m.get() != 0).unwrap_or(false)) {
      let q = self.alloc(Layout::from_size_align_unchecked(new, 1));
      if !q.is_null() {
        std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
        self.dealloc(p, l);
      }
      return q;
    }
    System.realloc(p, l, new)
  }
}

#[global_allocator]
static GLOBAL: Placer = Placer;
