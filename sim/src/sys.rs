//! libc interposition: while a simulation is active, every syscall-level source of
//! nondeterminism the client stack touches (clock, randomness, sockets, epoll, name
//! lookup, helper threads) is served by the simulated world. Outside a simulation (and
//! for descriptors that are not simulated) everything passes through to the kernel.

use crate::world::World;
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

// ---------------------------------------------------------------- raw syscalls

#[inline]
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
  let r: i64;
  std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
    in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
  r
}

unsafe fn set_errno(e: i32) {
  *libc::__errno_location() = e;
}

#[inline]
unsafe fn ret(r: i64) -> i64 {
  if (-4095..0).contains(&r) {
    set_errno(-r as i32);
    -1
  } else {
    r
  }
}

// ---------------------------------------------------------------- global sim state

static ACTIVE: AtomicBool = AtomicBool::new(false);
static MAIN_TID: AtomicI32 = AtomicI32::new(0);
/// Virtual monotonic clock, ns.
pub static NOW: AtomicU64 = AtomicU64::new(0);
/// Offset of the wall clock from the monotonic one, ns (may be changed by clock-jump faults).
pub static WALL: AtomicU64 = AtomicU64::new(0);
/// Set while world code (the simulated peers) runs, so that it draws from its own random stream.
static IN_WORLD: AtomicBool = AtomicBool::new(false);
pub static SPINS: AtomicU64 = AtomicU64::new(0);
/// Number of real-time "progress" ticks, for the watchdog.
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);

struct Cell2<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Cell2<T> {}

static WORLD: Cell2<Option<Box<World>>> = Cell2(UnsafeCell::new(None));
static RNG: Cell2<[u64; 2]> = Cell2(UnsafeCell::new([0, 0]));

pub const MONO_BASE: u64 = 1_000_000_000_000;

fn splitmix(s: &mut u64) -> u64 {
  *s = s.wrapping_add(0x9E3779B97F4A7C15);
  let mut z = *s;
  z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
  z ^ (z >> 31)
}

unsafe fn gettid() -> i32 {
  raw(libc::SYS_gettid, 0, 0, 0, 0, 0, 0) as i32
}

thread_local! {
  static ROLE: std::cell::Cell<u8> = const { std::cell::Cell::new(0) }; // 0 none, 1 main, 2 helper
  static HELPER: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

#[inline]
fn role() -> u8 {
  if !ACTIVE.load(Relaxed) {
    return 0;
  }
  ROLE.try_with(|r| r.get()).unwrap_or(0)
}
#[inline]
fn is_main() -> bool {
  role() == 1
}

/// Access the world from the simulation's main thread.
pub fn with_world<R>(f: impl FnOnce(&mut World) -> R) -> R {
  assert!(is_main(), "world accessed outside the simulation");
  let was = IN_WORLD.swap(true, Relaxed);
  assert!(!was, "re-entrant world access");
  let w = unsafe { (*WORLD.0.get()).as_mut().expect("no world") };
  let r = f(w);
  IN_WORLD.store(false, Relaxed);
  r
}

pub fn now_ns() -> u64 {
  NOW.load(Relaxed) - MONO_BASE
}

/// Runs `f` on a fresh thread with the world installed; returns f's result and the world.
pub fn simulate<R: Send>(world: Box<World>, seed: u64, wall_base_ns: u64, f: impl FnOnce() -> R + Send) -> (std::thread::Result<R>, Box<World>) {
  struct SendPtr<T>(T);
  unsafe impl<T> Send for SendPtr<T> {}
  let world = SendPtr(world);
  let (r, w) = std::thread::scope(|s| {
    std::thread::Builder::new()
      .stack_size(8 << 20)
      .spawn_scoped(s, move || {
        let world = { world };
        unsafe {
          *WORLD.0.get() = Some(world.0);
          *RNG.0.get() = [seed ^ 0x1111_2222_3333_4444, seed ^ 0x5555_6666_7777_8888];
          NOW.store(MONO_BASE, Relaxed);
          WALL.store(wall_base_ns.wrapping_sub(MONO_BASE), Relaxed);
          SPINS.store(0, Relaxed);
          IN_WORLD.store(false, Relaxed);
          MAIN_TID.store(gettid(), Relaxed);
          helpers_reset();
          ROLE.with(|r| r.set(1));
          ACTIVE.store(true, SeqCst);
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        ACTIVE.store(false, SeqCst);
        ROLE.with(|r| r.set(0));
        let w = unsafe { (*WORLD.0.get()).take().unwrap() };
        (r, SendPtr(w))
      })
      .unwrap()
      .join()
      .unwrap()
  });
  (r, w.0)
}

// ---------------------------------------------------------------- helper threads

const MAXH: usize = 64;
const RUNNING: u32 = 1;
const PARKED: u32 = 2;
const IN_DNS: u32 = 3;
const EXITED: u32 = 4;
struct H {
  state: AtomicU32,
  wake: AtomicU32,
  addr: AtomicUsize,
  order: AtomicU64,
  dns_id: AtomicU64,
}
#[allow(clippy::declare_interior_mutable_const)]
const HINIT: H = H { state: AtomicU32::new(0), wake: AtomicU32::new(0), addr: AtomicUsize::new(0), order: AtomicU64::new(0), dns_id: AtomicU64::new(0) };
static HS: [H; MAXH] = [HINIT; MAXH];
static NHELP: AtomicUsize = AtomicUsize::new(0);
static ORDER: AtomicU64 = AtomicU64::new(0);
static LOCK: AtomicBool = AtomicBool::new(false);
static MAINF: H = HINIT;
// Lookups handed from helpers to the world.
struct Lookup {
  helper: usize,
  host: String,
  seen: bool,
  done: Option<Result<Vec<std::net::SocketAddrV4>, i32>>,
}
static LOOKUPS: Cell2<Vec<Lookup>> = Cell2(UnsafeCell::new(Vec::new()));

fn lock() {
  while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
    unsafe { raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) };
  }
}
fn unlock() {
  LOCK.store(false, Release);
}
unsafe fn helpers_reset() {
  NHELP.store(0, SeqCst);
  ORDER.store(0, SeqCst);
  for h in &HS {
    h.state.store(0, SeqCst);
    h.wake.store(0, SeqCst);
  }
  MAINF.state.store(RUNNING, SeqCst);
  (*LOOKUPS.0.get()).clear();
}
unsafe fn block(h: &H) {
  while h.wake.load(SeqCst) == 0 {
    raw(libc::SYS_futex, &h.wake as *const _ as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, 0, 0, 0, 0);
  }
}
unsafe fn unblock(h: &H) {
  h.wake.store(1, SeqCst);
  raw(libc::SYS_futex, &h.wake as *const _ as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, 1, 0, 0, 0);
}
/// Main waits until no helper is running.
unsafe fn quiesce() {
  let mut n = 0u32;
  loop {
    let busy = (0..NHELP.load(SeqCst).min(MAXH)).any(|i| HS[i].state.load(SeqCst) == RUNNING);
    if !busy {
      return;
    }
    n += 1;
    if n > 200 {
      let ts = libc::timespec { tv_sec: 0, tv_nsec: 5_000 };
      raw(libc::SYS_nanosleep, &ts as *const _ as i64, 0, 0, 0, 0, 0);
    } else {
      raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    }
  }
}

/// Move lookups between helpers and the world. Called on main after quiesce.
unsafe fn pump_dns(w: &mut World) -> bool {
  let mut released = false;
  lock();
  let l = &mut *LOOKUPS.0.get();
  for (i, x) in l.iter_mut().enumerate() {
    if !x.seen {
      x.seen = true;
      w.dns_query(i, x.host.clone());
    }
  }
  for (i, res) in w.take_dns_results() {
    if l[i].done.is_none() {
      l[i].done = Some(res);
      let h = &HS[l[i].helper];
      h.state.store(RUNNING, SeqCst);
      unblock(h);
      released = true;
    }
  }
  unlock();
  released
}

/// Let lookups that were asked for reach the world.
pub fn settle_dns() {
  unsafe {
    quiesce();
  }
  if with_world(|w| unsafe { pump_dns(w) }) {
    unsafe { quiesce() };
  }
}

/// Fail all pending lookups, so that a runtime can be shut down.
pub fn release_all_dns() {
  unsafe {
    quiesce();
    lock();
    let l = &mut *LOOKUPS.0.get();
    for x in l.iter_mut() {
      if x.done.is_none() {
        x.done = Some(Err(libc::EAI_AGAIN));
        let h = &HS[x.helper];
        h.state.store(RUNNING, SeqCst);
        unblock(h);
      }
    }
    unlock();
    quiesce();
  }
}

unsafe fn futex_wait(addr: usize, val: u32, timed: bool) -> i64 {
  let r = role();
  let h = if r == 2 { &HS[HELPER.with(|h| h.get())] } else { &MAINF };
  lock();
  if (*(addr as *const AtomicU32)).load(SeqCst) != val {
    unlock();
    return -(libc::EAGAIN as i64);
  }
  h.addr.store(addr, SeqCst);
  h.order.store(ORDER.fetch_add(1, SeqCst), SeqCst);
  h.wake.store(0, SeqCst);
  h.state.store(PARKED, SeqCst);
  unlock();
  if r == 1 {
    quiesce();
    lock();
    let woken = h.state.load(SeqCst) == RUNNING;
    unlock();
    if !woken {
      if timed {
        // nobody can wake us except by time passing
        lock();
        h.state.store(RUNNING, SeqCst);
        unlock();
        return -(libc::ETIMEDOUT as i64);
      }
      release_all_dns();
      quiesce();
      lock();
      let woken = h.state.load(SeqCst) == RUNNING;
      unlock();
      if !woken {
        fatal("simulation deadlock: main thread waits on a futex nobody will wake");
      }
    }
    return 0;
  }
  block(h);
  0
}

/// The client can make no more progress (98), or the simulator is at a loss (97).
pub fn fatal(msg: &str) -> ! {
  let code = if msg.starts_with("too many") { 97 } else { 98 };
  unsafe {
    let m = format!("FATAL-SIM: {msg}\n");
    raw(libc::SYS_write, 2, m.as_ptr() as i64, m.len() as i64, 0, 0, 0);
    raw(libc::SYS_exit_group, code, 0, 0, 0, 0, 0);
  }
  unreachable!()
}

unsafe fn futex_wake(addr: usize, n: i64) -> i64 {
  lock();
  let mut k = 0;
  while k < n {
    let mut best: Option<&H> = None;
    let it = HS.iter().take(NHELP.load(SeqCst).min(MAXH)).chain(std::iter::once(&MAINF));
    for h in it {
      if h.state.load(SeqCst) == PARKED && h.addr.load(SeqCst) == addr && best.map_or(true, |b| h.order.load(SeqCst) < b.order.load(SeqCst)) {
        best = Some(h);
      }
    }
    let Some(h) = best else { break };
    h.state.store(RUNNING, SeqCst);
    unblock(h);
    k += 1;
  }
  unlock();
  if k > 0 && role() == 1 {
    quiesce();
  }
  k
}

type StartFn = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
struct Tramp {
  f: StartFn,
  arg: *mut libc::c_void,
  id: usize,
}
extern "C" fn tramp(p: *mut libc::c_void) -> *mut libc::c_void {
  let t = unsafe { Box::from_raw(p as *mut Tramp) };
  HELPER.with(|h| h.set(t.id));
  ROLE.with(|r| r.set(2));
  let r = (t.f)(t.arg);
  ROLE.with(|r| r.set(0));
  HS[t.id].state.store(EXITED, SeqCst);
  r
}

static REAL_PTHREAD_CREATE: AtomicUsize = AtomicUsize::new(0);
type PtCreate = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, StartFn, *mut libc::c_void) -> i32;
unsafe fn real_pthread_create() -> PtCreate {
  let mut p = REAL_PTHREAD_CREATE.load(Relaxed);
  if p == 0 {
    p = libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()) as usize;
    assert!(p != 0);
    REAL_PTHREAD_CREATE.store(p, Relaxed);
  }
  std::mem::transmute(p)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, a: *const libc::pthread_attr_t, f: StartFn, arg: *mut libc::c_void) -> i32 {
  let real = real_pthread_create();
  if role() == 0 {
    return real(t, a, f, arg);
  }
  let id = NHELP.load(SeqCst);
  if id >= MAXH {
    fatal("too many helper threads");
  }
  HS[id].state.store(RUNNING, SeqCst);
  NHELP.store(id + 1, SeqCst);
  let b = Box::into_raw(Box::new(Tramp { f, arg, id }));
  let r = real(t, a, tramp, b as *mut _);
  if r != 0 {
    HS[id].state.store(EXITED, SeqCst);
    drop(Box::from_raw(b));
    return r;
  }
  if role() == 1 {
    quiesce();
  }
  r
}

// ---------------------------------------------------------------- time

unsafe fn put_ts(ts: *mut libc::timespec, ns: u64) {
  (*ts).tv_sec = (ns / 1_000_000_000) as i64;
  (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
  if role() != 0 {
    let now = NOW.load(Relaxed);
    match clk {
      libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => put_ts(ts, now.wrapping_add(WALL.load(Relaxed))),
      libc::CLOCK_PROCESS_CPUTIME_ID | libc::CLOCK_THREAD_CPUTIME_ID => put_ts(ts, 0),
      _ => put_ts(ts, now),
    }
    return 0;
  }
  ret(raw(libc::SYS_clock_gettime, clk as i64, ts as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut libc::c_void) -> i32 {
  if role() != 0 {
    let t = NOW.load(Relaxed).wrapping_add(WALL.load(Relaxed));
    (*tv).tv_sec = (t / 1_000_000_000) as i64;
    (*tv).tv_usec = (t % 1_000_000_000 / 1000) as i64;
    return 0;
  }
  ret(raw(libc::SYS_gettimeofday, tv as i64, tz as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn time(p: *mut libc::time_t) -> libc::time_t {
  let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
  clock_gettime(libc::CLOCK_REALTIME, &mut ts);
  if !p.is_null() {
    *p = ts.tv_sec;
  }
  ts.tv_sec
}

unsafe fn sleep_ns(ns: u64) {
  let deadline = NOW.load(Relaxed) + ns;
  with_world(|w| {
    w.note_blocking_sleep(ns);
    while let Some(t) = w.next_event_at() {
      if t > deadline {
        break;
      }
      NOW.store(t.max(NOW.load(Relaxed)), Relaxed);
      w.run_due();
    }
  });
  NOW.store(deadline.max(NOW.load(Relaxed)), Relaxed);
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
  if is_main() {
    sleep_ns((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
    return 0;
  }
  ret(raw(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, flags: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
  if is_main() {
    let v = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    let d = if flags & libc::TIMER_ABSTIME != 0 { v.saturating_sub(NOW.load(Relaxed)) } else { v };
    sleep_ns(d);
    return 0;
  }
  (-raw(libc::SYS_clock_nanosleep, clk as i64, flags as i64, req as i64, rem as i64, 0, 0)) as i32
}

// ---------------------------------------------------------------- randomness

unsafe fn fill(buf: *mut u8, len: usize) {
  let i = if role() == 1 { IN_WORLD.load(Relaxed) as usize } else { 2 };
  let mut local = 7u64;
  let s = if i < 2 { &mut (&mut *RNG.0.get())[i] } else { &mut local };
  for k in 0..len {
    // one draw per byte keeps the stream independent of request sizes
    *buf.add(k) = (splitmix(s) >> 24) as u8;
  }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, flags: u32) -> isize {
  if role() != 0 {
    fill(buf as *mut u8, len);
    return len as isize;
  }
  ret(raw(libc::SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
  if role() != 0 {
    if n == libc::SYS_getrandom {
      fill(a as *mut u8, b as usize);
      return b;
    }
    if n == libc::SYS_futex {
      let op = b as i32 & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
      match op {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
          // A helper's timed wait is its idle keep-alive: it never expires in a run.
          return ret(futex_wait(a as usize, c as u32, d != 0));
        }
        libc::FUTEX_WAKE => {
          let k = futex_wake(a as usize, c);
          let r = raw(n, a, b, c, d, e, f);
          return k + r.max(0);
        }
        _ => {}
      }
    }
  }
  ret(raw(n, a, b, c, d, e, f))
}

// ---------------------------------------------------------------- sockets

fn sim_fd(fd: i32) -> bool {
  is_main() && unsafe { (*WORLD.0.get()).as_ref().map_or(false, |w| w.owns(fd)) }
}

#[no_mangle]
pub unsafe extern "C" fn socket(domain: i32, ty: i32, proto: i32) -> i32 {
  if is_main() && (domain == libc::AF_INET || domain == libc::AF_INET6) && ty & 0xf == libc::SOCK_STREAM {
    if let Some(e) = with_world(|w| w.socket_fault()) {
      set_errno(e);
      return -1;
    }
    let fd = raw(libc::SYS_eventfd2, 0, (libc::EFD_CLOEXEC | libc::EFD_NONBLOCK) as i64, 0, 0, 0, 0);
    if fd < 0 {
      return ret(fd) as i32;
    }
    with_world(|w| w.sock_new(fd as i32, ty & libc::SOCK_NONBLOCK != 0));
    return fd as i32;
  }
  ret(raw(libc::SYS_socket, domain as i64, ty as i64, proto as i64, 0, 0, 0)) as i32
}

unsafe fn res(r: Result<usize, i32>) -> isize {
  match r {
    Ok(n) => n as isize,
    Err(e) => {
      set_errno(e);
      -1
    }
  }
}

#[no_mangle]
pub unsafe extern "C" fn connect(fd: i32, addr: *const libc::sockaddr, len: libc::socklen_t) -> i32 {
  if sim_fd(fd) {
    let a = match (*addr).sa_family as i32 {
      libc::AF_INET => {
        let s = &*(addr as *const libc::sockaddr_in);
        let ip = std::net::Ipv4Addr::from(u32::from_be(s.sin_addr.s_addr));
        std::net::SocketAddr::from((ip, u16::from_be(s.sin_port)))
      }
      _ => {
        let s = &*(addr as *const libc::sockaddr_in6);
        std::net::SocketAddr::from((std::net::Ipv6Addr::from(s.sin6_addr.s6_addr), u16::from_be(s.sin6_port)))
      }
    };
    return res(with_world(|w| w.connect(fd, a)).map(|_| 0)) as i32;
  }
  ret(raw(libc::SYS_connect, fd as i64, addr as i64, len as i64, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: i32, buf: *const libc::c_void, len: usize, flags: i32) -> isize {
  if sim_fd(fd) {
    let s = std::slice::from_raw_parts(buf as *const u8, len);
    return res(with_world(|w| w.send(fd, &[s])));
  }
  ret(raw(libc::SYS_sendto, fd as i64, buf as i64, len as i64, flags as i64, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: i32, msg: *const libc::msghdr, flags: i32) -> isize {
  if sim_fd(fd) {
    let v = std::slice::from_raw_parts((*msg).msg_iov, (*msg).msg_iovlen);
    let v: Vec<&[u8]> = v.iter().map(|x| std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len)).collect();
    return res(with_world(|w| w.send(fd, &v)));
  }
  ret(raw(libc::SYS_sendmsg, fd as i64, msg as i64, flags as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const libc::iovec, n: i32) -> isize {
  if sim_fd(fd) {
    let v = std::slice::from_raw_parts(iov, n as usize);
    let v: Vec<&[u8]> = v.iter().map(|x| std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len)).collect();
    return res(with_world(|w| w.send(fd, &v)));
  }
  ret(raw(libc::SYS_writev, fd as i64, iov as i64, n as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const libc::c_void, len: usize) -> isize {
  if sim_fd(fd) {
    let s = std::slice::from_raw_parts(buf as *const u8, len);
    return res(with_world(|w| w.send(fd, &[s])));
  }
  ret(raw(libc::SYS_write, fd as i64, buf as i64, len as i64, 0, 0, 0)) as isize
}

unsafe fn do_recv(fd: i32, buf: *mut libc::c_void, len: usize, peek: bool) -> isize {
  let s = std::slice::from_raw_parts_mut(buf as *mut u8, len);
  res(with_world(|w| w.recv(fd, s, peek)))
}

#[no_mangle]
pub unsafe extern "C" fn recv(fd: i32, buf: *mut libc::c_void, len: usize, flags: i32) -> isize {
  if sim_fd(fd) {
    return do_recv(fd, buf, len, flags & libc::MSG_PEEK != 0);
  }
  ret(raw(libc::SYS_recvfrom, fd as i64, buf as i64, len as i64, flags as i64, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut libc::c_void, len: usize) -> isize {
  if sim_fd(fd) {
    return do_recv(fd, buf, len, false);
  }
  ret(raw(libc::SYS_read, fd as i64, buf as i64, len as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, iov: *const libc::iovec, n: i32) -> isize {
  if sim_fd(fd) {
    let v = std::slice::from_raw_parts(iov, n as usize);
    let Some(first) = v.iter().find(|x| x.iov_len > 0) else {
      return 0;
    };
    let mut total = 0isize;
    let mut cur = Some(first);
    let mut i = v.iter().position(|x| x.iov_len > 0).unwrap();
    while let Some(x) = cur {
      let k = do_recv(fd, x.iov_base, x.iov_len, false);
      if k < 0 {
        return if total > 0 { total } else { k };
      }
      total += k;
      if (k as usize) < x.iov_len {
        break;
      }
      i += 1;
      cur = v.get(i);
    }
    return total;
  }
  ret(raw(libc::SYS_readv, fd as i64, iov as i64, n as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: i32, how: i32) -> i32 {
  if sim_fd(fd) {
    return res(with_world(|w| w.shutdown(fd, how)).map(|_| 0)) as i32;
  }
  ret(raw(libc::SYS_shutdown, fd as i64, how as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
  if sim_fd(fd) {
    with_world(|w| w.close(fd));
  }
  ret(raw(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: i32, level: i32, name: i32, val: *mut libc::c_void, len: *mut libc::socklen_t) -> i32 {
  if sim_fd(fd) {
    let v = if level == libc::SOL_SOCKET && name == libc::SO_ERROR { with_world(|w| w.so_error(fd)) } else { 0 };
    if *len >= 4 {
      *(val as *mut i32) = v;
      *len = 4;
    }
    return 0;
  }
  ret(raw(libc::SYS_getsockopt, fd as i64, level as i64, name as i64, val as i64, len as i64, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: i32, level: i32, name: i32, val: *const libc::c_void, len: libc::socklen_t) -> i32 {
  if sim_fd(fd) {
    return 0;
  }
  ret(raw(libc::SYS_setsockopt, fd as i64, level as i64, name as i64, val as i64, len as i64, 0)) as i32
}

unsafe fn fake_name(addr: *mut libc::sockaddr, len: *mut libc::socklen_t, a: std::net::SocketAddrV4) -> i32 {
  let mut s: libc::sockaddr_in = std::mem::zeroed();
  s.sin_family = libc::AF_INET as u16;
  s.sin_port = a.port().to_be();
  s.sin_addr.s_addr = u32::from(*a.ip()).to_be();
  let n = (*len as usize).min(std::mem::size_of_val(&s));
  std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, addr as *mut u8, n);
  *len = std::mem::size_of_val(&s) as u32;
  0
}

#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: i32, addr: *mut libc::sockaddr, len: *mut libc::socklen_t) -> i32 {
  if sim_fd(fd) {
    return match with_world(|w| w.peer(fd)) {
      Some(a) => fake_name(addr, len, a),
      None => {
        set_errno(libc::ENOTCONN);
        -1
      }
    };
  }
  ret(raw(libc::SYS_getpeername, fd as i64, addr as i64, len as i64, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: i32, addr: *mut libc::sockaddr, len: *mut libc::socklen_t) -> i32 {
  if sim_fd(fd) {
    return fake_name(addr, len, std::net::SocketAddrV4::new(std::net::Ipv4Addr::new(10, 0, 0, 1), 40000 + fd as u16));
  }
  ret(raw(libc::SYS_getsockname, fd as i64, addr as i64, len as i64, 0, 0, 0)) as i32
}

// ---------------------------------------------------------------- epoll

#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: i32, op: i32, fd: i32, ev: *mut libc::epoll_event) -> i32 {
  if sim_fd(fd) {
    let (events, data) = if ev.is_null() { (0, 0) } else { ((*ev).events, (*ev).u64) };
    return res(with_world(|w| w.epoll_ctl(op, fd, events, data)).map(|_| 0)) as i32;
  }
  ret(raw(libc::SYS_epoll_ctl, ep as i64, op as i64, fd as i64, ev as i64, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: i32, evs: *mut libc::epoll_event, max: i32, timeout: i32) -> i32 {
  if !is_main() {
    return ret(raw(libc::SYS_epoll_wait, ep as i64, evs as i64, max as i64, timeout as i64, 0, 0)) as i32;
  }
  PROGRESS.fetch_add(1, Relaxed);
  let start = NOW.load(Relaxed);
  let deadline = if timeout < 0 { u64::MAX } else { start + timeout as u64 * 1_000_000 };
  let out = std::slice::from_raw_parts_mut(evs, max as usize);
  loop {
    quiesce();
    let released = with_world(|w| {
      w.run_due();
      pump_dns(w)
    });
    if released {
      quiesce();
    }
    let mut n = with_world(|w| w.collect(out));
    if n < max as usize {
      let r = raw(libc::SYS_epoll_wait, ep as i64, evs.add(n) as i64, max as i64 - n as i64, 0, 0, 0);
      if r > 0 {
        n += r as usize;
      }
    }
    let now = NOW.load(Relaxed);
    if n > 0 || now >= deadline {
      if now > start {
        SPINS.store(0, Relaxed);
      } else if SPINS.fetch_add(1, Relaxed) > 400_000 {
        fatal("livelock: the event loop spins without time passing");
      }
      return n as i32;
    }
    let next = with_world(|w| w.next_event_at()).unwrap_or(u64::MAX).min(deadline);
    if next == u64::MAX {
      fatal("simulation quiescent with nothing left to wake it");
    }
    NOW.store(next.max(now), Relaxed);
  }
}

#[no_mangle]
pub unsafe extern "C" fn epoll_pwait(ep: i32, evs: *mut libc::epoll_event, max: i32, timeout: i32, _s: *const libc::c_void) -> i32 {
  epoll_wait(ep, evs, max, timeout)
}

// ---------------------------------------------------------------- name lookup

#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(node: *const libc::c_char, _service: *const libc::c_char, _hints: *const libc::addrinfo, out: *mut *mut libc::addrinfo) -> i32 {
  let host = if node.is_null() { String::new() } else { std::ffi::CStr::from_ptr(node).to_string_lossy().into_owned() };
  let r = match role() {
    2 => {
      let me = HELPER.with(|h| h.get());
      let h = &HS[me];
      lock();
      let l = &mut *LOOKUPS.0.get();
      let id = l.len();
      l.push(Lookup { helper: me, host, seen: false, done: None });
      h.dns_id.store(id as u64, SeqCst);
      h.wake.store(0, SeqCst);
      h.state.store(IN_DNS, SeqCst);
      unlock();
      block(h);
      lock();
      let r = (&mut *LOOKUPS.0.get())[id].done.clone().unwrap();
      unlock();
      r
    }
    1 => with_world(|w| w.dns_sync(host)),
    _ => Err(libc::EAI_FAIL),
  };
  match r {
    Err(e) => {
      if e == libc::EAI_SYSTEM {
        set_errno(libc::EIO);
      }
      e
    }
    Ok(addrs) => {
      let mut head: *mut libc::addrinfo = std::ptr::null_mut();
      for a in addrs.iter().rev() {
        let mut s: Box<libc::sockaddr_in> = Box::new(std::mem::zeroed());
        s.sin_family = libc::AF_INET as u16;
        s.sin_port = 0;
        s.sin_addr.s_addr = u32::from(*a.ip()).to_be();
        let mut ai: Box<libc::addrinfo> = Box::new(std::mem::zeroed());
        ai.ai_family = libc::AF_INET;
        ai.ai_socktype = libc::SOCK_STREAM;
        ai.ai_protocol = libc::IPPROTO_TCP;
        ai.ai_addrlen = std::mem::size_of::<libc::sockaddr_in>() as u32;
        ai.ai_addr = Box::into_raw(s) as *mut libc::sockaddr;
        ai.ai_next = head;
        head = Box::into_raw(ai);
      }
      *out = head;
      0
    }
  }
}

#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(mut p: *mut libc::addrinfo) {
  while !p.is_null() {
    let b = Box::from_raw(p);
    drop(Box::from_raw(b.ai_addr as *mut libc::sockaddr_in));
    p = b.ai_next;
  }
}
