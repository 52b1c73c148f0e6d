//! The simulated world around the client: network, name service, peers, faults.
//! Single-threaded, event-driven, with all choices taken from the plan.

use crate::plan::*;
use crate::sys;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};
use std::io::{Read, Write};
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4};
use std::sync::Arc;

pub fn us(ns: u64) -> u64 {
  ns / 1000
}

#[derive(Debug, Clone)]
enum Ev {
  Dial(usize, i32),
  SegC2S(usize, Vec<u8>),
  FinC2S(usize),
  SegS2C(usize, Vec<u8>, u64),
  FinS2C(usize),
  ErrS2C(usize, i32),
  Srv(usize),
  Resume(usize),
  LivePing(usize),
  LiveChat(usize),
  LiveReconnect(usize),
  TimedFault(usize, usize),
  Unstall(usize),
  Dns(usize),
  Wall(i64),
  Spur(i32),
}

struct Sock {
  conn: Option<usize>,
  connected: bool,
  failed: bool,
  err: i32,
  rx: std::collections::VecDeque<u8>,
  rx_fin: bool,
  dead: bool, // reset or timed out
  tx_shut: bool,
  reg: Option<(u32, u64)>,
  edge: bool,
  inflight: usize,
  cap: usize,
  blocked: bool,
}

/// Everything observable about one connection attempt.
#[derive(Default, Clone)]
pub struct ConnLog {
  pub at: u64,
  pub lookup: usize,
  pub addr: Option<SocketAddr>,
  pub established: Option<u64>,
  pub failed: Option<(u64, i32)>,
  pub tls_up: Option<u64>,
  /// application bytes decrypted by (or, without TLS, received by) the peer
  pub plain: Vec<u8>,
  pub plain_at: Vec<(u64, usize)>,
  /// raw bytes as seen on the wire
  pub raw: Vec<u8>,
  /// application bytes written by the server with the time they were written
  pub sent: Vec<u8>,
  pub sent_at: Vec<(u64, usize)>,
  /// (time, plaintext prefix) fully arrived in the client's kernel
  pub arrived: Vec<(u64, usize)>,
  /// time of the last arrival of any byte at the client
  pub last_rx: u64,
  /// end of stream as seen by the client's kernel: (time, errno; 0 = FIN)
  pub ended: Option<(u64, i32)>,
  pub close_notify: bool,
  pub corrupted: bool,
  pub client_closed: Option<u64>,
  pub client_fin: Option<u64>,
  pub server_reads_stalled: bool,
  pub peer_tls_error: Option<String>,
  pub max_blocked_us: u64,
  pub good_peer: bool,
  /// the certificate is not valid now, but a TLS session made while it was may be resumed
  pub doubtful: bool,
  /// which `connect` the connection belongs to
  pub epoch: u32,
  pub sni: Option<String>,
  /// arrivals at, and writes by, the client
  pub rx_at: Vec<u64>,
  pub tx_at: Vec<u64>,
  /// when the client's kernel has all of what the server put before its close_notify, and that
  pub close_notify_sent: Option<u64>,
  /// where in the server's raw stream a byte was changed
  pub corrupt_off: Option<u64>,
  /// a stall or silence without end began here
  pub dead_from: Option<u64>,
}

struct CState {
  plan: Conn,
  fd: Option<i32>,
  tls: Option<Box<rustls::ServerConnection>>,
  rx_hold: Vec<u8>, // received by kernel of the server but not read (stall)
  paused_until: u64,
  deaf: bool,
  pc: usize,
  sleeping: bool,
  line_buf: Vec<u8>,
  lines: u32,
  nick: Option<String>,
  s2c_off: u64,
  s2c_last: u64,
  c2s_off: u64,
  c2s_last: u64,
  stall_until: u64,
  giving_up: bool,
  held: Vec<Vec<u8>>,
  fin_sent: bool,
  rst: bool,
  chunk_i: usize,
  rng: Rng,
  fired: Vec<bool>,
  marks: Vec<(u64, usize)>,
  arr_off: u64,
  live: Option<(u64, u64, u64)>,
  live_n: u64,
  joined: Vec<String>,
  raw_replied: bool,
  corrupt_next: bool,
}

#[derive(Default, Clone)]
pub struct Stats {
  pub faults: BTreeMap<&'static str, u64>,
  pub probes: BTreeMap<&'static str, u64>,
}
impl Stats {
  pub fn fault(&mut self, k: &'static str) {
    *self.faults.entry(k).or_default() += 1;
  }
  pub fn probe(&mut self, k: &'static str) {
    *self.probes.entry(k).or_default() += 1;
  }
}

#[derive(Clone, Debug)]
pub struct LookupLog {
  pub at: u64,
  pub host: String,
  pub done: Option<u64>,
}

/// what the bot server saw
#[derive(Clone, Debug)]
pub struct LiveLog {
  pub at: u64,
  pub conn: usize,
  pub what: String,
}

pub struct World {
  pub plan: Arc<Plan>,
  /// number of `connect` calls so far, and the trust store the last one found
  pub epoch: u32,
  pub trust: Trust,
  tls_cfg: BTreeMap<(String, bool, u32), Arc<rustls::ServerConfig>>,
  q: BinaryHeap<Reverse<(u64, u64)>>,
  evs: BTreeMap<u64, Ev>,
  seq: u64,
  socks: BTreeMap<i32, Sock>,
  cs: Vec<CState>,
  pub logs: Vec<ConnLog>,
  pub lookups: Vec<LookupLog>,
  pub live: Vec<LiveLog>,
  dns_done: Vec<(usize, Result<Vec<SocketAddrV4>, i32>)>,
  dns_map: Vec<usize>,
  pub stats: Stats,
  pub hash: u64,
  pub nsockets: u32,
  pub steps: u64,
  pub blocking_sleeps: u64,
  pub bad: Vec<String>,
  /// how many connections, lookups and sockets belong to the neighbour; None while it is connecting
  pub base: Option<(usize, usize, u32)>,
}

fn pem_certs(s: &str) -> Vec<rustls::Certificate> {
  rustls_pemfile::certs(&mut s.as_bytes()).unwrap().into_iter().map(rustls::Certificate).collect()
}
fn cert_pem(name: &str) -> (&'static str, &'static str) {
  macro_rules! c {
    ($($n:literal),*) => { match name { $($n => (include_str!(concat!("../certs/", $n, ".pem")), include_str!(concat!("../certs/", $n, ".key"))),)* _ => panic!("no cert {name}") } };
  }
  c!("good", "wild", "year", "expired", "future", "wrongname", "parent", "untrusted", "viagood", "other")
}
pub const GOOD_CERTS: &[&str] = &["good", "wild"];
pub const BAD_CERTS: &[&str] = &["expired", "future", "wrongname", "parent", "untrusted", "viagood", "other"];

pub const ADDR_NET: [u8; 3] = [203, 0, 113];

impl World {
  pub fn new(plan: Arc<Plan>) -> World {
    let base = if plan.neighbour.is_some() { None } else { Some((0, 0, 0)) };
    let mut w = World {
      plan,
      epoch: 0,
      trust: Trust::Good,
      base,
      tls_cfg: BTreeMap::new(),
      q: BinaryHeap::new(),
      evs: BTreeMap::new(),
      seq: 0,
      socks: BTreeMap::new(),
      cs: vec![],
      logs: vec![],
      lookups: vec![],
      live: vec![],
      dns_done: vec![],
      dns_map: vec![],
      stats: Stats::default(),
      hash: 0xcbf29ce484222325,
      nsockets: 0,
      steps: 0,
      blocking_sleeps: 0,
      bad: vec![],
    };
    for (at, by) in w.plan.clock_jumps.clone() {
      w.at(at * 1000, Ev::Wall(by));
    }
    w
  }

  fn note(&mut self, tag: u64, a: u64, b: u64) {
    for x in [tag, a, b] {
      self.hash ^= x.wrapping_mul(0x9E3779B97F4A7C15);
      self.hash = self.hash.rotate_left(23).wrapping_mul(0x100000001b3);
    }
  }
  pub fn note_str(&mut self, tag: u64, s: &str) {
    let mut h = 0u64;
    for b in s.bytes() {
      h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    self.note(tag, h, s.len() as u64);
  }

  /// ns since start of the run
  fn now(&self) -> u64 {
    sys::now_ns()
  }
  fn at(&mut self, t: u64, e: Ev) {
    self.seq += 1;
    self.q.push(Reverse((t, self.seq)));
    self.evs.insert(self.seq, e);
  }
  pub fn next_event_at(&self) -> Option<u64> {
    self.q.peek().map(|Reverse((t, _))| *t + sys::MONO_BASE)
  }
  pub fn run_due(&mut self) {
    let now = self.now();
    while let Some(&Reverse((t, s))) = self.q.peek() {
      if t > now {
        break;
      }
      self.q.pop();
      let e = self.evs.remove(&s).unwrap();
      self.steps += 1;
      self.handle(e);
    }
  }
  pub fn note_blocking_sleep(&mut self, ns: u64) {
    self.blocking_sleeps += ns;
  }

  // ------------------------------------------------------------ name lookup

  fn dns_plan(&self, n: usize) -> Dns {
    let b = self.base.map_or(usize::MAX, |b| b.1);
    if n < b { None } else { self.plan.dns.get(n - b).cloned() }.unwrap_or(Dns::Ok { delay_us: 1000, addrs: 1 })
  }
  fn conn_plan(&self, i: usize) -> Conn {
    let b = self.base.map_or(usize::MAX, |b| b.0);
    if i < b { self.plan.neighbour.as_ref().and_then(|n| n.conns.get(i).cloned()) } else { self.plan.conns.get(i - b).cloned().or_else(|| self.plan.tail.as_ref().map(|b| (**b).clone())) }.unwrap_or_else(Conn::healthy)
  }
  /// What the neighbour begins from here on is the main client's.
  pub fn neighbour_done(&mut self) {
    self.base.get_or_insert((self.logs.len(), self.lookups.len(), self.nsockets));
  }
  /// Splits what the neighbour did off, so that both histories can be judged alone.
  pub fn split(&mut self) -> Box<World> {
    let b = self.base.unwrap_or((0, 0, 0));
    let mut w = World::new(Arc::new(self.plan.neighbour.as_deref().cloned().unwrap_or_default()));
    w.logs = self.logs.drain(..b.0.min(self.logs.len())).collect();
    w.lookups = self.lookups.drain(..b.1.min(self.lookups.len())).collect();
    self.logs.iter_mut().for_each(|l| l.lookup -= b.1);
    self.live.retain(|l| l.conn >= b.0);
    self.live.iter_mut().for_each(|l| l.conn -= b.0);
    Box::new(w)
  }
  pub fn dns_query(&mut self, id: usize, host: String) {
    let n = self.lookups.len();
    let d = self.dns_plan(n);
    let now = self.now();
    self.lookups.push(LookupLog { at: now, host, done: None });
    self.note(1, now, n as u64);
    while self.dns_map.len() <= id {
      self.dns_map.push(usize::MAX);
    }
    self.dns_map[id] = n;
    let t = match d {
      Dns::Ok { delay_us, .. } => Some(delay_us),
      Dns::Err { delay_us, .. } => Some(delay_us),
      Dns::Never => None,
    };
    if matches!(d, Dns::Err { .. }) {
      self.stats.fault("dns_error");
    }
    if matches!(d, Dns::Never) {
      self.stats.fault("dns_blackhole");
    }
    if let Some(t) = t {
      if t > 1_000_000 {
        self.stats.fault("dns_slow");
      }
      self.at(now + t * 1000, Ev::Dns(id));
    }
  }
  fn dns_answer(&mut self, n: usize, host: &str) -> Result<Vec<SocketAddrV4>, i32> {
    if host != tmi_host() {
      // any other host resolves to a foreign network
      return Ok(vec![SocketAddrV4::new(Ipv4Addr::new(198, 51, 100, 7), 0)]);
    }
    match self.dns_plan(n) {
      Dns::Ok { addrs, .. } => Ok((0..addrs.max(1)).map(|i| SocketAddrV4::new(Ipv4Addr::new(ADDR_NET[0], ADDR_NET[1], ADDR_NET[2], 1 + i), 0)).collect()),
      Dns::Err { code, .. } => Err(code),
      Dns::Never => Err(libc::EAI_AGAIN),
    }
  }
  pub fn dns_sync(&mut self, host: String) -> Result<Vec<SocketAddrV4>, i32> {
    let n = self.lookups.len();
    let now = self.now();
    self.lookups.push(LookupLog { at: now, host: host.clone(), done: Some(now) });
    self.dns_answer(n, &host)
  }
  pub fn take_dns_results(&mut self) -> Vec<(usize, Result<Vec<SocketAddrV4>, i32>)> {
    std::mem::take(&mut self.dns_done)
  }

  // ------------------------------------------------------------ sockets (client side)

  pub fn owns(&self, fd: i32) -> bool {
    self.socks.contains_key(&fd)
  }
  pub fn open_sockets(&self) -> usize {
    self.socks.len()
  }
  /// connection indices of sockets the client still holds
  pub fn open_conns(&self) -> Vec<usize> {
    let b = self.base.map_or(usize::MAX, |b| b.0);
    self.socks.values().filter_map(|s| s.conn).filter(|&c| c >= b).map(|c| c - b).collect()
  }
  pub fn neighbours_conns(&self) -> Vec<usize> {
    let b = self.base.map_or(usize::MAX, |b| b.0);
    self.socks.values().filter_map(|s| s.conn).filter(|&c| c < b).collect()
  }
  /// connections and lookups begun so far by the main client, or by its neighbour
  pub fn counts(&self, neighbour: bool) -> (usize, usize) {
    let (c, l) = (self.logs.len(), self.lookups.len());
    let b = self.base.map_or((c, l), |b| (b.0, b.1));
    if neighbour {
      b
    } else {
      (c - b.0, l - b.1)
    }
  }
  pub fn socket_fault(&mut self) -> Option<i32> {
    let b = self.base?.2;
    let n = self.nsockets - b;
    let e = self.plan.socket_errs.iter().find(|x| x.0 == n).map(|x| x.1);
    if e.is_some() {
      self.nsockets += 1;
      self.stats.fault("socket_error");
      let now = self.now();
      let lookup = self.lookups.len();
      self.logs.push(ConnLog { at: now, lookup, failed: Some((now, e.unwrap())), ..Default::default() });
      let c = Conn::healthy();
      self.push_cs(c);
    }
    e
  }
  pub fn sock_new(&mut self, fd: i32, nonblock: bool) {
    self.nsockets += 1;
    if !nonblock {
      self.bad.push("blocking socket created".into());
    }
    self.socks.insert(fd, Sock { conn: None, connected: false, failed: false, err: 0, rx: Default::default(), rx_fin: false, dead: false, tx_shut: false, reg: None, edge: false, inflight: 0, cap: 65536, blocked: false });
  }
  fn push_cs(&mut self, plan: Conn) -> usize {
    let rng = Rng::new(plan.net.seed ^ 0xABCD);
    let fired = vec![false; plan.faults.len()];
    self.cs.push(CState {
      plan,
      fd: None,
      tls: None,
      rx_hold: vec![],
      paused_until: 0,
      deaf: false,
      pc: 0,
      sleeping: false,
      line_buf: vec![],
      lines: 0,
      nick: None,
      s2c_off: 0,
      s2c_last: 0,
      c2s_off: 0,
      c2s_last: 0,
      stall_until: 0,
      giving_up: false,
      held: vec![],
      fin_sent: false,
      rst: false,
      chunk_i: 0,
      rng,
      fired,
      marks: vec![],
      arr_off: 0,
      live: None,
      live_n: 0,
      joined: vec![],
      raw_replied: false,
      corrupt_next: false,
    });
    self.cs.len() - 1
  }
  pub fn connect(&mut self, fd: i32, addr: SocketAddr) -> Result<(), i32> {
    let s = self.socks.get_mut(&fd).unwrap();
    if s.conn.is_some() {
      return Err(if s.connected { libc::EISCONN } else { libc::EALREADY });
    }
    let idx = self.cs.len();
    let cp = self.conn_plan(idx);
    let s = self.socks.get_mut(&fd).unwrap();
    s.conn = Some(idx);
    s.cap = (cp.net.sndbuf as usize).max(1);
    let now = self.now();
    let right = addr.port() == 6697 && matches!(addr.ip(), std::net::IpAddr::V4(a) if a.octets()[..3] == ADDR_NET);
    let valid = right && matches!(&cp.peer, Peer::Tls { cert, .. } if self.cert_ok(cert));
    let resumable = right && matches!(&cp.peer, Peer::Tls { cert, .. } if self.cs.iter().zip(&self.logs).any(|(c, l)| l.epoch == self.epoch && l.good_peer && l.tls_up.is_some() && matches!(&c.plan.peer, Peer::Tls { cert: o, .. } if o == cert)));
    let good_peer = valid || resumable;
    self.logs.push(ConnLog { at: now, lookup: self.lookups.len(), addr: Some(addr), good_peer, doubtful: resumable && !valid || matches!(self.trust, Trust::Torn | Trust::Odd), epoch: self.epoch, ..Default::default() });
    self.note(2, now, idx as u64);
    let dial = cp.dial.clone();
    let faults = cp.faults.clone();
    self.push_cs(cp);
    self.cs[idx].fd = Some(fd);
    let _ = faults;
    if !right {
      // nobody listens elsewhere
      self.at(now + 1_000_000, Ev::Dial(idx, libc::ECONNREFUSED));
      return Err(libc::EINPROGRESS);
    }
    match dial {
      Dial::Ok { us } => {
        let t = self.through(now, now + us * 1000);
        self.at(t, Ev::Dial(idx, 0));
        Err(libc::EINPROGRESS)
      }
      Dial::Fail { us, errno } => {
        self.stats.fault(match errno {
          libc::ECONNREFUSED => "connect_refused",
          libc::ECONNRESET => "connect_reset",
          libc::ETIMEDOUT => "connect_timedout",
          _ => "connect_unreachable",
        });
        self.at(now + us * 1000, Ev::Dial(idx, errno));
        Err(libc::EINPROGRESS)
      }
      Dial::Instant { errno } => {
        self.stats.fault("connect_instant_error");
        let s = self.socks.get_mut(&fd).unwrap();
        s.failed = true;
        self.logs[idx].failed = Some((now, errno));
        Err(errno)
      }
      Dial::Blackhole => {
        self.stats.fault("connect_blackhole");
        // the kernel gives up after about 127 s
        self.at(now + 127_000_000_000, Ev::Dial(idx, libc::ETIMEDOUT));
        Err(libc::EINPROGRESS)
      }
    }
  }
  /// Is the certificate acceptable for the chat host at the current wall clock?
  /// a certificate whose validity changes while it is being looked at
  fn doubt(&mut self, i: usize) {
    let l = &self.logs[i];
    if l.tls_up.is_some() || l.client_closed.is_some() || l.doubtful || !l.addr.is_some_and(|a| a.port() == 6697 && a.ip().to_string().starts_with("203.0.113.")) {
      return;
    }
    let Peer::Tls { cert, .. } = &self.cs[i].plan.peer else { return };
    if self.cert_ok(cert) != l.good_peer && l.epoch == self.epoch {
      self.logs[i].doubtful = true;
      self.logs[i].good_peer = true;
    }
  }
  fn cert_ok(&self, cert: &str) -> bool {
    match (cert, self.trust) {
      ("other", t) => return matches!(t, Trust::Other | Trust::Both),
      (_, Trust::Directory | Trust::Empty | Trust::Other) => return false,
      _ => {}
    }
    let wall = (sys::NOW.load(std::sync::atomic::Ordering::Relaxed).wrapping_add(sys::WALL.load(std::sync::atomic::Ordering::Relaxed))) / 1_000_000_000;
    match cert {
      "good" | "wild" => (946_771_200..=7_195_046_400).contains(&wall),
      "year" => (1_685_577_600..=1_717_200_000).contains(&wall),
      "expired" => (978_307_200..=1_009_843_200).contains(&wall),
      "future" => (4_102_444_800..=4_417_977_600).contains(&wall),
      _ => false,
    }
  }
  /// Delay of a packet that leaves at `now` and would arrive at `t`, given outages.
  fn through(&mut self, now: u64, t: u64) -> u64 {
    let mut t = t;
    let parts = self.plan.partitions.clone();
    for (a, l) in parts {
      let (a, b) = (a * 1000, (a + l) * 1000);
      if (now >= a && now < b) || (t >= a && t < b) {
        self.stats.fault("partition_hit");
        t = t.max(b) + 5_000_000;
      }
    }
    t
  }
  fn mask(&self, fd: i32) -> u32 {
    let s = &self.socks[&fd];
    let mut m = 0;
    if s.failed {
      return (libc::EPOLLIN | libc::EPOLLOUT | libc::EPOLLERR | libc::EPOLLHUP | libc::EPOLLRDHUP) as u32;
    }
    if !s.connected {
      return 0;
    }
    if !s.rx.is_empty() || s.rx_fin || s.dead {
      m |= libc::EPOLLIN;
    }
    if s.rx_fin || s.dead {
      m |= libc::EPOLLRDHUP;
    }
    if s.dead {
      m |= libc::EPOLLHUP;
    }
    if s.err != 0 {
      m |= libc::EPOLLERR;
    }
    if s.inflight < s.cap || s.dead {
      m |= libc::EPOLLOUT;
    }
    if s.rx_fin && s.tx_shut {
      m |= libc::EPOLLHUP;
    }
    m as u32
  }
  pub fn epoll_ctl(&mut self, op: i32, fd: i32, events: u32, data: u64) -> Result<(), i32> {
    let s = self.socks.get_mut(&fd).unwrap();
    match op {
      libc::EPOLL_CTL_DEL => s.reg = None,
      _ => {
        s.reg = Some((events, data));
        s.edge = true;
      }
    }
    Ok(())
  }
  pub fn collect(&mut self, out: &mut [libc::epoll_event]) -> usize {
    let mut n = 0;
    let fds: Vec<i32> = self.socks.keys().copied().collect();
    for fd in fds {
      if n >= out.len() {
        break;
      }
      let m = self.mask(fd);
      let s = self.socks.get_mut(&fd).unwrap();
      let Some((ev, data)) = s.reg else { continue };
      let always = (libc::EPOLLERR | libc::EPOLLHUP) as u32;
      let r = m & (ev | always);
      let et = ev & libc::EPOLLET as u32 != 0;
      if r != 0 && (s.edge || !et) {
        s.edge = false;
        out[n] = libc::epoll_event { events: r, u64: data };
        n += 1;
      }
    }
    n
  }
  fn edge(&mut self, fd: Option<i32>) {
    if let Some(s) = fd.and_then(|fd| self.socks.get_mut(&fd)) {
      s.edge = true;
    }
  }
  pub fn so_error(&mut self, fd: i32) -> i32 {
    let s = self.socks.get_mut(&fd).unwrap();
    std::mem::take(&mut s.err)
  }
  pub fn peer(&self, fd: i32) -> Option<SocketAddrV4> {
    let s = &self.socks[&fd];
    if !s.connected {
      return None;
    }
    match self.logs[s.conn?].addr? {
      SocketAddr::V4(a) => Some(a),
      _ => None,
    }
  }
  pub fn send(&mut self, fd: i32, bufs: &[&[u8]]) -> Result<usize, i32> {
    let r = self.send_(fd, bufs);
    if trace() {
      eprintln!("{} send fd {fd} {} -> {r:?}", self.now(), bufs.iter().map(|b| b.len()).sum::<usize>());
    }
    r
  }
  fn send_(&mut self, fd: i32, bufs: &[&[u8]]) -> Result<usize, i32> {
    let now = self.now();
    let s = self.socks.get_mut(&fd).unwrap();
    if s.err != 0 {
      return Err(std::mem::take(&mut s.err));
    }
    if s.dead || s.tx_shut {
      self.stats.probe("write_epipe");
      return Err(libc::EPIPE);
    }
    if !s.connected {
      return Err(if s.failed { libc::EPIPE } else { libc::EAGAIN });
    }
    let idx = s.conn.unwrap();
    let total: usize = bufs.iter().map(|b| b.len()).sum();
    let n = total.min(s.cap - s.inflight.min(s.cap));
    if n < total {
      s.blocked = true;
    }
    if n == 0 && total > 0 {
      self.stats.probe("send_eagain");
      return Err(libc::EAGAIN);
    }
    if n < total {
      self.stats.fault("short_write");
    }
    s.inflight += n;
    let mut data = Vec::with_capacity(n);
    for b in bufs {
      let k = b.len().min(n - data.len());
      data.extend_from_slice(&b[..k]);
    }
    self.logs[idx].raw.extend_from_slice(&data);
    self.logs[idx].tx_at.push(now);
    self.note(3, now, n as u64);
    self.c2s(idx, data);
    Ok(n)
  }
  fn c2s(&mut self, idx: usize, data: Vec<u8>) {
    let now = self.now();
    let c = &mut self.cs[idx];
    let lat = c.plan.net.lat_us + if c.plan.net.jit_us > 0 { c.rng.n(c.plan.net.jit_us + 1) } else { 0 };
    let t = now + lat * 1000;
    let t = self.through(now, t);
    let c = &mut self.cs[idx];
    let t = t.max(c.c2s_last);
    c.c2s_last = t;
    self.at(t, Ev::SegC2S(idx, data));
  }
  pub fn recv(&mut self, fd: i32, buf: &mut [u8], peek: bool) -> Result<usize, i32> {
    let r = self.recv_(fd, buf, peek);
    if trace() {
      eprintln!("{} recv fd {fd} {} -> {r:?}", self.now(), buf.len());
    }
    r
  }
  fn recv_(&mut self, fd: i32, buf: &mut [u8], peek: bool) -> Result<usize, i32> {
    let now = self.now();
    let s = self.socks.get_mut(&fd).unwrap();
    if !s.rx.is_empty() {
      let n = buf.len().min(s.rx.len());
      if peek {
        for (d, x) in buf.iter_mut().zip(s.rx.iter()) {
          *d = *x;
        }
        return Ok(n);
      }
      for (i, b) in s.rx.drain(..n).enumerate() {
        buf[i] = b;
      }
      self.note(4, now, n as u64);
      return Ok(n);
    }
    if buf.is_empty() {
      return Ok(0);
    }
    if s.rx_fin {
      return Ok(0);
    }
    if s.err != 0 {
      return Err(std::mem::take(&mut s.err));
    }
    if s.dead {
      return Ok(0);
    }
    if s.failed {
      return Err(libc::ENOTCONN);
    }
    Err(libc::EAGAIN)
  }
  pub fn shutdown(&mut self, fd: i32, how: i32) -> Result<(), i32> {
    let now = self.now();
    let s = self.socks.get_mut(&fd).unwrap();
    if !s.connected || s.dead {
      return Err(libc::ENOTCONN);
    }
    if how != libc::SHUT_RD && !s.tx_shut {
      s.tx_shut = true;
      let idx = s.conn.unwrap();
      self.logs[idx].client_fin.get_or_insert(now);
      let t = self.cs[idx].c2s_last.max(now + self.cs[idx].plan.net.lat_us * 1000);
      self.at(t, Ev::FinC2S(idx));
    }
    Ok(())
  }
  pub fn close(&mut self, fd: i32) {
    let now = self.now();
    let s = self.socks.remove(&fd).unwrap();
    if let Some(idx) = s.conn {
      self.doubt(idx);
      self.logs[idx].client_closed = Some(now);
      self.note(5, now, idx as u64);
      self.cs[idx].fd = None;
      if s.connected && !s.tx_shut && !s.dead {
        let t = self.cs[idx].c2s_last.max(now + self.cs[idx].plan.net.lat_us * 1000);
        self.at(t, Ev::FinC2S(idx));
      }
    }
  }

  // ------------------------------------------------------------ events

  fn handle(&mut self, e: Ev) {
    let now = self.now();
    if trace() {
      let mut t = format!("{e:?}");
      t.truncate(40);
      eprintln!("{now} {t}");
    }
    match e {
      Ev::Dns(id) => {
        let n = self.dns_map[id];
        self.lookups[n].done = Some(now);
        let host = self.lookups[n].host.clone();
        let r = self.dns_answer(n, &host);
        self.note(6, now, n as u64);
        self.dns_done.push((id, r));
      }
      Ev::Wall(by) => {
        self.stats.fault("clock_jump");
        let w = &sys::WALL;
        let v = w.load(std::sync::atomic::Ordering::Relaxed);
        w.store(v.wrapping_add((by as i128 * 1_000_000_000) as u64), std::sync::atomic::Ordering::Relaxed);
        (0..self.logs.len()).for_each(|i| self.doubt(i));
      }
      Ev::Spur(fd) => {
        self.edge(Some(fd));
      }
      Ev::Dial(idx, errno) => {
        self.note(7, now, errno as u64);
        let Some(fd) = self.cs[idx].fd else { return };
        let s = self.socks.get_mut(&fd).unwrap();
        if s.connected || s.failed {
          return;
        }
        if errno != 0 {
          s.failed = true;
          s.err = errno;
          self.logs[idx].failed = Some((now, errno));
        } else {
          s.connected = true;
          self.logs[idx].established = Some(now);
          let f: Vec<(usize, u64)> = self.cs[idx].plan.faults.iter().enumerate().filter_map(|(i, f)| if let At::Us(t) = f.at { Some((i, t)) } else { None }).collect();
          for (i, t) in f {
            self.at(now + t * 1000, Ev::TimedFault(idx, i));
          }
          if self.cs[idx].plan.net.spurious {
            for k in 1..20u64 {
              let d = self.cs[idx].rng.n(40_000) * 1000 * k;
              self.at(now + d, Ev::Spur(fd));
            }
            self.stats.fault("spurious_readiness");
          }
          if let Peer::Tls { cert, v12 } = self.cs[idx].plan.peer.clone() {
            let cfg = self.server_config(&cert, v12);
            let mut c = rustls::ServerConnection::new(cfg).unwrap();
            c.set_buffer_limit(None);
            self.cs[idx].tls = Some(Box::new(c));
            if !matches!(cert.as_str(), "good" | "wild") {
              self.stats.fault("bad_certificate");
            }
          } else {
            self.stats.fault(match self.cs[idx].plan.peer {
              Peer::Plain => "peer_plaintext",
              Peer::Mute => "peer_mute",
              _ => "peer_garbage",
            });
          }
          self.fire_s2c(idx);
        }
        self.edge(Some(fd));
      }
      Ev::TimedFault(idx, i) => {
        if !self.cs[idx].fired[i] {
          self.cs[idx].fired[i] = true;
          let w = self.cs[idx].plan.faults[i].what.clone();
          self.fault(idx, w);
        }
      }
      Ev::Unstall(idx) => {
        let c = &mut self.cs[idx];
        if c.stall_until > now {
          return;
        }
        let held = std::mem::take(&mut c.held);
        for h in held {
          self.c2s(idx, h);
        }
        self.srv_read(idx);
      }
      Ev::SegC2S(idx, data) => {
        self.note(8, now, data.len() as u64);
        if self.cs[idx].rst {
          return;
        }
        if self.cs[idx].stall_until > now {
          // packet held by the stalled network
          self.cs[idx].held.push(data);
          if self.cs[idx].stall_until > u64::MAX / 8 && !self.cs[idx].giving_up {
            // nothing is acknowledged any more: the kernel gives up after its retransmissions (about 15 minutes)
            self.cs[idx].giving_up = true;
            self.at(now + 924_600_000_000, Ev::ErrS2C(idx, libc::ETIMEDOUT));
          }
          return;
        }
        if self.cs[idx].fin_sent {
          // the peer has closed: its kernel answers with a reset
          self.stats.probe("write_after_fin");
          self.rst(idx);
          return;
        }
        let c = &mut self.cs[idx];
        c.rx_hold.extend_from_slice(&data);
        c.c2s_off += data.len() as u64;
        let off = c.c2s_off;
        let due: Vec<usize> = (0..c.fired.len()).filter(|&i| !c.fired[i] && matches!(c.plan.faults[i].at, At::C2s(k) if k <= off)).collect();
        for i in due {
          self.cs[idx].fired[i] = true;
          let w = self.cs[idx].plan.faults[i].what.clone();
          self.fault(idx, w);
        }
        self.srv_read(idx);
      }
      Ev::FinC2S(idx) => {
        self.note(9, now, idx as u64);
      }
      Ev::Resume(idx) => {
        self.srv_read(idx);
      }
      Ev::SegS2C(idx, data, _) => {
        self.note(10, now, data.len() as u64);
        let c = &mut self.cs[idx];
        c.arr_off += data.len() as u64;
        let off = c.arr_off;
        let fd = c.fd;
        let upto = c.marks.iter().take_while(|m| m.0 <= off).last().map(|m| m.1);
        if let Some(s) = fd.and_then(|fd| self.socks.get_mut(&fd)) {
          if s.dead {
            return;
          }
          s.rx.extend(data);
          let l = &mut self.logs[idx];
          l.last_rx = now;
          l.rx_at.push(now);
          if let Some(u) = upto {
            if l.arrived.last().map_or(0, |x| x.1) < u {
              l.arrived.push((now, u));
            }
          }
          self.edge(fd);
        }
      }
      Ev::FinS2C(idx) => {
        let fd = self.cs[idx].fd;
        self.note(11, now, idx as u64);
        if let Some(s) = fd.and_then(|fd| self.socks.get_mut(&fd)) {
          if !s.dead && !s.rx_fin {
            s.rx_fin = true;
            self.logs[idx].rx_at.push(now);
            self.logs[idx].ended.get_or_insert((now, 0));
            self.edge(fd);
          }
        }
      }
      Ev::ErrS2C(idx, errno) => {
        let fd = self.cs[idx].fd;
        self.note(12, now, errno as u64);
        self.cs[idx].rst = true;
        if let Some(s) = fd.and_then(|fd| self.socks.get_mut(&fd)) {
          if !s.dead {
            s.dead = true;
            s.err = if s.rx_fin && errno == libc::ECONNRESET { libc::EPIPE } else { errno };
            self.logs[idx].rx_at.push(now);
            self.logs[idx].ended.get_or_insert((now, errno));
            self.edge(fd);
          }
        }
      }
      Ev::Srv(idx) => {
        self.cs[idx].sleeping = false;
        self.step(idx);
      }
      Ev::LivePing(idx) => {
        if let Some((p, _, _)) = self.cs[idx].live {
          if !self.cs[idx].fin_sent && !self.cs[idx].rst {
            self.cs[idx].live_n += 1;
            let n = self.cs[idx].live_n;
            self.live.push(LiveLog { at: now, conn: idx, what: format!("ping:{idx}-{n}") });
            self.put(idx, format!("PING :{idx}-{n}\r\n").as_bytes());
            self.at(now + p * 1000, Ev::LivePing(idx));
          }
        }
      }
      Ev::LiveChat(idx) => {
        if let Some((_, p, _)) = self.cs[idx].live {
          if !self.cs[idx].fin_sent && !self.cs[idx].rst {
            self.cs[idx].live_n += 1;
            let n = self.cs[idx].live_n;
            let joined = self.cs[idx].joined.clone();
            for ch in joined {
              self.live.push(LiveLog { at: now, conn: idx, what: format!("chat:{idx}-{n}-{ch}") });
              self.put(
                idx,
                format!("@badge-info=;badges=;color=;display-name=V;emotes=;id=m{idx}-{n};mod=0;room-id=1;subscriber=0;tmi-sent-ts=1700000000000;turbo=0;user-id=2;user-type= :v!v@v.tmi.twitch.tv PRIVMSG {ch} :live {idx}-{n}\r\n")
                  .as_bytes(),
              );
            }
            self.at(now + p * 1000, Ev::LiveChat(idx));
          }
        }
      }
      Ev::LiveReconnect(idx) => {
        if self.cs[idx].live.is_some() && !self.cs[idx].fin_sent && !self.cs[idx].rst {
          self.stats.fault("server_reconnect_request");
          self.put(idx, b":tmi.twitch.tv RECONNECT\r\n");
          self.cs[idx].live = None;
        }
      }
    }
  }

  fn fault(&mut self, idx: usize, w: What) {
    let now = self.now();
    match w {
      What::Fin => {
        self.stats.fault("fin");
        self.fin(idx);
      }
      What::Rst => {
        self.stats.fault("rst");
        self.rst(idx);
      }
      What::Errno(e) => {
        self.stats.fault(match e {
          libc::ETIMEDOUT => "etimedout",
          libc::EHOSTUNREACH => "ehostunreach",
          _ => "transport_errno",
        });
        let c = &mut self.cs[idx];
        c.fin_sent = true;
        c.rst = true;
        let t = c.s2c_last.max(now);
        self.at(t, Ev::ErrS2C(idx, e));
      }
      What::Stall(d) => {
        self.stats.fault("stall");
        let c = &mut self.cs[idx];
        let until = if d == u64::MAX { u64::MAX / 4 } else { now + d * 1000 };
        if d == u64::MAX {
          self.logs[idx].dead_from.get_or_insert(now);
        }
        c.stall_until = c.stall_until.max(until);
        if d != u64::MAX {
          self.at(until, Ev::Unstall(idx));
        }
      }
      What::Corrupt => {
        self.stats.fault("corrupt");
        self.logs[idx].corrupted = true;
        self.cs[idx].corrupt_next = true;
      }
      What::Deaf => {
        self.stats.fault("deaf_peer");
        self.cs[idx].deaf = true;
        self.logs[idx].server_reads_stalled = true;
      }
    }
  }
  fn fin(&mut self, idx: usize) {
    let now = self.now();
    let c = &mut self.cs[idx];
    if c.fin_sent || c.rst {
      return;
    }
    if !c.rx_hold.is_empty() {
      // a close with unread data resets the connection
      return self.rst(idx);
    }
    c.fin_sent = true;
    let t = c.s2c_last.max(now + c.plan.net.lat_us * 1000).max(c.stall_until);
    c.s2c_last = t;
    if t < u64::MAX / 8 {
      self.at(t, Ev::FinS2C(idx));
    }
  }
  fn rst(&mut self, idx: usize) {
    let now = self.now();
    let c = &mut self.cs[idx];
    if c.rst {
      return;
    }
    c.fin_sent = true;
    c.rst = true;
    let t = c.s2c_last.max(now + c.plan.net.lat_us * 1000).max(c.stall_until);
    c.s2c_last = t;
    if t < u64::MAX / 8 {
      self.at(t, Ev::ErrS2C(idx, libc::ECONNRESET));
    }
  }

  // ------------------------------------------------------------ server side

  fn server_config(&mut self, cert: &str, v12: bool) -> Arc<rustls::ServerConfig> {
    let key = (cert.to_string(), v12, 0);
    if let Some(c) = self.tls_cfg.get(&key) {
      return c.clone();
    }
    let (pem, keypem) = cert_pem(cert);
    let k = rustls_pemfile::pkcs8_private_keys(&mut keypem.as_bytes()).unwrap().remove(0);
    let versions: &[&rustls::SupportedProtocolVersion] = if v12 { &[&rustls::version::TLS12] } else { &[&rustls::version::TLS13, &rustls::version::TLS12] };
    let cfg = rustls::ServerConfig::builder().with_safe_default_cipher_suites().with_safe_default_kx_groups().with_protocol_versions(versions).unwrap().with_no_client_auth().with_single_cert(pem_certs(pem), rustls::PrivateKey(k)).unwrap();
    let cfg = Arc::new(cfg);
    self.tls_cfg.insert(key, cfg.clone());
    cfg
  }

  fn srv_read(&mut self, idx: usize) {
    let now = self.now();
    {
      let c = &self.cs[idx];
      if c.deaf || c.paused_until > now || c.stall_until > now {
        return;
      }
    }
    let data = std::mem::take(&mut self.cs[idx].rx_hold);
    if data.is_empty() {
      self.step(idx);
      return;
    }
    // free the client's send buffer
    let fd = self.cs[idx].fd;
    if let Some(s) = fd.and_then(|fd| self.socks.get_mut(&fd)) {
      s.inflight = s.inflight.saturating_sub(data.len());
      if s.blocked {
        s.blocked = false;
        s.edge = true;
      }
    }
    let mut plain = Vec::new();
    match self.cs[idx].plan.peer.clone() {
      Peer::Tls { .. } => {
        let c = &mut self.cs[idx];
        let Some(tls) = c.tls.as_mut() else { return };
        let mut rd = &data[..];
        let mut err = None;
        while !rd.is_empty() {
          match tls.read_tls(&mut rd) {
            Ok(0) => break,
            Ok(_) => {}
            Err(e) => {
              err = Some(e.to_string());
              break;
            }
          }
          if let Err(e) = tls.process_new_packets() {
            err = Some(e.to_string());
            break;
          }
          let mut b = [0u8; 4096];
          while let Ok(n) = tls.reader().read(&mut b) {
            if n == 0 {
              break;
            }
            plain.extend_from_slice(&b[..n]);
          }
        }
        let hs = tls.is_handshaking();
        if !hs && self.logs[idx].tls_up.is_none() {
          self.doubt(idx);
          self.logs[idx].tls_up = Some(now);
          self.logs[idx].sni = self.cs[idx].tls.as_ref().and_then(|t| t.server_name().map(String::from));
          self.note(13, now, idx as u64);
        }
        if let Some(e) = err {
          self.logs[idx].peer_tls_error.get_or_insert(e);
          self.flush_tls(idx);
          self.rst(idx);
        }
        self.flush_tls(idx);
      }
      Peer::Plain => plain = data,
      Peer::Raw { reply } => {
        plain = data;
        if !self.cs[idx].raw_replied {
          self.cs[idx].raw_replied = true;
          self.emit(idx, reply.0);
        }
      }
      Peer::Mute => plain = data,
    }
    if !plain.is_empty() {
      let l = &mut self.logs[idx];
      l.plain.extend_from_slice(&plain);
      l.plain_at.push((now, l.plain.len()));
      self.note(14, now, plain.len() as u64);
      let is_irc = matches!(self.cs[idx].plan.peer, Peer::Tls { .. } | Peer::Plain);
      if is_irc {
        for b in plain {
          if b == b'\n' {
            let line = std::mem::take(&mut self.cs[idx].line_buf);
            let line = String::from_utf8_lossy(&line).trim_end_matches('\r').to_string();
            self.srv_line(idx, line);
          } else {
            self.cs[idx].line_buf.push(b);
          }
        }
      }
    }
    self.step(idx);
  }

  fn srv_line(&mut self, idx: usize, line: String) {
    let now = self.now();
    self.cs[idx].lines += 1;
    if let Some(n) = line.strip_prefix("NICK ") {
      self.cs[idx].nick.get_or_insert(n.to_string());
    }
    if self.cs[idx].live.is_some() {
      self.live.push(LiveLog { at: now, conn: idx, what: format!("line:{line}") });
      if let Some(chs) = line.strip_prefix("JOIN ") {
        let nick = self.cs[idx].nick.clone().unwrap_or_default();
        for ch in chs.split(',') {
          self.cs[idx].joined.push(ch.to_string());
          self.put(idx, format!(":{nick}!{nick}@{nick}.tmi.twitch.tv JOIN {ch}\r\n").as_bytes());
        }
      } else if let Some(n) = line.strip_prefix("PING ") {
        self.put(idx, format!(":tmi.twitch.tv PONG tmi.twitch.tv {n}\r\n").as_bytes());
      }
    }
  }

  fn step(&mut self, idx: usize) {
    let now = self.now();
    for _ in 0..100_000 {
      let c = &mut self.cs[idx];
      if c.sleeping || c.rst {
        return;
      }
      let Some(st) = c.plan.script.get(c.pc).cloned() else {
        return;
      };
      if matches!(c.plan.peer, Peer::Mute) {
        return;
      }
      match st {
        Step::AwaitNick => {
          if c.nick.is_none() {
            return;
          }
        }
        Step::AwaitLines(n) => {
          if c.lines < n {
            return;
          }
        }
        Step::Sleep(us) => {
          c.sleeping = true;
          c.pc += 1;
          self.at(now + us * 1000, Ev::Srv(idx));
          return;
        }
        Step::Put(b) => {
          if !c.fin_sent {
            self.put(idx, &b.0);
          }
        }
        Step::StallRead(d) => {
          c.paused_until = now + d * 1000;
          self.logs[idx].max_blocked_us = self.logs[idx].max_blocked_us.max(d);
          self.stats.fault("server_read_stall");
          self.at(now + d * 1000, Ev::Resume(idx));
        }
        Step::CloseNotify => {
          if !c.fin_sent {
            self.logs[idx].close_notify = true;
            self.logs[idx].close_notify_sent.get_or_insert(now);
            if let Some(t) = self.cs[idx].tls.as_mut() {
              t.send_close_notify();
            }
            self.flush_tls(idx);
            self.stats.fault("close_notify");
          }
        }
        Step::Fin => {
          self.stats.fault("fin");
          self.fin(idx);
        }
        Step::Rst => {
          self.stats.fault("rst");
          self.rst(idx);
        }
        Step::Live { ping_us, chat_us, reconnect_after_us } => {
          c.live = Some((ping_us, chat_us, reconnect_after_us));
          self.live.push(LiveLog { at: now, conn: idx, what: "up".into() });
          self.at(now + ping_us * 1000, Ev::LivePing(idx));
          self.at(now + chat_us * 1000, Ev::LiveChat(idx));
          if reconnect_after_us > 0 {
            self.at(now + reconnect_after_us * 1000, Ev::LiveReconnect(idx));
          }
        }
      }
      self.cs[idx].pc += 1;
    }
    self.bad.push("server script does not terminate".into());
  }

  fn put(&mut self, idx: usize, data: &[u8]) {
    let now = self.now();
    let frag = (self.cs[idx].plan.net.frag as usize).clamp(1, 16384);
    let is_tls = self.cs[idx].tls.is_some();
    self.logs[idx].sent.extend_from_slice(data);
    let n = self.logs[idx].sent.len();
    self.logs[idx].sent_at.push((now, n));
    let mut done = n - data.len();
    if is_tls {
      for ch in data.chunks(frag) {
        let t = self.cs[idx].tls.as_mut().unwrap();
        let _ = t.writer().write_all(ch);
        done += ch.len();
        let whole = self.flush_tls(idx);
        let off = self.cs[idx].s2c_off;
        if whole && !self.cs[idx].tls.as_ref().unwrap().is_handshaking() {
          self.cs[idx].marks.push((off, done));
        }
      }
    } else {
      if self.emit(idx, data.to_vec()) {
        let off = self.cs[idx].s2c_off;
        self.cs[idx].marks.push((off, n));
      }
    }
  }
  fn flush_tls(&mut self, idx: usize) -> bool {
    let mut out = Vec::new();
    if let Some(t) = self.cs[idx].tls.as_mut() {
      while t.wants_write() {
        if t.write_tls(&mut out).is_err() {
          break;
        }
      }
    }
    out.is_empty() || self.emit(idx, out)
  }

  fn fire_s2c(&mut self, idx: usize) {
    let off = self.cs[idx].s2c_off;
    let due: Vec<usize> = (0..self.cs[idx].fired.len()).filter(|&i| !self.cs[idx].fired[i] && matches!(self.cs[idx].plan.faults[i].at, At::S2c(k) if k <= off)).collect();
    for i in due {
      self.cs[idx].fired[i] = true;
      let w = self.cs[idx].plan.faults[i].what.clone();
      self.fault(idx, w);
    }
  }

  /// Hand bytes to the network, server to client. False if the connection was cut before their end.
  fn emit(&mut self, idx: usize, mut data: Vec<u8>) -> bool {
    let now = self.now();
    let mut pos = 0;
    while pos < data.len() {
      if self.cs[idx].fin_sent || self.cs[idx].rst {
        return false;
      }
      let c = &mut self.cs[idx];
      let mut n = data.len() - pos;
      if !c.plan.net.chunks.is_empty() {
        let k = c.plan.net.chunks[c.chunk_i % c.plan.net.chunks.len()].max(1) as usize;
        c.chunk_i += 1;
        n = n.min(k);
      }
      // split at the next fault position
      let off = c.s2c_off;
      for (i, f) in c.plan.faults.iter().enumerate() {
        if let At::S2c(k) = f.at {
          if !c.fired[i] && k > off && (k - off) < n as u64 {
            n = (k - off) as usize;
          }
        }
      }
      if std::mem::take(&mut c.corrupt_next) {
        self.logs[idx].corrupt_off.get_or_insert(off);
        data[pos] ^= 0x20;
      }
      let gap = if c.plan.net.gap_us > 0 { c.rng.n(c.plan.net.gap_us + 1) } else { 0 };
      let lat = c.plan.net.lat_us + gap + if c.plan.net.jit_us > 0 { c.rng.n(c.plan.net.jit_us + 1) } else { 0 };
      let last = c.s2c_last;
      let mut t = (now + lat * 1000).max(last + gap * 1000).max(c.stall_until);
      t = if t < u64::MAX / 8 { self.through(now, t).max(last) } else { t };
      let c = &mut self.cs[idx];
      c.s2c_last = t;
      c.s2c_off += n as u64;
      let off = c.s2c_off;
      if t < u64::MAX / 8 {
        self.at(t, Ev::SegS2C(idx, data[pos..pos + n].to_vec(), off));
      }
      pos += n;
      self.fire_s2c(idx);
    }
    true
  }

  /// nothing is scheduled to happen any more, other than periodic live traffic
  pub fn pending(&self) -> usize {
    self.evs.len()
  }
}

pub fn tmi_host() -> &'static str {
  "irc.chat.twitch.tv"
}

/// SIM_NET=1: every socket call and network event on stderr
fn trace() -> bool {
  static T: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
  *T.get_or_init(|| std::env::var_os("SIM_NET").is_some())
}
