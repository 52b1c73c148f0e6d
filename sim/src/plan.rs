//! A plan is a complete, explicit description of one simulated execution: the client
//! program (with the points at which it abandons operations), what every name lookup and
//! every connection attempt meets, the network's timing, and the faults. A run is a pure
//! function of its plan, so a plan is also the replay file.

use serde::{Deserialize, Serialize};

/// Bytes, stored as text with \xNN escapes so that replay files stay readable.
#[derive(Clone, PartialEq, Eq, Default)]
pub struct Bytes(pub Vec<u8>);
impl From<&str> for Bytes {
  fn from(s: &str) -> Self {
    Bytes(s.as_bytes().to_vec())
  }
}
impl From<String> for Bytes {
  fn from(s: String) -> Self {
    Bytes(s.into_bytes())
  }
}
impl std::fmt::Debug for Bytes {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "b\"{}\"", enc(&self.0))
  }
}
pub fn enc(b: &[u8]) -> String {
  let mut o = String::new();
  for c in b.utf8_chunks() {
    for ch in c.valid().chars() {
      match ch {
        '\\' => o.push_str("\\\\"),
        c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\x{:02x}", c as u32)),
        c => o.push(c),
      }
    }
    for b in c.invalid() {
      o.push_str(&format!("\\x{b:02x}"));
    }
  }
  o
}
pub fn dec(s: &str) -> Result<Vec<u8>, String> {
  let b = s.as_bytes();
  let mut o = Vec::new();
  let mut i = 0;
  while i < b.len() {
    if b[i] == b'\\' {
      match b.get(i + 1) {
        Some(b'\\') => {
          o.push(b'\\');
          i += 2;
        }
        Some(b'x') if i + 3 < b.len() => {
          o.push(u8::from_str_radix(&s[i + 2..i + 4], 16).map_err(|e| e.to_string())?);
          i += 4;
        }
        _ => return Err("bad escape".into()),
      }
    } else {
      o.push(b[i]);
      i += 1;
    }
  }
  Ok(o)
}
impl Serialize for Bytes {
  fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
    s.serialize_str(&enc(&self.0))
  }
}
impl<'de> Deserialize<'de> for Bytes {
  fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    let s = String::deserialize(d)?;
    dec(&s).map(Bytes).map_err(serde::de::Error::custom)
  }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
  pub property: String,
  pub scenario: String,
  /// Seed of the random streams handed to the client and to the peers.
  pub seed: u64,
  /// Wall clock at the start, seconds since the epoch.
  pub wall: u64,
  pub cfg: Cfg,
  pub dns: Vec<Dns>,
  pub conns: Vec<Conn>,
  /// Which `connect` uses: a healthy default once `conns` is exhausted, or this one.
  pub tail: Option<Box<Conn>>,
  /// Network-wide outages [from, from+len) in us; traffic in them is held until they heal.
  pub partitions: Vec<(u64, u64)>,
  /// Wall clock jumps: (at us, by seconds).
  pub clock_jumps: Vec<(u64, i64)>,
  /// socket() number -> errno
  pub socket_errs: Vec<(u32, i32)>,
  pub prog: Prog,
  /// Virtual-time horizon of the run, us.
  pub horizon: u64,
  /// capture log records
  pub logs: bool,
  /// memory placement faults in the allocator: 0 off
  pub mem: u64,
  /// executor faults (exec.rs): 0 none
  #[serde(default)]
  pub exec: u8,
  /// What the system's store of trusted certificates is like at the nth `connect` (good afterwards).
  #[serde(default, skip_serializing_if = "Vec::is_empty")]
  pub trust: Vec<Trust>,
  /// A second client of the same process, with a program, credentials and one connection of its own.
  #[serde(default, skip_serializing_if = "Option::is_none")]
  pub neighbour: Option<Box<Plan>>,
}

/// `Other` has another root only, `Both` has it as well as the right one, `Torn` ends in the middle of the second,
/// `Odd` holds an entry that is no certificate.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Trust {
  Good,
  Directory,
  Empty,
  Torn,
  Odd,
  Other,
  Both,
}
impl Trust {
  pub fn path(self) -> &'static str {
    macro_rules! f {
      ($n:literal) => {
        concat!(env!("CARGO_MANIFEST_DIR"), "/certs/", $n)
      };
    }
    match self {
      Trust::Good => f!("ca.pem"),
      Trust::Directory => f!("stores"),
      Trust::Empty => f!("stores/empty.pem"),
      Trust::Torn => f!("stores/torn.pem"),
      Trust::Odd => f!("stores/odd.pem"),
      Trust::Other => f!("stores/other.pem"),
      Trust::Both => f!("stores/both.pem"),
    }
  }
  /// `connect` may fail for the store alone
  pub fn broken(self) -> bool {
    matches!(self, Trust::Directory | Trust::Torn | Trust::Odd)
  }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
  /// None: anonymous
  pub login: Option<String>,
  pub token: Option<String>,
  pub timeout_us: Option<u64>,
  pub backoff: Option<Backoff>,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Backoff {
  pub max_tries: Option<u64>,
  pub initial_us: u64,
  pub mult: u32,
  pub max_us: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Dns {
  Ok { delay_us: u64, addrs: u8 },
  Err { delay_us: u64, code: i32 },
  Never,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Dial {
  Ok {
    us: u64,
  },
  Fail {
    us: u64,
    errno: i32,
  },
  /// connect() itself fails
  Instant {
    errno: i32,
  },
  Blackhole,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Peer {
  Tls {
    cert: String,
    v12: bool,
  },
  /// Speaks Twitch IRC without TLS.
  Plain,
  /// Answers the first bytes with this, then behaves per `script` in plaintext.
  Raw {
    reply: Bytes,
  },
  Mute,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Net {
  pub lat_us: u64,
  pub jit_us: u64,
  /// Segment sizes of the server-to-client stream, used cyclically; empty: one segment per write.
  pub chunks: Vec<u32>,
  pub gap_us: u64,
  pub seed: u64,
  /// Client socket send buffer.
  pub sndbuf: u32,
  /// TLS record payload limit on the server side.
  pub frag: u32,
  /// report spurious readiness now and then
  pub spurious: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conn {
  pub dial: Dial,
  pub peer: Peer,
  pub net: Net,
  pub script: Vec<Step>,
  pub faults: Vec<Fault>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
  /// Wait until a NICK line has been received.
  AwaitNick,
  /// Wait for n client lines in total.
  AwaitLines(u32),
  Sleep(u64),
  Put(Bytes),
  /// Stop reading from the socket for this long (does not block the script).
  StallRead(u64),
  CloseNotify,
  Fin,
  Rst,
  /// Behave like Twitch from here on: answer JOIN/PING, send PING and chat periodically.
  Live {
    ping_us: u64,
    chat_us: u64,
    reconnect_after_us: u64,
  },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
  pub at: At,
  pub what: What,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum At {
  /// after this many bytes of the server-to-client stream were handed to the network
  S2c(u64),
  /// after this many bytes of the client-to-server stream arrived
  C2s(u64),
  /// after the connection was established
  Us(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum What {
  Fin,
  Rst,
  /// local transport error surfaced by the kernel
  Errno(i32),
  /// nothing passes in either direction for this long (u64::MAX: for ever)
  Stall(u64),
  /// flip one bit of the next byte
  Corrupt,
  /// peer stops reading for ever
  Deaf,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cancel {
  Us(u64),
  Polls(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Prog {
  Ops(Vec<Op>),
  Bot(Bot),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bot {
  pub channels: Vec<String>,
  /// also reconnect when nothing was received for this long
  pub idle_us: Option<u64>,
  /// send something every so often from a second branch of a select
  pub chatter_us: Option<u64>,
  /// run the bot inside a spawned task with commands arriving over a channel
  pub spawned: bool,
  /// stop after this much virtual time
  pub run_us: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
  pub call: Call,
  #[serde(default, skip_serializing_if = "Option::is_none")]
  pub cancel: Option<Cancel>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Call {
  Connect,
  Reconnect,
  Recv,
  /// Receive until nothing comes for this long, or an error that ends it (at most n messages)
  Drain {
    idle_us: u64,
    max: u32,
  },
  /// After the first disconnect error, keep calling to see what it says.
  RecvAgain {
    n: u32,
  },
  Privmsg {
    ch: String,
    text: String,
    reply: Option<String>,
    nonce: Option<String>,
  },
  /// A chat message with the same-message bypass appended.
  Say {
    ch: String,
    text: String,
  },
  Ping {
    nonce: String,
  },
  /// Answer the last received PING.
  PongLast,
  Join {
    ch: String,
  },
  JoinAll {
    chs: Vec<String>,
  },
  Raw {
    data: String,
  },
  Sleep {
    us: u64,
  },
  Drop,
}

impl Net {
  pub fn plain() -> Net {
    Net { lat_us: 1000, jit_us: 0, chunks: vec![], gap_us: 0, seed: 0, sndbuf: 65536, frag: 16384, spurious: false }
  }
}
pub const CAP_ACK: &str = ":tmi.twitch.tv CAP * ACK :twitch.tv/commands twitch.tv/tags twitch.tv/membership\r\n";
pub const WELCOME: &str = ":tmi.twitch.tv 001 simuser :Welcome, GLHF!\r\n";
impl Conn {
  pub fn healthy() -> Conn {
    Conn { dial: Dial::Ok { us: 2000 }, peer: Peer::Tls { cert: "good".into(), v12: false }, net: Net::plain(), script: vec![Step::AwaitNick, Step::Put(CAP_ACK.into()), Step::Put(WELCOME.into())], faults: vec![] }
  }
}
impl Default for Plan {
  fn default() -> Self {
    Plan {
      property: String::new(),
      scenario: String::new(),
      seed: 0,
      wall: 1_704_067_200,
      cfg: Cfg { login: Some("simuser".into()), token: Some("oauth:tok3nS3cretV4lue".into()), timeout_us: None, backoff: None },
      dns: vec![],
      conns: vec![],
      tail: None,
      partitions: vec![],
      clock_jumps: vec![],
      socket_errs: vec![],
      prog: Prog::Ops(vec![]),
      horizon: 3_600_000_000,
      logs: false,
      mem: 0,
      exec: 0,
      trust: vec![],
      neighbour: None,
    }
  }
}
impl Plan {
  pub fn timeout_us(&self) -> u64 {
    self.cfg.timeout_us.unwrap_or(30_000_000)
  }
  pub fn backoff(&self) -> Backoff {
    self.cfg.backoff.unwrap_or(Backoff { max_tries: Some(8), initial_us: 1_000_000, mult: 3, max_us: 12_000_000 })
  }
}

// ---------------------------------------------------------------- plan randomness

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
  pub fn new(seed: u64) -> Rng {
    let mut r = Rng(seed);
    r.next();
    r
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
  }
  /// uniform in 0..n
  pub fn n(&mut self, n: u64) -> u64 {
    if n == 0 {
      0
    } else {
      ((self.next() as u128 * n as u128) >> 64) as u64
    }
  }
  pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
    lo + self.n(hi - lo + 1)
  }
  pub fn chance(&mut self, pct: u64) -> bool {
    self.n(100) < pct
  }
  pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
    &v[self.n(v.len() as u64) as usize]
  }
  /// log-uniform in lo..=hi
  pub fn log(&mut self, lo: u64, hi: u64) -> u64 {
    let lo = lo.max(1);
    let a = (lo as f64).ln();
    let b = (hi as f64).ln();
    let x = a + (b - a) * (self.n(1 << 30) as f64 / (1u64 << 30) as f64);
    (x.exp() as u64).clamp(lo, hi)
  }
}
