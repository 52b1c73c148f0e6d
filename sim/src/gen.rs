//! Seeded plans: one 64-bit seed and a property give one plan.

use crate::lines;
use crate::plan::*;
use crate::typed;
use crate::world::BAD_CERTS;

fn op(call: Call) -> Op {
  Op { call, cancel: None }
}
fn opc(call: Call, cancel: Option<Cancel>) -> Op {
  Op { call, cancel }
}

pub fn net(r: &mut Rng) -> Net {
  let mut n = Net::plain();
  n.seed = r.next();
  n.lat_us = if r.chance(70) { r.log(100, 20_000) } else { r.log(100, 200_000) };
  if r.chance(40) {
    n.jit_us = r.log(1, 50_000);
  }
  match r.n(10) {
    0..=3 => {}
    4 => n.chunks = vec![1],
    5 | 6 => n.chunks = (0..r.range(1, 6)).map(|_| r.log(1, 60) as u32).collect(),
    7 => n.chunks = (0..r.range(1, 6)).map(|_| r.log(1, 2000) as u32).collect(),
    8 => n.chunks = vec![5, r.log(1, 300) as u32],
    _ => n.chunks = vec![*r.pick(&[16384u32, 16406, 8192, 4096, 1448])],
  }
  if r.chance(35) {
    n.gap_us = r.log(1, 2000);
  }
  if r.chance(40) {
    n.frag = *r.pick(&[1u32, 2, 7, 16, 64, 100, 1000, 4096]);
  }
  if r.chance(30) {
    n.sndbuf = r.log(64, 8000) as u32;
  }
  n.spurious = r.chance(10);
  n
}
/// a network that is never the reason for a handshake timeout
fn fast(r: &mut Rng) -> Net {
  let mut n = net(r);
  n.lat_us = r.log(100, 20_000);
  n.jit_us = n.jit_us.min(5_000);
  n.gap_us = 0;
  n
}
fn conn(r: &mut Rng) -> Conn {
  let mut c = Conn::healthy();
  c.net = fast(r);
  c.dial = Dial::Ok { us: r.log(100, 50_000) };
  c.peer = Peer::Tls { cert: if r.chance(80) { "good" } else { "wild" }.into(), v12: r.chance(20) };
  c
}
fn cancel(r: &mut Rng) -> Cancel {
  match r.n(4) {
    0 => Cancel::Polls(r.range(1, 6) as u32),
    1 => Cancel::Polls(1),
    _ => Cancel::Us(r.log(1, 5_000_000)),
  }
}
fn creds(r: &mut Rng, p: &mut Plan) {
  match r.n(10) {
    0 | 1 => {
      p.cfg.login = None;
      p.cfg.token = None;
    }
    2 | 3 => p.cfg.token = Some("raWt0ken5ecretNoPrefix".into()),
    4 => {
      p.cfg.login = Some("some_other_login".into());
      p.cfg.token = Some("oauth:anotherS3cretT0ken".into());
    }
    5 => {
      p.cfg.login = Some((*r.pick(&["SimUser", "x", "a_login_of_twenty_five_lett", "9lives"])).into());
      let k = r.range(30, 600) as usize;
      p.cfg.token = Some(format!("{}{}", r.pick(&["", "oauth:"]), "l0ngS3cretT0ken".repeat(k / 15)));
    }
    7 => {
      let k = r.log(1, 60) as usize;
      p.cfg.login = Some((0..k).map(|_| *r.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_") as char).collect());
      let k = r.log(8, 1200) as usize;
      let t: String = (0..k).map(|_| *r.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") as char).collect();
      p.cfg.token = Some(format!("{}{t}", r.pick(&["", "oauth:"])));
    }
    6 if r.chance(30) => p.cfg.token = Some((*r.pick(&["aT0kenoauth:inTheMiddle", "OAUTH:upperT0ken", "oauthT0kenNoColon"])).into()),
    _ => {}
  }
}
fn timeout(r: &mut Rng, p: &mut Plan) {
  p.cfg.timeout_us = match r.n(6) {
    0 => None,
    1 => Some(1_000_000),
    2 => Some(3_000_000),
    3 => Some(10_000_000),
    4 => Some(r.range(500_000, 20_000_000)),
    _ => Some(4_000_000 + r.n(4_000_000)),
  };
}
fn backoff(r: &mut Rng, p: &mut Plan) {
  if r.chance(15) {
    return;
  }
  p.cfg.backoff = Some(Backoff {
    max_tries: match r.n(12) {
      0 => None,
      1 => Some(0),
      2 => Some(1),
      k => Some(k),
    },
    initial_us: *r.pick(&[0, 1_000, 37_000, 250_000, 1_000_000, 1_700_000, 5_000_000]),
    mult: *r.pick(&[0, 1, 2, 2, 3, 3, 5, 10]),
    max_us: *r.pick(&[0, 10_000, 500_000, 3_000_000, 7_300_000, 20_000_000, 60_000_000]),
  });
}

// ------------------------------------------------------------------ content

fn chat(r: &mut Rng, tag: &str, i: usize) -> String {
  match r.n(8) {
    0 => format!("PING :{tag}-{i}"),
    1 => format!(":tmi.twitch.tv NOTICE #x :{tag} {i}"),
    2 => format!(":u{i}!u{i}@u{i}.tmi.twitch.tv JOIN #{tag}"),
    4 if r.chance(10) => format!("{}{}PING :{tag} {i}", r.pick(&["\u{feff}", "\u{200b}", "\t", "\0", "!", "é"]), r.pick(&["", "x"])),
    3 => format!("@seq={i};conn={tag};{} :a!a@a.tmi.twitch.tv PRIVMSG #x :{}", "x=y;z=1", typed::text(r)),
    _ => format!("@badges=;display-name=A;id={tag}-{i};room-id=1;tmi-sent-ts=1700000000000;user-id=2 :a!a@a.tmi.twitch.tv PRIVMSG #x :{tag} {i} {}", typed::text(r)),
  }
}
/// n lines of content for a connection, distinct across connections
fn content(r: &mut Rng, tag: &str, n: usize) -> Vec<Vec<u8>> {
  let mut v: Vec<Vec<u8>> = vec![];
  let long = r.chance(15);
  for i in 0..n {
    let l = match r.n(40) {
      0..=3 => typed::event(r).into_bytes(),
      4..=6 => lines::valid(r).into_bytes(),
      // the server says the same thing twice
      7 | 8 if i > 0 => v[i - 1].clone(),
      9 | 10 if long => lines::long(r, tag).into_bytes(),
      _ => chat(r, tag, i).into_bytes(),
    };
    v.push(l);
  }
  v
}
fn term(r: &mut Rng, l: &[u8]) -> Vec<u8> {
  let mut l = l.to_vec();
  l.extend_from_slice(if r.chance(95) { b"\r\n" } else { b"\n" });
  l
}
/// how the server writes its lines: grouped, split, paced
fn writes(r: &mut Rng, lines: &[Vec<u8>], script: &mut Vec<Step>) {
  let all: Vec<u8> = lines.iter().flat_map(|l| term(r, l)).collect();
  writes_raw(r, &all, script);
}
fn writes_raw(r: &mut Rng, all: &[u8], script: &mut Vec<Step>) {
  let mode = r.n(5);
  let mut at = 0;
  let mut pieces = 0;
  while at < all.len() {
    let n = match mode {
      0 => all.len(),
      1 => all[at..].iter().position(|c| *c == b'\n').map_or(all.len() - at, |i| i + 1),
      2 => r.log(1, 2000) as usize,
      3 => {
        // cut right around line ends
        let e = all[at..].iter().position(|c| *c == b'\n').map_or(all.len() - at, |i| i + 1);
        let d = r.n(4) as usize;
        if e > d {
          e - d
        } else {
          e + 1
        }
      }
      _ => r.log(1, 200) as usize,
    };
    let n = if pieces > 80 { all.len() - at } else { n.clamp(1, all.len() - at) };
    script.push(Step::Put(Bytes(all[at..at + n].to_vec())));
    at += n;
    pieces += 1;
    if r.chance(25) {
      script.push(Step::Sleep(r.log(1, 3_000_000)));
    }
  }
}
/// the welcome, perhaps in one write together with the first content
fn greet(r: &mut Rng, rest: &[u8], script: &mut Vec<Step>) {
  script.clear();
  script.push(Step::AwaitNick);
  match r.n(4) {
    0 => {
      let mut b = CAP_ACK.as_bytes().to_vec();
      b.extend_from_slice(WELCOME.as_bytes());
      b.extend_from_slice(rest);
      script.push(Step::Put(Bytes(b)));
    }
    1 => {
      script.push(Step::Put(CAP_ACK.into()));
      let mut b = WELCOME.as_bytes().to_vec();
      let k = r.n(rest.len() as u64 + 1) as usize;
      b.extend_from_slice(&rest[..k]);
      script.push(Step::Put(Bytes(b)));
      writes_raw(r, &rest[k..], script);
    }
    2 => {
      script.push(Step::Put(CAP_ACK.into()));
      script.push(Step::Sleep(r.log(1, 300_000)));
      script.push(Step::Put(WELCOME.into()));
      if r.chance(50) {
        script.push(Step::Sleep(r.log(1, 2_000_000)));
      }
      writes_raw(r, rest, script);
    }
    _ => {
      script.push(Step::Put(CAP_ACK.into()));
      script.push(Step::Put(WELCOME.into()));
      writes_raw(r, rest, script);
    }
  }
}
fn joined(r: &mut Rng, ls: &[Vec<u8>]) -> Vec<u8> {
  ls.iter().flat_map(|l| term(r, l)).collect()
}
/// lines that end right at, before and after where buffers and TLS records of customary sizes do
fn aligned(r: &mut Rng, ls: &[Vec<u8>], script: &mut Vec<Step>) {
  script.extend([Step::AwaitNick, Step::Put(CAP_ACK.into())]);
  let mut b = vec![];
  if r.chance(70) {
    script.push(Step::Put(WELCOME.into()));
    script.push(Step::Sleep(r.log(1000, 3_000_000)));
  } else {
    b.extend_from_slice(WELCOME.as_bytes());
  }
  for l in ls {
    let l = term(r, l);
    b.extend_from_slice(&l);
    if r.chance(10) && b.len() < 200_000 {
      let unit = *r.pick(&[1024usize, 2048, 4096, 8192, 8192, 8192, 16384]);
      let to = (b.len() + 60).next_multiple_of(unit) + r.n(5) as usize - 2;
      b.extend_from_slice(b":a!a@a.tmi.twitch.tv PRIVMSG #x :");
      while b.len() < to - 2 {
        b.push(b'a' + (b.len() % 26) as u8);
      }
      b.extend_from_slice(b"\r\n");
    }
    if r.chance(3) {
      script.push(Step::Put(Bytes(std::mem::take(&mut b))));
      script.push(Step::Sleep(r.log(1, 3_000_000)));
    }
  }
  script.push(Step::Put(Bytes(b)));
}
/// a healthy connection carrying these lines
fn feed(r: &mut Rng, ls: &[Vec<u8>]) -> Conn {
  let mut c = conn(r);
  let mut s = vec![];
  if r.chance(5) {
    aligned(r, ls, &mut s);
    c.script = s;
    c.net.frag = 16384;
    return c;
  }
  let all = joined(r, ls);
  greet(r, &all, &mut s);
  c.script = s;
  c
}

const SPICE: &[&str] =
  &["hi", "hello world", "", " ", ":", ": x", " lead", "trail ", "ünïcödé 日本語 🤖", "a;b=c", "@x=y z", "PING :fake", "\u{1}ACTION waves\u{1}", "#chan", "!cmd arg", "%s %n {}", "\\s\\:", "\u{2800}", "oauth:x", "\t tab", "\0"];
fn words(r: &mut Rng, max: u64) -> String {
  if r.chance(45) {
    return r.pick(SPICE).to_string();
  }
  if r.chance(60) {
    let max = if r.chance(10) { max.max(20_000) } else { max };
    return typed::strange(r, max);
  }
  let n = r.log(1, max) as usize;
  let mut s = String::new();
  while s.len() < n {
    s.push_str(r.pick(SPICE));
    s.push('x');
  }
  s
}
fn noncey(r: &mut Rng) -> String {
  match r.n(6) {
    0 => "".into(),
    1 => "a b;c\\d".into(),
    2 => format!("n{}", r.n(1000)),
    3 => {
      let max = if r.chance(10) { 2000 } else { 60 };
      words(r, max).replace(['\0', '\u{1}'], "")
    }
    _ => format!("{:016x}", r.next()),
  }
}
fn chan(r: &mut Rng) -> String {
  match r.n(20) {
    0 | 1 => typed::name_of(r, typed::LOGIN, 300),
    2 => format!("#{}", typed::name_of(r, typed::LOGIN, 300)),
    3 => (*r.pick(&["##x", "#chatrooms:12345:1a-2b", "a,b", "#日本", "x#", "&x", "#", "X", "é"])).into(),
    _ => (*r.pick(&["x", "#x", "pajlada", "#forsen", "_a1", "MixedCase"])).into(),
  }
}
fn send(r: &mut Rng, max: u64) -> Call {
  match r.n(12) {
    0..=4 => Call::Privmsg {
      ch: if r.chance(15) { format!("#{}", typed::name_of(r, typed::LOGIN, 300)) } else { format!("#{}", r.pick(&["x", "pajlada", "forsen", "MixedCase"])) },
      text: words(r, max),
      reply: r.chance(35).then(|| noncey(r)),
      nonce: r.chance(35).then(|| noncey(r)),
    },
    5 => Call::Ping { nonce: words(r, 100) },
    6 | 7 => Call::PongLast,
    8 => Call::Join { ch: chan(r) },
    9 => {
      let n = if r.chance(10) { typed::length(r, 400) as u64 } else { r.range(1, 6) };
      let mut chs: Vec<String> = (0..n).map(|i| if r.chance(10) { chan(r) } else { format!("{}{}{i}", if r.chance(50) { "#" } else { "" }, r.pick(&["ch", "ch", "Ch", "x_"])) }).collect();
      if r.chance(15) {
        let again = chs[r.n(chs.len() as u64) as usize].clone();
        chs.push(again);
      }
      Call::JoinAll { chs }
    }
    10 => {
      let w = words(r, max);
      Call::Raw { data: format!("PRIVMSG #x :{w}{}", r.pick(&["", "\r\n", "\r\n", "\r\n", "\n", "\r", "\n\r", "\r\n "])) }
    }
    _ => Call::Raw { data: (*r.pick(&["PING\r\n", "PART #x\r\n", "\r\n", "", "x", "CAP END\r\n", "a\r\nb\r\n", "a\r\nb", "\r\n\r\n", "\n", "\r", "\u{feff}x\r\n", "a\n\r\n", " \r\n"])).into() },
  }
}
fn mixed_ops(r: &mut Rng, n: u64, ops: &mut Vec<Op>, cancels: u64, sends: u64) {
  for _ in 0..n {
    let c = if r.chance(cancels) { Some(cancel(r)) } else { None };
    if r.chance(sends) {
      ops.push(opc(send(r, 600), c));
      continue;
    }
    match r.n(10) {
      0 => ops.push(op(Call::Sleep { us: r.log(1, 3_000_000) })),
      1 => ops.push(op(Call::Drain { idle_us: r.log(1000, 2_000_000), max: r.range(1, 30) as u32 })),
      _ => ops.push(opc(Call::Recv, Some(c.unwrap_or_else(|| Cancel::Us(if r.chance(80) { 8_000_000 } else { r.log(1, 1_000_000) }))))),
    }
  }
}
fn drain() -> Op {
  op(Call::Drain { idle_us: 30_000_000, max: 20_000 })
}

// ------------------------------------------------------------------ failing attempts

const ERRNOS: &[i32] = &[libc::ECONNREFUSED, libc::ECONNRESET, libc::ETIMEDOUT, libc::EHOSTUNREACH, libc::ENETUNREACH, libc::ECONNABORTED];
/// What a firewall, a route or a driver may answer now and then.
const ODD_ERRNOS: &[i32] = &[libc::EPERM, libc::EACCES, libc::ENETDOWN, libc::EHOSTDOWN, libc::EPROTO, libc::ENOPROTOOPT, libc::EPIPE, libc::ENOTCONN, libc::EOPNOTSUPP, libc::EIO, libc::ENOBUFS, libc::ENOMEM, libc::EADDRINUSE, libc::ENONET];
fn errno(r: &mut Rng) -> i32 {
  let from = if r.chance(60) { ERRNOS } else { ODD_ERRNOS };
  *r.pick(from)
}

/// A connection attempt that fails in a way that is worth another try.
fn transient(r: &mut Rng, t: u64) -> Conn {
  let mut c = conn(r);
  let quick = r.log(1, 200_000);
  match r.n(18) {
    0 => c.dial = Dial::Fail { us: quick, errno: errno(r) },
    1 => c.dial = Dial::Instant { errno: if r.chance(40) { errno(r) } else { *r.pick(&[libc::ENETUNREACH, libc::EADDRNOTAVAIL, libc::EHOSTUNREACH, libc::ECONNREFUSED]) } },
    2 => c.dial = Dial::Blackhole,
    3 => c.dial = Dial::Ok { us: t * 2 },
    4 => c.faults.push(Fault { at: At::S2c(r.n(900)), what: What::Rst }),
    5 => c.faults.push(Fault { at: At::S2c(r.n(900)), what: What::Fin }),
    6 => c.faults.push(Fault { at: At::S2c(r.n(2200)), what: What::Stall(u64::MAX) }),
    7 => c.faults.push(Fault { at: At::C2s(r.n(700)), what: if r.chance(50) { What::Rst } else { What::Fin } }),
    8 => c.faults.push(Fault { at: At::C2s(r.n(700)), what: What::Stall(u64::MAX) }),
    9 => {
      c.script = vec![Step::AwaitNick];
      end(r, &mut c.script);
    }
    10 => {
      c.script = vec![Step::AwaitNick, Step::Put(CAP_ACK.into())];
      if r.chance(50) {
        c.script.push(Step::Sleep(r.log(1, 1_000_000)));
      }
      end(r, &mut c.script);
    }
    11 => c.script = vec![Step::AwaitNick],
    12 => c.script = vec![Step::AwaitNick, Step::Put(CAP_ACK.into())],
    13 => {
      // cut in the middle of a line
      let all = [CAP_ACK.as_bytes(), WELCOME.as_bytes()].concat();
      let n = r.n(all.len() as u64 - 1) as usize;
      c.script = vec![Step::AwaitNick, Step::Put(Bytes(all[..n].to_vec()))];
      if r.chance(60) {
        end2(r, &mut c.script);
      }
    }
    14 => {
      // damaged on the way, within the TLS negotiation or the answers
      c.faults.push(Fault { at: At::S2c(r.n(2200)), what: What::Corrupt });
      c.script = vec![Step::AwaitNick];
    }
    15 => {
      let e = What::Errno(errno(r));
      match r.n(3) {
        0 => c.faults.push(Fault { at: At::Us(r.log(1, 100_000)), what: e }),
        1 => c.faults.push(Fault { at: At::C2s(r.n(900)), what: e }),
        _ => {
          // nothing more gets out, and then the news of it
          c.net.sndbuf = 1 + r.n(400) as u32;
          c.faults.push(Fault { at: At::C2s(r.n(900)), what: What::Stall(u64::MAX) });
          c.faults.push(Fault { at: At::Us(r.log(30_000, t)), what: e });
        }
      }
      c.script = vec![Step::AwaitNick];
    }
    _ => {
      c.script = vec![Step::AwaitNick, Step::Sleep(5_200_000 + t), Step::Put(CAP_ACK.into()), Step::Put(WELCOME.into())];
    }
  }
  c
}
fn end(r: &mut Rng, s: &mut Vec<Step>) {
  match r.n(3) {
    0 => s.push(Step::Fin),
    1 => s.push(Step::Rst),
    _ => {
      s.push(Step::CloseNotify);
      s.push(Step::Fin);
    }
  }
}
/// an end that is not orderly
fn end2(r: &mut Rng, s: &mut Vec<Step>) {
  s.push(if r.chance(50) { Step::Fin } else { Step::Rst });
}
const REFUSALS: &[&str] = &[
  ":tmi.twitch.tv NOTICE * :Login authentication failed",
  ":tmi.twitch.tv NOTICE * :Improperly formatted auth",
  ":tmi.twitch.tv NOTICE * :Login unsuccessful",
  ":tmi.twitch.tv NOTICE * :Invalid NICK",
  ":tmi.twitch.tv NOTICE * :You are banned from this server",
  ":tmi.twitch.tv NOTICE #x :hello there",
  "PING :tmi.twitch.tv",
  ":tmi.twitch.tv RECONNECT",
  ":tmi.twitch.tv 002 simuser :Your host is tmi.twitch.tv",
  ":tmi.twitch.tv 376 simuser :>",
  ":tmi.twitch.tv 421 simuser X :Unknown command",
  ":a!a@a.tmi.twitch.tv PRIVMSG #x :001 Welcome",
  ":tmi.twitch.tv CAP * ACK :twitch.tv/tags",
  "@x=y :tmi.twitch.tv NOTICE * :Login authentication failed for a reason",
  ":tmi.twitch.tv 0011 simuser :Welcome",
  ":tmi.twitch.tv NOTICE * :This server is closed to author bots",
  ":tmi.twitch.tv NOTICE * :Your failed logins: 3",
];
const CAP_ANSWERS: &[&str] = &[
  ":tmi.twitch.tv CAP * NAK :twitch.tv/commands twitch.tv/tags twitch.tv/membership",
  ":tmi.twitch.tv CAP * LS :twitch.tv/commands",
  ":tmi.twitch.tv CAP * DEL :twitch.tv/tags",
  ":tmi.twitch.tv 001 simuser :Welcome, GLHF!",
  ":tmi.twitch.tv NOTICE * :Login authentication failed",
  ":tmi.twitch.tv NOTICE * :Server is restarting",
  "PING :tmi.twitch.tv",
  ":tmi.twitch.tv 410 * FOO :Invalid CAP command",
  ":a!a@a PRIVMSG #x :* ACK",
  ":tmi.twitch.tv CAP * NAK :twitch.tv/ACK",
];
/// A server that answers and refuses.
fn permanent(r: &mut Rng) -> Conn {
  let mut c = conn(r);
  c.script = vec![Step::AwaitNick];
  if r.chance(8) {
    return garbage_answer(r);
  }
  if r.chance(12) {
    // anything else Twitch may say
    let mut l = lines::valid(r);
    while l.contains(" 001 ") || l.contains("ACK") {
      l = lines::valid(r);
    }
    c.script.push(Step::Put(format!("{}{l}\r\n", if r.chance(50) { CAP_ACK } else { "" }).into()));
    if r.chance(50) {
      c.script.push(Step::Put(format!("{CAP_ACK}{WELCOME}").into()));
    }
    return c;
  }
  if r.chance(35) {
    let l = *r.pick(CAP_ANSWERS);
    c.script.push(Step::Put(format!("{l}\r\n").into()));
    if l.contains("001") && r.chance(50) {
      c.script.push(Step::Put(CAP_ACK.into()));
    } else if r.chance(50) {
      c.script.push(Step::Put(WELCOME.into()));
    }
  } else {
    let l = *r.pick(REFUSALS);
    if r.chance(50) {
      c.script.push(Step::Put(format!("{CAP_ACK}{l}\r\n").into()));
    } else {
      c.script.push(Step::Put(CAP_ACK.into()));
      if r.chance(40) {
        c.script.push(Step::Sleep(r.log(1, 900_000)));
      }
      c.script.push(Step::Put(format!("{l}\r\n").into()));
    }
    if r.chance(40) {
      c.script.push(Step::Put(WELCOME.into()));
    }
  }
  if r.chance(40) {
    end(r, &mut c.script);
  }
  c
}
fn garbage_answer(r: &mut Rng) -> Conn {
  let mut c = conn(r);
  c.script = vec![Step::AwaitNick];
  if r.chance(50) {
    c.script.push(Step::Put(CAP_ACK.into()));
  }
  let mut b = lines::hostile(r);
  b.extend_from_slice(b"\r\n");
  c.script.push(Step::Put(Bytes(b)));
  if r.chance(50) {
    c.script.push(Step::Put(WELCOME.into()));
  }
  c
}
fn unauthentic(r: &mut Rng) -> Conn {
  let mut c = conn(r);
  c.peer = match r.n(10) {
    0 => Peer::Plain,
    1 => Peer::Raw { reply: (*r.pick(&[":tmi.twitch.tv CAP * ACK :twitch.tv/commands\r\n:tmi.twitch.tv 001 simuser :Welcome\r\n", "HTTP/1.1 200 OK\r\n\r\n", "\x15\x03\x01\x00\x02\x02\x28", "\0", "SSH-2.0-x\r\n"])).into() },
    2 => Peer::Mute,
    _ => Peer::Tls { cert: (*r.pick(BAD_CERTS)).into(), v12: r.chance(30) },
  };
  c
}
fn dns(r: &mut Rng) -> Dns {
  match r.n(10) {
    0 => Dns::Err { delay_us: r.log(100, 2_000_000), code: *r.pick(&[libc::EAI_AGAIN, libc::EAI_NONAME, libc::EAI_FAIL]) },
    1 => Dns::Never,
    2 => Dns::Ok { delay_us: r.log(100_000, 3_000_000), addrs: 1 },
    3 if r.chance(40) => Dns::Ok { delay_us: r.log(100, 20_000), addrs: 2 + r.n(3) as u8 },
    _ => Dns::Ok { delay_us: r.log(100, 20_000), addrs: 1 },
  }
}
/// Ends the connection at some point of its life.
fn ending(r: &mut Rng, c: &mut Conn) {
  let len: u64 = c.script.iter().map(|s| if let Step::Put(b) = s { b.0.len() as u64 + 22 } else { 0 }).sum();
  let what = match r.n(8) {
    0 | 1 => What::Fin,
    2 | 3 => What::Rst,
    4 => What::Errno(libc::ETIMEDOUT),
    5 => What::Errno(errno(r)),
    6 => What::Corrupt,
    _ => What::Fin,
  };
  match r.n(5) {
    0 | 1 => {
      // in the middle of the stream, after the TLS flight
      c.faults.push(Fault { at: At::S2c(1400 + r.n(len + 700)), what });
    }
    2 => c.faults.push(Fault { at: At::Us(r.log(30_000, 20_000_000)), what }),
    3 => {
      end(r, &mut c.script);
    }
    _ => {
      if r.chance(50) {
        // an unfinished line before a disorderly end
        c.script.push(Step::Put(":a!a@a.tmi.twitch.tv PRIVMSG #x :unfinish".into()));
        end2(r, &mut c.script);
      } else {
        c.script.push(Step::Sleep(r.log(1, 5_000_000)));
        end(r, &mut c.script);
      }
    }
  }
  if c.faults.iter().any(|f| f.what == What::Corrupt) {
    // let the damage be noticed
    c.script.push(Step::Sleep(1_000_000));
    c.script.push(Step::Put(Bytes(vec![b'z'; 40_000])));
    c.script.push(Step::Sleep(1_000_000));
    c.script.push(Step::Rst);
  }
}

// ------------------------------------------------------------------ per property

pub fn plan(prop: &str, seed: u64) -> Plan {
  let mut r = Rng::new(seed ^ prop.bytes().fold(0x51u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)));
  let r = &mut r;
  let mut p = Plan { property: prop.into(), seed: r.next(), mem: r.next() | 1, ..Default::default() };
  match prop {
    "C01" => c01(r, &mut p),
    "C02" => c02(r, &mut p),
    "C03" => c03(r, &mut p),
    "C04" => c04(r, &mut p),
    "C05" => c05(r, &mut p),
    "C06" => c06(r, &mut p),
    "C07" => c07(r, &mut p),
    "C08" => c08(r, &mut p),
    "C09" | "C10" => c09(r, &mut p),
    "C11" => c11(r, &mut p),
    "C12" => c12(r, &mut p),
    "C13" => c13(r, &mut p),
    "C14" => c14(r, &mut p),
    "C15" => c15(r, &mut p),
    "C16" => c16(r, &mut p),
    "C17" => c17(r, &mut p),
    "C19" => c19(r, &mut p),
    _ => panic!("no generator for {prop}"),
  }
  p.exec = *r.pick(&[0, 0, 1, 2, 3]);
  if prop != "C13" && p.wall == Plan::default().wall && r.chance(4) {
    if p.trust.is_empty() {
      p.neighbour = neighbour(r, &p);
    }
  }
  if prop != "C13" && r.chance(12) {
    // the wall clock is set while the client runs (certificates stay valid)
    for _ in 0..r.range(1, 3) {
      p.clock_jumps.push((r.log(1000, 60_000_000), *r.pick(&[1, -1, 30, -30, 3600, -3600, 86_400, -86_400, 40_000_000, -40_000_000])));
    }
  }
  p.conns.iter_mut().for_each(tame);
  p.tail.iter_mut().for_each(|c| tame(c));
  p
}
/// A second client next to the first: a program with one connection, under the same name or another.
fn neighbour(r: &mut Rng, p: &Plan) -> Option<Box<Plan>> {
  let mut n = Plan { property: p.property.clone(), seed: r.next(), mem: 0, logs: p.logs, wall: p.wall, ..Default::default() };
  match r.n(6) {
    0 => c05(r, &mut n),
    1 => c04(r, &mut n),
    2 => c16(r, &mut n),
    3 => c03(r, &mut n),
    _ => c01(r, &mut n),
  }
  if n.scenario.ends_with("silence") || n.conns.len() != 1 || n.tail.is_some() || !n.dns.is_empty() || !n.socket_errs.is_empty() || !matches!(&n.prog, Prog::Ops(v) if v.first().is_some_and(|o| o.call == Call::Connect && o.cancel.is_none()))
  {
    return None;
  }
  n.horizon = p.horizon.max(n.horizon);
  n.partitions = p.partitions.clone();
  n.clock_jumps.clear();
  n.conns.iter_mut().for_each(tame);
  Some(Box::new(n))
}

/// Keeps the number of packets within reason where much data meets tiny records or segments.
fn tame(c: &mut Conn) {
  let bytes: u64 = c.script.iter().map(|s| if let Step::Put(b) = s { b.0.len() as u64 } else { 0 }).sum();
  c.net.frag = c.net.frag.max((bytes / 6000) as u32).max(1);
  let raw = bytes + 23 * (bytes / c.net.frag as u64);
  let min = (raw / 12_000) as u32;
  c.net.chunks.iter_mut().for_each(|k| *k = (*k).max(min).max(1));
}

/// The first run of a property may be a fixed scenario.
pub fn plan_at(prop: &str, seed: u64, index: u64) -> Plan {
  let mut p = plan(prop, seed);
  if prop == "C04" && index == 0 {
    let mut r = Rng::new(seed);
    p = Plan { property: prop.into(), seed, mem: 0, ..Default::default() };
    unfinished(&mut r, &mut p);
  }
  p
}

/// Usually 1..=max, now and then a long history: what counts, fills up or wraps around must not show.
fn count(r: &mut Rng, max: u64, long: u64) -> u64 {
  if r.chance(4) {
    r.log(max, long)
  } else {
    r.log(1, max)
  }
}
/// Long silences: hours in which the server, the application or both do nothing.
fn silence(r: &mut Rng, p: &mut Plan, v: &mut Vec<Op>) {
  p.scenario.push_str("-silence");
  p.horizon = 2_000_000_000_000;
  let mut longest = 0;
  for _ in 0..r.range(1, 3) {
    let us = r.log(200_000_000, 200_000_000_000);
    longest += us;
    let c = p.conns.last_mut().unwrap();
    let nick = c.script.iter().position(|s| matches!(s, Step::Put(_))).map_or(0, |i| i + 1);
    match c.script.len() {
      // not within the handshake
      n if n > nick + 1 => {
        let greeted = c
          .script
          .iter()
          .scan(0usize, |n, s| {
            if let Step::Put(b) = s {
              *n += b.0.len()
            }
            Some(*n)
          })
          .position(|n| n >= CAP_ACK.len() + WELCOME.len())
          .unwrap_or(n - 1);
        let at = greeted + 1 + r.n((n - greeted) as u64) as usize;
        c.script.insert(at.min(n), Step::Sleep(us));
      }
      _ => {}
    }
  }
  for o in v.iter_mut() {
    if let Call::Drain { idle_us, .. } = &mut o.call {
      *idle_us = longest + 60_000_000;
    }
  }
  if r.chance(50) {
    let at = 1 + r.n(v.len() as u64) as usize;
    v.insert(at, op(Call::Sleep { us: r.log(200_000_000, 200_000_000_000) }));
  }
  if r.chance(50) {
    let at = 1 + r.n(v.len() as u64) as usize;
    v.insert(at, opc(Call::Recv, Some(Cancel::Us(longest + 60_000_000))));
  }
}

fn ops(p: &mut Plan, v: Vec<Op>) {
  p.prog = Prog::Ops(v);
}

fn c01(r: &mut Rng, p: &mut Plan) {
  p.scenario = "stream".into();
  creds(r, p);
  let n = count(r, 60, 6000) as usize;
  let ls = if r.n(1000) == 0 {
    // more lines than 16 bits count
    p.scenario = "stream-65536".into();
    (0..65_536 + r.n(300)).map(|i| format!("PING :{i}").into_bytes()).collect()
  } else {
    content(r, "a", n)
  };
  let mut c = feed(r, &ls);
  c.net = if ls.len() > 10_000 { fast(r) } else { net(r) };
  if r.chance(10) {
    c.faults.push(Fault { at: At::Us(r.log(100_000, 10_000_000)), what: What::Stall(r.log(1000, 20_000_000)) });
  }
  p.conns.push(c);
  if r.chance(10) {
    p.partitions.push((r.log(2_000_000, 20_000_000), r.log(1000, 15_000_000)));
  }
  let mut v = vec![op(Call::Connect)];
  let k = r.n(40);
  mixed_ops(r, k, &mut v, 50, 15);
  v.push(drain());
  if r.chance(4) {
    silence(r, p, &mut v);
  }
  ops(p, v);
}

fn c02(r: &mut Rng, p: &mut Plan) {
  p.scenario = "formats".into();
  let n = r.log(1, 40) as usize;
  let ls: Vec<Vec<u8>> = (0..n)
    .map(|_| match r.n(10) {
      0..=3 => lines::valid(r),
      4..=7 => lines::extreme(r),
      _ => typed::event(r),
    })
    .map(String::into_bytes)
    .collect();
  let mut c = feed(r, &ls);
  c.net.frag = c.net.frag.max(64);
  c.net.chunks.iter_mut().for_each(|k| *k = (*k).max(50));
  p.conns.push(c);
  ops(p, vec![op(Call::Connect), drain()]);
}

fn c03(r: &mut Rng, p: &mut Plan) {
  p.scenario = "hostile".into();
  let n = count(r, 60, 1500) as usize;
  let mut ls = vec![];
  for i in 0..n {
    ls.push(if r.chance(60) { lines::hostile(r) } else { chat(r, "a", i).into_bytes() });
  }
  ls.push(chat(r, "last", n).into_bytes());
  let mut c = feed(r, &ls);
  c.net.frag = c.net.frag.max(16);
  c.net.chunks.iter_mut().for_each(|k| *k = (*k).max(20));
  p.conns.push(c);
  let mut v = vec![];
  if r.chance(15) {
    // the garbage comes during the handshake
    p.conns.insert(0, garbage_answer(r));
    v.push(op(Call::Connect));
  }
  v.push(op(Call::Connect));
  let k = r.n(10);
  mixed_ops(r, k, &mut v, 50, 5);
  v.push(drain());
  ops(p, v);
}

/// orderly close in the middle of a line
fn unfinished(r: &mut Rng, p: &mut Plan) {
  p.scenario = "orderly-close-mid-line".into();
  let ls = content(r, "a", 3);
  let mut c = feed(r, &ls);
  c.script.push(Step::Put((*r.pick(&[":a!a@a.tmi.twitch.tv PRIVMSG #x :unfinished", "PING :unfinish", "@id=1;room-id="])).into()));
  c.script.push(Step::CloseNotify);
  c.script.push(Step::Fin);
  p.conns.push(c);
  ops(p, vec![op(Call::Connect), op(Call::Drain { idle_us: 60_000_000, max: 1000 }), op(Call::RecvAgain { n: 3 })])
}

fn c04(r: &mut Rng, p: &mut Plan) {
  if r.n(40) == 0 {
    return unfinished(r, p);
  }
  p.scenario = "ending".into();
  let n = count(r, 40, 2000) as usize;
  let ls = content(r, "a", n);
  let mut c = feed(r, &ls);
  if r.chance(40) {
    c.net = net(r);
  }
  ending(r, &mut c);
  p.conns.push(c);
  let mut v = vec![op(Call::Connect)];
  let k = r.n(20);
  mixed_ops(r, k, &mut v, 40, 15);
  v.push(op(Call::Drain { idle_us: 60_000_000, max: 20_000 }));
  v.push(op(Call::RecvAgain { n: 4 }));
  if r.chance(30) {
    v.push(op(send(r, 100)));
    v.push(op(Call::RecvAgain { n: 2 }));
  }
  if r.chance(4) {
    silence(r, p, &mut v);
  }
  ops(p, v);
}

fn c05(r: &mut Rng, p: &mut Plan) {
  p.scenario = "sends".into();
  let pings: Vec<Vec<u8>> = (0..r.n(5)).map(|i| format!("PING :p{i}").into_bytes()).collect();
  let mut c = feed(r, &pings);
  c.net = net(r);
  c.net.sndbuf = r.log(16, 70_000) as u32;
  c.net.lat_us = c.net.lat_us.min(20_000);
  let mut s = vec![];
  std::mem::swap(&mut s, &mut c.script);
  // rests between the sends, in which what was sent has to arrive by itself
  let rests = r.chance(25);
  let stalls = if rests { 0 } else { r.n(4) };
  for _ in 0..stalls {
    s.push(Step::Sleep(r.log(1000, 2_000_000)));
    s.push(Step::StallRead(r.log(1000, 30_000_000)));
    s.push(Step::Sleep(r.log(1000, 10_000_000)));
  }
  c.script = s;
  if !rests && r.chance(15) {
    c.faults.push(Fault { at: At::C2s(800 + r.n(3000)), what: What::Stall(r.log(10_000, 20_000_000)) });
  }
  let dies = !rests && r.chance(15);
  if dies {
    c.faults.push(Fault { at: if r.chance(50) { At::C2s(700 + r.n(6000)) } else { At::Us(r.log(100_000, 5_000_000)) }, what: (*r.pick(&[What::Rst, What::Fin, What::Errno(libc::ETIMEDOUT)])).clone() });
  }
  p.conns.push(c);
  let mut v = vec![op(Call::Connect)];
  let n = count(r, 30, 600);
  for _ in 0..n {
    match r.n(12) {
      0 => v.push(op(Call::Sleep { us: r.log(1, 3_000_000) })),
      1 => v.push(opc(Call::Recv, Some(Cancel::Us(r.log(1, 2_000_000))))),
      2 => v.push(opc(send(r, 3000), Some(cancel(r)))),
      3 if n <= 30 => {
        let n = r.log(500, 40_000);
        v.push(op(Call::Privmsg { ch: "#x".into(), text: words(r, n), reply: None, nonce: None }))
      }
      _ => v.push(op(send(r, 800))),
    }
    if rests && r.chance(60) {
      v.push(op(Call::Sleep { us: r.log(6_000_000, 40_000_000) }));
    }
  }
  if rests {
    p.horizon = 40_000_000_000;
  }
  if r.chance(20) {
    // far more than the buffers on the way hold
    let c = p.conns.last_mut().unwrap();
    c.net.sndbuf = c.net.sndbuf.max(1000);
    c.net.chunks.iter_mut().for_each(|k| *k = (*k).max(300));
    let n = r.range(16_000, 250_000) as usize;
    let mut text = words(r, 200);
    let mut i = 0;
    while text.len() < n {
      text.push_str(&format!(" {i} and so on"));
      i += 1;
    }
    let at = 1 + r.n(v.len() as u64) as usize;
    v.insert(at, op(Call::Privmsg { ch: "#x".into(), text, reply: None, nonce: None }));
    if r.chance(50) {
      return ops(p, v);
    }
  }
  // nothing follows the last send
  v.push(op(send(r, 2000)));
  if r.chance(4) {
    silence(r, p, &mut v);
  }
  ops(p, v);
}

fn c06(r: &mut Rng, p: &mut Plan) {
  p.scenario = "framing".into();
  creds(r, p);
  p.cfg.timeout_us = Some(*r.pick(&[1_000_000, 6_000_000]));
  let t = p.timeout_us();
  p.cfg.backoff = Some(Backoff { max_tries: Some(r.range(2, 6)), initial_us: 1000, mult: 2, max_us: 100_000 });
  let pings = |r: &mut Rng, tag: &str| -> Vec<Vec<u8>> {
    (0..r.n(5))
      .map(|i| match r.n(6) {
        0 => "PING".to_string(),
        1 => "PING :".to_string(),
        2 => format!("PING :{tag} {i} : x"),
        3 => ":tmi.twitch.tv PING :tmi.twitch.tv".to_string(),
        _ => format!("PING :{tag}{i}"),
      })
      .map(String::into_bytes)
      .collect()
  };
  let mut v = vec![op(Call::Connect)];
  let ls = pings(r, "a");
  p.conns.push(feed(r, &ls));
  let rounds = if r.chance(3) { r.range(5, 40) } else { r.n(4) };
  for k in 0..=rounds {
    let n = count(r, 8, if rounds > 4 { 10 } else { 1500 });
    for _ in 0..n {
      if r.chance(40) {
        v.push(opc(Call::Recv, Some(Cancel::Us(50_000))));
      }
      let c = if r.chance(12) { Some(cancel(r)) } else { None };
      v.push(opc(send(r, 300), c));
    }
    if k < rounds {
      let fails = r.n(4);
      for _ in 0..fails {
        let c = if r.chance(80) { transient(r, t) } else { permanent(r) };
        p.conns.push(c);
        if r.chance(15) {
          v.push(opc(Call::Reconnect, Some(cancel(r))));
        }
      }
      let ls = pings(r, "b");
      p.conns.push(feed(r, &ls));
      v.push(op(Call::Reconnect));
      if r.chance(70) {
        v.push(op(Call::Reconnect));
      }
    }
  }
  ops(p, v);
}

fn c07(r: &mut Rng, p: &mut Plan) {
  p.scenario = "handshake".into();
  creds(r, p);
  p.cfg.timeout_us = Some(*r.pick(&[2_000_000, 6_000_000, 30_000_000]));
  let t = p.timeout_us();
  p.cfg.backoff = Some(Backoff { max_tries: Some(r.range(1, 5)), initial_us: 1000, mult: 1, max_us: 1000 });
  let n = count(r, 5, 150);
  let mut v = vec![];
  let first_ok = r.chance(50);
  let same = r.chance(50);
  if first_ok {
    let ls = content(r, "z", 2);
    p.conns.push(feed(r, &ls));
    v.push(op(Call::Connect));
  }
  for _ in 0..n {
    let c = match r.n(10) {
      0..=4 => permanent(r),
      5 => garbage_answer(r),
      6 | 7 => transient(r, t),
      8 => {
        // talks before being asked
        let mut c = conn(r);
        let extra = lines::valid(r);
        c.script = vec![Step::Put(format!("{extra}\r\n").into()), Step::AwaitNick, Step::Put(CAP_ACK.into()), Step::Put(WELCOME.into())];
        c
      }
      _ => {
        let ls = content(r, "y", 2);
        feed(r, &ls)
      }
    };
    p.conns.push(c);
    v.push(op(if first_ok && (same || r.chance(70)) { Call::Reconnect } else { Call::Connect }));
    if r.chance(30) {
      v.push(op(Call::Ping { nonce: "x".into() }));
      v.push(opc(Call::Recv, Some(Cancel::Us(100_000))));
    }
  }
  ops(p, v);
}

fn c08(r: &mut Rng, p: &mut Plan) {
  timeout(r, p);
  let t = p.timeout_us();
  p.cfg.backoff = Some(Backoff { max_tries: Some(r.range(1, 3)), initial_us: 10_000, mult: 2, max_us: 1_000_000 });
  let mut v = vec![];
  let rec = r.chance(50);
  if rec {
    p.conns.push(conn(r));
    v.push(op(Call::Connect));
    v.push(op(Call::Reconnect));
  }
  if r.chance(30) {
    p.scenario = "steady".into();
    // slow, but always inside the limits
    let mut c = conn(r);
    let lim = t.min(5_000_000);
    let a = r.n(lim * 85 / 100);
    let b = r.n((t * 9 / 10).saturating_sub(a).min(lim * 9 / 10).max(1));
    c.net = Net::plain();
    c.dial = Dial::Ok { us: r.n(t * 7 / 10) };
    let mut hs = vec![Step::AwaitNick, Step::Sleep(a)];
    if r.chance(50) {
      // the reply itself comes in pieces
      let k = r.n(CAP_ACK.len() as u64) as usize;
      hs = vec![Step::AwaitNick, Step::Sleep(a / 2), Step::Put(CAP_ACK[..k].into()), Step::Sleep(a / 2), Step::Put(CAP_ACK[k..].into())];
    } else {
      hs.push(Step::Put(CAP_ACK.into()));
    }
    hs.push(Step::Sleep(b));
    hs.push(Step::Put(WELCOME.into()));
    c.script = hs;
    let base = p.conns.len();
    p.dns = vec![Dns::Ok { delay_us: 1000, addrs: 1 }; base];
    p.dns.push(Dns::Ok { delay_us: r.n(t * 15 / 100 + 1), addrs: 1 });
    p.conns.push(c);
  } else {
    p.scenario = "stall".into();
    for i in 0..4u64 {
      let mut c = conn(r);
      match r.n(10) {
        0 => {
          let at = p.conns.len();
          while p.dns.len() <= at {
            p.dns.push(Dns::Ok { delay_us: 1000, addrs: 1 });
          }
          p.dns[at] = Dns::Never;
          continue;
        }
        1 => c.dial = Dial::Blackhole,
        2 => c.dial = Dial::Ok { us: r.n(2 * t) },
        3 => c.faults.push(Fault { at: At::S2c(r.n(3000)), what: What::Stall(u64::MAX) }),
        4 => c.faults.push(Fault { at: At::C2s(r.n(800)), what: What::Stall(u64::MAX) }),
        5 => {
          c.faults.push(Fault { at: At::C2s(r.n(800)), what: What::Deaf });
          c.net.sndbuf = r.log(16, 400) as u32;
        }
        6 => c.script = vec![Step::AwaitNick],
        7 => c.script = vec![Step::AwaitNick, Step::Put(CAP_ACK.into())],
        8 => {
          // drips
          c.net.gap_us = r.log(1000, 200_000);
          c.net.chunks = vec![r.log(1, 20) as u32];
        }
        _ => {
          let all = format!("{CAP_ACK}{WELCOME}");
          let k = r.n(all.len() as u64) as usize;
          c.script = vec![Step::AwaitNick, Step::Put(all[..k].into())];
        }
      }
      if r.chance(15) {
        c.peer = Peer::Mute;
      }
      p.conns.push(c);
      if i > 0 && r.chance(50) {
        break;
      }
    }
    p.tail = p.conns.last().cloned().map(Box::new);
    if let Some(Dns::Never) = p.dns.last() {
      for _ in 0..4 {
        p.dns.push(Dns::Never);
      }
    }
  }
  if !rec {
    v.push(op(Call::Connect));
  }
  p.horizon = 4 * t * 4 + 120_000_000;
  ops(p, v);
}

fn c09(r: &mut Rng, p: &mut Plan) {
  p.scenario = "attempts".into();
  creds(r, p);
  timeout(r, p);
  backoff(r, p);
  let t = p.timeout_us();
  let mut v = vec![op(Call::Connect)];
  let ls = content(r, "a", 2);
  p.conns.push(feed(r, &ls));
  p.dns.push(Dns::Ok { delay_us: 1000, addrs: 1 });
  let calls = if r.chance(3) { r.range(4, 40) } else { r.range(1, 3) };
  for _ in 0..calls {
    let n = match r.n(4) {
      0 => 0,
      1 => r.range(1, 2),
      _ => r.n(10),
    };
    if r.chance(3) {
      // no limit of its own, or a high one
      if let Some(b) = &mut p.cfg.backoff {
        b.max_tries = if r.chance(70) { None } else { Some(r.range(20, 400)) };
        b.max_us = b.max_us.min(3_000_000);
      }
      for _ in 0..r.range(20, 300) {
        p.dns.push(Dns::Ok { delay_us: 1000, addrs: 1 });
        let mut c = Conn { dial: Dial::Fail { us: r.log(1, 3000), errno: libc::ECONNREFUSED }, ..conn(r) };
        c.faults.clear();
        p.conns.push(c);
      }
    }
    for _ in 0..n {
      let d = dns(r);
      let tries = match d {
        Dns::Err { .. } | Dns::Never => 0,
        Dns::Ok { delay_us, .. } if delay_us > t => 0,
        Dns::Ok { addrs, .. } => addrs,
      };
      p.dns.push(d);
      for _ in 0..tries {
        p.conns.push(transient(r, t));
      }
    }
    p.dns.push(Dns::Ok { delay_us: 1000, addrs: 1 });
    p.conns.push(match r.n(6) {
      0 | 1 => permanent(r),
      2 => transient(r, t),
      _ => {
        let ls = content(r, "b", 2);
        feed(r, &ls)
      }
    });
    let c = if r.chance(15) { Some(Cancel::Us(r.log(1000, 60_000_000))) } else { None };
    v.push(opc(Call::Reconnect, c));
    if r.chance(50) {
      v.push(opc(Call::Recv, Some(Cancel::Us(500_000))));
    }
  }
  v.push(op(Call::Sleep { us: 200_000_000 }));
  if r.chance(5) {
    p.socket_errs.push((r.range(1, 4) as u32, *r.pick(&[libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::ENOMEM, libc::EACCES])));
  }
  ops(p, v);
}

fn c11(r: &mut Rng, p: &mut Plan) {
  p.scenario = "replace".into();
  creds(r, p);
  p.cfg.timeout_us = Some(*r.pick(&[2_000_000, 6_000_000]));
  let t = p.timeout_us();
  p.cfg.backoff = Some(Backoff { max_tries: Some(6), initial_us: *r.pick(&[0, 1000, 500_000, 2_000_000]), mult: 2, max_us: 1_000_000 });
  let mut v = vec![op(Call::Connect)];
  let rounds = count(r, 4, 40);
  for k in 0..=rounds {
    let n = count(r, 30, if rounds > 4 { 40 } else { 1000 }) as usize;
    let ls = content(r, &format!("c{k}"), n);
    let mut c = feed(r, &ls);
    if r.chance(30) {
      // a line left unfinished when the connection is replaced
      let l = format!("@id=c{k}-part :a!a@a.tmi.twitch.tv PRIVMSG #x :half of a li");
      let n = match r.n(5) {
        0 | 1 => l.len(),
        2 => 1,
        3 => 1 + r.n(3) as usize,
        _ => r.log(1, l.len() as u64) as usize,
      };
      c.script.push(Step::Put(l[..n].into()));
    }
    if r.chance(40) {
      // keeps talking
      let more = content(r, &format!("late{k}"), 5);
      for l in more {
        c.script.push(Step::Sleep(r.log(1000, 2_000_000)));
        let l = term(r, &l);
        c.script.push(Step::Put(Bytes(l)));
      }
    }
    if r.chance(35) {
      ending(r, &mut c);
    }
    p.conns.push(c);
    let m = r.n(8);
    mixed_ops(r, m, &mut v, 30, 35);
    if r.chance(40) {
      let long = r.chance(4);
      if long {
        p.horizon = 2_000_000_000_000;
      }
      v.push(op(Call::Sleep { us: r.log(1000, if long { 200_000_000_000 } else { 3_000_000 }) }));
    }
    if k < rounds {
      for _ in 0..r.n(3) {
        p.conns.push(transient(r, t));
      }
      v.push(op(Call::Reconnect));
    }
  }
  if r.chance(70) {
    v.push(drain());
  }
  ops(p, v);
}

fn c12(r: &mut Rng, p: &mut Plan) {
  p.scenario = "abandon".into();
  creds(r, p);
  p.cfg.timeout_us = Some(*r.pick(&[2_000_000, 6_000_000, 30_000_000]));
  let t = p.timeout_us();
  p.cfg.backoff = Some(Backoff { max_tries: Some(r.range(3, 8)), initial_us: *r.pick(&[0, 1000, 500_000]), mult: 2, max_us: 1_000_000 });
  let mut v = vec![];
  if r.chance(20) {
    p.conns.push(transient(r, t));
    v.push(opc(Call::Connect, Some(cancel(r))));
  }
  let n = r.log(1, 20) as usize;
  let ls = content(r, "a", n);
  p.conns.push(feed(r, &ls));
  v.push(op(Call::Connect));
  let rounds = count(r, 4, 30);
  for k in 0..rounds {
    let m = r.n(8);
    mixed_ops(r, m, &mut v, 70, 40);
    let q = r.range(1, 3);
    for _ in 0..q {
      let c = match r.n(4) {
        0 => transient(r, t),
        1 if r.chance(30) => permanent(r),
        _ => {
          let n = r.log(1, 10) as usize;
          let ls = content(r, &format!("r{k}"), n);
          let mut c = feed(r, &ls);
          c.net = net(r);
          c.net.gap_us = c.net.gap_us.min(200);
          c
        }
      };
      p.conns.push(c);
      let at = match r.n(5) {
        // anywhere within an attempt, in fine steps
        0..=2 => Cancel::Us(p.backoff().initial_us + r.n(400_000)),
        3 => Cancel::Polls(r.range(1, 20) as u32),
        _ => cancel(r),
      };
      v.push(opc(Call::Reconnect, if r.chance(85) { Some(at) } else { None }));
      if r.chance(30) {
        v.push(opc(Call::Recv, Some(cancel(r))));
      }
      if r.chance(20) {
        v.push(opc(send(r, 200), Some(cancel(r))));
      }
    }
  }
  let ls = content(r, "tail", 8);
  let tail = feed(r, &ls);
  p.tail = Some(Box::new(tail));
  // once everything above is used up, one undisturbed reconnect
  for _ in 0..p.conns.len() {
    v.push(opc(Call::Reconnect, Some(Cancel::Us(p.backoff().initial_us + 150_000))));
    if r.chance(70) {
      v.pop();
    }
  }
  v.push(op(Call::Reconnect));
  v.push(op(send(r, 100)));
  v.push(drain());
  v.push(op(send(r, 100)));
  ops(p, v);
}

/// Faults of the store of trusted certificates.
fn trust(r: &mut Rng, p: &mut Plan, percent: u64) {
  if !r.chance(percent) || p.neighbour.is_some() {
    return;
  }
  for _ in 0..r.range(1, 3) {
    p.trust.push(*r.pick(&[Trust::Good, Trust::Directory, Trust::Empty, Trust::Torn, Trust::Odd, Trust::Other, Trust::Both]));
  }
  for c in &mut p.conns {
    if let Peer::Tls { cert, .. } = &mut c.peer {
      if r.chance(30) {
        *cert = "other".into();
      }
    }
  }
}

fn c13(r: &mut Rng, p: &mut Plan) {
  p.scenario = "peers".into();
  p.logs = true;
  match r.n(4) {
    0 => p.cfg.token = Some("raWt0ken5ecretNoPrefix".into()),
    1 => p.cfg.token = Some("oauth:wh4tever-Tok3n_value".into()),
    2 => creds(r, p),
    _ => {}
  }
  p.cfg.timeout_us = Some(2_000_000);
  p.cfg.backoff = Some(Backoff { max_tries: Some(r.range(1, 5)), initial_us: 1000, mult: 1, max_us: 1000 });
  let mut v = vec![];
  let pick = |r: &mut Rng| match r.n(8) {
    0..=3 => unauthentic(r),
    4 => permanent(r),
    5 => transient(r, 2_000_000),
    6 => {
      let mut c = conn(r);
      c.peer = Peer::Tls { cert: "year".into(), v12: r.chance(30) };
      c
    }
    _ => {
      let ls = content(r, "a", 3);
      let mut c = feed(r, &ls);
      if r.chance(30) {
        c.script.push(Step::Put(Bytes([lines::hostile(r), b"\r\n".to_vec()].concat())));
        ending(r, &mut c);
      }
      c
    }
  };
  if r.chance(70) {
    let ls = content(r, "ok", 2);
    p.conns.push(feed(r, &ls));
    v.push(op(Call::Connect));
    v.push(op(Call::Privmsg { ch: "#x".into(), text: "hello".into(), reply: None, nonce: None }));
    for _ in 0..r.range(1, 4) {
      p.conns.push(pick(r));
    }
    for _ in 0..r.range(1, 4) {
      v.push(op(Call::Reconnect));
      v.push(opc(Call::Recv, Some(Cancel::Us(100_000))));
      v.push(op(send(r, 100)));
    }
  } else {
    for _ in 0..r.range(1, 3) {
      p.conns.push(pick(r));
      v.push(op(Call::Connect));
    }
  }
  if r.chance(30) {
    // the clock is wrong or moves
    p.clock_jumps.push((r.n(2_000_000), *r.pick(&[40_000_000, -40_000_000, 86_400, -86_400, 400_000_000, -1_000_000_000])));
  }
  trust(r, p, 15);
  if r.chance(20) {
    p.wall = *r.pick(&[946_684_800, 1_650_000_000, 1_716_000_000, 1_717_300_000, 4_000_000_000]);
  }
  ops(p, v);
}

fn c14(r: &mut Rng, p: &mut Plan) {
  p.scenario = "anonymous".into();
  p.cfg.login = None;
  p.cfg.token = None;
  if r.chance(50) {
    p.cfg.timeout_us = Some(6_000_000);
    p.cfg.backoff = Some(Backoff { max_tries: Some(4), initial_us: 1000, mult: 1, max_us: 1000 });
  }
  let mut v = vec![];
  for _ in 0..8 {
    v.push(op(Call::Connect));
    p.conns.push(conn(r));
    for _ in 0..r.n(3) {
      if r.chance(30) {
        p.conns.push(transient(r, 6_000_000));
      }
      p.conns.push(conn(r));
      v.push(op(Call::Reconnect));
    }
  }
  ops(p, v);
}

fn c15(r: &mut Rng, p: &mut Plan) {
  p.scenario = "bot".into();
  creds(r, p);
  p.cfg.timeout_us = Some(r.range(1_500_000, 8_000_000));
  let t = p.timeout_us();
  p.cfg.backoff = match r.n(4) {
    0 => None,
    _ => Some(Backoff { max_tries: *r.pick(&[Some(1), Some(3), Some(8), None]), initial_us: *r.pick(&[1000, 300_000, 1_000_000]), mult: *r.pick(&[1, 2, 3]), max_us: *r.pick(&[1_000_000, 4_000_000]) }),
  };
  let b = p.backoff();
  let idle = if r.chance(60) { Some(r.range(30_000_000, 90_000_000)) } else { None };
  let live = |r: &mut Rng, again: bool| Step::Live { ping_us: r.range(4_000_000, 15_000_000), chat_us: r.range(1_000_000, 9_000_000), reconnect_after_us: if again { r.log(1_000_000, 40_000_000) } else { 0 } };
  let n = if r.chance(3) { r.log(8, 80) } else { r.range(1, 7) };
  let mut bound: u64 = 0;
  for _ in 0..n {
    let mut c;
    if r.chance(45) {
      c = if r.chance(75) {
        transient(r, t)
      } else if r.chance(50) {
        unauthentic(r)
      } else {
        permanent(r)
      };
      bound += 2 * t + b.max_us.max(b.initial_us) + 20_000_000;
      if c.script.len() >= 3 && c.faults.is_empty() {
        // may be accepted late; never leave a silent accepted connection behind
        c.script.push(Step::Sleep(1_000_000));
        c.script.push(Step::Fin);
      } else if !c.faults.is_empty() {
        // such a connection may be accepted and then say nothing: only an idle timer notices that
        match idle {
          Some(i) => bound += i,
          None => {
            for f in &mut c.faults {
              if let What::Stall(d) = &mut f.what {
                *d = 2 * t;
              }
            }
            c.faults.push(Fault { at: At::Us(4 * t + 10_000_000), what: What::Rst });
            bound += 4 * t + 10_000_000;
          }
        }
      }
    } else {
      c = conn(r);
      let again = r.chance(25);
      c.script.push(live(r, again));
      let at = if r.chance(60) { At::Us(r.log(100_000, 60_000_000)) } else { At::S2c(2000 + r.n(3000)) };
      let what = match r.n(10) {
        0 | 1 => What::Fin,
        2 | 3 => What::Rst,
        4 => What::Errno(errno(r)),
        5 if idle.is_some() => What::Corrupt,
        6 | 7 if idle.is_some() => What::Stall(u64::MAX),
        8 => What::Stall(r.log(100_000, 20_000_000)),
        _ => What::Rst,
      };
      if matches!(what, What::Stall(d) if d != u64::MAX) {
        // ends for real later
        c.faults.push(Fault { at: At::Us(70_000_000), what: What::Rst });
      }
      c.faults.push(Fault { at, what });
      if again && r.chance(50) {
        c.faults.clear();
      }
      if let (At::S2c(_), true) = (&c.faults.first().map(|f| f.at.clone()).unwrap_or(At::Us(0)), true) {
        c.faults.push(Fault { at: At::Us(120_000_000), what: What::Rst });
      }
      bound += 130_000_000 + idle.unwrap_or(0) * 2 + 2 * t + b.max_us.max(b.initial_us) + 20_000_000;
    }
    p.conns.push(c);
  }
  for k in 0..n {
    if r.chance(15) {
      while p.dns.len() <= k as usize {
        p.dns.push(Dns::Ok { delay_us: 1000, addrs: 1 });
      }
      p.dns[k as usize] = dns(r);
      bound += 2 * t + b.max_us + 20_000_000;
    }
  }
  if r.chance(12) {
    // the trust store is being repaired
    for _ in 0..r.range(1, 3) {
      p.trust.push(*r.pick(&[Trust::Directory, Trust::Empty, Trust::Torn, Trust::Odd, Trust::Other, Trust::Both]));
      bound += 2 * t + 40_000_000;
    }
    for c in &mut p.conns {
      if let Peer::Tls { cert, .. } = &mut c.peer {
        if cert == "other" {
          *cert = "untrusted".into();
        }
      }
    }
  }
  // a send into a dead connection lasts until the kernel gives up on it
  bound += 930_000_000 * p.conns.iter().filter(|c| c.faults.iter().any(|f| matches!(f.what, What::Stall(u64::MAX)))).count() as u64;
  let mut c = conn(r);
  c.script.push(live(r, false));
  p.tail = Some(Box::new(c));
  for c in p.conns.iter_mut().chain(p.tail.as_deref_mut()) {
    // long lives: not in tiny packets
    c.net.frag = c.net.frag.max(64);
    c.net.chunks.iter_mut().for_each(|k| *k = (*k).max(24));
    c.net.gap_us = c.net.gap_us.min(1000);
  }
  let mut outages = 0;
  for _ in 0..r.n(3) {
    let (a, l) = (r.log(100_000, 100_000_000), r.log(100_000, 30_000_000));
    p.partitions.push((a, l));
    outages = outages.max(a + l);
  }
  // a partition can delay or time out attempts while it lasts
  let run = bound + outages + 150_000_000 + 60_000_000 + p.partitions.iter().map(|x| x.1 + 20_000_000).sum::<u64>();
  p.horizon = run + 1_000_000_000;
  p.prog = Prog::Bot(Bot { channels: (0..r.range(1, 4)).map(|i| format!("#ch{i}")).collect(), idle_us: idle, chatter_us: r.chance(40).then(|| r.range(500_000, 20_000_000)), spawned: r.chance(40), run_us: run });
}

fn c16(r: &mut Rng, p: &mut Plan) {
  p.scenario = "events".into();
  let n = count(r, 60, 1500) as usize;
  let ls: Vec<Vec<u8>> = (0..n).map(|_| typed::event(r).into_bytes()).collect();
  let mut c = feed(r, &ls);
  c.net.frag = c.net.frag.max(64);
  c.net.chunks.iter_mut().for_each(|k| *k = (*k).max(50));
  p.conns.push(c);
  ops(p, vec![op(Call::Connect), drain()]);
}

fn c19(r: &mut Rng, p: &mut Plan) {
  p.scenario = "repeats".into();
  creds(r, p);
  p.cfg.backoff = Some(Backoff { max_tries: Some(3), initial_us: 1000, mult: 2, max_us: 10_000 });
  let pings: Vec<Vec<u8>> = (0..r.n(4)).map(|i| format!("PING :p{i}").into_bytes()).collect();
  let rounds = r.range(1, 3);
  let mut v = vec![];
  let quiet = r.chance(50);
  for k in 0..rounds {
    let mut c = feed(r, &pings);
    c.net = net(r);
    c.net.sndbuf = r.log(16, 70_000) as u32;
    if r.chance(40) {
      let i = r.range(3.min(c.script.len() as u64), c.script.len() as u64 + 1) as usize;
      c.script.insert(i.min(c.script.len()), Step::StallRead(r.log(1000, 10_000_000)));
    }
    p.conns.push(c);
    v.push(op(if k == 0 { Call::Connect } else { Call::Reconnect }));
    for _ in 0..count(r, 30, 600) {
      let text = (*r.pick(&["x", "x", "x", "hi", "Kappa 123", "", "日本 "])).to_string();
      let ch = (*r.pick(&["#x", "#x", "#x", "#y"])).to_string();
      match r.n(14) {
        0 => v.push(op(Call::Sleep { us: r.log(1, 3_000_000) })),
        1 => v.push(opc(Call::Recv, Some(Cancel::Us(r.log(1, 100_000))))),
        2 => v.push(op(Call::PongLast)),
        3 if !quiet => v.push(opc(Call::Say { ch, text }, Some(cancel(r)))),
        4 if !quiet => v.push(op(send(r, 100))),
        _ => v.push(op(Call::Say { ch, text })),
      }
    }
  }
  ops(p, v);
}

fn c17(r: &mut Rng, p: &mut Plan) {
  p.scenario = "keep".into();
  p.cfg.timeout_us = Some(3_000_000);
  p.cfg.backoff = Some(Backoff { max_tries: Some(4), initial_us: 1000, mult: 1, max_us: 1000 });
  let mut v = vec![op(Call::Connect)];
  let rounds = r.range(1, 3);
  for k in 0..rounds {
    let n = count(r, 30, 600) as usize;
    let ls: Vec<Vec<u8>> = (0..n)
      .map(|i| match r.n(8) {
        0 => lines::valid(r).into_bytes(),
        1 if r.chance(30) => lines::extreme(r).into_bytes(),
        2 => chat(r, "k", i).into_bytes(),
        3 => lines::hostile(r),
        _ => typed::event(r).into_bytes(),
      })
      .filter(|l| !l.is_empty())
      .collect();
    let mut c = feed(r, &ls);
    c.net.frag = c.net.frag.max(64);
    c.net.chunks.iter_mut().for_each(|k| *k = (*k).max(50));
    if r.chance(40) {
      ending(r, &mut c);
    }
    p.conns.push(c);
    let m = r.n(6);
    mixed_ops(r, m, &mut v, 40, 40);
    v.push(op(Call::Drain { idle_us: r.log(10_000, 3_000_000), max: 1000 }));
    if k + 1 < rounds {
      v.push(op(Call::Reconnect));
    }
  }
  if r.chance(50) {
    v.push(op(Call::Drop));
  }
  ops(p, v);
}
