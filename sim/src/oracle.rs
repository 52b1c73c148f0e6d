//! Decides a finished run: the recorded history of the application against what the simulated
//! world did. Every check only uses facts the simulator knows (bytes and times on each side),
//! never how the client works inside.

use crate::driver::*;
use crate::plan::*;
use crate::view::reference;
use crate::world::{ConnLog, World};
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
pub struct V {
  pub class: &'static str,
  pub msg: String,
  pub at: u64,
}

/// Which properties a class of violation breaks.
pub fn properties(class: &str) -> &'static [&'static str] {
  match class {
    "panic" | "crash" => &["C19", "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17"],
    "recv-lost" | "recv-dup" | "recv-garbled" | "recv-stall" => &["C01", "C03", "C04", "C11", "C12"],
    "recv-foreign" => &["C01", "C11", "C12"],
    "recv-content" => &["C02", "C01", "C03"],
    "valid-rejected" => &["C01", "C02", "C03"],
    "view" => &["C02", "C03"],
    "spurious-error" | "spurious-disconnect" => &["C01", "C03", "C04", "C11", "C12"],
    "unfinished-line" => &["C04"],
    "lost-at-end" | "end-not-disconnect" | "end-stall" | "msg-after-end" => &["C04", "C03", "C12"],
    "wire" => &["C05", "C06", "C11", "C12", "C19"],
    "raw-refused" => &["C06"],
    "send-hang" | "send-error" => &["C05", "C12", "C19"],
    "handshake-bytes" | "handshake-extra" => &["C06", "C07", "C11", "C12"],
    "false-success" | "refusal" => &["C07", "C12"],
    "not-accepted" => &["C07", "C08", "C10", "C12", "C01", "C02", "C03", "C05", "C06", "C11", "C04", "C14", "C16", "C17", "C19"],
    "hang-connect" => &["C08", "C12"],
    "early-timeout" => &["C08"],
    "connect-cause" => &["C08", "C10"],
    "gave-up" => &["C09", "C10", "C12"],
    "cause" | "retried-permanent" => &["C10", "C12"],
    "schedule" | "tries" => &["C09", "C12"],
    "leak" => &["C11", "C12", "C15"],
    "secret" | "bad-peer" | "endpoint" => &["C13"],
    "anon" => &["C14"],
    "bot" => &["C15"],
    "typed" => &["C16"],
    "kept" => &["C17"],
    "bypass" => &["C19"],
    "filtered" => &["C19"],
    _ => &[],
  }
}

pub struct Verdict {
  pub violations: Vec<V>,
  /// known findings met, by id
  pub known: BTreeSet<String>,
  pub probes: Vec<&'static str>,
}

const MS: u64 = 1000;

struct Lines {
  lines: Vec<(usize, Vec<u8>)>, // (end offset including '\n', bytes without line break)
  rest: Vec<u8>,
}
fn lines(b: &[u8]) -> Lines {
  let mut v = vec![];
  let mut at = 0;
  while let Some(i) = b[at..].iter().position(|c| *c == b'\n') {
    let l = &b[at..at + i];
    let l = l.strip_suffix(b"\r").unwrap_or(l);
    v.push((at + i + 1, l.to_vec()));
    at += i + 1;
  }
  Lines { lines: v, rest: b[at..].to_vec() }
}
/// when all of sent[..n] had arrived in the client's kernel, us
fn arrival(l: &ConnLog, n: usize) -> Option<u64> {
  l.arrived.iter().find(|(_, k)| *k >= n).map(|(t, _)| t / 1000)
}
fn ended(l: &ConnLog) -> Option<u64> {
  l.ended.map(|(t, _)| t / 1000)
}
/// earliest moment at which the client can know that the connection is over
fn over_from(l: &ConnLog) -> Option<u64> {
  [ended(l), l.close_notify_sent.map(|t| t / 1000), l.corrupt_off.map(|_| 0)].into_iter().flatten().min()
}
fn valid(b: &[u8]) -> bool {
  std::str::from_utf8(b).is_ok_and(|s| reference(s).is_some())
}
fn invisible(c: char) -> bool {
  c == ' ' || matches!(c, '\u{2800}' | '\u{34f}' | '\u{200b}'..='\u{200f}' | '\u{2060}'..='\u{2064}' | '\u{feff}' | '\u{180e}' | '\u{ad}' | '\u{3164}' | '\u{ffa0}' | '\u{e0000}'..='\u{e007f}')
}
fn short(s: impl AsRef<[u8]>) -> String {
  let e = enc(s.as_ref());
  if e.chars().count() > 300 {
    let h: String = e.chars().take(200).collect();
    let t: String = e.chars().skip(e.chars().count() - 60).collect();
    format!("{h}...{t}")
  } else {
    e
  }
}

// ------------------------------------------------------------------ attempts

#[derive(Debug, Clone)]
enum Verd {
  /// must have been accepted
  Success,
  /// must end the operation, with one of these causes (prefix match); empty: any cause
  Perm(Vec<String>),
  /// must count as a failure that is retried
  Trans(Vec<String>),
  /// no claim
  Any,
}
struct Attempt {
  start: u64,
  verd: Verd,
  ends: Vec<u64>,
  conns: Vec<usize>,
  bad_peer: bool,
}
fn is_ack(l: &[u8]) -> bool {
  let v = std::str::from_utf8(l).ok().and_then(reference);
  v.is_some_and(|v| v.command == "CAP" && v.params.is_some_and(|p| p.starts_with("* ACK")))
}
fn is_001(l: &[u8]) -> bool {
  std::str::from_utf8(l).ok().and_then(reference).is_some_and(|v| v.command == "001")
}
fn io(kind: &str, errno: i32) -> String {
  format!("{kind}:{:?}", std::io::Error::from_raw_os_error(errno).kind())
}
const NEAR: u64 = 20 * MS;

fn attempt(plan: &Plan, w: &World, li: usize, c0: usize, c1: usize, until: u64) -> Attempt {
  let t = plan.timeout_us();
  let lk = &w.lookups[li];
  let s = lk.at / 1000;
  let conns: Vec<usize> = (c0..c1).filter(|&c| w.logs[c].lookup == li + 1).collect();
  let mut ends = vec![s];
  if let Some(d) = lk.done {
    ends.push(d / 1000);
  }
  for &c in &conns {
    let l = &w.logs[c];
    ends.extend(l.rx_at.iter().chain(l.tx_at.iter()).map(|x| x / 1000));
    ends.extend([l.established.map(|x| x / 1000), l.failed.map(|x| x.0 / 1000), ended(l)].into_iter().flatten());
  }
  let bad_peer = conns.iter().any(|&c| !w.logs[c].good_peer);
  let strs = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
  let timeout = || Verd::Trans(vec!["Timeout".into()]);
  let lost = || Verd::Trans(strs(&["Open:", "Read:Io", "Read:StreamClosed", "Io:"]));
  // was `at` surely before / surely after the deadline?
  let before = |at: u64, dl: u64| at + NEAR < dl;
  let after = |at: u64, dl: u64| at > dl + NEAR;
  let verd = (|| {
    if conns.is_empty() {
      return match lk.done {
        Some(d) if before(d / 1000, s + t) => {
          if matches!(plan.dns.get(li), Some(Dns::Err { .. })) {
            Verd::Trans(vec!["Open:".into()])
          } else {
            Verd::Any
          }
        }
        Some(d) if !after(d / 1000, s + t) => Verd::Any,
        _ => timeout(),
      };
    }
    if conns.len() > 1 || bad_peer || w.logs[conns[0]].doubtful {
      return Verd::Any;
    }
    let l = &w.logs[conns[0]];
    if let Some((ft, e)) = l.failed {
      let ft = ft / 1000;
      return if before(ft, s + t) {
        Verd::Trans(vec![io("Open", e)])
      } else if after(ft, s + t) {
        timeout()
      } else {
        Verd::Any
      };
    }
    let Some(est) = l.established.map(|x| x / 1000) else {
      return timeout();
    };
    if after(est, s + t) {
      return timeout();
    }
    if l.corrupt_off.is_some() {
      return Verd::Trans(vec![]);
    }
    let end = over_from(l);
    let up = l.tls_up.map(|x| x / 1000);
    // nothing of the handshake reached the server
    if l.plain.is_empty() {
      return match end {
        // either phase may have been cut; a timeout may have come first
        Some(e) if before(e, est + t.min(5_000_000)) && before(e, s + t) => lost(),
        Some(_) => Verd::Trans(vec![]),
        None => timeout(),
      };
    }
    let up = up.unwrap_or(est);
    if !before(up, s + t) {
      return Verd::Any;
    }
    let step = t.min(5_000_000);
    let ls = lines(&l.sent);
    let line = |i: usize| ls.lines.get(i).and_then(|(n, b)| arrival(l, *n).map(|a| (a, b.clone())));
    let cut = |from: u64, early: u64| match end {
      Some(e) if before(e, early) => lost(),
      Some(e) if after(e, from) => timeout(),
      Some(_) => Verd::Trans(vec![]),
      None => timeout(),
    };
    let Some((a1, l1)) = line(0) else {
      return cut(up + step, est + step);
    };
    if after(a1, up + step) {
      return timeout();
    }
    if !before(a1, est + step) {
      return Verd::Any;
    }
    if !valid(&l1) {
      return garbled(&l1);
    }
    let raw = String::from_utf8_lossy(&l1).to_string();
    let v1 = reference(&raw).unwrap();
    if !is_ack(&l1) {
      return Verd::Perm(match v1.command.as_str() {
        "CAP" => vec![],
        "NOTICE" => vec![format!("Welcome:{raw}"), format!("Notice:{raw}"), "Auth".into()],
        _ => vec![format!("Welcome:{raw}")],
      });
    }
    let Some((a2, l2)) = line(1) else {
      return cut((a1 + 5_000_000).min(up + t), (a1 + 5_000_000).min(est + t));
    };
    if after(a2, a1 + 5_000_000) || after(a2, up + t) {
      return timeout();
    }
    if !before(a2, a1 + 5_000_000) || !before(a2, est + t) {
      return Verd::Any;
    }
    if !valid(&l2) {
      return garbled(&l2);
    }
    let raw = String::from_utf8_lossy(&l2).to_string();
    let v2 = reference(&raw).unwrap();
    match v2.command.as_str() {
      "001" => Verd::Success,
      "NOTICE" => {
        let p = v2.params.clone().unwrap_or_default();
        if p.contains("authentication failed") {
          Verd::Perm(vec!["Auth".into()])
        } else if ["Improperly formatted auth", "Login unsuccessful", "Invalid NICK", "Invalid auth"].iter().any(|x| p.contains(x)) {
          Verd::Perm(vec!["Auth".into(), format!("Notice:{raw}")])
        } else {
          Verd::Perm(vec![format!("Notice:{raw}")])
        }
      }
      _ => Verd::Perm(vec![format!("Welcome:{raw}")]),
    }
  })();
  // still going on when the operation was abandoned?
  let _ = until;
  Attempt { start: s, verd, ends, conns, bad_peer }
}
/// An answer that is no message at all is as unexpected as one that says something else; whether
/// bytes that are not even text are a damaged answer or a wrong one is left open.
fn garbled(l: &[u8]) -> Verd {
  match std::str::from_utf8(l) {
    Ok(s) if !["CAP", "001", "NOTICE"].iter().any(|w| s.contains(w)) => Verd::Perm(vec![]),
    _ => Verd::Any,
  }
}
fn kind_ok(kinds: &[String], k: &str) -> bool {
  kinds.is_empty() || kinds.iter().any(|p| if p.ends_with(':') || p == "Read:Io" { k.starts_with(p.as_str()) } else { k == p })
}

// ------------------------------------------------------------------ handshake bytes

fn expected_login(plan: &Plan) -> Option<(&str, Option<String>)> {
  let login = plan.cfg.login.as_deref()?;
  Some((login, plan.cfg.token.as_ref().map(|t| format!("PASS oauth:{}", t.strip_prefix("oauth:").unwrap_or(t)))))
}
fn anon_login(s: &str) -> bool {
  s.strip_prefix("justinfan").is_some_and(|d| d.len() == 5 && d.bytes().all(|b| b.is_ascii_digit()))
}
fn hs_line_ok(plan: &Plan, i: usize, kinds: &mut [bool; 3], l: &str, complete: bool) -> bool {
  let _ = i;
  let cap = |l: &str| {
    let Some(r) = l.strip_prefix("CAP REQ :") else {
      return false;
    };
    let mut v: Vec<&str> = r.split(' ').collect();
    v.sort();
    v == ["twitch.tv/commands", "twitch.tv/membership", "twitch.tv/tags"]
  };
  let login = expected_login(plan);
  if complete {
    let k = if cap(l) {
      0
    } else if let Some(p) = l.strip_prefix("PASS ") {
      let good = match &login {
        Some((_, Some(w))) => l == w,
        _ => !p.is_empty() && !p.contains(' '),
      };
      if !good {
        return false;
      }
      1
    } else if let Some(n) = l.strip_prefix("NICK ") {
      let good = match &login {
        Some((w, _)) => n == *w,
        None => anon_login(n),
      };
      if !good || !kinds[1] {
        return false;
      }
      2
    } else {
      return false;
    };
    !std::mem::replace(&mut kinds[k], true)
  } else {
    let pre = |w: &str| w.starts_with(l) || l.starts_with(w);
    (!kinds[0] && pre("CAP REQ :"))
      || (!kinds[1]
        && match &login {
          Some((_, Some(w))) => w.starts_with(l.trim_end_matches('\r')),
          _ => pre("PASS "),
        })
      || (!kinds[2]
        && match &login {
          Some((w, _)) => format!("NICK {w}\r").starts_with(l),
          None => pre("NICK "),
        })
  }
}
/// Checks the client's first bytes; Ok(length of a complete handshake) or Ok(None) if it was cut short.
fn handshake_bytes(plan: &Plan, plain: &[u8]) -> Result<Option<usize>, String> {
  let mut kinds = [false; 3];
  let mut at = 0;
  for i in 0..3 {
    let rest = &plain[at..];
    if rest.is_empty() {
      return Ok(None);
    }
    match rest.windows(2).position(|w| w == b"\r\n") {
      Some(n) => {
        let l = String::from_utf8_lossy(&rest[..n]).to_string();
        if !hs_line_ok(plan, i, &mut kinds, &l, true) {
          return Err(format!("handshake line {} is {:?}", i + 1, short(&l)));
        }
        at += n + 2;
      }
      None => {
        let l = String::from_utf8_lossy(rest).to_string();
        if !hs_line_ok(plan, i, &mut kinds, &l, false) {
          return Err(format!("handshake line {} begins {:?}", i + 1, short(&l)));
        }
        return Ok(None);
      }
    }
  }
  Ok(Some(at))
}

// ------------------------------------------------------------------ frames

fn tag_value(s: &str) -> String {
  let mut o = String::new();
  for c in s.chars() {
    match c {
      ';' => o.push_str("\\:"),
      ' ' => o.push_str("\\s"),
      '\\' => o.push_str("\\\\"),
      '\r' => o.push_str("\\r"),
      '\n' => o.push_str("\\n"),
      c => o.push(c),
    }
  }
  o
}
fn chan(c: &str) -> String {
  if c.starts_with('#') {
    c.into()
  } else {
    format!("#{c}")
  }
}
/// The line a call must put on the wire. None: nothing (refused).
fn frames(call: &Call, last_ping: Option<&str>) -> Option<Vec<String>> {
  Some(match call {
    Call::Privmsg { ch, text, reply, nonce } => {
      let mut tags = vec![];
      if let Some(r) = reply {
        tags.push(format!("reply-parent-msg-id={}", tag_value(r)));
      }
      if let Some(n) = nonce {
        tags.push(format!("client-nonce={}", tag_value(n)));
      }
      let body = format!("PRIVMSG {ch} :{text}\r\n");
      match tags.len() {
        0 => vec![body],
        1 => vec![format!("@{} {body}", tags[0])],
        _ => vec![format!("@{};{} {body}", tags[0], tags[1]), format!("@{};{} {body}", tags[1], tags[0])],
      }
    }
    Call::Ping { nonce } => vec![format!("PING :{nonce}\r\n")],
    Call::PongLast => {
      let v = reference(last_ping?)?;
      match &v.params {
        None => vec!["PONG\r\n".into()],
        Some(p) => match p.strip_prefix(':') {
          Some(n) => vec![format!("PONG :{n}\r\n")],
          None => return None,
        },
      }
    }
    Call::Join { ch } => vec![format!("JOIN {}\r\n", chan(ch))],
    Call::JoinAll { chs } => vec![format!("JOIN {}\r\n", chs.iter().map(|c| chan(c)).collect::<Vec<_>>().join(","))],
    Call::Raw { data } if data.ends_with("\r\n") => vec![data.clone()],
    _ => return None,
  })
}

/// Explains `got` as the concatenation of the sends. Err: which send cannot be explained.
fn explain(got: &[u8], sends: &[(Vec<String>, bool)], may_cut: bool) -> Result<(), String> {
  let mut at: BTreeSet<usize> = [0].into();
  let mut cut = false;
  for (i, (fr, full)) in sends.iter().enumerate() {
    let mut next = BTreeSet::new();
    for &o in &at {
      for f in fr {
        let f = f.as_bytes();
        let n = got[o..].iter().zip(f).take_while(|(a, b)| a == b).count();
        if *full {
          if n == f.len() {
            next.insert(o + n);
          } else if may_cut && o + n == got.len() {
            cut = true;
          }
        } else {
          next.extend(o..=o + n);
        }
      }
    }
    if next.is_empty() {
      if cut {
        return Ok(());
      }
      let o = *at.iter().next_back().unwrap();
      return Err(format!("send {} of {}: expected {:?}, the server received {:?} there (of {} bytes, at {o})", i + 1, sends.len(), short(&fr[0]), short(&got[o..]), got.len()));
    }
    at = next;
  }
  if at.contains(&got.len()) || cut {
    return Ok(());
  }
  let o = *at.iter().next_back().unwrap();
  Err(format!("the server received {:?}, which no call sent", short(&got[o..])))
}

// ------------------------------------------------------------------ the walk over a history

#[derive(Clone, Copy, PartialEq, Debug)]
enum Cur {
  None,
  Known(usize),
  Unknown,
}
struct Sess {
  pos: usize,
  dead: bool,
  stop: bool,
  lines: Lines,
}

pub fn judge(plan: &Plan, r: &RunResult) -> Verdict {
  let mut out = judge_one(plan, r);
  if let (Some(p), Some(n)) = (&plan.neighbour, &r.neighbour) {
    let mut o = judge_one(p, n);
    o.violations.iter_mut().for_each(|v| v.msg = format!("second client: {}", v.msg));
    out.violations.append(&mut o.violations);
    out.known.append(&mut o.known);
    out.probes.push("two_clients");
    out.probes.append(&mut o.probes);
  }
  out
}
fn judge_one(plan: &Plan, r: &RunResult) -> Verdict {
  let w = &*r.world;
  let mut out = Verdict { violations: vec![], known: BTreeSet::new(), probes: vec![] };
  macro_rules! v {
    ($c:expr, $at:expr, $($a:tt)*) => { out.violations.push(V { class: $c, msg: format!($($a)*), at: $at }) };
  }
  if let Some(p) = &r.panic {
    let at = r.h.recs.last().map_or(0, |x| x.t1);
    v!("panic", at, "panic: {p}{}", r.h.in_flight.as_ref().map(|(i, c)| format!(" during op {i} {c:?}")).unwrap_or_default());
    return out;
  }

  // ---- every connection: secrecy, endpoint, handshake bytes
  let mut hs_len: Vec<Option<usize>> = vec![];
  for (i, l) in w.logs.iter().enumerate() {
    let at = l.at / 1000;
    hs_len.push(None);
    if let Some(a) = l.addr {
      if a.port() != 6697 || !a.ip().to_string().starts_with("203.0.113.") {
        v!("endpoint", at, "connection {i} goes to {a}, not to Twitch chat over TLS");
      }
    }
    let bare = plan.cfg.token.as_deref().map(|t| t.strip_prefix("oauth:").unwrap_or(t)).filter(|t| t.len() >= 8);
    let find = |hay: &[u8], needle: &[u8]| hay.windows(needle.len()).any(|x| x == needle);
    let clear = ["PASS ", "NICK ", "CAP REQ", "PRIVMSG ", "JOIN "];
    if let Some(n) = bare.into_iter().chain(clear).find(|n| find(&l.raw, n.as_bytes())) {
      v!("secret", at, "connection {i}: {n:?} is readable on the network");
    }
    if !l.good_peer && l.addr.is_some() {
      if l.tls_up.is_some() || (!l.plain.is_empty() && l.tls_up.is_some()) {
        v!("bad-peer", at, "connection {i}: the client completed TLS with an unauthenticated peer and sent {:?}", short(&l.plain));
      }
    }
    if l.tls_up.is_some() && l.good_peer {
      if l.sni.as_deref() != Some("irc.chat.twitch.tv") {
        v!("endpoint", at, "connection {i}: asks for server name {:?}", l.sni);
      }
      match handshake_bytes(plan, &l.plain) {
        Ok(n) => hs_len[i] = n,
        Err(e) => v!("handshake-bytes", at, "connection {i}: {e}"),
      }
    }
  }
  for (i, lk) in w.lookups.iter().enumerate() {
    if lk.host != crate::world::tmi_host() {
      v!("endpoint", lk.at / 1000, "lookup {i} asks for {:?}", lk.host);
    }
  }
  if plan.logs {
    for t in plan.cfg.token.iter() {
      let bare = t.strip_prefix("oauth:").unwrap_or(t);
      // (a part of it is a leak too)
      let n = bare.len();
      let parts: Vec<&str> = (0..n.saturating_sub(7)).filter(|&i| i < 40 || i + 48 > n).filter_map(|i| bare.get(i..i + 8)).collect();
      let user_raw = matches!(&plan.prog, Prog::Ops(o) if o.iter().any(|o| matches!(&o.call, Call::Raw { data } if parts.iter().any(|p| data.contains(p)))));
      if !user_raw {
        for (what, set) in [("log output", &r.logs), ("debug or error output", &r.h.texts)] {
          if let Some((p, x)) = set.iter().find_map(|x| parts.iter().find(|p| x.contains(**p)).map(|p| (p, x))) {
            v!("secret", 0, "{p:?} of the token appears in {what}: {}", short(x));
          }
        }
      }
    }
  }

  if let Prog::Bot(b) = &plan.prog {
    bot(plan, b, r, &mut out);
    return out;
  }

  // ---- the walk
  let mut cur = Cur::None;
  let mut sess: Option<Sess> = None;
  let mut sends: Vec<(usize, Vec<String>, bool)> = vec![]; // conn, frames, full
  let mut clean_until_end: BTreeSet<usize> = BTreeSet::new();
  let mut known_conns: BTreeSet<usize> = BTreeSet::new();
  let mut tainted: BTreeSet<usize> = BTreeSet::new();
  let mut attempted: Vec<usize> = vec![];
  let mut last_ping: Option<String> = None;
  let mut said: Option<(&str, &str)> = None;
  // connections on which every chat message carried the bypass and was sent
  let mut said_on: std::collections::BTreeMap<usize, bool> = Default::default();
  let stall_total: u64 = plan.partitions.iter().map(|p| p.1 + 10_000_000).sum();

  // (connection, number of sends on it so far, when the next call followed) after a successful
  // send and a long enough rest: all of them must be there without another call
  let mut rests: Vec<(usize, usize, u64)> = vec![];

  for (at, rec) in r.h.recs.iter().enumerate() {
    let (t0, t1) = (rec.t0, rec.t1);
    match &rec.call {
      Call::Connect | Call::Reconnect => {
        if matches!(rec.out, Out::Skipped) {
          continue;
        }
        connect_op(plan, w, rec, &mut out);
        let is_connect = rec.call == Call::Connect;
        if is_connect {
          cur = Cur::None;
          sess = None;
        }
        match &rec.out {
          Out::Ok if rec.c1 > rec.c0 => {
            let c = rec.c1 - 1;
            let l = &w.logs[c];
            // the accepted connection must be real and accepted
            let ls = lines(&l.sent);
            let here = |i: usize| ls.lines.get(i).is_some_and(|(n, _)| arrival(l, *n).is_some_and(|a| a <= t1));
            let ok = l.good_peer && hs_len[c].is_some() && here(0) && here(1) && (is_ack(&ls.lines[0].1) || !valid(&ls.lines[0].1)) && (is_001(&ls.lines[1].1) || !valid(&ls.lines[1].1));
            if !ok {
              v!("false-success", t1, "op {} {:?} reports success although the server had sent {:?} and received {:?}", rec.op, rec.call, short(&l.sent), short(&l.plain));
              cur = Cur::Unknown;
              sess = None;
            } else {
              cur = Cur::Known(c);
              known_conns.insert(c);
              clean_until_end = [c].into();
              sess = Some(Sess { pos: 2, dead: false, stop: false, lines: ls });
            }
            if rec.open != [c] {
              v!("leak", t1, "after a successful {:?} (op {}) the client holds connections {:?}, current is {c}", rec.call, rec.op, rec.open);
            }
          }
          Out::Ok => v!("false-success", t1, "op {} {:?} reports success without a connection", rec.op, rec.call),
          _ => {
            if is_connect {
              if !rec.open.is_empty() {
                v!("leak", t1, "after a failed or abandoned connect (op {}) connections {:?} are still open", rec.op, rec.open);
              }
            } else {
              if rec.open.len() > 1 {
                v!("leak", t1, "after a failed or abandoned reconnect (op {}) the client holds connections {:?}", rec.op, rec.open);
              }
              if rec.l0 != rec.l1 || rec.c0 != rec.c1 {
                // which connection the client is left with shows in what it holds
                match cur {
                  Cur::Known(c) if rec.open == [c] => out.probes.push("kept_connection_after_abandoned_reconnect"),
                  _ => {
                    if let Cur::Known(c) = cur {
                      attempted = vec![c];
                    }
                    attempted.extend(rec.c0..rec.c1);
                    cur = Cur::Unknown;
                    sess = None;
                    clean_until_end.clear();
                  }
                }
              }
            }
          }
        }
      }
      Call::Drop => {
        cur = Cur::None;
        sess = None;
        clean_until_end.clear();
        if !rec.open.is_empty() {
          v!("leak", t1, "after the client was dropped (op {}) connections {:?} are still open", rec.op, rec.open);
        }
      }
      Call::Sleep { .. } | Call::Say { .. } => {}
      Call::Recv | Call::Drain { .. } | Call::RecvAgain { .. } => {
        if let Out::Msg(m) = &rec.out {
          // (a PING outside of the format counts as one whose answer is anyone's guess)
          if m.view.command == "PING" || reference(&m.raw).is_some_and(|v| v.command == "PING") {
            last_ping = Some(m.raw.clone());
          }
          if let Some(x) = &m.lookup {
            v!("view", t1, "line {:?}: {x}", short(&m.raw));
          }
          if let Some(x) = &m.typed_diff {
            v!("typed", t1, "{}", short(x));
          }
        }
        let (Cur::Known(c), Some(s)) = (cur, sess.as_mut()) else {
          continue;
        };
        if s.stop {
          continue;
        }
        let l = &w.logs[c];
        let over = over_from(l).filter(|x| *x <= t1);
        match &rec.out {
          Out::Msg(m) => {
            let raw = m.raw.as_bytes();
            if s.dead {
              v!("msg-after-end", t1, "op {}: message {:?} after the end of connection {c} was reported", rec.op, short(raw));
              s.stop = true;
              continue;
            }
            let mut p = s.pos;
            while p < s.lines.lines.len() && s.lines.lines[p].1.is_empty() && !raw.is_empty() {
              p += 1;
            }
            if p < s.lines.lines.len() && s.lines.lines[p].1 == raw {
              if arrival(l, s.lines.lines[p].0).is_none_or(|a| a > t1) {
                v!("recv-garbled", t1, "op {}: line {:?} was delivered before it arrived", rec.op, short(raw));
                s.stop = true;
              } else if arrival(l, s.lines.lines[p].0).is_some_and(|a| a.max(t0) + 500 * MS < t1) && l.corrupt_off.is_none() {
                v!("recv-stall", t1, "op {}: receiving from {t0} to {t1} us gave the line {:?} of connection {c} late: it had arrived at {:?}", rec.op, short(raw), arrival(l, s.lines.lines[p].0));
                s.stop = true;
              }
              s.pos = p + 1;
              continue;
            }
            if p == s.lines.lines.len() && raw == s.lines.rest && !raw.is_empty() && (l.close_notify && over.is_some()) {
              v!("unfinished-line", t1, "op {}: connection {c} ended in the middle of a line and its beginning {:?} was delivered as a message", rec.op, short(raw));
              s.stop = true;
              continue;
            }
            let all = &s.lines.lines;
            let want = all.get(p).map(|x| short(&x.1)).unwrap_or("nothing".into());
            let (class, why) = if all[p.min(all.len())..].iter().any(|x| x.1 == raw) {
              ("recv-lost", "lines before it are missing")
            } else if all[..p].iter().any(|x| x.1 == raw) {
              ("recv-dup", "already delivered or consumed")
            } else if w.logs.iter().enumerate().any(|(k, o)| k != c && lines(&o.sent).lines.iter().any(|x| x.1 == raw)) {
              ("recv-foreign", "from another connection")
            } else if p < all.len() && arrival(l, all[p].0).is_some_and(|a| a <= t1) && l.sent.windows(raw.len().max(1)).any(|x| x == raw) {
              ("recv-garbled", "not a whole line")
            } else if p < all.len() {
              ("recv-content", "not the line that was sent")
            } else {
              ("recv-garbled", "never sent")
            };
            v!(class, t1, "op {}: connection {c}: received {:?} ({why}), next line is {:?}", rec.op, short(raw), want);
            s.stop = true;
          }
          Out::Err(f) if f.disconnect => {
            if over.is_none() {
              v!("spurious-disconnect", t1, "op {}: {} on connection {c}, which is up", rec.op, f.text);
              s.stop = true;
              continue;
            }
            // (data in one batch with a corrupted TLS record may be discarded with it)
            if !s.dead && l.corrupt_off.is_none() {
              if let Some((_, b)) = s.lines.lines[s.pos.min(s.lines.lines.len())..].iter().find(|(n, b)| !b.is_empty() && arrival(l, *n).is_some_and(|a| a <= t1)) {
                v!("lost-at-end", t1, "op {}: connection {c} reported lost ({}) with the complete line {:?} received but not delivered", rec.op, f.kind, short(b));
                s.stop = true;
              } else if ended(l).is_some_and(|e| e.max(t0) + 1000 * MS < t1) {
                v!("end-stall", t1, "op {}: receiving from {t0} to {t1} us reported the end of connection {c} at {:?} late", rec.op, ended(l));
                s.stop = true;
              }
            }
            s.dead = true;
          }
          Out::Err(f) => {
            let n = s.lines.lines.len();
            if s.dead {
              v!("end-not-disconnect", t1, "op {}: after the end of connection {c}: {} is not identified as a disconnect", rec.op, f.text);
              s.stop = true;
            } else if s.pos < n && arrival(l, s.lines.lines[s.pos].0).is_some_and(|a| a <= t1) {
              let b = &s.lines.lines[s.pos].1;
              if !(f.kind == "Parse" || f.kind == "Io:InvalidData") {
                v!("spurious-error", t1, "op {}: {} with line {:?} waiting on connection {c}", rec.op, f.text, short(b));
                s.stop = true;
              } else if valid(b) {
                v!("valid-rejected", t1, "op {}: {} for the valid line {:?}", rec.op, short(&f.kind), short(b));
              }
              s.pos += 1;
            } else if s.pos == n && !s.lines.rest.is_empty() && l.close_notify && over.is_some() && (f.kind == "Parse" || f.kind == "Io:InvalidData") {
              v!("unfinished-line", t1, "op {}: connection {c} ended in the middle of a line, which was reported as {} before the end", rec.op, f.text);
              s.stop = true;
            } else if over.is_some() {
              v!("end-not-disconnect", t1, "op {}: end of connection {c} ({:?}{}) reported as {}, not identified as a disconnect", rec.op, l.ended, if l.corrupted { ", corrupted record" } else { "" }, f.text);
              s.stop = true;
            } else {
              v!("spurious-error", t1, "op {}: {} on connection {c}, which is up", rec.op, f.text);
              s.stop = true;
            }
          }
          Out::Cancelled | Out::Hang => {
            let polls = matches!(rec.cancel, Some(Cancel::Polls(_))) && matches!(rec.out, Out::Cancelled);
            if polls || t1 < t0 + 2 * MS {
              continue;
            }
            let dl = t1 - 2 * MS;
            let end = ended(l);
            if let Some((_, b)) = s.lines.lines[s.pos.min(s.lines.lines.len())..].iter().find(|(n, b)| !b.is_empty() && arrival(l, *n).is_some_and(|a| a <= dl)) {
              // (a corrupted length makes TLS wait for more)
              if !s.dead && l.corrupt_off.is_none() {
                v!("recv-stall", t1, "op {}: receiving from {t0} to {t1} us gave nothing although the line {:?} had arrived on connection {c}", rec.op, short(b));
                s.stop = true;
              }
            } else if end.is_some_and(|e| e + 1000 * MS <= dl) {
              v!("end-stall", t1, "op {}: receiving from {t0} to {t1} us did not report the end of connection {c} at {:?}", rec.op, end);
              s.stop = true;
            }
          }
          Out::Ok | Out::Skipped => {}
        }
      }
      call @ (Call::Privmsg { .. } | Call::Ping { .. } | Call::PongLast | Call::Join { .. } | Call::JoinAll { .. } | Call::Raw { .. }) => {
        if matches!(rec.out, Out::Skipped) {
          continue;
        }
        if let (Call::Privmsg { ch, text, .. }, Some(base)) = (call, &rec.said) {
          // Twitch drops a chat message that repeats the previous one
          match text.strip_prefix(base.as_str()) {
            Some(suffix) if suffix.chars().all(invisible) => {}
            _ => v!("bypass", t1, "op {}: the bypass turns {:?} into the visibly different {:?}", rec.op, short(base), short(text)),
          }
          if said == Some((ch.as_str(), text.as_str())) {
            v!("bypass", t1, "op {}: {:?} is said twice in a row, with the same bytes, despite the bypass", rec.op, short(text));
          }
          said = Some((ch, text));
        } else if matches!(call, Call::Privmsg { .. }) {
          said = None;
        }
        let fr = frames(call, last_ping.as_deref());
        if let Call::Raw { data } = call {
          let refused = matches!(&rec.out, Out::Err(f) if f.kind == "InvalidMessage");
          if refused != fr.is_none() && !matches!(rec.out, Out::Cancelled | Out::Hang) {
            v!("raw-refused", t1, "op {}: raw line {:?} was {}", rec.op, short(data), if refused { "refused" } else { "accepted" });
          }
        }
        match cur {
          Cur::None => continue,
          Cur::Unknown => {
            tainted.extend(attempted.iter().copied());
            continue;
          }
          Cur::Known(c) => {
            let l = &w.logs[c];
            let over = over_from(l).is_some_and(|x| x <= t1) || l.peer_tls_error.is_some();
            if matches!(call, Call::Privmsg { .. } | Call::Raw { .. }) {
              *said_on.entry(c).or_insert(true) &= rec.said.is_some() && matches!(rec.out, Out::Ok);
            }
            if let Some(f) = fr {
              match &rec.out {
                Out::Ok => sends.push((c, f, true)),
                Out::Err(e) => {
                  if !over {
                    v!("send-error", t1, "op {}: {} on connection {c}, which is up", rec.op, e.text);
                  }
                  sends.push((c, f, false))
                }
                _ => sends.push((c, f, false)),
              }
            } else if matches!(call, Call::PongLast) {
              tainted.insert(c);
            }
            // progress: a send ends once the peer takes data again
            let free = !l.server_reads_stalled && l.dead_from.is_none();
            {
              let stalls: u64 = plan.conns.get(c).map_or(0, |p| {
                p.script.iter().map(|s| if let Step::StallRead(d) = s { *d } else { 0 }).sum::<u64>()
                  + p
                    .faults
                    .iter()
                    .map(|f| {
                      if let What::Stall(d) = f.what {
                        if d == u64::MAX {
                          0
                        } else {
                          d
                        }
                      } else {
                        0
                      }
                    })
                    .sum::<u64>()
              });
              let net = plan.conns.get(c).map(|p| p.net.clone()).unwrap_or(Net::plain());
              let bytes = match call {
                Call::Raw { data } => data.len(),
                Call::Privmsg { text, .. } => text.len() + 200,
                Call::JoinAll { chs } => chs.iter().map(|c| c.len() + 2).sum(),
                _ => 600,
              } as u64;
              // everything queued may have to drain first
              let queued: u64 = l.raw.len() as u64;
              let rounds = (bytes + queued) / (net.sndbuf.max(1) as u64) + 4;
              let hop = net.lat_us + net.jit_us + 2 * MS;
              let bound = stalls + stall_total + rounds * hop + 5_000_000;
              let rest = r.h.recs[at + 1..].iter().find(|x| !matches!(x.call, Call::Sleep { .. })).map(|x| x.t0);
              if let (Some(t2), Out::Ok, false, true) = (rest, &rec.out, over_from(l).is_some(), free) {
                // what may still be on its way
                let there = l.plain_at.iter().take_while(|x| x.0 / 1000 <= t0).last().map_or(0, |x| x.1);
                let said: usize = sends.iter().filter(|x| x.0 == c).map(|x| x.1.iter().map(|f| f.len()).max().unwrap_or(0) + 100).sum();
                let left = (said + hs_len[c].unwrap_or(0)).saturating_sub(there) as u64;
                let rounds = 2 * left / (net.sndbuf.max(1) as u64) + 4;
                if t2 - t1 > stalls + stall_total + rounds * hop + 5_000_000 {
                  rests.push((c, sends.iter().filter(|x| x.0 == c).count(), t2));
                }
              }
              if free && rec.cancel.is_none() && t1 - t0 > bound {
                v!("send-hang", t1, "op {}: {:?} took {} us (stalls in total {stalls} us)", rec.op, short(format!("{call:?}")), t1 - t0);
              }
            }
          }
        }
      }
    }
  }

  // ---- what the servers received
  for (c, l) in w.logs.iter().enumerate() {
    if !l.good_peer || l.tls_up.is_none() || out.violations.iter().any(|v| v.class == "handshake-bytes") {
      continue;
    }
    if tainted.contains(&c) {
      continue;
    }
    let Some(n) = hs_len[c] else { continue };
    let got = &l.plain[n..];
    let mine: Vec<(Vec<String>, bool)> = sends.iter().filter(|x| x.0 == c).map(|x| (x.1.clone(), x.2)).collect();
    // (a raw line of the application may be anything)
    let asked = |b: &[u8]| mine.iter().any(|m| m.0.iter().any(|t| t.trim_end().as_bytes() == b || t.lines().any(|t| t.as_bytes() == b)));
    let stays = clean_until_end.contains(&c) && over_from(l).is_none() && !l.server_reads_stalled && l.dead_from.is_none() && l.peer_tls_error.is_none();
    if !known_conns.contains(&c) && !got.is_empty() {
      v!("handshake-extra", l.at / 1000, "connection {c}, never reported as connected, received {:?} after the handshake", short(got));
    } else if let Some(x) = lines(got).lines.iter().find(|x| ["CAP ", "PASS ", "NICK "].iter().any(|k| x.1.starts_with(k.as_bytes())) && !asked(&x.1)) {
      v!("handshake-extra", l.at / 1000, "connection {c}: the server received {:?} after the handshake", short(&x.1));
    } else if let Err(e) = explain(got, &mine, !stays) {
      v!("wire", l.at / 1000, "connection {c}: {e}");
    } else if known_conns.contains(&c) && l.peer_tls_error.is_none() {
      for (_, k, t2) in rests.iter().filter(|x| x.0 == c) {
        let n2 = l.plain_at.iter().take_while(|x| x.0 / 1000 <= *t2).last().map_or(0, |x| x.1);
        if let Err(e) = explain(&l.plain[n.min(n2)..n2], &mine[..*k], false) {
          v!("wire", *t2, "connection {c}: at {t2} us, long after the last of {k} sends reported success: {e}");
          break;
        }
      }
    }
    // the server's filter against repetition, on what really arrived
    if stays && said_on.get(&c) == Some(&true) {
      let all = lines(got).lines;
      let chat: Vec<&Vec<u8>> = all.iter().map(|x| &x.1).filter(|l| l.starts_with(b"PRIVMSG ")).collect();
      if let Some(x) = chat.windows(2).find(|x| x[0].trim_ascii_end() == x[1].trim_ascii_end()) {
        v!("filtered", l.at / 1000, "connection {c}: the server drops the repeated message {:?}", short(x[0]));
      }
      out.probes.push("duplicate_filter_checked");
    }
    if stays && !mine.is_empty() {
      out.probes.push("complete_delivery_of_sends_checked");
    }
  }

  if r.h.end_open.len() > 1 {
    v!("leak", r.h.ended_at, "at the end the client holds connections {:?}", r.h.end_open);
  }
  if !r.h.end_open_after_drop.is_empty() {
    v!("leak", r.h.ended_at, "connections {:?} outlive the client", r.h.end_open_after_drop);
  }
  for k in &r.h.kept_diffs {
    v!("kept", r.h.ended_at, "{k}");
  }
  anon(plan, r, &mut out);
  out
}

// ------------------------------------------------------------------ connect and reconnect

fn connect_op(plan: &Plan, w: &World, rec: &Rec, out: &mut Verdict) {
  macro_rules! v {
    ($c:expr, $($a:tt)*) => { out.violations.push(V { class: $c, msg: format!($($a)*), at: rec.t1 }) };
  }
  let (t0, t1) = (rec.t0, rec.t1);
  let t = plan.timeout_us();
  let slack = 50 * MS;
  let name = if rec.call == Call::Connect { "connect" } else { "reconnect" };
  let op = rec.op;
  let atts: Vec<Attempt> = (rec.l0..rec.l1).map(|i| attempt(plan, w, i, rec.c0, rec.c1, t1)).collect();
  if std::env::var_os("SIM_VERBOSE").is_some() {
    for a in &atts {
      eprintln!("op {op}: attempt at {} conns {:?} -> {:?}", a.start, a.conns, a.verd);
    }
  }
  let stopped = matches!(rec.out, Out::Cancelled | Out::Hang);
  let kind = match &rec.out {
    Out::Err(f) => Some(f.kind.as_str()),
    _ => None,
  };
  let store = kind == Some("Tls") && rec.call == Call::Connect && rec.trust.broken();
  if let (Some("Dns" | "Tls"), false) = (kind, store) {
    v!("connect-cause", "op {op}: {name} failed with {} without a reason in its environment", kind.unwrap());
  }
  // sockets belong to attempts
  for c in rec.c0..rec.c1 {
    let k = w.logs[c].lookup;
    if k <= rec.l0 || k > rec.l1 {
      v!("tries", "op {op}: connection {c} was opened outside of an attempt");
    }
  }

  if rec.call == Call::Connect {
    if atts.len() > 1 {
      v!("tries", "op {op}: connect made {} attempts", atts.len());
    }
    if t1 - t0 > 2 * t + slack {
      v!("hang-connect", "op {op}: connect took {} us with a timeout of {t} us{}", t1 - t0, if stopped { " and had not ended" } else { "" });
    }
    if kind == Some("Timeout") && t1 - t0 + 2 * MS < t.min(5_000_000) {
      v!("early-timeout", "op {op}: connect timed out after {} us, the timeout is {t} us", t1 - t0);
    }
    if let (Some(a), false) = (atts.last(), stopped) {
      verdict(a, kind, name, op, t1, out);
    }
    return;
  }

  let b = plan.backoff();
  let max = b.max_tries;
  // an abandoned operation's last attempt was still going on
  let done = if stopped { atts.len().saturating_sub(1) } else { atts.len() };
  if let Some(m) = max {
    if atts.len() as u64 > m {
      v!("tries", "op {op}: {} attempts, configured are {m}", atts.len());
    }
  }
  // schedule
  let mut delay = b.initial_us;
  for (i, a) in atts.iter().enumerate() {
    if i == 0 {
      if a.start + MS < t0 + delay || a.start > t0 + delay + 10 * MS {
        v!("schedule", "op {op}: first attempt {} us after the call, initial delay is {delay} us", a.start - t0);
      }
    } else {
      let p = &atts[i - 1];
      let mut ends: Vec<u64> = vec![];
      for e in &p.ends {
        ends.extend([*e, e + t, e + 5_000_000]);
      }
      let end = a.start.saturating_sub(delay);
      // a timer rounds up to whole milliseconds
      if !ends.iter().any(|e| end + MS >= *e && end <= e + 6 * MS) {
        v!("schedule", "op {op}: attempt {} began at {} us; that is not {delay} us after any possible end of the previous one, which began at {} us", i + 1, a.start, p.start);
      }
      if a.start < p.start + delay {
        v!("schedule", "op {op}: attempt {} began {} us after the previous one, the delay alone is {delay} us", i + 1, a.start - p.start);
      }
      if a.start.saturating_sub(delay) > p.start + 2 * t + slack {
        v!("hang-connect", "op {op}: attempt {i} of the reconnect took {} us with a timeout of {t} us", a.start - delay - p.start);
      }
    }
    delay = delay.saturating_mul(b.mult as u64).min(b.max_us);
  }
  if let Some(a) = atts.last() {
    if t1 > a.start + 2 * t + slack && !(stopped && max.is_none_or(|m| (atts.len() as u64) < m)) {
      v!("hang-connect", "op {op}: the last attempt of the reconnect took {} us with a timeout of {t} us", t1 - a.start);
    } else if stopped && t1 > a.start + 2 * t + slack + delay + 20 * MS {
      v!("hang-connect", "op {op}: nothing happened for {} us after attempt {} of the reconnect began", t1 - a.start, atts.len());
    }
  } else {
    match &rec.out {
      Out::Err(_) if max == Some(0) => {}
      Out::Err(f) => v!("gave-up", "op {op}: reconnect failed without an attempt: {}", f.kind),
      Out::Cancelled | Out::Hang if max != Some(0) && t1 > t0 + b.initial_us + 20 * MS => v!("schedule", "op {op}: no attempt {} us after the call, initial delay is {} us", t1 - t0, b.initial_us),
      Out::Hang if max == Some(0) => v!("hang-connect", "op {op}: reconnect without attempts does not end"),
      _ => {}
    }
  }
  // classification
  for (i, a) in atts.iter().enumerate().take(done) {
    let last = i + 1 == atts.len();
    if !last {
      match &a.verd {
        Verd::Success => v!("not-accepted", "op {op}: attempt {} was accepted by the server but the reconnect went on", i + 1),
        Verd::Perm(_) => v!("retried-permanent", "op {op}: attempt {} was refused for good but the reconnect went on", i + 1),
        _ => {}
      }
      continue;
    }
    if stopped {
      continue;
    }
    if let (Verd::Trans(_), Some(k)) = (&a.verd, kind) {
      if max.is_none_or(|m| (atts.len() as u64) < m) {
        v!("gave-up", "op {op}: reconnect gave up with {k} after attempt {} of {:?}, a transient failure", i + 1, max);
        continue;
      }
    }
    verdict(a, kind, name, op, t1, out);
  }
}
fn verdict(a: &Attempt, kind: Option<&str>, name: &str, op: usize, t1: u64, out: &mut Verdict) {
  let mut v = |class, msg| out.violations.push(V { class, msg, at: t1 });
  if a.bad_peer && kind.is_none() {
    v("bad-peer", format!("op {op}: {name} succeeded with an unauthenticated peer"));
  }
  match (&a.verd, kind) {
    (Verd::Success, Some(k)) => v("not-accepted", format!("op {op}: {name} failed with {k} although the server accepted the login on connection {:?}", a.conns)),
    (Verd::Perm(_) | Verd::Trans(_), None) => {} // false-success is judged from the bytes
    (Verd::Perm(ks), Some(k)) if !kind_ok(ks, k) => v("refusal", format!("op {op}: {name} failed with {k}, expected {}", ks.join(" or "))),
    (Verd::Trans(ks), Some(k)) if !kind_ok(ks, k) => v(if name == "connect" { "connect-cause" } else { "cause" }, format!("op {op}: {name} failed with {k}, what happened is {}", ks.join(" or "))),
    (Verd::Trans(ks), Some(k)) if ks.is_empty() && (k == "Auth" || k.starts_with("Welcome:") || k.starts_with("Notice:")) => {
      v(if name == "connect" { "connect-cause" } else { "cause" }, format!("op {op}: {name} failed with {k}, but the server did not refuse"))
    }
    _ => {}
  }
}

// ------------------------------------------------------------------ anonymous logins

fn anon(plan: &Plan, r: &RunResult, out: &mut Verdict) {
  if plan.cfg.login.is_some() {
    return;
  }
  macro_rules! v {
    ($($a:tt)*) => { out.violations.push(V { class: "anon", msg: format!($($a)*), at: r.h.ended_at }) };
  }
  let w = &*r.world;
  // one identity per client: connects split the attempts
  let mut ids: Vec<BTreeSet<String>> = vec![];
  let mut edges: Vec<usize> = r.h.recs.iter().filter(|x| x.call == Call::Connect).map(|x| x.c0).collect();
  edges.push(w.logs.len());
  for e in edges.windows(2) {
    let mut set = BTreeSet::new();
    for l in &w.logs[e[0]..e[1]] {
      for x in lines(&l.plain).lines {
        let s = String::from_utf8_lossy(&x.1).to_string();
        if let Some(n) = s.strip_prefix("NICK ") {
          if !anon_login(n) {
            v!("anonymous login as {n:?}");
          }
          set.insert(n.to_string());
        }
        if let Some(p) = s.strip_prefix("PASS ") {
          if p.is_empty() {
            v!("anonymous login with an empty password");
          }
        }
      }
    }
    if set.len() > 1 {
      v!("one client logs in as {set:?}");
    }
    if !set.is_empty() {
      ids.push(set);
    }
  }
  let all: BTreeSet<&String> = ids.iter().flatten().collect();
  if ids.len() >= 6 && all.len() < 3 {
    v!("{} clients use only {} identities: {all:?}", ids.len(), all.len());
  }
  for (login, anon, token) in &r.h.anon_logins {
    if !anon || *token || !anon_login(login) {
      v!("a client built without credentials reports login {login:?}, anonymous {anon}, token present {token}");
    }
    if !all.is_empty() && !all.contains(login) {
      v!("the client reports login {login:?} but sent {all:?}");
    }
  }
}

// ------------------------------------------------------------------ the bot

fn bot(plan: &Plan, b: &Bot, r: &RunResult, out: &mut Verdict) {
  let w = &*r.world;
  macro_rules! v {
    ($at:expr, $($a:tt)*) => { out.violations.push(V { class: "bot", msg: format!($($a)*), at: $at }) };
  }
  let end = b.run_us;
  let window = 100_000_000;
  let from = end - window;
  if let Some(e) = r.h.bot.iter().find(|e| e.what == "spinning") {
    v!(e.at, "the bot spins on errors that are not disconnects: {:?}", r.h.bot.iter().rev().nth(1).map(|e| short(&e.what)));
    return;
  }
  if r.h.bot_open.len() != 1 {
    v!(end, "long after the last fault the bot holds connections {:?}; last events {:?}", r.h.bot_open, tail(&r.h.bot));
    return;
  }
  let c = r.h.bot_open[0];
  let l = &w.logs[c];
  if over_from(l).is_some() || hs_missing(plan, l) {
    v!(end, "the bot sits on connection {c}, which is not alive; last events {:?}", tail(&r.h.bot));
    return;
  }
  if let Some(e) = r.h.bot.iter().find(|e| e.at > from && !e.what.starts_with("msg:")) {
    v!(e.at, "long after the last fault the bot is still busy recovering: {}", e.what);
    return;
  }
  let mine: Vec<_> = w.live.iter().filter(|x| x.conn == c).collect();
  for ch in &b.channels {
    let ch = chan(ch);
    let joined = mine.iter().any(|x| x.what.strip_prefix("line:JOIN ").is_some_and(|l| l.split(',').any(|y| y == ch)));
    if !joined {
      v!(end, "the bot did not join {ch} on connection {c}; last events {:?}", tail(&r.h.bot));
    }
  }
  let mut pings = 0;
  let mut chats = 0;
  for x in mine.iter().filter(|x| x.at / 1000 > from && x.at / 1000 < end - 15_000_000) {
    let t = x.at / 1000;
    if let Some(n) = x.what.strip_prefix("ping:") {
      pings += 1;
      let want = format!("line:PONG :{n}");
      if !mine.iter().any(|y| y.what == want && y.at >= x.at && y.at / 1000 < t + 10_000_000) {
        v!(t, "ping {n} on connection {c} was not answered");
        return;
      }
    } else if let Some(n) = x.what.strip_prefix("chat:") {
      chats += 1;
      // conn-seq-#channel
      let mut it = n.splitn(3, '-');
      let (k, q, ch) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
      let want = format!("msg:{ch}:live {k}-{q}");
      let n = r.h.bot.iter().filter(|e| e.what == want && e.at >= t && e.at < t + 10_000_000).count();
      if n != 1 {
        v!(t, "chat line {want:?} on connection {c} was received {n} times");
        return;
      }
    }
  }
  if pings == 0 || chats == 0 {
    v!(end, "connection {c} carried no traffic in the last {window} us (pings {pings}, chats {chats})");
  }
  out.probes.push("bot_recovered_and_checked");
}
fn hs_missing(plan: &Plan, l: &ConnLog) -> bool {
  !matches!(handshake_bytes(plan, &l.plain), Ok(Some(_)))
}
fn tail(b: &[BotEv]) -> Vec<String> {
  let n = b.len().saturating_sub(4);
  b[n..].iter().map(|e| format!("{} us: {}", e.at, short(&e.what))).collect()
}
