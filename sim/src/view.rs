//! What a line means: an independent reference reading of Twitch's line format, and the
//! view of a message that the application gets through the library's accessors.

use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Default, Serialize, Deserialize)]
pub struct View {
  pub tags: Vec<(String, String)>,
  pub prefix: Option<(Option<String>, Option<String>, String)>,
  pub command: String,
  pub channel: Option<String>,
  pub params: Option<String>,
  pub text: Option<String>,
}

const KNOWN: &[&str] =
  &["PING", "PONG", "JOIN", "PART", "PRIVMSG", "WHISPER", "CLEARCHAT", "CLEARMSG", "GLOBALUSERSTATE", "NOTICE", "RECONNECT", "ROOMSTATE", "USERNOTICE", "USERSTATE", "CAP", "001", "002", "003", "004", "353", "366", "372", "375", "376"];
const VARIANTS: &[&str] = &[
  "Ping",
  "Pong",
  "Join",
  "Part",
  "Privmsg",
  "Whisper",
  "ClearChat",
  "ClearMsg",
  "GlobalUserState",
  "Notice",
  "Reconnect",
  "RoomState",
  "UserNotice",
  "UserState",
  "Capability",
  "RplWelcome",
  "RplYourHost",
  "RplCreated",
  "RplMyInfo",
  "RplNames",
  "RplEndOfNames",
  "RplMotd",
  "RplMotdStart",
  "RplEndOfMotd",
];
#[allow(dead_code)]
pub fn known_command(c: &str) -> bool {
  KNOWN.contains(&c)
}

/// Reference reading of a line of Twitch's format; None if the line is outside of it.
pub fn reference(line: &str) -> Option<View> {
  let mut v = View::default();
  let mut rest = line;
  if let Some(r) = rest.strip_prefix('@') {
    let (tags, r) = r.split_once(' ')?;
    if !tags.is_empty() {
      for t in tags.split(';') {
        let (k, val) = t.split_once('=')?;
        if k.is_empty() {
          return None;
        }
        v.tags.push((k.to_string(), val.to_string()));
      }
    }
    rest = r;
  }
  if let Some(r) = rest.strip_prefix(':') {
    let (p, r) = r.split_once(' ')?;
    let bad = |s: &str| s.is_empty() || s.contains(['!', '@']);
    let pre = match p.split_once('@') {
      None => (None, None, p.to_string()),
      Some((who, host)) => match who.split_once('!') {
        None => (Some(who.to_string()), None, host.to_string()),
        Some((n, u)) => (Some(n.to_string()), Some(u.to_string()), host.to_string()),
      },
    };
    if bad(&pre.2) || pre.0.as_deref().is_some_and(bad) || pre.1.as_deref().is_some_and(bad) {
      return None;
    }
    v.prefix = Some(pre);
    rest = r;
  }
  let (cmd, r) = match rest.split_once(' ') {
    Some((c, r)) => (c, Some(r)),
    None => (rest, None),
  };
  if cmd.is_empty() || !cmd.bytes().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit()) {
    return None;
  }
  v.command = cmd.to_string();
  let mut params = r.unwrap_or("");
  if params.starts_with(' ') || r == Some("") {
    return None;
  }
  if params.starts_with('#') {
    let (ch, p) = match params.split_once(' ') {
      Some((c, p)) => (c, p),
      None => (params, ""),
    };
    v.channel = Some(ch.to_string());
    if p.is_empty() && params.len() != ch.len() {
      return None;
    }
    params = p;
  }
  if !params.is_empty() {
    v.params = Some(params.to_string());
    v.text = match params.find(':') {
      None => Some(params.to_string()),
      Some(i) if i == 0 || params.as_bytes()[i - 1] == b' ' => Some(params[i + 1..].to_string()),
      Some(_) => return None,
    };
  }
  match cmd {
    "353" => v.channel = v.params.as_deref().and_then(|p| p.split_whitespace().nth(2)).map(String::from),
    "366" => v.channel = v.params.as_deref().and_then(|p| p.split_whitespace().nth(1)).map(String::from),
    _ => {}
  }
  Some(v)
}

fn pv(p: Option<tmi::Prefix<'_>>) -> Option<(Option<String>, Option<String>, String)> {
  p.map(|p| (p.nick.map(String::from), p.user.map(String::from), p.host.to_string()))
}

macro_rules! view_of {
  ($m:expr) => {
    View {
      tags: $m.tags().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
      prefix: pv($m.prefix()),
      command: $m.command().as_str().to_string(),
      channel: $m.channel().map(String::from),
      params: $m.params().map(String::from),
      text: $m.text().map(String::from),
    }
  };
}

pub fn owned(m: &tmi::IrcMessage) -> View {
  view_of!(m)
}
pub fn borrowed(m: &tmi::IrcMessageRef<'_>) -> View {
  view_of!(m)
}

/// First difference between what the application reads and what the line says.
pub fn compare(got: &View, want: &View) -> Option<String> {
  if got.tags != want.tags {
    let i = (0..).find(|&i| got.tags.get(i) != want.tags.get(i)).unwrap();
    return Some(format!("tag {i} of {} (application sees {}): {:?}, sent {:?}", want.tags.len(), got.tags.len(), got.tags.get(i), want.tags.get(i)));
  }
  if got.prefix != want.prefix {
    return Some(format!("prefix reads {:?}, sent {:?}", got.prefix, want.prefix));
  }
  if got.command != want.command {
    return Some(format!("command reads {:?}, sent {:?}", got.command, want.command));
  }
  if got.channel != want.channel {
    return Some(format!("channel reads {:?}, sent {:?}", got.channel, want.channel));
  }
  if got.params != want.params {
    return Some(format!("params read {:?}, sent {:?}", got.params, want.params));
  }
  // without a ':' there is no trailing text: no claim
  if want.params.as_deref().is_some_and(|p| p.contains(':')) && got.text != want.text {
    return Some(format!("text reads {:?}, sent {:?}", got.text, want.text));
  }
  None
}

/// The same line read by the other entry points; the first discrepancy.
pub fn again(m: &tmi::IrcMessage, want: &View) -> Option<String> {
  let Some(r) = tmi::IrcMessageRef::parse(m.raw()) else {
    return Some("does not parse on its own".into());
  };
  let Some(o) = tmi::IrcMessage::parse(m.raw()) else {
    return Some("does not parse on its own, owned".into());
  };
  for (how, raw, v) in [("parsed again", r.raw(), borrowed(&r)), ("parsed again, owned", o.raw(), owned(&o)), ("copied", m.as_ref().raw(), borrowed(&m.as_ref().clone()))] {
    if raw != m.raw() {
      return Some(format!("{how}: raw text {raw:?}"));
    }
    if let Some(x) = compare(&v, want) {
      return Some(format!("{how}: {x}"));
    }
  }
  let p = m.raw().split(' ').find(|p| !p.starts_with('@')).and_then(|p| p.strip_prefix(':'));
  let got = m.prefix().map(|p| p.to_string());
  if got.as_deref() != p {
    return Some(format!("prefix shows as {got:?}, sent {p:?}"));
  }
  None
}

const PROBES: &[&str] = &["id", "msg-id", "badges", "pinned-chat-paid-amount", "pinned-chat-paid-canonical-amount", "login", "mod", "no-such-tag", "ida", "i"];

/// Check lookups by name against the tag list of the reference; returns the first discrepancy.
pub fn lookups(m: &tmi::IrcMessage, v: &View) -> Option<String> {
  let r = m.as_ref();
  for c in [m.command(), r.command()] {
    let got = format!("{c:?}");
    let want = match KNOWN.iter().position(|k| *k == v.command) {
      Some(i) => VARIANTS[i].to_string(),
      None => format!("Other({:?})", v.command),
    };
    if got != want {
      return Some(format!("command {:?} reads {got}", v.command));
    }
  }
  let keys = v.tags.iter().map(|(k, _)| k.as_str()).chain(PROBES.iter().copied());
  for k in keys {
    if v.tags.iter().filter(|(k2, _)| k2 == k).count() > 1 {
      continue; // Twitch does not repeat a tag: no claim which one counts
    }
    let want = v.tags.iter().find(|(k2, _)| k2 == k).map(|(_, v)| v.as_str());
    for (how, got) in [("name", m.tag(k)), ("unknown", m.tag(tmi::Tag::Unknown(k))), ("ref", r.tag(k)), ("parsed", m.tag(tmi::Tag::parse(k)))] {
      if got != want {
        return Some(format!("lookup of tag {k:?} by {how} gives {got:?}, sent {want:?}"));
      }
    }
  }
  None
}
