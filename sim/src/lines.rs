//! What servers say: lines of Twitch's format, extreme ones, and hostile ones.

use crate::plan::Rng;
use crate::typed;

pub const KEYS: &[&str] = &[
  "badge-info",
  "badges",
  "client-nonce",
  "color",
  "display-name",
  "emotes",
  "first-msg",
  "flags",
  "id",
  "mod",
  "room-id",
  "subscriber",
  "tmi-sent-ts",
  "turbo",
  "user-id",
  "user-type",
  "msg-id",
  "login",
  "reply-parent-msg-id",
  "reply-parent-msg-body",
  "reply-thread-parent-msg-id",
  "system-msg",
  "msg-param-sub-plan",
  "msg-param-cumulative-months",
  "pinned-chat-paid-amount",
  "pinned-chat-paid-canonical-amount",
  "pinned-chat-paid-currency",
  "pinned-chat-paid-exponent",
  "pinned-chat-paid-level",
  "pinned-chat-paid-is-system-message",
  "emote-only",
  "followers-only",
  "r9k",
  "slow",
  "subs-only",
  "target-msg-id",
  "target-user-id",
  "ban-duration",
  "emote-sets",
  "thread-id",
  "message-id",
  "returning-chatter",
  "vip",
  "bits",
  "custom-reward-id",
  "msg-param-viewerCount",
  "msg-param-displayName",
  "msg-param-profileImageURL",
  "sent-ts",
  "x",
  "a",
  "zz-unknown",
  "source-room-id",
  "source-badges",
  "unknown_key",
  "K",
  "k",
  "ID",
  "Color",
  "1",
  "msg-param-color",
  "msg-param-promo-name",
  "msg-param-promo-gift-total",
  "msg-param-origin-id",
  "msg-param-community-gift-id",
];
const CMDS: &[&str] = &[
  "PRIVMSG",
  "PRIVMSG",
  "PRIVMSG",
  "USERNOTICE",
  "CLEARCHAT",
  "CLEARMSG",
  "ROOMSTATE",
  "USERSTATE",
  "GLOBALUSERSTATE",
  "NOTICE",
  "WHISPER",
  "JOIN",
  "PART",
  "PING",
  "PONG",
  "RECONNECT",
  "CAP",
  "001",
  "002",
  "003",
  "004",
  "353",
  "366",
  "372",
  "375",
  "376",
  "421",
  "HOSTTARGET",
  "NEWTHING",
  "PRIVMSGX",
  "PRIV",
  "P",
  "JOINS",
  "999",
  "PIN",
  "SOMETHINGNEWWITHALONGNAME",
  "ANNOUNCEMENTOFTHECENTURYANDBEYOND2",
];
const VCH: &[&str] = &["a", "b", "Z", "0", "-", "_", "/", ",", ":", "=", "==", "\\s", "\\:", "\\\\", "é", "日", "🤖", "#", "@", "!", "~", "~", ".", "\u{7f}", "\u{1}", "\u{0}", "\r"];

fn val(r: &mut Rng, n: u64) -> String {
  let mut s = String::new();
  while (s.len() as u64) < n {
    s.push_str(r.pick(VCH));
  }
  s
}
fn fill(r: &mut Rng, n: usize) -> String {
  let c = *r.pick(&["x", "=", ",", "é", "0", "ab=", "🤖"]);
  let mut s = String::new();
  while s.len() < n {
    s.push_str(c);
  }
  s
}
fn size(r: &mut Rng) -> u64 {
  match r.n(10) {
    0 | 1 => 0,
    2..=6 => r.n(20),
    7 | 8 => r.n(70),
    _ => r.n(400),
  }
}

/// a line of the format, with generic content
pub fn valid(r: &mut Rng) -> String {
  let mut s = String::new();
  if r.chance(75) {
    let mut keys: Vec<&str> = vec![];
    let n = if r.chance(10) { r.range(20, 60) } else { r.n(14) };
    for _ in 0..n {
      let k = *r.pick(KEYS);
      if !keys.contains(&k) {
        keys.push(k);
      }
    }
    s.push('@');
    for (i, k) in keys.iter().enumerate() {
      if i > 0 {
        s.push(';');
      }
      let n = size(r);
      s.push_str(k);
      s.push('=');
      s.push_str(&val(r, n));
    }
    s.push(' ');
  }
  tail(r, &mut s);
  s
}
fn tail(r: &mut Rng, s: &mut String) {
  match r.n(6) {
    0 => {}
    1 => s.push_str(":tmi.twitch.tv "),
    2 => s.push_str(":justinfan123@justinfan123.tmi.twitch.tv "),
    _ => {
      let n = *r.pick(&["a", "randers", "some_user_name1", "x1"]);
      let (u, h) = if r.chance(90) { (n, n) } else { (*r.pick(&["u", "another"]), *r.pick(&["h", "other"])) };
      s.push_str(&format!(":{n}!{u}@{h}.tmi.twitch.tv "));
    }
  }
  let c = *r.pick(CMDS);
  s.push_str(c);
  match c {
    "353" | "366" => {
      // `353 login = #channel :names`, `366 login #channel :text`
      s.push_str(&format!(" {}", r.pick(&["simuser", "justinfan12345", "a", "x"])));
      if c == "353" {
        s.push_str(r.pick(&[" =", " =", " =", " @", " *"]));
      }
      s.push_str(&format!(" #{}", r.pick(&["x", "jerma985", "y_z", "a", "simuser"])));
      if c == "366" && r.chance(50) {
        s.push_str(" :End of /NAMES list");
      } else {
        s.push_str(" :");
        for i in 0..r.n(12) {
          s.push_str(if i == 0 { "" } else { " " });
          s.push_str(r.pick(&["a", "b", "jerma985", "some_user_name1", "#x", "=", "@mod", ":c", "é"]));
        }
      }
    }
    "CAP" => s.push_str(" * ACK :twitch.tv/tags"),
    _ => {
      if r.chance(80) {
        if r.chance(70) {
          s.push_str(&format!(" #{}", r.pick(&["x", "jerma985", "y_z", "chan:colon", "é"])));
        }
        if r.chance(20) {
          s.push_str(" word");
        }
        if r.chance(80) {
          let n = size(r) + r.n(3);
          s.push_str(" :");
          s.push_str(&val(r, n).replace('\r', "").replace('~', " "));
        }
      }
    }
  }
  if s.ends_with('\r') {
    s.pop();
  }
}

/// lines of the format at and beyond customary sizes
pub fn extreme(r: &mut Rng) -> String {
  let mut s = String::from("@");
  match r.n(9) {
    0 | 1 => {
      // many tags
      let mut n = *r.pick(&[1, 2, 16, 31, 63, 64, 126, 127, 128, 129, 130, 200, 255, 256, 257, 300, 1000]);
      if r.n(300) == 0 {
        n = r.log(1000, 6000);
      }
      let v: Vec<String> = (0..n).map(|i| format!("k{i}={}", val(r, i as u64 % 5))).collect();
      s.push_str(&v.join(";"));
    }
    2 => {
      // a long value between others
      let n = *r.pick(&[200, 255, 256, 257, 4095, 4096, 8191, 8192, 16384, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 70000, 131072, 131080]);
      s.push_str(&format!("a=1;long={};b=2;c=", fill(r, n)));
    }
    3 => {
      // a long key
      let n = *r.pick(&[200, 255, 256, 257, 4096, 65534, 65535, 65536, 65540, 131072]);
      let k: String = (0..n).map(|i| if i % 7 == 0 { '-' } else { 'k' }).collect();
      s.push_str(&format!("a=1;{k}=v;b=2"));
    }
    4 | 5 => {
      // sizes around vector widths: key and value lengths sweep
      let n = r.range(1, 12);
      let v: Vec<String> = (0..n)
        .map(|i| {
          let a = r.range(1, 40) as usize;
          let b = r.range(0, 70);
          let k: String = format!("{i}{}", "k".repeat(a));
          format!("{k}={}", val(r, b))
        })
        .collect();
      s.push_str(&v.join(";"));
    }
    6 => {
      // total tag length exactly around multiples of the vector widths
      let n = *r.pick(&[14usize, 15, 16, 17, 30, 31, 32, 33, 62, 63, 64, 65, 94, 95, 96, 97, 126, 127, 128, 129, 159, 160, 161, 191, 192, 193, 255, 256, 257]);
      let mut t = String::from("a=");
      while t.len() < n {
        if n - t.len() > 4 && r.chance(25) {
          t.push_str(";b=");
        } else {
          t.push(*r.pick(&['x', '=', 'y', ',', '/']));
        }
      }
      s.push_str(&t);
    }
    7 => {
      // empty values only
      let n = r.range(1, 80);
      let v: Vec<String> = (0..n).map(|i| format!("k{i}=")).collect();
      s.push_str(&v.join(";"));
    }
    _ => {
      // long everything
      s.push_str("id=1;room-id=2");
      let mut t = String::from(" :x!x@x.tmi.twitch.tv PRIVMSG #x :");
      let n = *r.pick(&[500usize, 5000, 16300, 16400, 40000, 100000]);
      t.push_str(&fill(r, n));
      s.push_str(&t);
      return s;
    }
  }
  s.push(' ');
  tail(r, &mut s);
  s
}

/// a chat message longer than read buffers and TLS records tend to be
pub fn long(r: &mut Rng, tag: &str) -> String {
  let n = *r.pick(&[2000usize, 4090, 4096, 5000, 8100, 8185, 8192, 8300, 9500, 12000, 16380, 16400, 20000]) + r.n(20) as usize;
  let n = if r.chance(5) { *r.pick(&[33_000usize, 65_530, 65_540, 131_080, 262_200, 600_000, 1_100_000]) } else { n };
  let mut s = format!("@id={tag}-long;emotes=");
  let k = if r.chance(50) { n } else { r.n(n as u64) as usize };
  while s.len() < k {
    s.push_str("25:0-4,6-10/");
  }
  s.push_str(" :a!a@a.tmi.twitch.tv PRIVMSG #x :");
  while s.len() < n {
    s.push_str("Kappa é ");
  }
  s.push('.');
  s
}

/// bytes without a line feed that may be anything
pub fn hostile(r: &mut Rng) -> Vec<u8> {
  let mut b: Vec<u8> = match r.n(14) {
    0 if r.chance(15) => vec![],
    0 => {
      let n = r.log(1, 200);
      (0..n).map(|_| r.n(256) as u8).collect()
    }
    1 => {
      // syntax soup
      let n = r.log(1, 60);
      (0..n).map(|_| *r.pick(b"@:;= !#\\/,aA0\x01")).collect()
    }
    2 => (*r.pick(&[
      "@",
      "@=",
      "@;",
      "@;;=",
      "@a",
      "@a=b",
      "@a=b;",
      "@a=b;c",
      "@a=b;c=d",
      "@ ",
      "@ :",
      ":",
      ": ",
      ":a",
      ":a ",
      ":!@ ",
      ":a!b ",
      ":a@b",
      ":@! X",
      " ",
      "  ",
      "PRIVMSG",
      "PRIVMSG ",
      "PRIVMSG #",
      "PRIVMSG #x",
      "PRIVMSG #x :",
      "PRIVMSG :",
      "PRIVMSG #x:",
      "@a=b :a",
      "@a=b :a PRIVMSG",
      "@a=b  PRIVMSG #x :y",
      "CAP",
      "001",
      "00",
      "0",
      "@a=b \u{1F916}",
      "\u{1F916}",
      "PING:",
      "PING :",
      "ping",
      "\r",
      "\0",
      "@=== PING",
      "@a==b PING",
      "@;a=b PING",
      "@a=b;;c=d PING",
      "@a;b=c PING",
      "WHISPER",
      "WHISPER :",
      "WHISPER a",
      "JOIN",
      ":a JOIN #x",
      "CLEARCHAT",
      "CLEARCHAT #x :",
      "NOTICE",
      "@msg-id= NOTICE",
      "USERNOTICE",
      "ROOMSTATE #x",
      "@room-id= ROOMSTATE #x",
      "353",
      "353 a",
      "366 a",
      "353 = = =",
      ":x 353 a b",
      "\u{2028}",
      "PRIVMSG #\u{2028} :x",
      "@é=ü PING",
      "@aé PING",
    ]))
    .as_bytes()
    .to_vec(),
    3 => {
      // never-ending tags
      let n = *r.pick(&[100u64, 127, 128, 129, 130, 500, 2000]);
      let sep = *r.pick(&[";", "=;", ";=", "a=;", "=a;", "a=b;"]);
      format!("@{}{}", sep.repeat(n as usize), r.pick(&["", " ", " PING", " :a PRIVMSG #x :y"])).into_bytes()
    }
    4 => {
      let n = *r.pick(&[1000usize, 65535, 65536, 65537, 131072, 200000]);
      let k = r.n(4);
      match k {
        0 => format!("@{}=v PING", "k".repeat(n)),
        1 => format!("@k={} PING", "é".repeat(n / 2)),
        2 => format!("@a=1;k={} PING", "v".repeat(n)),
        _ => format!(":{} PING", "n!@".repeat(n / 3)),
      }
      .into_bytes()
    }
    5 | 6 => numbers(r).into_bytes(),
    _ => {
      let mut b = if r.chance(70) { typed::event(r) } else { valid(r) }.into_bytes();
      let k = r.range(1, 4);
      for _ in 0..k {
        mutate(r, &mut b);
      }
      b
    }
  };
  for c in b.iter_mut() {
    if *c == b'\n' {
      *c = b' ';
    }
  }
  if b.last() == Some(&b'\r') {
    b.pop();
  }
  b
}
fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
  if b.is_empty() {
    return;
  }
  let i = r.n(b.len() as u64) as usize;
  match r.n(9) {
    0 => b.truncate(i),
    1 => {
      b.remove(i);
    }
    2 => b[i] = r.n(256) as u8,
    3 => b.insert(i, *r.pick(b"@:;= !#\\/,\x00\xff\xf0\xc3\x01")),
    4 => b[i] ^= 1 << r.n(8),
    5 => {
      let j = (i + r.n(30) as usize).min(b.len());
      b.drain(i..j);
    }
    6 => {
      let j = (i + r.n(40) as usize).min(b.len());
      let c = b[i..j].to_vec();
      b.splice(i..i, c);
    }
    7 => {
      // drop one separator
      let seps: Vec<usize> = (0..b.len()).filter(|&i| b" ;=:#!@".contains(&b[i])).collect();
      if !seps.is_empty() {
        b.remove(*r.pick(&seps));
      }
    }
    _ => {
      // a multi-byte character in the wrong place
      let c = *r.pick(&["é", "🤖", "\u{2E1D}", "\u{FEFF}", "İ", "\\é", "\\🤖"]);
      b.splice(i..i, c.bytes());
    }
  }
}
/// typed messages with absurd numbers and missing or odd tags
fn numbers(r: &mut Rng) -> String {
  let mut s = typed::event(r);
  let bad = [
    "-1",
    "18446744073709551615",
    "18446744073709551616",
    "9223372036854775807",
    "9223372036854775808",
    "-9223372036854775808",
    "99999999999999999999999",
    "NaN",
    "",
    "1e9",
    "0x10",
    " 1",
    "+5",
    "1.5",
    "8640000000000000",
    "8210298412800000",
    "-62135596800000",
    "4294967296",
    "307445734561825861",
    "153722867280912931",
    "é",
    "\\s",
    "\\",
  ];
  let Some(end) = s.find(' ').filter(|_| s.starts_with('@')) else {
    return s;
  };
  let tags: Vec<String> = s[1..end]
    .split(';')
    .filter_map(|t| {
      let (k, v) = t.split_once('=').unwrap_or((t, ""));
      match r.n(12) {
        0 => None,
        1..=3 => Some(format!("{k}={}", r.pick(&bad))),
        4 => Some(format!("{k}={v}{}", r.pick(&bad))),
        5 => Some(k.to_string()),
        _ => Some(t.to_string()),
      }
    })
    .collect();
  s.replace_range(1..end, &tags.join(";"));
  s
}
