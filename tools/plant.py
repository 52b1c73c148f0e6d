#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ for every planted bug below: plant.py gen [ID...]
Validates them in scratch copies of /repo:                plant.py check [ID...]
(builds, passes the stable tests, touches only lines of the original repository,
demo.sh exits 0 without and nonzero with the patch). Not used by any check."""
import sys, os, json, subprocess, shutil, tempfile, re
HERE=os.path.dirname(os.path.abspath(__file__)); SEED=os.path.join(HERE,'..','seeded'); KIT=os.path.join(HERE,'plant'); BASE='7b76d4e'
B={}
def bug(id, prop, needs, breaks, edits, demo):
    B[id]=dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)
C='src/client.rs'; CONN='src/client/conn.rs'; R='src/client/read.rs'; W='src/client/write.rs'; MAC='src/client/macros.rs'; U='src/client/util.rs'
SIMD='src/irc/tags/simd.rs'; IRC='src/irc.rs'; TAGS='src/irc/tags.rs'; MSG='src/msg.rs'; UN='src/msg/user_notice.rs'; PM='src/msg/privmsg.rs'
PRE='mod fake;\nuse fake::*;\nuse std::time::Duration;\n'

bug('c01-fair-recv','C01','a receive that is abandoned after its first poll (a select against something that is ready, or a timeout of zero) while a line is already buffered',
 'recv takes the line out of the stream and then yields once before returning it: dropping the future at that point loses the line',
 [(R,"""      let message = message?;
      Ok(IrcMessage::parse(&message).ok_or(RecvError::Parse(message))?)
""","""      let message = message.map_err(RecvError::Io)?;
      // let other tasks run when the server floods us
      tokio::task::yield_now().await;
      IrcMessage::parse(&message).ok_or(RecvError::Parse(message))
""")],
 PRE+"""
fn main() {
  serve(|mut c| {
    c.welcome();
    c.say(&(0..40).map(chat).collect::<String>());
    c.hold();
  });
  run(30, async {
    let mut client = client().await;
    let mut next = 0;
    while next < 40 {
      let once = {
        let mut recv = std::pin::pin!(client.recv());
        std::future::poll_fn(|cx| std::task::Poll::Ready(std::future::Future::poll(recv.as_mut(), cx))).await
      };
      let std::task::Poll::Ready(m) = once else {
        tokio::time::sleep(Duration::from_millis(1)).await;
        continue;
      };
      assert_eq!(m.unwrap().raw(), chat(next).trim_end());
      next += 1;
    }
  });
}
""")

bug('c02-last-tag','C02','tags whose length is an exact multiple of the vector width',
 'the last tag is dropped when no bytes are left for the final partial vector',
 [(SIMD,"  while offset + V::SIZE < remainder.len() {","  while offset + V::SIZE <= remainder.len() {")],
 PRE+"""
fn main() {
  for n in 0..300 {
    let pad = "x".repeat(n);
    let line = format!("@id=abc;pad={pad};last=1 :a!a@a.tmi.twitch.tv PRIVMSG #x :hi");
    let m = tmi::IrcMessage::parse(&line).expect("demo: not parsed");
    let want = vec![("id", "abc"), ("pad", pad.as_str()), ("last", "1")];
    assert_eq!(m.tags().collect::<Vec<_>>(), want, "length {n}");
  }
}
""")

bug('c02-names-channel','C02','the end of a NAMES list (366), whose channel is asked for on the owned message a client receives',
 'the channel of 366 is taken to be the last word before the trailing text by searching from the wrong end',
 [(IRC,"""      Command::RplEndOfNames => self
        .params()
        .and_then(|params| params.split_whitespace().nth(1)),
      _ => self.parts.channel.map(|span| &self.src.as_str()[span]),""","""      Command::RplEndOfNames => self
        .params()
        .and_then(|params| params.rsplit(' ').nth(4)),
      _ => self.parts.channel.map(|span| &self.src.as_str()[span]),""")],
 PRE+"""
fn main() {
  for text in ["End of /NAMES list", "End of NAMES"] {
    let line = format!(":justinfan1.tmi.twitch.tv 366 justinfan1 #jerma985 :{text}");
    let m = tmi::IrcMessage::parse(&line).unwrap();
    assert_eq!(m.channel(), Some("#jerma985"), "{line}");
    assert_eq!(m.as_ref().channel(), Some("#jerma985"), "{line}");
  }
}
""")

bug('c03-timestamp','C03','a message whose tmi-sent-ts is a number far outside the range of dates',
 'interpreting the message panics',
 [(MSG,"  chrono::Utc.timestamp_millis_opt(s.parse().ok()?).single()","  Some(chrono::Utc.timestamp_millis_opt(s.parse().ok()?).unwrap())")],
 PRE+"""
fn main() {
  for ts in ["0", "-1", "99999999999999999", "9223372036854775807", "-9223372036854775808", "x", ""] {
    let line = format!("@badge-info=;badges=;color=;display-name=A;emotes=;flags=;id=i;mod=0;room-id=1;subscriber=0;tmi-sent-ts={ts};turbo=0;user-id=2;user-type= :a!a@a.tmi.twitch.tv PRIVMSG #x :hi");
    let m = tmi::IrcMessage::parse(&line).unwrap();
    let _ = m.as_typed();
  }
}
""")

bug('c03-split-unwrap','C03','a badge without a version in the badges tag, which Twitch never sends',
 'interpreting the message panics instead of ignoring the malformed badge',
 [(MSG,"    .flat_map(|badge| badge.split_once('/'))\n    .map(","    .map(|badge| {\n      let end = badge.find('/').unwrap_or(badge.len());\n      (&badge[..end], &badge[end + 1..])\n    })\n    .map(")],
 PRE+"""
fn main() {
  for badges in ["", "vip/1", "vip", "vip/", "/", ",", "vip/1,", "vip,vip/1"] {
    let line = format!("@badge-info=;badges={badges};color=;display-name=A;emotes=;flags=;id=i;mod=0;room-id=1;subscriber=0;tmi-sent-ts=1;turbo=0;user-id=2;user-type= :a!a@a.tmi.twitch.tv PRIVMSG #x :hi");
    let m = tmi::IrcMessage::parse(&line).unwrap();
    let _ = m.as_typed();
  }
}
""")

bug('c04-eof-parse','C04','the server ends the connection without a TLS close_notify',
 'the unexpected end of the stream is reported as a malformed message, which does not identify itself as a disconnect',
 [(R,"""  fn from(value: io::Error) -> Self {
    Self::Io(value)
  }""","""  fn from(value: io::Error) -> Self {
    match value.kind() {
      // the input was cut off
      io::ErrorKind::UnexpectedEof => Self::Parse(value.to_string()),
      _ => Self::Io(value),
    }
  }""")],
 PRE+"""
fn main() {
  serve(|mut c| {
    c.welcome();
    c.say(&chat(0));
    c.wait(50);
    // dropped without close_notify
  });
  run(30, async {
    let mut client = client().await;
    assert_eq!(client.recv().await.unwrap().raw(), chat(0).trim_end());
    let e = client.recv().await.unwrap_err();
    assert!(e.is_disconnect(), "{e:?}");
  });
}
""")

bug('c05-single-write','C05','a command that does not fit into the TLS buffer in one piece: a very long one, or any one behind a stalled server',
 'send_raw writes once and ignores how much was accepted, cutting the command off while reporting success',
 [(W,"    self.writer.write_all(data.as_bytes()).await?;","    self.writer.write(data.as_bytes()).await?;")],
 PRE+"""
fn main() {
  let (tx, rx) = std::sync::mpsc::channel();
  let tx = std::sync::Mutex::new(tx);
  serve(move |mut c| {
    c.welcome();
    c.wait(2000);
    for _ in 0..2 {
      let l = c.line();
      let _ = tx.lock().unwrap().send(l);
    }
    c.hold();
  });
  run(60, async {
    let mut client = client().await;
    let long = "x".repeat(16_000_000);
    client.send_raw(format!("PRIVMSG #x :{long}\\r\\n").as_str()).await.unwrap();
    client.send_raw("PING :after\\r\\n").await.unwrap();
    let got = rx.recv_timeout(Duration::from_secs(20)).expect("demo: nothing received");
    assert!(got == Some(format!("PRIVMSG #x :{long}")), "demo: cut off");
    assert_eq!(rx.recv_timeout(Duration::from_secs(20)).unwrap(), Some("PING :after".into()));
  });
}
""")

bug('c05-send-deadline','C05','a server that does not read for longer than the configured timeout and then goes on',
 'a send behind a stalled server is given up after the configured timeout but reported as successful, leaving a truncated command on the wire',
 [(W,"    self.writer.write_all(data.as_bytes()).await?;","    let timeout = self.config.timeout;\n    if let Ok(result) = tokio::time::timeout(timeout, self.writer.write_all(data.as_bytes())).await {\n      result?;\n    }")],
 PRE+"""
fn main() {
  let (tx, rx) = std::sync::mpsc::channel();
  let tx = std::sync::Mutex::new(tx);
  serve(move |mut c| {
    c.welcome();
    c.wait(3000);
    let l = c.line();
    let _ = tx.lock().unwrap().send(l);
    c.hold();
  });
  run(60, async {
    let mut client = tmi::Client::builder().timeout(Duration::from_secs(1)).connect().await.unwrap();
    let long = "x".repeat(16_000_000);
    client.send_raw(format!("PRIVMSG #x :{long}\\r\\n").as_str()).await.unwrap();
    client.send_raw("PING :after\\r\\n").await.unwrap();
    let got = rx.recv_timeout(Duration::from_secs(40)).expect("demo: nothing received").unwrap();
    assert_eq!(got.len(), 12 + long.len());
  });
}
""")

bug('c06-residue','C06','a command that fails on a dead connection, followed by a reconnect or another command',
 'a command that could not be sent stays in the scratch buffer and is sent in front of the next one',
 [(MAC,"    scratch.clear();\n","    if result.is_ok() {\n      scratch.clear();\n    }\n")],
 PRE+"""
fn main() {
  let (tx, rx) = std::sync::mpsc::channel();
  let tx = std::sync::Mutex::new(tx);
  serve(move |mut c| {
    let v = c.welcome();
    if c.n > 0 {
      let _ = tx.lock().unwrap().send(v);
      c.hold();
    }
  });
  run(60, async {
    let mut client = client().await;
    for i in 0.. {
      assert!(i < 400, "demo: sends keep succeeding");
      if client.privmsg("#x", "hello").send().await.is_err() {
        break;
      }
      tokio::time::sleep(Duration::from_millis(10)).await;
    }
    client.reconnect().await.unwrap();
    let v = rx.recv_timeout(Duration::from_secs(5)).unwrap();
    assert_eq!(v[0], "CAP REQ :twitch.tv/commands twitch.tv/tags twitch.tv/membership");
  });
}
""")

bug('c06-nonce-escape','C06','a reply together with a nonce',
 'the two tags of a message which has both are separated by a space instead of a semicolon',
 [(W,"          .join(';');","          .join(' ');")],
 PRE+"""
fn main() {
  let (tx, rx) = std::sync::mpsc::channel();
  let tx = std::sync::Mutex::new(tx);
  serve(move |mut c| {
    c.welcome();
    while let Some(l) = c.line() {
      let _ = tx.lock().unwrap().send(l);
    }
  });
  run(60, async {
    let mut client = client().await;
    let next = || rx.recv_timeout(Duration::from_secs(5)).unwrap();
    client.privmsg("#x", "hello").send().await.unwrap();
    assert_eq!(next(), "PRIVMSG #x :hello");
    client.privmsg("#x", "hello").reply_to("id").send().await.unwrap();
    assert_eq!(next(), "@reply-parent-msg-id=id PRIVMSG #x :hello");
    client.privmsg("#x", "hello").reply_to("id").client_nonce("n").send().await.unwrap();
    assert_eq!(next(), "@reply-parent-msg-id=id;client-nonce=n PRIVMSG #x :hello");
  });
}
""")

bug('c07-cap-nak','C07','a server which refuses the capabilities',
 'a refusal (CAP * NAK) is taken for an acknowledgement',
 [(C,'v.starts_with("* ACK")','v.starts_with("* ")')],
 PRE+"""
fn main() {
  serve(|mut c| {
    c.asked();
    c.say(":tmi.twitch.tv CAP * NAK :twitch.tv/commands twitch.tv/tags twitch.tv/membership\\r\\n");
    c.say(":tmi.twitch.tv 001 justinfan12345 :Welcome, GLHF!\\r\\n");
    c.hold();
  });
  run(30, async {
    assert!(tmi::Client::anonymous().await.is_err());
  });
}
""")

bug('c07-oauth-twice','C07','a token that has the oauth prefix in upper case or no prefix at all but contains one elsewhere',
 'a token which contains "oauth:" anywhere is sent without the prefix',
 [(C,'    let oauth = if token.starts_with("oauth:") {','    let oauth = if token.contains("oauth:") {')],
 PRE+"""
fn main() {
  let (tx, rx) = std::sync::mpsc::channel();
  let tx = std::sync::Mutex::new(tx);
  serve(move |mut c| {
    let v = c.welcome();
    let _ = tx.lock().unwrap().send(v);
    c.hold();
  });
  run(60, async {
    for (token, pass) in [("oauth:abc", "PASS oauth:abc"), ("abc", "PASS oauth:abc"), ("my-oauth:abc", "PASS oauth:my-oauth:abc")] {
      let credentials = tmi::Credentials::new("someone", token);
      let _client = tmi::Client::builder().credentials(credentials).connect().await.unwrap();
      assert_eq!(rx.recv_timeout(Duration::from_secs(5)).unwrap()[1], pass);
    }
  });
}
""")

bug('c08-handshake-limit','C08','a configured timeout below five seconds and a server which goes silent in the handshake',
 "the handshake of connect ignores the configured timeout and relies on the fixed timeouts of its reads",
 [(C,"    client.handshake().timeout(timeout).await??;","    // every step of the handshake has a timeout of its own\n    client.handshake().await?;")],
 PRE+"""
fn main() {
  serve(|mut c| {
    c.asked();
    c.hold();
  });
  run(30, async {
    let start = std::time::Instant::now();
    let e = tmi::Client::builder().timeout(Duration::from_millis(300)).connect().await.err();
    assert!(matches!(e, Some(tmi::client::ConnectError::Timeout)), "{e:?}");
    assert!(start.elapsed() < Duration::from_secs(4), "took {:?}", start.elapsed());
  });
}
""")

bug('c09-shared-budget','C09','several reconnects over the life of one client',
 'attempts are counted over the life of the client instead of per reconnect call, so that a later reconnect makes fewer attempts or none',
 [(C,"    let mut tries = backoff.max_tries;\n",""),
  (C,"    while matches!(tries, None | Some(1..)) {","    while matches!(self.config.backoff.max_tries, None | Some(1..)) {"),
  (C,"      if let Some(tries) = &mut tries {","      if let Some(tries) = &mut self.config.backoff.max_tries {")],
 PRE+"""
fn main() {
  serve(|mut c| {
    c.welcome();
    c.hold();
  });
  run(60, async {
    let mut client = tmi::Client::builder().backoff(backoff(5, Some(3))).connect().await.unwrap();
    for i in 0..6 {
      client.reconnect().await.unwrap_or_else(|e| panic!("reconnect {i}: {e:?}"));
    }
  });
}
""")

bug('c09-cap-step','C09','a schedule of at least three attempts whose maximum is not the initial delay times a power of the multiplier',
 'a delay that would exceed the maximum is left as it was instead of being raised to the maximum',
 [(C,"      delay = std::cmp::min(backoff.max_delay, delay * backoff.delay_multiplier);","      let next = delay * backoff.delay_multiplier;\n      if next <= backoff.max_delay {\n        delay = next;\n      }")],
 PRE+"""
fn main() {
  serve_tcp(|n, tcp| {
    if n == 0 {
      let mut c = Conn::new(n, tcp);
      c.welcome();
      c.hold();
    }
  });
  run(60, async {
    let b = tmi::client::Backoff { max_tries: Some(5), initial_delay: Duration::from_millis(200), delay_multiplier: 10, max_delay: Duration::from_millis(1000) };
    let mut client = tmi::Client::builder().backoff(b).connect().await.unwrap();
    let start = std::time::Instant::now();
    assert!(client.reconnect().await.is_err());
    // 200 + 4 * 1000
    assert!(start.elapsed() >= Duration::from_millis(4200), "waited {:?} in all", start.elapsed());
    assert_eq!(CONNS.load(std::sync::atomic::Ordering::SeqCst), 6);
  });
}
""")

bug('c10-retry-auth','C10','the token is revoked before a reconnect',
 'rejected credentials are retried like a transient failure',
 [(C,"        return Err(e.into());\n      };\n","        if !matches!(e, ConnectError::Auth) {\n          return Err(e.into());\n        }\n        cause = e;\n        continue;\n      };\n")],
 PRE+"""
fn main() {
  serve(|mut c| {
    if c.n == 0 {
      c.welcome();
    } else {
      c.asked();
      c.say(":tmi.twitch.tv CAP * ACK :twitch.tv/commands twitch.tv/tags twitch.tv/membership\\r\\n");
      c.say(":tmi.twitch.tv NOTICE * :Login authentication failed\\r\\n");
    }
    c.hold();
  });
  run(60, async {
    let mut client = client().await;
    let e = client.reconnect().await.unwrap_err();
    assert!(matches!(e.cause, tmi::client::ConnectError::Auth), "{e:?}");
    assert_eq!(CONNS.load(std::sync::atomic::Ordering::SeqCst), 2);
  });
}
""")

bug('c11-graceful-close','C11','a reconnect while the old server is stalled and unsent data fills the socket',
 'the old connection is closed by a background task which first tries to shut it down properly; with a stalled server that never ends, and the old socket stays open',
 [(C,"      (self.reader, self.writer) = split(stream);\n","      let (reader, writer) = split(stream);\n      self.reader = reader;\n      let mut old = std::mem::replace(&mut self.writer, writer);\n      // say goodbye to the old server without making the caller wait for it\n      tokio::spawn(async move { old.shutdown().await });\n")],
 PRE+"""
fn main() {
  serve(|mut c| {
    c.welcome();
    if c.n == 0 {
      // stalled: reads nothing more
      c.wait(60_000);
    }
    c.hold();
  });
  run(60, async {
    let mut client = client().await;
    assert_eq!(open(), 1);
    let long = format!("PRIVMSG #x :{}\\r\\n", "x".repeat(40_000_000));
    let _ = tokio::time::timeout(Duration::from_secs(1), client.send_raw(long.as_str())).await;
    client.reconnect().await.unwrap();
    tokio::time::sleep(Duration::from_millis(500)).await;
    assert_eq!(open(), 1, "connections open");
  });
}
""")

bug('c12-detached-open','C12','a reconnect that is dropped while the connection is being opened',
 'the connection is opened by a task of its own, which goes on after the reconnect was abandoned',
 [(C,"    self\n      .config","")] if False else
 [(CONN,"""  Ok(
    TlsConnector::from(config.client())
      .connect(
        config.server_name(),
        TcpStream::connect((HOST, PORT)).await?,
      )
      .await?,
  )
""","""  // keep the negotiation going while the caller is busy with other things
  tokio::spawn(async move {
    let stream = TcpStream::connect((HOST, PORT)).await?;
    TlsConnector::from(config.client())
      .connect(config.server_name(), stream)
      .await
  })
  .await
  .unwrap_or_else(|e| Err(e.into()))
  .map_err(OpenStreamError::Io)
""")],
 PRE+"""
fn main() {
  serve_tcp(|n, tcp| {
    if n != 1 {
      let mut c = Conn::new(n, tcp);
      c.welcome();
      c.hold();
    } else {
      // never negotiates
      std::thread::sleep(Duration::from_secs(60));
    }
  });
  run(60, async {
    let mut client = client().await;
    assert_eq!(open(), 1);
    let _ = tokio::time::timeout(Duration::from_millis(400), client.reconnect()).await;
    assert_eq!(CONNS.load(std::sync::atomic::Ordering::SeqCst), 2);
    tokio::time::sleep(Duration::from_millis(200)).await;
    assert_eq!(open(), 1, "connections open");
  });
}
""")

LOG="""
use std::sync::Mutex;
use tracing::{field::{Field, Visit}, span, Event, Metadata, Subscriber};
static LOG: Mutex<String> = Mutex::new(String::new());
struct Log;
struct V;
impl Visit for V {
  fn record_debug(&mut self, f: &Field, v: &dyn std::fmt::Debug) {
    LOG.lock().unwrap().push_str(&format!(" {f}={v:?}"));
  }
}
impl Subscriber for Log {
  fn enabled(&self, _: &Metadata<'_>) -> bool { true }
  fn new_span(&self, _: &span::Attributes<'_>) -> span::Id { span::Id::from_u64(1) }
  fn record(&self, _: &span::Id, _: &span::Record<'_>) {}
  fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
  fn event(&self, e: &Event<'_>) { e.record(&mut V); LOG.lock().unwrap().push('\\n'); }
  fn enter(&self, _: &span::Id) {}
  fn exit(&self, _: &span::Id) {}
}
"""
bug('c13-log-prefix','C13','a token configured without its oauth prefix, and trace logging',
 'the password line is logged when the prefix had to be added',
 [(C,"""    let oauth = if token.starts_with("oauth:") {
      ""
    } else {
      "oauth:"
    };
    write!(&mut self.scratch, "PASS {oauth}{token}\\r\\n").unwrap();
""","""    let pass = if token.starts_with("oauth:") {
      format!("PASS {token}")
    } else {
      let pass = format!("PASS oauth:{token}");
      trace!(pass, "added the missing oauth prefix");
      pass
    };
    write!(&mut self.scratch, "{pass}\\r\\n").unwrap();
""")],
 PRE+LOG+"""
fn main() {
  tracing::subscriber::set_global_default(Log).unwrap();
  serve(|mut c| {
    c.welcome();
    c.hold();
  });
  run(60, async {
    for token in ["oauth:s3cr3t", "s3cr3t"] {
      let credentials = tmi::Credentials::new("someone", token);
      let client = tmi::Client::builder().credentials(credentials).connect().await.unwrap();
      drop(client);
    }
  });
  let log = LOG.lock().unwrap();
  assert!(!log.contains("s3cr3t"), "{log}");
}
""")

bug('c13-debug-len','C13','debug output of credentials or of a configuration that has them',
 'the debug output of credentials includes the end of the token, to tell tokens apart',
 [(C,"""      .field("nick", &self.login)
      .finish_non_exhaustive()""","""      .field("nick", &self.login)
      .field("token", &self.token.as_ref().map(|t| t.rsplit(':').next()))
      .finish()""")],
 PRE+"""
fn main() {
  for token in ["oauth:s3cr3t", "s3cr3t"] {
    let c = tmi::Credentials::new("someone", token);
    assert!(!format!("{c:?} {c:#?}").contains("s3cr3t"));
  }
}
""")

bug('c14-new-identity','C14','an anonymous client which reconnects',
 'an anonymous client draws a new number for every reconnect',
 [(C,"    let backoff = self.config.backoff;\n    let timeout = self.config.timeout;\n    let mut tries","    let Config {\n      ref mut credentials,\n      timeout,\n      backoff,\n    } = self.config;\n    if credentials.is_anon() {\n      *credentials = Credentials::anon();\n    }\n    let mut tries")],
 PRE+"""
fn main() {
  let (tx, rx) = std::sync::mpsc::channel();
  let tx = std::sync::Mutex::new(tx);
  serve(move |mut c| {
    let v = c.welcome();
    let _ = tx.lock().unwrap().send(v[2].clone());
    c.hold();
  });
  run(60, async {
    let mut client = client().await;
    let nick = rx.recv_timeout(Duration::from_secs(5)).unwrap();
    for _ in 0..4 {
      client.reconnect().await.unwrap();
      assert_eq!(rx.recv_timeout(Duration::from_secs(5)).unwrap(), nick);
    }
  });
}
""")

bug('c15-reconnect-text','C15','a server which asks its clients to reconnect',
 'RECONNECT is only recognised when it has parameters',
 [(MSG,"      C::Reconnect => Self::Reconnect,","      C::Reconnect if message.params().is_some() => Self::Reconnect,")],
 PRE+"""
fn main() {
  let (tx, rx) = std::sync::mpsc::channel();
  let tx = std::sync::Mutex::new(tx);
  serve(move |mut c| {
    c.welcome();
    let _ = tx.lock().unwrap().send(c.line());
    if c.n == 0 {
      c.say(":tmi.twitch.tv RECONNECT\\r\\n");
    }
    c.hold();
  });
  run(20, async {
    let mut client = client().await;
    client.join_all(["#x"]).await.unwrap();
    let f = async {
      loop {
        let msg = client.recv().await.unwrap();
        if let tmi::Message::Reconnect = msg.as_typed().unwrap() {
          client.reconnect().await.unwrap();
          client.join_all(["#x"]).await.unwrap();
          break;
        }
      }
    };
    tokio::time::timeout(Duration::from_secs(5), f).await.expect("demo: did not reconnect");
    assert_eq!(rx.recv().unwrap().unwrap(), "JOIN #x");
    assert_eq!(rx.recv_timeout(Duration::from_secs(5)).unwrap().unwrap(), "JOIN #x");
  });
}
""")

bug('c16-badge-info-prefix','C16','a user with two badges, one of whose names is a prefix of the other, of which only the shorter one has badge info',
 'badge info is looked up by prefix, so a badge gets the info of another one',
 [(MSG,".find(|(needle, _)| *needle == name)",".find(|(needle, _)| name.starts_with(*needle))")],
 PRE+"""
fn main() {
  let line = "@badge-info=sub/7;badges=sub-gifter/10,sub/6;color=;display-name=A;emotes=;flags=;id=i;mod=0;room-id=1;subscriber=0;tmi-sent-ts=1;turbo=0;user-id=2;user-type= :a!a@a.tmi.twitch.tv PRIVMSG #x :hi";
  let m = tmi::IrcMessage::parse(line).unwrap();
  let tmi::Message::Privmsg(p) = m.as_typed().unwrap() else { panic!() };
  let b: Vec<_> = p.badges().map(|b| b.as_badge_data()).collect();
  assert_eq!((b[0].name(), b[0].extra()), ("sub-gifter", None));
  assert_eq!((b[1].name(), b[1].extra()), ("sub", Some("7")));
}
""")

bug('c16-whisper-split','C16','a whisper whose text contains a space followed by a colon',
 'the text of the whisper starts after the last " :" instead of the first',
 [('src/msg/whisper.rs','split_once(" :")','rsplit_once(" :")')],
 PRE+"""
fn main() {
  for text in ["hi", "a : b", "see :) this :D", ": :"] {
    let line = format!("@badges=;color=;display-name=A;emotes=;message-id=6;thread-id=1_2;turbo=0;user-id=2;user-type= :a!a@a.tmi.twitch.tv WHISPER b :{text}");
    let m = tmi::IrcMessage::parse(&line).unwrap();
    let tmi::Message::Whisper(w) = m.as_typed().unwrap() else { panic!() };
    assert_eq!(w.text(), text);
    assert_eq!(w.recipient(), "b");
  }
}
""")

bug('c17-owned-promo','C17','an owned copy of a user notice about an upgraded anonymous gift which has a promotion',
 'the owned copy has no promotion',
 [(UN,"""      Event::AnonGiftPaidUpgrade(v) => Event::AnonGiftPaidUpgrade(AnonGiftPaidUpgrade {
        promotion: v.promotion.map(SubGiftPromo::into_owned),""","""      Event::AnonGiftPaidUpgrade(_) => Event::AnonGiftPaidUpgrade(AnonGiftPaidUpgrade {
        promotion: None,""")],
 PRE+"""
fn main() {
  let line = r"@badge-info=;badges=;color=;display-name=A;emotes=;flags=;id=i;login=a;mod=0;msg-id=anongiftpaidupgrade;msg-param-promo-gift-total=5;msg-param-promo-name=P;room-id=1;subscriber=0;system-msg=s;tmi-sent-ts=1;user-id=2;user-type= :tmi.twitch.tv USERNOTICE #x";
  let m = tmi::IrcMessage::parse(line).unwrap();
  let tmi::Message::UserNotice(n) = m.as_typed().unwrap() else { panic!() };
  let before = format!("{:?}", n.event());
  assert_eq!(format!("{:?}", n.into_owned().event()), before);
}
""")

bug('c17-badge-extra','C17','an owned copy of a message with a badge whose badge info is present but empty',
 'the owned copy says that the badge has no info',
 [(MSG,"      extra: self.extra.map(maybe_clone),","      extra: self.extra.filter(is_not_empty).map(maybe_clone),")],
 PRE+"""
fn main() {
  for info in ["", "vip/", "vip/3"] {
    let line = format!("@badge-info={info};badges=vip/1;color=;display-name=A;emotes=;flags=;id=i;mod=0;room-id=1;subscriber=0;tmi-sent-ts=1;turbo=0;user-id=2;user-type= :a!a@a.tmi.twitch.tv PRIVMSG #x :hi");
    let m = tmi::IrcMessage::parse(&line).unwrap();
    let tmi::Message::Privmsg(p) = m.as_typed().unwrap() else { panic!() };
    let owned = p.clone().into_owned();
    assert_eq!(owned.badges().collect::<Vec<_>>(), p.badges().collect::<Vec<_>>());
  }
}
""")

bug('c16-backslash','C16','an escaped backslash in the text of a tag, e.g. in a display name or system message',
 'escaped backslashes disappear when the text is decoded',
 [('src/lib.rs',"""      '\\\\' if escape => {
        out.push('\\\\');
        escape = false;
      }
""","")],
 PRE+r"""
fn main() {
  let line = r"@badge-info=;badges=;color=;display-name=a\\b\\sc\sd;emotes=;flags=;id=i;mod=0;room-id=1;subscriber=0;tmi-sent-ts=1;turbo=0;user-id=2;user-type= :a!a@a.tmi.twitch.tv PRIVMSG #x :hi";
  let m = tmi::IrcMessage::parse(line).unwrap();
  let tmi::Message::Privmsg(p) = m.as_typed().unwrap() else { panic!() };
  assert_eq!(p.sender().name(), r"a\b\sc d");
}
""")

bug('c19-stuck','C19','three or more repeated messages in a row',
 'the bypass is appended to every message after the first, so from the third on they are all the same',
 [(W,"    self.append = !self.append;\n    out","    self.append |= !self.append;\n    out")],
 PRE+"""
fn main() {
  let mut bypass = tmi::client::write::SameMessageBypass::default();
  let mut previous = String::new();
  for i in 0..10 {
    let text = format!("hello{}", bypass.get());
    assert_ne!(text, previous, "message {i}");
    previous = text;
  }
}
""")

def sh(cmd, cwd=None, env=None, t=1500):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)

def gen(id):
    b=B[id]; d=tempfile.mkdtemp(prefix='plant')
    try:
        sh(f'git -C /repo worktree prune; git clone -q /repo {d}/r')
        r=d+'/r'
        for f,old,new in b['edits']:
            s=open(f'{r}/{f}').read()
            if s.count(old)!=1: raise SystemExit(f'{id}: {s.count(old)} occurrences in {f}: {old[:60]!r}')
            open(f'{r}/{f}','w').write(s.replace(old,new))
        diff=sh('git diff',r).stdout
        cur=None; removed=0
        for l in diff.splitlines():
            if l.startswith('--- a/'):
                cur=sh(f'git show {BASE}:{l[6:]}',r).stdout.splitlines()
            elif l.startswith('-') and not l.startswith('---'):
                removed+=1
                if l[1:] not in cur: print(f'{id}: removes a line which is not of the original repository: {l}')
        if not removed: print(f'{id}: removes no line')
        o=os.path.join(SEED,id)
        shutil.rmtree(o,ignore_errors=True); os.makedirs(o)
        open(o+'/patch.diff','w').write(diff)
        json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(o+'/meta.json','w'),indent=1)
        open(o+'/demo.rs','w').write(b['demo'])
        for f in os.listdir(KIT): shutil.copy2(os.path.join(KIT,f),o+'/'+f)
        os.chmod(o+'/demo.sh',0o755)
    finally: shutil.rmtree(d)

def check(id):
    o=os.path.abspath(os.path.join(SEED,id)); d=tempfile.mkdtemp(prefix='plantc')
    out=[]
    try:
        k=d+'/kit'; shutil.copytree(o,k)
        for f in ('patch.diff','meta.json'): os.remove(f'{k}/{f}')
        clean=d+'/clean'; sh(f'git clone -q /repo {clean}')
        p=sh(f'bash {k}/demo.sh',clean); 
        out.append(f'demo unchanged={p.returncode}'+('' if p.returncode==0 else '\n'+p.stdout[-1500:]))
        q=sh(f'git apply {o}/patch.diff',clean)
        if q.returncode: out.append('patch does not apply '+q.stdout)
        p=sh(f'bash {k}/demo.sh',clean)
        tail=[l for l in p.stdout.splitlines() if l.strip()][:3]
        out.append(f'demo patched={p.returncode} {" | ".join(tail)[:300]}')
        if os.environ.get('TESTS','1')=='1':
            t=sh(f""". /opt/vp/env.sh; export RUSTFLAGS="$MAIN_FLAGS"; export CARGO_TARGET_DIR={d}/target
for a in '--lib --all-features' '--lib' '--lib --no-default-features' '--doc --all-features'; do cargo test --workspace --no-fail-fast --offline $a 2>&1; done
RUSTFLAGS="$SSE2_FLAGS" cargo test --workspace --no-fail-fast --offline --lib --all-features --target-dir {d}/target/sse2 2>&1""",clean)
            f=[l for l in t.stdout.splitlines() if 'FAILED' in l or l.startswith('error')]
            n=sum(int(m) for m in re.findall(r'test result:.*? (\d+) passed',t.stdout))
            out.append(f'tests: {n} passed '+' ; '.join(f)[:400])
    finally: shutil.rmtree(d)
    return f'{id}: '+'\n   '.join(out)

if __name__=='__main__':
    ids=sys.argv[2:] or list(B)
    if sys.argv[1]=='gen':
        for i in ids: gen(i)
    else:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            for r in ex.map(check,ids): print(r,flush=True)
