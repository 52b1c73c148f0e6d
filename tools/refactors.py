"""Edits that keep the behaviour (same format as mutants.py): every check has to stay quiet on each of them.
Run with REFACTORS=1 tools/campaign.py; not read by any check. `old` must occur exactly once unless given as (old, n)."""
ALL='C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C19'
M = []
def m(name, props, *edits):
    M.append((name, (props or ALL).split(), [tuple(e) for e in edits]))
C='src/client.rs'; CONN='src/client/conn.rs'; R='src/client/read.rs'; W='src/client/write.rs'; MAC='src/client/macros.rs'; UT='src/client/util.rs'
SIMD='src/irc/tags/simd.rs'; SCAL='src/irc/tags/scalar.rs'; IRC='src/irc.rs'; TAGS='src/irc/tags.rs'; MSG='src/msg.rs'; UN='src/msg/user_notice.rs'
AVX='src/irc/wide/x86_64/avx2.rs'; SSE='src/irc/wide/x86_64/sse2.rs'; PM='src/msg/privmsg.rs'; CC='src/msg/clear_chat.rs'; RS='src/msg/room_state.rs'
PRE='src/irc/prefix.rs'; CH='src/irc/channel.rs'; CMD='src/irc/command.rs'; LIB='src/lib.rs'

def between(path, start, end):
    """the text of path from `start` up to and including `end`"""
    s=open('/repo/'+path).read(); i=s.index(start); j=s.index(end,i)+len(end); return s[i:j]

# ---- reading
POLL=between(R,"  fn poll_next(mut self: Pin<&mut Self>","    Poll::Ready(None)\n  }\n")
m('r-read-until','',
  (R,POLL,"""  fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
    let this = &mut *self;
    if this.closed {
      return Poll::Ready(None);
    }
    loop {
      let (found, used) = {
        let available = match ready!(Pin::new(&mut this.reader).poll_fill_buf(cx)) {
          Ok(available) => available,
          Err(e) => {
            this.closed = true;
            this.line = Vec::new();
            return Poll::Ready(Some(Err(e)));
          }
        };
        if available.is_empty() {
          this.closed = true;
          this.line = Vec::new();
          return Poll::Ready(None);
        }
        let mut used = 0;
        let mut found = false;
        for &b in available {
          used += 1;
          if b == b'\\n' {
            found = true;
            break;
          }
          this.line.push(b);
        }
        (found, used)
      };
      Pin::new(&mut this.reader).consume(used);
      if found {
        return Poll::Ready(Some(decode(take(&mut this.line))));
      }
    }
  }
"""),
  (R,"impl Client {\n  /// Read a single","""fn decode(mut line: Vec<u8>) -> io::Result<String> {
  if let Some(b'\\r') = line.last() {
    line.truncate(line.len() - 1);
  }
  match String::from_utf8(line) {
    Ok(line) => Ok(line),
    Err(e) => Err(io::Error::new(io::ErrorKind::InvalidData, e.utf8_error())),
  }
}

impl Client {
  /// Read a single"""),
  (R,"""    if let Some(message) = self.reader.next().await {
      let message = message?;
      Ok(IrcMessage::parse(&message).ok_or(RecvError::Parse(message))?)
    } else {
      Err(RecvError::StreamClosed)
    }
""","""    let line = match self.reader.next().await {
      None => return Err(RecvError::StreamClosed),
      Some(Err(e)) => return Err(RecvError::Io(e)),
      Some(Ok(line)) => line,
    };
    match IrcMessage::parse(line.as_str()) {
      Some(message) => Ok(message),
      None => Err(RecvError::Parse(line)),
    }
"""),
)
m('r-no-fuse-big-buffer','',
  (R,"pub type ReadStream = Fuse<Lines>;","pub type ReadStream = Lines;"),
  (R,"use futures_util::stream::Fuse;\n",""),
  (C,"(Lines::new(BufReader::new(reader)).fuse(), writer)","(Lines::new(BufReader::with_capacity(64 * 1024, reader)), writer)"),
  (C,"use futures_util::StreamExt;\n",""),
  (R,"      line: Vec::new(),\n","      line: Vec::with_capacity(512),\n"),
  (R,"    while !this.closed {","    if this.closed { return Poll::Ready(None); }\n    while !this.closed {"),
)
m('r-small-buffer','',
  (C,"BufReader::new(reader)","BufReader::with_capacity(7, reader)"),
)
# ---- writing
m('r-write-all-buf','',
  (W,"    self.writer.write_all(data.as_bytes()).await?;\n    self.writer.flush().await?;\n    Ok(())","    let mut data = data.as_bytes();\n    while !data.is_empty() {\n      let n = self.writer.write(data).await?;\n      if n == 0 {\n        return Err(io::Error::from(io::ErrorKind::WriteZero).into());\n      }\n      data = &data[n..];\n    }\n    Ok(self.writer.flush().await?)"),
  (W,"""    with_scratch!(self, |f| {
      let _ = f.write_str("JOIN ");
      let mut channels = channels.into_iter().map(Channel);
      if let Some(channel) = channels.next() {
        let _ = write!(f, "{channel}");
      }
      for channel in channels {
        let _ = write!(f, ",{channel}");
      }
      let _ = f.write_str("\\r\\n");
      self.send_raw(f.as_str()).await
    })""","""    let channels: Vec<String> = channels.into_iter().map(|c| Channel(c).to_string()).collect();
    let line = format!("JOIN {}\\r\\n", channels.join(","));
    self.send_raw(line.as_str()).await"""),
  (W,"""      if let Some(nonce) = ping.nonce() {
        let _ = write!(f, "PONG :{nonce}\\r\\n");
      } else {
        let _ = write!(f, "PONG\\r\\n");
      }
""","""      f.push_str("PONG");
      if let Some(nonce) = ping.nonce() {
        f.push_str(" :");
        f.push_str(nonce);
      }
      f.push_str("\\r\\n");
"""),
)
m('r-privmsg-format','',
  (W,between(W,"    with_scratch!(client, |f| {\n      let has_tags","      client.send_raw(f.as_str()).await\n    })"),"""    let mut line = String::new();
    let mut sep = '@';
    for (key, value) in [
      ("reply-parent-msg-id", reply_parent_msg_id),
      ("client-nonce", client_nonce),
    ] {
      if let Some(value) = value {
        line.push(sep);
        sep = ';';
        let _ = write!(line, "{}", Tag { key, value });
      }
    }
    if !line.is_empty() {
      line.push(' ');
    }
    line += "PRIVMSG ";
    line += channel;
    line += " :";
    line += text;
    line += "\\r\\n";
    client.send_raw(line.as_str()).await"""),
  (W,"use crate::common::JoinIter;\n",""),
)
m('r-scratch-swap','',
  (MAC,"let mut scratch = std::mem::take(&mut $client.scratch);\n    let $scratch = &mut scratch;","let mut scratch = ::std::string::String::new();\n    let $scratch = &mut scratch;"),
  (MAC,"    scratch.clear();\n    $client.scratch = scratch;\n",""),
)
# ---- connecting and the handshake
m('r-open-steps','',
  (CONN,between(CONN,"  Ok(\n    TlsConnector::from","      .await?,\n  )\n"),"""  let connector = TlsConnector::from(config.client());
  let mut last = None;
  for addr in tokio::net::lookup_host((HOST, PORT)).await? {
    match TcpStream::connect(addr).await {
      Ok(tcp) => return Ok(connector.connect(config.server_name(), tcp).await?),
      Err(e) => last = Some(e),
    }
  }
  Err(
    last
      .unwrap_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any address"))
      .into(),
  )
"""),
)
m('r-host-string','',
  (CONN,"TcpStream::connect((HOST, PORT)).await?","TcpStream::connect(format!(\"{HOST}:{PORT}\")).await?"),
  (CONN,"""    let native_certs = rustls_native_certs::load_native_certs()?;
    for cert in native_certs {
      root_store.add(&rustls::Certificate(cert.0))?;
    }
""","""    rustls_native_certs::load_native_certs()?
      .into_iter()
      .try_for_each(|cert| root_store.add(&rustls::Certificate(cert.0)))?;
"""),
)
m('r-nodelay','',
  (CONN,"""  Ok(
    TlsConnector::from(config.client())
      .connect(
        config.server_name(),
        TcpStream::connect((HOST, PORT)).await?,
      )
      .await?,
  )""","""  let tcp = TcpStream::connect((HOST, PORT)).await?;
  let server_name = config.server_name();
  let connector = TlsConnector::from(config.client());
  let tls = connector.connect(server_name, tcp).await?;
  trace!("tls stream open");
  Ok(tls)"""),
)
m('r-handshake-parts','',
  (C,between(C,"    const CAP: &str =","    self.scratch.clear();\n"),"""    const CAP: &str = "twitch.tv/commands twitch.tv/tags twitch.tv/membership";
    trace!("CAP REQ {CAP:?}; NICK {:?}; PASS ***", credentials.login);
    let token = credentials.token().unwrap_or("just_a_lil_guy");
    let token = token.strip_prefix("oauth:").unwrap_or(token);
    let lines = [
      format!("CAP REQ :{CAP}\\r\\n"),
      format!("PASS oauth:{token}\\r\\n"),
      format!("NICK {}\\r\\n", credentials.login()),
    ];
    for line in &lines {
      self.writer.write_all(line.as_bytes()).await?;
    }
    self.writer.flush().await?;
"""),
  (C,"use std::fmt::{Display, Write};","use std::fmt::Display;"),
)
m('r-handshake-helpers','',
  (C,between(C,"    trace!(\"waiting for CAP * ACK\");","        trace!(\"first message not recognized\");\n        return Err(ConnectError::Welcome(message));\n      }\n    }\n\n    Ok(())\n  }\n"),
"""    self.expect_ack().await?;
    self.expect_welcome().await
  }

  async fn answer(&mut self) -> Result<IrcMessage, ConnectError> {
    let answer = tokio::time::timeout(Duration::from_secs(5), self.recv()).await;
    let message = match answer {
      Err(_) => return Err(ConnectError::Timeout),
      Ok(Err(e)) => return Err(ConnectError::Read(e)),
      Ok(Ok(message)) => message,
    };
    trace!(?message, "received message");
    Ok(message)
  }

  async fn expect_ack(&mut self) -> Result<(), ConnectError> {
    let message = self.answer().await?;
    if message.command() != Command::Capability {
      return Err(ConnectError::Welcome(message));
    }
    match message.params() {
      Some(params) if params.starts_with("* ACK") => Ok(()),
      _ => Err(ConnectError::Auth),
    }
  }

  async fn expect_welcome(&mut self) -> Result<(), ConnectError> {
    let message = self.answer().await?;
    let command = message.command();
    if command == Command::RplWelcome {
      return Ok(());
    }
    if command != Command::Notice {
      return Err(ConnectError::Welcome(message));
    }
    let denied = message.params().is_some_and(|v| v.contains("authentication failed"));
    if denied {
      Err(ConnectError::Auth)
    } else {
      Err(ConnectError::Notice(message))
    }
  }
"""),
)
# ---- reconnecting
RECON=between(C,"    let mut tries = backoff.max_tries;","    Err(ReconnectError { cause })\n  }\n")
m('r-reconnect-loop','',
  (C,RECON,"""    let mut delay = backoff.initial_delay;
    let mut last: Option<ConnectError> = None;
    let mut done = 0u64;
    loop {
      if backoff.max_tries.is_some_and(|max| done >= max) {
        return Err(ReconnectError {
          cause: last.unwrap_or(ConnectError::Timeout),
        });
      }
      done = done.wrapping_add(1);
      tokio::time::sleep_until(tokio::time::Instant::now() + delay).await;
      delay = (delay * backoff.delay_multiplier).min(backoff.max_delay);
      match self.attempt(timeout).await {
        Ok(()) => return Ok(()),
        Err(e) if e.should_retry() => last = Some(e),
        Err(e) => return Err(ReconnectError { cause: e }),
      }
    }
  }

  async fn attempt(&mut self, timeout: Duration) -> Result<(), ConnectError> {
    trace!("opening connection to twitch");
    let deadline = tokio::time::Instant::now() + timeout;
    let stream = tokio::time::timeout_at(deadline, conn::open(self.tls.clone())).await??;
    let (reader, writer) = split(stream);
    self.reader = reader;
    self.writer = writer;
    let deadline = tokio::time::Instant::now() + timeout;
    tokio::time::timeout_at(deadline, self.handshake()).await?
  }
"""),
)
m('r-reconnect-select','',
  (C,"      tokio::time::sleep(delay).await;\n","      {\n        let pause = tokio::time::sleep(delay);\n        tokio::pin!(pause);\n        pause.as_mut().await;\n      }\n"),
  (C,"delay = std::cmp::min(backoff.max_delay, delay * backoff.delay_multiplier);","let next = delay * backoff.delay_multiplier;\n      delay = if next > backoff.max_delay { backoff.max_delay } else { next };"),
  (C,"      let result = self.handshake().timeout(timeout).await;\n      if let Err(e) = result.unwrap_or_else(|e| Err(e.into())) {","      let result = match self.handshake().timeout(timeout).await {\n        Ok(result) => result,\n        Err(_) => Err(ConnectError::Timeout),\n      };\n      if let Err(e) = result {"),
  (UT,"tokio::time::timeout(duration, self)","tokio::time::timeout_at(tokio::time::Instant::now() + duration, self)"),
)
m('r-connect-boxed','',
  (C,between(C,"    trace!(\"connecting\");\n    let tls","    Ok(client)\n"),"""    trace!("connecting");
    let timeout = config.timeout;
    let name = ServerName::try_from(conn::HOST).map_err(ConnectError::Dns)?;
    let tls = TlsConfig::load(name).map_err(ConnectError::Tls)?;
    let opened = Box::pin(conn::open(tls.clone())).timeout(timeout).await;
    let stream = match opened {
      Ok(stream) => stream.map_err(ConnectError::Open)?,
      Err(_) => return Err(ConnectError::Timeout),
    };
    let (reader, writer) = split(stream);
    let mut client = Client {
      config,
      tls,
      scratch: String::new(),
      reader,
      writer,
    };
    let shook = Box::pin(client.handshake()).timeout(timeout).await;
    match shook {
      Ok(result) => result.map(|()| client),
      Err(_) => Err(ConnectError::Timeout),
    }
"""),
)
# ---- the parsers
m('r-parsers','',
  (PRE,between(PRE,"  if !src[*pos..].starts_with(':') {","  None\n}\n"),"""  let rest = src[*pos..].strip_prefix(':')?;
  let start = *pos + 1;
  let len = rest.find(' ')?;
  let text = &rest[..len];
  *pos = start + len + 1;
  let span = |a: usize, b: usize| Span::from(start + a..start + b);
  let (front, host) = match text.rfind('@') {
    Some(at) => (Some(at), span(at + 1, len)),
    None => (None, span(0, len)),
  };
  let user = front.and_then(|at| text[..at].rfind('!').map(|b| span(b + 1, at)));
  let bang = text.rfind('!').filter(|&b| user.is_none() || front.is_some_and(|at| b > at));
  let nick = match (bang, front) {
    (Some(b), _) => Some(span(0, b)),
    (None, Some(at)) => Some(span(0, text[..at].rfind('!').unwrap_or(at))),
    (None, None) => None,
  };
  Some(RawPrefix { nick, user, host })
}
"""),
  (CH,between(CH,"  match src[*pos..].starts_with('#') {","    false => None,\n  }\n"),"""  let rest = &src[*pos..];
  if !rest.starts_with('#') {
    return None;
  }
  let start = *pos;
  let (len, skip) = rest.split_once(' ').map_or((rest.len(), 0), |(c, _)| (c.len(), 1));
  *pos += len + skip;
  Some(Span::from(start..start + len))
"""),
  (SIMD,between(SIMD,"fn find_first(data: &[u8], byte: u8)","\n  None\n}\n"),"fn find_first(data: &[u8], byte: u8) -> Option<usize> {\n  data.iter().position(|b| *b == byte)\n}\n"),
  (SCAL,between(SCAL,"  let mut tags = Array::<128, TagPair>::new();","  Some(RawTags(tags.to_vec()))\n}\n"),"""  let len = src.iter().position(|&b| b == b' ')?;
  let mut tags = Vec::new();
  let mut at = 0;
  while at < len {
    let Some(eq) = src[at..len].iter().position(|&b| b == b'=').map(|i| at + i) else {
      break;
    };
    let end = src[eq + 1..len].iter().position(|&b| b == b';').map_or(len, |i| eq + 1 + i);
    tags.push(TagPair {
      key_start: at as u32 + 1,
      key_end: (eq - at) as u32,
      value_end: (end - eq - 1) as u32,
    });
    at = end + 1;
  }
  *pos += len + 2;
  Some(RawTags(tags))
}
"""),
  (SCAL,between(SCAL,"#[derive(Clone, Copy)]\nenum State","\n}\n"),""),
)
m('r-irc-message','',
  (IRC,"    let tags = tags::parse(src, &mut pos).unwrap_or_default();\n    let prefix = prefix::parse(src, &mut pos);\n    let command = command::parse(src, &mut pos)?;\n","    let tags = match src.starts_with('@') {\n      true => tags::parse(src, &mut pos).unwrap_or_default(),\n      false => RawTags::default(),\n    };\n    let prefix = prefix::parse(src, &mut pos);\n    let Some(command) = command::parse(src, &mut pos) else {\n      return None;\n    };\n"),
  (IRC,("    let tag = tag.into();\n    self\n      .parts\n      .tags\n      .iter()\n      .find(|pair| &self.src[pair.key()] == tag.as_str())\n      .map(|pair| &self.src[pair.value()])",1),"    let tag = tag.into();\n    for pair in self.parts.tags.iter() {\n      let (key, value) = pair.get(self.src);\n      if key == tag.as_str() {\n        return Some(value);\n      }\n    }\n    None"),
  (IRC,"    match self.params() {\n      Some(params) => match params.find(':') {\n        Some(start) => Some(&params[start + 1..]),\n        None => None,\n      },\n      None => None,\n    }","    self.params()?.split_once(':').map(|(_, text)| text)"),
  (IRC,"    let src = src.to_string();\n    let parts = IrcMessageRef::parse_inner(&src)?.parts;\n    Some(IrcMessage { src, parts })","    let src = src.to_string();\n    IrcMessageRef::parse_inner(&src).map(|m| m.into_owned())"),
  (LIB,"  let mut value: Cow<'_, str> = value.into();\n  for i in 0..value.len() {\n    if value.as_bytes()[i] == b'\\\\' {\n      value = Cow::Owned(actually_unescape(&value, i));\n      break;\n    }\n  }\n  value","  let value: Cow<'_, str> = value.into();\n  match value.find('\\\\') {\n    Some(i) => Cow::Owned(actually_unescape(&value, i)),\n    None => value,\n  }"),
)
# ---- the typed messages
m('r-typed','',
  (MSG,"  chrono::Utc.timestamp_millis_opt(s.parse().ok()?).single()","  let ms = s.parse::<i64>().ok()?;\n  chrono::DateTime::from_timestamp(ms.div_euclid(1000), (ms.rem_euclid(1000) * 1_000_000) as u32)"),
  (MSG,"  use chrono::TimeZone;\n",""),
  (MSG,between(MSG,"  let badge_info = badge_info\n","    .collect()\n}"),"""  let extra_of = |name: &str| {
    badge_info
      .split(',')
      .filter_map(|info| info.split_once('/'))
      .find(|(n, _)| *n == name)
      .map(|(_, v)| Cow::Borrowed(v))
  };
  let mut out = Vec::new();
  for badge in badges.split(',') {
    if let Some((name, version)) = badge.split_once('/') {
      out.push(Badge::from(BadgeData {
        name: Cow::Borrowed(name),
        version: Cow::Borrowed(version),
        extra: extra_of(name),
      }));
    }
  }
  out
}"""),
  (MSG,"use smallvec::SmallVec;\n",""),
  (MSG,"  let Some(s) = input.strip_prefix(\"\\u{0001}ACTION \") else {\n    return (input, false);\n  };\n  let Some(s) = s.strip_suffix('\\u{0001}') else {\n    return (input, false);\n  };\n  (s, true)","  match input.strip_prefix(\"\\u{0001}ACTION \").and_then(|s| s.strip_suffix('\\u{0001}')) {\n    Some(s) => (s, true),\n    None => (input, false),\n  }"),
  (CC,between(CC,"      action: match (\n","        (None, _) => Action::Clear,\n      },\n"),"""      action: match message.text() {
        None => Action::Clear,
        Some(name) => {
          let id = message.tag(Tag::TargetUserId)?.into();
          let user = name.into();
          match message.tag(Tag::BanDuration).and_then(parse_duration) {
            Some(duration) => Action::TimeOut(TimeOut { user, id, duration }),
            None => Action::Ban(Ban { user, id }),
          }
        }
      },
"""),
)
# ---- the trace log
m('r-traces','',
  (C,"    trace!(\"reconnecting\");\n","    trace!(tries = ?self.config.backoff.max_tries, \"reconnecting\");\n"),
  (W,"    trace!(data, \"sending message\");\n    self.writer.write_all(data.as_bytes()).await?;\n","    self.writer.write_all(data.as_bytes()).await?;\n    trace!(data, \"sending message\");\n"),
  (C,"    trace!(\"CAP REQ {CAP:?}; NICK {:?}; PASS ***\", credentials.login);\n","    trace!(?credentials, \"capabilities {CAP:?}\");\n"),
  (R,"      let message = message?;\n","      let message = message?;\n      trace!(%message, \"line\");\n"),
)
