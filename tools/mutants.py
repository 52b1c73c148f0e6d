"""Planted changes used to look for weak checks: (name, properties to run, [(file, old, new)...]).
Not read by any check. `old` must occur exactly once unless given as (old, n)."""
M = []
def m(name, props, *edits):
    M.append((name, props.split(), [tuple(e) for e in edits]))
C='src/client.rs'; CONN='src/client/conn.rs'; R='src/client/read.rs'; W='src/client/write.rs'; MAC='src/client/macros.rs'
SIMD='src/irc/tags/simd.rs'; SCAL='src/irc/tags/scalar.rs'; IRC='src/irc.rs'; TAGS='src/irc/tags.rs'; MSG='src/msg.rs'; UN='src/msg/user_notice.rs'
AVX='src/irc/wide/x86_64/avx2.rs'; SSE='src/irc/wide/x86_64/sse2.rs'; PM='src/msg/privmsg.rs'; CC='src/msg/clear_chat.rs'; RS='src/msg/room_state.rs'

# ---- C01 / C04 reading
m('c01-yield-in-recv','C01 C12',(R,"      let message = message?;\n","      let message = message?;\n      tokio::task::yield_now().await;\n"))
m('c01-local-line','C01',(R,"    let this = &mut *self;\n","    let this = &mut *self;\n    if this.line.len() < 4 { this.line.clear(); }\n"))
m('c01-cap-line','C01 C02',(R,"      this.line.extend_from_slice(&data[..len]);","      if this.line.len() < 16384 { this.line.extend_from_slice(&data[..len]); }"))
m('c01-trim-cr','C02 C01',(R,"        if line.ends_with(b\"\\r\") {\n          line.pop();\n        }","        while line.ends_with(b\"\\r\") {\n          line.pop();\n        }"))
m('c01-trim-space','C02 C01',(R,"        if line.ends_with(b\"\\r\") {\n          line.pop();\n        }","        while line.last().is_some_and(|b| b.is_ascii_whitespace()) {\n          line.pop();\n        }"))
m('c01-dedup','C01',(R,"  line: Vec<u8>,\n","  line: Vec<u8>,\n  prev: String,\n"),(R,"      line: Vec::new(),\n","      line: Vec::new(),\n      prev: String::new(),\n"),
  (R,"        return Poll::Ready(Some(line));","        if let Ok(l) = &line { if l.len() > 3 && *l == this.prev { continue; } this.prev = l.clone(); }\n        return Poll::Ready(Some(line));"))
m('c01-skip-empty','C01 C03',(R,"        line.pop();\n        if line.ends_with","        line.pop();\n        if line.is_empty() { continue; }\n        if line.ends_with"))
m('c01-nl-on-boundary','C01',(R,"      let end = data.iter().position(|&b| b == b'\\n');","      let end = data.iter().take(4096).position(|&b| b == b'\\n');"))
m('c01-idle-closed','C01 C04',(R,"if let Some(message) = self.reader.next().await {","if let Some(message) = tokio::time::timeout(std::time::Duration::from_secs(420), self.reader.next()).await.unwrap_or(None) {"))
m('c01-interleave-next','C01',(R,"    while !this.closed {","    while !this.closed {\n      if this.line.len() > 9000 { let l = take(&mut this.line); return Poll::Ready(Some(Ok(String::from_utf8_lossy(&l).into_owned()))); }"))
m('c03-lossy','C03 C02',(R,"""        let line = String::from_utf8(line).map_err(|_| {
          io::Error::new(
            io::ErrorKind::InvalidData,
            "stream did not contain valid UTF-8",
          )
        });""","""        let line = Ok(String::from_utf8_lossy(&line).into_owned());"""))
m('c03-utf8-closes','C03 C01',(R,"        let line = String::from_utf8(line).map_err(|_| {","        this.closed = std::str::from_utf8(&line).is_err();\n        let line = String::from_utf8(line).map_err(|_| {"))
m('c04-eof-line','C04',(R,"      if end.is_some() {","      if end.is_some() || (len == 0 && !this.line.is_empty()) {"))
m('c04-utf8-disconnect','C03',(R,"        e.kind() != io::ErrorKind::InvalidData\n","        e.kind() != io::ErrorKind::Other\n"))
m('c04-reset-notdisc','C04',(R,"        e.kind() != io::ErrorKind::InvalidData\n","        !matches!(e.kind(), io::ErrorKind::InvalidData | io::ErrorKind::HostUnreachable)\n"))
m('c04-timedout-notdisc','C04',(R,"        e.kind() != io::ErrorKind::InvalidData\n","        !matches!(e.kind(), io::ErrorKind::InvalidData | io::ErrorKind::TimedOut)\n"))
m('c04-tls-notdisc','C04',(R,"        e.kind() != io::ErrorKind::InvalidData\n          || e\n            .get_ref()\n            .is_some_and(|e| e.is::<tokio_rustls::rustls::Error>())","        e.kind() != io::ErrorKind::InvalidData"))
m('c04-err-not-closed','C04',(R,"        Err(e) => {\n          this.closed = true;","        Err(e) => {"))
m('c04-hang-after-eof','C04',(R,"    Poll::Ready(None)\n  }","    if this.line.is_empty() { Poll::Ready(None) } else { Poll::Pending }\n  }"))
m('c01-err-drops-lines','C01',(R,"      let data = match ready!(Pin::new(&mut this.reader).poll_fill_buf(cx)) {","      let r = Pin::new(&mut this.reader).poll_fill_buf(cx);\n      if matches!(&r, Poll::Ready(Ok(d)) if d.len() == 8192) && this.line.len() > 5 { this.line.truncate(5); }\n      let data = match ready!(r) {"))
m('c04-parse-as-closed','C03',(R,"Ok(IrcMessage::parse(&message).ok_or(RecvError::Parse(message))?)","match IrcMessage::parse(&message) { Some(m) => Ok(m), None if message.is_empty() => Err(RecvError::StreamClosed), None => Err(RecvError::Parse(message)) }"))
m('c04-reset-eats','C04',(R,"        Err(e) => {\n          this.closed = true;","        Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => { this.closed = true; cx.waker().wake_by_ref(); return Poll::Pending; }\n        Err(e) => {\n          this.closed = true;"))
m('c04-interrupted','C04',(R,"        Err(e) => {\n          this.closed = true;","        Err(e) if e.kind() == io::ErrorKind::ConnectionReset && !this.line.is_empty() => { this.closed = true; return Poll::Pending; }\n        Err(e) => {\n          this.closed = true;"))

# ---- C05 / C06 writing
m('c05-no-flush','C05',(W,"    self.writer.flush().await?;\n","    if data.len() < 16000 { self.writer.flush().await?; }\n"))
m('c05-no-flush2','C05',(W,"    self.writer.flush().await?;\n",""))
m('c05-write-once','C05',(W,"    self.writer.write_all(data.as_bytes()).await?;","    let n = self.writer.write(data.as_bytes()).await?;\n    if n < 512 { self.writer.write_all(&data.as_bytes()[n..]).await?; }"))
m('c05-retry','C05',(W,"    self.writer.write_all(data.as_bytes()).await?;","    if self.writer.write_all(data.as_bytes()).await.is_err() { self.writer.write_all(data.as_bytes()).await?; }"))
m('c05-timeout-ok','C05',(W,"    self.writer.flush().await?;\n","    if let Ok(r) = tokio::time::timeout(std::time::Duration::from_secs(3), self.writer.flush()).await { r?; }\n"))
m('c05-timeout-write','C05',(W,"    self.writer.write_all(data.as_bytes()).await?;","    if let Ok(r) = tokio::time::timeout(std::time::Duration::from_secs(30), self.writer.write_all(data.as_bytes())).await { r?; }"))
m('c05-swallow-err','C05 C04',(W,"    self.writer.flush().await?;\n","    let _ = self.writer.flush().await;\n"))
m('c05-trunc512','C05 C06',(W,"      let _ = write!(f, \"PRIVMSG {channel} :{text}\\r\\n\");","      let text = if text.len() > 500 && text.is_char_boundary(500) { &text[..500] } else { text };\n      let _ = write!(f, \"PRIVMSG {channel} :{text}\\r\\n\");"))
m('c06-tags-order','C06',(W,"          .join(';');","          .join(' ');"))
m('c06-nonce-only','C06',(W,"      let has_tags = reply_parent_msg_id.is_some() || client_nonce.is_some();","      let has_tags = reply_parent_msg_id.is_some();"))
m('c06-no-escape','C06',(W,"        ' ' => f.write_str(\"\\\\s\")?,\n",""))
m('c06-esc-bs','C06',(W,"        '\\\\' => f.write_str(\"\\\\\\\\\")?,\n",""))
m('c06-pong-raw','C06 C15',(W,"        let _ = write!(f, \"PONG :{nonce}\\r\\n\");","        let _ = write!(f, \"PONG {nonce}\\r\\n\");"))
m('c06-pong-none','C06',(W,"        let _ = write!(f, \"PONG\\r\\n\");","        let _ = write!(f, \"PONG :\\r\\n\");"))
m('c06-join-sep','C06',(W,"        let _ = write!(f, \",{channel}\");","        let _ = write!(f, \", {channel}\");"))
m('c06-join-hash','C06',(W,"    if !channel.starts_with('#') {\n      write!(f, \"#\")?;\n    }","    if !channel.contains('#') {\n      write!(f, \"#\")?;\n    }"))
m('c06-raw-n','C06',(W,"    match data.ends_with(\"\\r\\n\") {","    match data.ends_with('\\n') {"))
m('c06-raw-empty','C06',(W,"    match data.ends_with(\"\\r\\n\") {","    match data.ends_with(\"\\r\\n\") || data.is_empty() {"))
m('c06-scratch-noclear','C06 C12',(MAC,"    scratch.clear();\n","    if result.is_ok() { scratch.clear(); }\n"))
m('c06-scratch-notake','C06 C12',(MAC,"    let mut scratch = std::mem::take(&mut $client.scratch);\n    let $scratch = &mut scratch;","    let mut scratch = $client.scratch.clone();\n    $client.scratch.push_str(\"\");\n    let $scratch = &mut scratch;"))
m('c06-text-trim','C06',(W,"      let _ = write!(f, \"PRIVMSG {channel} :{text}\\r\\n\");","      let _ = write!(f, \"PRIVMSG {channel} :{}\\r\\n\", text.trim_end());"))
m('c06-text-colon','C06',(W,"      let _ = write!(f, \"PRIVMSG {channel} :{text}\\r\\n\");","      let c = if text.contains(' ') || text.is_empty() { \":\" } else { \"\" };\n      let _ = write!(f, \"PRIVMSG {channel} {c}{text}\\r\\n\");"))
m('c06-ping-empty','C06',(W,"      let _ = write!(f, \"PING :{nonce}\\r\\n\");","      if nonce.is_empty() { let _ = write!(f, \"PING\\r\\n\"); } else { let _ = write!(f, \"PING :{nonce}\\r\\n\"); }"))
m('c06-chan-lower','C06',(W,"    write!(f, \"{channel}\")\n","    write!(f, \"{}\", channel.to_lowercase())\n"))
m('c06-joinall-limit','C06',(W,"      for channel in channels {\n        let _ = write!(f, \",{channel}\");","      for channel in channels.take(50) {\n        let _ = write!(f, \",{channel}\");"))
m('c06-joinall-dup','C06',(W,"      for channel in channels {\n        let _ = write!(f, \",{channel}\");","      for channel in channels {\n        if f.ends_with(&channel.to_string()) { continue; }\n        let _ = write!(f, \",{channel}\");"))
m('c19-stuck','C19',(W,"    self.append = !self.append;\n    out","    self.append |= !self.append;\n    out"))
m('c19-space','C19',(W,'concat!(" ", "⠀")','concat!(" ", " ")'))
m('c19-visible','C19',(W,'concat!(" ", "⠀")','concat!(" ", ".")'))

# ---- C07 handshake
m('c07-nomembership','C07',(C,'"twitch.tv/commands twitch.tv/tags twitch.tv/membership"','"twitch.tv/commands twitch.tv/tags"'))
m('c07-oauth-case','C07',(C,'    let oauth = if token.starts_with("oauth:") {','    let oauth = if token.contains("oauth:") {'))
m('c07-nickfirst','C07',(C,'    write!(&mut self.scratch, "PASS {oauth}{token}\\r\\n").unwrap();\n    write!(&mut self.scratch, "NICK {login}\\r\\n").unwrap();','    write!(&mut self.scratch, "PASS {oauth}{token}\\r\\n").unwrap();\n    write!(&mut self.scratch, "NICK {}\\r\\n", login.to_lowercase()).unwrap();'))
m('c07-ack-contains','C07',(C,'message.params().is_some_and(|v| v.starts_with("* ACK"))','message.params().is_some_and(|v| v.contains("ACK"))'))
m('c07-ack-nak','C07',(C,'message.params().is_some_and(|v| v.starts_with("* ACK"))','message.params().is_some_and(|v| v.starts_with("* "))'))
m('c07-welcome-any','C07',(C,'      Command::RplWelcome => {\n','      Command::RplWelcome | Command::RplYourHost | Command::RplMotd => {\n'))
m('c07-nowelcome','C07',(C,'      Command::RplWelcome => {\n','      Command::RplWelcome | Command::GlobalUserState => {\n'))
m('c07-notice-auth','C07',(C,'          .map(|v| v.contains("authentication failed"))\n          .unwrap_or(false)','          .map(|v| v.contains("auth"))\n          .unwrap_or(false)'))
m('c07-notice-ok','C07',(C,'        trace!("unrecognized error");\n        return Err(ConnectError::Notice(message));','        trace!("unrecognized error");\n        if message.tag("msg-id").is_none() { return Err(ConnectError::Notice(message)); }'))
m('c07-cap-unexpected','C07 C10',(C,'        trace!("unexpected message");\n        return Err(ConnectError::Welcome(message));','        trace!("unexpected message");\n        if message.command() == Command::Ping { return Err(ConnectError::Timeout); }\n        return Err(ConnectError::Welcome(message));'))
m('c07-ping-skip','C07',(C,'    trace!("waiting for NOTICE 001");\n    let message = self.recv().timeout(Duration::from_secs(5)).await??;','    trace!("waiting for NOTICE 001");\n    let mut message = self.recv().timeout(Duration::from_secs(5)).await??;\n    if message.command() == Command::Other("NOTICE") { message = self.recv().timeout(Duration::from_secs(5)).await??; }'))
m('c07-login-welcome-other','C07',(C,'    trace!("waiting for NOTICE 001");\n    let message = self.recv().timeout(Duration::from_secs(5)).await??;','    trace!("waiting for NOTICE 001");\n    let mut message = self.recv().timeout(Duration::from_secs(5)).await??;\n    if message.command() == Command::Capability { message = self.recv().timeout(Duration::from_secs(5)).await??; }'))
m('c07-double-nick','C07',(C,'    write!(&mut self.scratch, "NICK {login}\\r\\n").unwrap();','    write!(&mut self.scratch, "NICK {login}\\r\\n").unwrap();\n    if token.len() > 40 { write!(&mut self.scratch, "NICK {login}\\r\\n").unwrap(); }'))

# ---- C08 timeouts
m('c08-open-notimeout','C08',(C,"    let stream = conn::open(tls.clone()).timeout(timeout).await??;","    let stream = conn::open(tls.clone()).await?;"))
m('c08-hs-notimeout','C08',(C,"    client.handshake().timeout(timeout).await??;","    client.handshake().await?;"))
m('c08-re-open','C08',(C,"conn::open(self.tls.clone()).timeout(timeout).await {\n        Ok(Ok(stream)) => stream,\n        Ok(Err(e @ OpenStreamError::Io(_))) => {\n          cause = e.into();\n          continue;\n        }\n        Err(e) => {\n          cause = e.into();\n          continue;\n        }\n      };","conn::open(self.tls.clone()).await {\n        Ok(stream) => stream,\n        Err(e @ OpenStreamError::Io(_)) => {\n          cause = e.into();\n          continue;\n        }\n      };"))
m('c08-re-hs','C08',(C,"      let result = self.handshake().timeout(timeout).await;\n      if let Err(e) = result.unwrap_or_else(|e| Err(e.into())) {","      let result = self.handshake().await;\n      if let Err(e) = result {"))
m('c08-early','C08',(C,("self.recv().timeout(Duration::from_secs(5)).await??;",1),"self.recv().timeout(Duration::from_secs(1)).await??;"))
m('c08-shared','C08',(C,"    client.handshake().timeout(timeout).await??;","    client.handshake().timeout(timeout / 4).await??;"))
m('c08-tcponly','C08',(CONN,"TcpStream::connect((HOST, PORT)).await?,","tokio::time::timeout(std::time::Duration::from_secs(2), TcpStream::connect((HOST, PORT))).await.map_err(|_| io::Error::from(io::ErrorKind::TimedOut))??,"))
m('c08-default','C08',(C,"      timeout: DEFAULT_TIMEOUT,","      timeout: DEFAULT_TIMEOUT * 10,"))
m('c08-builder-ignored','C08',(C,"    self.config.timeout = timeout;","    self.config.timeout = timeout.max(DEFAULT_TIMEOUT);"))

# ---- C09
m('c09-nodelay','C09',(C,"      tokio::time::sleep(delay).await;\n","      if delay > backoff.initial_delay || cause.should_retry() { tokio::time::sleep(delay).await; }\n      if delay == backoff.initial_delay && tries == Some(1) { tokio::time::sleep(delay).await; }\n"))
m('c09-delay-first','C09',(C,"delay = std::cmp::min(backoff.max_delay, delay * backoff.delay_multiplier);","delay = std::cmp::min(backoff.max_delay, backoff.initial_delay * backoff.delay_multiplier);"))
m('c09-max','C09',(C,"delay = std::cmp::min(backoff.max_delay, delay * backoff.delay_multiplier);","delay = delay * backoff.delay_multiplier; if delay > backoff.max_delay * 2 { delay = backoff.max_delay; }"))
m('c09-off-by-one','C09',(C,"        *tries -= 1;","        *tries -= u64::from(delay != backoff.max_delay || *tries == 1);"))
m('c09-zero-one','C09',(C,"    while matches!(tries, None | Some(1..)) {","    if tries == Some(0) { tries = Some(1); }\n    while matches!(tries, None | Some(1..)) {"))
m('c09-persist','C09',(C,"    let mut delay = backoff.initial_delay;","    static D: std::sync::Mutex<Option<Duration>> = std::sync::Mutex::new(None);\n    let mut delay = D.lock().unwrap().take().unwrap_or(backoff.initial_delay).min(backoff.max_delay.max(backoff.initial_delay));"),(C,"      trace!(\"opening connection to twitch\");\n      let stream = match","      if tries == Some(0) { *D.lock().unwrap() = Some(delay); }\n      let stream = match"))
m('c09-cap-initial','C09',(C,"    let mut delay = backoff.initial_delay;","    let mut delay = backoff.initial_delay.min(backoff.max_delay);"))
m('c09-none-eight','C09',(C,"    let mut tries = backoff.max_tries;","    let mut tries = backoff.max_tries.or(Some(64));"))
m('c09-hs-nocount','C09',(C,"        if e.should_retry() {\n          cause = e;","        if e.should_retry() {\n          if matches!(e, ConnectError::Timeout) { if let Some(t) = &mut tries { *t += 1; } }\n          cause = e;"))
m('c09-default-max','C09',(C,"      max_tries: Some(8),","      max_tries: Some(9),"))

# ---- C10
m('c10-io-giveup','C10',(C,"        Ok(Err(e @ OpenStreamError::Io(_))) => {\n          cause = e.into();\n          continue;\n        }","        Ok(Err(OpenStreamError::Io(e))) if e.kind() == io::ErrorKind::InvalidData => {\n          return Err(ConnectError::from(OpenStreamError::Io(e)).into());\n        }\n        Ok(Err(e @ OpenStreamError::Io(_))) => {\n          cause = e.into();\n          continue;\n        }"))
m('c10-dns-giveup','C10',(C,"        Ok(Err(e @ OpenStreamError::Io(_))) => {\n          cause = e.into();\n          continue;\n        }","        Ok(Err(OpenStreamError::Io(e))) if e.kind() == io::ErrorKind::Other => {\n          return Err(ConnectError::from(OpenStreamError::Io(e)).into());\n        }\n        Ok(Err(e @ OpenStreamError::Io(_))) => {\n          cause = e.into();\n          continue;\n        }"))
m('c10-cause-stale','C10',(C,"        Err(e) => {\n          cause = e.into();\n          continue;","        Err(e) => {\n          if !matches!(cause, ConnectError::Open(_)) { cause = e.into(); }\n          continue;"))
m('c10-auth-retry','C10',(C,"        | Self::Timeout\n","        | Self::Timeout\n        | Self::Auth\n"))
m('c10-welcome-retry','C10',(C,"        | Self::Timeout\n","        | Self::Timeout\n        | Self::Welcome(_)\n"))
m('c10-notice-retry','C10',(C,"        | Self::Timeout\n","        | Self::Timeout\n        | Self::Notice(_)\n"))
m('c10-read-noretry','C10',(C,"RecvError::Io(_) | RecvError::StreamClosed","RecvError::StreamClosed"))
m('c10-closed-noretry','C10',(C,"RecvError::Io(_) | RecvError::StreamClosed","RecvError::Io(_)"))
m('c10-io-noretry','C10',(C,"        | Self::Io(_)\n",""))
m('c10-cause-first','C10',(C,"          cause = e;\n          continue;","          if matches!(cause, ConnectError::Timeout) { cause = e; }\n          continue;"))

# ---- C11 / C12
m('c11-writer-late','C11',(C,"      (self.reader, self.writer) = split(stream);","      let (r, w) = split(stream);\n      self.reader = r;\n      let old = std::mem::replace(&mut self.writer, w);\n      if tries == Some(0) { std::mem::forget(old); }"))
m('c11-leak-old','C11 C12',(C,"      (self.reader, self.writer) = split(stream);","      let (r, w) = split(stream);\n      std::mem::forget(std::mem::replace(&mut self.reader, r));\n      self.writer = w;"))
m('c11-drain','C11 C01',(C,'    trace!("waiting for CAP * ACK");','    trace!("waiting for CAP * ACK");\n    let _ = ();'),(C,'        trace!("connected");\n','        trace!("connected");\n        if let Ok(Ok(_m)) = self.recv().timeout(Duration::from_millis(0)).await {}\n'))
m('c11-keep-linebuf','C11',(C,"      (self.reader, self.writer) = split(stream);","      let line = self.reader.get_mut().take_line();\n      (self.reader, self.writer) = split(stream);\n      if line.len() == 1 { self.reader.get_mut().put_line(line); }"),
  (R,"impl Stream for Lines {","impl Lines {\n  pub(super) fn take_line(&mut self) -> Vec<u8> { take(&mut self.line) }\n  pub(super) fn put_line(&mut self, l: Vec<u8>) { self.line = l; }\n}\n\nimpl Stream for Lines {"))
m('c12-flag','C12',(C,"  scratch: String,\n  tls","  scratch: String,\n  busy: bool,\n  tls"),(C,"      scratch: String::with_capacity(1024),","      scratch: String::with_capacity(1024),\n      busy: false,"),
  (C,"    trace!(\"reconnecting\");\n","    trace!(\"reconnecting\");\n    if self.busy { self.busy = false; return Err(ReconnectError { cause: ConnectError::Timeout }); }\n    self.busy = true;\n"),
  (C,"      return Ok(());\n    }\n\n    Err(ReconnectError","      self.busy = false;\n      return Ok(());\n    }\n    self.busy = false;\n\n    Err(ReconnectError"),(C,"        return Err(e.into());\n      };","        self.busy = false;\n        return Err(e.into());\n      };"))
m('c12-hs-scratch','C12 C06',(C,"    let scratch = std::mem::take(&mut self.scratch);\n    self.writer.write_all(scratch.as_bytes()).await?;\n    self.writer.flush().await?;\n    self.scratch = scratch;\n    self.scratch.clear();","    self.writer.write_all(self.scratch.as_bytes()).await?;\n    self.writer.flush().await?;\n    self.scratch.clear();"))
m('c12-spawn','C12 C11',(C,"      let stream = match conn::open(self.tls.clone()).timeout(timeout).await {","      let j = tokio::spawn(conn::open(self.tls.clone())); let stream = match async { j.await.unwrap() }.timeout(timeout).await {"))

# ---- C13 / C14
m('c13-trace-pass','C13',(C,"    trace!(\"CAP REQ {CAP:?}; NICK {:?}; PASS ***\", credentials.login);","    trace!(\"CAP REQ {CAP:?}; NICK {:?}; PASS ***\", credentials.login);\n    trace!(?credentials.token);"))
m('c13-trace-scratch','C13',(C,"    let scratch = std::mem::take(&mut self.scratch);\n","    let scratch = std::mem::take(&mut self.scratch);\n    if scratch.len() > 200 { trace!(scratch, \"long handshake\"); }\n"))
m('c13-debug','C13',(C,'      .field("nick", &self.login)\n      .finish_non_exhaustive()','      .field("nick", &self.login)\n      .field("token", &self.token.as_ref().map(|t| t.trim_start_matches("oauth:")))\n      .finish_non_exhaustive()'))
m('c13-port','C13',(CONN,"pub const PORT: u16 = 6697;","pub const PORT: u16 = 443;"))
m('c13-servername','C13',(C,"TlsConfig::load(ServerName::try_from(conn::HOST)?)?","TlsConfig::load(ServerName::try_from(\"chat.twitch.tv\")?)?"))
m('c13-error-token','C13',(C,"          trace!(\"invalid credentials\");\n","          trace!(\"invalid credentials for {login}:{:?}\", self.config.credentials.token);\n"),(C,"    let login = credentials.login.as_str();","    let login = credentials.login.as_str().to_owned();"))
m('c14-range','C14',(C,"10000..99999","1000..99999"))
m('c14-redraw','C14',(C,"    let backoff = self.config.backoff;\n","    let backoff = self.config.backoff;\n    if self.config.credentials.is_anon() { self.config.credentials = Credentials::anon(); }\n"))
m('c14-fixed','C14',(C,"thread_rng().gen_range(Self::ANON_RANGE)","{ static N: std::sync::OnceLock<u32> = std::sync::OnceLock::new(); *N.get_or_init(|| thread_rng().gen_range(Self::ANON_RANGE)) }"))
m('c14-isanon','C14',(C,"    self.token.is_none()","    self.token.is_none() && self.login.len() != 14"))
m('c14-range-6','C14',(C,"10000..99999","10000..100500"))
m('c14-pass','C14 C07',(C,"      None => \"just_a_lil_guy\",","      None => login,"))

# ---- C02 parser
m('c02-simd-le','C02',(SIMD,"  while offset + V::SIZE < remainder.len() {","  while offset + V::SIZE <= remainder.len() {"))
m('c02-eq-clear','C02',(SIMD,("        vector_eq.clear_to(m);\n        vector_semi.clear_to(m);\n\n        let pos = offset + m.as_index(); // pos of `;`",1),"        vector_semi.clear_to(m);\n\n        let pos = offset + m.as_index(); // pos of `;`"))
m('c02-semi-clear','C03',(SIMD,("        vector_eq.clear_to(m);\n        vector_semi.clear_to(m);\n\n        let pos = offset + m.as_index(); // pos of `=`",1),"        vector_eq.clear_to(m);\n\n        let pos = offset + m.as_index(); // pos of `=`"))
m('c02-ff-tail','C02',(SIMD,"  if offset < data.len() {\n    let offset = data.len() - V::SIZE;","  if offset + 1 < data.len() {\n    let offset = data.len() - V::SIZE;"))
m('c02-ff-step4','C02',(SIMD,"  while offset + V::SIZE <= data.len() {\n    // the data","  if offset + V::SIZE <= data.len() {\n    // the data"))
m('c02-ff-3','C02',(SIMD,"      return Some(offset + pos + 3 * V::SIZE);","      return Some(offset + pos + 2 * V::SIZE);"))
m('c02-ff-align','C02',(SIMD,"  let aligned_start_addr = data_addr + V::SIZE - (data_addr % V::SIZE);","  let aligned_start_addr = data_addr + V::SIZE - (data_addr % V::SIZE) + if data_addr % V::SIZE == 7 { V::SIZE } else { 0 };"))
m('c02-ff-unroll','C02',(SIMD,"    offset += V::SIZE * 4;","    offset += V::SIZE * 5;"))
m('c02-simd-lastempty','C02',(SIMD,"    if let State::Value { key_start, key_end } = state {\n      // value","    if let State::Value { key_start, key_end } = state { if key_end + 1 < remainder.len() || remainder.len() < 64 {\n      // value"),(SIMD,"        value_end: (pos - (key_end + 1)) as u32,\n      });\n    }\n  }\n\n  Some","        value_end: (pos - (key_end + 1)) as u32,\n      });\n    } }\n  }\n\n  Some"))
m('c02-clear-avx','C02',(AVX,"    self.0 &= !(0xffff_ffff >> (31 - m.0));","    self.0 &= !(0xffff_ffff >> (31 - m.0.min(30)));"))
m('c02-rem-avx','C02',(AVX,"      buf.0[..data.len() - offset].copy_from_slice(&data[offset..]);","      let n = (data.len() - offset).min(31);\n      buf.0[..n].copy_from_slice(&data[offset..offset + n]);"))
m('c02-scalar-eq','C02',(SCAL,"      b'=' => {\n        if let State::Key { key_start } = state {","      b'=' => {\n        if let State::Key { key_start } | State::Value { key_start, .. } = state {"))
m('c02-scalar-semi','C02',(SCAL,"            value_end: (offset - (key_end + 1)) as u32,\n          });\n          state","            value_end: (offset - (key_end + 1)) as u16 as u32,\n          });\n          state"))
m('c02-scalar-last','C02',(SCAL,"      b' ' => {\n        if let State::Value { key_start, key_end } = state {","      b' ' => {\n        if let State::Value { key_start, key_end } = state.filter_nonempty(offset) {"),(SCAL,"#[derive(Clone, Copy)]\nenum State {","impl State {\n  fn filter_nonempty(self, offset: usize) -> State {\n    match self { State::Value { key_start, key_end } if key_end + 1 == offset => State::Key { key_start }, s => s }\n  }\n}\n\n#[derive(Clone, Copy)]\nenum State {"))
m('c02-cap128','C02',(TAGS,"      self.overflow.push(value);\n      return;","      return;"))
m('c02-u16','C02',(TAGS,"    let end = start + self.value_end;","    let end = start + self.value_end as u16 as u32;"))
m('c02-tag-last','C02',(IRC,("      .find(|pair| &self.src.as_str()[pair.key()] == tag.as_str())",1),"      .rev()\n      .find(|pair| &self.src.as_str()[pair.key()] == tag.as_str())"))
m('c02-tag-prefix','C02',(IRC,("      .find(|pair| &self.src[pair.key()] == tag.as_str())",1),"      .find(|pair| self.src[pair.key()].eq_ignore_ascii_case(tag.as_str()))"))
m('c02-text-rfind','C02 C16',(IRC,"        match params.find(':') {","        match params.rfind(':') {"))
m('c02-text2-rfind','C02',(IRC,"      Some(params) => match params.find(':') {","      Some(params) => match params.rfind(':') {"))
m('c02-names','C02',(IRC,("        .and_then(|params| params.split_whitespace().nth(2)),",2),"        .and_then(|params| params.split_whitespace().nth(3)),"))
m('c02-names1','C02',(IRC,("        .and_then(|params| params.split_whitespace().nth(2)),",1),"        .and_then(|params| params.split_whitespace().nth(3)),"))
m('c02-endnames','C02',(IRC,("        .and_then(|params| params.split_whitespace().nth(1)),",2),"        .and_then(|params| params.split_whitespace().last()),"))
m('c02-prefix-at','C02',('src/irc/prefix.rs',"      b'@' => {","      b'@' if nick.is_some() => {"))
m('c02-prefix-user','C02',('src/irc/prefix.rs',"user = Some(Span::from(nick_end + 1..i));","user = nick.map(|_| Span::from(start..nick_end));"))
m('c02-cmd','C02',('src/irc/command.rs','    "375" => C::RplMotdStart,','    "375" => C::RplMotd,'))
m('c02-cmd-asstr','C02',('src/irc/command.rs','      RplEndOfMotd => "376",','      RplEndOfMotd => "375",'))
m('c02-cmd-other','C02',('src/irc/command.rs',"C::Other(Span::from(*pos..end))","C::Other(Span::from(*pos..end.min(*pos + 16)))"))
m('c02-chan-trail','C02',('src/irc/channel.rs',"          *pos = end + 1;","          *pos = (end + 2).min(src.len());\n          if !src.is_char_boundary(*pos) || src.as_bytes()[*pos - 1] != b' ' { *pos = end + 1; }"))
m('c02-params-trim','C02',('src/irc/params.rs',"    Some(Span::from(*pos..src.len()))","    Some(Span::from(*pos..src.trim_end().len().max(*pos)))"))
m('c02-tagname','C02',(TAGS,'b"msg-param-gift-months"; "msg-param-gift-months"','b"msg-param-gift-months"; "msg-param-gift-month"'))
m('c02-tagname2','C02',(TAGS,'b"sent-ts"; "sent-ts"','b"sent-ts"; "tmi-sent-ts"'))
m('c02-parse-trim','C02',(IRC,"    let src = src.to_string();","    let src = src.to_string().replace('\\u{0}', \"\");"))
# ---- C03
m('c03-slice','C03',(MSG,"  let Some(s) = input.strip_prefix(\"\\u{0001}ACTION \") else {\n    return (input, false);","  let Some(s) = input.strip_prefix(\"\\u{0001}ACTION \") else {\n    if input.len() > 400 { let _ = &input[..400]; }\n    return (input, false);"))
m('c03-ts-unwrap','C03',(MSG,"  chrono::Utc.timestamp_millis_opt(s.parse().ok()?).single()","  Some(chrono::Utc.timestamp_millis_opt(s.parse().ok()?).unwrap())"))
m('c03-badges','C03',(MSG,"    .flat_map(|badge| badge.split_once('/'))\n    .map(","    .map(|badge| badge.split_once('/').unwrap())\n    .map("))
m('c03-dur','C03',(MSG,"  Some(std::time::Duration::from_secs(s.parse().ok()?))","  Some(std::time::Duration::from_secs(1) * s.parse::<u64>().ok()?.try_into().unwrap_or(u32::MAX) + std::time::Duration::MAX.mul_f32(0.0))"))
m('c03-tagpanic','C03 C02',(TAGS,"    if self.len == CAPACITY {\n      self.overflow.push(value);\n      return;\n    }\n",""))
m('c03-prefix-oob','C03',('src/irc/prefix.rs',"        *pos = i + 1;","        *pos = i + 1 + usize::from(bytes[i + 1] == b' ');"))
m('c03-scalar-space','C03',(SCAL,"  if offset == src.len() {\n    // tags must be followed by a space\n    return None;\n  }\n",""))
m('c03-followers','C03 C16',(RS,"(n as u64).saturating_mul(60)","n as u64 * 60"))
m('c03-unesc','C03',('src/lib.rs',"  out.push_str(&input[..start]);","  out.push_str(&input[..start]);\n  let _ = &input[start + 1..];\n  if input.len() > start + 2 { let _ = &input[..start + 2]; }"))
# ---- C16
m('c16-parse-bool','C16',(MSG,"v.parse::<u8>().ok().map(|n| n > 0).unwrap_or(false)","v.len() == 1 && v != \"0\" || v.is_empty()"))
m('c16-badge-info','C16',(MSG,".find(|(needle, _)| *needle == name)",".find(|(needle, _)| name.starts_with(*needle))"))
m('c16-badge32','C16',(MSG,"    .flat_map(|info| info.split_once('/'))\n    .collect","    .flat_map(|info| info.split_once('/'))\n    .take(16)\n    .collect"))
m('c16-badge-slash','C16',(MSG,"    .flat_map(|badge| badge.split_once('/'))\n","    .flat_map(|badge| badge.rsplit_once('/'))\n"))
m('c16-badge-noempty','C16',(MSG,"    .flat_map(|badge| badge.split_once('/'))\n","    .flat_map(|badge| badge.split_once('/'))\n    .filter(|(_, v)| !v.is_empty())\n"))
m('c16-ts-secs','C16',(MSG,"chrono::Utc.timestamp_millis_opt(s.parse().ok()?).single()","chrono::Utc.timestamp_opt(s.parse::<i64>().ok()? / 1000, (s.parse::<i64>().ok()? % 1000) as u32 * 1_000).single()"))
m('c16-action','C16',(MSG,"  let Some(s) = s.strip_suffix('\\u{0001}') else {\n    return (input, false);\n  };\n  (s, true)","  (s.trim_end_matches('\\u{0001}'), true)"))
m('c16-dur-u32','C16',(MSG,"  Some(std::time::Duration::from_secs(s.parse().ok()?))","  Some(std::time::Duration::from_secs(s.parse::<u32>().ok()?.into()))"))
m('c16-months-u32','C16',(MSG,"          .and_then(|v| v.parse().ok())\n          .unwrap_or(1),\n      }),","          .and_then(|v| v.parse::<u32>().ok())\n          .map_or(1, u64::from),\n      }),"))
m('c16-streak','C16',(UN,".and_then(|n| if n > 0 { Some(n) } else { None })",".and_then(|n| if n > 1 { Some(n) } else { None })"))
m('c16-sub-cum','C16',(UN,"            .tag(Tag::MsgParamCumulativeMonths)","            .tag(Tag::MsgParamCumulativeMonths).or(message.tag(Tag::MsgParamMonths))"))
m('c16-gift-anon','C16',(UN,"        event_id == \"anonsubgift\" || sender_id == AN_ANONYMOUS_GIFTER,","        event_id == \"anonsubgift\","))
m('c16-mystery-anon','C16',(UN,"      \"submysterygift\" if sender_id == AN_ANONYMOUS_GIFTER => (","      \"submysterygift\" if sender_id == AN_ANONYMOUS_GIFTER && message.tag(Tag::MsgParamSenderCount).is_none() => ("))
m('c16-promo','C16',(UN,"    _ => None,\n  }\n}","    (Some(total_gifts), None) => Some(SubGiftPromo { total_gifts, promo_name: \"\".into() }),\n    _ => None,\n  }\n}"))
m('c16-promo-zero','C16',(UN,"    (Some(total_gifts), Some(promo_name)) => Some","    (Some(total_gifts), Some(promo_name)) if total_gifts > 0 => Some"))
m('c16-sysmsg','C16',(UN,"self.system_message.clone().map(maybe_unescape)","self.system_message.clone()"))
m('c16-announce','C16',(UN,"message.tag(Tag::MsgParamColor).unwrap_or(\"PRIMARY\")","message.tag(Tag::MsgParamColor).filter(is_not_empty).unwrap_or(\"PRIMARY\")"))
m('c16-un-text','C16',(UN,"      text: message.text().map(Cow::Borrowed),","      text: message.text().filter(is_not_empty).map(Cow::Borrowed),"))
m('c16-un-badges','C16',(UN,"        .zip(message.tag(Tag::BadgeInfo))","        .zip(message.tag(Tag::BadgeInfo).filter(is_not_empty))"))
m('c16-raid-login','C16',(UN,"            .tag(Tag::MsgParamViewerCount)\n            .and_then(|v| v.parse().ok())?","            .tag(Tag::MsgParamViewerCount)\n            .and_then(|v| v.parse().ok()).filter(|n| *n > 0)?"))
m('c16-whisper-split','C16',('src/msg/whisper.rs','split_once(" :")','rsplit_once(" :")'))
m('c16-notice-chan','C16',('src/msg/notice.rs',"      channel: message.channel().map(Cow::Borrowed),","      channel: message.channel().or(message.params().and_then(|p| p.split(' ').next())).map(Cow::Borrowed),"))
m('c16-notice-id','C16',('src/msg/notice.rs',"id: message.tag(Tag::MsgId).map(Cow::Borrowed)","id: message.tag(Tag::MsgId).or(message.tag(Tag::Id)).map(Cow::Borrowed)"))
m('c16-bits0','C16',(PM,"message.tag(Tag::Bits).and_then(|bits| bits.parse().ok());\n    let emotes","message.tag(Tag::Bits).and_then(|bits| bits.parse().ok()).filter(|n| *n > 0);\n    let emotes"))
m('c16-msgid-empty','C16',(PM,"    let msg_id = message.tag(Tag::MsgId).map(Cow::Borrowed);","    let msg_id = message.tag(Tag::MsgId).filter(is_not_empty).map(Cow::Borrowed);"))
m('c16-reply-text','C16',(PM,"maybe_unescape(self.text.clone())","if self.text.contains(\"\\\\s\") { maybe_unescape(self.text.clone()) } else { self.text.clone() }"))
m('c16-reply-thread','C16',(PM,"        thread_parent_message_id: message.tag(Tag::ReplyThreadParentMsgId)?.into(),\n        thread_parent_user_login: message.tag(Tag::ReplyThreadParentUserLogin)?","        thread_parent_message_id: message.tag(Tag::ReplyThreadParentMsgId)?.into(),\n        thread_parent_user_login: message.tag(Tag::ReplyParentUserLogin)?"))
m('c16-level','C16',(PM,'      "SEVEN" => Ok(PinnedChatLevel::SEVEN),','      "SEVEN" => Ok(PinnedChatLevel::SIX),'))
m('c16-pinned-sys','C16',(PM,"parse_bool(message.tag(Tag::PinnedChatPaidIsSystemMessage)?)","message.tag(Tag::PinnedChatPaidIsSystemMessage)? == \"true\""))
m('c16-amount','C16',(PM,"      let paid_amount = amount.parse().ok()?;","      let paid_amount = amount.parse::<i32>().ok()?.into();"))
m('c16-exponent','C16',(PM,"let paid_exponent = message.tag(Tag::PinnedChatPaidExponent)?.parse().ok()?;","let paid_exponent = message.tag(Tag::PinnedChatPaidExponent)?.parse::<u8>().ok()?.into();"))
m('c16-cc-perma','C16',(CC,"        (Some(name), Some(duration)) => Action::TimeOut(TimeOut {","        (Some(name), Some(duration)) if !duration.is_zero() => Action::TimeOut(TimeOut {"),(CC,"        (Some(name), None) => Action::Ban(Ban {","        (Some(name), _) => Action::Ban(Ban {"))
m('c16-rs-slow0','C16',(RS,"        .map(Duration::from_secs),","        .map(Duration::from_secs)\n        .filter(|d| !d.is_zero()),"))
m('c16-rs-foll','C16',(RS,"          0 => FollowersOnly::Enabled(None),\n          _ => FollowersOnly::Disabled,","          _ => FollowersOnly::Enabled(None),"))
m('c16-clearmsg','C16',('src/msg/clear_msg.rs',"    let (text, is_action) = parse_message_text(message.text()?);","    let (text, is_action) = (message.text()?, message.text()?.starts_with('\\u{1}'));"))
m('c16-us-sets','C16',('src/msg/user_state.rs',"        .tag(Tag::EmoteSets)\n","        .tag(Tag::EmoteSets)\n        .filter(is_not_empty)\n"))
m('c16-gus-name','C16',('src/msg/global_user_state.rs',"maybe_unescape(self.name.clone())","self.name.clone()"))
m('c16-ping-nonce','C16 C15',('src/msg/ping.rs',"message.text().map(Cow::Borrowed)","message.text().and_then(|t| t.split(' ').next()).map(Cow::Borrowed)"))
m('c16-unesc-order','C16',('src/lib.rs',"      '\\\\' if escape => {\n        out.push('\\\\');\n        escape = false;\n      }\n      '\\\\' => escape = true,","      '\\\\' => escape = true,"))
m('c16-unesc-n','C16',('src/lib.rs',"        out.push('\\n');","        out.push(' ');"))
m('c16-color','C16',(PM,"      .tag(Tag::Color)\n      .filter(is_not_empty)","      .tag(Tag::Color)\n      .filter(|c| c.len() == 7 && *c != \"#000000\")"))
m('c16-login-prefix','C16',(PM,"      login: message\n        .prefix()\n        .and_then(|prefix| prefix.nick)\n        .map(Cow::Borrowed)?,\n      name: message.tag(Tag::DisplayName)?.into(),\n    };","      login: message\n        .prefix()\n        .and_then(|prefix| prefix.user)\n        .map(Cow::Borrowed)?,\n      name: message.tag(Tag::DisplayName).filter(is_not_empty).or(message.prefix().and_then(|p| p.nick))?.into(),\n    };"))
m('c16-part','C16',('src/msg/part.rs',"prefix.nick","prefix.user"))
# ---- C17
m('c17-user-owned','C17',(MSG,"      login: maybe_clone(self.login),\n      name: maybe_clone(self.name),","      login: maybe_clone(self.login),\n      name: Cow::Owned(maybe_unescape(self.name).into_owned()),"))
m('c17-owned-bits','C17',(PM,"      bits: self.bits,","      bits: self.bits.filter(|b| *b < 1 << 53),"))
m('c17-owned-badges','C17',(PM,"badges: self.badges.into_iter().map(Badge::into_owned).collect()","badges: self.badges.into_iter().take(32).map(Badge::into_owned).collect()"))
m('c17-owned-action','C17',('src/msg/clear_msg.rs',"      is_action: self.is_action,","      is_action: false,"))
m('c17-owned-streak','C17',(UN,"        streak_months: v.streak_months,","        streak_months: Some(v.cumulative_months).filter(|_| v.streak_months.is_some()),"))
m('c17-owned-promo','C17',(UN,"      Event::AnonGiftPaidUpgrade(v) => Event::AnonGiftPaidUpgrade(AnonGiftPaidUpgrade {\n        promotion: v.promotion.map(SubGiftPromo::into_owned),","      Event::AnonGiftPaidUpgrade(_) => Event::AnonGiftPaidUpgrade(AnonGiftPaidUpgrade {\n        promotion: None,"))
m('c17-serde-skip','C17',(PM,"  #[cfg_attr(feature = \"serde\", serde(borrow))]\n  custom_reward_id","  #[cfg_attr(feature = \"serde\", serde(borrow, skip))]\n  custom_reward_id"))
m('c17-serde-rs','C17',(RS,"  slow: Option<Duration>,\n\n  subs_only","  #[cfg_attr(feature = \"serde\", serde(skip_serializing_if = \"Option::is_none\", default))]\n  slow: Option<Duration>,\n\n  #[cfg_attr(feature = \"serde\", serde(skip))]\n  subs_only"))
m('c17-serde-months','C17',(MSG,"        months_n: t.months.parse().unwrap_or(1),","        months_n: t.months.parse::<u32>().unwrap_or(1).into(),"))
m('c17-irc-owned','C17',(IRC,"      src: self.src.into(),\n      parts: self.parts.clone(),","      src: self.src.trim_end().into(),\n      parts: self.parts.clone(),"))
m('c17-badgedata','C17',(MSG,"      extra: self.extra.map(maybe_clone),","      extra: self.extra.filter(|e| !e.is_empty()).map(maybe_clone),"))
m('c17-serde-ts','C17',(PM,"  timestamp: DateTime<Utc>,\n}\n\ngenerate","  #[cfg_attr(feature = \"serde\", serde(with = \"chrono::serde::ts_seconds\"))]\n  timestamp: DateTime<Utc>,\n}\n\ngenerate"))

# ---- batch 2: changes that need length, history, size or rare values to show
CNT=lambda n,ty='u32': ((R,"  closed: bool,\n}","  closed: bool,\n  n: u32,\n}"),(R,"      closed: false,","      closed: false,\n      n: 0,"))
def lines_count(name,n,props='C01'):
    m(name,props,*CNT(n),(R,"        return Poll::Ready(Some(line));",f"        this.n += 1;\n        if this.n % {n} == 0 {{ continue; }}\n        return Poll::Ready(Some(line));"))
for n in (64,256,1024,4096): lines_count(f'b2-c01-count{n}',n)
for n in (32768,65536,262144,1<<20): m(f'b2-c01-long{n}','C01 C02',(R,"    while !this.closed {",f"    while !this.closed {{\n      if this.line.len() > {n} {{ this.line.truncate({n}); }}"))
for s in (620,1800,4000,90000): m(f'b2-c01-idle{s}','C01 C04',(R,"if let Some(message) = self.reader.next().await {",f"if let Some(message) = tokio::time::timeout(std::time::Duration::from_secs({s}), self.reader.next()).await.unwrap_or(None) {{"))
m('b2-c01-bom','C01 C02',(R,"Ok(IrcMessage::parse(&message)","let message = message.trim_start_matches('\\u{feff}').to_string();\n      Ok(IrcMessage::parse(&message)"))
m('b2-c01-nul','C01 C02 C03',(R,"        line.pop();\n        if line.ends","        line.pop();\n        if let Some(i) = line.iter().position(|b| *b == 0) { line.truncate(i); }\n        if line.ends"))
m('b2-c01-lone-cr','C02 C03',(R,"        line.pop();\n        if line.ends","        line.pop();\n        if let Some(i) = line[..line.len().saturating_sub(1)].iter().position(|b| *b == b'\\r') { line.truncate(i + 1); }\n        if line.ends"))
m('b2-c01-buf-one-left','C01',(R,"      let end = data.iter().position(|&b| b == b'\\n');","      let end = data.iter().position(|&b| b == b'\\n').filter(|&i| i != 8191);"))
for n in (4096,16384,65536): m(f'b2-c05-trunc{n}','C05',(W,"    self.writer.write_all(data.as_bytes()).await?;\n",f"    self.writer.write_all(&data.as_bytes()[..data.len().min({n})]).await?;\n"))
m('b2-c05-flush-small','C05',(W,"    self.writer.flush().await?;\n    Ok(())","    if data.len() < 4096 { self.writer.flush().await?; }\n    Ok(())"))
m('b2-c05-flush-every','C05',(C,"  scratch: String,\n  tls","  scratch: String,\n  sent: u32,\n  tls"),(C,"      scratch: String::with_capacity(1024),","      scratch: String::with_capacity(1024),\n      sent: 0,"),(W,"    self.writer.flush().await?;\n    Ok(())","    self.sent += 1;\n    if self.sent % 16 != 0 { self.writer.flush().await?; }\n    Ok(())"))
m('b2-c05-fail-late','C05',(C,"  scratch: String,\n  tls","  scratch: String,\n  sent: u32,\n  tls"),(C,"      scratch: String::with_capacity(1024),","      scratch: String::with_capacity(1024),\n      sent: 0,"),(W,"    self.writer.flush().await?;\n    Ok(())","    self.sent += 1;\n    if self.sent == 40 { return Ok(()); }\n    self.writer.flush().await?;\n    Ok(())"))
m('b2-c05-err-once','C05',(W,"    self.writer.write_all(data.as_bytes()).await?;\n","    if let Err(e) = self.writer.write_all(data.as_bytes()).await { if e.kind() == io::ErrorKind::WriteZero { return Ok(()); } return Err(e.into()); }\n"))
for n in (32,64,128): m(f'b2-c06-nonce{n}','C06',(W,"          key: \"client-nonce\",\n          value,","          key: \"client-nonce\",\n          value: value.get(..%d).unwrap_or(value),"%n))
for n in (30,64,200): m(f'b2-c06-chan{n}','C06',(W,"    write!(f, \"{channel}\")","    write!(f, \"{}\", channel.get(..%d).unwrap_or(channel))"%n))
for n in (500,2000,8000): m(f'b2-c06-text{n}','C06',(W,"PRIVMSG {channel} :{text}\\r\\n\");","PRIVMSG {channel} :{}\\r\\n\", text.get(..%d).unwrap_or(text));"%n))
m('b2-c06-slash','C06',(W,"PRIVMSG {channel} :{text}\\r\\n\");","PRIVMSG {channel} :{}\\r\\n\", if text.starts_with('/') { &text[1..] } else { text });"))
m('b2-c06-unicode','C06',(W,"PRIVMSG {channel} :{text}\\r\\n\");","PRIVMSG {channel} :{}\\r\\n\", text.replace('\\u{200d}', \"\"));"))
m('b2-c06-emptynonce','C06',(W,"    self.client_nonce = Some(value);","    self.client_nonce = Some(value).filter(|v| !v.is_empty());"))
m('b2-c06-emptyreply','C06',(W,"    self.reply_parent_msg_id = Some(reply_parent_msg_id);","    self.reply_parent_msg_id = Some(reply_parent_msg_id).filter(|v| !v.is_empty());"))
for n in (8,20,50,100): m(f'b2-c06-joinall{n}','C06',(W,"      for channel in channels {\n","      for channel in channels.take(%d) {\n"%n))
m('b2-c06-hash2','C06',(W,"    if !channel.starts_with('#') {","    let channel = channel.trim_start_matches('#');\n    {"))
m('b2-c06-joined-comma','C06',(W,"    write!(f, \"{channel}\")","    write!(f, \"{}\", channel.split(',').next().unwrap())"))
m('b2-c06-ping-space','C06',(W,"      let _ = write!(f, \"PING :{nonce}\\r\\n\");","      let _ = if nonce.contains(' ') { write!(f, \"PING :{nonce}\\r\\n\") } else { write!(f, \"PING {nonce}\\r\\n\") };"))
m('b2-c06-pong-empty','C06 C15',(W,"      if let Some(nonce) = ping.nonce() {","      if let Some(nonce) = ping.nonce().filter(|n| !n.is_empty()) {"))
m('b2-c06-rawcase','C06',(W,"    match data.ends_with(\"\\r\\n\") {","    match data.ends_with(\"\\r\\n\") || (data.len() > 500 && data.ends_with('\\n')) {"))
m('b2-c06-raw2','C06',(W,"    match data.ends_with(\"\\r\\n\") {","    match data.ends_with(\"\\r\\n\") && data.len() > 2 {"))
for n in (3,10,20,50,100,300): m(f'b2-c09-giveup{n}','C09 C10',(C,"    while matches!(tries, None | Some(1..)) {","    let mut done = 0;\n    while matches!(tries, None | Some(1..)) && done < %d {\n      done += 1;"%n))
m('b2-c09-late-nocap','C09',(C,"      delay = std::cmp::min(backoff.max_delay, delay * backoff.delay_multiplier);","      delay = if delay > Duration::from_secs(40) { delay * backoff.delay_multiplier } else { std::cmp::min(backoff.max_delay, delay * backoff.delay_multiplier) };"))
m('b2-c09-mult0','C09',(C,"delay * backoff.delay_multiplier);","delay * backoff.delay_multiplier.max(1));"))
m('b2-c09-secs','C09',(C,"delay * backoff.delay_multiplier);","Duration::from_millis((delay * backoff.delay_multiplier).as_millis() as u64));"))
m('b2-c09-initial-cap','C09',(C,"    let mut delay = backoff.initial_delay;","    let mut delay = backoff.initial_delay.min(Duration::from_secs(4));"))
m('b2-c09-deadline','C09',(C,"      tokio::time::sleep(delay).await;","      let t0 = tokio::time::Instant::now(); tokio::time::sleep_until(t0 + delay - delay.min(Duration::from_micros(600))).await;"))
m('b2-c09-elapsed','C09',(C,"      tokio::time::sleep(delay).await;","      tokio::time::sleep_until(last + delay).await;"),(C,"    let mut cause = ConnectError::Timeout;\n","    let mut cause = ConnectError::Timeout;\n    let mut last = tokio::time::Instant::now();\n"),(C,"      trace!(\"opening connection to twitch\");\n      let stream = match","      last = tokio::time::Instant::now();\n      trace!(\"opening connection to twitch\");\n      let stream = match"))
for k in ('ConnectionRefused','HostUnreachable','NetworkUnreachable','TimedOut','PermissionDenied','AddrNotAvailable','UnexpectedEof','InvalidData','BrokenPipe','ConnectionAborted','NotConnected','Other'):
    m(f'b2-c10-{k}','C10',(C,"        Ok(Err(e @ OpenStreamError::Io(_))) => {\n          cause = e.into();","        Ok(Err(e @ OpenStreamError::Io(_))) => {\n          if matches!(&e, OpenStreamError::Io(e) if e.kind() == io::ErrorKind::%s) { return Err(e.into()); }\n          cause = e.into();"%k))
for k in ('ConnectionReset','BrokenPipe','TimedOut','UnexpectedEof','ConnectionAborted','HostUnreachable'):
    m(f'b2-c10-hsread-{k}','C10',(C,"        | Self::Read(RecvError::Io(_) | RecvError::StreamClosed)","        | Self::Read(RecvError::StreamClosed)"),(C,"  fn should_retry(&self) -> bool {\n","  fn should_retry(&self) -> bool {\n    if let Self::Read(RecvError::Io(e)) = self { return e.kind() != io::ErrorKind::%s; }\n"%k))
    m(f'b2-c10-hswrite-{k}','C10',(C,"        | Self::Io(_)\n",""),(C,"  fn should_retry(&self) -> bool {\n","  fn should_retry(&self) -> bool {\n    if let Self::Io(e) = self { return e.kind() != io::ErrorKind::%s; }\n"%k))
m('b2-c10-parse','C10',(C,"Self::Read(RecvError::Io(_) | RecvError::StreamClosed)","Self::Read(_)"))
m('b2-c10-utf8','C10',(C,"        | Self::Timeout\n    )","        | Self::Timeout\n    ) && !matches!(self, Self::Read(e) if !e.is_disconnect())"))
m('b2-c14-leading','C14',(C,"thread_rng().gen_range(Self::ANON_RANGE)","thread_rng().gen_range(0..99999u32)"))
m('b2-c14-once','C14',(C,"      login: format!(\"justinfan{}\", thread_rng().gen_range(Self::ANON_RANGE)),","      login: { static N: std::sync::OnceLock<u32> = std::sync::OnceLock::new(); format!(\"justinfan{}\", N.get_or_init(|| thread_rng().gen_range(Self::ANON_RANGE))) },"))
m('b2-c14-coarse','C14',(C,"thread_rng().gen_range(Self::ANON_RANGE)","thread_rng().gen_range(10..12u32) * 1000 + 7"))
m('b2-c14-clone','C14',(C,"#[derive(Clone)]\npub struct Credentials {","pub struct Credentials {"),(C,"impl Default for Credentials {","impl Clone for Credentials { fn clone(&self) -> Self { match &self.token { Some(_) => Self { login: self.login.clone(), token: self.token.clone() }, None => Self::anon() } } }\nimpl Default for Credentials {"))
m('b2-c07-ack-partial','C07',(C,"v.starts_with(\"* ACK\")","v.starts_with(\"* \")"))
m('b2-c07-cap-any','C07',(C,"          return Err(ConnectError::Auth);\n        }\n      }\n      _ => {\n        trace!(\"unexpected","          trace!(\"denied\")\n        }\n      }\n      _ => {\n        trace!(\"unexpected"))
m('b2-c07-authtext','C07',(C,".map(|v| v.contains(\"authentication failed\"))",".map(|v| v.ends_with(\"authentication failed\"))"))
m('b2-c07-authcase','C07 C10',(C,".map(|v| v.contains(\"authentication failed\"))",".map(|v| v.to_lowercase().contains(\"auth\"))"))
m('b2-c07-longtoken','C07',(C,"write!(&mut self.scratch, \"PASS {oauth}{token}\\r\\n\")","write!(&mut self.scratch, \"PASS {oauth}{}\\r\\n\", token.get(..120).unwrap_or(token))"))
m('b2-c07-nicklower','C07',(C,"write!(&mut self.scratch, \"NICK {login}\\r\\n\")","write!(&mut self.scratch, \"NICK {}\\r\\n\", login.to_lowercase())"))
m('b2-c08-lookup','C08',(CONN,"TcpStream::connect((HOST, PORT)).await?","{ let a = tokio::net::lookup_host((HOST, PORT)).await?.next().ok_or(io::ErrorKind::NotFound)?; TcpStream::connect(a).await? }"))
m('b2-c08-min5','C08',(C,"    let result = self.handshake()","    let timeout = timeout.max(Duration::from_secs(2));\n    let result = self.handshake()") if False else (C,"      let result = self.handshake().timeout(timeout).await;","      let result = self.handshake().timeout(timeout.max(Duration::from_secs(2))).await;"))
m('b2-c08-recvforever','C08',(C,"    trace!(\"waiting for NOTICE 001\");\n    let message = self.recv().timeout(Duration::from_secs(5)).await??;","    trace!(\"waiting for NOTICE 001\");\n    let message = self.recv().await?;"))
m('b2-c08-recv3','C08',(C,"    trace!(\"waiting for NOTICE 001\");\n    let message = self.recv().timeout(Duration::from_secs(5)).await??;","    trace!(\"waiting for NOTICE 001\");\n    let message = self.recv().timeout(Duration::from_secs(3)).await??;"))
m('b2-c11-reader-first','C11 C12',(C,"      (self.reader, self.writer) = split(stream);\n\n      let result = self.handshake().timeout(timeout).await;\n      if let Err(e) = result.unwrap_or_else(|e| Err(e.into())) {","      let (reader, writer) = split(stream);\n      let old = std::mem::replace(&mut self.reader, reader);\n      self.writer = writer;\n\n      let result = self.handshake().timeout(timeout).await;\n      drop(old);\n      if let Err(e) = result.unwrap_or_else(|e| Err(e.into())) {"))
m('b2-c13-trace-line','C13',(W,"    trace!(data, \"sending message\");","    trace!(data, pass = ?self.config.credentials.token, \"sending message\");"))
m('b2-c13-debug-raw','C13',(C,"      .finish_non_exhaustive()","      .field(\"token\", &self.token.as_ref().map(|t| t.chars().rev().collect::<String>()))\n      .finish()"))
m('b2-c13-debug-hash','C13',(C,"      .finish_non_exhaustive()","      .field(\"token\", &self.token.as_ref().map(|t| format!(\"{}***\", &t[..t.len() * 3 / 4])))\n      .finish()"))
m('b2-c13-host','C13',(CONN,"pub const HOST: &str = \"irc.chat.twitch.tv\";","pub const HOST: &str = \"irc.twitch.tv\";"))
m('b2-c19-len','C19',(W,"    self.append = !self.append;\n","    self.append = out.is_empty() && self.append != true;\n"))

# ---- batch 3: unusual values of typed messages, systematic owned copies, unusual sizes
import re as _re
def _nt(p):
    s=open('/repo/'+p).read(); return s.split('\n#[cfg(test)]')[0]
for _f in ('msg','msg/clear_chat','msg/clear_msg','msg/global_user_state','msg/join','msg/notice','msg/part','msg/ping','msg/pong','msg/privmsg','msg/room_state','msg/user_notice','msg/user_state','msg/whisper'):
    _p=f'src/{_f}.rs'; _s=_nt(_p)
    for _i,_m in enumerate(_re.finditer(r'maybe_clone\((self|v)\.(\w+)\)',_s)):
        _n=_s[:_m.start()].count(_m.group(0))+1
        m(f'b3-own-{_f.split("/")[-1]}-{_m.group(2)}-{_n}','C17',(_p,(_m.group(0),_n),f'maybe_clone({_m.group(1)}.{_m.group(2)}.split_at({_m.group(1)}.{_m.group(2)}.char_indices().nth(24).map_or({_m.group(1)}.{_m.group(2)}.len(), |x| x.0)).0.to_owned().into())'))
    for _i,_m in enumerate(_re.finditer(r'self\.(\w+)\.map\(maybe_clone\)',_s)):
        _n=_s[:_m.start()].count(_m.group(0))+1
        m(f'b3-own-{_f.split("/")[-1]}-{_m.group(1)}-opt-{_n}','C17',(_p,(_m.group(0),_n),f'self.{_m.group(1)}.filter(|v| !v.is_empty()).map(maybe_clone)'))
UNp='src/msg/user_notice.rs'
m('b3-ts-neg','C16',(MSG,"timestamp_millis_opt(s.parse().ok()?).single()","timestamp_millis_opt(s.parse().ok()?).single().filter(|t| t.timestamp() >= 0)"))
m('b3-ts-micro','C16',(MSG,"chrono::Utc.timestamp_millis_opt(s.parse().ok()?).single()","{ let n: i64 = s.parse().ok()?; chrono::Utc.timestamp_opt(n / 1000, (n % 1000).unsigned_abs() as u32 * 1_000_000).single() }"))
m('b3-ts-u32','C16',(MSG,"timestamp_millis_opt(s.parse().ok()?).single()","timestamp_millis_opt(s.parse().ok()?).single().filter(|t| t.timestamp() < i64::from(u32::MAX))"))
m('b3-dur-u32','C16',(MSG,"Duration::from_secs(s.parse().ok()?)","Duration::from_secs(s.parse::<u32>().ok()?.into())"))
m('b3-bool-one','C16',(MSG,"v.parse::<u8>().ok().map(|n| n > 0).unwrap_or(false)","v == \"1\""))
m('b3-act-trim','C16',(MSG,"s.strip_suffix('\\u{0001}')","s.ends_with('\\u{0001}').then(|| s.trim_end_matches('\\u{0001}'))"))
m('b3-act-space','C16',(MSG,"  (s, true)\n","  (s.trim_start(), true)\n"))
m('b3-act-empty','C16',(MSG,"  (s, true)\n","  if s.is_empty() { return (input, false); }\n  (s, true)\n"))
m('b3-badge-rsplit','C16',(MSG,("badge.split_once('/')",1),"badge.rsplit_once('/')"))
m('b3-badgeinfo-rsplit','C16',(MSG,"info.split_once('/')","info.rsplit_once('/')"))
m('b3-badge-dedup','C16',(MSG,"      .into()\n    })\n    .collect()","      .into()\n    })\n    .fold(Vec::new(), |mut v: Vec<Badge>, b| { if !v.contains(&b) { v.push(b) } v })"))
m('b3-badge-32','C16',(MSG,"    .split(',')\n    .flat_map(|badge|","    .split(',')\n    .take(8)\n    .flat_map(|badge|"))
m('b3-badgeinfo-4','C16',(MSG,"    .flat_map(|info| info.split_once('/'))","    .take(4)\n    .flat_map(|info| info.split_once('/'))"))
m('b3-badge-case','C16',(MSG,"*needle == name)","needle.eq_ignore_ascii_case(name))"))
m('b3-sub-u8','C16',(MSG,".and_then(|v| v.parse().ok())\n          .unwrap_or(1)",".and_then(|v| v.parse::<u8>().ok())\n          .map_or(1, u64::from)"))
m('b3-sub-u32','C16',(MSG,".and_then(|v| v.parse().ok())\n          .unwrap_or(1)",".and_then(|v| v.parse::<u32>().ok())\n          .map_or(1, u64::from)"))
m('b3-sub-default0','C16',(MSG,"          .unwrap_or(1),\n","          .unwrap_or(0),\n"))
m('b3-bd-version','C16 C17',(MSG,"        name: Cow::Borrowed(\"subscriber\"),\n        version,\n","        name: Cow::Borrowed(\"subscriber\"),\n        version: if version.len() > 4 { Cow::Borrowed(\"1\") } else { version },\n"))
m('b3-name-empty','C16',(PM,"      name: message.tag(Tag::DisplayName)?.into(),","      name: message.tag(Tag::DisplayName).filter(is_not_empty).or(message.prefix().and_then(|p| p.nick))?.into(),"))
m('b3-bits-u32','C16',(PM,"let bits = message.tag(Tag::Bits).and_then(|bits| bits.parse().ok());","let bits = message.tag(Tag::Bits).and_then(|bits| bits.parse::<u32>().ok()).map(u64::from);"))
m('b3-bits-zero','C16',(PM,"let bits = message.tag(Tag::Bits).and_then(|bits| bits.parse().ok());","let bits = message.tag(Tag::Bits).and_then(|bits| bits.parse().ok()).filter(|n| *n > 0);"))
m('b3-color-hash','C16',(PM,"      .tag(Tag::Color)\n      .filter(is_not_empty)","      .tag(Tag::Color)\n      .filter(|c| c.len() == 7)"))
m('b3-msgid-empty','C16',(PM,"message.tag(Tag::MsgId).map(Cow::Borrowed);","message.tag(Tag::MsgId).filter(is_not_empty).map(Cow::Borrowed);"))
m('b3-pin-i32','C16',(PM,"let paid_amount = amount.parse().ok()?;","let paid_amount = amount.parse::<i32>().ok()?.into();"))
m('b3-pin-exp','C16',(PM,"message.tag(Tag::PinnedChatPaidExponent)?.parse().ok()?","message.tag(Tag::PinnedChatPaidExponent)?.parse::<u8>().ok()?.into()"))
m('b3-pin-neg','C16',(PM,"let paid_amount = amount.parse().ok()?;","let paid_amount = amount.parse().ok().filter(|n: &i64| *n >= 0)?;"))
m('b3-reply-thread','C16',(PM,"thread_parent_message_id: message.tag(Tag::ReplyThreadParentMsgId)?.into(),","thread_parent_message_id: message.tag(Tag::ReplyThreadParentMsgId).unwrap_or(message_id).into(),"))
m('b3-reply-empty','C16',(PM,"message.tag(Tag::ReplyParentMsgId).and_then(","message.tag(Tag::ReplyParentMsgId).filter(is_not_empty).and_then("))
m('b3-reply-body-trim','C16',(PM,"        text: message.tag(Tag::ReplyParentMsgBody)?.into(),","        text: message.tag(Tag::ReplyParentMsgBody)?.trim_end_matches(\"\\\\s\").into(),"))
m('b3-streak-one','C16',(UNp,"if n > 0 { Some(n) }","if n > 1 { Some(n) }"))
m('b3-viewer-u32','C16',(UNp,"            .tag(Tag::MsgParamViewerCount)\n            .and_then(|v| v.parse().ok())?","            .tag(Tag::MsgParamViewerCount)\n            .and_then(|v| v.parse::<u32>().ok())?.into()"))
m('b3-cum-u16','C16',(UNp,"            .tag(Tag::MsgParamCumulativeMonths)\n            .and_then(|v| v.parse().ok())?","            .tag(Tag::MsgParamCumulativeMonths)\n            .and_then(|v| v.parse::<u16>().ok())?.into()"))
m('b3-tier-u32','C16',(UNp,"            .tag(Tag::MsgParamThreshold)\n            .and_then(|v| v.parse().ok())?","            .tag(Tag::MsgParamThreshold)\n            .and_then(|v| v.parse::<u32>().ok())?.into()"))
m('b3-anon-login','C16',(UNp,"event_id == \"anonsubgift\" || sender_id == AN_ANONYMOUS_GIFTER","event_id == \"anonsubgift\" || message.tag(Tag::Login) == Some(\"ananonymousgifter\")"))
m('b3-promo-empty','C16',(UNp,"    message.tag(Tag::MsgParamPromoName),","    message.tag(Tag::MsgParamPromoName).filter(is_not_empty),"))
m('b3-promo-u8','C16',(UNp,"      .tag(Tag::MsgParamPromoGiftTotal)\n      .and_then(|v| v.parse().ok()),","      .tag(Tag::MsgParamPromoGiftTotal)\n      .and_then(|v| v.parse::<u8>().ok()).map(u64::from),"))
m('b3-un-text','C16',(UNp,"text: message.text().map(Cow::Borrowed),","text: message.text().filter(is_not_empty).map(Cow::Borrowed),"))
m('b3-ann-case','C16',(UNp,"message.tag(Tag::MsgParamColor).unwrap_or(\"PRIMARY\")","message.tag(Tag::MsgParamColor).filter(|c| c.bytes().all(|b| b.is_ascii_uppercase())).unwrap_or(\"PRIMARY\")"))
m('b3-ann-empty','C16',(UNp,"message.tag(Tag::MsgParamColor).unwrap_or(\"PRIMARY\")","message.tag(Tag::MsgParamColor).filter(is_not_empty).unwrap_or(\"PRIMARY\")"))
for _f in ('global_user_state','user_state'):
    m(f'b3-sets-empty-{_f}','C16',(f'src/msg/{_f}.rs',"        .map(|i| i.map(Cow::Borrowed))","        .map(|i| i.filter(is_not_empty).map(Cow::Borrowed))"))
    m(f'b3-sets-take-{_f}','C16',(f'src/msg/{_f}.rs',"        .map(|i| i.map(Cow::Borrowed))","        .map(|i| i.take(24).map(Cow::Borrowed))"))
m('b3-to-zero','C16',(CC,".and_then(parse_duration),",".and_then(parse_duration).filter(|d| !d.is_zero()),"))
m('b3-cc-empty','C16',(CC,"        message.text(),\n","        message.text().filter(|t| !t.is_empty()),\n"))
m('b3-fo-big','C16',(RS,"(n as u64).saturating_mul(60)","(n as u32 as u64).saturating_mul(60)"))
m('b3-fo-week','C16',(RS,"          n if n > 0 => {","          n if n > 0 && n <= 129_600 => {"))
m('b3-slow-zero','C16',(RS,"        .map(Duration::from_secs),","        .filter(|n| *n > 0)\n        .map(Duration::from_secs),"))
m('b3-slow-u16','C16',(RS,"        .and_then(|v| v.parse().ok())\n        .map(Duration::from_secs),","        .and_then(|v| v.parse::<u16>().ok())\n        .map(|n| Duration::from_secs(n.into())),"))
m('b3-notice-star','C16',('src/msg/notice.rs',"channel: message.channel().map(Cow::Borrowed),","channel: message.channel().or_else(|| message.params()?.strip_prefix(\"* \").map(|_| \"*\")).map(Cow::Borrowed),"))
m('b3-ping-empty','C16',('src/msg/ping.rs',"nonce: message.text().map(Cow::Borrowed),","nonce: message.text().filter(|t| !t.is_empty()).map(Cow::Borrowed),"))
m('b3-ping-word','C16',('src/msg/ping.rs',"nonce: message.text().map(Cow::Borrowed),","nonce: message.text().map(|t| t.split(' ').next().unwrap_or(t)).map(Cow::Borrowed),"))
m('b3-wh-chan','C16',('src/msg/whisper.rs',"recipient: recipient.into(),","recipient: recipient.trim().to_lowercase().into(),"))
m('b3-unesc-cap','C16',(IRC,"    match char {\n      ':' if escape","    if out.len() > 400 { break; }\n    match char {\n      ':' if escape"))
m('b3-unesc-cr','C16',(IRC,"        out.push('\\r');","        out.push('\\n');"))
# C02
m('b3-tagcap-255','C02',(SIMD,"  Some(RawTags(tags.to_vec()))","  let mut t = tags.to_vec(); t.truncate(255); Some(RawTags(t))"))
m('b3-taglen-16','C02',(SIMD,"        value_end: (pos - (key_end + 1)) as u32,","        value_end: (pos - (key_end + 1)).min(65_535) as u32,"))
m('b3-taglen-4k','C02',(SIMD,"          value_end: (pos - (key_end + 1)) as u32,","          value_end: (pos - (key_end + 1)).min(4_095) as u32,"))
m('b3-prefix-two-at','C02',('src/irc/prefix.rs',"        host_start = i + 1;","        if host_start == start { host_start = i + 1; }"))
m('b3-prefix-long','C02',('src/irc/prefix.rs',"  for i in start..bytes.len() {","  for i in start..bytes.len().min(start + 256) {"))
m('b3-names-ws','C02',(IRC,("params.split_whitespace().nth(2)",2),"params.split(' ').nth(2)"))
m('b3-names-own-colon','C02',(IRC,("params.split_whitespace().nth(1)",2),"params.split_whitespace().nth(1).filter(|c| c.starts_with('#'))"))
m('b3-ff-unroll','C02',(SIMD,"      return Some(offset + pos + 2 * V::SIZE);","      return Some(offset + pos + 2 * V::SIZE - (pos == V::SIZE - 1) as usize);"))
m('b3-tag-first','C02',(IRC,("      .find(|pair| &self.src.as_str()[pair.key()] == tag.as_str())",1),"      .take(64).find(|pair| &self.src.as_str()[pair.key()] == tag.as_str())"))
m('b3-unknown-tag','C02',(IRC,("      .find(|pair| &self.src[pair.key()] == tag.as_str())",1),"      .find(|pair| self.src[pair.key()].eq_ignore_ascii_case(tag.as_str()))"))
# wire
for _k in (20,50,100,200,400):
    m(f'b3-joinall-{_k}','C06',(W,"      for channel in channels {\n","      for channel in channels.take(%d) {\n"%(_k-1)))
for _k in (400,500,512,1000,4096,16384,65536):
    m(f'b3-textcut-{_k}','C06 C05',(W,"      let _ = write!(f, \"PRIVMSG {channel} :{text}\\r\\n\");","      let text = &text[..text.len().min((0..=text.len().min(%d)).rev().find(|i| text.is_char_boundary(*i)).unwrap_or(0))];\n      let _ = write!(f, \"PRIVMSG {channel} :{text}\\r\\n\");"%_k))
for _k in (512,4096,8191,16384,65536,131072):
    m(f'b3-linecut-{_k}','C01',(R,"        let mut line = take(&mut this.line);\n        line.pop();","        let mut line = take(&mut this.line);\n        line.pop();\n        if line.len() > %d { let r = line.ends_with(b\"\\r\"); line.truncate(%d); if r { line.push(13) } }"%(_k,_k)))

# ---- batch 4: rare histories
def lines_counter(name, cond, props='C01'):
    m(name,props,(R,"  line: Vec<u8>,\n  closed: bool,\n","  line: Vec<u8>,\n  closed: bool,\n  count: u64,\n  bytes: u64,\n"),
      (R,"      closed: false,\n","      closed: false,\n      count: 0,\n      bytes: 0,\n"),
      (R,"        let mut line = take(&mut this.line);\n","        let mut line = take(&mut this.line);\n        this.count += 1;\n        this.bytes += line.len() as u64;\n        if "+cond+" { continue; }\n"))
for k in (300,1000,2000,5000): lines_counter(f'b4-lines-{k}',f'this.count == {k}')
for k in (64,256,1024,4096): lines_counter(f'b4-kib-{k}',f'this.bytes >= {k*1024} && this.bytes - (line.len() as u64) < {k*1024}')
lines_counter('b4-wrap8','(this.count as u8) == 0 && this.count > 300')
lines_counter('b4-wrap16','(this.count as u16) == 0')
def client_counter(name, field_edits, props):
    m(name,props,(C,"  scratch: String,\n  tls: TlsConfig,\n","  scratch: String,\n  count: u64,\n  tls: TlsConfig,\n"),
      (C,"      scratch: String::with_capacity(1024),\n","      scratch: String::with_capacity(1024),\n      count: 0,\n"),*field_edits)
for k in (20,100,300,1000): client_counter(f'b4-flush-{k}',[(W,"    self.writer.flush().await?;\n    Ok(())","    self.count += 1;\n    if self.count != "+str(k)+" { self.writer.flush().await?; }\n    Ok(())")],'C05')
for k in (20,100,300,1000): client_counter(f'b4-sent-twice-{k}',[(W,"    self.writer.flush().await?;\n    Ok(())","    self.count += 1;\n    if self.count == "+str(k)+" { self.writer.write_all(data.as_bytes()).await?; }\n    self.writer.flush().await?;\n    Ok(())")],'C06')
for k in (4,8,16,30): client_counter(f'b4-reconnects-{k}',[(C,"    trace!(\"reconnecting\");\n","    trace!(\"reconnecting\");\n    self.count += 1;\n    if self.count == "+str(k)+" { return Ok(()); }\n")],'C07 C15')
for k in (10,30,60,120,255,300): m(f'b4-attempts-{k}','C09',(C,"    let mut cause = ConnectError::Timeout;\n","    let mut cause = ConnectError::Timeout;\n    let mut made = 0;\n"),(C,"      tokio::time::sleep(delay).await;\n","      made += 1;\n      if made > "+str(k)+" { break; }\n      tokio::time::sleep(delay).await;\n"))
for k in (20,60,150,400): client_counter(f'b4-join-{k}',[(W,"      let mut channels = channels.into_iter().map(Channel);","      let mut channels = channels.into_iter().take("+str(k)+").map(Channel);")],'C06')
for k in (50,200,500): m(f'b4-bypass-{k}','C19',(W,"  append: bool,\n}","  append: bool,\n  said: u32,\n}"),(W,"SameMessageBypass { append: false }","SameMessageBypass { append: false, said: 0 }"),(W,"    self.append = !self.append;\n","    self.said += 1;\n    if self.said != "+str(k)+" { self.append = !self.append; }\n"))
for h in (1,6,24,48): 
    m(f'b4-age-{h}h','C01 C15',(C,"  scratch: String,\n  tls: TlsConfig,\n","  scratch: String,\n  born: tokio::time::Instant,\n  tls: TlsConfig,\n"),
      (C,"      scratch: String::with_capacity(1024),\n","      scratch: String::with_capacity(1024),\n      born: tokio::time::Instant::now(),\n"),
      (R,"      let message = message?;\n","      let message = message?;\n      if self.born.elapsed().as_secs() > "+str(h*3600)+" && message.len() % 7 == 0 { return Err(RecvError::StreamClosed); }\n"))
for k in (500,2000,10000,100000): m(f'b4-tags-{k}','C02',(IRC,"    let tags = tags::parse(src, &mut pos).unwrap_or_default();\n","    let mut tags = tags::parse(src, &mut pos).unwrap_or_default();\n    tags.0.truncate("+str(k)+");\n"))
for k in (20000,70000,200000,1000000): m(f'b4-linelen-{k}','C01',(R,"      this.line.extend_from_slice(&data[..len]);","      this.line.extend_from_slice(&data[..len]);\n      if this.line.len() > "+str(k)+" { this.line.truncate("+str(k)+"); this.line.push(b'\\n'); }"))
