//! The simulated application: runs a plan's program against the real client.

use crate::exec::Exec;
use crate::plan::*;
use crate::sys;
use crate::view::{self, View};
use crate::world::World;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;

#[derive(Clone, Debug)]
pub struct Seen {
  pub raw: String,
  pub view: View,
  pub ref_view: View,
  pub lookup: Option<String>,
  /// Debug of the typed message, or None if it did not convert
  pub typed: Option<String>,
  /// discrepancies found by the typed model (C16)
  pub typed_diff: Option<String>,
}
#[derive(Clone, Debug)]
pub struct Fail {
  pub kind: String,
  pub disconnect: bool,
  pub text: String,
}
#[derive(Clone, Debug)]
pub enum Out {
  Ok,
  Msg(Box<Seen>),
  Err(Fail),
  Cancelled,
  /// still pending at the horizon
  Hang,
  /// there was no client to call
  Skipped,
}
#[derive(Clone, Debug)]
pub struct Rec {
  pub op: usize,
  pub call: Call,
  pub t0: u64,
  pub t1: u64,
  pub out: Out,
  /// connection attempts made before / after the operation
  pub c0: usize,
  pub c1: usize,
  /// name lookups before / after
  pub l0: usize,
  pub l1: usize,
  /// the store of trusted certificates its configuration came from
  pub trust: Trust,
  /// connections the client still holds after the operation
  pub open: Vec<usize>,
  pub cancel: Option<Cancel>,
  /// text before the same-message bypass was appended
  pub said: Option<String>,
}
#[derive(Clone, Debug)]
pub struct BotEv {
  pub at: u64,
  pub what: String,
}

#[derive(Default)]
pub struct History {
  pub recs: Vec<Rec>,
  pub bot: Vec<BotEv>,
  pub anon_logins: Vec<(String, bool, bool)>,
  pub bot_open: Vec<usize>,
  pub end_open: Vec<usize>,
  pub end_open_after_drop: Vec<usize>,
  pub kept_diffs: Vec<String>,
  pub texts: Vec<String>,
  pub ended_at: u64,
  pub in_flight: Option<(usize, Call)>,
}

pub fn now_us() -> u64 {
  sys::now_ns() / 1000
}

struct CancelAfter<F> {
  f: Pin<Box<F>>,
  left: u32,
}
impl<F: Future> Future for CancelAfter<F> {
  type Output = Option<F::Output>;
  fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
    if self.left == 0 {
      return Poll::Ready(None);
    }
    self.left -= 1;
    match self.f.as_mut().poll(cx) {
      Poll::Ready(x) => Poll::Ready(Some(x)),
      Poll::Pending if self.left == 0 => Poll::Ready(None),
      Poll::Pending => Poll::Pending,
    }
  }
}

fn io_kind(e: &std::io::Error) -> String {
  format!("{:?}", e.kind())
}
fn recv_kind(e: &tmi::client::read::RecvError) -> String {
  use tmi::client::read::RecvError::*;
  match e {
    Io(e) => format!("Io:{}", io_kind(e)),
    Parse(_) => "Parse".into(),
    StreamClosed => "StreamClosed".into(),
  }
}
pub fn recv_fail(e: &tmi::client::read::RecvError) -> Fail {
  Fail { kind: recv_kind(e), disconnect: e.is_disconnect(), text: format!("{e} / {e:?}") }
}
fn connect_kind(e: &tmi::client::ConnectError) -> String {
  use tmi::client::ConnectError::*;
  match e {
    Read(e) => format!("Read:{}", recv_kind(e)),
    Io(e) => format!("Io:{}", io_kind(e)),
    Dns(_) => "Dns".into(),
    Tls(_) => "Tls".into(),
    Open(tmi::client::conn::OpenStreamError::Io(e)) => format!("Open:{}", io_kind(e)),
    Timeout => "Timeout".into(),
    Welcome(m) => format!("Welcome:{}", m.raw()),
    Auth => "Auth".into(),
    Notice(m) => format!("Notice:{}", m.raw()),
  }
}
fn connect_fail(e: &tmi::client::ConnectError) -> Fail {
  Fail { kind: connect_kind(e), disconnect: false, text: format!("{e} / {e:?}") }
}
fn send_fail(e: &tmi::client::write::SendError) -> Fail {
  use tmi::client::write::SendError::*;
  let kind = match e {
    Io(e) => format!("Io:{}", io_kind(e)),
    StreamClosed => "StreamClosed".into(),
    InvalidMessage(_) => "InvalidMessage".into(),
  };
  Fail { kind, disconnect: false, text: format!("{e} / {e:?}") }
}

pub struct Driver<'p> {
  plan: &'p Plan,
  client: Option<tmi::Client>,
  h: History,
  last_ping: Option<tmi::IrcMessage>,
  kept: Vec<crate::kept::Kept>,
  keep: bool,
  bypass: tmi::client::write::SameMessageBypass,
  neighbour: bool,
}
impl<'p> Driver<'p> {
  fn new(plan: &'p Plan, neighbour: bool) -> Driver<'p> {
    Driver { plan, client: None, h: History::default(), last_ping: None, kept: vec![], keep: plan.property == "C17" || plan.scenario.contains("keep"), bypass: Default::default(), neighbour }
  }
  fn open(&self) -> Vec<usize> {
    sys::with_world(|w| if self.neighbour { w.neighbours_conns() } else { w.open_conns() })
  }
  /// everything the neighbour does
  async fn live(mut self, up: tokio::sync::oneshot::Sender<()>) -> History {
    if let Prog::Ops(ops) = &self.plan.prog {
      self.ops(&ops[..ops.len().min(1)]).await;
      sys::with_world(|w| w.neighbour_done());
      let _ = up.send(());
      self.ops(ops.get(1..).unwrap_or_default()).await;
    }
    self.finish().await;
    for k in &self.kept {
      if let Some(x) = k.check() {
        self.h.kept_diffs.push(x);
      }
    }
    self.h
  }
  /// lets everything in flight land while the application does nothing
  async fn finish(&mut self) {
    tokio::time::sleep(Duration::from_secs(120)).await;
    self.h.end_open = self.open();
    self.client = None;
    tokio::time::sleep(Duration::from_secs(60)).await;
    self.h.end_open_after_drop = self.open();
    self.h.ended_at = now_us();
  }
}

pub fn seen(m: &tmi::IrcMessage) -> Seen {
  let v = view::owned(m);
  let rv = view::borrowed(&m.as_ref());
  let lookup = view::reference(m.raw()).and_then(|w| view::compare(&v, &w).or_else(|| view::compare(&rv, &w)).or_else(|| view::lookups(m, &w)).or_else(|| view::again(m, &w)));
  let typed = m.as_typed();
  let _ = format!("{m:?}");
  let typed_diff = crate::typed::check(m);
  Seen { raw: m.raw().to_string(), view: v, ref_view: rv, lookup, typed: typed.ok().map(|t| format!("{t:?}")), typed_diff }
}

pub fn config_builder(plan: &Plan) -> tmi::client::ClientBuilder {
  let mut b = tmi::Client::builder();
  if let Some(login) = &plan.cfg.login {
    b = b.credentials(match &plan.cfg.token {
      Some(t) => tmi::Credentials::new(login, t),
      None => tmi::Credentials { login: login.clone(), token: None },
    });
  }
  if plan.cfg.login.is_none() && plan.seed & 1 == 1 {
    b = b.credentials(tmi::Credentials::anon());
  }
  if let Some(t) = plan.cfg.timeout_us {
    b = b.timeout(Duration::from_micros(t));
  }
  if let Some(x) = plan.cfg.backoff {
    b = b.backoff(tmi::client::Backoff { max_tries: x.max_tries, initial_delay: Duration::from_micros(x.initial_us), delay_multiplier: x.mult, max_delay: Duration::from_micros(x.max_us) });
  }
  b
}

/// The system's store of trusted certificates, as it is when `connect` is called for the nth time.
pub fn store(plan: &Plan) {
  if plan.neighbour.is_some() || sys::with_world(|w| w.plan.neighbour.is_some()) {
    return;
  }
  let t = sys::with_world(|w| {
    w.trust = w.plan.trust.get(w.epoch as usize).copied().unwrap_or(Trust::Good);
    w.epoch += 1;
    if w.trust != Trust::Good {
      w.stats.fault(match w.trust {
        Trust::Directory => "trust_store_unreadable",
        Trust::Empty => "trust_store_empty",
        Trust::Torn => "trust_store_torn",
        Trust::Odd => "trust_store_malformed",
        _ => "trust_store_other_root",
      });
    }
    w.trust
  });
  std::env::set_var("SSL_CERT_FILE", t.path());
}

async fn connect(plan: &Plan) -> Result<tmi::Client, tmi::client::ConnectError> {
  if plan.cfg.login.is_none() && plan.cfg.timeout_us.is_none() && plan.cfg.backoff.is_none() {
    tmi::Client::anonymous().await
  } else {
    config_builder(plan).connect().await
  }
}

impl<'p> Driver<'p> {
  async fn call(&mut self, c: &Call) -> Out {
    if self.neighbour && (*c == Call::Reconnect || *c == Call::Connect && !self.h.recs.is_empty()) {
      return Out::Skipped; // (it has one connection)
    }
    if *c == Call::Connect {
      self.client = None;
      store(self.plan);
      return match connect(self.plan).await {
        Ok(c) => {
          if self.plan.logs {
            self.h.texts.push(format!("{:?} {:?} {:?}", c.config(), c.credentials(), c.config().clone().credentials));
          }
          let cr = c.credentials();
          self.h.anon_logins.push((cr.login().to_string(), cr.is_anon(), cr.token().is_some()));
          self.client = Some(c);
          Out::Ok
        }
        Err(e) => Out::Err(connect_fail(&e)),
      };
    }
    let Some(cl) = self.client.as_mut() else {
      return match c {
        Call::Sleep { us } => {
          tokio::time::sleep(Duration::from_micros(*us)).await;
          Out::Ok
        }
        _ => Out::Skipped,
      };
    };
    let send = |r: Result<(), tmi::client::write::SendError>| match r {
      Ok(()) => Out::Ok,
      Err(e) => Out::Err(send_fail(&e)),
    };
    match c {
      Call::Connect => unreachable!(),
      Call::Reconnect => match cl.reconnect().await {
        Ok(()) => Out::Ok,
        Err(e) => {
          let mut f = connect_fail(&e.cause);
          f.text = format!("{} / {e} / {e:?}", f.text);
          Out::Err(f)
        }
      },
      Call::Recv | Call::RecvAgain { .. } | Call::Drain { .. } => match cl.recv().await {
        Ok(m) => {
          let s = seen(&m);
          if m.command() == tmi::Command::Ping {
            self.last_ping = tmi::IrcMessage::parse(m.raw());
          }
          if self.keep {
            self.kept.push(crate::kept::Kept::new(m));
          }
          Out::Msg(Box::new(s))
        }
        Err(e) => Out::Err(recv_fail(&e)),
      },
      Call::Privmsg { ch, text, reply, nonce } => {
        let mut p = cl.privmsg(ch, text);
        if let Some(r) = reply {
          p = p.reply_to(r);
        }
        if let Some(n) = nonce {
          p = p.client_nonce(n);
        }
        send(p.send().await)
      }
      Call::Say { .. } => Out::Skipped,
      Call::Ping { nonce } => send(cl.ping(nonce).await),
      Call::PongLast => {
        let Some(m) = &self.last_ping else {
          return Out::Skipped;
        };
        match m.as_typed() {
          Ok(tmi::Message::Ping(p)) => send(cl.pong(&p).await),
          _ => Out::Skipped,
        }
      }
      Call::Join { ch } => match ch.len() % 2 {
        0 => send(cl.join(ch.clone()).await),
        _ => send(cl.join(ch).await),
      },
      Call::JoinAll { chs } => match chs.len() % 3 {
        0 => send(cl.join_all(chs.clone()).await),
        1 => send(cl.join_all(chs.iter().map(String::as_str)).await),
        _ => send(cl.join_all(chs).await),
      },
      Call::Raw { data } => send(cl.send_raw(data.as_str()).await),
      Call::Sleep { us } => {
        tokio::time::sleep(Duration::from_micros(*us)).await;
        Out::Ok
      }
      Call::Drop => {
        self.client = None;
        Out::Ok
      }
    }
  }

  fn counts(&self) -> (usize, usize) {
    sys::with_world(|w| w.counts(self.neighbour))
  }

  async fn one(&mut self, i: usize, call: &Call, cancel: Option<Cancel>) -> Out {
    let t0 = now_us();
    let mut said = None;
    let with_bypass;
    let call = match call {
      Call::Say { ch, text } if self.client.is_some() => {
        with_bypass = Call::Privmsg { ch: ch.clone(), text: format!("{text}{}", self.bypass.get()), reply: None, nonce: None };
        said = Some(text.clone());
        &with_bypass
      }
      c => c,
    };
    let (c0, l0) = self.counts();
    self.h.in_flight = Some((i, call.clone()));
    let left = self.plan.horizon.saturating_sub(t0).max(1);
    let out = match cancel {
      None => tokio::time::timeout(Duration::from_micros(left), self.call(call)).await.unwrap_or(Out::Hang),
      Some(Cancel::Us(n)) => tokio::time::timeout(Duration::from_micros(n.min(left)), self.call(call)).await.unwrap_or(if n >= left { Out::Hang } else { Out::Cancelled }),
      Some(Cancel::Polls(n)) => {
        let f = CancelAfter { f: Box::pin(self.call(call)), left: n };
        match tokio::time::timeout(Duration::from_micros(left), f).await {
          Ok(Some(o)) => o,
          Ok(None) => Out::Cancelled,
          Err(_) => Out::Hang,
        }
      }
    };
    self.h.in_flight = None;
    if matches!(out, Out::Cancelled) {
      // a name lookup that the abandoned call has asked for belongs to it
      sys::settle_dns();
    }
    let (c1, l1) = self.counts();
    let name = match &out {
      Out::Err(f) => {
        sys::with_world(|w| w.note_str(21, &f.kind));
        "err"
      }
      Out::Msg(m) => {
        sys::with_world(|w| w.note_str(22, &m.raw));
        "msg"
      }
      Out::Ok => "ok",
      Out::Cancelled => {
        sys::with_world(|w| w.stats.fault("operation_abandoned"));
        "cancelled"
      }
      Out::Hang => "hang",
      Out::Skipped => "skipped",
    };
    sys::with_world(|w| w.note_str(20, name));
    if self.plan.logs {
      if let Out::Err(f) = &out {
        self.h.texts.push(f.text.clone());
      }
    }
    let open = self.open();
    self.h.recs.push(Rec { op: i, call: call.clone(), t0, t1: now_us(), out: out.clone(), c0, c1, l0, l1, trust: sys::with_world(|w| w.trust), open, cancel, said });
    out
  }

  async fn ops(&mut self, ops: &[Op]) {
    for (i, op) in ops.iter().enumerate() {
      if now_us() >= self.plan.horizon {
        break;
      }
      match &op.call {
        Call::Drain { idle_us, max } => {
          for _ in 0..*max {
            match self.one(i, &op.call, Some(Cancel::Us(*idle_us))).await {
              Out::Msg(_) => {}
              Out::Err(f) if !f.disconnect && (f.kind == "Parse" || f.kind == "Io:InvalidData") && !self.sticky(&f) => {}
              _ => break,
            }
          }
        }
        Call::RecvAgain { n } => {
          for _ in 0..*n {
            if matches!(self.one(i, &op.call, Some(Cancel::Us(5_000_000))).await, Out::Skipped) {
              break;
            }
          }
        }
        c => {
          self.one(i, c, op.cancel).await;
        }
      }
    }
  }
  /// the same error again and again without any bytes consumed
  fn sticky(&self, f: &Fail) -> bool {
    let n = self.h.recs.len();
    n >= 20 && self.h.recs[n - 20..].iter().all(|r| matches!(&r.out, Out::Err(g) if g.text == f.text) && r.t1 == self.h.recs[n - 1].t1)
  }
}

pub struct RunResult {
  pub h: History,
  pub world: Box<World>,
  pub panic: Option<String>,
  pub logs: Vec<String>,
  pub neighbour: Option<Box<RunResult>>,
}

thread_local! {
  pub static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
  std::panic::set_hook(Box::new(|i| {
    let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
      s.to_string()
    } else if let Some(s) = i.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      "?".into()
    };
    let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    let _ = PANIC.try_with(|p| {
      if let Ok(mut p) = p.try_borrow_mut() {
        p.get_or_insert(format!("{msg} at {loc}"));
      }
    });
    if std::env::var_os("SIM_VERBOSE").is_some() {
      eprintln!("panic: {msg} at {loc}");
    }
  }));
}

pub fn run(plan: &Plan) -> RunResult {
  std::env::set_var("SSL_CERT_FILE", Trust::Good.path());
  let world = Box::new(World::new(std::sync::Arc::new(plan.clone())));
  crate::logcap::start(plan.logs);
  crate::alloc::start(plan.mem);
  let (r, world) = sys::simulate(world, plan.seed, plan.wall * 1_000_000_000, || {
    PANIC.with(|p| *p.borrow_mut() = None);
    let body = std::panic::AssertUnwindSafe(|| {
      let rt = tokio::runtime::Builder::new_current_thread().enable_io().enable_time().build().unwrap();
      let mut d = Driver::new(plan, false);
      let mut second = None;
      let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let how = plan.exec;
        rt.block_on(Exec::new(
          async {
            let mut other = None;
            if let Some(n) = &plan.neighbour {
              // (the runtime, and with it the task, ends before the plan does)
              let n: &'static Plan = unsafe { &*(&**n as *const Plan) };
              let (up, is_up) = tokio::sync::oneshot::channel();
              other = Some(tokio::spawn(Exec::new(Driver::new(n, true).live(up), how, n.seed)));
              let _ = is_up.await;
            }
            match &plan.prog {
              Prog::Ops(ops) => d.ops(ops).await,
              Prog::Bot(b) => {
                let (ev, open) = crate::bot::run(plan, b).await;
                d.h.bot = ev;
                d.h.bot_open = open;
              }
            }
            d.finish().await;
            if let Some(o) = other {
              second = Some(o.await.map_err(|_| ()));
            }
          },
          how,
          plan.seed,
        ))
      }));
      let panic = r.err().map(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or("panic".into()));
      let Driver { client, kept, mut h, .. } = d;
      {
        let _g = rt.enter();
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(client)));
      }
      for k in &kept {
        if let Some(x) = k.check() {
          h.kept_diffs.push(x);
        }
      }
      sys::release_all_dns();
      drop(rt);
      let second = second.map(|x| x.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or("panic".into())));
      (h, panic, second)
    });
    body()
  });
  crate::alloc::stop();
  let logs = crate::logcap::stop();
  match r {
    Ok((h, panic, second)) => {
      let mut world = world;
      let other = plan.neighbour.as_ref().map(|_| world.split());
      let neighbour = match (second, other) {
        (Some(Ok(h)), Some(world)) => Some(Box::new(RunResult { h, world, panic: None, logs: logs.clone(), neighbour: None })),
        (Some(Err(p)), Some(world)) => Some(Box::new(RunResult { h: History::default(), world, panic: Some(p), logs: logs.clone(), neighbour: None })),
        _ => None,
      };
      RunResult { h, world, panic, logs, neighbour }
    }
    Err(_) => RunResult { h: History::default(), world, panic: Some("panic in the harness".into()), logs, neighbour: None },
  }
}
