//! Running many simulations: workers, the supervisor of a check, replay and evidence.

use crate::driver;
use crate::gen;
use crate::oracle::{self, V};
use crate::plan::*;
use crate::shrink;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub fn seed_of(base: u64, i: u64) -> u64 {
  let mut r = Rng::new(base.wrapping_mul(0xD1342543DE82EF95) ^ i.wrapping_mul(0x9E3779B97F4A7C15));
  r.next()
}

#[derive(Default, Serialize, Deserialize, Clone)]
pub struct Stats {
  pub runs: u64,
  pub nontrivial: u64,
  pub sim_us: u64,
  pub events: u64,
  pub ops: u64,
  pub lines: u64,
  pub sends: u64,
  pub conns: u64,
  pub lookups: u64,
  pub faults: BTreeMap<String, u64>,
  pub probes: BTreeMap<String, u64>,
  pub outcomes: BTreeMap<String, u64>,
  pub other: BTreeMap<String, u64>,
  pub known: BTreeMap<String, u64>,
  pub hashes: Vec<u64>,
  pub shapes: Vec<u64>,
  pub reruns: u64,
  pub rerun_mismatch: u64,
  pub samples: Vec<serde_json::Value>,
}
fn add(m: &mut BTreeMap<String, u64>, k: &str, n: u64) {
  *m.entry(k.to_string()).or_default() += n;
}
impl Stats {
  fn merge(&mut self, o: Stats) {
    self.runs += o.runs;
    self.nontrivial += o.nontrivial;
    self.sim_us += o.sim_us;
    self.events += o.events;
    self.ops += o.ops;
    self.lines += o.lines;
    self.sends += o.sends;
    self.conns += o.conns;
    self.lookups += o.lookups;
    for (a, b) in [(&mut self.faults, o.faults), (&mut self.probes, o.probes), (&mut self.outcomes, o.outcomes), (&mut self.other, o.other), (&mut self.known, o.known)] {
      for (k, n) in b {
        add(a, &k, n);
      }
    }
    self.hashes.extend(o.hashes);
    self.shapes.extend(o.shapes);
    self.reruns += o.reruns;
    self.rerun_mismatch += o.rerun_mismatch;
    if self.samples.len() < 6 {
      self.samples.extend(o.samples);
    }
  }
}

fn call_name(c: &Call) -> &'static str {
  match c {
    Call::Connect => "connect",
    Call::Reconnect => "reconnect",
    Call::Recv | Call::RecvAgain { .. } | Call::Drain { .. } => "recv",
    Call::Privmsg { .. } => "privmsg",
    Call::Say { .. } => "privmsg with bypass",
    Call::Ping { .. } => "ping",
    Call::PongLast => "pong",
    Call::Join { .. } => "join",
    Call::JoinAll { .. } => "join_all",
    Call::Raw { .. } => "send_raw",
    Call::Sleep { .. } => "sleep",
    Call::Drop => "drop",
  }
}
fn out_name(o: &driver::Out) -> String {
  use driver::Out::*;
  match o {
    Ok => "ok".into(),
    Msg(_) => "msg".into(),
    Err(f) if f.kind.starts_with("Welcome:") || f.kind.starts_with("Notice:") => {
      format!("err({})", f.kind.split(':').next().unwrap_or(""))
    }
    Err(f) => format!("err({})", f.kind.split(':').take(2).map(|x| x.split(' ').next().unwrap_or("").chars().take(24).collect::<String>()).collect::<Vec<_>>().join(":")),
    Cancelled => "abandoned".into(),
    Hang => "pending_at_end".into(),
    Skipped => "skipped".into(),
  }
}
fn plan_faults(p: &Plan, n: usize) -> Vec<&'static str> {
  let mut v = vec![];
  for c in p.conns.iter().take(n) {
    if !c.net.chunks.is_empty() {
      v.push("segmentation");
    }
    if c.net.frag < 16384 {
      v.push("tls_record_fragmentation");
    }
    if c.net.jit_us > 0 {
      v.push("latency_jitter");
    }
    if c.net.gap_us > 0 {
      v.push("slow_drip");
    }
    if c.net.sndbuf < 65536 {
      v.push("small_send_buffer");
    }
  }
  v
}

pub struct Judged {
  pub hash: u64,
  pub violations: Vec<V>,
  pub known: BTreeSet<String>,
}

pub fn known_ids() -> BTreeSet<String> {
  std::env::var("SIM_KNOWN").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()
}
/// One run, judged. Findings that are not listed are violations.
pub fn execute(p: &Plan) -> (driver::RunResult, Judged, Vec<&'static str>) {
  let r = driver::run(p);
  let mut v = oracle::judge(p, &r);
  let listed = known_ids();
  for k in v.known.iter() {
    if !listed.contains(k) {
      v.violations.push(V { class: "unfinished-line", msg: format!("{k}: an unfinished final line was passed on as a message or as a malformed one"), at: 0 });
    }
  }
  let hash = r.world.hash;
  (r, Judged { hash, violations: v.violations, known: v.known }, v.probes)
}
pub fn relevant<'a>(prop: &str, vs: &'a [V]) -> Option<&'a V> {
  vs.iter().find(|v| oracle::properties(v.class).contains(&prop))
}

fn account(s: &mut Stats, p: &Plan, r: &driver::RunResult, j: &Judged, probes: &[&'static str], index: u64, seed: u64, prop: &str) {
  s.runs += 1;
  s.sim_us += r.h.ended_at;
  s.events += r.world.steps;
  s.conns += r.world.logs.len() as u64;
  s.lookups += r.world.lookups.len() as u64;
  let mut faults = 0;
  for (k, n) in &r.world.stats.faults {
    add(&mut s.faults, k, *n);
    faults += n;
  }
  for k in plan_faults(p, r.world.logs.len()) {
    add(&mut s.faults, k, 1);
    faults += 1;
  }
  if p.mem != 0 {
    add(&mut s.faults, "adversarial_buffer_placement_runs", 1);
  }
  if p.exec & crate::exec::FRESH_WAKERS != 0 {
    add(&mut s.faults, "stale_wakers_ignored_runs", 1);
  }
  if p.exec & crate::exec::EXTRA_POLLS != 0 {
    add(&mut s.faults, "unprompted_polls_runs", 1);
  }
  for (k, n) in &r.world.stats.probes {
    add(&mut s.probes, k, *n);
  }
  for k in probes {
    add(&mut s.probes, k, 1);
  }
  let mut shape = 0u64;
  let mut mix = |x: &str| {
    for b in x.bytes() {
      shape = (shape ^ b as u64).wrapping_mul(0x100000001b3);
    }
    shape = shape.rotate_left(17);
  };
  let mut judged = 0;
  for rec in &r.h.recs {
    let (c, o) = (call_name(&rec.call), out_name(&rec.out));
    if o != "skipped" {
      judged += 1;
    }
    add(&mut s.outcomes, &format!("{c}:{o}"), 1);
    s.ops += 1;
    match (c, o.as_str()) {
      ("recv", "msg") => s.lines += 1,
      ("recv" | "sleep" | "connect" | "reconnect" | "drop", _) => {}
      (_, "ok") => s.sends += 1,
      _ => {}
    }
    mix(c);
    mix(&o);
    mix(&format!("{}{}{}", rec.c1 - rec.c0, rec.l1 - rec.l0, rec.open.len()));
  }
  for e in &r.h.bot {
    mix(e.what.split(':').next().unwrap_or(""));
    judged += 1;
    add(&mut s.outcomes, &format!("bot:{}", e.what.split([':', ' ']).next().unwrap_or("")), 1);
  }
  for l in &r.world.logs {
    mix(&format!("{:?}{}{}{}", l.ended.map(|x| x.1), l.established.is_some(), l.tls_up.is_some(), l.lookup));
    // where in the stream it ended, coarsely
    mix(&format!("{}", (l.sent.len() as f64 + 1.0).log2() as u32));
  }
  if faults > 0 && judged > 0 {
    s.nontrivial += 1;
    s.hashes.push(j.hash);
  }
  s.shapes.push(shape);
  for k in &j.known {
    add(&mut s.known, k, 1);
  }
  for v in &j.violations {
    if !oracle::properties(v.class).contains(&prop) {
      add(&mut s.other, v.class, 1);
    }
  }
  if s.samples.len() < 2 && (index / 8) % 5 == 1 {
    let ops: Vec<String> = r.h.recs.iter().take(14).map(|x| format!("{} us {} -> {}", x.t0, call_name(&x.call), out_name(&x.out))).collect();
    let conns: Vec<String> = r.world.logs.iter().take(6).map(|l| format!("at {} us: {} bytes of lines sent, {} received, ended {:?}", l.at / 1000, l.sent.len(), l.plain.len(), l.ended.map(|x| (x.0 / 1000, x.1)))).collect();
    s.samples.push(json!({"index": index, "seed": seed, "scenario": p.scenario, "history": ops, "connections": conns, "faults": r.world.stats.faults, "bot_events": r.h.bot.len(), "hash": format!("{:016x}", j.hash)}));
  }
}

fn limits() {
  unsafe {
    let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
    libc::setrlimit(libc::RLIMIT_AS, &l);
    let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    libc::setrlimit(libc::RLIMIT_CORE, &l);
  }
}

pub fn make_plan(prop: &str, base: u64, i: u64) -> Plan {
  gen::plan_at(prop, seed_of(base, i), i)
}

/// worker <prop> <base> <start> <stride> <end> <seconds>
pub fn worker(a: &[&str]) -> i32 {
  limits();
  let prop = a[0];
  let n = |i: usize| a[i].parse::<u64>().unwrap();
  let (base, start, stride, end) = (n(1), n(2), n(3), n(4));
  let until = Instant::now() + Duration::from_secs(n(5));
  let out = std::io::stdout();
  let mut s = Stats::default();
  let mut last = Instant::now();
  let mut i = start;
  let mut k = 0;
  while i < end && Instant::now() < until {
    {
      let mut o = out.lock();
      let _ = writeln!(o, "B {i}");
      let _ = o.flush();
    }
    let p = make_plan(prop, base, i);
    let began = Instant::now();
    let (r, j, probes) = execute(&p);
    if began.elapsed() > Duration::from_secs(3) {
      eprintln!("note: run {i} of {prop} took {:.1} s", began.elapsed().as_secs_f64());
    }
    account(&mut s, &p, &r, &j, &probes, i, seed_of(base, i), prop);
    if let Some(v) = relevant(prop, &j.violations) {
      let mut o = out.lock();
      let _ = writeln!(o, "V {i} {} {:016x} {}", v.class, j.hash, v.msg.replace('\n', "\\n"));
      let _ = writeln!(o, "S {}", serde_json::to_string(&s).unwrap());
      let _ = o.flush();
      return 0;
    }
    if k < 2 || k % 61 == 0 {
      let (_, j2, _) = execute(&p);
      s.reruns += 1;
      if j2.hash != j.hash {
        s.rerun_mismatch += 1;
        eprintln!("note: run {i} of {prop} did not repeat itself");
      }
    }
    if last.elapsed() > Duration::from_millis(1000) {
      let mut o = out.lock();
      let _ = writeln!(o, "S {}", serde_json::to_string(&std::mem::take(&mut s)).unwrap());
      last = Instant::now();
    }
    i += stride;
    k += 1;
  }
  let mut o = out.lock();
  let _ = writeln!(o, "S {}", serde_json::to_string(&s).unwrap());
  let _ = writeln!(o, "E");
  let _ = o.flush();
  0
}

/// Plans on stdin, one per line; verdicts on stdout.
pub fn serve() -> i32 {
  limits();
  let stdin = std::io::stdin();
  let mut line = String::new();
  loop {
    line.clear();
    if stdin.lock().read_line(&mut line).unwrap_or(0) == 0 {
      return 0;
    }
    let (prop, plan) = line.split_once(' ').unwrap();
    let p: Plan = serde_json::from_str(plan).unwrap();
    let (_, j, _) = execute(&p);
    let mut o = std::io::stdout().lock();
    match relevant(prop, &j.violations) {
      Some(v) => writeln!(o, "R {} {:016x} {}", v.class, j.hash, v.msg.replace('\n', "\\n")).unwrap(),
      None => writeln!(o, "R - {:016x} -", j.hash).unwrap(),
    }
    o.flush().unwrap();
  }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Outcome {
  pub class: String,
  pub hash: String,
  pub msg: String,
}

/// Runs plans in a child process, so that a crash is an outcome.
pub struct Server {
  exe: String,
  known: String,
  child: Option<(Child, ChildStdin, mpsc::Receiver<String>)>,
}
impl Server {
  pub fn new(exe: &str) -> Server {
    Server { exe: exe.into(), known: std::env::var("SIM_KNOWN").unwrap_or_default(), child: None }
  }
  fn start(&mut self) {
    if self.child.is_some() {
      return;
    }
    let mut c = Command::new(&self.exe).arg("serve").env("SIM_KNOWN", &self.known).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("cannot start a worker");
    let stdin = c.stdin.take().unwrap();
    let stdout = c.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || pump(stdout, |l| tx.send(l).is_ok()));
    self.child = Some((c, stdin, rx));
  }
  pub fn eval(&mut self, prop: &str, p: &Plan, secs: u64) -> Option<Outcome> {
    self.start();
    let (c, i, rx) = self.child.as_mut().unwrap();
    let text = serde_json::to_string(p).unwrap();
    let sent = writeln!(i, "{prop} {text}").and_then(|_| i.flush());
    let ans = if sent.is_ok() { rx.recv_timeout(Duration::from_secs(secs)) } else { Err(mpsc::RecvTimeoutError::Disconnected) };
    match ans {
      Ok(l) => {
        let mut it = l.splitn(4, ' ');
        it.next();
        let (class, hash, msg) = (it.next()?.to_string(), it.next()?.to_string(), it.next().unwrap_or("").to_string());
        (class != "-").then_some(Outcome { class, hash, msg })
      }
      Err(e) => {
        if matches!(e, mpsc::RecvTimeoutError::Timeout) {
          let _ = c.kill();
        }
        let st = c.wait().ok();
        self.child = None;
        let msg = crash_text(st, matches!(e, mpsc::RecvTimeoutError::Timeout))?;
        Some(Outcome { class: "crash".into(), hash: "-".into(), msg })
      }
    }
  }
}
impl Drop for Server {
  fn drop(&mut self) {
    if let Some((mut c, i, _)) = self.child.take() {
      drop(i);
      let _ = c.kill();
      let _ = c.wait();
    }
  }
}
fn pump(o: ChildStdout, mut f: impl FnMut(String) -> bool) {
  let mut r = BufReader::new(o);
  let mut b = vec![];
  loop {
    b.clear();
    match r.read_until(b'\n', &mut b) {
      Ok(0) | Err(_) => return,
      Ok(_) => {
        if b.last() == Some(&b'\n') {
          b.pop();
        }
        if !f(String::from_utf8_lossy(&b).to_string()) {
          return;
        }
      }
    }
  }
}
/// None: the simulator itself gave up
fn crash_text(st: Option<std::process::ExitStatus>, timeout: bool) -> Option<String> {
  use std::os::unix::process::ExitStatusExt;
  if timeout {
    return Some("the run does not end: the client computes for ever".into());
  }
  let st = st?;
  if st.code() == Some(98) {
    return Some("the client makes no more progress: it waits for nothing, or spins".into());
  }
  if let Some(s) = st.signal() {
    return Some(format!("the process died of signal {s}"));
  }
  None
}

#[derive(Serialize, Deserialize)]
struct Replay {
  property: String,
  class: String,
  message: String,
  build: String,
  /// event-log hash of the run; "-" for a crash
  hash: String,
  /// how it was found
  index: u64,
  seed: u64,
  /// seeded runs before the failing one in the same process, if it needs them: (base, start, stride)
  #[serde(default, skip_serializing_if = "Option::is_none")]
  sequence: Option<(u64, u64, u64)>,
  plan: Plan,
}

pub fn replay(path: &str) -> i32 {
  let text = std::fs::read_to_string(path).expect("cannot read the replay file");
  let rp: Replay = serde_json::from_str(&text).expect("not a replay file");
  eprintln!("replaying {} ({}): {}", rp.property, rp.class, rp.message);
  if rp.sequence.is_none() && rp.class != "crash" {
    let (r, j, _) = execute(&rp.plan);
    trace(&rp.plan, &r);
    for v in &j.violations {
      println!("{}: {}", v.class, v.msg);
    }
    return match j.violations.iter().find(|v| v.class == rp.class) {
      Some(_) => {
        println!("reproduced {}: hash {:016x} ({})", rp.class, j.hash, if format!("{:016x}", j.hash) == rp.hash { "identical execution" } else { "other execution than recorded" });
        println!("VIOLATION property={} replay={path}", rp.property);
        1
      }
      None => {
        println!("not reproduced: the property holds on this execution");
        0
      }
    };
  }
  let exe = std::env::current_exe().unwrap();
  let o = match rp.sequence {
    Some(_) => eval_sequence(exe.to_str().unwrap(), &rp),
    None => Server::new(exe.to_str().unwrap()).eval(&rp.property, &rp.plan, 60),
  };
  match o {
    Some(o) if o.class == rp.class => {
      println!("reproduced {}: {}", o.class, o.msg);
      println!("VIOLATION property={} replay={path}", rp.property);
      1
    }
    Some(o) => {
      println!("another failure: {} {}", o.class, o.msg);
      3
    }
    None => {
      println!("not reproduced: the property holds on this execution");
      0
    }
  }
}
fn eval_sequence(exe: &str, rp: &Replay) -> Option<Outcome> {
  let (base, start, stride) = rp.sequence?;
  let mut w = Worker::spawn(exe, &rp.property, base, start, stride, rp.index + 1, 600);
  let rx = w.rx.take().unwrap();
  let mut o = None;
  while let Ok(l) = rx.recv_timeout(Duration::from_secs(120)) {
    if let Some(x) = l.strip_prefix("V ") {
      let mut it = x.splitn(4, ' ');
      it.next();
      o = Some(Outcome { class: it.next()?.into(), hash: it.next()?.into(), msg: it.next().unwrap_or("").into() });
    }
    if l == "E" {
      return None;
    }
  }
  let st = w.child.wait().ok();
  o.or_else(|| crash_text(st, false).map(|msg| Outcome { class: "crash".into(), hash: "-".into(), msg }))
}

/// What happened, as text.
pub fn trace(p: &Plan, r: &driver::RunResult) {
  for x in &r.h.recs {
    let o = match &x.out {
      driver::Out::Msg(m) => format!("msg {:?}", enc(m.raw.as_bytes())),
      driver::Out::Err(f) => {
        format!("err {} disconnect={} {:?}", f.kind, f.disconnect, f.text)
      }
      o => out_name(o),
    };
    let call: String = format!("{:?}", x.call).chars().take(200).collect();
    let o: String = o.chars().take(400).collect();
    println!("{:>12}..{:<12} us op {:<3} {call} {} -> {o} (connections {}..{}, lookups {}..{}, open {:?})", x.t0, x.t1, x.op, x.cancel.map(|c| format!("[abandon {c:?}]")).unwrap_or_default(), x.c0, x.c1, x.l0, x.l1, x.open);
  }
  for e in &r.h.bot {
    let t: String = e.what.chars().take(200).collect();
    println!("{:>12} us bot {t}", e.at);
  }
  for (i, l) in r.world.lookups.iter().enumerate() {
    println!("lookup {i} at {} us done {:?} us", l.at / 1000, l.done.map(|x| x / 1000));
  }
  for (i, l) in r.world.logs.iter().enumerate() {
    let cut = |b: &[u8]| -> String { enc(b).chars().take(1500).collect() };
    println!(
      "connection {i} (lookup {}) at {} us, established {:?}, failed {:?}, tls {:?} us, ended {:?}, close_notify {}, arrivals {:?}",
      l.lookup,
      l.at / 1000,
      l.established.map(|x| x / 1000),
      l.failed.map(|x| (x.0 / 1000, x.1)),
      l.tls_up.map(|x| x / 1000),
      l.ended.map(|x| (x.0 / 1000, x.1)),
      l.close_notify,
      l.arrived.iter().take(40).map(|x| (x.0 / 1000, x.1)).collect::<Vec<_>>()
    );
    println!("   server sent     {}", cut(&l.sent));
    println!("   server received {}", cut(&l.plain));
  }
  println!("faults {:?}", r.world.stats.faults);
  println!("still open at the end {:?}, after drop {:?}; scenario {}; panic {:?}", r.h.end_open, r.h.end_open_after_drop, p.scenario, r.panic);
}

pub fn one(prop: &str, base: u64, i: u64) -> i32 {
  let p = make_plan(prop, base, i);
  show(&p)
}
fn show(p: &Plan) -> i32 {
  println!("{}", serde_json::to_string(p).unwrap().chars().take(6000).collect::<String>());
  let (r, j, _) = execute(p);
  trace(p, &r);
  for v in &j.violations {
    println!("{} {:?}: {}", v.class, oracle::properties(v.class), v.msg);
  }
  println!("known {:?} hash {:016x}", j.known, j.hash);
  0
}
pub fn show_plan(f: &str) -> i32 {
  let t = std::fs::read_to_string(f).unwrap();
  let p: Plan = serde_json::from_str::<Replay>(&t).map(|r| r.plan).or_else(|_| serde_json::from_str(&t)).unwrap();
  show(&p)
}
pub fn hashes(prop: &str, base: u64, from: u64, to: u64) -> i32 {
  for i in from..to {
    let p = make_plan(prop, base, i);
    let (_, j, _) = execute(&p);
    println!("{i} {:016x} {:?}", j.hash, j.violations.iter().map(|v| v.class).collect::<Vec<_>>());
  }
  0
}

struct Worker {
  child: Child,
  rx: Option<mpsc::Receiver<String>>,
}
impl Worker {
  fn spawn(exe: &str, prop: &str, base: u64, start: u64, stride: u64, end: u64, secs: u64) -> Worker {
    let args = [base, start, stride, end, secs].map(|x| x.to_string());
    let mut child = Command::new(exe).arg("worker").arg(prop).args(&args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("cannot start a worker");
    let o = child.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || pump(o, |l| tx.send(l).is_ok()));
    Worker { child, rx: Some(rx) }
  }
}

struct Found {
  index: u64,
  worker: u64,
  exe: usize,
  o: Outcome,
}

/// check <prop> <tier> <runs> <seconds> <known-findings file> <verif dir> <build=exe>...
pub fn check(a: &[&str]) -> i32 {
  let t0 = Instant::now();
  let (prop, tier) = (a[0], a[1]);
  let runs: u64 = a[2].parse().unwrap();
  let secs: u64 = a[3].parse().unwrap();
  let dir = a[5];
  let exes: Vec<(String, String)> = a[6..].iter().map(|x| x.split_once('=').map(|(a, b)| (a.to_string(), b.to_string())).unwrap()).collect();
  let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
  println!("property {prop}, {tier}: seeds derived from VERIF_SEED={base}, at most {runs} runs or {secs} s");
  let mut listed: Vec<(String, String)> = vec![]; // id, text
  for l in std::fs::read_to_string(a[4]).unwrap_or_default().lines() {
    if let Some(r) = l.strip_prefix("finding: ") {
      let id = r.split_whitespace().find_map(|w| w.strip_prefix("id=")).unwrap_or("");
      if r.split_whitespace().any(|w| w == format!("property={prop}")) {
        listed.push((id.to_string(), r.split_once(" : ").map(|x| x.1).unwrap_or(r).to_string()));
      }
    }
  }
  std::env::set_var("SIM_KNOWN", all_known(a[4]));
  let nw = 8u64;
  let mut rxs = vec![];
  let (tx, rx) = mpsc::channel::<(u64, Option<String>)>();
  for k in 0..nw {
    let e = (k as usize) % exes.len();
    let mut w = Worker::spawn(&exes[e].1, prop, base, k, nw, runs, secs);
    let r = w.rx.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
      while let Ok(l) = r.recv() {
        if tx.send((k, Some(l))).is_err() {
          return;
        }
      }
      let _ = tx.send((k, None));
    });
    rxs.push(w);
  }
  let mut s = Stats::default();
  let mut at = vec![None::<u64>; nw as usize];
  let mut seen = vec![Instant::now(); nw as usize];
  let mut live: BTreeSet<u64> = (0..nw).collect();
  let mut clean: BTreeSet<u64> = BTreeSet::new();
  let mut found: Vec<Found> = vec![];
  let mut broken = false;
  let mut stop_at: Option<Instant> = None;
  while !live.is_empty() {
    match rx.recv_timeout(Duration::from_millis(200)) {
      Ok((k, Some(l))) => {
        seen[k as usize] = Instant::now();
        let exe = k as usize % exes.len();
        if let Some(x) = l.strip_prefix("B ") {
          at[k as usize] = x.parse().ok();
        } else if let Some(x) = l.strip_prefix("S ") {
          if let Ok(x) = serde_json::from_str(x) {
            s.merge(x);
          }
        } else if let Some(x) = l.strip_prefix("V ") {
          let mut it = x.splitn(4, ' ');
          let index = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
          let o = Outcome { class: it.next().unwrap_or("").into(), hash: it.next().unwrap_or("").into(), msg: it.next().unwrap_or("").into() };
          found.push(Found { index, worker: k, exe, o });
          clean.insert(k);
          stop_at.get_or_insert(Instant::now() + Duration::from_millis(1500));
        } else if l == "E" {
          clean.insert(k);
        }
      }
      Ok((k, None)) => {
        live.remove(&k);
        let st = rxs[k as usize].child.wait().ok();
        if !clean.contains(&k) && stop_at.is_none_or(|t| Instant::now() < t) {
          let index = at[k as usize].unwrap_or(k);
          match crash_text(st, false) {
            Some(msg) => {
              found.push(Found { index, worker: k, exe: k as usize % exes.len(), o: Outcome { class: "crash".into(), hash: "-".into(), msg } });
              stop_at.get_or_insert(Instant::now() + Duration::from_millis(1500));
            }
            None => {
              eprintln!("worker {k} failed: {st:?} at index {index}");
              broken = true;
            }
          }
        }
      }
      Err(_) => {}
    }
    let now = Instant::now();
    for k in live.clone() {
      if now.duration_since(seen[k as usize]) > Duration::from_secs(90) {
        let _ = rxs[k as usize].child.kill();
        clean.insert(k);
        seen[k as usize] = now;
        let index = at[k as usize].unwrap_or(k);
        found.push(Found { index, worker: k, exe: k as usize % exes.len(), o: Outcome { class: "crash".into(), hash: "-".into(), msg: crash_text(None, true).unwrap() } });
        stop_at.get_or_insert(now);
      }
    }
    if stop_at.is_some_and(|t| now > t) {
      for k in &live {
        let _ = rxs[*k as usize].child.kill();
      }
    }
  }
  for w in rxs.iter_mut() {
    let _ = w.child.kill();
    let _ = w.child.wait();
  }
  drop(tx);
  let explored = t0.elapsed().as_secs_f64();
  for (id, text) in &listed {
    if s.known.contains_key(id) {
      println!("KNOWN-FINDING: property={prop} {id}: {text}");
    }
  }
  found.sort_by_key(|f| f.index);
  let mut code = 0;
  let mut reported = 0;
  if let Some(f) = found.first() {
    match report(prop, base, f, nw, &exes[f.exe], dir) {
      Some(_) => {
        reported = 1;
        code = 1;
      }
      None => {
        eprintln!("a violation ({} at index {}: {}) could not be reproduced", f.o.class, f.index, f.o.msg);
        code = 2;
      }
    }
  } else if broken {
    code = 2;
  } else if s.runs == 0 {
    eprintln!("nothing was run");
    code = 2;
  }
  evidence(prop, tier, base, &s, explored, t0.elapsed().as_secs_f64(), reported, &exes, dir);
  if code == 0 {
    println!("{prop} held on {} runs ({} distinct executions, {:.1} h of simulated time) in {:.1} s", s.runs, s.hashes.iter().collect::<HashSet<_>>().len(), s.sim_us as f64 / 3.6e9, explored);
  }
  code
}
fn all_known(file: &str) -> String {
  std::fs::read_to_string(file).unwrap_or_default().lines().filter_map(|l| l.strip_prefix("finding: ")).filter_map(|r| r.split_whitespace().find_map(|w| w.strip_prefix("id=")).map(|s| s.to_string())).collect::<Vec<_>>().join(",")
}

fn report(prop: &str, base: u64, f: &Found, stride: u64, exe: &(String, String), dir: &str) -> Option<String> {
  let plan = make_plan(prop, base, f.index);
  println!("found {} at index {} (build {}): {}", f.o.class, f.index, exe.0, f.o.msg);
  let mut srv = Server::new(&exe.1);
  let first = srv.eval(prop, &plan, 60);
  let mut rp = Replay { property: prop.into(), class: f.o.class.clone(), message: f.o.msg.clone(), build: exe.0.clone(), hash: f.o.hash.clone(), index: f.index, seed: seed_of(base, f.index), sequence: None, plan };
  match first {
    Some(o) if o.class == f.o.class => {
      let (p, o) = shrink::shrink(prop, &rp.plan, o, &mut srv, Duration::from_secs(20));
      // a fresh process must fail the same way
      let again = Server::new(&exe.1).eval(prop, &p, 60);
      if again.as_ref().is_some_and(|x| x.class == o.class) {
        let x = again.unwrap();
        rp.message = x.msg;
        rp.hash = x.hash;
        rp.plan = p;
      } else {
        let again = Server::new(&exe.1).eval(prop, &rp.plan, 60)?;
        if again.class != rp.class {
          return None;
        }
      }
    }
    _ => {
      rp.sequence = Some((base, f.worker, stride));
      let o = eval_sequence(&exe.1, &rp)?;
      if o.class != rp.class {
        return None;
      }
    }
  }
  let rel = format!("replays/{prop}-{}-{}.json", rp.class, f.index);
  let path = format!("{dir}/{rel}");
  let _ = std::fs::create_dir_all(format!("{dir}/replays"));
  std::fs::write(&path, serde_json::to_string_pretty(&rp).unwrap()).ok()?;
  println!("{}: {}", rp.class, rp.message);
  println!("VIOLATION property={prop} replay={path}");
  Some(path)
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, tier: &str, base: u64, s: &Stats, explored: f64, wall: f64, violations: u64, exes: &[(String, String)], dir: &str) {
  let distinct = s.hashes.iter().collect::<HashSet<_>>().len();
  let shapes = s.shapes.iter().collect::<HashSet<_>>().len();
  let per_h = |n: u64| (n as f64 / explored.max(0.001) * 3600.0) as u64;
  let j = json!({
    "property": prop,
    "tier": tier,
    "seed": base,
    "level": "exploration",
    "wall_s": (wall * 100.0).round() / 100.0,
    "violations": violations,
    "assumptions": [
      "single-threaded tokio runtime; helper threads only for name lookup, one at a time under the simulator",
      "TLS via rustls with a test CA through SSL_CERT_FILE; the simulated peer is a real rustls server",
      "sampling: seeds not run are not covered"
    ],
    "coverage": {
      "evaluations": s.runs,
      "distinct_nontrivial": distinct,
      "rule": format!("one evaluation is one complete simulated execution of a plan generated by gen.rs for {prop} from one seed; non-trivial when at least one fault (network, peer, name lookup, clock, abandonment, short write, segmentation) took effect and at least one operation was judged; distinct by the hash over all events, times and results"),
      "nontrivial_runs": s.nontrivial,
      "distinct_history_shapes": shapes,
      "shape_rule": "sequence of (operation, result kind, attempts, open connections) plus how far each connection got and how it ended, without contents and times",
      "runs_per_hour": per_h(s.runs),
      "seeds_per_hour": per_h(s.runs),
      "simulated_seconds": s.sim_us / 1_000_000,
      "simulated_events": s.events,
      "operations": s.ops,
      "operation_results": s.outcomes,
      "lines_received": s.lines,
      "sends_completed": s.sends,
      "connections": s.conns,
      "lookups": s.lookups,
      "faults_injected": s.faults,
      "probes": s.probes,
      "known_findings_met": s.known,
      "violations_of_other_properties_seen": s.other,
      "determinism_reruns": s.reruns,
      "determinism_mismatches": s.rerun_mismatch,
      "parser_builds": exes.iter().map(|x| x.0.clone()).collect::<Vec<_>>(),
      "components_real": ["tmi (unmodified, from /repo's working tree)", "tokio current_thread runtime, timers, net driver", "tokio-rustls/rustls client", "rustls server session of the peer", "application code issuing public API calls"],
      "components_simulated": ["clock and timers source (clock_gettime)", "getrandom", "sockets, epoll, TCP delivery", "getaddrinfo", "helper-thread scheduling (pthread_create, futex)", "Twitch server script", "placement of byte buffers in memory (allocator)"],
      "samples": s.samples,
    }
  });
  let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
  std::fs::write(format!("{dir}/evidence/{prop}.json"), serde_json::to_string_pretty(&j).unwrap()).expect("cannot write the evidence");
}
