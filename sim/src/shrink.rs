//! Minimises a failing plan while the same class of violation persists.

use crate::plan::*;
use crate::run::{Outcome, Server};
use std::time::{Duration, Instant};

struct S<'a> {
  prop: &'a str,
  srv: &'a mut Server,
  until: Instant,
  best: Plan,
  o: Outcome,
}
impl S<'_> {
  fn try_(&mut self, p: Plan) -> bool {
    if Instant::now() > self.until {
      return false;
    }
    let secs = if self.o.class == "crash" { 15 } else { 60 };
    match self.srv.eval(self.prop, &p, secs) {
      Some(o) if o.class == self.o.class && same_crash(&self.o, &o) => {
        self.best = p;
        self.o = o;
        true
      }
      _ => false,
    }
  }
  fn with(&mut self, f: impl FnOnce(&mut Plan)) -> bool {
    let mut p = self.best.clone();
    f(&mut p);
    self.try_(p)
  }
  /// removes runs of elements of a list reached by `get`
  fn list<T>(&mut self, get: impl Fn(&mut Plan) -> Option<&mut Vec<T>>) -> bool {
    let mut any = false;
    let len = |p: &mut Plan| get(p).map_or(0, |v| v.len());
    let mut n = len(&mut self.best.clone());
    let mut size = n;
    while size >= 1 {
      let mut at = 0;
      while at < n && Instant::now() < self.until {
        let e = (at + size).min(n);
        let ok = self.with(|p| {
          if let Some(v) = get(p) {
            v.drain(at..e);
          }
        });
        if ok {
          any = true;
          n = len(&mut self.best.clone());
        } else {
          at += size;
        }
      }
      size /= 2;
    }
    any
  }
}
fn same_crash(a: &Outcome, b: &Outcome) -> bool {
  a.class != "crash" || a.msg == b.msg
}

fn nconns(p: &Plan) -> usize {
  p.conns.len() + p.tail.is_some() as usize
}
fn conn(p: &mut Plan, i: usize) -> Option<&mut Conn> {
  let n = p.conns.len();
  if i < n {
    p.conns.get_mut(i)
  } else {
    p.tail.as_deref_mut()
  }
}

pub fn shrink(prop: &str, p: &Plan, o: Outcome, srv: &mut Server, limit: Duration) -> (Plan, Outcome) {
  let mut s = S { prop, srv, until: Instant::now() + limit, best: p.clone(), o };
  loop {
    let before = serde_json::to_string(&s.best).unwrap().len();
    pass(&mut s);
    let after = serde_json::to_string(&s.best).unwrap().len();
    if after >= before || Instant::now() > s.until {
      break;
    }
  }
  (s.best, s.o)
}

fn pass(s: &mut S) {
  s.list(|p| match &mut p.prog {
    Prog::Ops(v) => Some(v),
    _ => None,
  });
  s.list(|p| Some(&mut p.conns));
  s.list(|p| Some(&mut p.partitions));
  s.list(|p| Some(&mut p.trust));
  s.list(|p| Some(&mut p.clock_jumps));
  s.list(|p| Some(&mut p.socket_errs));
  s.list(|p| Some(&mut p.dns));
  s.with(|p| p.neighbour = None);
  s.list(|p| match &mut p.neighbour.as_deref_mut()?.prog {
    Prog::Ops(v) => Some(v),
    _ => None,
  });
  s.list(|p| Some(&mut p.neighbour.as_deref_mut()?.conns.first_mut()?.script));
  s.list(|p| Some(&mut p.neighbour.as_deref_mut()?.conns.first_mut()?.faults));
  s.with(|p| {
    if let Some(c) = p.neighbour.as_deref_mut().and_then(|n| n.conns.first_mut()) {
      c.net = Net::plain();
    }
  });
  s.with(|p| p.mem = 0);
  s.with(|p| p.exec = 0);
  s.with(|p| p.tail = None);
  for i in 0..nconns(&s.best) {
    s.with(|p| {
      if let Some(c) = conn(p, i) {
        *c = Conn::healthy();
      }
    });
    s.list(|p| conn(p, i).map(|c| &mut c.faults));
    s.list(|p| conn(p, i).map(|c| &mut c.script));
    let simple: &[fn(&mut Conn)] = &[
      |c| c.net = Net::plain(),
      |c| c.net.chunks.clear(),
      |c| c.net.frag = 16384,
      |c| c.net.jit_us = 0,
      |c| c.net.gap_us = 0,
      |c| c.net.sndbuf = 65536,
      |c| c.net.spurious = false,
      |c| c.net.lat_us = 1000,
      |c| c.dial = Dial::Ok { us: 2000 },
      |c| c.peer = Peer::Tls { cert: "good".into(), v12: false },
    ];
    for f in simple {
      let mut p = s.best.clone();
      if let Some(c) = conn(&mut p, i) {
        f(c);
      }
      let same = serde_json::to_string(&p).ok() == serde_json::to_string(&s.best).ok();
      if !same {
        s.try_(p);
      }
    }
    let n = conn(&mut s.best, i).map_or(0, |c| c.script.len());
    for k in 0..n {
      lines_of(s, i, k);
    }
  }
  let n = match &s.best.prog {
    Prog::Ops(v) => v.len(),
    _ => 0,
  };
  for k in 0..n {
    let cur = match &s.best.prog {
      Prog::Ops(v) => v[k].clone(),
      _ => break,
    };
    let mut cands = vec![];
    if cur.cancel.is_some() {
      cands.push(Op { call: cur.call.clone(), cancel: None });
    }
    match &cur.call {
      Call::Privmsg { ch, text, reply, nonce } => {
        for (t, r, n) in [("x", &None, &None), ("x", reply, nonce), (text, &None, nonce), (text, reply, &None)] {
          cands.push(Op { call: Call::Privmsg { ch: ch.clone(), text: t.to_string(), reply: r.clone(), nonce: n.clone() }, cancel: cur.cancel });
        }
      }
      Call::JoinAll { chs } if chs.len() > 1 => {
        cands.push(Op { call: Call::JoinAll { chs: chs[..1].to_vec() }, cancel: cur.cancel });
        cands.push(Op { call: Call::JoinAll { chs: chs[..chs.len() / 2].to_vec() }, cancel: cur.cancel });
      }
      _ => {}
    }
    for c in cands {
      if c.call == cur.call && c.cancel == cur.cancel {
        continue;
      }
      s.with(|p| {
        if let Prog::Ops(v) = &mut p.prog {
          v[k] = c;
        }
      });
    }
  }
  if let Prog::Bot(_) = &s.best.prog {
    s.with(|p| {
      if let Prog::Bot(b) = &mut p.prog {
        b.chatter_us = None;
      }
    });
    s.with(|p| {
      if let Prog::Bot(b) = &mut p.prog {
        b.spawned = false;
      }
    });
    s.list(|p| match &mut p.prog {
      Prog::Bot(b) => Some(&mut b.channels),
      _ => None,
    });
  }
  s.with(|p| p.cfg.timeout_us = None);
  s.with(|p| p.cfg.backoff = None);
}

fn lines_of(s: &mut S, i: usize, k: usize) {
  let get = |p: &Plan| -> Option<Vec<u8>> {
    let c = if i < p.conns.len() { p.conns.get(i) } else { p.tail.as_deref() };
    match c.and_then(|c| c.script.get(k)) {
      Some(Step::Put(b)) => Some(b.0.clone()),
      _ => None,
    }
  };
  let Some(b) = get(&s.best) else { return };
  let set = |p: &mut Plan, b: Vec<u8>| {
    if let Some(c) = conn(p, i) {
      c.script[k] = Step::Put(Bytes(b));
    }
  };
  // whole lines first
  let mut parts: Vec<Vec<u8>> = b.split_inclusive(|c| *c == b'\n').map(|l| l.to_vec()).collect();
  let mut size = parts.len() / 2;
  while size >= 1 && parts.len() > 1 {
    let mut at = 0;
    while at < parts.len() && Instant::now() < s.until {
      let mut q = parts.clone();
      q.drain(at..(at + size).min(parts.len()));
      let bytes: Vec<u8> = q.concat();
      if s.with(|p| set(p, bytes)) {
        parts = q;
      } else {
        at += size;
      }
    }
    size /= 2;
  }
  // then stretches of bytes
  let Some(mut b) = get(&s.best) else { return };
  let mut size = b.len() / 2;
  while size >= 1 {
    let mut at = 0;
    while at < b.len() && Instant::now() < s.until {
      let mut q = b.clone();
      q.drain(at..(at + size).min(b.len()));
      if s.with(|p| set(p, q.clone())) {
        b = q;
      } else {
        at += size;
      }
    }
    if size <= 2 && b.len() > 400 {
      break;
    }
    size /= 2;
  }
}
