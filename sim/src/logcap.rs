//! Captures every log record (tracing and log), for the secrecy property.

use std::cell::{Cell, RefCell};
use std::fmt::Write;
use std::sync::atomic::{AtomicBool, Ordering::*};
use std::sync::{Mutex, Once};

static ON: AtomicBool = AtomicBool::new(false);
static BUF: Mutex<Vec<String>> = Mutex::new(Vec::new());
thread_local! {
  static BUSY: Cell<bool> = const { Cell::new(false) };
  static _X: RefCell<()> = const { RefCell::new(()) };
}

fn push(s: String) {
  if BUSY.with(|b| b.replace(true)) {
    return;
  }
  BUF.lock().unwrap().push(s);
  BUSY.with(|b| b.set(false));
}

struct Sub;
struct V(String);
impl tracing::field::Visit for V {
  fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
    let _ = write!(self.0, " {}={:?}", f.name(), v);
  }
}
impl tracing::Subscriber for Sub {
  fn enabled(&self, _m: &tracing::Metadata<'_>) -> bool {
    ON.load(Relaxed)
  }
  fn register_callsite(&self, _: &'static tracing::Metadata<'static>) -> tracing::subscriber::Interest {
    tracing::subscriber::Interest::sometimes()
  }
  fn new_span(&self, a: &tracing::span::Attributes<'_>) -> tracing::span::Id {
    let mut v = V(format!("span {}", a.metadata().name()));
    a.record(&mut v);
    push(v.0);
    tracing::span::Id::from_u64(1)
  }
  fn record(&self, _: &tracing::span::Id, r: &tracing::span::Record<'_>) {
    let mut v = V("record".into());
    r.record(&mut v);
    push(v.0);
  }
  fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
  fn event(&self, e: &tracing::Event<'_>) {
    if !ON.load(Relaxed) {
      return;
    }
    let mut v = V(format!("{} {}", e.metadata().level(), e.metadata().target()));
    e.record(&mut v);
    push(v.0);
  }
  fn enter(&self, _: &tracing::span::Id) {}
  fn exit(&self, _: &tracing::span::Id) {}
}
struct L;
impl log::Log for L {
  fn enabled(&self, _: &log::Metadata) -> bool {
    ON.load(Relaxed)
  }
  fn log(&self, r: &log::Record) {
    if ON.load(Relaxed) {
      push(format!("log {} {}", r.target(), r.args()));
    }
  }
  fn flush(&self) {}
}

pub fn start(on: bool) {
  static O: Once = Once::new();
  if on {
    O.call_once(|| {
      let _ = tracing::subscriber::set_global_default(Sub);
      let _ = log::set_logger(&L);
    });
    log::set_max_level(log::LevelFilter::Trace);
  } else {
    log::set_max_level(log::LevelFilter::Off);
  }
  BUF.lock().unwrap().clear();
  ON.store(on, SeqCst);
}
pub fn stop() -> Vec<String> {
  ON.store(false, SeqCst);
  std::mem::take(&mut *BUF.lock().unwrap())
}
