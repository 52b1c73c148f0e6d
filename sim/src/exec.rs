//! Executor faults: what any runtime may do to a future and hand-written futures get wrong.
//! Every poll comes with a waker of its own and only the latest one counts (a task may be moved
//! between polls), and a pending future may be polled again though nothing has happened.

use crate::plan::Rng;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub const FRESH_WAKERS: u8 = 1;
pub const EXTRA_POLLS: u8 = 2;

struct Once {
  mine: u64,
  latest: Arc<AtomicU64>,
  to: Waker,
}
impl Wake for Once {
  fn wake(self: Arc<Self>) {
    self.wake_by_ref()
  }
  fn wake_by_ref(self: &Arc<Self>) {
    if self.latest.load(Relaxed) == self.mine {
      self.to.wake_by_ref();
    }
  }
}

pub struct Exec<F> {
  f: Pin<Box<F>>,
  how: u8,
  latest: Arc<AtomicU64>,
  r: Rng,
}
impl<F> Exec<F> {
  pub fn new(f: F, how: u8, seed: u64) -> Exec<F> {
    Exec { f: Box::pin(f), how, latest: Default::default(), r: Rng::new(seed) }
  }
}
impl<F: Future> Exec<F> {
  fn once(&mut self, cx: &mut Context<'_>) -> Poll<F::Output> {
    if self.how & FRESH_WAKERS == 0 {
      return self.f.as_mut().poll(cx);
    }
    let mine = self.latest.load(Relaxed) + 1;
    self.latest.store(mine, Relaxed);
    let w = Waker::from(Arc::new(Once { mine, latest: self.latest.clone(), to: cx.waker().clone() }));
    self.f.as_mut().poll(&mut Context::from_waker(&w))
  }
}
impl<F: Future> Future for Exec<F> {
  type Output = F::Output;
  fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
    let me = self.get_mut();
    let mut more = if me.how & EXTRA_POLLS != 0 { me.r.n(3) } else { 0 };
    loop {
      let p = me.once(cx);
      if p.is_ready() || more == 0 {
        return p;
      }
      more -= 1;
    }
  }
}
