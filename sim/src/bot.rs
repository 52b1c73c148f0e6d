//! An application written like the README loop, reconnecting as documented.

use crate::driver::{config_builder, now_us, BotEv};
use crate::plan::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;

type Log = Rc<RefCell<Vec<BotEv>>>;

fn ev(l: &Log, what: String) {
  l.borrow_mut().push(BotEv { at: now_us(), what });
}

async fn reconnect(c: &mut tmi::Client, b: &Bot, log: &Log) {
  loop {
    ev(log, "reconnecting".into());
    match c.reconnect().await {
      Ok(()) => match c.join_all(&b.channels).await {
        Ok(()) => {
          ev(log, "rejoined".into());
          return;
        }
        Err(e) => ev(log, format!("rejoin-error:{e}")),
      },
      Err(e) => {
        ev(log, format!("reconnect-error:{e}"));
        // the library gave up; a bot keeps going after a pause
        tokio::time::sleep(Duration::from_secs(5)).await;
      }
    }
  }
}

async fn bot(plan: &Plan, b: &Bot, log: &Log) {
  let mut c = loop {
    crate::driver::store(plan);
    match config_builder(plan).connect().await {
      Ok(c) => break c,
      Err(e) => {
        ev(log, format!("connect-error:{e}"));
        tokio::time::sleep(Duration::from_secs(5)).await;
      }
    }
  };
  ev(log, "connected".into());
  if let Err(e) = c.join_all(&b.channels).await {
    ev(log, format!("join-error:{e}"));
    reconnect(&mut c, b, log).await;
  }
  let mut chatter = tokio::time::interval(Duration::from_micros(b.chatter_us.unwrap_or(u64::MAX / 4000)));
  chatter.tick().await;
  let mut n = 0u64;
  let mut dice = Rng::new(plan.seed);
  // (what the application itself sends is no sign of life of the connection)
  let mut heard = tokio::time::Instant::now();
  loop {
    enum E {
      Msg(Result<tmi::IrcMessage, tmi::client::read::RecvError>),
      Idle,
      Chat,
    }
    let e = {
      let idle = Duration::from_micros(b.idle_us.unwrap_or(u64::MAX / 4000)).saturating_sub(heard.elapsed());
      if b.chatter_us.is_some() {
        // (which branch goes first is the plan's choice; tokio would roll its own dice)
        if dice.chance(50) {
          tokio::select! {
            biased;
            m = c.recv() => E::Msg(m),
            _ = chatter.tick() => E::Chat,
            _ = tokio::time::sleep(idle) => E::Idle,
          }
        } else {
          tokio::select! {
            biased;
            _ = tokio::time::sleep(idle) => E::Idle,
            _ = chatter.tick() => E::Chat,
            m = c.recv() => E::Msg(m),
          }
        }
      } else {
        match tokio::time::timeout(idle, c.recv()).await {
          Ok(m) => E::Msg(m),
          Err(_) => E::Idle,
        }
      }
    };
    let chat = matches!(e, E::Chat);
    match e {
      E::Msg(Ok(m)) => {
        let mut again = false;
        match m.as_typed() {
          Ok(tmi::Message::Privmsg(m)) => ev(log, format!("msg:{}:{}", m.channel(), m.text())),
          Ok(tmi::Message::Reconnect) => {
            ev(log, "asked-to-reconnect".into());
            again = true;
          }
          Ok(tmi::Message::Ping(p)) => {
            if let Err(e) = c.pong(&p).await {
              ev(log, format!("pong-error:{e}"));
              again = true;
            }
          }
          _ => {}
        }
        if again {
          reconnect(&mut c, b, log).await;
        }
      }
      E::Msg(Err(e)) => {
        if e.is_disconnect() {
          ev(log, format!("disconnect:{e}"));
          reconnect(&mut c, b, log).await;
        } else {
          ev(log, format!("bad-message:{e}"));
          n += 1;
          if n > 10_000 {
            ev(log, "spinning".into());
            return;
          }
        }
      }
      E::Idle => {
        ev(log, "idle".into());
        reconnect(&mut c, b, log).await;
      }
      E::Chat => {
        if let Err(e) = c.privmsg(&b.channels[0], "hello").send().await {
          ev(log, format!("chat-error:{e}"));
          reconnect(&mut c, b, log).await;
          heard = tokio::time::Instant::now();
        }
      }
    }
    if !chat {
      heard = tokio::time::Instant::now();
    }
  }
}

pub async fn run(plan: &Plan, b: &Bot) -> (Vec<BotEv>, Vec<usize>) {
  let log: Log = Default::default();
  let d = Duration::from_micros(b.run_us);
  let how = plan.exec;
  let open = if b.spawned {
    let set = tokio::task::LocalSet::new();
    let (plan2, b2, log2) = (plan.clone(), b.clone(), log.clone());
    set
      .run_until(async move {
        let h = tokio::task::spawn_local(crate::exec::Exec::new(async move { bot(&plan2, &b2, &log2).await }, how, plan.seed));
        tokio::time::sleep(d).await;
        let open = crate::sys::with_world(|w| w.open_conns());
        h.abort();
        let _ = h.await;
        open
      })
      .await
  } else {
    tokio::select! {
      biased;
      // (looked at while the bot still exists)
      open = async { tokio::time::sleep(d).await; crate::sys::with_world(|w| w.open_conns()) } => open,
      _ = bot(plan, b, &log) => vec![],
    }
  };
  let v = log.borrow().clone();
  (v, open)
}
