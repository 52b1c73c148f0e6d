//! Messages the application keeps: the message itself, owned copies, serialized forms.

use crate::view::{self, View};
use tmi::*;

macro_rules! owned_enum {
  ($($v:ident),*) => {
    enum Typed { $($v($v<'static>),)* None }
    fn typed_owned(m: &IrcMessage) -> (Typed, Option<Result<String, String>>, Stored) {
      match m.as_typed() {
        $(Ok(Message::$v(x)) => {
          let j = serde_json::to_string(&x).map_err(|e| e.to_string());
          let bin = bincode::serialize(&x).map_err(|e| e.to_string());
          (Typed::$v(x.into_owned()), Some(j), Some(bin))
        })*
        _ => (Typed::None, None, None),
      }
    }
    /// the other serialized forms: a binary one, and one held as a tree of values
    fn stored(m: &IrcMessage, json: &Option<Result<String, String>>, stored: &Stored) -> Option<String> {
      match m.as_typed() {
        $(Ok(Message::$v(b)) => {
          let check = |what: &str, c: Result<$v<'_>, String>| match c {
            Ok(c) if c == b => None,
            Ok(c) => Some(format!("{what} form read back gives {c:?}, was {b:?}")),
            Err(e) => Some(format!("{what} form of {b:?} does not read back: {e}")),
          };
          if let Some(Ok(j)) = json {
            let tree = serde_json::from_str::<serde_json::Value>(j);
            let c = tree.as_ref().map_err(|e| e.to_string()).and_then(|t| <$v as serde::Deserialize>::deserialize(t).map_err(|e| e.to_string()));
            if let Some(x) = check("json tree", c) {
              return Some(x);
            }
          }
          match stored {
            Some(Ok(s)) => check("bincode", bincode::deserialize::<$v>(s).map_err(|e| e.to_string())),
            Some(Err(e)) => Some(format!("{b:?} does not serialize to bincode: {e}")),
            None => None,
          }
        })*
        _ => None,
      }
    }
    fn compare(t: &Typed, m: &IrcMessage, json: &Option<Result<String, String>>) -> Option<String> {
      match (t, m.as_typed()) {
        $((Typed::$v(a), Ok(Message::$v(b))) => {
          if *a != b {
            return Some(format!("owned typed copy {a:?} differs from the message's own view {b:?}"));
          }
          if a.clone().into_owned() != *a {
            return Some(format!("owned copy of an owned copy differs from {a:?}"));
          }
          match json {
            Some(Ok(j)) => match serde_json::from_str::<$v>(j) {
              Ok(c) => {
                if c != b {
                  return Some(format!("serialized form read back gives {c:?}, was {b:?}"));
                }
              }
              Err(e) => return Some(format!("serialized form of {b:?} does not read back: {e}")),
            },
            Some(Err(e)) => return Some(format!("does not serialize: {e}")),
            None => {}
          }
          match serde_json::to_string(a) {
            Ok(j2) => {
              if let Some(Ok(j)) = json { if *j != j2 { return Some(format!("serialized form changed from {j} to {j2}")); } }
            }
            Err(e) => return Some(format!("owned copy does not serialize: {e}")),
          }
          None
        })*
        (Typed::None, Err(_)) | (Typed::None, Ok(Message::Reconnect | Message::Other(_))) => None,
        (_, b) => Some(format!("typed view of the kept message changed to {b:?}")),
      }
    }
  };
}
owned_enum!(ClearChat, ClearMsg, GlobalUserState, Join, Notice, Part, Ping, Pong, Privmsg, RoomState, UserNotice, UserState, Whisper);

type Stored = Option<Result<Vec<u8>, String>>;
pub struct Kept {
  msg: IrcMessage,
  copy: IrcMessage,
  raw: String,
  view: View,
  typed: Typed,
  typed_dbg: String,
  json: Option<Result<String, String>>,
  stored: Stored,
}

impl Kept {
  pub fn new(msg: IrcMessage) -> Kept {
    let (typed, json, stored) = typed_owned(&msg);
    let typed_dbg = format!("{:?}", msg.as_typed());
    let copy = msg.as_ref().clone().into_owned();
    Kept { raw: msg.raw().to_string(), view: view::owned(&msg), copy, typed, typed_dbg, json, stored, msg }
  }
  /// None if everything still says what it said.
  pub fn check(&self) -> Option<String> {
    for (what, m) in [("kept message", &self.msg), ("owned copy", &self.copy)] {
      if m.raw() != self.raw {
        return Some(format!("{what}: raw text is now {:?}, was {:?}", m.raw(), self.raw));
      }
      let v = view::owned(m);
      if v != self.view {
        return Some(format!("{what}: now reads {v:?}, was {:?}", self.view));
      }
      let d = format!("{:?}", m.as_typed());
      if d != self.typed_dbg {
        return Some(format!("{what}: typed view is now {d}, was {}", self.typed_dbg));
      }
      if let Some(x) = compare(&self.typed, m, &self.json) {
        return Some(format!("{what}: {x} (line {:?})", self.raw));
      }
    }
    stored(&self.msg, &self.json, &self.stored).map(|x| format!("{x} (line {:?})", self.raw))
  }
}
