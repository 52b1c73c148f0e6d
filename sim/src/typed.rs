//! C16: what the typed message must say, read independently from the line, compared field by
//! field with what the getters report; and a generator of such lines (the server's announcements).

use crate::plan::Rng;
use crate::view::{reference, View};
use std::collections::BTreeMap;
use tmi::*;

type Fields = BTreeMap<String, String>;

fn put(f: &mut Fields, k: &str, v: impl ToString) {
  f.insert(k.to_string(), v.to_string());
}
fn opt<T: ToString>(f: &mut Fields, k: &str, v: Option<T>) {
  f.insert(k.to_string(), v.map_or("<absent>".to_string(), |v| format!("={}", v.to_string())));
}

// ------------------------------------------------------------------ what the getters say

fn badge(b: &Badge<'_>) -> String {
  let kind = match b {
    Badge::Staff => "staff".into(),
    Badge::Turbo => "turbo".into(),
    Badge::Broadcaster => "broadcaster".into(),
    Badge::Moderator => "moderator".into(),
    Badge::Subscriber(s) => format!("subscriber/{:?}/{}", s.version(), s.months()),
    Badge::Other(d) => format!("other:{:?}/{:?}/{:?}", d.name(), d.version(), d.extra()),
  };
  let d = b.as_badge_data();
  format!("{kind}|{:?}/{:?}/{:?}", d.name(), d.version(), d.extra())
}
fn badges<'a, 'b: 'a>(it: impl DoubleEndedIterator<Item = &'a Badge<'b>> + ExactSizeIterator, n: usize) -> String {
  let len = it.len();
  let v: Vec<String> = it.map(badge).collect();
  format!("{}:{}:{} {}", v.len(), len, n, v.join(" "))
}
fn user(u: &User<'_>) -> String {
  format!("{:?} {:?} {:?}", u.id(), u.login(), u.name())
}
fn ts(t: chrono::DateTime<chrono::Utc>) -> String {
  t.timestamp_millis().to_string()
}

pub fn actual(m: &Message<'_>) -> Fields {
  let mut f = Fields::new();
  let f_ = &mut f;
  match m {
    Message::ClearChat(m) => {
      put(f_, "kind", "CLEARCHAT");
      put(f_, "channel", m.channel());
      put(f_, "channel_id", m.channel_id());
      put(f_, "timestamp", ts(m.timestamp()));
      opt(f_, "target", m.target());
      put(f_, "flags", format!("{} {} {}", m.action().is_clear(), m.action().is_ban(), m.action().is_time_out()));
      put(
        f_,
        "action",
        match m.action() {
          Action::Clear => "clear".to_string(),
          Action::Ban(b) => format!("ban {:?} {:?}", b.user(), b.id()),
          Action::TimeOut(b) => format!("timeout {:?} {:?} {}.{}", b.user(), b.id(), b.duration().as_secs(), b.duration().subsec_nanos()),
        },
      );
    }
    Message::ClearMsg(m) => {
      put(f_, "kind", "CLEARMSG");
      put(f_, "channel", m.channel());
      put(f_, "channel_id", m.channel_id());
      put(f_, "timestamp", ts(m.timestamp()));
      put(f_, "sender", m.sender());
      put(f_, "target", m.target_message_id());
      put(f_, "text", m.text());
      put(f_, "is_action", m.is_action());
    }
    Message::GlobalUserState(m) => {
      put(f_, "kind", "GLOBALUSERSTATE");
      put(f_, "id", m.id());
      put(f_, "name", m.name());
      put(f_, "badges", badges(m.badges(), m.num_badges()));
      put(f_, "emote_sets", format!("{} {} {:?}", m.num_emote_sets(), m.emote_sets().len(), m.emote_sets().collect::<Vec<_>>()));
      opt(f_, "color", m.color());
    }
    Message::UserState(m) => {
      put(f_, "kind", "USERSTATE");
      put(f_, "channel", m.channel());
      put(f_, "name", m.user_name());
      put(f_, "badges", badges(m.badges(), m.num_badges()));
      put(f_, "emote_sets", format!("{} {} {:?}", m.num_emote_sets(), m.emote_sets().len(), m.emote_sets().collect::<Vec<_>>()));
      opt(f_, "color", m.color());
    }
    Message::Join(m) => {
      put(f_, "kind", "JOIN");
      put(f_, "channel", m.channel());
      put(f_, "user", m.user());
    }
    Message::Part(m) => {
      put(f_, "kind", "PART");
      put(f_, "channel", m.channel());
      put(f_, "user", m.user());
    }
    Message::Notice(m) => {
      put(f_, "kind", "NOTICE");
      opt(f_, "channel", m.channel());
      put(f_, "text", m.text());
      opt(f_, "id", m.id());
    }
    Message::Ping(m) => {
      put(f_, "kind", "PING");
      opt(f_, "nonce", m.nonce());
    }
    Message::Pong(m) => {
      put(f_, "kind", "PONG");
      opt(f_, "nonce", m.nonce());
    }
    Message::Reconnect => put(f_, "kind", "RECONNECT"),
    Message::RoomState(m) => {
      put(f_, "kind", "ROOMSTATE");
      put(f_, "channel", m.channel());
      put(f_, "channel_id", m.channel_id());
      opt(f_, "emote_only", m.emote_only());
      opt(f_, "r9k", m.r9k());
      opt(f_, "subs_only", m.subs_only());
      opt(f_, "slow", m.slow().map(|d| format!("{}.{}", d.as_secs(), d.subsec_nanos())));
      opt(
        f_,
        "followers_only",
        m.followers_only().map(|x| match x {
          FollowersOnly::Disabled => "off".to_string(),
          FollowersOnly::Enabled(None) => "all".to_string(),
          FollowersOnly::Enabled(Some(d)) => {
            format!("{}.{}", d.as_secs(), d.subsec_nanos())
          }
        }),
      );
    }
    Message::Privmsg(m) => {
      put(f_, "kind", "PRIVMSG");
      put(f_, "id", m.id());
      put(f_, "channel", m.channel());
      put(f_, "channel_id", m.channel_id());
      opt(f_, "msg_id", m.msg_id());
      put(f_, "sender", user(m.sender()));
      put(f_, "text", m.text());
      put(f_, "is_action", m.is_action());
      put(f_, "badges", badges(m.badges(), m.num_badges()));
      opt(f_, "color", m.color());
      opt(f_, "reward", m.custom_reward_id());
      opt(f_, "bits", m.bits());
      put(f_, "emotes", m.raw_emotes());
      put(f_, "timestamp", ts(m.timestamp()));
      opt(f_, "reply", m.reply_to().map(|r| format!("{:?} {:?} {:?} {} {:?}", r.thread_parent_message_id(), r.thread_parent_user_login(), r.message_id(), user(r.sender()), r.text())));
      opt(f_, "pinned", m.pinned_chat().map(|p| format!("{} {:?} {} {} {} {}", p.paid_amount(), p.paid_currency(), p.paid_exponent(), p.paid_level().as_str(), u8::from(p.paid_level()), p.is_system_message())));
    }
    Message::UserNotice(m) => {
      put(f_, "kind", "USERNOTICE");
      put(f_, "channel", m.channel());
      put(f_, "channel_id", m.channel_id());
      opt(f_, "sender", m.sender().map(user));
      opt(f_, "text", m.text());
      opt(f_, "system", m.system_message());
      put(f_, "event_id", m.event_id());
      put(f_, "badges", badges(m.badges(), m.num_badges()));
      put(f_, "emotes", m.raw_emotes());
      opt(f_, "color", m.color());
      put(f_, "message_id", m.message_id());
      put(f_, "timestamp", ts(m.timestamp()));
      let promo = |p: Option<&SubGiftPromo<'_>>| match p {
        None => "no-promo".to_string(),
        Some(p) => format!("promo {} {:?}", p.total_gifts(), p.promo_name()),
      };
      put(
        f_,
        "event",
        match m.event() {
          Event::SubOrResub(e) => format!("sub {} {} {:?} {:?} {:?}", e.is_resub(), e.cumulative_months(), e.streak_months(), e.sub_plan(), e.sub_plan_name()),
          Event::Raid(e) => {
            format!("raid {} {:?}", e.viewer_count(), e.profile_image_url())
          }
          Event::SubGift(e) => format!("gift {} {} {:?} {:?} {}", e.cumulative_months(), user(e.recipient()), e.sub_plan(), e.sub_plan_name(), e.num_gifted_months()),
          Event::SubMysteryGift(e) => format!("mystery {} {} {:?}", e.count(), e.sender_total_gifts(), e.sub_plan()),
          Event::AnonSubMysteryGift(e) => {
            format!("anonmystery {} {:?}", e.count(), e.sub_plan())
          }
          Event::GiftPaidUpgrade(e) => format!("upgrade {:?} {:?} {}", e.gifter_login(), e.gifter_name(), promo(e.promotion())),
          Event::AnonGiftPaidUpgrade(e) => {
            format!("anonupgrade {}", promo(e.promotion()))
          }
          Event::Ritual(e) => format!("ritual {:?}", e.name()),
          Event::BitsBadgeTier(e) => format!("bitsbadge {}", e.tier()),
          Event::Announcement(e) => format!("announce {:?}", e.highlight_color()),
          Event::Unknown => "unknown".to_string(),
          _ => "?".to_string(),
        },
      );
    }
    Message::Whisper(m) => {
      put(f_, "kind", "WHISPER");
      put(f_, "recipient", m.recipient());
      put(f_, "sender", user(&m.sender()));
      put(f_, "text", m.text());
      put(f_, "badges", badges(m.badges(), m.num_badges()));
      put(f_, "emotes", m.raw_emotes());
      opt(f_, "color", m.color());
    }
    Message::Other(m) => {
      put(f_, "kind", m.command().as_str());
      put(f_, "raw", m.raw());
    }
  }
  f
}

// ------------------------------------------------------------------ what the line says

pub fn decode(s: &str) -> Option<String> {
  let mut o = String::new();
  let mut it = s.chars();
  while let Some(c) = it.next() {
    if c == '\u{2E1D}' {
      return None; // Twitch's stand-in for a comma: no claim
    }
    if c != '\\' {
      o.push(c);
      continue;
    }
    o.push(match it.next()? {
      ':' => ';',
      's' => ' ',
      '\\' => '\\',
      'r' => '\r',
      'n' => '\n',
      _ => return None,
    });
  }
  Some(o)
}

struct L<'a>(&'a View);
impl<'a> L<'a> {
  fn t(&self, k: &str) -> Option<&'a str> {
    self.0.tags.iter().find(|(n, _)| n == k).map(|(_, v)| v.as_str())
  }
  fn num(&self, k: &str) -> Option<u64> {
    canonical(self.t(k)?)
  }
  fn nick(&self) -> Option<&'a str> {
    self.0.prefix.as_ref()?.0.as_deref()
  }
  fn some(&self, k: &str) -> Option<&'a str> {
    self.t(k).filter(|v| !v.is_empty())
  }
  fn badges(&self) -> Option<String> {
    let (Some(b), Some(info)) = (self.t("badges"), self.t("badge-info")) else {
      return match self.t("badges") {
        None => Some("0:0:0 ".into()),
        // whispers come with badges, but without badge-info
        Some(b) if self.0.command == "WHISPER" => self.badge_list(b, ""),
        // anything else is never sent with one, but without the other
        Some(_) => None,
      };
    };
    self.badge_list(b, info)
  }
  fn badge_list(&self, b: &str, info: &str) -> Option<String> {
    let mut v = vec![];
    let infos: Vec<(&str, &str)> = if info.is_empty() { vec![] } else { info.split(',').map(|x| x.split_once('/')).collect::<Option<_>>()? };
    if !b.is_empty() {
      for x in b.split(',') {
        let (n, ver) = x.split_once('/')?;
        let extra = infos.iter().find(|(k, _)| *k == n).map(|x| x.1);
        v.push(match n {
          "staff" | "turbo" | "broadcaster" | "moderator" => {
            if ver != "1" || extra.is_some() {
              return None;
            }
            format!("{n}|{n:?}/{:?}/{:?}", "1", None::<&str>)
          }
          "subscriber" => {
            let months = match extra {
              None => 1,
              Some(e) => canonical(e)?,
            };
            format!("subscriber/{ver:?}/{months}|{n:?}/{ver:?}/{:?}", Some(extra.unwrap_or("1")))
          }
          _ => format!("other:{n:?}/{ver:?}/{extra:?}|{n:?}/{ver:?}/{extra:?}"),
        });
      }
    }
    Some(format!("{}:{}:{} {}", v.len(), v.len(), v.len(), v.join(" ")))
  }
  fn user(&self, id: &str, login: Option<&str>, name: &str) -> Option<String> {
    Some(format!("{:?} {:?} {:?}", self.t(id)?, login?, decode(self.t(name)?)?))
  }
  fn ts(&self) -> Option<String> {
    let v = self.t("tmi-sent-ts")?;
    let n = signed(v)?;
    if n.unsigned_abs() > 8_210_000_000_000_000 {
      return None;
    }
    Some(n.to_string())
  }
  fn flag(&self, k: &str) -> Option<Option<bool>> {
    match self.t(k) {
      None => Some(None),
      Some("0" | "") => Some(Some(false)),
      Some("1") => Some(Some(true)),
      _ => None,
    }
  }
  fn emote_sets(&self) -> String {
    let v: Vec<&str> = self.t("emote-sets").map(|s| s.split(',').collect()).unwrap_or_default();
    format!("{} {} {:?}", v.len(), v.len(), v)
  }
}
/// A decimal number as Twitch writes it, in range.
fn canonical(s: &str) -> Option<u64> {
  let n: u64 = s.parse().ok()?;
  (n.to_string() == s).then_some(n)
}
fn signed(s: &str) -> Option<i64> {
  let n: i64 = s.parse().ok()?;
  (n.to_string() == s).then_some(n)
}
fn action(text: &str) -> Option<(String, bool)> {
  // only a text wrapped on both sides is an action, anything else is given as it is
  let inner = text.strip_prefix("\u{1}ACTION ").and_then(|x| x.strip_suffix('\u{1}'));
  Some(match inner {
    Some(x) => (x.to_string(), true),
    None => (text.to_string(), false),
  })
}
/// text after " :" or at the start after ":"
fn trailing(v: &View) -> Option<&str> {
  let p = v.params.as_deref()?;
  if let Some(t) = p.strip_prefix(':') {
    return Some(t);
  }
  p.find(" :").map(|i| &p[i + 2..])
}

pub const NO_CLAIM: &str = "<no claim>";

/// The expected fields; None when the line is not an announcement of Twitch's format (no claim).
pub fn expected(line: &str) -> Option<Fields> {
  let v = reference(line)?;
  let l = L(&v);
  let mut f = Fields::new();
  let f_ = &mut f;
  put(f_, "kind", &v.command);
  match v.command.as_str() {
    "CLEARCHAT" => {
      put(f_, "channel", v.channel.as_deref()?);
      put(f_, "channel_id", l.t("room-id")?);
      put(f_, "timestamp", l.ts()?);
      let t = trailing(&v);
      if t.is_none() && v.params.is_some() {
        return None;
      }
      opt(f_, "target", t);
      match (t, l.t("ban-duration")) {
        (None, _) => {
          put(f_, "action", "clear");
          put(f_, "flags", "true false false");
        }
        (Some(u), None) => {
          put(f_, "action", format!("ban {u:?} {:?}", l.t("target-user-id")?));
          put(f_, "flags", "false true false");
        }
        (Some(u), Some(d)) => {
          put(f_, "action", format!("timeout {u:?} {:?} {}.0", l.t("target-user-id")?, canonical(d)?));
          put(f_, "flags", "false false true");
        }
      }
    }
    "CLEARMSG" => {
      put(f_, "channel", v.channel.as_deref()?);
      put(f_, "channel_id", l.t("room-id")?);
      put(f_, "timestamp", l.ts()?);
      put(f_, "sender", l.t("login")?);
      put(f_, "target", l.t("target-msg-id")?);
      let (t, a) = action(trailing(&v)?)?;
      put(f_, "text", t);
      put(f_, "is_action", a);
    }
    "GLOBALUSERSTATE" | "USERSTATE" => {
      if v.command == "USERSTATE" {
        put(f_, "channel", v.channel.as_deref()?);
      } else {
        put(f_, "id", l.t("user-id")?);
      }
      put(f_, "name", decode(l.t("display-name")?)?);
      put(f_, "badges", l.badges()?);
      put(f_, "emote_sets", l.emote_sets());
      opt(f_, "color", l.some("color"));
    }
    "JOIN" | "PART" => {
      put(f_, "channel", v.channel.as_deref()?);
      put(f_, "user", l.nick()?);
    }
    "NOTICE" => {
      opt(f_, "channel", v.channel.as_deref());
      put(f_, "text", trailing(&v)?);
      opt(f_, "id", l.t("msg-id"));
    }
    "PING" | "PONG" => {
      let t = trailing(&v);
      if t.is_none() && v.params.is_some() {
        return None;
      }
      opt(f_, "nonce", t);
    }
    "RECONNECT" => {}
    "ROOMSTATE" => {
      put(f_, "channel", v.channel.as_deref()?);
      put(f_, "channel_id", l.t("room-id")?);
      opt(f_, "emote_only", l.flag("emote-only")?);
      opt(f_, "r9k", l.flag("r9k")?);
      opt(f_, "subs_only", l.flag("subs-only")?);
      opt(
        f_,
        "slow",
        match l.some("slow") {
          None => None,
          Some(s) => Some(format!("{}.0", canonical(s)?)),
        },
      );
      opt(
        f_,
        "followers_only",
        match l.some("followers-only") {
          None => None,
          Some(s) => Some(match signed(s)? {
            -1 => "off".to_string(),
            0 => "all".to_string(),
            n if n > 0 => format!("{}.0", u64::try_from(n as u128 * 60).ok()?),
            _ => return None,
          }),
        },
      );
    }
    "PRIVMSG" => {
      put(f_, "id", l.t("id")?);
      put(f_, "channel", v.channel.as_deref()?);
      put(f_, "channel_id", l.t("room-id")?);
      opt(f_, "msg_id", l.t("msg-id"));
      put(f_, "sender", l.user("user-id", l.nick(), "display-name")?);
      let (t, a) = action(trailing(&v)?)?;
      put(f_, "text", t);
      put(f_, "is_action", a);
      put(f_, "badges", l.badges()?);
      opt(f_, "color", l.some("color"));
      opt(f_, "reward", l.some("custom-reward-id"));
      opt(
        f_,
        "bits",
        match l.some("bits") {
          None => None,
          Some(s) => Some(canonical(s)?),
        },
      );
      put(f_, "emotes", l.t("emotes").unwrap_or(""));
      put(f_, "timestamp", l.ts()?);
      opt(
        f_,
        "reply",
        match l.t("reply-parent-msg-id") {
          None => None,
          Some(id) => Some(format!(
            "{:?} {:?} {:?} {} {:?}",
            l.t("reply-thread-parent-msg-id")?,
            l.t("reply-thread-parent-user-login")?,
            id,
            l.user("reply-parent-user-id", l.t("reply-parent-user-login"), "reply-parent-display-name")?,
            decode(l.t("reply-parent-msg-body")?)?
          )),
        },
      );
      opt(
        f_,
        "pinned",
        match l.t("pinned-chat-paid-amount") {
          None => None,
          Some(a) => {
            const LEVELS: [&str; 10] = ["ONE", "TWO", "THREE", "FOUR", "FIVE", "SIX", "SEVEN", "EIGHT", "NINE", "TEN"];
            let level = l.t("pinned-chat-paid-level")?;
            let n = LEVELS.iter().position(|x| *x == level)?;
            Some(format!("{} {:?} {} {level} {n} {}", signed(a)?, l.t("pinned-chat-paid-currency")?, signed(l.t("pinned-chat-paid-exponent")?)?, l.flag("pinned-chat-paid-is-system-message")??))
          }
        },
      );
    }
    "USERNOTICE" => {
      let id = l.t("msg-id")?;
      put(f_, "channel", v.channel.as_deref()?);
      put(f_, "channel_id", l.t("room-id")?);
      let t = trailing(&v);
      if t.is_none() && v.params.is_some() {
        return None;
      }
      opt(f_, "text", t);
      opt(
        f_,
        "system",
        match l.some("system-msg") {
          None => None,
          Some(s) => Some(decode(s)?),
        },
      );
      put(f_, "event_id", id);
      put(f_, "badges", l.badges()?);
      put(f_, "emotes", l.t("emotes").unwrap_or(""));
      opt(f_, "color", l.some("color"));
      put(f_, "message_id", l.t("id")?);
      put(f_, "timestamp", l.ts()?);
      let sender = l.user("user-id", l.t("login"), "display-name")?;
      let anon = l.t("user-id") == Some("274598607");
      let mut shown = format!("={sender}");
      let promo = || -> Option<String> {
        Some(match (l.some("msg-param-promo-gift-total"), l.t("msg-param-promo-name")) {
          (Some(n), Some(p)) => format!("promo {} {:?}", canonical(n)?, decode(p)?),
          _ => "no-promo".into(),
        })
      };
      let e = match id {
        "sub" | "resub" => {
          let streak = match l.some("msg-param-streak-months") {
            None => None,
            Some(s) => Some(canonical(s)?).filter(|n| *n > 0),
          };
          format!("sub {} {} {streak:?} {:?} {:?}", id == "resub", l.num("msg-param-cumulative-months")?, l.t("msg-param-sub-plan")?, decode(l.t("msg-param-sub-plan-name")?)?)
        }
        "raid" => format!("raid {} {:?}", l.num("msg-param-viewerCount")?, l.t("msg-param-profileImageURL")?),
        "subgift" | "anonsubgift" => {
          if anon || id == "anonsubgift" {
            shown = "<absent>".into();
          }
          format!(
            "gift {} {} {:?} {:?} {}",
            l.num("msg-param-months")?,
            l.user("msg-param-recipient-id", l.t("msg-param-recipient-user-name"), "msg-param-recipient-display-name")?,
            l.t("msg-param-sub-plan")?,
            decode(l.t("msg-param-sub-plan-name")?)?,
            l.num("msg-param-gift-months")?
          )
        }
        "submysterygift" if !anon => format!("mystery {} {} {:?}", l.num("msg-param-mass-gift-count")?, l.num("msg-param-sender-count")?, l.t("msg-param-sub-plan")?),
        "submysterygift" | "anonsubmysterygift" => {
          shown = "<absent>".into();
          format!("anonmystery {} {:?}", l.num("msg-param-mass-gift-count")?, l.t("msg-param-sub-plan")?)
        }
        "giftpaidupgrade" => format!("upgrade {:?} {:?} {}", l.t("msg-param-sender-login")?, decode(l.t("msg-param-sender-name")?)?, promo()?),
        "anongiftpaidupgrade" => {
          shown = NO_CLAIM.into();
          format!("anonupgrade {}", promo()?)
        }
        "ritual" => format!("ritual {:?}", l.t("msg-param-ritual-name")?),
        "bitsbadgetier" => format!("bitsbadge {}", l.num("msg-param-threshold")?),
        "announcement" => {
          format!("announce {:?}", l.t("msg-param-color").unwrap_or("PRIMARY"))
        }
        _ => {
          shown = NO_CLAIM.into();
          "unknown".into()
        }
      };
      put(f_, "event", e);
      put(f_, "sender", shown);
    }
    "WHISPER" => {
      let p = v.params.as_deref()?;
      let (r, t) = p.split_once(" :")?;
      if r.contains(' ') {
        return None;
      }
      put(f_, "recipient", r);
      put(f_, "sender", l.user("user-id", l.nick(), "display-name")?);
      put(f_, "text", t);
      put(f_, "badges", l.badges()?);
      put(f_, "emotes", l.t("emotes").unwrap_or(""));
      opt(f_, "color", l.some("color"));
    }
    _ => put(f_, "raw", line),
  }
  Some(f)
}

/// the conversions to one type each: (type, converted or not, its fields)
fn each(m: &IrcMessage) -> Vec<(&'static str, Option<Fields>)> {
  macro_rules! all {
    ($($t:ident $c:literal),*) => { vec![$(($c, $t::from_irc(m.as_ref()).ok().map(|x| actual(&Message::$t(x))))),*] };
  }
  all!(ClearChat "CLEARCHAT", ClearMsg "CLEARMSG", GlobalUserState "GLOBALUSERSTATE", Join "JOIN", Notice "NOTICE", Part "PART", Ping "PING", Pong "PONG", Privmsg "PRIVMSG", RoomState "ROOMSTATE", UserNotice "USERNOTICE", UserState "USERSTATE", Whisper "WHISPER")
}
pub fn check(m: &IrcMessage) -> Option<String> {
  let want = expected(m.raw())?;
  for how in 0..4 {
    let got = match how {
      0 => m.as_typed(),
      1 => m.as_ref().as_typed(),
      2 => Message::parse(m.raw()),
      _ => m.as_ref().try_into(),
    };
    let got = match got {
      Ok(g) => actual(&g),
      Err(_) => return Some(format!("does not convert: {:?}", m.raw())),
    };
    if let Some(d) = diff(&want, &got) {
      return Some(format!("{d} in {:?}", m.raw()));
    }
  }
  let v = reference(m.raw())?;
  for (c, got) in each(m) {
    match got {
      Some(_) if c != v.command => return Some(format!("converts to the type of {c}: {:?}", m.raw())),
      None if c == v.command => return Some(format!("does not convert to the type of {c}: {:?}", m.raw())),
      Some(g) => {
        if let Some(d) = diff(&want, &g) {
          return Some(format!("{d} (converted directly) in {:?}", m.raw()));
        }
      }
      None => {}
    }
  }
  for (k, x) in &v.tags {
    let Some(w) = decode(x) else { continue };
    for got in [tmi::unescape(x), tmi::maybe_unescape(x.as_str()).into_owned(), tmi::maybe_unescape(x.clone()).into_owned()] {
      if got != w {
        return Some(format!("tag {k}={x:?} decodes to {got:?}, announced {w:?}"));
      }
    }
  }
  None
}
pub fn diff(want: &Fields, got: &Fields) -> Option<String> {
  for (k, w) in want {
    if w == NO_CLAIM {
      continue;
    }
    match got.get(k) {
      Some(g) if g == w => {}
      g => return Some(format!("{k} reads {g:?}, announced {w:?}")),
    }
  }
  got.keys().find(|k| !want.contains_key(*k)).map(|k| format!("unexpected field {k}"))
}

// ------------------------------------------------------------------ announcements

const WORDS: &[&str] = &["a", "Kappa", "hello", "123", "LUL", "ünïcödé", "日本語", "🤖", ":)", "a:b", "=", ";", "#x", "@me", "!", "http://x.y/z?q=1;2", "\u{1}", "\\", "\\s", "~", "--"];

/// Lengths: mostly short, also right around sizes at which code tends to change its mind.
pub fn length(r: &mut Rng, max: u64) -> usize {
  let n = match r.n(20) {
    0..=11 => r.log(1, 60),
    12..=15 => {
      let k = *r.pick(&[
        8u64, 16, 20, 25, 30, 32, 50, 60, 64, 80, 100, 120, 128, 140, 200, 250, 255, 256, 300, 400, 450, 480, 500, 510, 512, 600, 800, 1000, 1024, 1500, 2000, 2048, 3000, 4000, 4096, 5000, 8000, 8192, 10_000, 16_384, 32_768, 65_536,
      ]);
      let k = if k > max { 1 + k % max.max(1) } else { k };
      (k + r.n(5)).saturating_sub(2)
    }
    _ => r.log(1, max.max(2)),
  };
  n.clamp(1, max.max(1)) as usize
}
const ODD: &[&str] = &[
  "a",
  "Z",
  "9",
  "x",
  "hi",
  "Kappa",
  "The",
  " ",
  "  ",
  "/",
  ".",
  ",",
  ":",
  ";",
  "=",
  "@",
  "#",
  "!",
  "*",
  "-",
  "_",
  "~",
  "%",
  "%s",
  "&",
  "?",
  "'",
  "\"",
  "\\",
  "\\s",
  "\\:",
  "\\n",
  "{}",
  "{",
  "}",
  "<b>",
  "(",
  ")",
  "[",
  "]",
  "|",
  "$",
  "^",
  "`",
  "+",
  "0",
  "00",
  "-1",
  "\t",
  "\u{1}",
  "\u{7f}",
  "\u{80}",
  "\u{a0}",
  "\u{ad}",
  "é",
  "ß",
  "İ",
  "ſ",
  "e\u{301}",
  "\u{34f}",
  "\u{37e}",
  "Ω",
  "я",
  "ش",
  "\u{200b}",
  "\u{200c}",
  "\u{200d}",
  "\u{200e}",
  "\u{202e}",
  "\u{2028}",
  "\u{2029}",
  "…",
  "\u{2800}",
  "\u{3000}",
  "日",
  "本",
  "\u{d7ff}",
  "\u{e000}",
  "\u{fe0f}",
  "\u{feff}",
  "\u{fffd}",
  "\u{ffff}",
  "🤖",
  "👩\u{200d}👩\u{200d}👧",
  "🇩🇪",
  "\u{e0000}",
  "\u{e0020}",
  "\u{10ffff}",
];
/// Text of any kind on one line.
pub fn strange(r: &mut Rng, max: u64) -> String {
  let n = length(r, max);
  let mut s = String::new();
  if r.chance(30) {
    s.push_str(r.pick(ODD));
  }
  match r.n(4) {
    0 => {
      while s.len() < n {
        s.push_str(r.pick(ODD));
      }
    }
    1 => {
      let p = *r.pick(ODD);
      while s.len() < n {
        s.push_str(p);
      }
    }
    _ => {
      while s.len() < n {
        match r.n(12) {
          0 => s.push(' '),
          1 => s.push_str(r.pick(ODD)),
          _ => s.push((b'a' + r.n(26) as u8) as char),
        }
      }
    }
  }
  if r.chance(30) {
    s.push_str(r.pick(ODD));
  }
  s
}
/// `[from]{1,max}`
pub fn name_of(r: &mut Rng, from: &str, max: u64) -> String {
  let b = from.as_bytes();
  (0..length(r, max)).map(|_| *r.pick(b) as char).collect()
}
pub const LOGIN: &str = "abcdefghijklmnopqrstuvwxyz0123456789_";
const IDENT: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_=/+.";

fn word(r: &mut Rng) -> String {
  if r.chance(8) {
    return strange(r, 60);
  }
  r.pick(WORDS).to_string()
}
pub fn text(r: &mut Rng) -> String {
  if r.chance(8) {
    return strange(r, 3000);
  }
  let n = if r.chance(3) { r.range(60, 300) } else { r.range(1, 8) };
  let mut v: Vec<String> = (0..n).map(|_| word(r)).collect();
  if v[0].starts_with('\u{1}') {
    v[0] = "x".into();
  }
  let mut s = v.join(if r.chance(10) { "  " } else { " " });
  if r.chance(3) {
    s = String::new();
  }
  if r.chance(12) {
    s = format!("\u{1}ACTION {s}\u{1}");
  } else if r.chance(3) {
    s = match r.range(0, 5) {
      0 => format!("\u{1}ACTION {s}"),
      1 => format!("ACTION {s}\u{1}"),
      2 => "\u{1}ACTION\u{1}".to_string(),
      3 => format!("\u{1}VERSION {s}\u{1}"),
      4 => format!(" \u{1}ACTION {s}\u{1}"),
      _ => format!("{s}\u{1}"),
    };
  }
  s
}
fn esc(s: &str) -> String {
  let mut o = String::new();
  for c in s.chars() {
    match c {
      ';' => o.push_str("\\:"),
      ' ' => o.push_str("\\s"),
      '\\' => o.push_str("\\\\"),
      '\r' => o.push_str("\\r"),
      '\n' => o.push_str("\\n"),
      c => o.push(c),
    }
  }
  o
}
/// a tag value with escapes
fn esc_text(r: &mut Rng) -> String {
  if r.chance(10) {
    return esc(&strange(r, 1500));
  }
  let n = r.range(0, 6);
  let mut s = (0..n).map(|_| word(r)).collect::<Vec<_>>().join(if r.chance(20) { "\n" } else { " " });
  if r.chance(10) {
    s.push_str("\r\\;; ");
  }
  if r.chance(10) {
    s.insert(0, ' ');
  }
  esc(&s)
}
fn id(r: &mut Rng) -> String {
  if r.chance(5) {
    return String::new();
  }
  if r.chance(10) {
    return name_of(r, IDENT, 300);
  }
  format!("{:08x}-{:04x}-4{:03x}-{:04x}-{:012x}", r.n(1 << 32), r.n(1 << 16), r.n(1 << 12), r.n(1 << 16), r.n(1 << 48))
}
/// The number of an optional tag, now and then an empty one (which says nothing).
fn numo(r: &mut Rng) -> String {
  if r.chance(4) {
    String::new()
  } else {
    num(r)
  }
}
fn num(r: &mut Rng) -> String {
  match r.n(12) {
    0 => "0".into(),
    1 => "1".into(),
    2 => u64::MAX.to_string(),
    3 => (u64::MAX - r.n(3)).to_string(),
    4 => u32::MAX.to_string(),
    5 => (1u64 << r.n(63)).to_string(),
    6 => ["255", "256", "65535", "65536", "127", "128"][r.n(6) as usize].into(),
    _ => r.log(1, 100_000).to_string(),
  }
}
/// Identifiers are text, whatever they look like today.
fn oid(r: &mut Rng) -> String {
  match r.n(12) {
    0 => id(r),
    1 => name_of(r, IDENT, 60),
    _ => num(r),
  }
}
fn inum(r: &mut Rng) -> String {
  match r.n(8) {
    0 => i64::MAX.to_string(),
    1 => i64::MIN.to_string(),
    2 => "-1".into(),
    _ => r.log(1, 1_000_000).to_string(),
  }
}
fn stamp(r: &mut Rng) -> String {
  match r.n(20) {
    0 => "0".into(),
    1 => "8210000000000000".into(),
    4 => (-(r.log(1, 8_210_000_000_000_000) as i64)).to_string(),
    2 => r.n(1_000_000_000_000).to_string(),
    3 => format!("{}999", 1_600_000_000 + r.n(200_000_000)),
    _ => (1_500_000_000_000 + r.n(300_000_000_000)).to_string(),
  }
}
fn chan(r: &mut Rng) -> String {
  if r.chance(15) {
    return format!("#{}", name_of(r, LOGIN, 200));
  }
  format!("#{}", r.pick(&["pajlada", "forsen", "x", "a_b_c", "jerma985", "chan_with_a_really_long_nam"]))
}
fn login(r: &mut Rng) -> String {
  if r.chance(15) {
    return name_of(r, LOGIN, 200);
  }
  (*r.pick(&["randers", "n_u_l", "x", "simuser", "a1234567890123456789012345", "99"])).to_string()
}
fn dname(r: &mut Rng) -> String {
  match r.n(8) {
    0 => "日本語".into(),
    1 => "Ran\\sders".into(),
    2 => "a\\\\b\\:c".into(),
    3 => String::new(),
    4 => esc(&strange(r, 200)),
    _ => "Randers".into(),
  }
}
fn color(r: &mut Rng) -> Option<String> {
  match r.n(4) {
    0 => None,
    1 => Some(String::new()),
    2 => Some((*r.pick(&["#FF0000", "#000000", "#FFFFFF"])).into()),
    _ => Some(format!("#{:06X}", r.n(1 << 24))),
  }
}
fn badge_tags(r: &mut Rng, t: &mut Vec<(String, String)>) {
  if r.chance(8) {
    return;
  }
  const B: &[&str] = &[
    "staff/1",
    "turbo/1",
    "broadcaster/1",
    "moderator/1",
    "subscriber/0",
    "subscriber/3012",
    "bits/1000",
    "premium/1",
    "predictions/blue-1",
    "vip/1",
    "sub-gifter/10",
    "glhf-pledge/1",
    "clip-champ/",
    "x/a/b",
    "bits-leader/2",
    "bits-charity/1",
    "subscriber-x/1",
    "founder/0",
    "fo/1",
  ];
  const I: &[&str] = &["subscriber/22", "subscriber/1", "subscriber/18446744073709551615", "predictions/abc", "founder/3", "bits/", "subscriber/0", "sub-gifter/x/y", "predictions/yes/no", "sub/1", "founder/12", "bits/1000", "SUBSCRIBER/3"];
  let mut b: Vec<String> = vec![];
  for _ in 0..(if r.chance(4) { length(r, 100) as u64 } else { r.n(5) }) {
    b.push(if r.chance(5) {
      format!("{}/{}", r.pick(B).split('/').next().unwrap(), name_of(r, IDENT, 60))
    } else if r.chance(10) { format!("{}/{}", name_of(r, "abcdefghijklmnopqrstuvwxyz-_0123456789", 60), name_of(r, IDENT, 30)) } else { r.pick(B).to_string() });
  }
  let mut i: Vec<String> = vec![];
  for _ in 0..(if r.chance(4) { length(r, 100) as u64 } else { r.n(3) }) {
    i.push(match r.n(10) {
      0 if !b.is_empty() => format!("{}/{}", r.pick(&b).split('/').next().unwrap(), name_of(r, IDENT, 30)),
      _ => r.pick(I).to_string(),
    });
  }
  t.push(("badges".into(), b.join(",")));
  t.push(("badge-info".into(), i.join(",")));
}

fn emotes(r: &mut Rng) -> String {
  match r.n(6) {
    0..=2 => String::new(),
    3 | 4 => "25:0-4,12-16/1902:6-10".into(),
    _ => {
      let n = if r.chance(10) { r.range(20, 200) } else { r.range(1, 6) };
      let v: Vec<String> = (0..n).map(|_| format!("{}:{}-{}", if r.chance(50) { num(r) } else { format!("emotesv2_{}", name_of(r, "0123456789abcdef", 32)) }, r.n(500), r.n(500))).collect();
      v.join("/")
    }
  }
}
fn emote_sets(r: &mut Rng) -> String {
  if r.chance(20) {
    let n = length(r, 300);
    return (0..n).map(|_| if r.chance(5) { name_of(r, IDENT, 20).replace(',', "") } else { num(r) }).collect::<Vec<_>>().join(",");
  }
  (*r.pick(&["0", "0,33,50,237", "", "0,,1", "0,300374282"])).into()
}

/// One announcement of the server, as a line.
pub fn event(r: &mut Rng) -> String {
  let mut t: Vec<(String, String)> = vec![];
  macro_rules! tag {
    ($k:expr, $v:expr) => {
      t.push(($k.to_string(), $v.to_string()))
    };
  }
  let ch = chan(r);
  let lg = login(r);
  let pre = match r.n(12) {
    0 => format!(":{lg}!{}@{}.tmi.twitch.tv ", login(r), login(r)),
    1 => format!(":{lg}@{}.tmi.twitch.tv ", login(r)),
    _ => format!(":{lg}!{lg}@{lg}.tmi.twitch.tv "),
  };
  let srv = ":tmi.twitch.tv ".to_string();
  let kind = r.n(30);
  let mut extra = true;
  let body;
  match kind {
    0..=7 => {
      badge_tags(r, &mut t);
      if let Some(c) = color(r) {
        tag!("color", c);
      }
      tag!("display-name", dname(r));
      if r.chance(80) {
        tag!("emotes", emotes(r));
      }
      tag!("id", id(r));
      tag!("room-id", oid(r));
      tag!("user-id", oid(r));
      tag!("tmi-sent-ts", stamp(r));
      if r.chance(25) {
        tag!("bits", numo(r));
      }
      if r.chance(25) {
        tag!("custom-reward-id", id(r));
      }
      if r.chance(20) {
        tag!("msg-id", r.pick(&["gigantified-emote-message", "highlighted-message", ""]));
      }
      if r.chance(35) {
        tag!("reply-parent-display-name", dname(r));
        tag!("reply-parent-msg-body", esc_text(r));
        tag!("reply-parent-msg-id", id(r));
        tag!("reply-parent-user-id", oid(r));
        tag!("reply-parent-user-login", login(r));
        tag!("reply-thread-parent-msg-id", id(r));
        tag!("reply-thread-parent-user-login", login(r));
      }
      if r.chance(25) {
        tag!("pinned-chat-paid-amount", inum(r));
        tag!("pinned-chat-paid-canonical-amount", inum(r));
        tag!("pinned-chat-paid-currency", if r.chance(20) { name_of(r, "ABCDEFGHIJKLMNOPQRSTUVWXYZ", 40) } else { r.pick(&["USD", "EUR", "JPY", ""]).to_string() });
        tag!("pinned-chat-paid-exponent", inum(r));
        tag!("pinned-chat-paid-level", r.pick(&["ONE", "TWO", "THREE", "FOUR", "FIVE", "SIX", "SEVEN", "EIGHT", "NINE", "TEN"]));
        tag!("pinned-chat-paid-is-system-message", r.n(2));
      }
      body = format!("{pre}PRIVMSG {ch} :{}", text(r));
    }
    8..=18 => {
      let ev = *r.pick(&["sub", "resub", "raid", "subgift", "anonsubgift", "submysterygift", "anonsubmysterygift", "giftpaidupgrade", "anongiftpaidupgrade", "ritual", "bitsbadgetier", "announcement", "primepaidupgrade", "midnightsquid"]);
      badge_tags(r, &mut t);
      if let Some(c) = color(r) {
        tag!("color", c);
      }
      tag!("display-name", dname(r));
      if r.chance(80) {
        tag!("emotes", emotes(r));
      }
      tag!("id", id(r));
      tag!("login", login(r));
      tag!("msg-id", ev);
      tag!("room-id", oid(r));
      if r.chance(85) {
        tag!("system-msg", esc_text(r));
      }
      tag!("tmi-sent-ts", stamp(r));
      let nobody = ev.contains("gift") && r.chance(25);
      tag!("user-id", if nobody { "274598607".to_string() } else { oid(r) });
      match ev {
        "sub" | "resub" => {
          tag!("msg-param-cumulative-months", num(r));
          if r.chance(60) {
            tag!("msg-param-streak-months", numo(r));
          }
          tag!("msg-param-sub-plan", if r.chance(8) { name_of(r, IDENT, 30) } else { r.pick(&["Prime", "1000", "2000", "3000"]).to_string() });
          tag!("msg-param-sub-plan-name", esc_text(r));
          tag!("msg-param-months", num(r));
          tag!("msg-param-should-share-streak", r.n(2));
        }
        "raid" => {
          tag!("msg-param-viewerCount", num(r));
          tag!("msg-param-profileImageURL", if r.chance(20) { format!("https://{}", name_of(r, IDENT, 500)) } else { "https://static-cdn.jtvnw.net/jtv_user_pictures/x-profile_image-70x70.png".into() });
          tag!("msg-param-displayName", dname(r));
          tag!("msg-param-login", login(r));
        }
        "subgift" | "anonsubgift" => {
          tag!("msg-param-months", num(r));
          tag!("msg-param-recipient-id", oid(r));
          tag!("msg-param-recipient-user-name", login(r));
          tag!("msg-param-recipient-display-name", dname(r));
          tag!("msg-param-sub-plan", if r.chance(8) { name_of(r, IDENT, 30) } else { r.pick(&["1000", "2000", "3000"]).to_string() });
          tag!("msg-param-sub-plan-name", esc_text(r));
          tag!("msg-param-gift-months", num(r));
        }
        "submysterygift" | "anonsubmysterygift" => {
          tag!("msg-param-mass-gift-count", num(r));
          // Twitch leaves it out for a gifter nobody may know
          if ev == "submysterygift" && !nobody || r.chance(50) {
            tag!("msg-param-sender-count", num(r));
          }
          tag!("msg-param-sub-plan", if r.chance(8) { name_of(r, IDENT, 30) } else { r.pick(&["1000", "2000", "3000"]).to_string() });
        }
        "giftpaidupgrade" | "anongiftpaidupgrade" => {
          tag!("msg-param-sender-login", login(r));
          tag!("msg-param-sender-name", dname(r));
          if r.chance(50) {
            let k = r.n(10);
            if k != 0 {
              tag!("msg-param-promo-gift-total", numo(r));
            }
            if k == 1 {
              // the other one alone
            } else {
              tag!("msg-param-promo-name", if r.chance(20) { esc(&strange(r, 300)) } else { r.pick(&["Subtember\\s2018", "TestSubtember2020", ""]).to_string() });
            }
          }
        }
        "ritual" => tag!("msg-param-ritual-name", if r.chance(50) { name_of(r, LOGIN, 60) } else { "new_chatter".into() }),
        "bitsbadgetier" => tag!("msg-param-threshold", num(r)),
        "announcement" => {
          if r.chance(80) {
            tag!("msg-param-color", if r.chance(15) { name_of(r, "ABCDEFGHIJKLMNOPQRSTUVWXYZ#0123456789", 60) } else { r.pick(&["PRIMARY", "BLUE", "GREEN", "ORANGE", "PURPLE", ""]).to_string() });
          }
        }
        _ => {}
      }
      body = if r.chance(50) { format!("{srv}USERNOTICE {ch}") } else { format!("{srv}USERNOTICE {ch} :{}", text(r)) };
    }
    19 | 20 => {
      tag!("room-id", oid(r));
      tag!("tmi-sent-ts", stamp(r));
      match r.n(3) {
        0 => body = format!("{srv}CLEARCHAT {ch}"),
        k => {
          if k == 1 {
            tag!("ban-duration", num(r));
          }
          tag!("target-user-id", oid(r));
          body = format!("{srv}CLEARCHAT {ch} :{}", login(r));
        }
      }
    }
    21 => {
      tag!("login", login(r));
      tag!("room-id", if r.chance(50) { String::new() } else { oid(r) });
      tag!("target-msg-id", id(r));
      tag!("tmi-sent-ts", stamp(r));
      body = format!("{srv}CLEARMSG {ch} :{}", text(r));
    }
    22 | 23 => {
      tag!("room-id", oid(r));
      for k in ["emote-only", "r9k", "subs-only"] {
        if r.chance(60) {
          tag!(k, if r.chance(4) { String::new() } else { r.n(2).to_string() });
        }
      }
      if r.chance(60) {
        tag!("slow", numo(r));
      }
      if r.chance(70) {
        let f = match r.n(6) {
          0 if r.chance(15) => String::new(),
          0 => "-1".to_string(),
          1 => "0".into(),
          2 => i64::MAX.to_string(),
          3 => (i64::MAX / 60 + r.n(3) as i64 - 1).to_string(),
          4 => (1u64 << r.n(62)).to_string(),
          _ => r.log(1, 100_000).to_string(),
        };
        tag!("followers-only", f);
      }
      body = format!("{srv}ROOMSTATE {ch}");
    }
    24 | 25 => {
      badge_tags(r, &mut t);
      if let Some(c) = color(r) {
        tag!("color", c);
      }
      tag!("display-name", dname(r));
      if r.chance(85) {
        tag!("emote-sets", emote_sets(r));
      }
      if kind == 24 {
        tag!("user-id", oid(r));
        body = format!("{srv}GLOBALUSERSTATE");
      } else {
        body = format!("{srv}USERSTATE {ch}");
      }
    }
    26 => {
      badge_tags(r, &mut t);
      if r.chance(80) {
        t.retain(|(k, _)| k != "badge-info");
      }
      if let Some(c) = color(r) {
        tag!("color", c);
      }
      tag!("display-name", dname(r));
      if r.chance(80) {
        tag!("emotes", emotes(r));
      }
      tag!("message-id", oid(r));
      tag!("thread-id", format!("{}_{}", num(r), num(r)));
      tag!("user-id", oid(r));
      body = format!("{pre}WHISPER {} :{}", login(r), text(r));
    }
    27 => {
      if r.chance(80) {
        tag!("msg-id", if r.chance(30) { name_of(r, LOGIN, 60) } else { r.pick(&["slow_off", "msg_banned", "already_banned"]).to_string() });
      }
      body = if r.chance(70) { format!("{srv}NOTICE {ch} :{}", text(r)) } else { format!("{srv}NOTICE * :{}", text(r)) };
    }
    28 => {
      extra = false;
      body = match r.n(3) {
        0 => format!("{pre}JOIN {ch}"),
        1 => format!("{pre}PART {ch}"),
        _ => format!("{srv}RECONNECT"),
      };
    }
    _ => {
      extra = false;
      body = match r.n(5) {
        0 => "PING".to_string(),
        1 => "PING :tmi.twitch.tv".into(),
        2 => format!("PING :{}", text(r)),
        3 => format!("{srv}PONG tmi.twitch.tv :{}", text(r)),
        _ => format!("{srv}PONG"),
      };
    }
  }
  if extra {
    // tags this library has no field for
    for _ in 0..r.n(4) {
      let known = r.chance(40);
      let k = *r.pick(if known { crate::lines::KEYS } else { &["mod", "subscriber", "turbo", "user-type", "flags", "first-msg", "client-nonce", "returning-chatter", "vip", "source-id", "x-unknown", "sent-ts"] });
      if t.iter().any(|(o, _)| o == k) {
        continue;
      }
      t.push((k.into(), if r.chance(10) { esc(&strange(r, 200)) } else { r.pick(&["", "0", "1", "mod", "a/b"]).to_string() }));
    }
    if r.chance(50) {
      // order of tags is not fixed
      for i in (1..t.len()).rev() {
        let j = r.n(i as u64 + 1) as usize;
        t.swap(i, j);
      }
    }
  }
  if t.is_empty() {
    body
  } else {
    format!("@{} {body}", t.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(";"))
  }
}
