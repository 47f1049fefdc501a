//! C13: moderation.
use crate::spec::*;
use crate::sym::*;
use tmi::msg::*;
use tmi::{FromIrc, IrcMessageRef};

const CHAT: &[Spec] = &[
  Spec("ban-duration", "60", K::U64),
  Spec("room-id", "1114", K::Text),
  Spec("target-user-id", "702", K::Text),
  Spec("tmi-sent-ts", "1594561360331", K::Ts),
];

const MSG: &[Spec] = &[
  Spec("login", "alazy", K::Text),
  Spec("room-id", "1114", K::Text),
  Spec("target-msg-id", "3c92", K::Text),
  Spec("tmi-sent-ts", "1594561360331", K::Ts),
];

fn clear_chat(x: &Line) {
  let Some(irc) = IrcMessageRef::parse(x.l.str()) else {
    fail(1);
    return;
  };
  let time = x.get("tmi-sent-ts").and_then(ts);
  let ok = x.channel().is_some() && x.has("room-id") && time.is_some() && (x.text().is_none() || x.has("target-user-id"));
  let m = match ClearChat::from_irc(irc) {
    Ok(m) => m,
    Err(_) => {
      reach(1);
      check(!ok, 2);
      return;
    }
  };
  reach(2);
  check(ok, 3);
  check_opt(Some(m.channel()), x.channel(), 10);
  check_opt(Some(m.channel_id()), x.get("room-id"), 11);
  check_time(m.timestamp(), time.unwrap_or(0), 12);
  check_opt(m.target(), x.text(), 13);
  let duration = x.get("ban-duration").and_then(u);
  let a = m.action();
  match (x.text(), duration) {
    (None, _) => {
      reach(3);
      check(a.is_clear() && !a.is_ban() && !a.is_time_out(), 14);
      check(matches!(a, Action::Clear), 15);
    }
    (Some(user), Some(d)) => {
      reach(4);
      check(!a.is_clear() && !a.is_ban() && a.is_time_out(), 16);
      if let Action::TimeOut(t) = a {
        check_str(t.user(), user, 17);
        check_opt(Some(t.id()), x.get("target-user-id"), 18);
        check(t.duration().as_secs() == d, 19);
        check(t.duration().subsec_nanos() == 0, 20);
      } else {
        fail(21);
      }
    }
    (Some(user), None) => {
      reach(5);
      check(!a.is_clear() && a.is_ban() && !a.is_time_out(), 22);
      if let Action::Ban(t) = a {
        check_str(t.user(), user, 23);
        check_opt(Some(t.id()), x.get("target-user-id"), 24);
      } else {
        fail(25);
      }
    }
  }
  observe_opt(m.target());
}

fn clear_msg(x: &Line) {
  let Some(irc) = IrcMessageRef::parse(x.l.str()) else {
    fail(1);
    return;
  };
  let time = x.get("tmi-sent-ts").and_then(ts);
  let ok = x.channel().is_some() && x.has("room-id") && x.has("login") && x.has("target-msg-id") && time.is_some() && x.text().is_some();
  let m = match ClearMsg::from_irc(irc) {
    Ok(m) => m,
    Err(_) => {
      reach(1);
      check(!ok, 2);
      return;
    }
  };
  reach(2);
  check(ok, 3);
  check_opt(Some(m.channel()), x.channel(), 40);
  check_opt(Some(m.channel_id()), x.get("room-id"), 41);
  check_opt(Some(m.sender()), x.get("login"), 42);
  check_opt(Some(m.target_message_id()), x.get("target-msg-id"), 43);
  check_time(m.timestamp(), time.unwrap_or(0), 44);
  let text = x.text().unwrap_or("");
  let action = text.starts_with("\u{1}ACTION ") && text.ends_with('\u{1}');
  check(m.is_action() == action, 45);
  check_str(m.text(), if action { &text[8..text.len() - 1] } else { text }, 46);
  observe(m.text().as_bytes());
}

#[no_mangle]
pub extern "C" fn c13_chat_tags() {
  clear_chat(&vary_tags(CHAT, "CLEARCHAT"));
}

#[no_mangle]
pub extern "C" fn c13_chat_tail() {
  clear_chat(&vary_tail(if flag() { CHAT } else { &CHAT[1..] }, "CLEARCHAT"));
}

/// A cleared chat: no text, any tags.
#[no_mangle]
pub extern "C" fn c13_clear() {
  let mut l = L::new();
  let tags = tags(&mut l, if flag() { CHAT } else { &CHAT[1..] });
  l.s(":tmi.twitch.tv CLEARCHAT ");
  let c = l.s("#chan");
  if flag() {
    l.s(" ");
  }
  let t = Tail { nick: None, channel: Some(c), params: None, text: None };
  clear_chat(&Line { l, tags, t });
}

#[no_mangle]
pub extern "C" fn c13_msg_tags() {
  clear_msg(&vary_tags(MSG, "CLEARMSG"));
}

#[no_mangle]
pub extern "C" fn c13_msg_tail() {
  clear_msg(&vary_tail(MSG, "CLEARMSG"));
}

/// Deleted actions.
#[no_mangle]
pub extern "C" fn c13_msg_action() {
  let mut l = L::new();
  let tags = plain_tags(&mut l, MSG);
  l.s(":tmi.twitch.tv CLEARMSG ");
  let c = l.s("#chan");
  l.s(" ");
  let p = l.len();
  l.s(":");
  let st = l.len();
  l.s("\u{1}ACTION ");
  l.hole(0, by(3, 4), cl::ascii);
  if flag() {
    l.s("\u{1}");
  }
  let t = Tail { nick: None, channel: Some(c), params: Some(p..l.len()), text: Some(st..l.len()) };
  clear_msg(&Line { l, tags, t });
}

#[no_mangle]
pub extern "C" fn c13_long() {
  if flag() {
    clear_chat(&vary_long(CHAT, "CLEARCHAT"));
  } else {
    clear_msg(&vary_long(MSG, "CLEARMSG"));
  }
}
