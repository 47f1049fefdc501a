//! C11: chat messages.
use crate::spec::*;
use crate::sym::*;
use tmi::msg::*;
use tmi::{FromIrc, IrcMessageRef};

const SPEC: &[Spec] = &[
  Spec("badge-info", "subscriber/3", K::Fixed),
  Spec("badges", "moderator/1,subscriber/12,x/2", K::Fixed),
  Spec("bits", "10", K::U64),
  Spec("color", "#0000FF", K::Text),
  Spec("custom-reward-id", "be22", K::Text),
  Spec("display-name", "Na\\sme", K::Text),
  Spec("emotes", "25:0-4", K::Text),
  Spec("id", "e9d9", K::Text),
  Spec("msg-id", "highlighted", K::Text),
  Spec("room-id", "1114", K::Text),
  Spec("tmi-sent-ts", "1594545155039", K::Ts),
  Spec("user-id", "2980", K::Text),
];

const REPLY: &[Spec] = &[
  Spec("display-name", "Name", K::Fixed),
  Spec("id", "e9d9", K::Fixed),
  Spec("reply-parent-display-name", "Re\\s", K::Text),
  Spec("reply-parent-msg-body", "he\\sllo", K::Text),
  Spec("reply-parent-msg-id", "6b13", K::Text),
  Spec("reply-parent-user-id", "379", K::Text),
  Spec("reply-parent-user-login", "reto", K::Text),
  Spec("reply-thread-parent-msg-id", "6b14", K::Text),
  Spec("reply-thread-parent-user-login", "reta", K::Text),
  Spec("room-id", "37", K::Fixed),
  Spec("tmi-sent-ts", "1673925983585", K::Fixed),
  Spec("user-id", "133", K::Fixed),
];

const PAID: &[Spec] = &[
  Spec("display-name", "Name", K::Fixed),
  Spec("id", "e9d9", K::Fixed),
  Spec("pinned-chat-paid-amount", "20", K::I64),
  Spec("pinned-chat-paid-canonical-amount", "200", K::Fixed),
  Spec("pinned-chat-paid-currency", "USD", K::Text),
  Spec("pinned-chat-paid-exponent", "2", K::I64),
  Spec("pinned-chat-paid-is-system-message", "0", K::Flag),
  Spec("pinned-chat-paid-level", "ONE", K::Level),
  Spec("room-id", "37", K::Fixed),
  Spec("tmi-sent-ts", "1687471984306", K::Fixed),
  Spec("user-id", "133", K::Fixed),
];

fn verify(x: &Line) {
  let Some(irc) = IrcMessageRef::parse(x.l.str()) else {
    fail(1);
    return;
  };
  let time = x.get("tmi-sent-ts").and_then(ts);
  let ok = x.channel().is_some() && x.text().is_some() && x.nick().is_some() && x.has("room-id") && x.has("id") && x.has("user-id") && x.has("display-name") && time.is_some();
  let m = match Privmsg::from_irc(irc) {
    Ok(m) => m,
    Err(_) => {
      reach(1);
      check(!ok, 2);
      return;
    }
  };
  reach(2);
  check(ok, 3);
  check_opt(Some(m.channel()), x.channel(), 10);
  check_opt(Some(m.channel_id()), x.get("room-id"), 11);
  check_opt(Some(m.id()), x.get("id"), 12);
  check_opt(m.msg_id(), x.get("msg-id"), 13);
  check_user(m.sender(), x.get("user-id"), x.nick(), x.get("display-name"), 14);
  check_opt(m.color(), x.filled("color"), 15);
  check_opt(m.custom_reward_id(), x.filled("custom-reward-id"), 16);
  let bits = x.get("bits").and_then(u);
  check(m.bits() == bits, 17);
  check_str(m.raw_emotes(), x.get("emotes").unwrap_or(""), 18);
  check_time(m.timestamp(), time.unwrap_or(0), 19);
  check_badges(m.badges(), m.num_badges(), x.get("badges"), x.get("badge-info"), 20);
  // the text: see C19 for actions
  let text = x.text().unwrap_or("");
  if !text.starts_with('\u{1}') {
    check_str(m.text(), text, 30);
    check(!m.is_action(), 31);
  }
  let reply = x.has("reply-parent-msg-id") && x.has("reply-thread-parent-msg-id") && x.has("reply-thread-parent-user-login") && x.has("reply-parent-user-id") && x.has("reply-parent-user-login") && x.has("reply-parent-display-name") && x.has("reply-parent-msg-body");
  check(m.reply_to().is_some() == reply, 40);
  if let Some(r) = m.reply_to() {
    reach(3);
    check_opt(Some(r.thread_parent_message_id()), x.get("reply-thread-parent-msg-id"), 41);
    check_opt(Some(r.thread_parent_user_login()), x.get("reply-thread-parent-user-login"), 42);
    check_opt(Some(r.message_id()), x.get("reply-parent-msg-id"), 43);
    check_user(r.sender(), x.get("reply-parent-user-id"), x.get("reply-parent-user-login"), x.get("reply-parent-display-name"), 44);
    let want = x.get("reply-parent-msg-body").map(unescape);
    let got = r.text();
    check_opt(Some(&got), want.as_deref(), 45);
  }
  let amount = x.get("pinned-chat-paid-amount").and_then(i);
  let exponent = x.get("pinned-chat-paid-exponent").and_then(i);
  let level = x.get("pinned-chat-paid-level").and_then(|v| LEVELS.iter().position(|l| *l == v));
  let paid = amount.is_some() && exponent.is_some() && level.is_some() && x.has("pinned-chat-paid-currency") && x.has("pinned-chat-paid-is-system-message");
  check(m.pinned_chat().is_some() == paid, 50);
  if let Some(p) = m.pinned_chat() {
    reach(4);
    check(Some(p.paid_amount()) == amount, 51);
    check_opt(Some(p.paid_currency()), x.get("pinned-chat-paid-currency"), 52);
    check(Some(p.paid_exponent()) == exponent, 53);
    check(Some(p.paid_level().as_str()) == level.map(|l| LEVELS[l]), 54);
    let f = x.get("pinned-chat-paid-is-system-message").unwrap_or("");
    check(p.is_system_message() == (f == "1"), 55);
  }
  observe(m.text().as_bytes());
  observe(m.sender().login().as_bytes());
}

#[no_mangle]
pub extern "C" fn c11_tags() {
  verify(&vary_tags(SPEC, "PRIVMSG"));
}

#[no_mangle]
pub extern "C" fn c11_reply() {
  verify(&vary_tags(REPLY, "PRIVMSG"));
}

#[no_mangle]
pub extern "C" fn c11_paid() {
  verify(&vary_tags(PAID, "PRIVMSG"));
}

#[no_mangle]
pub extern "C" fn c11_tail() {
  verify(&vary_tail([SPEC, REPLY, PAID][choice(3)], "PRIVMSG"));
}

#[no_mangle]
pub extern "C" fn c11_long() {
  verify(&vary_long([SPEC, REPLY, PAID][choice(3)], "PRIVMSG"));
}
