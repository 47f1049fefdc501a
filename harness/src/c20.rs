//! C20: levels of hype chats.
use crate::spec::LEVELS;
use crate::sym::*;
use tmi::msg::*;
use tmi::{FromIrc, IrcMessageRef};

use PinnedChatLevel as P;
const ALL: [P; 10] = [P::ONE, P::TWO, P::THREE, P::FOUR, P::FIVE, P::SIX, P::SEVEN, P::EIGHT, P::NINE, P::TEN];

#[no_mangle]
pub extern "C" fn c20_levels() {
  let a = choice(10);
  let b = choice(10);
  let (x, y) = (ALL[a], ALL[b]);
  check_str(x.as_str(), LEVELS[a], 1);
  check((u8::from(x) == u8::from(y)) == (a == b), 2);
  check((x.as_str() == y.as_str()) == (a == b), 3);
  check((x == y) == (a == b), 4);
  check(P::try_from(u8::from(x)) == Ok(x), 5);
  check(x.as_str().parse::<P>() == Ok(x), 6);
  check(u8::from(P::MIN) <= u8::from(x) && u8::from(x) <= u8::from(P::MAX), 7);
  check((u8::from(x) < u8::from(y)) == (a < b), 8);
  check(serde_json::to_string(&x).is_ok_and(|s| serde_json::from_str::<P>(&s).is_ok_and(|z| z == x)), 9);
  reach(1);
}

/// Every number.
#[no_mangle]
pub extern "C" fn c20_numbers() {
  let n = byte(|_| true);
  let mut level = None;
  for x in ALL {
    if u8::from(x) == n {
      level = Some(x);
    }
  }
  match P::try_from(n) {
    Ok(x) => {
      check(Some(x) == level, 1);
      check(u8::from(x) == n, 2);
      reach(1);
    }
    Err(()) => {
      check(level.is_none(), 3);
      reach(2);
    }
  }
}

fn string(s: &str) {
  let want = LEVELS.iter().position(|l| *l == s);
  match s.parse::<P>() {
    Ok(x) => {
      check(want.is_some_and(|w| ALL[w] == x), 1);
      check_str(x.as_str(), s, 2);
      reach(1);
    }
    Err(()) => {
      check(want.is_none(), 3);
      reach(2);
    }
  }
}

/// Any short string.
#[no_mangle]
pub extern "C" fn c20_strings() {
  let mut l = L::new();
  l.hole_u(0, by(6, 8), cl::ascii);
  string(l.str());
}

/// Names with one change.
#[no_mangle]
pub extern "C" fn c20_near() {
  let mut l = L::new();
  let s = pick(LEVELS);
  let p = choice(s.len() + 1);
  l.s(&s[..p]);
  match choice(3) {
    0 => {
      l.sym(1, cl::ascii);
      l.s(if p < s.len() { &s[p + 1..] } else { "" });
    }
    1 => {
      l.sym(1, cl::ascii);
      l.s(&s[p..]);
    }
    _ => {
      l.s(if p < s.len() { &s[p + 1..] } else { "" });
    }
  }
  string(l.str());
}

/// The level of a message.
#[no_mangle]
pub extern "C" fn c20_message() {
  let mut l = L::new();
  l.s("@display-name=n;id=i;pinned-chat-paid-amount=1;pinned-chat-paid-currency=USD;pinned-chat-paid-exponent=2;pinned-chat-paid-is-system-message=0;pinned-chat-paid-level=");
  let r = if flag() { l.pick(LEVELS) } else { l.hole(0, by(3, 5), cl::valx) };
  l.s(";room-id=1;tmi-sent-ts=0;user-id=2 :n!n@h PRIVMSG #c :t");
  let Some(m) = IrcMessageRef::parse(l.str()).and_then(|i| Privmsg::from_irc(i).ok()) else {
    fail(1);
    return;
  };
  let want = LEVELS.iter().position(|v| *v == l.get(&r));
  match (m.pinned_chat(), want) {
    (Some(p), Some(w)) => {
      reach(1);
      check(p.paid_level() == ALL[w], 2);
    }
    (None, None) => {}
    _ => fail(3),
  }
}
