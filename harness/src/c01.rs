//! C01: nothing a server sends can crash the parser.
use crate::sym::*;
use crate::typed::{line, touch, LINES};
use tmi::msg::*;
use tmi::{FromIrc, IrcMessage, IrcMessageRef, Message, Tag};

/// Parses and calls every accessor.
pub fn exercise(s: &str, typed: bool) {
  let Some(m) = IrcMessageRef::parse(s) else {
    reach(1);
    check(IrcMessage::parse(s).is_none(), 1);
    return;
  };
  reach(2);
  let mut n = 0usize;
  for (k, v) in m.tags() {
    n += k.len() + v.len();
  }
  check(n <= s.len(), 2);
  if let Some(p) = m.prefix() {
    let shown = p.to_string();
    observe(shown.as_bytes());
  }
  observe(m.command().as_str().as_bytes());
  observe_opt(m.channel());
  observe_opt(m.params());
  observe_opt(m.text());
  observe_opt(m.tag(Tag::Id));
  observe_opt(m.tag("zz"));
  observe(m.raw().as_bytes());
  let Some(o) = IrcMessage::parse(s) else {
    fail(3);
    return;
  };
  observe_opt(o.channel());
  observe_opt(o.text());
  observe_opt(o.tag("zz"));
  if typed {
    if let Ok(t) = m.as_typed() {
      reach(3);
      touch(&t);
    }
  }
}

/// Any UTF-8 string.
#[no_mangle]
pub extern "C" fn c01_free() {
  let n = choice(by(7, 9));
  let mut b = vec![0u8; n];
  fill(&mut b);
  if let Ok(s) = core::str::from_utf8(&b) {
    exercise(s, true);
  }
}

/// Any string that starts like a tag section.
#[no_mangle]
pub extern "C" fn c01_tags() {
  let mut l = L::aligned(pick(&[0, 15]));
  l.s("@");
  l.hole_u(0, by(5, 7), cl::ascii);
  exercise(l.str(), false);
}

/// Every prefix of complete lines; the last byte kept is symbolic.
#[no_mangle]
pub extern "C" fn c01_cut() {
  let mut l = L::new();
  let k = choice(LINES.len());
  line(&mut l, k, 0);
  let n = l.len();
  let at = choice(n);
  l.b.truncate(l.off + at);
  // not inside a multi-byte character: the lines are ASCII
  l.hole(0, 1, cl::ascii);
  exercise(l.str(), true);
}

/// One symbolic byte anywhere in complete lines.
#[no_mangle]
pub extern "C" fn c01_flip() {
  let mut l = L::new();
  let k = choice(LINES.len());
  line(&mut l, k, 0);
  let at = choice(l.len());
  let b = byte(cl::ascii);
  let i = l.off + at;
  l.b[i] = b;
  exercise(l.str(), true);
}

/// Windows of symbolic bytes around the vector boundaries of a tag section.
#[no_mangle]
pub extern "C" fn c01_window() {
  let mut l = L::aligned(pick(if THOROUGH { &[0, 1, 15, 16, 31] } else { &[0, 15] }));
  l.s("@k=");
  let n = pick(if THOROUGH { &[8, 11, 12, 13, 14, 15, 16, 25, 26, 27, 28, 29, 30, 31, 32, 45, 60, 61, 62, 63, 64, 76, 77, 92, 124, 125] } else { &[10, 11, 12, 13, 14, 28, 29, 30, 44, 61, 62, 125] });
  l.rep(b'v', n);
  l.sym(by(3, 4), cl::ascii);
  let rest = pick(&[0, 1, 2, 13, 14, 17, 33]);
  l.rep(b'w', rest);
  if flag() {
    l.s(" CMD");
  }
  exercise(l.str(), false);
}

/// More tags than Twitch ever sends.
#[no_mangle]
pub extern "C" fn c01_many() {
  let mut l = L::aligned_cap(0, 16384);
  l.s("@");
  let n = pick(&[126usize, 127, 128, 129, 130, 255, 256, 257, 1000]);
  let form = choice(4);
  for _ in 0..n {
    l.s(["a=b;", "=;", "k=;", ";="][form]);
  }
  l.hole(0, 2, cl::ascii);
  if flag() {
    l.s(" PING");
  }
  exercise(l.str(), false);
}

/// Keys, values, prefixes and words beyond 65535 bytes.
#[no_mangle]
pub extern "C" fn c01_long() {
  let mut l = L::aligned_cap(0, 400_000);
  let n = pick(&[65534usize, 65535, 65536, 65537, 131072]);
  match choice(6) {
    0 => {
      l.s("@a=");
      l.rep(b'v', n);
      l.s(";b=1 PING");
    }
    1 => {
      l.s("@");
      l.rep(b'k', n);
      l.s("=1;b=1 PING");
    }
    2 => {
      l.s("@");
      l.rep(b'k', n);
      l.s(" PING");
    }
    3 => {
      l.s(":");
      l.rep(b'h', n);
      l.s("!u@h PING");
    }
    4 => {
      l.rep(b'C', n);
      l.s(" #c :x");
    }
    _ => {
      l.s("@a=\u{e9}");
      l.rep(b'v', n);
      l.s("\u{e9}");
      l.rep(b';', 3);
      l.s("=\u{e9} JOIN #");
      l.rep(b'c', n);
    }
  }
  l.sym(1, cl::ascii);
  exercise(l.str(), false);
}

const NUMS: &[(&str, &str)] = &[
  ("PRIVMSG", "bits"), ("PRIVMSG", "tmi-sent-ts"), ("PRIVMSG", "pinned-chat-paid-amount"), ("PRIVMSG", "pinned-chat-paid-exponent"),
  ("PRIVMSG", "pinned-chat-paid-is-system-message"),
  ("ROOMSTATE", "followers-only"), ("ROOMSTATE", "slow"), ("ROOMSTATE", "emote-only"), ("CLEARCHAT", "ban-duration"),
  ("CLEARCHAT", "tmi-sent-ts"), ("CLEARMSG", "tmi-sent-ts"), ("USERNOTICE", "tmi-sent-ts"),
  ("resub", "msg-param-cumulative-months"), ("resub", "msg-param-streak-months"), ("raid", "msg-param-viewerCount"),
  ("subgift", "msg-param-months"), ("subgift", "msg-param-gift-months"), ("submysterygift", "msg-param-mass-gift-count"),
  ("submysterygift", "msg-param-sender-count"), ("giftpaidupgrade", "msg-param-promo-gift-total"), ("bitsbadgetier", "msg-param-threshold"),
];

pub fn number(l: &mut L) {
  match choice(9) {
    0 => {
      l.hole(0, by(3, 4), cl::valx);
    }
    1 => {
      // around the limits of i64 and u64
      l.pick(&["922337203685477580", "1844674407370955161", "15372286728091293", "30744573456182586", "-922337203685477580"]);
      l.sym(1, cl::valx);
    }
    2 => {
      // around i64::MAX / 60 and u64::MAX / 60, seconds and milliseconds
      l.pick(&["1537228672809129", "3074457345618258", "153722867280912930", "9223372036854775", "18446744073709551", "307445734561825860", "8210266876799", "-8334601228800", "821026687679999", "-833460122880000"]);
      l.sym(2, cl::digit);
    }
    3 => {
      l.s("99999999999999999999999999999999999999");
    }
    4 => {
      l.s("-");
      l.sym(1, cl::digit);
    }
    5 => {
      l.s("+");
      l.sym(1, cl::digit);
    }
    6 => {
      l.s("25");
      l.sym(1, cl::digit);
    }
    7 => {
      l.s("429496729");
      l.sym(1, cl::digit);
    }
    _ => {
      l.s("1.5e3");
    }
  }
}

/// Hostile numbers in every numeric tag.
#[no_mangle]
pub extern "C" fn c01_numbers() {
  let (cmd, tag) = NUMS[choice(NUMS.len())];
  let mut l = L::new();
  l.s("@room-id=1;id=2;user-id=3;login=l;display-name=D;target-user-id=4;target-msg-id=5;");
  l.s(tag);
  l.s("=");
  number(&mut l);
  for (k, v) in [
    ("tmi-sent-ts", "1594545155039"), ("pinned-chat-paid-amount", "200"), ("pinned-chat-paid-currency", "USD"), ("pinned-chat-paid-exponent", "2"),
    ("pinned-chat-paid-is-system-message", "0"), ("pinned-chat-paid-level", "TWO"), ("msg-param-cumulative-months", "1"), ("msg-param-streak-months", "1"),
    ("msg-param-viewerCount", "1"), ("msg-param-profileImageURL", "u"), ("msg-param-months", "1"), ("msg-param-gift-months", "1"),
    ("msg-param-recipient-id", "1"), ("msg-param-recipient-user-name", "u"), ("msg-param-recipient-display-name", "U"), ("msg-param-sub-plan", "1000"),
    ("msg-param-sub-plan-name", "P"), ("msg-param-mass-gift-count", "1"), ("msg-param-sender-count", "1"), ("msg-param-promo-gift-total", "1"),
    ("msg-param-promo-name", "N"), ("msg-param-sender-login", "s"), ("msg-param-sender-name", "S"), ("msg-param-threshold", "1"),
  ] {
    l.s(";");
    l.s(k);
    l.s("=");
    l.s(v);
  }
  if cmd.as_bytes()[0] >= b'a' {
    l.s(";msg-id=");
    l.s(cmd);
    l.s(" :n!u@h USERNOTICE #c :text");
  } else {
    if cmd == "USERNOTICE" {
      l.s(";msg-id=announcement");
    }
    l.s(" :n!u@h ");
    l.s(cmd);
    l.s(" #c :text");
  }
  exercise(l.str(), true);
}

/// Hostile badges and emote sets.
#[no_mangle]
pub extern "C" fn c01_badges() {
  let mut l = L::new();
  l.s("@badges=");
  l.hole_u(0, by(3, 4), cl::valx);
  l.s(";badge-info=");
  l.hole(0, by(2, 3), cl::valx);
  l.s(";user-id=1;display-name=\\");
  l.hole(0, 1, cl::valx);
  l.s(";emote-sets=");
  l.hole(0, 1, cl::valx);
  l.s(" GLOBALUSERSTATE");
  exercise(l.str(), true);
}

/// Every prefix shape.
#[no_mangle]
pub extern "C" fn c01_prefix() {
  let mut l = L::new();
  l.pick(&["", "@a=b "]);
  l.s(":");
  l.hole_u(0, by(4, 6), cl::ascii);
  if flag() {
    l.s(" JOIN #c");
  }
  exercise(l.str(), true);
}

/// Takes what is printed and counts it.
struct Count(usize);

impl core::fmt::Write for Count {
  fn write_str(&mut self, s: &str) -> core::fmt::Result {
    self.0 = self.0.wrapping_add(s.len());
    Ok(())
  }
}

fn debug(s: &str) {
  use core::fmt::Write;
  let Some(m) = IrcMessageRef::parse(s) else { return };
  let mut c = Count(0);
  reach(8);
  check(write!(c, "{m:?}").is_ok(), 20);
  check(write!(c, "{:?}{}", m.command(), m.command()).is_ok(), 21);
  if let Some(o) = IrcMessage::parse(s) {
    check(write!(c, "{o:#?}").is_ok(), 22);
  }
  if let Ok(t) = m.as_typed() {
    reach(9);
    check(write!(c, "{t:?}").is_ok(), 23);
  }
}

/// Printing complete lines for debugging.
#[no_mangle]
pub extern "C" fn c01_debug() {
  let mut l = L::new();
  let k = choice(LINES.len());
  line(&mut l, k, by(2, 4));
  debug(l.str());
}

/// Printing lines with many tags.
#[no_mangle]
pub extern "C" fn c01_debug_many() {
  let mut l = L::aligned_cap(0, 16384);
  l.s("@");
  let n = pick(&[0usize, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 130, 255, 256, 257]);
  for _ in 0..n {
    l.s("a=b;");
  }
  l.s("c=");
  l.hole(0, 1, cl::ascii);
  l.s(" PING");
  debug(l.str());
}

/// Printing short lines.
#[no_mangle]
pub extern "C" fn c01_debug_free() {
  let mut l = L::new();
  l.pick(&["", "@", "@a=b ", ":", ":a ", "PRIVMSG ", "PING :"]);
  l.pick(&["", "\u{e9}", "\u{2e1d}", "\u{301}", "\u{1f600}", "\u{10ffff}"]);
  l.hole(0, by(2, 3), cl::ascii);
  debug(l.str());
}
