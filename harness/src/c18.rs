//! C18: timestamps.
use crate::spec::*;
use crate::sym::*;
use tmi::msg::*;
use tmi::{FromIrc, IrcMessageRef};

fn verify(kind: usize, value: &str) {
  let mut l = String::with_capacity(512);
  l.push_str("@display-name=n;emotes=;id=i;login=l;msg-id=x;room-id=1;system-msg=s;target-msg-id=t;tmi-sent-ts=");
  l.push_str(value);
  l.push_str(";user-id=2 :n!n@h ");
  l.push_str(["PRIVMSG #c :t", "USERNOTICE #c :t", "CLEARCHAT #c", "CLEARMSG #c :t"][kind]);
  let Some(irc) = IrcMessageRef::parse(&l) else {
    fail(1);
    return;
  };
  let got = match kind {
    0 => Privmsg::from_irc(irc).ok().map(|m| m.timestamp()),
    1 => UserNotice::from_irc(irc).ok().map(|m| m.timestamp()),
    2 => ClearChat::from_irc(irc).ok().map(|m| m.timestamp()),
    _ => ClearMsg::from_irc(irc).ok().map(|m| m.timestamp()),
  };
  match (got, ts(value)) {
    (None, None) => reach(10),
    (Some(t), Some(n)) => {
      reach(kind as u32 + 1);
      check_time(t, n, 2);
      // the same instant by seconds
      check(t.timestamp() == n.div_euclid(1000), 3);
      check(t.timestamp_subsec_millis() as i64 == n.rem_euclid(1000), 4);
    }
    (Some(_), None) => fail(5),
    (None, Some(_)) => fail(6),
  }
}

const NUMBERS: &[&str] = &[
  "1594545155039", "0000000000000", "-1594545155039", "8210266876799999", "-8334601228800000", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "253402300800000", "951782400000", "-62167219200001", "86400000", "-1", "-86400001", "999",
];

/// Numbers with a window of symbolic digits.
#[no_mangle]
pub extern "C" fn c18_window() {
  let mut l = L::new();
  let s = pick(NUMBERS);
  let st = l.len();
  let neg = s.as_bytes()[0] == b'-';
  let digits = if neg { &s[1..] } else { s };
  if neg {
    l.s("-");
  }
  let w = 1 + choice(by(2, 3));
  assume(w <= digits.len());
  let p = choice(digits.len() - w + 1);
  l.s(&digits[..p]);
  l.sym(w, cl::digit);
  l.s(&digits[p + w..]);
  let r = st..l.len();
  verify(if w == 1 { choice(4) } else { 0 }, l.get(&r));
}

/// Numbers with one more digit or character.
#[no_mangle]
pub extern "C" fn c18_extra() {
  let mut l = L::new();
  let s = pick(NUMBERS);
  let p = choice(s.len() + 1);
  l.s(&s[..p]);
  l.hole(0, 1, cl::valx);
  l.s(&s[p..]);
  let r = 0..l.len();
  assume(l.str().is_empty() || l.str().as_bytes()[0] != b'+');
  verify(choice(4), l.get(&r));
}

/// Any short values.
#[no_mangle]
pub extern "C" fn c18_short() {
  let mut l = L::new();
  let r = l.hole_u(0, by(3, 4), cl::valx);
  assume(l.str().is_empty() || l.str().as_bytes()[0] != b'+');
  verify(choice(4), l.get(&r));
}
