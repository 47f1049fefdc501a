//! C17: badges.
use crate::spec::*;
use crate::sym::*;
use tmi::msg::*;
use tmi::{FromIrc, IrcMessageRef};

/// Part of a badge list without separators.
fn name(b: u8) -> bool {
  cl::key(b) & (b != b',') & (b != b'/')
}
fn version(b: u8) -> bool {
  cl::key(b) & (b != b',')
}

const KNOWN: &[&str] = &["staff", "turbo", "broadcaster", "moderator", "subscriber"];

/// Reads the badges of every message type that has them.
fn verify(kind: usize, badges: &str, info: &str) {
  let mut l = String::with_capacity(512);
  l.push_str("@badge-info=");
  l.push_str(info);
  l.push_str(";badges=");
  l.push_str(badges);
  l.push_str(";display-name=n;emotes=;emote-sets=0;id=i;login=l;msg-id=x;room-id=1;system-msg=s;tmi-sent-ts=0;user-id=2;thread-id=4;message-id=1 :n!n@h ");
  l.push_str(["PRIVMSG #c :t", "USERNOTICE #c :t", "GLOBALUSERSTATE", "USERSTATE #c", "WHISPER r :t"][kind]);
  let Some(irc) = IrcMessageRef::parse(&l) else {
    fail(1);
    return;
  };
  let (b, i) = (Some(badges), Some(info));
  match kind {
    0 => match Privmsg::from_irc(irc) {
      Ok(m) => check_badges(m.badges(), m.num_badges(), b, i, 10),
      Err(_) => fail(2),
    },
    1 => match UserNotice::from_irc(irc) {
      Ok(m) => check_badges(m.badges(), m.num_badges(), b, i, 20),
      Err(_) => fail(3),
    },
    2 => match GlobalUserState::from_irc(irc) {
      Ok(m) => check_badges(m.badges(), m.num_badges(), b, i, 30),
      Err(_) => fail(4),
    },
    3 => match UserState::from_irc(irc) {
      Ok(m) => check_badges(m.badges(), m.num_badges(), b, i, 40),
      Err(_) => fail(5),
    },
    _ => match Whisper::from_irc(irc) {
      Ok(m) => check_badges(m.badges(), m.num_badges(), b, i, 50),
      Err(_) => fail(6),
    },
  }
  reach(kind as u32);
}

/// One entry of a list.
fn entry(l: &mut L, info: bool) {
  match choice(6) {
    0 => {
      l.pick(KNOWN);
      l.s("/");
      if info {
        l.sym(1, cl::digit);
      } else {
        l.sym(1, version);
      }
    }
    1 => {
      l.s("subscriber/");
      l.hole(0, 1, version);
    }
    2 => {
      l.sym(1, name);
      l.s("/");
      l.hole(0, 1, version);
    }
    3 => {
      l.hole(0, 1, name);
    }
    4 => {
      l.s("a/");
      l.s("b/c");
    }
    _ => {
      l.s("subscribe");
      l.sym(1, name);
      l.s("/1");
    }
  }
}

fn list(l: &mut L, max: usize, info: bool) -> R {
  let st = l.len();
  let n = choice(max + 1);
  for i in 0..n {
    if i > 0 {
      l.s(",");
    }
    entry(l, info);
  }
  st..l.len()
}

fn no_plus(info: &str) {
  // a number with a plus sign is not specified
  for &b in info.as_bytes() {
    assume(b != b'+');
  }
}

#[no_mangle]
pub extern "C" fn c17_lists() {
  let mut l = L::new();
  let b = list(&mut l, by(2, 3), false);
  let i = list(&mut l, by(1, 2), true);
  no_plus(l.get(&i));
  verify(0, l.get(&b), l.get(&i));
}

/// A detail among two entries of the badge info.
#[no_mangle]
pub extern "C" fn c17_detail() {
  let mut l = L::new();
  let st = l.len();
  entry(&mut l, false);
  let b = st..l.len();
  let st = l.len();
  entry(&mut l, true);
  l.s(",");
  entry(&mut l, true);
  let i = st..l.len();
  no_plus(l.get(&i));
  verify(choice(5), l.get(&b), l.get(&i));
}

/// Any short lists.
#[no_mangle]
pub extern "C" fn c17_free() {
  let mut l = L::new();
  let b = l.hole(0, by(5, 6), cl::valx);
  let i = l.hole(0, by(4, 4), cl::valx);
  no_plus(l.get(&i));
  verify(choice(by(2, 5)), l.get(&b), l.get(&i));
}

/// Names that differ from a known one in one place.
#[no_mangle]
pub extern "C" fn c17_near() {
  let mut l = L::new();
  let known = pick(KNOWN);
  let p = choice(known.len() + 1);
  let st = l.len();
  match choice(3) {
    0 => {
      l.s(&known[..p]);
      l.sym(1, name);
      l.s(if p < known.len() { &known[p + 1..] } else { "" });
    }
    1 => {
      l.s(&known[..p]);
      l.sym(1, name);
      l.s(&known[p..]);
    }
    _ => {
      l.s(&known[..p]);
      l.s(if p < known.len() { &known[p + 1..] } else { "" });
    }
  }
  let n = st..l.len();
  l.s("/");
  l.sym(1, version);
  l.s(",vip/1");
  let b = st..l.len();
  // the detail of the same name, or of the known one
  let st = l.len();
  if flag() {
    let s = l.get(&n).to_string();
    l.s(&s);
  } else {
    l.s(known);
  }
  l.s("/7");
  let i = st..l.len();
  verify(0, l.get(&b), l.get(&i));
}

/// Months of a subscriber.
#[no_mangle]
pub extern "C" fn c17_months() {
  let mut l = L::new();
  let st = l.len();
  match choice(4) {
    0 => {
      l.s("subscriber/");
      l.hole(0, by(4, 5), cl::digit);
    }
    1 => {
      l.s("subscriber/");
      l.hole(0, by(3, 4), version);
    }
    2 => {
      l.s("subscriber/1844674407370955");
      l.sym(4, cl::digit);
      l.hole(0, 1, cl::digit);
    }
    _ => {
      l.s("founder/");
      l.hole(0, 2, cl::digit);
    }
  }
  let i = st..l.len();
  let st = l.len();
  l.pick(&["subscriber/0", "subscriber/3012", "founder/0,subscriber/2", "subscriber/1,subscriber/2", "founder/1"]);
  let b = st..l.len();
  no_plus(l.get(&i));
  verify(choice(5), l.get(&b), l.get(&i));
}

/// Long lists.
#[no_mangle]
pub extern "C" fn c17_long() {
  let mut l = L::new();
  let n = pick(&[8, 31, 32, 33, 40]);
  let st = l.len();
  for i in 0..n {
    l.s("n");
    l.b.push(b'A' + i as u8);
    l.s("/");
    l.b.push(b'A' + i as u8);
    l.s(",");
  }
  l.s("subscriber/");
  l.sym(1, version);
  let list = l.get(&(st..l.len())).to_string();
  let k = choice(2);
  let mut m = L::new();
  let i = m.s(&list);
  no_plus(m.get(&i));
  let b = if k == 0 { m.s(&list) } else { m.s("moderator/1,subscriber/2,nA/1") };
  verify(choice(5), m.get(&b), m.get(&i));
}
