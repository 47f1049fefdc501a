//! C19: actions.
use crate::sym::*;
use tmi::msg::*;
use tmi::{FromIrc, IrcMessageRef};

fn starts(t: &[u8]) -> bool {
  let p = b"\x01ACTION ";
  if t.len() < p.len() {
    return false;
  }
  let mut same = true;
  for i in 0..p.len() {
    same &= t[i] == p[i];
  }
  same
}

fn verify(l: &L, at: usize) {
  let text = l.get(&(at..l.len()));
  let b = text.as_bytes();
  let action = starts(b) && b.len() > 8 && b[b.len() - 1] == 1;
  let want = if action { &text[8..text.len() - 1] } else { text };
  for kind in 0..2 {
    let mut s = String::with_capacity(256);
    if kind == 0 {
      s.push_str("@id=i;room-id=1;user-id=2;display-name=n;tmi-sent-ts=0 :n!n@h PRIVMSG #c :");
    } else {
      s.push_str("@login=l;room-id=1;target-msg-id=t;tmi-sent-ts=0 :h CLEARMSG #c :");
    }
    s.push_str(text);
    let Some(irc) = IrcMessageRef::parse(&s) else {
      fail(1);
      return;
    };
    if kind == 0 {
      match Privmsg::from_irc(irc) {
        Ok(m) => {
          check(m.is_action() == action, 2);
          check_str(m.text(), want, 3);
        }
        Err(_) => fail(4),
      }
    } else {
      match ClearMsg::from_irc(irc) {
        Ok(m) => {
          check(m.is_action() == action, 5);
          check_str(m.text(), want, 6);
        }
        Err(_) => fail(7),
      }
    }
  }
  reach(action as u32);
}

const FRAME: &[&str] = &["\u{1}ACTION hi\u{1}", "\u{1}ACTION \u{1}", "\u{1}ACTION", "\u{1}ACTION hello", "ACTION x\u{1}", "\u{1}ACTION  a \u{1}", "\u{1}ACTION \u{1}ACTION b\u{1}\u{1}", "\u{1}ACTIONS a\u{1}", " \u{1}ACTION a\u{1}"];

/// The frame with one symbolic byte in place of any of its bytes, put in
/// anywhere, or with one byte removed.
#[no_mangle]
pub extern "C" fn c19_near() {
  let mut l = L::new();
  let s = pick(FRAME);
  let p = choice(s.len() + 1);
  l.s(&s[..p]);
  match choice(3) {
    0 => {
      l.sym(1, cl::ascii);
      l.s(if p < s.len() { &s[p + 1..] } else { "" });
    }
    1 => {
      l.sym(1, cl::ascii);
      l.s(&s[p..]);
    }
    _ => {
      l.s(if p < s.len() { &s[p + 1..] } else { "" });
    }
  }
  verify(&l, 0);
}

/// Symbolic contents.
#[no_mangle]
pub extern "C" fn c19_text() {
  let mut l = L::new();
  l.s("\u{1}ACTION ");
  l.hole_u(0, by(4, 6), cl::ascii);
  if flag() {
    l.s("\u{1}");
  }
  verify(&l, 0);
}

/// Any short text.
#[no_mangle]
pub extern "C" fn c19_short() {
  let mut l = L::new();
  l.hole_u(0, by(9, 11), cl::ascii);
  verify(&l, 0);
}

/// Two symbolic bytes in the frame.
#[no_mangle]
pub extern "C" fn c19_two() {
  let mut l = L::new();
  let s = pick(&["\u{1}ACTION hi\u{1}", "\u{1}ACTION \u{1}"]);
  let p = choice(s.len());
  let q = choice(s.len());
  assume(p < q);
  l.s(&s[..p]);
  l.sym(1, cl::ascii);
  l.s(&s[p + 1..q]);
  l.sym(1, cl::ascii);
  l.s(&s[q + 1..]);
  verify(&l, 0);
}

/// Frames around texts of many characters.
#[no_mangle]
pub extern "C" fn c19_long() {
  let mut l = L::new();
  l.s("\u{1}ACTION");
  l.sym(1, |b| (b == b' ') | (b == b'x') | (b == b'\t'));
  let n = pick(&[255, 256, 499, 500, 512, 1024, 65536]);
  l.rep(b'x', n);
  l.sym(2, cl::ascii_line);
  if flag() {
    l.s("\u{1}");
  }
  verify(&l, 0);
}
