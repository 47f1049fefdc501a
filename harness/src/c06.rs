//! C06: owned and borrowed messages agree.
use crate::sym::*;
use crate::typed::eq_message;
use tmi::{IrcMessage, IrcMessageRef, Tag};

fn agree(a: &IrcMessageRef<'_>, b: &IrcMessage) {
  check_str(a.raw(), b.raw(), 1);
  let (mut x, mut y) = (a.tags(), b.tags());
  loop {
    match (x.next(), y.next()) {
      (Some(p), Some(q)) => {
        check_str(p.0, q.0, 2);
        check_str(p.1, q.1, 3);
        check_opt(a.tag(p.0), b.tag(p.0), 4);
      }
      (None, None) => break,
      _ => {
        fail(5);
        break;
      }
    }
  }
  check(a.prefix() == b.prefix(), 6);
  check(a.command() == b.command(), 7);
  check_opt(a.channel(), b.channel(), 8);
  check_opt(a.params(), b.params(), 9);
  check_opt(a.text(), b.text(), 10);
  check_opt(a.tag(Tag::Id), b.tag(Tag::Id), 11);
  check_opt(a.tag("a"), b.tag("a"), 12);
  observe_opt(b.text());
}

fn both(l: &L, typed: bool) {
  let s = l.str();
  match (IrcMessageRef::parse(s), IrcMessage::parse(s)) {
    (None, None) => reach(1),
    (Some(a), Some(b)) => {
      reach(2);
      agree(&a, &b);
      let c = a.clone().into_owned();
      agree(&a, &c);
      let d = b.as_ref();
      agree(&d, &b);
      if typed {
        match (a.clone().as_typed(), b.as_typed(), c.as_typed()) {
          (Ok(x), Ok(y), Ok(z)) => {
            reach(3);
            check(eq_message(&x, &y), 20);
            check(eq_message(&x, &z), 21);
          }
          (Err(_), Err(_), Err(_)) => reach(4),
          _ => fail(22),
        }
      }
    }
    _ => fail(23),
  }
}

#[no_mangle]
pub extern "C" fn c06_free() {
  let mut l = L::new();
  l.hole_u(0, by(6, 8), cl::ascii);
  both(&l, false);
}

#[no_mangle]
pub extern "C" fn c06_parts() {
  let mut l = L::new();
  match choice(5) {
    0 => {}
    1 => {
      l.s("@a=");
      l.hole(0, 2, cl::ascii);
      l.s(";id=x ");
    }
    2 => {
      l.s("@");
      l.hole(0, 3, cl::ascii);
      l.s(" ");
    }
    3 => {
      l.s("@id=0123456789;display-name=\u{e9}\u{2e1d};x=a\\sb=c ");
    }
    _ => {
      l.s("@a");
    }
  }
  match choice(4) {
    0 => {}
    1 => {
      l.s(":n!u@h ");
    }
    2 => {
      l.s(":");
      l.hole(0, 2, cl::ascii);
      l.s(" ");
    }
    _ => {
      l.s(":host ");
    }
  }
  l.pick(&["PING", "PRIVMSG", "353", "366", "XYZ", "001", "NOTICE", "JOIN", "PART", "PONG"]);
  match choice(4) {
    0 => {}
    1 => {
      l.s(" #c");
      l.hole(0, 2, cl::ascii);
    }
    2 => {
      l.s(" a b #c ");
      l.hole(0, 2, cl::ascii);
      l.s("d");
    }
    _ => {
      l.s(" ");
      l.hole(0, 3, cl::ascii);
    }
  }
  both(&l, true);
}

/// Complete lines of every typed command, with a hole in the text.
#[no_mangle]
pub extern "C" fn c06_typed() {
  let mut l = L::new();
  crate::typed::skeleton(&mut l);
  both(&l, true);
}
