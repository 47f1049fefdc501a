//! C29: the same-message bypass.
use crate::sym::*;
use tmi::client::write::SameMessageBypass;

#[no_mangle]
pub extern "C" fn c29_alternates() {
  let mut b = SameMessageBypass::default();
  let mut other = SameMessageBypass::default();
  let n = choice(by(8, 14));
  let mut calls = 0;
  for _ in 0..n {
    match choice(3) {
      // another instance has its own state
      0 => {
        other.get();
      }
      // so does a copy
      1 => {
        let mut c = b;
        c.get();
        check(c != b, 1);
      }
      _ => {
        let v = b.get();
        check_str(v, if calls % 2 == 0 { "" } else { " \u{2800}" }, 2);
        calls += 1;
      }
    }
  }
  reach(calls);
  observe(b.get().as_bytes());
}

/// Two messages of the same text, one after the other, differ.
#[no_mangle]
pub extern "C" fn c29_text() {
  let mut l = L::new();
  match choice(3) {
    0 => {
      l.hole_u(0, by(4, 8), cl::ascii);
    }
    1 => {
      l.sym(1, cl::ascii);
      l.s(" \u{2800}");
    }
    _ => {
      l.rep(b'x', 497);
      l.sym(2, cl::ascii);
    }
  }
  let mut b = SameMessageBypass::default();
  for _ in 0..choice(4) {
    b.get();
  }
  let mut one = l.str().to_string();
  one.push_str(b.get());
  let mut two = l.str().to_string();
  two.push_str(b.get());
  check(!same(&one, &two), 3);
  check(one.starts_with(l.str()) && two.starts_with(l.str()), 4);
  check(one.len() == l.len() || two.len() == l.len(), 5);
  observe(one.as_bytes());
}
