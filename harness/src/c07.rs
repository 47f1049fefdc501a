//! C07: unescaping.
use crate::sym::*;
use std::borrow::Cow;

/// The rule, character by character.
fn reference(s: &str) -> String {
  let mut out = String::new();
  let mut it = s.chars();
  while let Some(c) = it.next() {
    let c = if c == '\\' {
      match it.next() {
        None => break,
        Some(':') => ';',
        Some('s') => ' ',
        Some('r') => '\r',
        Some('n') => '\n',
        Some('\\') => '\\',
        Some(o) => o,
      }
    } else {
      c
    };
    out.push(if c == '\u{2e1d}' { ',' } else { c });
  }
  out
}

fn piece(l: &mut L) {
  match choice(by(4, 5)) {
    0 => {
      l.sym(1, cl::ascii);
    }
    1 => {
      l.s("\\");
    }
    2 => {
      l.s("\u{2e1d}");
    }
    3 => {
      l.wide(3);
    }
    _ => {
      l.wide(2);
    }
  }
}

fn verify(s: &str) {
  let want = reference(s);
  let slash = s.as_bytes().contains(&b'\\');
  let full = tmi::irc::unescape(s);
  check_str(&full, &want, 2);
  let got = tmi::maybe_unescape(s);
  if slash {
    reach(1);
    check_str(&got, &want, 1);
    let again = tmi::maybe_unescape(s.to_string());
    check_str(&again, &want, 3);
    observe(got.as_bytes());
  } else {
    reach(2);
    check_str(&got, s, 4);
    match got {
      Cow::Borrowed(b) => check(b.as_ptr() == s.as_ptr(), 5),
      Cow::Owned(_) => fail(6),
    }
  }
}

/// Pieces: symbolic ASCII characters (the backslash included), multi-byte
/// characters and the comma look-alike.
#[no_mangle]
pub extern "C" fn c07_pieces() {
  let mut l = L::new();
  let n = choice(by(5, 7));
  for _ in 0..n {
    piece(&mut l);
  }
  verify(l.str());
}

/// Symbolic ASCII only, longer.
#[no_mangle]
pub extern "C" fn c07_ascii() {
  let mut l = L::new();
  l.hole(0, by(6, 9), cl::ascii);
  verify(l.str());
}

/// A long value with the escape anywhere.
#[no_mangle]
pub extern "C" fn c07_long() {
  let mut l = L::new();
  let n = choice(40);
  l.rep(b'a', n);
  l.sym(2, cl::ascii);
  let n = pick(&[0, 1, 7, 20, 40]);
  l.rep(b'b', n);
  l.sym(2, cl::ascii);
  verify(l.str());
}

/// Values of many characters.
#[no_mangle]
pub extern "C" fn c07_far() {
  let mut l = L::new();
  l.hole(0, 1, cl::ascii);
  let n = pick(&[255, 256, 1000, 65536]);
  l.rep(b'a', n);
  l.sym(2, cl::ascii);
  verify(l.str());
}

fn escape(s: &str) -> String {
  let mut o = String::new();
  for c in s.chars() {
    match c {
      ';' => o.push_str("\\:"),
      ' ' => o.push_str("\\s"),
      '\\' => o.push_str("\\\\"),
      '\r' => o.push_str("\\r"),
      '\n' => o.push_str("\\n"),
      c => o.push(c),
    }
  }
  o
}

/// Escaping any text and unescaping it gives the text back.
#[no_mangle]
pub extern "C" fn c07_roundtrip() {
  let mut l = L::new();
  l.hole_u(0, by(4, 6), cl::ascii);
  let s = l.str();
  assume(!s.contains('\u{2e1d}'));
  let e = escape(s);
  reach(3);
  let back = tmi::maybe_unescape(&e[..]);
  check_str(&back, s, 10);
}

/// What getters return for an escaped value.
#[no_mangle]
pub extern "C" fn c07_getters() {
  let mut l = L::new();
  l.s("@display-name=");
  let r = l.hole(0, by(3, 4), cl::valx);
  l.s(";room-id=1;id=2;user-id=3;tmi-sent-ts=4;reply-parent-msg-id=5;reply-thread-parent-msg-id=6;reply-thread-parent-user-login=7;reply-parent-user-id=8;reply-parent-user-login=9;reply-parent-display-name=x;reply-parent-msg-body=");
  let st = l.len();
  let t = l.get(&r).to_string();
  l.s(&t);
  let _ = st;
  l.s(" :n!u@h PRIVMSG #c :t");
  let want = if t.as_bytes().contains(&b'\\') { reference(&t) } else { t.clone() };
  match tmi::Message::parse(l.str()) {
    Ok(tmi::Message::Privmsg(p)) => {
      reach(4);
      let n = p.sender().name();
      check_str(&n, &want, 20);
      let Some(r) = p.reply_to() else {
        fail(21);
        return;
      };
      let body = r.text();
      check_str(&body, &want, 22);
    }
    _ => fail(23),
  }
}
