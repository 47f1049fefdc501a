//! C04: the SIMD and the scalar build give the same result.
use crate::sym::*;
use crate::lines::LINES_RAW;

fn compare(s: &str) {
  let a = tmi::IrcMessageRef::parse(s);
  let b = tmi_scalar::IrcMessageRef::parse(s);
  let (a, b) = match (a, b) {
    (None, None) => {
      reach(1);
      return;
    }
    (Some(a), Some(b)) => (a, b),
    _ => {
      fail(1);
      return;
    }
  };
  reach(2);
  let (mut x, mut y) = (a.tags(), b.tags());
  let mut n = 0u8;
  loop {
    match (x.next(), y.next()) {
      (None, None) => break,
      (Some(p), Some(q)) => {
        n = n.wrapping_add(1);
        check_str(p.0, q.0, 2);
        check_str(p.1, q.1, 3);
      }
      _ => {
        fail(4);
        return;
      }
    }
  }
  observe(&[n]);
  match (a.prefix(), b.prefix()) {
    (None, None) => {}
    (Some(p), Some(q)) => {
      check_str(p.host, q.host, 5);
      check_opt(p.nick, q.nick, 6);
      check_opt(p.user, q.user, 7);
    }
    _ => fail(8),
  }
  check_str(a.command().as_str(), b.command().as_str(), 9);
  check_opt(a.channel(), b.channel(), 10);
  check_opt(a.params(), b.params(), 11);
  check_opt(a.text(), b.text(), 12);
}

#[no_mangle]
pub extern "C" fn c04_free() {
  let mut l = L::aligned(pick(&[0, 13]));
  if flag() {
    l.s("@");
  }
  l.hole_u(0, by(5, 7), cl::ascii);
  compare(l.str());
}

fn sep(b: u8) -> bool {
  b < 0x80
}

/// Long tag sections: symbolic windows at all distances from the start.
#[no_mangle]
pub extern "C" fn c04_window() {
  let mut l = L::aligned(pick(if THOROUGH { &[0, 1, 2, 7, 8, 14, 15, 16, 17, 30, 31] } else { &[0, 1, 15, 30] }));
  l.s(["@", "@k=", "@k=v;k"][choice(3)]);
  let n = if THOROUGH { choice(70) } else { pick(&[0, 5, 8, 9, 10, 11, 12, 13, 14, 15, 16, 27, 28, 29, 30, 31, 60, 61, 62]) };
  l.rep(b'v', n);
  l.sym(2, sep);
  let n = pick(if THOROUGH { &[0, 1, 2, 3, 12, 13, 14, 15, 16, 30, 31] } else { &[0, 1, 14, 30] });
  l.rep(b'w', n);
  l.sym(1, sep);
  l.pick(&["", " CMD #c :p", "x"]);
  compare(l.str());
}

/// The end of the tag section at every offset up to several unrolled steps,
/// under every alignment.
#[no_mangle]
pub extern "C" fn c04_end() {
  let mut l = L::aligned(choice(by(16, 32)));
  l.s("@k=");
  let n = if THOROUGH { choice(300) } else { pick(&[0, 12, 13, 14, 28, 29, 30, 44, 60, 61, 62, 63, 64, 65, 76, 77, 78, 92, 93, 108, 109, 124, 125, 126, 127, 128, 129, 140, 141, 156, 157, 158, 172, 190]) };
  l.sym(n, cl::key);
  match choice(by(6, 9)) {
    0 => {
      l.s(" PING");
    }
    1 => {
      l.s(" PRIVMSG #channel :some text that is long enough to need further chunks, and more");
    }
    2 => {}
    3 => {
      l.s(" ");
    }
    4 => {
      l.s("; x");
    }
    5 => {
      l.s(";a=b PRIVMSG #channel :0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789");
    }
    6 => {
      l.s(" P");
    }
    7 => {
      l.s(" 01234567890123");
    }
    _ => {
      l.s(" 012345678901234567890123456789");
    }
  }
  compare(l.str());
}

/// Counts of tags around the capacity, and long keys and values.
#[no_mangle]
pub extern "C" fn c04_big() {
  let mut l = L::aligned_cap(0, 200_000);
  l.s("@");
  match choice(3) {
    0 => {
      for _ in 0..pick(&[127usize, 128, 129, 300]) {
        l.s("a=b;");
      }
      l.s("z");
    }
    1 => {
      l.s("a=");
      l.rep(b'v', pick(&[65535usize, 65536, 65540]));
      l.s(";b=");
    }
    _ => {
      l.rep(b'k', pick(&[65535usize, 65536, 65540]));
      l.s("=1;b=");
    }
  }
  l.sym(1, sep);
  l.s(" PING :x");
  compare(l.str());
}

/// Complete lines with two symbolic bytes.
#[no_mangle]
pub extern "C" fn c04_lines() {
  let mut l = L::aligned(pick(&[0, 9]));
  l.s(LINES_RAW[choice(LINES_RAW.len())]);
  let n = l.len();
  let at = choice(n);
  let i = l.off + at;
  l.b[i] = byte(cl::ascii);
  compare(l.str());
}
