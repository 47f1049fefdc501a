//! C25: raw sends.
use crate::sym::*;
use crate::world::*;
use tmi::client::write::SendError;

/// How the connection takes what is written.
fn writes() {
  let a = &mut conn().a;
  match choice(5) {
    0 => {}
    1 => a.buffered = true,
    2 => {
      a.write_max = 1;
      a.write_slow = flag();
      a.buffered = flag();
    }
    3 => {
      a.write_max = 3;
      a.buffered = true;
    }
    _ => a.write_slow = true,
  }
}

fn raw(c: &mut tmi::Client, s: &str) {
  let b = s.as_bytes();
  let ok = b.len() >= 2 && (b[b.len() - 2] == b'\r') & (b[b.len() - 1] == b'\n');
  let r = run(c.send_raw(s));
  let out = conn().out();
  if ok {
    check(matches!(r, Some(Ok(()))), 1);
    check(out.len() == b.len(), 2);
    check(same(unsafe { std::str::from_utf8_unchecked(out) }, s), 3);
    observe(out);
    reach(1);
  } else {
    check(matches!(r, Some(Err(SendError::InvalidMessage(_)))), 4);
    check(out.is_empty(), 5);
    check(conn().accepted.is_empty(), 6);
    reach(2);
  }
}

/// Any characters.
#[no_mangle]
pub extern "C" fn c25_short() {
  let mut c = client(Attempt::new());
  let mut l = L::new();
  l.hole_u(0, by(10, 20), cl::ascii);
  if flag() {
    writes();
  }
  raw(&mut c, l.str());
}

/// Lines of some length ending in any characters.
#[no_mangle]
pub extern "C" fn c25_end() {
  let mut c = client(Attempt::new());
  let mut l = L::new();
  match choice(4) {
    0 => {
      l.s("PRIVMSG #chan :hello");
    }
    1 => {
      l.rep(b'x', 2000);
    }
    2 => {
      l.s("PRIVMSG #chan :a\r\nPRIVMSG #chan :b");
    }
    _ => {
      l.sym(2, cl::ascii);
      l.s("\r\n\r\n");
    }
  }
  l.hole_u(0, by(5, 8), cl::ascii);
  writes();
  raw(&mut c, l.str());
}

/// Sends one after the other: a rejected or failed one leaves nothing behind.
#[no_mangle]
pub extern "C" fn c25_after() {
  let mut c = client(Attempt::new());
  let mut l = L::new();
  let a = &mut conn().a;
  a.buffered = flag();
  let first = match choice(3) {
    0 => {
      let f = l.hole(0, 3, cl::ascii);
      assume(l.len() < 2 || !l.str().ends_with("\r\n"));
      f
    }
    1 => {
      a.write_limit = choice(4);
      a.write_end = pick(&[Step::Err, Step::Ok, Step::Stall]);
      l.s("PART #chan\r\n")
    }
    _ => {
      a.flush = pick(&[Step::Err, Step::Stall]);
      a.write_max = pick(&[5, usize::MAX]);
      l.s("PART #chan\r\n")
    }
  };
  check(!matches!(run(c.send_raw(l.get(&first))), Some(Ok(()))), 7);
  let k = conn();
  k.a.write_limit = usize::MAX;
  k.a.flush = Step::Ok;
  k.a.write_max = pick(&[4, usize::MAX]);
  let before = k.accepted.len();
  let st = l.len();
  l.hole(0, 3, cl::ascii);
  l.s("\r\n");
  let s = st..l.len();
  check(matches!(run(c.send_raw(l.get(&s))), Some(Ok(()))), 8);
  let k = conn();
  check(k.sent == k.accepted.len(), 9);
  let out = std::str::from_utf8(&k.accepted[before..]).unwrap();
  observe(out.as_bytes());
  check_str(out, l.get(&s), 10);
}
