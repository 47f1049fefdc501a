//! C03: the tag list holds exactly the tags of the line.
use crate::sym::*;
use tmi::{Command, IrcMessage, IrcMessageRef, Tag};

fn tail(l: &mut L) -> usize {
  let k = choice(4);
  l.s(match k {
    0 => " PING",
    1 => " :nick!user@host PRIVMSG #chan :a=b;c d",
    2 => " PRIVMSG #chan :@x=y",
    _ => " :h 001 me :0123456789012345678901234567890123456789012345678901234567890123456789",
  });
  k
}

fn verify_tail(m: &IrcMessageRef<'_>, k: usize) {
  match k {
    0 => {
      check(m.command() == Command::Ping, 20);
      check(m.prefix().is_none(), 21);
      check(m.channel().is_none(), 22);
      check(m.params().is_none(), 23);
    }
    1 => {
      check(m.command() == Command::Privmsg, 24);
      check(m.prefix().is_some_and(|p| p.nick == Some("nick") && p.user == Some("user") && p.host == "host"), 25);
      check(m.channel() == Some("#chan"), 26);
      check(m.params() == Some(":a=b;c d"), 27);
    }
    2 => {
      check(m.command() == Command::Privmsg, 28);
      check(m.prefix().is_none(), 29);
      check(m.channel() == Some("#chan"), 30);
      check(m.params() == Some(":@x=y"), 31);
    }
    _ => {
      check(m.command() == Command::RplWelcome, 32);
      check(m.prefix().is_some_and(|p| p.nick.is_none() && p.user.is_none() && p.host == "h"), 33);
      check(m.params().is_some_and(|p| p.len() == 74), 34);
    }
  }
}

fn verify(l: &L, pairs: &[(R, R)], k: usize) {
  let src = l.str();
  let Some(m) = IrcMessageRef::parse(src) else {
    fail(1);
    return;
  };
  reach(1);
  let mut n = 0;
  for (key, value) in m.tags() {
    if n >= pairs.len() {
      fail(2);
      return;
    }
    check_str(key, l.get(&pairs[n].0), 3);
    check_str(value, l.get(&pairs[n].1), 4);
    n += 1;
  }
  check(n == pairs.len(), 5);
  observe(&[n as u8]);
  verify_tail(&m, k);
}

/// Layout: three pairs whose lengths move the separators over every position
/// relative to the vector chunks.
#[no_mangle]
pub extern "C" fn c03_layout() {
  let mut l = L::aligned(pick(if THOROUGH { &[0, 1, 7, 8, 15, 16, 17, 31] } else { &[0, 15] }));
  l.s("@");
  let mut pairs = Vec::new();
  let key = |l: &mut L, n: usize| l.sym(n, cl::key);
  // first pair: shifts the rest
  let a = key(&mut l, 1);
  l.s("=");
  let n = choice(by(34, 67));
  let b = l.sym(n, cl::valx);
  pairs.push((a, b));
  let more = choice(3);
  if more > 0 {
    l.s(";");
    let n = pick(if THOROUGH { &[1, 2, 13, 14, 15, 16, 17, 31, 32, 33] } else { &[1, 2, 15, 16, 33] });
    let a = key(&mut l, n);
    l.s("=");
    let n = pick(if THOROUGH { &[0, 1, 2, 14, 15, 16, 17, 29, 30, 31, 32, 33, 64] } else { &[0, 1, 13, 16, 31, 32] });
    let b = l.sym(n, cl::valx);
    pairs.push((a, b));
  }
  if more > 1 {
    l.s(";");
    let a = key(&mut l, 1);
    l.s("=");
    let n = choice(2);
    let b = l.sym(n, cl::valx);
    pairs.push((a, b));
  }
  let k = tail(&mut l);
  verify(&l, &pairs, k);
}

/// Values that may contain any number of '=' and multi-byte characters.
#[no_mangle]
pub extern "C" fn c03_equals() {
  let mut l = L::aligned(0);
  l.s("@");
  let mut pairs = Vec::new();
  let a = l.s("k");
  l.s("=");
  let st = l.len();
  l.rep(b'v', pick(if THOROUGH { &[0, 1, 5, 9, 10, 11, 12, 13, 14, 20, 25, 26, 27, 28, 29, 30] } else { &[0, 10, 12, 13, 28, 29] }));
  l.hole_u(0, by(3, 4), cl::val);
  pairs.push((a, st..l.len()));
  if flag() {
    l.s(";");
    let a = l.hole(1, 2, cl::key);
    l.s("=");
    let b = l.hole(0, 2, cl::val);
    pairs.push((a, b));
  }
  if flag() {
    l.s(";");
    let a = l.s("a=b".get(..1).unwrap());
    l.s("=");
    let b = l.s("b=c==");
    pairs.push((a, b));
  }
  let k = tail(&mut l);
  verify(&l, &pairs, k);
}

/// Many short pairs: every separator position within a chunk, empty values.
#[no_mangle]
pub extern "C" fn c03_dense() {
  let mut l = L::aligned(0);
  l.s("@");
  let mut pairs = Vec::new();
  let st = choice(16);
  if st > 0 {
    let a = l.sym(1, cl::key);
    l.s("=");
    let b = l.sym(st, cl::valx);
    l.s(";");
    pairs.push((a, b));
  }
  let n = 1 + choice(by(12, 24));
  let empty = flag();
  for i in 0..n {
    if i > 0 {
      l.s(";");
    }
    let a = l.sym(1, cl::key);
    l.s("=");
    let len = if empty { 0 } else { i % 3 };
    let b = l.sym(len, cl::valx);
    pairs.push((a, b));
  }
  let k = tail(&mut l);
  verify(&l, &pairs, k);
}

/// The end of a long tag section at all distances and alignments.
#[no_mangle]
pub extern "C" fn c03_end() {
  let mut l = L::aligned(pick(if THOROUGH { &[0, 1, 2, 7, 8, 14, 15, 16, 17, 24, 30, 31] } else { &[0, 1, 14, 15, 16, 30, 31] }));
  l.s("@");
  let a = l.sym(1, cl::key);
  l.s("=");
  let n = if THOROUGH { choice(330) } else { 40 + 3 * choice(80) };
  let b = l.sym(n, cl::valx);
  let k = tail(&mut l);
  verify(&l, &[(a, b)], k);
}

/// More pairs than Twitch ever sends.
#[no_mangle]
pub extern "C" fn c03_many() {
  let mut l = L::aligned_cap(0, 8192);
  l.s("@");
  let mut pairs = Vec::new();
  let n = pick(if THOROUGH { &[64usize, 126, 127, 128, 129, 130, 200, 256, 257, 600] } else { &[127, 128, 129, 200, 257] });
  let vl = choice(2);
  for i in 0..n {
    if i > 0 {
      l.s(";");
    }
    let k0 = l.len();
    l.s(["a", "bb", "c-c"][i % 3]);
    if i % 50 == 0 {
      l.sym(1, cl::key);
    }
    let a = k0..l.len();
    l.s("=");
    let b = if i % 40 == 1 { l.sym(vl, cl::val) } else { l.s(["", "1", "xyz"][(i + vl) % 3]) };
    pairs.push((a, b));
  }
  let k = tail(&mut l);
  verify(&l, &pairs, k);
}

/// Keys and values longer than 65535 bytes.
#[no_mangle]
pub extern "C" fn c03_long() {
  let mut l = L::aligned_cap(0, 300_000);
  l.s("@");
  let mut pairs = Vec::new();
  let long_key = flag();
  let n = pick(&[255usize, 256, 65534, 65535, 65536, 65537, 70000]);
  let a = l.s("first");
  l.s("=");
  let b = l.sym(1, cl::valx);
  pairs.push((a, b));
  l.s(";");
  let st = l.len();
  if long_key {
    l.rep(b'k', n - 1);
    l.sym(1, cl::key);
    let a = st..l.len();
    l.s("=");
    let b = l.sym(1, cl::val);
    pairs.push((a, b));
  } else {
    l.s("k");
    let a = st..l.len();
    l.s("=");
    let st = l.len();
    l.rep(b'v', n - 1);
    l.sym(1, cl::valx);
    pairs.push((a, st..l.len()));
  }
  if flag() {
    l.s(";");
    let a = l.s("last");
    l.s("=");
    let b = l.sym(1, cl::valx);
    pairs.push((a, b));
  }
  let k = tail(&mut l);
  verify(&l, &pairs, k);
}

/// Lookup returns the value of the first pair of that name.
#[no_mangle]
pub extern "C" fn c03_lookup() {
  let mut l = L::new();
  l.s("@");
  let mut pairs = Vec::new();
  let n = 1 + choice(3);
  for i in 0..n {
    if i > 0 {
      l.s(";");
    }
    let st = l.len();
    match choice(3) {
      0 => l.sym(1, cl::key),
      1 => l.sym(2, cl::key),
      _ => {
        l.s("mod");
        l.len()..l.len()
      }
    };
    let a = st..l.len();
    l.s("=");
    let b = l.hole(0, 1, cl::val);
    pairs.push((a, b));
  }
  l.s(" PING");
  // the name looked up
  let mut q = L::new();
  let qr = match choice(3) {
    0 => q.sym(1, cl::key),
    1 => q.sym(2, cl::key),
    _ => q.s("mod"),
  };
  let name = q.get(&qr);
  let Some(m) = IrcMessageRef::parse(l.str()) else {
    fail(40);
    return;
  };
  let mut want = None;
  for (a, b) in pairs.iter().rev() {
    if l.get(a) == name {
      want = Some(l.get(b));
    }
  }
  reach(2);
  check_opt(m.tag(name), want, 41);
  check_opt(m.tag(Tag::Unknown(name)), want, 42);
  let o = m.into_owned();
  check_opt(o.tag(name), want, 43);
}

/// An empty tag section and lines without one have no tags.
#[no_mangle]
pub extern "C" fn c03_none() {
  let mut l = L::new();
  let k = tail(&mut l);
  l.b.remove(0);
  let Some(m) = IrcMessageRef::parse(l.str()) else {
    fail(50);
    return;
  };
  reach(3);
  check(m.tags().next().is_none(), 51);
  check(m.tag("a").is_none(), 52);
  verify_tail(&m, k);
}
