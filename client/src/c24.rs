//! C24: send operations.
use crate::sym::*;
use crate::world::*;
use tmi::IrcMessageRef;

/// Any character of an argument: no line breaks.
fn arg(b: u8) -> bool {
  (b < 0x80) & (b != b'\r') & (b != b'\n') & (b != 0)
}
/// Any character of a tag value: line breaks are escaped.
fn tag(b: u8) -> bool {
  (b < 0x80) & (b != 0)
}
/// A channel name (the '#' aside).
fn chan(b: u8) -> bool {
  (b > b' ') & (b < 0x7f) & (b != b'#') & (b != b',') & (b != b':')
}

fn text(l: &mut L, q: usize, t: usize) -> R {
  let st = l.len();
  match choice(by(4, 6)) {
    0 => {
      l.hole(0, by(q, t), arg);
    }
    1 => {
      l.wide(2 + choice(3));
      l.hole(0, 2, arg);
    }
    2 => {
      l.hole(0, 1, arg);
      l.s("@a=b;c :#d PRIVMSG\u{1}");
      l.hole(0, 1, arg);
    }
    3 => {
      l.sym(1, arg);
      l.rep(b'x', 70);
      l.sym(1, arg);
    }
    4 => {
      l.sym(by(8, 12), arg);
    }
    _ => {
      l.sym(2, arg);
      l.rep(b' ', 600);
      l.rep(b'y', 600);
      l.sym(2, arg);
    }
  }
  st..l.len()
}

/// A tag value: also no U+2E1D, which the library takes for an escaped comma.
fn value(l: &mut L) -> R {
  let st = l.len();
  match choice(by(4, 5)) {
    0 => {
      l.hole(0, by(3, 4), tag);
    }
    1 => {
      let n = 2 + choice(3);
      let r = l.wide(n);
      let b = l.get(&r).as_bytes();
      if n == 3 {
        assume(!((b[0] == 0xe2) & (b[1] == 0xb8) & (b[2] == 0x9d)));
      }
      l.hole(0, 1, tag);
    }
    2 => {
      l.s("885196de-cb67-427a-baa8-82f9b0fcd05f");
    }
    3 => {
      l.sym(1, tag);
      l.s("\\; ");
      l.sym(1, tag);
    }
    _ => {
      l.sym(5, tag);
    }
  }
  st..l.len()
}

fn escape(v: &str, out: &mut String) {
  for c in v.chars() {
    match c {
      ';' => out.push_str("\\:"),
      ' ' => out.push_str("\\s"),
      '\\' => out.push_str("\\\\"),
      '\r' => out.push_str("\\r"),
      '\n' => out.push_str("\\n"),
      c => out.push(c),
    }
  }
}

/// How the connection takes what is written.
fn writes() {
  let a = &mut conn().a;
  match choice(by(4, 6)) {
    0 => {}
    1 => a.buffered = true,
    2 => {
      a.write_max = 1;
      a.write_slow = flag();
    }
    3 => {
      a.write_max = 7;
      a.write_slow = true;
      a.buffered = true;
    }
    4 => a.write_slow = true,
    _ => {
      a.write_max = 20;
      a.buffered = true;
    }
  }
}

fn reply(l: &mut L) -> R {
  l.s("885196de-cb67-427a-baa8-82f9b0fcd05f")
}

/// One part with any content at a time.
#[no_mangle]
pub extern "C" fn c24_privmsg() {
  let mut c = client(Attempt::new());
  let mut l = L::new();
  let ch = l.s("#").start;
  let mut tx = 0..0;
  let mut rp = None;
  let mut nc = None;
  let part = choice(6);
  if part == 0 {
    match choice(2) {
      0 => l.hole(1, by(3, 5), chan),
      _ => l.wide(2 + choice(3)),
    };
  } else {
    l.s("chan_nel25");
  }
  let ch = ch..l.len();
  if part == 1 {
    tx = text(&mut l, 4, 7);
  } else {
    tx = l.s("some: text ");
  }
  match part {
    0 | 1 => {
      if flag() {
        rp = Some(reply(&mut l));
      }
      if flag() {
        nc = Some(l.s("nonce"));
      }
    }
    2 => rp = Some(value(&mut l)),
    3 => nc = Some(value(&mut l)),
    4 => {
      rp = Some(value(&mut l));
      nc = Some(l.hole(0, 1, tag));
    }
    _ => {
      rp = Some(l.hole(0, 1, tag));
      nc = Some(l.hole(0, 1, tag));
      writes();
    }
  }
  sent(&mut c, &l, ch, tx, rp, nc, flag());
}

fn sent(c: &mut tmi::Client, l: &L, ch: R, tx: R, reply: Option<R>, nonce: Option<R>, swap: bool) {
  let (ch, tx) = (l.get(&ch), l.get(&tx));
  let mut p = c.privmsg(ch, tx);
  // in either order
  if swap {
    if let Some(v) = &nonce {
      p = p.client_nonce(l.get(v));
    }
  }
  if let Some(v) = &reply {
    p = p.reply_to(l.get(v));
  }
  if !swap {
    if let Some(v) = &nonce {
      p = p.client_nonce(l.get(v));
    }
  }
  if !matches!(run(p.send()), Some(Ok(()))) {
    fail(1);
    return;
  }
  let out = std::str::from_utf8(conn().out()).unwrap();
  observe(out.as_bytes());
  // one line
  check(out.ends_with("\r\n"), 2);
  let line = out.strip_suffix("\r\n").unwrap_or(out);
  // the tags come in any order
  let mut want = [String::new(), String::new()];
  for k in 0..2 {
    let w = &mut want[k];
    let mut tags = [("reply-parent-msg-id", &reply), ("client-nonce", &nonce)];
    if k == 1 {
      tags.swap(0, 1);
    }
    let mut sep = "@";
    for (name, v) in tags {
      if let Some(v) = v {
        w.push_str(sep);
        w.push_str(name);
        w.push('=');
        escape(l.get(v), w);
        sep = ";";
      }
    }
    if sep == ";" {
      w.push(' ');
    }
    w.push_str("PRIVMSG ");
    w.push_str(ch);
    w.push_str(" :");
    w.push_str(tx);
  }
  reach(reply.is_some() as u32 * 2 + nonce.is_some() as u32);
  check(line.len() == want[0].len(), 3);
  check(same(line, &want[0]) | same(line, &want[1]), 4);
  // and back
  let Some(m) = IrcMessageRef::parse(line) else {
    fail(5);
    return;
  };
  check_opt(m.channel(), Some(ch), 6);
  check_opt(m.text(), Some(tx), 7);
  for (name, v) in [("reply-parent-msg-id", &reply), ("client-nonce", &nonce)] {
    match (m.tag(name), v) {
      (Some(t), Some(v)) => check_str(&tmi::unescape(t), l.get(v), 8),
      (None, None) => {}
      _ => fail(9),
    }
  }
}

/// One operation and the line it has to send.
fn operation(k: usize, l: &mut L, small: bool) -> (Op, String) {
  let text = |l: &mut L| if small { l.hole(0, 2, arg) } else { text(l, 3, 6) };
  let mut want = String::new();
  match k {
    0 => {
      let v = text(l);
      want.push_str("PING :");
      want.push_str(l.get(&v));
      want.push_str("\r\n");
      (Op::Ping(v), want)
    }
    1 => {
      // the nonce of a received ping
      let st = l.len();
      l.s(":tmi.twitch.tv PING");
      match choice(3) {
        0 => want.push_str("PONG\r\n"),
        1 => {
          l.s(" :");
          let v = text(l);
          want.push_str("PONG :");
          want.push_str(l.get(&v));
          want.push_str("\r\n");
        }
        _ => {
          l.s(" ");
          let v = l.hole(1, 4, chan);
          want.push_str("PONG :");
          want.push_str(l.get(&v));
          want.push_str("\r\n");
        }
      }
      (Op::Pong(st..l.len()), want)
    }
    2 => {
      let (r, c) = channel(l, small);
      want.push_str("JOIN ");
      want.push_str(&c);
      want.push_str("\r\n");
      (Op::Join(r), want)
    }
    3 => {
      let n = 1 + choice(if small { 2 } else { by(3, 4) });
      let mut all = Vec::new();
      want.push_str("JOIN ");
      for i in 0..n {
        let (r, c) = channel(l, small);
        all.push(r);
        if i > 0 {
          want.push(',');
        }
        want.push_str(&c);
      }
      want.push_str("\r\n");
      (Op::JoinAll(all), want)
    }
    _ => {
      let st = l.s("#c").start;
      let ch = st..l.len();
      let tx = l.hole(0, 2, arg);
      want.push_str("PRIVMSG #c :");
      want.push_str(l.get(&tx));
      want.push_str("\r\n");
      (Op::Privmsg(ch, tx), want)
    }
  }
}

enum Op {
  Ping(R),
  Pong(R),
  Join(R),
  JoinAll(Vec<R>),
  Privmsg(R, R),
}

fn channel(l: &mut L, small: bool) -> (R, String) {
  let st = l.len();
  let hash = flag();
  if hash {
    l.s("#");
  }
  match choice(if small { 2 } else { 3 }) {
    0 => {
      // a '#' that is not the first character is part of the name
      l.sym(1, chan);
      l.hole(0, if small { 1 } else { by(1, 2) }, |b| chan(b) | (b == b'#'))
    }
    1 => l.s("forsen"),
    _ => l.wide(2),
  };
  let r = st..l.len();
  let mut s = String::new();
  if !hash {
    s.push('#');
  }
  s.push_str(l.get(&r));
  (r, s)
}

/// Polls an operation at most `polls` times: `None` if it was given up.
fn perform(c: &mut tmi::Client, op: &Op, l: &L, polls: usize) -> Option<bool> {
  macro_rules! go {
    ($f:expr) => {{
      let f = std::pin::pin!($f);
      poll(f, polls).map(|r| r.is_ok())
    }};
  }
  match op {
    Op::Ping(v) => go!(c.ping(l.get(v))),
    Op::Pong(v) => {
      let Ok(tmi::Message::Pong(_) | tmi::Message::Ping(_)) = tmi::Message::parse(l.get(v)) else {
        fail(20);
        return None;
      };
      let Ok(tmi::Message::Ping(p)) = tmi::Message::parse(l.get(v)) else {
        fail(21);
        return None;
      };
      go!(c.pong(&p))
    }
    Op::Join(v) => go!(c.join(l.get(v))),
    Op::JoinAll(v) => {
      let v: Vec<&str> = v.iter().map(|r| l.get(r)).collect();
      go!(c.join_all(v.iter()))
    }
    Op::Privmsg(ch, tx) => go!(c.privmsg(l.get(ch), l.get(tx)).send()),
  }
}

#[no_mangle]
pub extern "C" fn c24_others() {
  let mut c = client(Attempt::new());
  let mut l = L::new();
  let k = choice(4);
  let (op, want) = operation(k, &mut l, false);
  writes();
  check(perform(&mut c, &op, &l, usize::MAX) == Some(true), 1);
  let out = std::str::from_utf8(conn().out()).unwrap();
  observe(out.as_bytes());
  reach(k as u32);
  check_str(out, &want, 2);
}

/// Nothing of an earlier operation, however it ended, is sent by a later one.
#[no_mangle]
pub extern "C" fn c24_after() {
  let mut c = client(Attempt::new());
  let mut l = L::new();
  let mut first = L::new();
  first.s("first");
  let a = &mut conn().a;
  a.buffered = flag();
  a.write_max = pick(&[usize::MAX, 3]);
  // how the first operation ends
  let how = choice(4);
  match how {
    0 => {}
    1 => {
      a.write_limit = choice(by(5, 12));
      a.write_end = pick(&[Step::Err, Step::Ok, Step::Stall]);
    }
    2 => {
      // given up while it waits
      a.write_slow = true;
      a.write_limit = pick(&[0, 4, usize::MAX]);
      a.write_end = Step::Err;
    }
    _ => a.flush = pick(&[Step::Err, Step::Stall]),
  }
  let polls = if how == 2 { 1 + choice(by(3, 8)) } else { 60 };
  let k = choice(6);
  let op = match k {
    0 => Op::Ping(0..5),
    1 => Op::Join(0..5),
    2 => Op::JoinAll(vec![0..5, 1..5]),
    3 => Op::Privmsg(0..5, 0..5),
    4 => {
      let st = first.s("PING :first").start;
      Op::Pong(st..first.len())
    }
    _ => {
      // not a line
      let f = std::pin::pin!(c.send_raw("no line"));
      check(matches!(poll(f, 60), Some(Err(_))), 3);
      Op::Ping(0..5)
    }
  };
  let r = perform(&mut c, &op, &first, polls);
  reach(100 + how as u32 * 4 + r.map_or(2, |v| v as u32));
  // the connection recovers
  let k = conn();
  k.a.write_limit = usize::MAX;
  k.a.write_slow = flag();
  k.a.flush = Step::Ok;
  let before = k.accepted.len();
  let (op, want) = operation(choice(5), &mut l, true);
  check(perform(&mut c, &op, &l, usize::MAX) == Some(true), 1);
  let k = conn();
  check(k.sent == k.accepted.len(), 2);
  let out = std::str::from_utf8(&k.accepted[before..]).unwrap();
  observe(out.as_bytes());
  check_str(out, &want, 4);
}
