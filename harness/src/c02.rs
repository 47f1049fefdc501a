//! C02: a line is split into exactly its parts.
use crate::sym::*;
use tmi::{Command, IrcMessageRef};

fn text_of(params: &str) -> &str {
  let b = params.as_bytes();
  let mut i = 0;
  while i < b.len() {
    if b[i] == b':' {
      return &params[i + 1..];
    }
    i += 1;
  }
  params
}

struct Parts {
  l: L,
  cmd: R,
  chan: Option<R>,
  params: Option<R>,
}

fn front(l: &mut L) {
  match choice(3) {
    0 => {}
    1 => {
      l.s("@");
      l.sym(1, cl::key);
      l.s("=");
      l.hole(0, 2, cl::valx);
      l.s(" ");
    }
    _ => {
      l.s("@id=0123456789abcdef;b=\u{e9};c= ");
    }
  }
  match choice(3) {
    0 => {}
    1 => {
      l.s(":");
      l.hole(1, 2, cl::pre);
      l.s(" ");
    }
    _ => {
      l.s(":nick!user@");
      l.hole(1, 2, cl::pre);
      l.s(" ");
    }
  }
}

fn back(l: &mut L) -> (Option<R>, Option<R>) {
  match choice(7) {
    // nothing after the command
    0 => (None, None),
    // a separator and nothing else
    1 => {
      l.s(" ");
      (None, None)
    }
    // channel only
    2 => {
      l.s(" ");
      let st = l.len();
      l.s("#");
      l.hole_u(0, 2, cl::word);
      (Some(st..l.len()), None)
    }
    3 => {
      l.s(" ");
      let st = l.len();
      l.s("#");
      l.hole(0, 2, cl::word);
      let c = st..l.len();
      l.s(" ");
      (Some(c), None)
    }
    // channel and params
    4 => {
      l.s(" ");
      let st = l.len();
      l.s("#");
      l.hole(0, 2, cl::word);
      let c = st..l.len();
      l.s(" ");
      let st = l.len();
      l.pick(&["", ":"]);
      l.hole_u(0, by(4, 6), cl::ascii);
      let p = st..l.len();
      (Some(c), if p.is_empty() { None } else { Some(p) })
    }
    // params only
    5 => {
      l.s(" ");
      let st = l.len();
      let b = byte(|b| (b < 0x80) & (b != b'#'));
      l.b.push(b);
      l.hole_u(0, by(4, 6), cl::ascii);
      (None, Some(st..l.len()))
    }
    // long params
    _ => {
      l.s(" ");
      let st = l.len();
      l.s("x");
      l.rep(b'y', pick(&[7, 15, 16, 17, 31, 33]));
      l.sym(2, cl::ascii);
      l.s(" :tail #not :chan");
      (None, Some(st..l.len()))
    }
  }
}

fn verify(p: &Parts) {
  let src = p.l.str();
  let Some(m) = IrcMessageRef::parse(src) else {
    fail(1);
    return;
  };
  reach(1);
  check_str(m.raw(), src, 2);
  check_str(m.command().as_str(), p.l.get(&p.cmd), 3);
  check_opt(m.channel(), p.chan.as_ref().map(|r| p.l.get(r)), 4);
  check_opt(m.params(), p.params.as_ref().map(|r| p.l.get(r)), 5);
  check_opt(
    m.text(),
    p.params.as_ref().map(|r| text_of(p.l.get(r))),
    6,
  );
  observe_opt(m.channel());
  observe_opt(m.text());
  // the owned message reports the same line and parts
  if let Some(o) = tmi::IrcMessage::parse(src) {
    check_str(o.command().as_str(), p.l.get(&p.cmd), 7);
    check_opt(o.channel(), p.chan.as_ref().map(|r| p.l.get(r)), 8);
    check_opt(o.params(), p.params.as_ref().map(|r| p.l.get(r)), 9);
  } else {
    fail(10);
  }
}

/// Any word as the command (353 and 366 excluded).
#[no_mangle]
pub extern "C" fn c02_words() {
  let mut l = L::new();
  front(&mut l);
  let st = l.len();
  let b = byte(|b| (b < 0x80) & (b != b' ') & (b != b'@') & (b != b':') & (b != b'3'));
  l.b.push(b);
  l.hole(0, by(2, 4), cl::word);
  let cmd = st..l.len();
  let (chan, params) = back(&mut l);
  verify(&Parts { l, cmd, chan, params });
}

/// The known command names.
#[no_mangle]
pub extern "C" fn c02_known() {
  let mut l = L::new();
  front(&mut l);
  let cmd = l.pick(&[
    "PING", "PONG", "JOIN", "PART", "PRIVMSG", "WHISPER", "CLEARCHAT", "CLEARMSG",
    "GLOBALUSERSTATE", "NOTICE", "RECONNECT", "ROOMSTATE", "USERNOTICE", "USERSTATE", "CAP",
    "001", "002", "003", "004", "372", "375", "376", "421", "privmsg",
  ]);
  let (chan, params) = back(&mut l);
  verify(&Parts { l, cmd, chan, params });
}

fn nows(b: u8) -> bool {
  (b < 0x80) & (b > 32)
}
fn nows_first(b: u8) -> bool {
  (b < 0x80) & (b > 32) & (b != b'#')
}

/// 353 and 366: the channel is a word of the params.
#[no_mangle]
pub extern "C" fn c02_names() {
  let mut l = L::new();
  front(&mut l);
  let names = flag();
  l.s(if names { "353 " } else { "366 " });
  let st = l.len();
  let need = if names { 3 } else { 2 };
  let have = choice(need + 2);
  let mut chan = None;
  for i in 0..have {
    if i > 0 {
      l.s(" ");
    }
    let w = l.len();
    if i == 0 {
      l.sym(1, nows_first);
      l.hole(0, 1, nows);
    } else {
      l.hole(1, 2, nows);
    }
    if i + 1 == need {
      chan = Some(w..l.len());
    }
  }
  if have > 0 && flag() {
    l.s(" :tail words");
    if have + 1 == need {
      let e = l.len();
      chan = Some(e - 11..e - 6);
    }
    if have + 2 == need {
      let e = l.len();
      chan = Some(e - 5..e);
    }
  }
  let src = l.str();
  let Some(m) = IrcMessageRef::parse(src) else {
    fail(20);
    return;
  };
  reach(2);
  check_opt(m.channel(), chan.as_ref().map(|r| l.get(r)), 21);
  let params = &src[st..];
  check_opt(m.params(), if params.is_empty() { None } else { Some(params) }, 22);
  check_opt(
    tmi::IrcMessage::parse(src).unwrap().channel(),
    chan.as_ref().map(|r| l.get(r)),
    23,
  );
}

/// Parts whose lengths do not fit small integers.
#[no_mangle]
pub extern "C" fn c02_long() {
  const N: [usize; 7] = [63, 64, 255, 256, 510, 65535, 65536];
  let mut l = L::new();
  let n = N[choice(if THOROUGH { 7 } else { 6 }) + if THOROUGH { 0 } else { 1 }];
  let at = choice(5);
  let mut some = |l: &mut L, k: usize, class: fn(u8) -> bool| {
    if k == at {
      l.rep(b'x', n);
    }
    l.hole(1, 2, class)
  };
  if at == 0 || flag() {
    l.s("@k=");
    some(&mut l, 0, cl::val);
    l.s(" ");
  }
  if at == 1 || flag() {
    l.s(":");
    some(&mut l, 1, cl::pre);
    l.s(" ");
  }
  let st = l.len();
  l.s("X");
  some(&mut l, 2, cl::word);
  let cmd = st..l.len();
  l.s(" ");
  let st = l.len();
  l.s("#");
  some(&mut l, 3, cl::word);
  let chan = Some(st..l.len());
  l.s(" ");
  let st = l.len();
  l.s(if flag() { ":" } else { "a:" });
  some(&mut l, 4, cl::ascii);
  let params = Some(st..l.len());
  reach(4);
  verify(&Parts { l, cmd, chan, params });
}
