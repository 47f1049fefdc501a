//! C16: membership, ping and notice messages.
use crate::spec::*;
use crate::sym::*;
use tmi::msg::*;
use tmi::{FromIrc, IrcMessageRef};

fn parse(x: &Line) -> Option<IrcMessageRef<'_>> {
  let m = IrcMessageRef::parse(x.l.str());
  if m.is_none() {
    fail(1);
  }
  m
}

const TAGS: &[Spec] = &[Spec("msg-id", "msg_banned", K::Text)];

fn line(cmd: &str) -> Line {
  match choice(4) {
    0 => vary_tail(&[], cmd),
    1 => vary_tail(TAGS, cmd),
    2 => vary_long(TAGS, cmd),
    _ => vary_tags(TAGS, cmd),
  }
}

#[no_mangle]
pub extern "C" fn c16_join() {
  let x = line("JOIN");
  let Some(irc) = parse(&x) else { return };
  let ok = x.channel().is_some() && x.nick().is_some();
  match Join::from_irc(irc) {
    Ok(m) => {
      reach(1);
      check(ok, 10);
      check_opt(Some(m.channel()), x.channel(), 11);
      check_opt(Some(m.user()), x.nick(), 12);
      observe(m.user().as_bytes());
    }
    Err(_) => {
      reach(2);
      check(!ok, 13);
    }
  }
}

#[no_mangle]
pub extern "C" fn c16_part() {
  let x = line("PART");
  let Some(irc) = parse(&x) else { return };
  let ok = x.channel().is_some() && x.nick().is_some();
  match Part::from_irc(irc) {
    Ok(m) => {
      reach(3);
      check(ok, 20);
      check_opt(Some(m.channel()), x.channel(), 21);
      check_opt(Some(m.user()), x.nick(), 22);
      observe(m.user().as_bytes());
    }
    Err(_) => {
      reach(4);
      check(!ok, 23);
    }
  }
}

#[no_mangle]
pub extern "C" fn c16_ping() {
  let x = line("PING");
  let Some(irc) = parse(&x) else { return };
  match Ping::from_irc(irc) {
    Ok(m) => {
      reach(5);
      check_opt(m.nonce(), x.text(), 30);
      observe_opt(m.nonce());
    }
    Err(_) => fail(31),
  }
}

#[no_mangle]
pub extern "C" fn c16_pong() {
  let x = line("PONG");
  let Some(irc) = parse(&x) else { return };
  match Pong::from_irc(irc) {
    Ok(m) => {
      reach(6);
      check_opt(m.nonce(), x.text(), 40);
      observe_opt(m.nonce());
    }
    Err(_) => fail(41),
  }
}

#[no_mangle]
pub extern "C" fn c16_notice() {
  let x = line("NOTICE");
  let Some(irc) = parse(&x) else { return };
  match Notice::from_irc(irc) {
    Ok(m) => {
      reach(7);
      check(x.text().is_some(), 50);
      check_opt(m.channel(), x.channel(), 51);
      check_opt(Some(m.text()), x.text(), 52);
      check_opt(m.id(), x.get("msg-id"), 53);
      observe(m.text().as_bytes());
    }
    Err(_) => {
      reach(8);
      check(x.text().is_none(), 54);
    }
  }
}

/// The text of a ping or notice is everything behind the first colon.
#[no_mangle]
pub extern "C" fn c16_text() {
  let mut l = L::new();
  l.pick(&[":tmi.twitch.tv ", ""]);
  let cmd = choice(3);
  l.s(["PING", "PONG", "NOTICE"][cmd]);
  l.s(" ");
  let st = l.len();
  l.s(["", "tmi ", "*"][choice(3)]);
  l.sym(1, |b| (b < 0x80) & (b != b'#'));
  l.hole_u(0, by(3, 4), cl::ascii);
  let r = st..l.len();
  let p = l.get(&r);
  let mut at = None;
  for (k, b) in p.bytes().enumerate() {
    if b == b':' && at.is_none() {
      at = Some(k + 1);
    }
  }
  let want = &p[at.unwrap_or(0)..];
  let Some(irc) = IrcMessageRef::parse(l.str()) else {
    fail(1);
    return;
  };
  reach(9);
  match cmd {
    0 => match Ping::from_irc(irc) {
      Ok(m) => check_opt(m.nonce(), Some(want), 60),
      Err(_) => fail(61),
    },
    1 => match Pong::from_irc(irc) {
      Ok(m) => check_opt(m.nonce(), Some(want), 62),
      Err(_) => fail(63),
    },
    _ => match Notice::from_irc(irc) {
      Ok(m) => check_opt(Some(m.text()), Some(want), 64),
      Err(_) => fail(65),
    },
  }
}
