//! C09: commands.
use crate::sym::*;
use tmi::{Command, IrcMessageRef};

const KNOWN: &[(&str, Command<'static>)] = &[
  ("PING", Command::Ping),
  ("PONG", Command::Pong),
  ("JOIN", Command::Join),
  ("PART", Command::Part),
  ("PRIVMSG", Command::Privmsg),
  ("WHISPER", Command::Whisper),
  ("CLEARCHAT", Command::ClearChat),
  ("CLEARMSG", Command::ClearMsg),
  ("GLOBALUSERSTATE", Command::GlobalUserState),
  ("NOTICE", Command::Notice),
  ("RECONNECT", Command::Reconnect),
  ("ROOMSTATE", Command::RoomState),
  ("USERNOTICE", Command::UserNotice),
  ("USERSTATE", Command::UserState),
  ("CAP", Command::Capability),
  ("001", Command::RplWelcome),
  ("002", Command::RplYourHost),
  ("003", Command::RplCreated),
  ("004", Command::RplMyInfo),
  ("353", Command::RplNames),
  ("366", Command::RplEndOfNames),
  ("372", Command::RplMotd),
  ("375", Command::RplMotdStart),
  ("376", Command::RplEndOfMotd),
];

fn front(l: &mut L) {
  l.pick(&["", "@a=b ", ":h ", "@id=0123456789abcdef;x= :n!u@h "]);
}

fn verify(l: &L, cmd: &R) {
  let word = l.get(cmd);
  let Some(m) = IrcMessageRef::parse(l.str()) else {
    fail(1);
    return;
  };
  let got = m.command();
  check_str(got.as_str(), word, 2);
  let shown = got.to_string();
  check_str(&shown, word, 3);
  observe(shown.as_bytes());
  let mut known = false;
  for (name, c) in KNOWN {
    if *name == word {
      known = true;
      reach(1);
      check(got == *c, 4);
    }
  }
  if !known {
    reach(2);
    match got {
      Command::Other(w) => check_str(w, word, 5),
      _ => fail(6),
    }
  }
}

fn after(l: &mut L) {
  match choice(4) {
    0 => {}
    1 => {
      l.s(" ");
    }
    2 => {
      l.s(" #c :x");
    }
    _ => {
      l.s(" ");
      l.sym(2, cl::ascii);
    }
  }
}

#[no_mangle]
pub extern "C" fn c09_known() {
  let mut l = L::new();
  front(&mut l);
  let st = l.len();
  l.s(KNOWN[choice(KNOWN.len())].0);
  let cmd = st..l.len();
  after(&mut l);
  verify(&l, &cmd);
}

/// Neighbours of the known names: one byte replaced, inserted or removed.
#[no_mangle]
pub extern "C" fn c09_near() {
  let mut l = L::new();
  front(&mut l);
  let st = l.len();
  let name = KNOWN[choice(KNOWN.len())].0;
  let kind = choice(3);
  let at = choice(name.len() + (kind == 1) as usize);
  let first = |b: u8| (b < 0x80) & (b != b' ') & (b != b':') & (b != b'@');
  let class: fn(u8) -> bool = if at == 0 { first } else { cl::word };
  match kind {
    0 => {
      l.s(&name[..at]);
      l.sym(1, class);
      l.s(&name[at + 1..]);
    }
    1 => {
      l.s(&name[..at]);
      l.sym(1, class);
      l.s(&name[at..]);
    }
    _ => {
      l.s(&name[..at]);
      l.s(&name[at + 1..]);
    }
  }
  let cmd = st..l.len();
  if cmd.is_empty() {
    return;
  }
  after(&mut l);
  verify(&l, &cmd);
}

#[no_mangle]
pub extern "C" fn c09_any() {
  let mut l = L::new();
  front(&mut l);
  let st = l.len();
  let b = byte(|b| (b < 0x80) & (b != b' ') & (b != b':') & (b != b'@'));
  l.b.push(b);
  l.hole_u(0, by(4, 6), cl::word);
  let cmd = st..l.len();
  after(&mut l);
  verify(&l, &cmd);
}

#[no_mangle]
pub extern "C" fn c09_empty() {
  let mut l = L::new();
  front(&mut l);
  match choice(2) {
    0 => {}
    _ => {
      l.s(" ");
      l.hole_u(0, 4, cl::ascii);
    }
  }
  reach(3);
  check(IrcMessageRef::parse(l.str()).is_none(), 10);
  check(tmi::IrcMessage::parse(l.str()).is_none(), 11);
}

/// Words of many characters, also behind a known name.
#[no_mangle]
pub extern "C" fn c09_long() {
  let mut l = L::new();
  front(&mut l);
  let st = l.len();
  l.pick(&["", "PING", "PRIVMSG", "GLOBALUSERSTATE"]);
  let n = pick(&[15, 16, 31, 32, 64, 255, 256, 65536]);
  l.rep(b'A', n);
  l.sym(1, cl::word);
  let cmd = st..l.len();
  after(&mut l);
  verify(&l, &cmd);
}
