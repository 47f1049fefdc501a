//! C10: conversion to typed messages.
use crate::sym::*;
use crate::typed::*;
use tmi::msg::*;
use tmi::*;

macro_rules! each {
  ($irc:ident, $generic:ident, $($T:ident $C:pat, $n:literal;)*) => {
    $(
      let want = match &$generic {
        Ok(Message::$T(m)) => Some(m),
        _ => None,
      };
      match (<$T as FromIrc>::from_irc($irc.clone()), want) {
        (Ok(a), Some(b)) => {
          reach($n);
          check(a == *b, 100 + $n);
          check(matches!($irc.command(), $C), 200 + $n);
          // back to the generic message
          let again = Message::from(a);
          let same = $generic.as_ref().is_ok_and(|g| eq_message(&again, g));
          check(same, 500 + $n);
        }
        (Err(_), None) => {}
        (Ok(_), None) => fail(300 + $n),
        (Err(_), Some(_)) => fail(400 + $n),
      }
    )*
  };
}

fn verify(s: &str) {
  let generic = Message::parse(s);
  let Some(irc) = IrcMessageRef::parse(s) else {
    check(generic.is_err(), 1);
    return;
  };
  use Command as C;
  each! { irc, generic,
    ClearChat C::ClearChat, 1;
    ClearMsg C::ClearMsg, 2;
    GlobalUserState C::GlobalUserState, 3;
    Join C::Join, 4;
    Notice C::Notice, 5;
    Part C::Part, 6;
    Ping C::Ping, 7;
    Pong C::Pong, 8;
    Privmsg C::Privmsg, 9;
    RoomState C::RoomState, 10;
    UserNotice C::UserNotice, 11;
    UserState C::UserState, 12;
    Whisper C::Whisper, 13;
  }
  // the variant is the one of the command
  let ok = match (&generic, irc.command()) {
    (Err(_), c) => !matches!(c, C::Reconnect) && typed_command(c),
    (Ok(Message::Reconnect), c) => matches!(c, C::Reconnect),
    (Ok(Message::Other(m)), c) => {
      reach(14);
      check_str(m.raw(), irc.raw(), 20);
      check(m.command() == c, 21);
      check(m.channel() == irc.channel(), 22);
      check(m.params() == irc.params(), 23);
      check(m.prefix() == irc.prefix(), 24);
      check(m.tags().eq(irc.tags()), 25);
      !typed_command(c)
    }
    // compared above
    (Ok(_), c) => typed_command(c),
  };
  check(ok, 2);
  // the other ways to convert
  let all = [Message::try_from(irc.clone()), Message::from_irc(irc.clone()), irc.clone().as_typed()];
  for (i, m) in all.iter().enumerate() {
    match (m, &generic) {
      (Ok(a), Ok(b)) => check(eq_message(a, b), 30 + i as u32),
      (Err(_), Err(_)) => {}
      _ => fail(35 + i as u32),
    }
  }
  let Some(owned) = IrcMessage::parse(s) else {
    fail(40);
    return;
  };
  match (owned.as_typed(), &generic) {
    (Ok(a), Ok(b)) => check(eq_message(&a, b), 41),
    (Err(_), Err(_)) => {}
    _ => fail(42),
  }
}

fn typed_command(c: Command<'_>) -> bool {
  use Command as C;
  matches!(
    c,
    C::ClearChat | C::ClearMsg | C::GlobalUserState | C::Join | C::Notice | C::Part | C::Ping | C::Pong | C::Privmsg | C::Reconnect | C::RoomState | C::UserNotice | C::UserState | C::Whisper
  )
}

const COMMANDS: &[&str] = &[
  "PING", "PONG", "JOIN", "PART", "PRIVMSG", "WHISPER", "CLEARCHAT", "CLEARMSG", "GLOBALUSERSTATE", "HOSTTARGET", "NOTICE", "RECONNECT", "ROOMSTATE", "USERNOTICE", "USERSTATE", "CAP", "001", "002", "003", "004", "353", "366",
  "372", "375", "376", "ABC", "Privmsg",
];

/// Start and end of the command.
fn command_of(s: &str) -> (usize, usize) {
  let b = s.as_bytes();
  let mut i = 0;
  while b[i] == b'@' || b[i] == b':' {
    while b[i] != b' ' {
      i += 1;
    }
    i += 1;
  }
  let st = i;
  while i < b.len() && b[i] != b' ' {
    i += 1;
  }
  (st, i)
}

/// Complete lines with symbolic bytes.
#[no_mangle]
pub extern "C" fn c10_lines() {
  let mut l = L::new();
  skeleton(&mut l);
  verify(l.str());
}

/// Every line with every command.
#[no_mangle]
pub extern "C" fn c10_commands() {
  let mut t = L::new();
  let k = choice(LINES.len());
  line(&mut t, k, by(0, 2));
  let (st, end) = command_of(t.str());
  let mut l = L::new();
  l.s(&t.str()[..st]);
  let c = choice(COMMANDS.len() + 1);
  if c == COMMANDS.len() {
    l.hole(1, by(2, 3), cl::word);
  } else {
    l.s(COMMANDS[c]);
  }
  l.s(&t.str()[end..]);
  verify(l.str());
}

/// Every line without one of its tags, or with the tag's value replaced.
#[no_mangle]
pub extern "C" fn c10_tags() {
  let mut t = L::new();
  let k = choice(LINES.len());
  line(&mut t, k, 0);
  let s = t.str();
  let b = s.as_bytes();
  assume(b[0] == b'@');
  let mut ends = Vec::with_capacity(40);
  let mut i = 1;
  while b[i] != b' ' {
    if b[i] == b';' {
      ends.push(i);
    }
    i += 1;
  }
  ends.push(i);
  let n = choice(ends.len());
  let start = if n == 0 { 1 } else { ends[n - 1] + 1 };
  let mut l = L::new();
  l.s(&s[..start]);
  if flag() {
    let mut e = start;
    while b[e] != b'=' {
      e += 1;
    }
    l.s(&s[start..e + 1]);
    l.hole(0, by(2, 3), cl::valx);
    l.s(";");
  }
  l.s("zz=1");
  l.s(&s[ends[n]..]);
  verify(l.str());
}

/// Every line cut at every position, with a symbolic byte in place of the last.
#[no_mangle]
pub extern "C" fn c10_cut() {
  let mut t = L::new();
  let k = choice(LINES.len());
  line(&mut t, k, 0);
  let at = choice(t.len() + 1);
  assume(t.str().is_char_boundary(at));
  let mut l = L::new();
  l.s(&t.str()[..at]);
  if flag() {
    l.sym(1, cl::ascii);
  }
  verify(l.str());
}

/// Short lines of every command.
#[no_mangle]
pub extern "C" fn c10_short() {
  let mut l = L::new();
  match choice(3) {
    0 => {}
    1 => {
      l.s(":");
      l.hole(0, 2, cl::ascii);
      l.s(" ");
    }
    _ => {
      l.s("@id=;room-id=x :n!u@h ");
    }
  }
  l.pick(COMMANDS);
  l.hole_u(0, by(3, 5), cl::ascii);
  verify(l.str());
}
