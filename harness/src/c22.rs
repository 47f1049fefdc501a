//! C22: detaching a message from its source.
use crate::sym::*;
use crate::typed::*;
use tmi::msg::*;
use tmi::*;

/// The owned message and the getters of the borrowed one. The line is gone
/// when this returns, so that a reference into it would be found.
fn detach(l: L, spoil: bool) -> Option<(Message<'static>, Vec<u8>)> {
  let mut l = l;
  let out = {
    let m = Message::parse(l.str()).ok()?;
    let want = getters(&m);
    macro_rules! each {
      ($($T:ident)*) => {
        match m {
          $(Message::$T(m) => {
            let owned = m.clone().into_owned();
            check(owned == m, 1);
            Message::$T(owned)
          })*
          Message::Reconnect => Message::Reconnect,
          Message::Other(_) => return None,
        }
      };
    }
    let owned = each!(ClearChat ClearMsg GlobalUserState Join Notice Part Ping Pong Privmsg RoomState UserNotice UserState Whisper);
    (owned, want)
  };
  if spoil {
    for b in l.b.iter_mut() {
      *b = b'!';
    }
  }
  Some(out)
}

fn verify(l: L) {
  let Some((owned, want)) = detach(l, flag()) else {
    return;
  };
  let got = getters(&owned);
  check(got.len() == want.len(), 2);
  check(same_bytes(&got, &want), 2);
  // a second time
  macro_rules! each {
    ($($T:ident)*) => {
      match owned {
        $(Message::$T(m) => Message::$T(m.into_owned()),)*
        m => m,
      }
    };
  }
  let again = each!(ClearChat ClearMsg GlobalUserState Join Notice Part Ping Pong Privmsg RoomState UserNotice UserState Whisper);
  let got = getters(&again);
  check(got.len() == want.len(), 3);
  check(same_bytes(&got, &want), 3);
  reach(1);
}

/// Complete lines with symbolic bytes.
#[no_mangle]
pub extern "C" fn c22_lines() {
  let mut l = L::new();
  skeleton(&mut l);
  verify(l);
}

/// Complete lines without one of their tags, or with another value.
#[no_mangle]
pub extern "C" fn c22_tags() {
  let mut t = L::new();
  let k = choice(LINES.len());
  line(&mut t, k, 0);
  let s = t.str();
  let b = s.as_bytes();
  assume(b[0] == b'@');
  let mut ends = Vec::with_capacity(40);
  let mut i = 1;
  while b[i] != b' ' {
    if b[i] == b';' {
      ends.push(i);
    }
    i += 1;
  }
  ends.push(i);
  let n = choice(ends.len());
  let start = if n == 0 { 1 } else { ends[n - 1] + 1 };
  let mut l = L::new();
  l.s(&s[..start]);
  let how = choice(3);
  if how > 0 {
    let mut e = start;
    while b[e] != b'=' {
      e += 1;
    }
    l.s(&s[start..e + 1]);
    if how == 1 {
      l.hole(0, by(2, 3), cl::valx);
    } else {
      l.s("\u{e9}");
      l.sym(1, cl::valx);
      l.s("\\s");
    }
    l.s(";");
  }
  l.s("zz=1");
  l.s(&s[ends[n]..]);
  verify(l);
}

/// Badges: each entry by itself.
#[no_mangle]
pub extern "C" fn c22_badges() {
  let mut l = L::new();
  l.s("@badge-info=subscriber/");
  l.hole(0, 2, cl::valx);
  l.s(";badges=staff/1,turbo/1,broadcaster/1,moderator/1,subscriber/");
  l.hole(0, 1, cl::valx);
  l.s(",");
  l.hole(1, 2, cl::valx);
  l.s("/");
  l.hole(0, 1, cl::valx);
  l.s(";id=i;room-id=1;user-id=2");
  l.hole(0, 1, cl::valx);
  l.s(";display-name=n\\s");
  l.hole(0, 1, cl::valx);
  l.s(";tmi-sent-ts=0 :n!n@h PRIVMSG #c :t");
  let Some(irc) = IrcMessageRef::parse(l.str()) else {
    fail(10);
    return;
  };
  let Ok(m) = Privmsg::from_irc(irc) else {
    fail(11);
    return;
  };
  for b in m.badges() {
    let owned = b.clone().into_owned();
    check(owned == *b, 12);
    let (d, e) = (b.as_badge_data(), owned.as_badge_data());
    check(d == e, 13);
    check_str(d.name(), e.name(), 14);
    check_str(d.version(), e.version(), 15);
    check_opt(d.extra(), e.extra(), 16);
    let o = d.clone().into_owned();
    check(o == d, 17);
    check_str(d.name(), o.name(), 18);
    check_str(d.version(), o.version(), 19);
    check_opt(d.extra(), o.extra(), 20);
    if let (Badge::Subscriber(s), Badge::Subscriber(t)) = (b, &owned) {
      check_str(s.version(), t.version(), 21);
      check(s.months() == t.months(), 22);
      let t = s.clone().into_owned();
      check(t == *s, 23);
      check(s.months() == t.months(), 24);
      check_str(s.version(), t.version(), 25);
      reach(2);
    }
  }
  let (u, v) = (m.sender().clone(), m.sender().clone().into_owned());
  check(u == v, 26);
  check_str(u.id(), v.id(), 27);
  check_str(u.login(), v.login(), 28);
  let (a, b) = (u.name(), v.name());
  check_str(&a, &b, 29);
  reach(1);
}
