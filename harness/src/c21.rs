//! C21: serialisation.
use crate::sym::*;
use crate::typed::*;
use tmi::msg::*;
use tmi::*;

macro_rules! round {
  ($m:ident, $($T:ident $n:literal),*) => {
    match $m {
      $(
        Message::$T(m) => {
          let Ok(json) = serde_json::to_string(m) else {
            fail(100 + $n);
            return;
          };
          let Ok(back) = serde_json::from_str::<$T>(&json) else {
            fail(200 + $n);
            return;
          };
          check(back == *m, 300 + $n);
          let a = getters($m);
          let b = getters(&Message::$T(back));
          check(a.len() == b.len(), 400 + $n);
          check(same_bytes(&a, &b), 400 + $n);
          reach($n);
        }
      )*
      Message::Reconnect | Message::Other(_) => {}
    }
  };
}

fn verify(s: &str) {
  let Ok(m) = Message::parse(s) else {
    return;
  };
  let m = &m;
  round!(m, ClearChat 1, ClearMsg 2, GlobalUserState 3, Join 4, Notice 5, Part 6, Ping 7, Pong 8, Privmsg 9, RoomState 10, UserNotice 11, UserState 12, Whisper 13);
}

/// Complete lines, one symbolic byte in every place of a value in turn.
#[no_mangle]
pub extern "C" fn c21_lines() {
  let mut t = L::new();
  let k = choice(LINES.len());
  let mut holes = 0;
  for &b in LINES[k].as_bytes() {
    if b == b'$' || b == b'^' || b == b'?' {
      holes += 1;
    }
  }
  let at = choice(holes + 1);
  let mut n = 0;
  for &b in LINES[k].as_bytes() {
    match b {
      b'$' | b'^' | b'?' => {
        if n == at {
          match b {
            b'$' => t.sym(1, cl::valx),
            b'^' => t.sym(1, cl::digit),
            _ => t.sym(1, cl::word),
          };
        } else {
          t.b.push(if b == b'^' { b'7' } else { b'x' });
        }
        n += 1;
      }
      b => t.b.push(b),
    }
  }
  verify(t.str());
}

/// Lines without some of their tags.
#[no_mangle]
pub extern "C" fn c21_tags() {
  let mut t = L::new();
  let k = choice(LINES.len());
  line(&mut t, k, 0);
  let s = t.str();
  let b = s.as_bytes();
  assume(b[0] == b'@');
  let mut ends = Vec::with_capacity(40);
  let mut i = 1;
  while b[i] != b' ' {
    if b[i] == b';' {
      ends.push(i);
    }
    i += 1;
  }
  ends.push(i);
  let n = choice(ends.len());
  let start = if n == 0 { 1 } else { ends[n - 1] + 1 };
  let mut l = L::new();
  l.s(&s[..start]);
  let how = choice(5);
  if how > 0 {
    let mut e = start;
    while b[e] != b'=' {
      e += 1;
    }
    l.s(&s[start..e + 1]);
    match how {
      1 => {}
      2 => {
        l.hole(1, by(1, 2), cl::valx);
      }
      3 => {
        l.s("a\"\\");
        l.sym(1, cl::valx);
        l.s("\u{7f}\u{2028}\u{1f600}\r\n\t");
      }
      _ => {
        l.s("subscriber/");
        l.sym(1, cl::valx);
        l.s(",x/,staff/1");
      }
    }
    l.s(";");
  }
  l.s("zz=1");
  l.s(&s[ends[n]..]);
  verify(l.str());
}

/// Texts and channels of several symbolic bytes.
#[no_mangle]
pub extern "C" fn c21_text() {
  let mut l = L::new();
  l.s("@id=i;room-id=1;user-id=2;display-name=n;tmi-sent-ts=0;target-user-id=3;target-msg-id=t;login=l;msg-id=");
  l.hole(0, 1, cl::valx);
  l.s(" :n!n@h ");
  l.pick(&["PRIVMSG", "CLEARCHAT", "CLEARMSG", "NOTICE", "WHISPER", "PING", "PONG", "JOIN", "PART", "USERSTATE"]);
  match choice(3) {
    0 => {
      l.s(" #c :");
      l.hole_u(0, by(2, 3), cl::ascii);
    }
    1 => {
      l.s(" #");
      l.hole_u(0, by(2, 3), cl::word);
      l.s(" :t");
    }
    _ => {
      l.s(" #c :\u{1}ACTION ");
      l.hole_u(0, 1, cl::ascii);
      l.s("\u{1}");
    }
  }
  verify(l.str());
}

/// Timestamps and numbers over their whole range.
#[no_mangle]
pub extern "C" fn c21_numbers() {
  let mut l = L::new();
  l.s("@id=i;room-id=1;user-id=2;display-name=n;tmi-sent-ts=");
  match choice(3) {
    0 => {
      l.pick(&[
        "0", "-1", "1", "999", "-999", "8210266876799999", "-8334601228800000", "253402300799999", "253402300800000", "-62167219200000", "-62167219200001", "-62135596800001", "1594545155000", "1594545155100", "1594545155120", "-30610224000000",
      ]);
      l.s(";bits=7;badges=;badge-info= :n!n@h ");
      l.pick(&["PRIVMSG #c :t", "CLEARCHAT #c"]);
    }
    1 => {
      l.s("0;bits=");
      l.pick(&["0", "1", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551615"]);
      l.s(";pinned-chat-paid-amount=");
      l.pick(&["0", "-1", "9007199254740993", "9223372036854775807", "-9223372036854775808"]);
      l.s(";pinned-chat-paid-currency=USD;pinned-chat-paid-exponent=");
      l.pick(&["0", "-1", "9223372036854775807", "-9223372036854775808"]);
      l.s(";pinned-chat-paid-is-system-message=");
      l.sym(1, cl::digit);
      l.s(";pinned-chat-paid-level=");
      l.pick(&["ONE", "FIVE", "TEN"]);
      l.s(" :n!n@h PRIVMSG #c :t");
    }
    _ => {
      l.s("0;target-user-id=3;ban-duration=");
      l.pick(&["0", "1", "600", "9007199254740993", "18446744073709551615"]);
      l.s(";emote-only=");
      l.sym(1, cl::digit);
      l.s(";slow=");
      l.pick(&["0", "1", "9007199254740993", "18446744073709551615", "x"]);
      l.s(";followers-only=");
      l.pick(&["-1", "0", "1", "9007199254740993", "307445734561825859", "307445734561825860", "307445734561825861", ""]);
      l.s(" :n!n@h ");
      l.pick(&["CLEARCHAT #c :u", "ROOMSTATE #c"]);
    }
  }
  verify(l.str());
}
