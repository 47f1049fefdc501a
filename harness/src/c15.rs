//! C15: user states and whispers.
use crate::spec::*;
use crate::sym::*;
use tmi::msg::*;
use tmi::{FromIrc, IrcMessageRef};

const GLOBAL: &[Spec] = &[
  Spec("badge-info", "subscriber/3", K::Fixed),
  Spec("badges", "premium/1,subscriber/0", K::Fixed),
  Spec("color", "#19E6E6", K::Text),
  Spec("display-name", "ran\\sders", K::Text),
  Spec("emote-sets", "0,42,75c0-9c", K::Text),
  Spec("user-id", "402", K::Text),
];

const USER: &[Spec] = &[
  Spec("badge-info", "subscriber/3", K::Fixed),
  Spec("badges", "moderator/1,vip/2", K::Fixed),
  Spec("color", "#19E6E6", K::Text),
  Spec("display-name", "ran\\sders", K::Text),
  Spec("emote-sets", "0,42", K::Text),
  Spec("mod", "1", K::Fixed),
];

const WHISPER: &[Spec] = &[
  Spec("badge-info", "founder/3", K::Fixed),
  Spec("badges", "founder/0,turbo/1", K::Fixed),
  Spec("color", "#19E6E6", K::Text),
  Spec("display-name", "Hun\\s", K::Text),
  Spec("emotes", "25:0-4", K::Text),
  Spec("message-id", "1", K::Fixed),
  Spec("user-id", "402", K::Text),
];

fn sets<'a>(got: impl DoubleEndedIterator<Item = &'a str> + ExactSizeIterator, num: usize, want: Option<&str>, no: u32) {
  check(got.len() == num, no);
  let mut got = got;
  if let Some(w) = want {
    for s in w.split(',') {
      check_opt(got.next(), Some(s), no + 1);
    }
  }
  check(got.next().is_none(), no + 2);
}

fn global(x: &Line) {
  let Some(irc) = IrcMessageRef::parse(x.l.str()) else {
    fail(1);
    return;
  };
  let ok = x.has("user-id") && x.has("display-name");
  let m = match GlobalUserState::from_irc(irc) {
    Ok(m) => m,
    Err(_) => {
      reach(1);
      check(!ok, 2);
      return;
    }
  };
  reach(2);
  check(ok, 3);
  check_opt(Some(m.id()), x.get("user-id"), 10);
  let want = x.get("display-name").map(unescape);
  let got = m.name();
  check_opt(Some(&got), want.as_deref(), 11);
  check_opt(m.color(), x.filled("color"), 12);
  sets(m.emote_sets(), m.num_emote_sets(), x.get("emote-sets"), 13);
  check_badges(m.badges(), m.num_badges(), x.get("badges"), x.get("badge-info"), 20);
  observe(got.as_bytes());
}

fn user(x: &Line) {
  let Some(irc) = IrcMessageRef::parse(x.l.str()) else {
    fail(1);
    return;
  };
  let ok = x.channel().is_some() && x.has("display-name");
  let m = match UserState::from_irc(irc) {
    Ok(m) => m,
    Err(_) => {
      reach(1);
      check(!ok, 2);
      return;
    }
  };
  reach(3);
  check(ok, 3);
  check_opt(Some(m.channel()), x.channel(), 30);
  let want = x.get("display-name").map(unescape);
  check_opt(Some(m.user_name()), want.as_deref(), 31);
  check_opt(m.color(), x.filled("color"), 32);
  sets(m.emote_sets(), m.num_emote_sets(), x.get("emote-sets"), 33);
  check_badges(m.badges(), m.num_badges(), x.get("badges"), x.get("badge-info"), 40);
  observe(m.user_name().as_bytes());
}

/// Position of the first ` :`.
fn split(s: &str) -> Option<usize> {
  let b = s.as_bytes();
  for i in 1..b.len() {
    if b[i - 1] == b' ' && b[i] == b':' {
      return Some(i - 1);
    }
  }
  None
}

fn whisper(x: &Line) {
  let Some(irc) = IrcMessageRef::parse(x.l.str()) else {
    fail(1);
    return;
  };
  let cut = x.params().and_then(split);
  let ok = cut.is_some() && x.nick().is_some() && x.has("user-id") && x.has("display-name");
  let m = match Whisper::from_irc(irc) {
    Ok(m) => m,
    Err(_) => {
      reach(1);
      check(!ok, 2);
      return;
    }
  };
  reach(4);
  check(ok, 3);
  let cut = cut.unwrap_or(0);
  let params = x.params().unwrap_or("");
  check_str(m.recipient(), &params[..cut], 50);
  check_str(m.text(), &params[cut + 2..], 51);
  let s = m.sender();
  check_user(&s, x.get("user-id"), x.nick(), x.get("display-name"), 52);
  check_opt(m.color(), x.filled("color"), 53);
  check_str(m.raw_emotes(), x.get("emotes").unwrap_or(""), 54);
  check_badges(m.badges(), m.num_badges(), x.get("badges"), x.get("badge-info"), 60);
  observe(m.text().as_bytes());
}

#[no_mangle]
pub extern "C" fn c15_global_tags() {
  global(&vary_tags(GLOBAL, "GLOBALUSERSTATE"));
}

#[no_mangle]
pub extern "C" fn c15_global_tail() {
  global(&vary_tail(GLOBAL, "GLOBALUSERSTATE"));
}

#[no_mangle]
pub extern "C" fn c15_user_tags() {
  user(&vary_tags(USER, "USERSTATE"));
}

#[no_mangle]
pub extern "C" fn c15_user_tail() {
  user(&vary_tail(USER, "USERSTATE"));
}

/// Emote sets are split at every comma.
#[no_mangle]
pub extern "C" fn c15_sets() {
  let mut l = L::new();
  let global_state = flag();
  l.s("@user-id=");
  let id = l.s("1");
  l.s(";display-name=");
  let name = l.hole(0, 2, cl::valx);
  l.s(";emote-sets=");
  let sets = l.hole(0, by(4, 5), cl::valx);
  let tags = vec![("user-id", id), ("display-name", name), ("emote-sets", sets)];
  l.s(" ");
  let t = tail(&mut l, if global_state { "GLOBALUSERSTATE" } else { "USERSTATE" });
  let x = Line { l, tags, t };
  if global_state {
    global(&x);
  } else {
    user(&x);
  }
}

fn recipient(l: &mut L, tags: Vec<(&'static str, R)>, vary: bool) -> Tail {
  let _ = tags;
  let nick;
  if vary {
    match choice(3) {
      0 => nick = None,
      1 => {
        l.s(":");
        l.hole(1, 2, cl::pre);
        l.s(" ");
        nick = None;
      }
      _ => {
        l.s(":");
        nick = Some(l.hole(1, 2, cl::pre));
        l.s("!u@h ");
      }
    }
  } else {
    l.s(":");
    nick = Some(l.s("nick"));
    l.s("!u@h ");
  }
  l.s("WHISPER");
  let mut params = None;
  let shape = if vary { choice(4) } else { 3 };
  if shape > 0 {
    l.s(" ");
    let st = l.len();
    match shape {
      1 => {
        l.hole(1, 3, |b| (b < 0x80) & (b != b'#'));
      }
      2 => {
        l.s("ran");
        l.hole(0, by(5, 6), cl::ascii);
      }
      _ => {
        l.s("ran");
        l.sym(1, |b| (b < 0x80) & (b != b' '));
        l.s(" :");
        l.hole(0, 2, cl::ascii);
        l.wide(2);
        l.s(" :b");
      }
    }
    params = Some(st..l.len());
  }
  Tail { nick, channel: None, params, text: None }
}

#[no_mangle]
pub extern "C" fn c15_whisper_tags() {
  let mut l = L::new();
  let tags = tags(&mut l, WHISPER);
  let t = recipient(&mut l, Vec::new(), false);
  whisper(&Line { l, tags, t });
}

#[no_mangle]
pub extern "C" fn c15_whisper_tail() {
  let mut l = L::new();
  let tags = plain_tags(&mut l, WHISPER);
  let t = recipient(&mut l, Vec::new(), true);
  whisper(&Line { l, tags, t });
}

#[no_mangle]
pub extern "C" fn c15_long() {
  match choice(3) {
    0 => global(&vary_long(GLOBAL, "GLOBALUSERSTATE")),
    1 => user(&vary_long(USER, "USERSTATE")),
    _ => whisper(&vary_long(WHISPER, "WHISPER")),
  }
}
