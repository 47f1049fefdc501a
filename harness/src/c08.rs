//! C08: prefixes.
use crate::sym::*;
use tmi::IrcMessageRef;

fn front(l: &mut L) {
  match choice(3) {
    0 => {}
    1 => {
      l.s("@a=");
      l.hole(0, 2, cl::val);
      l.s(" ");
    }
    _ => {
      l.s("@id=0123456789abcdef;name=!a@b:c;x= ");
    }
  }
}

fn part(l: &mut L) -> R {
  let st = l.len();
  match choice(by(5, 9)) {
    0 => {
      l.hole(0, 1, cl::pre)
    }
    1 => l.sym(2, cl::pre),
    2 => l.sym(3, cl::pre),
    3 => l.sym(17, cl::pre),
    4 => {
      l.wide(2 + choice(3));
      l.hole(0, 1, cl::pre)
    }
    5 => l.sym(4, cl::pre),
    6 => l.sym(8, cl::pre),
    7 => l.sym(33, cl::pre),
    _ => l.sym(64, cl::pre),
  };
  st..l.len()
}

#[no_mangle]
pub extern "C" fn c08_forms() {
  forms(part)
}

/// Parts of many characters.
#[no_mangle]
pub extern "C" fn c08_long() {
  // one of them long
  unsafe { LONG = choice(3) };
  forms(|l| {
    let st = l.len();
    let k = unsafe { LONG };
    unsafe { LONG = k.wrapping_sub(1) };
    if k == 0 {
      let n = pick(&[255, 256, 65535, 65536]);
      l.rep(b'x', n);
    }
    l.sym(1, cl::pre);
    st..l.len()
  })
}

static mut LONG: usize = 0;

fn forms(part: fn(&mut L) -> R) {
  let mut l = L::new();
  front(&mut l);
  l.s(":");
  let st = l.len();
  let form = choice(3);
  let (mut nick, mut user) = (None, None);
  if form >= 1 {
    nick = Some(part(&mut l));
    if form == 2 {
      l.s("!");
      user = Some(part(&mut l));
    }
    l.s("@");
  }
  let host = part(&mut l);
  let whole = st..l.len();
  l.s(" ");
  match choice(3) {
    0 => l.s("PING"),
    1 => l.sym(1, |b| (b < 0x80) & (b != b' ')),
    _ => l.s("PRIVMSG #a :x!y@z :w"),
  };
  let Some(m) = IrcMessageRef::parse(l.str()) else {
    fail(1);
    return;
  };
  let Some(p) = m.prefix() else {
    fail(2);
    return;
  };
  reach(form as u32);
  check_str(p.host, l.get(&host), 3);
  check_opt(p.nick, nick.as_ref().map(|r| l.get(r)), 4);
  check_opt(p.user, user.as_ref().map(|r| l.get(r)), 5);
  let shown = p.to_string();
  check_str(&shown, l.get(&whole), 6);
  observe(shown.as_bytes());
}

/// Nothing is taken for a prefix unless it starts with ':' and a space follows.
#[no_mangle]
pub extern "C" fn c08_none() {
  let mut l = L::new();
  front(&mut l);
  match choice(3) {
    // no colon
    0 => {
      let b = byte(|b| (b < 0x80) & (b != b':') & (b != b' ') & (b != b'@'));
      l.b.push(b);
      l.hole(0, 3, cl::ascii);
      if flag() {
        l.s(" :a!b@c d");
      }
    }
    // no space
    1 => {
      l.s(":");
      l.hole(0, by(5, 8), cl::word);
      l.pick(&["", "a!b@c.tmi.twitch.tv"]);
    }
    // colon later
    _ => {
      l.s("PRIVMSG :");
      l.hole(0, 3, cl::ascii);
      l.s(" x");
    }
  }
  if let Some(m) = IrcMessageRef::parse(l.str()) {
    reach(10);
    check(m.prefix().is_none(), 11);
  }
}
