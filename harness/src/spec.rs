//! Lines described by a table of tags, for the properties about typed
//! messages: which tags are present, in what order, with which values.
use crate::sym::*;
use tmi::msg::*;

#[derive(Clone, Copy, PartialEq)]
pub enum K {
  Text,
  U64,
  I64,
  /// Timestamp in milliseconds.
  Ts,
  /// `0` or `1`.
  Flag,
  Level,
  /// Present with its default, or absent.
  Fixed,
  /// Present with its default, always.
  Always,
}

pub struct Spec(pub &'static str, pub &'static str, pub K);

pub struct Tail {
  pub nick: Option<R>,
  pub channel: Option<R>,
  pub params: Option<R>,
  pub text: Option<R>,
}

pub struct Line {
  pub l: L,
  pub tags: Vec<(&'static str, R)>,
  pub t: Tail,
}

impl Line {
  pub fn get(&self, key: &str) -> Option<&str> {
    for (k, r) in &self.tags {
      if *k == key {
        return Some(self.l.get(r));
      }
    }
    None
  }

  pub fn has(&self, key: &str) -> bool {
    self.get(key).is_some()
  }

  pub fn part(&self, r: &Option<R>) -> Option<&str> {
    r.as_ref().map(|r| self.l.get(r))
  }

  pub fn nick(&self) -> Option<&str> {
    self.part(&self.t.nick)
  }
  pub fn channel(&self) -> Option<&str> {
    self.part(&self.t.channel)
  }
  pub fn text(&self) -> Option<&str> {
    self.part(&self.t.text)
  }
  pub fn params(&self) -> Option<&str> {
    self.part(&self.t.params)
  }

  pub fn filled(&self, key: &str) -> Option<&str> {
    self.get(key).filter(|v| !v.is_empty())
  }
}

/// A valid decimal number without sign.
pub fn u(s: &str) -> Option<u64> {
  if s.is_empty() {
    return None;
  }
  let mut n: u64 = 0;
  for &b in s.as_bytes() {
    if !cl::digit(b) {
      return None;
    }
    n = n.checked_mul(10)?.checked_add((b - b'0') as u64)?;
  }
  Some(n)
}

/// A valid decimal number with optional `-`.
pub fn i(s: &str) -> Option<i64> {
  let (neg, digits) = match s.as_bytes().first() {
    Some(b'-') => (true, &s[1..]),
    _ => (false, s),
  };
  let n = u(digits)?;
  if neg {
    if n > 1 << 63 {
      None
    } else {
      Some((n as i64).wrapping_neg())
    }
  } else if n > i64::MAX as u64 {
    None
  } else {
    Some(n as i64)
  }
}

/// Milliseconds since the epoch, if `chrono` has a date for them: from
/// -262143-01-01T00:00:00 to +262142-12-31T23:59:59.999.
pub fn ts(s: &str) -> Option<i64> {
  i(s).filter(|n| *n >= -8334601228800000 && *n <= 8210266876799999)
}

/// The IRCv3 rule, character by character (see C07).
pub fn unescape(s: &str) -> String {
  if !s.as_bytes().contains(&b'\\') {
    return s.to_string();
  }
  let mut out = String::new();
  let mut it = s.chars();
  while let Some(c) = it.next() {
    let c = if c == '\\' {
      match it.next() {
        None => break,
        Some(':') => ';',
        Some('s') => ' ',
        Some('r') => '\r',
        Some('n') => '\n',
        Some('\\') => '\\',
        Some(o) => o,
      }
    } else {
      c
    };
    out.push(if c == '\u{2e1d}' { ',' } else { c });
  }
  out
}

pub fn check_time(t: chrono::DateTime<chrono::Utc>, want: i64, id: u32) {
  check(t.timestamp_millis() == want, id);
  check(t.timestamp_subsec_nanos() % 1_000_000 == 0, id);
}

pub fn check_user(u: &User<'_>, id: Option<&str>, login: Option<&str>, name: Option<&str>, no: u32) {
  check_opt(Some(u.id()), id, no);
  check_opt(Some(u.login()), login, no);
  let want = name.map(unescape);
  let got = u.name();
  check_opt(Some(&got), want.as_deref(), no);
}

/// The badges of the two tags, entry by entry.
pub fn check_badges<'a, 'b: 'a>(mut got: impl DoubleEndedIterator<Item = &'a Badge<'b>> + ExactSizeIterator, num: usize, badges: Option<&str>, info: Option<&str>, no: u32) {
  check(got.len() == num, no);
  let (Some(badges), Some(info)) = (badges, info) else {
    // not specified when only one of the tags is present
    if badges.is_none() && info.is_none() {
      check(num == 0, no);
    }
    return;
  };
  for e in badges.split(',') {
    let Some(slash) = e.find('/') else { continue };
    let (name, version) = (&e[..slash], &e[slash + 1..]);
    let mut detail = None;
    for e in info.split(',') {
      if let Some(slash) = e.find('/') {
        if &e[..slash] == name && detail.is_none() {
          detail = Some(&e[slash + 1..]);
        }
      }
    }
    let Some(b) = got.next() else {
      fail(no);
      return;
    };
    let d = b.as_badge_data();
    check_str(d.name(), name, no + 1);
    if version == "1" && !matches!(b, Badge::Subscriber(_)) {
      // the version of the kinds of their own
      check_str(d.version(), "1", no + 3);
    }
    match b {
      Badge::Staff => check(name == "staff", no + 2),
      Badge::Turbo => check(name == "turbo", no + 2),
      Badge::Broadcaster => check(name == "broadcaster", no + 2),
      Badge::Moderator => check(name == "moderator", no + 2),
      Badge::Subscriber(s) => {
        check(name == "subscriber", no + 2);
        check_str(s.version(), version, no + 3);
        check_str(d.version(), version, no + 3);
        let months = match detail {
          None => 1,
          Some(d) => u(d).unwrap_or(1),
        };
        check(s.months() == months, no + 4);
        if detail.is_some() {
          check_opt(d.extra(), detail, no + 5);
        }
      }
      Badge::Other(o) => {
        check(name != "staff" && name != "turbo" && name != "broadcaster" && name != "moderator" && name != "subscriber", no + 2);
        check_str(o.name(), name, no + 6);
        check_str(o.version(), version, no + 6);
        check_opt(o.extra(), detail, no + 5);
        check(d == *o, no + 6);
      }
    }
  }
  check(got.next().is_none(), no + 7);
}

fn not_plus(l: &L, r: &R) {
  let s = l.get(r).as_bytes();
  if !s.is_empty() {
    assume(s[0] != b'+');
  }
}

fn default_value(l: &mut L, s: &Spec) {
  l.s(s.1);
}

/// The default with a symbolic part.
fn symbolic_value(l: &mut L, s: &Spec) {
  match s.2 {
    K::Text => {
      l.s(s.1);
      l.sym(1, cl::valx);
    }
    K::U64 | K::I64 => {
      l.s(s.1);
      l.sym(1, cl::digit);
    }
    K::Flag => {
      l.sym(1, |b| (b == b'0') | (b == b'1'));
    }
    _ => {
      l.s(s.1);
    }
  }
}

pub const LEVELS: &[&str] = &["ONE", "TWO", "THREE", "FOUR", "FIVE", "SIX", "SEVEN", "EIGHT", "NINE", "TEN"];

/// Any value.
fn any_value(l: &mut L, s: &Spec) {
  match s.2 {
    K::Text => match choice(3) {
      0 => {
        l.hole(0, by(2, 4), cl::val);
      }
      1 => {
        l.sym(1, cl::valx);
        let w = 2 + choice(3);
        l.wide(w);
      }
      _ => {
        l.s(s.1);
        l.s("\\");
        l.sym(1, cl::valx);
        l.s(",");
      }
    },
    K::U64 | K::I64 | K::Ts => match choice(4) {
      0 => {
        let r = l.hole(0, by(2, 3), cl::valx);
        not_plus(l, &r);
      }
      1 => {
        let full = match s.2 {
          K::U64 => &["1844674407370955161", "1844674407370955162", "429496729", "25", "6553"][..],
          K::I64 => &["922337203685477580", "-922337203685477580", "-", "214748364", "429496729"][..],
          _ => &["821026687679999", "821026687680000", "-833460122880000", "-833460122880001", "922337203685477580", "-"][..],
        };
        l.pick(full);
        l.sym(1, cl::digit);
      }
      2 => {
        l.s("000");
        l.sym(1, cl::digit);
      }
      _ => {
        l.s(s.1);
        l.s(["a", " ", ".5", "-"][choice(4)].trim_end());
      }
    },
    K::Flag => {
      l.sym(1, |b| (b == b'0') | (b == b'1'));
    }
    K::Level => match choice(3) {
      0 => {
        l.pick(LEVELS);
      }
      1 => {
        l.hole(0, 3, cl::valx);
      }
      _ => {
        l.s("TE");
        l.hole(0, 2, cl::valx);
      }
    },
    K::Fixed | K::Always => {
      l.s(s.1);
    }
  }
}

fn extra(l: &mut L) {
  match choice(3) {
    // no tag of the messages has such a name
    0 => {
      l.s("zz-");
      l.hole(0, 2, cl::key);
      l.s("=");
      l.hole(0, 1, cl::val);
    }
    1 => {
      l.sym(1, cl::key);
      l.s("=");
    }
    _ => {
      l.s("zz=a=b=\u{e9}");
    }
  }
  l.s(";");
}

/// The tag section.
pub fn tags(l: &mut L, spec: &[Spec]) -> Vec<(&'static str, R)> {
  let mut out = Vec::with_capacity(spec.len());
  let n = spec.len();
  let mut put = |l: &mut L, s: &Spec, f: fn(&mut L, &Spec)| {
    l.s(s.0);
    l.s("=");
    let st = l.len();
    f(l, s);
    out.push((s.0, st..l.len()));
    l.s(";");
  };
  l.s("@");
  match choice(5) {
    // orders
    0 => {
      reach(801);
      let rot = choice(n);
      let rev = flag();
      for i in 0..n {
        let i = (i + rot) % n;
        let s = &spec[if rev { n - 1 - i } else { i }];
        put(l, s, symbolic_value);
      }
    }
    // one tag takes any value, or is absent, next to similar names
    1 => {
      reach(802);
      let k = choice(n);
      let absent = flag();
      let decoy = choice(4);
      for (i, s) in spec.iter().enumerate() {
        if i == k {
          match decoy {
            0 | 3 => {}
            1 => {
              l.s(s.0);
              l.s("x=7;");
              l.s(&s.0[..s.0.len() - 1]);
              l.s("=8;");
            }
            _ => {
              l.s("x");
              l.s(s.0);
              l.s("=;");
            }
          }
          if !absent || s.2 == K::Always {
            put(l, s, any_value);
            if decoy == 3 {
              // the first tag of a name counts
              l.s(s.0);
              l.s("=9;");
            }
          }
        } else {
          put(l, s, default_value);
        }
      }
    }
    // any three tags are absent
    2 => {
      reach(803);
      let a = choice(n);
      let b = choice(n);
      let c = choice(n);
      for (i, s) in spec.iter().enumerate() {
        if (i != a && i != b && i != c) || s.2 == K::Always {
          put(l, s, default_value);
        }
      }
    }
    // any two tags take any value
    3 => {
      reach(805);
      let a = choice(n);
      let b = choice(n);
      for (i, s) in spec.iter().enumerate() {
        if i == a || i == b {
          put(l, s, any_value);
        } else {
          put(l, s, default_value);
        }
      }
    }
    // unrelated tags
    _ => {
      reach(804);
      let at = choice(n + 1);
      for (i, s) in spec.iter().enumerate() {
        if i == at {
          extra(l);
        }
        put(l, s, default_value);
      }
      if at == n {
        extra(l);
      }
    }
  }
  // the last ';' becomes the end of the tags (or the '@' of no tags)
  l.b.pop();
  if l.len() > 0 {
    l.s(" ");
  }
  out
}

/// Everything present with its default.
pub fn plain_tags(l: &mut L, spec: &[Spec]) -> Vec<(&'static str, R)> {
  let mut out = Vec::with_capacity(spec.len());
  l.s("@");
  for s in spec {
    l.s(s.0);
    l.s("=");
    let r = l.s(s.1);
    out.push((s.0, r));
    l.s(";");
  }
  l.b.pop();
  if l.len() > 0 {
    l.s(" ");
  }
  out
}

fn no_colon(b: u8) -> bool {
  (b < 0x80) & (b != b':') & (b != b' ') & (b != b'#')
}

/// The usual rest of a line, with symbolic bytes.
pub fn tail(l: &mut L, cmd: &str) -> Tail {
  l.s(":");
  let nick = {
    let st = l.len();
    l.s("ni");
    l.sym(1, cl::pre);
    st..l.len()
  };
  l.s("!user@host ");
  l.s(cmd);
  l.s(" ");
  let channel = {
    let st = l.len();
    l.s("#c");
    l.sym(1, cl::word);
    st..l.len()
  };
  l.s(" ");
  let pst = l.len();
  l.s(":");
  let text = {
    let st = l.len();
    l.s("te");
    l.sym(1, cl::ascii);
    l.s("t :x");
    st..l.len()
  };
  Tail {
    nick: Some(nick),
    channel: Some(channel),
    params: Some(pst..l.len()),
    text: Some(text),
  }
}

/// Every shape of the rest of a line.
pub fn any_tail(l: &mut L, cmd: &str) -> Tail {
  let nick = match choice(5) {
    0 => None,
    1 => {
      l.s(":");
      l.hole(1, 2, cl::pre);
      l.s(" ");
      None
    }
    2 => {
      l.s(":");
      let r = l.hole(1, 2, cl::pre);
      l.s("@host ");
      Some(r)
    }
    3 => {
      l.s(":");
      let st = l.len();
      l.s("ni");
      l.wide(2);
      let r = st..l.len();
      l.s("!user@host ");
      Some(r)
    }
    _ => {
      l.s(":");
      let r = l.hole(1, 2, cl::pre);
      l.s("!");
      l.hole(1, 1, cl::pre);
      l.s("@host.tmi ");
      Some(r)
    }
  };
  l.s(cmd);
  let channel = if flag() {
    l.s(" ");
    let st = l.len();
    l.s("#");
    l.hole(0, 2, cl::word);
    Some(st..l.len())
  } else {
    None
  };
  let st;
  let text = match choice(6) {
    0 => {
      return Tail {
        nick,
        channel,
        params: None,
        text: None,
      };
    }
    1 => {
      l.s(" ");
      st = l.len();
      l.s(":");
      l.hole(0, 2, cl::ascii)
    }
    2 => {
      l.s(" ");
      st = l.len();
      l.hole(1, 2, no_colon)
    }
    3 => {
      l.s(" ");
      st = l.len();
      l.hole(1, 1, no_colon);
      l.s(" :");
      l.hole(0, 2, cl::ascii)
    }
    4 => {
      l.s(" ");
      st = l.len();
      l.s(":");
      let s = l.len();
      l.sym(1, cl::ascii);
      let w = 2 + choice(3);
      l.wide(w);
      l.s(" :z");
      s..l.len()
    }
    _ => {
      l.s(" ");
      st = l.len();
      l.s("a:");
      l.hole(0, 1, cl::ascii)
    }
  };
  Tail {
    nick,
    channel,
    params: Some(st..l.len()),
    text: Some(text),
  }
}

/// A line whose tags vary.
pub fn vary_tags(spec: &[Spec], cmd: &str) -> Line {
  let mut l = L::new();
  let tags = tags(&mut l, spec);
  let t = tail(&mut l, cmd);
  Line { l, tags, t }
}

/// A line whose other parts vary.
pub fn vary_tail(spec: &[Spec], cmd: &str) -> Line {
  let mut l = L::new();
  let tags = plain_tags(&mut l, spec);
  let t = any_tail(&mut l, cmd);
  Line { l, tags, t }
}

/// A line of which one part is long.
pub fn vary_long(spec: &[Spec], cmd: &str) -> Line {
  let n = pick(if THOROUGH {
    &[25usize, 26, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 400, 499, 500, 501, 510, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16384, 65535, 65536, 65537]
  } else {
    &[26usize, 33, 65, 129, 257, 501, 513, 1025, 4097]
  });
  let part = choice(spec.len() + 3);
  let at = |k: usize| k == spec.len() + 3 - 1 - part;
  let mut l = L::aligned_cap(0, n + 4096);
  let mut tags = Vec::with_capacity(spec.len());
  l.s("@");
  for (i, s) in spec.iter().enumerate() {
    l.s(s.0);
    l.s("=");
    let st = l.len();
    match s.2 {
      K::Text if at(i) => {
        l.rep(b'v', n - 1);
        l.sym(1, cl::val);
      }
      K::U64 | K::I64 | K::Ts if at(i) => {
        // (leading zeros)
        l.rep(b'0', n);
        l.sym(1, cl::digit);
      }
      _ => {
        l.s(s.1);
      }
    }
    tags.push((s.0, st..l.len()));
    l.s(";");
  }
  l.b.pop();
  if l.len() > 0 {
    l.s(" ");
  }
  let k = spec.len();
  let mut long = |l: &mut L, on: bool, start: &str, f: fn(u8) -> bool| {
    let st = l.len();
    l.s(start);
    if on {
      l.rep(b'v', n - start.len() - 1);
      l.sym(1, f);
    }
    st..l.len()
  };
  l.s(":");
  let nick = long(&mut l, at(k), "ni", cl::pre);
  l.s("!user@host ");
  l.s(cmd);
  l.s(" ");
  let mut pst = l.len();
  let whisper = cmd == "WHISPER";
  let channel = long(&mut l, at(k + 1), if whisper { "re" } else { "#c" }, cl::word);
  l.s(" ");
  if !whisper {
    pst = l.len();
  }
  l.s(":");
  let text = long(&mut l, at(k + 2), "te", cl::ascii);
  let t = Tail {
    nick: Some(nick),
    channel: (!whisper).then_some(channel),
    params: Some(pst..l.len()),
    text: Some(text),
  };
  Line { l, tags, t }
}
