//! C14: room state.
use crate::spec::*;
use crate::sym::*;
use tmi::msg::*;
use tmi::{FromIrc, IrcMessageRef};

const SPEC: &[Spec] = &[
  Spec("emote-only", "0", K::Flag),
  Spec("followers-only", "10", K::I64),
  Spec("r9k", "1", K::Flag),
  Spec("rituals", "0", K::Fixed),
  Spec("room-id", "402", K::Text),
  Spec("slow", "5", K::U64),
  Spec("subs-only", "0", K::Flag),
];

fn verify(x: &Line) {
  let Some(irc) = IrcMessageRef::parse(x.l.str()) else {
    fail(1);
    return;
  };
  let ok = x.channel().is_some() && x.has("room-id");
  let m = match RoomState::from_irc(irc) {
    Ok(m) => m,
    Err(_) => {
      reach(1);
      check(!ok, 2);
      return;
    }
  };
  reach(2);
  check(ok, 3);
  check_opt(Some(m.channel()), x.channel(), 10);
  check_opt(Some(m.channel_id()), x.get("room-id"), 11);
  let f = |k: &str| x.get(k).map(|v| v == "1");
  check(m.emote_only() == f("emote-only"), 12);
  check(m.r9k() == f("r9k"), 13);
  check(m.subs_only() == f("subs-only"), 14);
  let slow = x.get("slow").and_then(u);
  match (m.slow(), slow) {
    (None, None) => {}
    (Some(d), Some(n)) => check(d.as_secs() == n && d.subsec_nanos() == 0, 15),
    _ => fail(16),
  }
  match (m.followers_only(), x.get("followers-only").and_then(i)) {
    (None, None) => {}
    // a duration that cannot be represented is not valid
    (None, Some(n)) => check(n > 0 && n as u64 > u64::MAX / 60, 17),
    (Some(FollowersOnly::Disabled), Some(n)) => check(n < 0, 18),
    (Some(FollowersOnly::Enabled(None)), Some(n)) => check(n == 0, 19),
    (Some(FollowersOnly::Enabled(Some(d))), Some(n)) => {
      reach(3);
      check(n > 0, 20);
      check(d.as_secs() / 60 == n as u64 && d.as_secs() % 60 == 0 && d.subsec_nanos() == 0, 21);
    }
    (Some(_), None) => fail(22),
  }
  observe(m.channel_id().as_bytes());
}

#[no_mangle]
pub extern "C" fn c14_tags() {
  verify(&vary_tags(SPEC, "ROOMSTATE"));
}

#[no_mangle]
pub extern "C" fn c14_tail() {
  verify(&vary_tail(SPEC, "ROOMSTATE"));
}

/// Any subset of the tags.
#[no_mangle]
pub extern "C" fn c14_subsets() {
  let mut l = L::new();
  let mut tags = Vec::new();
  l.s("@");
  for s in SPEC {
    if flag() {
      l.s(s.0);
      l.s("=");
      let st = l.len();
      match s.2 {
        K::Flag => {
          l.sym(1, |b| (b == b'0') | (b == b'1'));
        }
        K::I64 | K::U64 => {
          l.sym(1, cl::digit);
        }
        _ => {
          l.s(s.1);
        }
      }
      tags.push((s.0, st..l.len()));
      l.s(";");
    }
  }
  l.b.pop();
  if l.len() > 0 {
    l.s(" ");
  }
  let t = tail(&mut l, "ROOMSTATE");
  verify(&Line { l, tags, t });
}

/// Durations around the limits.
#[no_mangle]
pub extern "C" fn c14_limits() {
  let mut l = L::new();
  l.s("@room-id=");
  let id = l.s("1");
  let mut tags = vec![("room-id", id)];
  let slow = flag();
  let k = if slow { "slow" } else { "followers-only" };
  l.s(";");
  l.s(k);
  l.s("=");
  let st = l.len();
  l.pick(&[
    "", "0", "1", "-", "-0", "25", "153", "6553", "7158278", "3579139", "429496729", "214748364", "15372286728091293", "30744573456182586", "30744573456182587", "922337203685477580",
    "1844674407370955161", "1844674407370955162", "-922337203685477580",
  ]);
  l.sym(1, cl::digit);
  if THOROUGH {
    l.hole(0, 1, cl::valx);
  }
  tags.push((k, st..l.len()));
  l.s(" ");
  let t = tail(&mut l, "ROOMSTATE");
  verify(&Line { l, tags, t });
}

#[no_mangle]
pub extern "C" fn c14_long() {
  verify(&vary_long(SPEC, "ROOMSTATE"));
}
