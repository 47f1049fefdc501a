//! C12: user notices.
use crate::spec::*;
use crate::sym::*;
use tmi::msg::*;
use tmi::{FromIrc, IrcMessageRef};

macro_rules! spec {
  ($id:literal, $user:literal; $($k:literal $d:literal $t:ident),* $(,)?) => {
    &[
      Spec("badge-info", "subscriber/2", K::Fixed),
      Spec("badges", "subscriber/0,premium/1", K::Fixed),
      Spec("color", "#00FF", K::Text),
      Spec("display-name", "Fall\\s", K::Text),
      Spec("emotes", "25:0-4", K::Text),
      Spec("id", "db25", K::Text),
      Spec("login", "fallen", K::Text),
      Spec("msg-id", $id, K::Fixed),
      $(Spec($k, $d, K::$t),)*
      Spec("room-id", "710", K::Text),
      Spec("system-msg", "fa\\shas", K::Text),
      Spec("tmi-sent-ts", "1594583782376", K::Ts),
      Spec("user-id", $user, K::Text),
    ]
  };
}

const EVENTS: &[&[Spec]] = &[
  spec!("sub", "41"; "msg-param-cumulative-months" "2" U64, "msg-param-streak-months" "1" U64, "msg-param-sub-plan" "1000" Text, "msg-param-sub-plan-name" "Ch\\s" Text),
  spec!("resub", "41"; "msg-param-cumulative-months" "2" U64, "msg-param-streak-months" "0" U64, "msg-param-sub-plan" "1000" Text, "msg-param-sub-plan-name" "Ch\\s" Text),
  spec!("raid", "41"; "msg-param-displayName" "ic" Fixed, "msg-param-login" "il" Fixed, "msg-param-profileImageURL" "https" Text, "msg-param-viewerCount" "54" U64),
  spec!("subgift", "41"; "msg-param-gift-months" "6" U64, "msg-param-months" "2" U64, "msg-param-recipient-display-name" "q\\s" Text, "msg-param-recipient-id" "21" Text, "msg-param-recipient-user-name" "qa" Text, "msg-param-sub-plan-name" "cn" Text, "msg-param-sub-plan" "3000" Text),
  spec!("subgift", "274598607"; "msg-param-gift-months" "6" U64, "msg-param-months" "2" U64, "msg-param-recipient-display-name" "q\\s" Fixed, "msg-param-recipient-id" "21" Fixed, "msg-param-recipient-user-name" "qa" Fixed, "msg-param-sub-plan-name" "cn" Fixed, "msg-param-sub-plan" "3000" Fixed),
  spec!("anonsubgift", "274598607"; "msg-param-gift-months" "6" U64, "msg-param-months" "2" U64, "msg-param-recipient-display-name" "q\\s" Text, "msg-param-recipient-id" "21" Text, "msg-param-recipient-user-name" "qa" Text, "msg-param-sub-plan-name" "cn" Text, "msg-param-sub-plan" "3000" Text),
  spec!("submysterygift", "41"; "msg-param-mass-gift-count" "20" U64, "msg-param-sender-count" "33" U64, "msg-param-sub-plan" "1000" Text),
  spec!("submysterygift", "274598607"; "msg-param-mass-gift-count" "20" U64, "msg-param-sender-count" "33" U64, "msg-param-sub-plan" "1000" Text),
  spec!("anonsubmysterygift", "274598607"; "msg-param-mass-gift-count" "20" U64, "msg-param-sub-plan" "1000" Text),
  spec!("giftpaidupgrade", "41"; "msg-param-promo-gift-total" "3" U64, "msg-param-promo-name" "Sub" Text, "msg-param-sender-login" "st" Text, "msg-param-sender-name" "St" Text),
  spec!("anongiftpaidupgrade", "41"; "msg-param-promo-gift-total" "3" U64, "msg-param-promo-name" "Sub" Text),
  spec!("ritual", "41"; "msg-param-ritual-name" "new" Text),
  spec!("bitsbadgetier", "41"; "msg-param-threshold" "1000" U64),
  spec!("announcement", "41"; "msg-param-color" "PRIM" Text),
  spec!("primepaidupgrade", "41"; "msg-param-sub-plan" "1000" Text),
];

/// What is expected of an event.
struct Want {
  ok: bool,
  anon: bool,
}

fn want(x: &Line) -> Want {
  let n = |k: &str| x.get(k).and_then(u).is_some();
  let gifter = x.get("user-id") == Some("274598607");
  let Some(id) = x.get("msg-id") else {
    return Want { ok: false, anon: true };
  };
  let (ok, anon) = match id {
    "sub" | "resub" => (n("msg-param-cumulative-months") && x.has("msg-param-sub-plan") && x.has("msg-param-sub-plan-name"), false),
    "raid" => (n("msg-param-viewerCount") && x.has("msg-param-profileImageURL"), false),
    "subgift" | "anonsubgift" => (
      n("msg-param-months") && n("msg-param-gift-months") && x.has("msg-param-recipient-id") && x.has("msg-param-recipient-user-name") && x.has("msg-param-recipient-display-name") && x.has("msg-param-sub-plan") && x.has("msg-param-sub-plan-name"),
      id == "anonsubgift" || gifter,
    ),
    "submysterygift" => (n("msg-param-mass-gift-count") && (gifter || n("msg-param-sender-count")) && x.has("msg-param-sub-plan"), gifter),
    "anonsubmysterygift" => (n("msg-param-mass-gift-count") && x.has("msg-param-sub-plan"), true),
    "giftpaidupgrade" => (x.has("msg-param-sender-login") && x.has("msg-param-sender-name"), false),
    "anongiftpaidupgrade" => (true, true),
    "ritual" => (x.has("msg-param-ritual-name"), false),
    "bitsbadgetier" => (n("msg-param-threshold"), false),
    "announcement" => (true, false),
    // unknown events: a sender is not promised
    _ => (true, true),
  };
  Want { ok, anon }
}

fn num(x: &Line, k: &str, got: u64, id: u32) {
  check(Some(got) == x.get(k).and_then(u), id);
}

fn txt(x: &Line, k: &str, got: &str, id: u32) {
  check_opt(Some(got), x.get(k), id);
}

fn esc(x: &Line, k: &str, got: &str, id: u32) {
  let want = x.get(k).map(unescape);
  check_opt(Some(got), want.as_deref(), id);
}

fn promo(x: &Line, got: Option<&SubGiftPromo<'_>>) {
  let total = x.get("msg-param-promo-gift-total").and_then(u);
  let have = total.is_some() && x.has("msg-param-promo-name");
  check(got.is_some() == have, 90);
  if let Some(p) = got {
    check(Some(p.total_gifts()) == total, 91);
    txt(x, "msg-param-promo-name", p.promo_name(), 92);
  }
}

fn verify(x: &Line) {
  let Some(irc) = IrcMessageRef::parse(x.l.str()) else {
    fail(1);
    return;
  };
  let time = x.get("tmi-sent-ts").and_then(ts);
  let w = want(x);
  let sender = x.has("user-id") && x.has("login") && x.has("display-name");
  let ok = w.ok && x.channel().is_some() && x.has("room-id") && x.has("id") && time.is_some() && (w.anon || sender);
  let m = match UserNotice::from_irc(irc) {
    Ok(m) => m,
    Err(_) => {
      reach(1);
      check(!ok, 2);
      return;
    }
  };
  reach(2);
  check(ok, 3);
  let id = x.get("msg-id").unwrap_or("");
  check_opt(Some(m.channel()), x.channel(), 10);
  check_opt(Some(m.channel_id()), x.get("room-id"), 11);
  check_opt(m.text(), x.text(), 12);
  let sys = x.filled("system-msg").map(unescape);
  let got = m.system_message();
  check_opt(got.as_deref(), sys.as_deref(), 13);
  check_str(m.event_id(), id, 14);
  check_str(m.raw_emotes(), x.get("emotes").unwrap_or(""), 15);
  check_opt(m.color(), x.filled("color"), 16);
  check_opt(Some(m.message_id()), x.get("id"), 17);
  check_time(m.timestamp(), time.unwrap_or(0), 18);
  check_badges(m.badges(), m.num_badges(), x.get("badges"), x.get("badge-info"), 20);
  let gifter = x.get("user-id") == Some("274598607");
  let mut unknown = false;
  match m.event() {
    Event::SubOrResub(e) => {
      reach(3);
      check(id == "sub" || id == "resub", 30);
      check(e.is_resub() == (id == "resub"), 31);
      num(x, "msg-param-cumulative-months", e.cumulative_months(), 32);
      let streak = x.get("msg-param-streak-months").and_then(u);
      check(e.streak_months() == streak.filter(|n| *n > 0), 33);
      txt(x, "msg-param-sub-plan", e.sub_plan(), 34);
      esc(x, "msg-param-sub-plan-name", &e.sub_plan_name(), 35);
    }
    Event::Raid(e) => {
      reach(4);
      check(id == "raid", 40);
      num(x, "msg-param-viewerCount", e.viewer_count(), 41);
      txt(x, "msg-param-profileImageURL", e.profile_image_url(), 42);
    }
    Event::SubGift(e) => {
      reach(5);
      check(id == "subgift" || id == "anonsubgift", 50);
      num(x, "msg-param-months", e.cumulative_months(), 51);
      num(x, "msg-param-gift-months", e.num_gifted_months(), 52);
      check_user(e.recipient(), x.get("msg-param-recipient-id"), x.get("msg-param-recipient-user-name"), x.get("msg-param-recipient-display-name"), 53);
      txt(x, "msg-param-sub-plan", e.sub_plan(), 54);
      esc(x, "msg-param-sub-plan-name", &e.sub_plan_name(), 55);
    }
    Event::SubMysteryGift(e) => {
      reach(6);
      check(id == "submysterygift" && !gifter, 60);
      num(x, "msg-param-mass-gift-count", e.count(), 61);
      num(x, "msg-param-sender-count", e.sender_total_gifts(), 62);
      txt(x, "msg-param-sub-plan", e.sub_plan(), 63);
    }
    Event::AnonSubMysteryGift(e) => {
      reach(7);
      check(id == "anonsubmysterygift" || (id == "submysterygift" && gifter), 64);
      num(x, "msg-param-mass-gift-count", e.count(), 65);
      txt(x, "msg-param-sub-plan", e.sub_plan(), 66);
    }
    Event::GiftPaidUpgrade(e) => {
      reach(8);
      check(id == "giftpaidupgrade", 70);
      txt(x, "msg-param-sender-login", e.gifter_login(), 71);
      txt(x, "msg-param-sender-name", e.gifter_name(), 72);
      promo(x, e.promotion());
    }
    Event::AnonGiftPaidUpgrade(e) => {
      reach(9);
      check(id == "anongiftpaidupgrade", 73);
      promo(x, e.promotion());
    }
    Event::Ritual(e) => {
      reach(10);
      check(id == "ritual", 74);
      txt(x, "msg-param-ritual-name", e.name(), 75);
    }
    Event::BitsBadgeTier(e) => {
      reach(11);
      check(id == "bitsbadgetier", 76);
      num(x, "msg-param-threshold", e.tier(), 77);
    }
    Event::Announcement(e) => {
      reach(12);
      check(id == "announcement", 78);
      check_str(e.highlight_color(), x.get("msg-param-color").unwrap_or("PRIMARY"), 79);
    }
    Event::Unknown => {
      reach(13);
      unknown = true;
      let known = matches!(
        id,
        "sub" | "resub" | "raid" | "subgift" | "anonsubgift" | "submysterygift" | "anonsubmysterygift" | "giftpaidupgrade" | "anongiftpaidupgrade" | "ritual" | "bitsbadgetier" | "announcement"
      );
      check(!known, 80);
    }
    _ => fail(81),
  }
  match m.sender() {
    None => check(w.anon, 82),
    Some(s) => {
      check(!w.anon || unknown, 83);
      check_user(s, x.get("user-id"), x.get("login"), x.get("display-name"), 84);
    }
  }
  observe(m.event_id().as_bytes());
}

#[no_mangle]
pub extern "C" fn c12_tags() {
  let k = choice(EVENTS.len());
  verify(&vary_tags(EVENTS[k], "USERNOTICE"));
}

#[no_mangle]
pub extern "C" fn c12_tail() {
  let k = choice(EVENTS.len());
  verify(&vary_tail(EVENTS[k], "USERNOTICE"));
}

const NAMES: &[&str] = &["sub", "resub", "raid", "subgift", "anonsubgift", "submysterygift", "anonsubmysterygift", "giftpaidupgrade", "anongiftpaidupgrade", "ritual", "bitsbadgetier", "announcement"];

/// Every parameter is there; the event is a symbolic variation of a known one.
#[no_mangle]
pub extern "C" fn c12_ids() {
  let name = NAMES[choice(NAMES.len())];
  let mut l = L::new();
  let mut tags = Vec::new();
  l.s("@");
  let user = ["41", "274598607", "27459860"][choice(3)];
  for (k, v) in [
    ("display-name", "Fall"), ("id", "db25"), ("login", "fa"), ("msg-param-color", "BLUE"), ("msg-param-cumulative-months", "7"), ("msg-param-gift-months", "6"),
    ("msg-param-mass-gift-count", "20"), ("msg-param-months", "2"), ("msg-param-profileImageURL", "http"), ("msg-param-promo-gift-total", "3"), ("msg-param-promo-name", "Sub"),
    ("msg-param-recipient-display-name", "qn"), ("msg-param-recipient-id", "21"), ("msg-param-recipient-user-name", "qa"), ("msg-param-ritual-name", "new"),
    ("msg-param-sender-count", "33"), ("msg-param-sender-login", "st"), ("msg-param-sender-name", "St"), ("msg-param-streak-months", "5"), ("msg-param-sub-plan", "1000"),
    ("msg-param-sub-plan-name", "cn"), ("msg-param-threshold", "100"), ("msg-param-viewerCount", "54"), ("room-id", "71"), ("tmi-sent-ts", "1594583782376"), ("user-id", user),
  ] {
    l.s(k);
    l.s("=");
    let mut r = l.s(v);
    if v == "27459860" {
      l.sym(1, cl::digit);
      r.end += 1;
    }
    tags.push((k, r));
    l.s(";");
  }
  l.s("msg-id=");
  let st = l.len();
  match choice(5) {
    0 => {
      l.s(name);
    }
    1 => {
      let at = choice(name.len());
      l.s(&name[..at]);
      l.sym(1, cl::valx);
      l.s(&name[at + 1..]);
    }
    2 => {
      l.s(name);
      l.sym(1, cl::valx);
    }
    3 => {
      l.s(&name[1..]);
    }
    _ => {
      l.s(&name[..name.len() - 1]);
    }
  }
  tags.push(("msg-id", st..l.len()));
  l.s(" ");
  let t = tail(&mut l, "USERNOTICE");
  verify(&Line { l, tags, t });
}

#[no_mangle]
pub extern "C" fn c12_long() {
  let k = choice(EVENTS.len());
  verify(&vary_long(EVENTS[k], "USERNOTICE"));
}
