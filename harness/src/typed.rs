//! Shared by several properties: complete lines of every typed command,
//! comparison and full traversal of typed messages.
use crate::sym::*;
use tmi::msg::*;
use tmi::*;

pub fn eq_message(a: &Message<'_>, b: &Message<'_>) -> bool {
  use Message as M;
  match (a, b) {
    (M::ClearChat(a), M::ClearChat(b)) => a == b,
    (M::ClearMsg(a), M::ClearMsg(b)) => a == b,
    (M::GlobalUserState(a), M::GlobalUserState(b)) => a == b,
    (M::Join(a), M::Join(b)) => a == b,
    (M::Notice(a), M::Notice(b)) => a == b,
    (M::Part(a), M::Part(b)) => a == b,
    (M::Ping(a), M::Ping(b)) => a == b,
    (M::Pong(a), M::Pong(b)) => a == b,
    (M::Privmsg(a), M::Privmsg(b)) => a == b,
    (M::Reconnect, M::Reconnect) => true,
    (M::RoomState(a), M::RoomState(b)) => a == b,
    (M::UserNotice(a), M::UserNotice(b)) => a == b,
    (M::UserState(a), M::UserState(b)) => a == b,
    (M::Whisper(a), M::Whisper(b)) => a == b,
    (M::Other(a), M::Other(b)) => {
      a.raw() == b.raw()
        && a.tags().eq(b.tags())
        && a.prefix() == b.prefix()
        && a.command() == b.command()
        && a.channel() == b.channel()
        && a.params() == b.params()
    }
    _ => false,
  }
}

/// `$` stands for one symbolic byte of a tag value, `^` for a symbolic digit,
/// `?` for any symbolic ASCII character.
pub const LINES: &[&str] = &[
  "@badge-info=subscriber/1^;badges=moderator/1,subscriber/12,x$/2;color=#0000F$;display-name=N$me;emotes=25:0-4;first-msg=0;flags=;id=e9d998c$;mod=0;room-id=1114$;subscriber=0;tmi-sent-ts=15945451550^9;turbo=0;user-id=2980$;user-type=;bits=^0;custom-reward-id=b$;msg-id=hi$ :jun1!jun1@jun1.tmi.twitch.tv PRIVMSG #paj? :da?k",
  "@badges=;badge-info=;color=;display-name=A\\sB$;emotes=;id=5b4$;reply-parent-display-name=Re\\s$;reply-parent-msg-body=he$\\sllo;reply-parent-msg-id=6b$;reply-parent-user-id=379$;reply-parent-user-login=ret$;reply-thread-parent-msg-id=6$;reply-thread-parent-user-login=re$;room-id=37$;tmi-sent-ts=1673925983585;user-id=13$ :left!left@l.tmi.twitch.tv PRIVMSG #re :@Re ?",
  "@badge-info=;badges=glhf-pledge/1;color=;display-name=paj$;emotes=;id=f6$;pinned-chat-paid-amount=2^0;pinned-chat-paid-canonical-amount=200;pinned-chat-paid-currency=US$;pinned-chat-paid-exponent=^;pinned-chat-paid-is-system-message=^;pinned-chat-paid-level=ONE;room-id=1;tmi-sent-ts=1687471984306;user-id=12 :p!p@p PRIVMSG #c :\u{1}ACTION Th?s\u{1}",
  "@room-id=11$;tmi-sent-ts=1594561360331 :tmi.twitch.tv CLEARCHAT #pa?",
  "@ban-duration=^;room-id=11$;target-user-id=70$;tmi-sent-ts=1594561360331 :tmi.twitch.tv CLEARCHAT #paj :fab?",
  "@room-id=11$;target-user-id=70$;tmi-sent-ts=1594561360331 :tmi.twitch.tv CLEARCHAT #paj :fab?",
  "@login=aleb$;room-id=1$;target-msg-id=3c9$;tmi-sent-ts=1594561360331 :tmi.twitch.tv CLEARMSG #dal :le l?le",
  "@badge-info=;badges=premium/1;color=#1$;display-name=ran\\s$;emote-sets=0,1$,2;user-id=402$;user-type= :tmi.twitch.tv GLOBALUSERSTATE",
  ":randers!randers@r.tmi.twitch.tv JOIN #pa?",
  ":randers!randers@r.tmi.twitch.tv PART #pa?",
  "@msg-id=msg_bann$ :tmi.twitch.tv NOTICE #forsen :You a?e",
  ":tmi.twitch.tv NOTICE * :Improperly form?tted",
  ":tmi.twitch.tv PING :tmi.tw?",
  "PING",
  ":tmi.twitch.tv PONG tmi.twitch.tv :nonc?",
  "PONG :?",
  ":tmi.twitch.tv RECONNECT",
  "@emote-only=^;followers-only=^;r9k=^;rituals=0;room-id=40$;slow=^;subs-only=^ :tmi.twitch.tv ROOMSTATE #ran?",
  "@followers-only=-^;room-id=40$ :tmi.twitch.tv ROOMSTATE #ran?",
  "@badge-info=subscriber/2;badges=subscriber/0;color=#0$;display-name=Fa$;emotes=;flags=;id=d$;login=fa$;mod=0;msg-id=resub;msg-param-cumulative-months=^;msg-param-months=0;msg-param-should-share-streak=1;msg-param-streak-months=^;msg-param-sub-plan-name=Ch\\s$;msg-param-sub-plan=100$;room-id=1$;subscriber=1;system-msg=fa\\shas$;tmi-sent-ts=1594583782376;user-id=4$ :tmi.twitch.tv USERNOTICE #xqc :x?",
  "@display-name=Fa$;emotes=;id=d$;login=fa$;msg-id=sub;msg-param-cumulative-months=1;msg-param-sub-plan-name=Ch\\s$;msg-param-sub-plan=Prime;room-id=1$;system-msg=;tmi-sent-ts=1594583782376;user-id=4$ :tmi.twitch.tv USERNOTICE #xqc",
  "@display-name=Fa$;id=d$;login=fa$;msg-id=raid;msg-param-displayName=icarly;msg-param-login=ic;msg-param-profileImageURL=http$;msg-param-viewerCount=^54;room-id=1;system-msg=r$;tmi-sent-ts=1594517796120;user-id=4$ :tmi.twitch.tv USERNOTICE #sodap",
  "@display-name=Fa$;id=d$;login=fa$;msg-id=subgift;msg-param-gift-months=^;msg-param-months=2;msg-param-origin-id=d;msg-param-recipient-display-name=q\\s$;msg-param-recipient-id=21$;msg-param-recipient-user-name=q$;msg-param-sender-count=0;msg-param-sub-plan-name=c$;msg-param-sub-plan=10$;room-id=1;system-msg=g$;tmi-sent-ts=1594583777669;user-id=17$ :tmi.twitch.tv USERNOTICE #xqc",
  "@display-name=AnAnonymousGifter;id=d$;login=ananonymousgifter;msg-id=anonsubgift;msg-param-gift-months=1;msg-param-months=^;msg-param-recipient-display-name=q$;msg-param-recipient-id=21$;msg-param-recipient-user-name=q$;msg-param-sub-plan-name=c$;msg-param-sub-plan=10$;room-id=1;system-msg=g$;tmi-sent-ts=1594583777669;user-id=274598607 :tmi.twitch.tv USERNOTICE #xqc",
  "@display-name=Fa$;id=d$;login=fa$;msg-id=submysterygift;msg-param-mass-gift-count=^0;msg-param-sender-count=^2;msg-param-sub-plan=100$;room-id=1;system-msg=g$;tmi-sent-ts=1594583777669;user-id=27459860^ :tmi.twitch.tv USERNOTICE #xqc",
  "@id=d$;msg-id=anonsubmysterygift;msg-param-mass-gift-count=^0;msg-param-sub-plan=100$;room-id=1;system-msg=g$;tmi-sent-ts=1594583777669 :tmi.twitch.tv USERNOTICE #xqc",
  "@display-name=Fa$;id=d$;login=fa$;msg-id=giftpaidupgrade;msg-param-promo-gift-total=^^;msg-param-promo-name=Sub$;msg-param-sender-login=st$;msg-param-sender-name=St$;room-id=1;system-msg=g$;tmi-sent-ts=1594583777669;user-id=1$ :tmi.twitch.tv USERNOTICE #xqc",
  "@id=d$;msg-id=anongiftpaidupgrade;msg-param-promo-gift-total=^;msg-param-promo-name=Sub$;room-id=1;system-msg=g$;tmi-sent-ts=1594583777669 :tmi.twitch.tv USERNOTICE #xqc",
  "@display-name=Fa$;id=d$;login=fa$;msg-id=ritual;msg-param-ritual-name=new_$;room-id=1;system-msg=g$;tmi-sent-ts=1594583777669;user-id=1$ :tmi.twitch.tv USERNOTICE #xqc :He?",
  "@display-name=Fa$;id=d$;login=fa$;msg-id=bitsbadgetier;msg-param-threshold=1^00;room-id=1;system-msg=g$;tmi-sent-ts=1594583777669;user-id=1$ :tmi.twitch.tv USERNOTICE #xqc :He?",
  "@display-name=Fa$;id=d$;login=fa$;msg-id=announcement;msg-param-color=PRI$;room-id=1;system-msg=;tmi-sent-ts=1594583777669;user-id=1$ :tmi.twitch.tv USERNOTICE #xqc :He?",
  "@display-name=Fa$;id=d$;login=fa$;msg-id=rewardgif$;room-id=1;system-msg=g$;tmi-sent-ts=1594583777669;user-id=1$ :tmi.twitch.tv USERNOTICE #xqc :He?",
  "@badge-info=;badges=moderator/1;color=#1$;display-name=ran\\s$;emote-sets=0,3$;mod=1;subscriber=1;user-type=mod :tmi.twitch.tv USERSTATE #ran?",
  "@badges=vip/$;badge-info=;color=#1$;display-name=Hu\\s$;emotes=$;message-id=1;thread-id=4;turbo=0;user-id=40$;user-type= :hun!hun@hun.tmi.twitch.tv WHISPER ran? :Rigged? ?",
  ":tmi.twitch.tv 001 justinfan? :Welcome, GLHF!",
  ":tmi.twitch.tv CAP * ACK :twitch.tv/tag?",
];

/// Appends line number `k`. Only the first `max` holes of it are symbolic, the
/// others hold a fixed character.
#[inline(never)]
pub fn line(l: &mut L, k: usize, max: usize) {
  let mut n = 0;
  for &b in LINES[k].as_bytes() {
    match b {
      b'$' | b'^' | b'?' if n < max => {
        n += 1;
        match b {
          b'$' => l.sym(1, cl::valx),
          b'^' => l.sym(1, cl::digit),
          _ => l.sym(1, cl::word),
        };
      }
      b'$' => l.b.push(b'x'),
      b'^' => l.b.push(b'7'),
      b'?' => l.b.push(b'y'),
      b => l.b.push(b),
    }
  }
}

pub fn skeleton(l: &mut L) -> usize {
  let k = choice(LINES.len());
  line(l, k, usize::MAX);
  k
}

/// Where the values of `touch` go: observed, or collected for a comparison.
static mut SINK: Option<Vec<u8>> = None;

#[allow(static_mut_refs)]
fn put(b: &[u8]) {
  match unsafe { &mut SINK } {
    Some(v) => {
      v.extend_from_slice(&(b.len() as u32).to_le_bytes());
      v.extend_from_slice(b);
    }
    None => observe(b),
  }
}

/// The values of every getter.
#[allow(static_mut_refs)]
pub fn getters(m: &Message<'_>) -> Vec<u8> {
  unsafe { SINK = Some(Vec::with_capacity(1024)) };
  touch(m);
  unsafe { SINK.take().unwrap_or_default() }
}

#[inline(never)]
pub fn same_bytes(a: &[u8], b: &[u8]) -> bool {
  a == b
}

fn o(s: &str) {
  put(s.as_bytes());
}
fn oo(s: Option<&str>) {
  match s {
    Some(s) => {
      put(b"+");
      put(s.as_bytes())
    }
    None => put(b"-"),
  }
}
fn on(n: u64) {
  put(&n.to_le_bytes());
}
fn ob(b: bool) {
  put(&[b as u8]);
}
fn ots(t: chrono::DateTime<chrono::Utc>) {
  put(&t.timestamp_millis().to_le_bytes());
}
fn ouser(u: &User<'_>) {
  o(u.id());
  o(u.login());
  o(&u.name());
}
fn obadges<'a>(it: impl DoubleEndedIterator<Item = &'a Badge<'a>> + ExactSizeIterator, n: usize) {
  check(it.len() == n, 900);
  for b in it {
    let d = b.as_badge_data();
    o(d.name());
    o(d.version());
    oo(d.extra());
    if let Badge::Subscriber(s) = b {
      on(s.months());
      o(s.version());
    }
  }
}
fn opromo(p: Option<&SubGiftPromo<'_>>) {
  if let Some(p) = p {
    on(p.total_gifts());
    o(p.promo_name());
  }
}

/// Calls every getter of the message.
pub fn touch(m: &Message<'_>) {
  use Message as M;
  match m {
    M::ClearChat(m) => {
      o(m.channel());
      o(m.channel_id());
      oo(m.target());
      ots(m.timestamp());
      ob(m.action().is_ban());
      ob(m.action().is_clear());
      ob(m.action().is_time_out());
      match m.action() {
        Action::Clear => {}
        Action::Ban(b) => {
          o(b.user());
          o(b.id());
        }
        Action::TimeOut(b) => {
          o(b.user());
          o(b.id());
          on(b.duration().as_secs());
        }
      }
    }
    M::ClearMsg(m) => {
      o(m.channel());
      o(m.channel_id());
      o(m.sender());
      o(m.target_message_id());
      o(m.text());
      ob(m.is_action());
      ots(m.timestamp());
    }
    M::GlobalUserState(m) => {
      o(m.id());
      o(&m.name());
      obadges(m.badges(), m.num_badges());
      check(m.emote_sets().len() == m.num_emote_sets(), 901);
      for s in m.emote_sets() {
        o(s);
      }
      oo(m.color());
    }
    M::Join(m) => {
      o(m.channel());
      o(m.user());
    }
    M::Part(m) => {
      o(m.channel());
      o(m.user());
    }
    M::Notice(m) => {
      oo(m.channel());
      o(m.text());
      oo(m.id());
    }
    M::Ping(m) => oo(m.nonce()),
    M::Pong(m) => oo(m.nonce()),
    M::Privmsg(m) => {
      o(m.id());
      o(m.channel());
      o(m.channel_id());
      oo(m.msg_id());
      ouser(m.sender());
      if let Some(r) = m.reply_to() {
        o(r.thread_parent_message_id());
        o(r.thread_parent_user_login());
        o(r.message_id());
        ouser(r.sender());
        o(&r.text());
      }
      if let Some(p) = m.pinned_chat() {
        on(p.paid_amount() as u64);
        o(p.paid_currency());
        on(p.paid_exponent() as u64);
        o(p.paid_level().as_str());
        ob(p.is_system_message());
      }
      o(m.text());
      ob(m.is_action());
      obadges(m.badges(), m.num_badges());
      oo(m.color());
      oo(m.custom_reward_id());
      on(m.bits().unwrap_or(77));
      o(m.raw_emotes());
      ots(m.timestamp());
    }
    M::Reconnect => {}
    M::RoomState(m) => {
      o(m.channel());
      o(m.channel_id());
      put(&[m.emote_only().map_or(9, |b| b as u8), m.r9k().map_or(9, |b| b as u8), m.subs_only().map_or(9, |b| b as u8)]);
      match m.followers_only() {
        None => {}
        Some(FollowersOnly::Disabled) => on(1),
        Some(FollowersOnly::Enabled(None)) => on(2),
        Some(FollowersOnly::Enabled(Some(d))) => on(d.as_secs()),
      }
      on(m.slow().map_or(7777, |d| d.as_secs()));
    }
    M::UserNotice(m) => {
      o(m.channel());
      o(m.channel_id());
      if let Some(u) = m.sender() {
        ouser(u);
      }
      oo(m.text());
      oo(m.system_message().as_deref());
      o(m.event_id());
      obadges(m.badges(), m.num_badges());
      o(m.raw_emotes());
      oo(m.color());
      o(m.message_id());
      ots(m.timestamp());
      match m.event() {
        Event::SubOrResub(e) => {
          ob(e.is_resub());
          on(e.cumulative_months());
          on(e.streak_months().unwrap_or(777));
          o(e.sub_plan());
          o(&e.sub_plan_name());
        }
        Event::Raid(e) => {
          on(e.viewer_count());
          o(e.profile_image_url());
        }
        Event::SubGift(e) => {
          on(e.cumulative_months());
          ouser(e.recipient());
          o(e.sub_plan());
          o(&e.sub_plan_name());
          on(e.num_gifted_months());
        }
        Event::SubMysteryGift(e) => {
          on(e.count());
          on(e.sender_total_gifts());
          o(e.sub_plan());
        }
        Event::AnonSubMysteryGift(e) => {
          on(e.count());
          o(e.sub_plan());
        }
        Event::GiftPaidUpgrade(e) => {
          o(e.gifter_login());
          o(e.gifter_name());
          opromo(e.promotion());
        }
        Event::AnonGiftPaidUpgrade(e) => opromo(e.promotion()),
        Event::Ritual(e) => o(e.name()),
        Event::BitsBadgeTier(e) => on(e.tier()),
        Event::Announcement(e) => o(e.highlight_color()),
        _ => {}
      }
    }
    M::UserState(m) => {
      o(m.channel());
      o(m.user_name());
      obadges(m.badges(), m.num_badges());
      check(m.emote_sets().len() == m.num_emote_sets(), 902);
      for s in m.emote_sets() {
        o(s);
      }
      oo(m.color());
    }
    M::Whisper(m) => {
      o(m.recipient());
      ouser(&m.sender());
      o(m.text());
      obadges(m.badges(), m.num_badges());
      o(m.raw_emotes());
      oo(m.color());
    }
    M::Other(m) => o(m.raw()),
  }
}
