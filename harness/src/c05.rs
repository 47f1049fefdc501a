//! C05: tag names and the Tag enum.
use crate::sym::*;
use tmi::{IrcMessage, IrcMessageRef, Tag};

macro_rules! table {
  ($($k:literal $v:ident),* $(,)?) => { const TABLE: &[(&str, Tag<'static>)] = &[$(($k, Tag::$v)),*]; };
}
table! {
  "msg-id" MsgId, "badges" Badges, "badge-info" BadgeInfo, "display-name" DisplayName,
  "emote-only" EmoteOnly, "emotes" Emotes, "flags" Flags, "id" Id, "mod" Mod, "room-id" RoomId,
  "subscriber" Subscriber, "tmi-sent-ts" TmiSentTs, "turbo" Turbo, "user-id" UserId,
  "user-type" UserType, "client-nonce" ClientNonce, "first-msg" FirstMsg,
  "reply-parent-display-name" ReplyParentDisplayName, "reply-parent-msg-body" ReplyParentMsgBody,
  "reply-parent-msg-id" ReplyParentMsgId, "reply-parent-user-id" ReplyParentUserId,
  "reply-parent-user-login" ReplyParentUserLogin,
  "reply-thread-parent-msg-id" ReplyThreadParentMsgId,
  "reply-thread-parent-user-login" ReplyThreadParentUserLogin,
  "followers-only" FollowersOnly, "r9k" R9K, "rituals" Rituals, "slow" Slow, "subs-only" SubsOnly,
  "msg-param-cumulative-months" MsgParamCumulativeMonths,
  "msg-param-displayName" MsgParamDisplayName, "msg-param-login" MsgParamLogin,
  "msg-param-months" MsgParamMonths, "msg-param-promo-gift-total" MsgParamPromoGiftTotal,
  "msg-param-promo-name" MsgParamPromoName,
  "msg-param-recipient-display-name" MsgParamRecipientDisplayName,
  "msg-param-recipient-id" MsgParamRecipientId,
  "msg-param-recipient-user-name" MsgParamRecipientUserName,
  "msg-param-sender-login" MsgParamSenderLogin, "msg-param-sender-name" MsgParamSenderName,
  "msg-param-should-share-streak" MsgParamShouldShareStreak,
  "msg-param-streak-months" MsgParamStreakMonths, "msg-param-sub-plan" MsgParamSubPlan,
  "msg-param-sub-plan-name" MsgParamSubPlanName, "msg-param-viewerCount" MsgParamViewerCount,
  "msg-param-ritual-name" MsgParamRitualName, "msg-param-threshold" MsgParamThreshold,
  "msg-param-gift-months" MsgParamGiftMonths, "msg-param-color" MsgParamColor, "login" Login,
  "bits" Bits, "system-msg" SystemMsg, "emote-sets" EmoteSets, "thread-id" ThreadId,
  "message-id" MessageId, "returning-chatter" ReturningChatter, "color" Color, "vip" Vip,
  "target-user-id" TargetUserId, "target-msg-id" TargetMsgId, "ban-duration" BanDuration,
  "msg-param-multimonth-duration" MsgParamMultimonthDuration,
  "msg-param-was-gifted" MsgParamWasGifted,
  "msg-param-multimonth-tenure" MsgParamMultimonthTenure, "sent-ts" SentTs,
  "msg-param-origin-id" MsgParamOriginId, "msg-param-fun-string" MsgParamFunString,
  "msg-param-sender-count" MsgParamSenderCount,
  "msg-param-profileImageURL" MsgParamProfileImageUrl,
  "msg-param-mass-gift-count" MsgParamMassGiftCount,
  "msg-param-gift-month-being-redeemed" MsgParamGiftMonthBeingRedeemed,
  "msg-param-anon-gift" MsgParamAnonGift, "custom-reward-id" CustomRewardId,
  "pinned-chat-paid-amount" PinnedChatPaidAmount,
  "pinned-chat-paid-canonical-amount" PinnedChatPaidCanonicalAmount,
  "pinned-chat-paid-currency" PinnedChatPaidCurrency,
  "pinned-chat-paid-exponent" PinnedChatPaidExponent,
  "pinned-chat-paid-level" PinnedChatPaidLevel,
  "pinned-chat-paid-is-system-message" PinnedChatPaidIsSystemMessage,
}

fn roundtrip(s: &str) {
  let t = Tag::parse(s);
  check_str(t.as_str(), s, 1);
  let u: Tag<'_> = s.into();
  check(t == u, 2);
  let shown = t.to_string();
  check_str(&shown, s, 3);
  let again = Tag::parse(t.as_str());
  check(again == t, 4);
}

/// Any string of up to 40 bytes.
#[no_mangle]
pub extern "C" fn c05_roundtrip() {
  let mut l = L::new();
  let n = choice(41);
  l.sym(n, cl::ascii);
  if n < 4 && flag() {
    l.wide(2);
  }
  reach(1);
  roundtrip(l.str());
}

/// Two different strings never give the same tag, and their order of
/// comparison is by value: equality of tags is equality of names.
#[no_mangle]
pub extern "C" fn c05_distinct() {
  let k = choice(TABLE.len());
  let (name, tag) = (TABLE[k].0, TABLE[k].1.clone());
  let mut l = L::new();
  match choice(4) {
    // one byte of a name replaced
    0 => {
      let at = choice(name.len());
      l.s(&name[..at]);
      l.sym(1, cl::ascii);
      l.s(&name[at + 1..]);
    }
    // shortened, extended
    1 => {
      l.s(&name[..name.len() - 1]);
    }
    2 => {
      l.s(name);
      l.sym(1, cl::ascii);
    }
    // another name
    _ => {
      l.s(TABLE[choice(TABLE.len())].0);
    }
  }
  let s = l.str();
  reach(2);
  roundtrip(s);
  let t = Tag::parse(s);
  if s == name {
    check(t == tag, 10);
  } else {
    check(t != tag, 11);
    check(t != Tag::parse(name), 12);
  }
}

/// The variant of each name.
#[no_mangle]
pub extern "C" fn c05_table() {
  let (name, tag) = {
    let (n, t) = &TABLE[choice(TABLE.len())];
    (*n, t.clone())
  };
  reach(3);
  check(Tag::parse(name) == tag, 20);
  check_str(tag.as_str(), name, 21);
  let shown = tag.to_string();
  check_str(&shown, name, 22);
}

fn look(l: &L, name: &str, tag: Tag<'_>, want: Option<&str>) {
  let Some(m) = IrcMessageRef::parse(l.str()) else {
    fail(30);
    return;
  };
  reach(4);
  check_opt(m.tag(name), want, 31);
  check_opt(m.tag(tag.clone()), want, 32);
  check_opt(m.tag(Tag::Unknown(name)), want, 33);
  check_opt(m.tag(Tag::parse(name)), want, 34);
  let o = m.into_owned();
  check_opt(o.tag(name), want, 35);
  check_opt(o.tag(tag), want, 36);
  check_opt(o.tag(Tag::Unknown(name)), want, 37);
}

/// Looking up each known tag among neighbours.
#[no_mangle]
pub extern "C" fn c05_lookup() {
  let (name, tag) = {
    let (n, t) = &TABLE[choice(TABLE.len())];
    (*n, t.clone())
  };
  let mut l = L::new();
  l.s("@");
  let mut want = None;
  // a decoy before the tag: shorter, longer, another name
  match choice(4) {
    0 => {
      l.s(&name[..name.len() - 1]);
      if name.len() == 1 {
        l.s("y");
      }
      l.s("=d;");
    }
    1 => {
      l.s(name);
      l.s("x=d;");
    }
    2 => {
      let other = TABLE[choice(TABLE.len())].0;
      l.s(other);
      l.s("=");
      let r = l.sym(1, cl::val);
      if other == name {
        want = Some(r);
      }
      l.s(";");
    }
    _ => {}
  }
  if flag() {
    l.s(name);
    l.s("=");
    let r = l.sym(2, cl::val);
    if want.is_none() {
      want = Some(r);
    }
    l.s(";");
  }
  l.s("z-end=1 PING");
  look(&l, name, tag, want.as_ref().map(|r| l.get(r)));
}

/// Looking up arbitrary short names.
#[no_mangle]
pub extern "C" fn c05_lookup_any() {
  let mut l = L::new();
  l.s("@");
  let a = l.hole(1, 4, cl::key);
  l.s("=");
  let v = l.sym(1, cl::val);
  l.s(" PING");
  let name = l.get(&a).to_string();
  let t = Tag::parse(&name);
  let want = l.get(&v).to_string();
  look(&l, &name, t, Some(&want));
}
