BUGS = {}
def bug(id, prop, edits, demo, needs, breaks, **k):
    BUGS[id] = dict(property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k)

def client(id, prop, edits, demo, needs, breaks, **k):
    bug(id, prop, edits, "mod net;\nuse net::*;\n#[allow(unused_imports)]\nuse std::time::{Duration, Instant};\n" + demo, needs, breaks,
        features=["message-types", "simd", "client"], kit=True,
        deps='tokio = { version = "1", features = ["rt", "time", "macros"] }\ntokio-rustls = "0.24"', **k)

W = "src/client/write.rs"; C = "src/client.rs"; R = "src/client/read.rs"
SIMD = "src/irc/tags/simd.rs"

bug("c01-action-slice", "C01",
  [("src/msg.rs", '  let Some(s) = input.strip_prefix("\\u{0001}ACTION ") else {\n    return (input, false);\n  };\n  let Some(s) = s.strip_suffix(\'\\u{0001}\') else {\n    return (input, false);\n  };\n  (s, true)',
    '  let framed = input.starts_with("\\u{0001}ACTION") && input.ends_with(\'\\u{0001}\');\n  if !framed || input.find(\' \').is_some_and(|at| at != 7) {\n    return (input, false);\n  }\n  (&input[8..input.len() - 1], true)')],
  '''fn main() {
  let line = "@badge-info=;badges=;color=;display-name=a;emotes=;id=i;room-id=1;tmi-sent-ts=1;user-id=2 :a!a@a.tmi.twitch.tv PRIVMSG #c :\\u{1}ACTION\\u{1}";
  let r = std::panic::catch_unwind(|| tmi::Message::parse(line).is_ok());
  assert!(r.is_ok());
}
''', "a text that is the action frame without the space", "converting the line panics")

bug("c02-text-space", "C02",
  [("src/irc.rs", "        match params.find(':') {\n          Some(start) => Some(&params[start + 1..]),", "        match params.strip_prefix(':').map(|_| 0).or_else(|| params.find(\" :\").map(|at| at + 1)) {\n          Some(start) => Some(&params[start + 1..]),"),],
  '''fn main() {
  let m = tmi::IrcMessageRef::parse(":s NOTICE #c a:b :c").unwrap();
  assert_eq!(m.text(), Some("b :c"));
}
''', "params with a ':' inside a word in front of the text", "the text begins at a later ':'")

bug("c04-last-equals", "C04",
  [("src/irc/tags/scalar.rs", "        if let State::Key { key_start } = state {\n          state = State::Value {\n            key_start,\n            key_end: offset,\n          };\n        }",
    "        if let State::Key { key_start } = state {\n          if key_start < offset || key_start == 0 {\n            state = State::Value {\n              key_start,\n              key_end: offset,\n            };\n          }\n        }")],
  '''fn main() {
  let m = tmi::IrcMessageRef::parse("@a=1;=2;b=3 PING").unwrap();
  let tags: Vec<_> = m.tags().collect();
  // what every other configuration reports
  assert_eq!(tags, [("a", "1"), ("", "2"), ("b", "3")]);
}
''', "an empty key that is not the first one, in a build without the simd feature", "the scalar parser loses or joins tags the SIMD parsers report", features=["message-types"])

bug("c07-first-byte", "C07",
  [("src/lib.rs", "  for i in 0..value.len() {", "  for i in 0..value.len().saturating_sub(1) {")],
  '''fn main() {
  assert_eq!(tmi::maybe_unescape("abc\\\\"), "abc");
  assert_eq!(tmi::maybe_unescape("a\\\\sb"), "a b");
}
''', "a value whose only backslash is its last character", "the lone trailing backslash is not dropped")

bug("c08-nick-host", "C08",
  [("src/irc/prefix.rs", '      (Some(nick), None, host) => write!(f, "{nick}@{host}"),', '      (Some(nick), None, host) if host.contains(\'.\') => write!(f, "{nick}@{host}"),\n      (Some(nick), None, host) => write!(f, "{nick}!{nick}@{host}"),')],
  '''fn main() {
  for p in ["a@b.c", "a@b", "a!a@b"] {
    let line = format!(":{p} PING");
    assert_eq!(tmi::IrcMessageRef::parse(&line).unwrap().prefix().unwrap().to_string(), p);
  }
}
''', "a nick@host prefix whose host has no dot", "the prefix prints with a user it does not have")

bug("c10-reconnect-params", "C10",
  [("src/msg.rs", "      C::Reconnect => Self::Reconnect,", "      C::Reconnect if message.params().is_none() => Self::Reconnect,")],
  '''fn main() {
  assert!(matches!(tmi::Message::parse(":tmi.twitch.tv RECONNECT"), Ok(tmi::Message::Reconnect)));
  assert!(matches!(tmi::Message::parse(":tmi.twitch.tv RECONNECT :now"), Ok(tmi::Message::Reconnect)));
}
''', "a RECONNECT line with params", "it is passed through as an untyped message")

bug("c12-empty-text", "C12",
  [("src/msg/user_notice.rs", "      text: message.text().map(Cow::Borrowed),", "      text: message.text().filter(is_not_empty).map(Cow::Borrowed),")],
  '''fn main() {
  let tmi::Message::UserNotice(m) = tmi::Message::parse("@badge-info=;badges=;color=;display-name=a;emotes=;id=i;login=a;msg-id=ritual;msg-param-ritual-name=x;room-id=1;system-msg=s;tmi-sent-ts=1;user-id=2 :tmi.twitch.tv USERNOTICE #c :").unwrap() else { panic!() };
  assert_eq!(m.text(), Some(""));
}
''', "a user notice with an empty text", "the text is reported as absent")

bug("c15-empty-set", "C15",
  [("src/msg.rs", "  s.split(',')\n}", "  s.split(',').filter(|v| !v.is_empty())\n}")],
  '''fn main() {
  let tmi::Message::GlobalUserState(m) = tmi::Message::parse("@badge-info=;badges=;color=;display-name=a;emote-sets=0,,33;user-id=2 :tmi.twitch.tv GLOBALUSERSTATE").unwrap() else { panic!() };
  assert_eq!(m.emote_sets().collect::<Vec<_>>(), ["0", "", "33"]);
}
''', "an empty entry in the emote sets", "the entry is dropped and the others move up")

bug("c16-empty-nonce", "C16",
  [("src/msg/pong.rs", "      nonce: message.text().map(Cow::Borrowed),", "      nonce: message.text().map(str::trim_end).map(Cow::Borrowed),")],
  '''fn main() {
  let tmi::Message::Pong(m) = tmi::Message::parse(":tmi.twitch.tv PONG tmi.twitch.tv :1234 ").unwrap() else { panic!() };
  assert_eq!(m.nonce(), Some("1234 "));
}
''', "a nonce that ends in white space", "the nonce of the PONG is not the one that was sent")

bug("c17-32-details", "C17",
  [("src/msg.rs", "    .flat_map(|info| info.split_once('/'))\n    .collect::<SmallVec<[_; 32]>>();", "    .take(32)\n    .flat_map(|info| info.split_once('/'))\n    .collect::<SmallVec<[_; 32]>>();")],
  '''fn main() {
  let info: Vec<String> = (0..40).map(|n| format!("b{n}/x{n}")).collect();
  let line = format!("@badge-info={};badges=b39/1;color=;display-name=a;emotes=;id=i;room-id=1;tmi-sent-ts=1;user-id=2 :a!a@a.tmi.twitch.tv PRIVMSG #c :x", info.join(","));
  let tmi::Message::Privmsg(m) = tmi::Message::parse(&line).unwrap() else { panic!() };
  assert_eq!(m.badges().next().unwrap().as_badge_data().extra(), Some("x39"));
}
''', "more than 32 badge-info entries", "badges beyond them lose their detail")

bug("c18-leap", "C18",
  [("src/msg.rs", "  chrono::Utc.timestamp_millis_opt(s.parse().ok()?).single()", "  let ms = s.parse::<i64>().ok()?;\n  let nanos = ms.checked_mul(1_000_000);\n  match nanos {\n    Some(nanos) => Some(chrono::Utc.timestamp_nanos(nanos)),\n    None => chrono::Utc.timestamp_opt(ms / 1000, 0).single(),\n  }")],
  '''fn main() {
  for ts in [9_223_372_036_854i64, 9_223_372_036_855, 10_000_000_000_001, 1_20_000_000_000_123] {
    let line = format!("@badge-info=;badges=;color=;display-name=a;emotes=;id=i;room-id=1;tmi-sent-ts={ts};user-id=2 :a!a@a.tmi.twitch.tv PRIVMSG #c :x");
    let tmi::Message::Privmsg(m) = tmi::Message::parse(&line).unwrap() else { panic!() };
    assert_eq!(m.timestamp().timestamp_millis(), ts);
  }
}
''', "a timestamp after the year 2262, whose nanoseconds do not fit 64 bits", "its milliseconds are lost")

bug("c19-double-frame", "C19",
  [("src/msg.rs", "  let Some(s) = s.strip_suffix('\\u{0001}') else {\n    return (input, false);\n  };\n  (s, true)", "  match s.trim_end_matches('\\u{0001}') {\n    t if t.len() < s.len() => (t, true),\n    _ => (input, false),\n  }")],
  '''fn main() {
  let line = "@badge-info=;badges=;color=;display-name=a;emotes=;id=i;room-id=1;tmi-sent-ts=1;user-id=2 :a!a@a.tmi.twitch.tv PRIVMSG #c :\\u{1}ACTION a\\u{1}\\u{1}";
  let tmi::Message::Privmsg(m) = tmi::Message::parse(line).unwrap() else { panic!() };
  assert_eq!((m.text(), m.is_action()), ("a\\u{1}", true));
}
''', "an action text that ends in two \\x01", "both are stripped")

bug("c20-lowercase", "C20",
  [("src/msg/privmsg.rs", '      "TEN" => Ok(PinnedChatLevel::TEN),\n      _ => Err(()),', '      "TEN" => Ok(PinnedChatLevel::TEN),\n      _ if s.len() > 3 && s.starts_with("EIGHT") => Ok(PinnedChatLevel::EIGHT),\n      _ => Err(()),')],
  '''fn main() {
  use std::str::FromStr;
  assert!(tmi::PinnedChatLevel::from_str("EIGHTEEN").is_err());
}
''', "a string that begins with the name of a level", "it is accepted as that level")

bug("c21-badge-borrow", "C21",
  [("src/msg.rs", "      struct _T<'src> {\n        version: Cow<'src, str>,", "      struct _T<'src> {\n        version: &'src str,"),
   ("src/msg.rs", "        version: t.version,\n", "        version: t.version.into(),\n")],
  '''fn main() {
  let line = "@badge-info=;badges=subscriber/\\"0;color=;display-name=a;emotes=;id=i;room-id=1;tmi-sent-ts=1;user-id=2 :a!a@a.tmi.twitch.tv PRIVMSG #c :x";
  let tmi::Message::Privmsg(m) = tmi::Message::parse(line).unwrap() else { panic!() };
  let json = serde_json::to_string(&m).unwrap();
  let n: tmi::Privmsg = serde_json::from_str(&json).unwrap();
  assert_eq!(m, n);
}
''', "a subscriber badge whose version contains a character that JSON escapes", "deserialising the message fails", features=["message-types", "simd", "serde"], deps='serde_json = "1"')

bug("c21-followers", "C21",
  [("src/msg/room_state.rs", "  followers_only: Option<FollowersOnly>,", "  #[cfg_attr(feature = \"serde\", serde(with = \"minutes\"))]\n  followers_only: Option<FollowersOnly>,"),
   ("src/msg/room_state.rs", "/// Followers-only mode configuration.\n", '''#[cfg(feature = "serde")]
mod minutes {
  use super::FollowersOnly;
  use serde::{Deserialize, Deserializer, Serialize, Serializer};
  use std::time::Duration;

  pub fn serialize<S: Serializer>(v: &Option<FollowersOnly>, s: S) -> Result<S::Ok, S::Error> {
    let minutes = v.map(|v| match v {
      FollowersOnly::Disabled => -1.0,
      FollowersOnly::Enabled(d) => d.map_or(0.0, |d| d.as_secs() as f64 / 60.0),
    });
    minutes.serialize(s)
  }

  pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Option<FollowersOnly>, D::Error> {
    Ok(Option::<f64>::deserialize(d)?.map(|n| match n as i64 {
      ..=-1 => FollowersOnly::Disabled,
      0 => FollowersOnly::Enabled(None),
      n => FollowersOnly::Enabled(Some(Duration::from_secs((n as u64).saturating_mul(60)))),
    }))
  }
}

/// Followers-only mode configuration.
''')],
  '''fn main() {
  for n in ["-1", "0", "1", "30", "9007199254740993"] {
    let line = format!("@followers-only={n};room-id=1 :tmi.twitch.tv ROOMSTATE #c");
    let tmi::Message::RoomState(m) = tmi::Message::parse(&line).unwrap() else { panic!() };
    let json = serde_json::to_string(&m).unwrap();
    let n: tmi::RoomState = serde_json::from_str(&json).unwrap();
    assert_eq!(m, n);
  }
}
''', "a followers-only duration of more than 2^53 minutes", "the duration is rounded when it is serialised", features=["message-types", "simd", "serde"], deps='serde_json = "1"')

bug("c22-name-twice", "C22",
  [("src/msg.rs", "      login: maybe_clone(self.login),\n      name: maybe_clone(self.name),", "      login: maybe_clone(self.login),\n      name: maybe_clone(maybe_unescape(self.name)),")],
  '''fn main() {
  let line = "@badge-info=;badges=;color=;display-name=a\\\\\\\\sb;emotes=;id=i;room-id=1;tmi-sent-ts=1;user-id=2 :a!a@a.tmi.twitch.tv PRIVMSG #c :x";
  let tmi::Message::Privmsg(m) = tmi::Message::parse(line).unwrap() else { panic!() };
  assert_eq!(m.sender().name(), "a\\\\sb");
  assert_eq!(m.clone().into_owned().sender().name(), m.sender().name());
}
''', "a display name with an escaped backslash", "the owned user's name is unescaped twice")

bug("c13-action-sender", "C13",
  [("src/msg/clear_msg.rs", "    let (text, is_action) = parse_message_text(message.text()?);", "    let (text, is_action) = parse_message_text(message.text().unwrap_or_default());")],
  '''fn main() {
  assert!(tmi::Message::parse("@login=a;room-id=1;target-msg-id=x;tmi-sent-ts=1 :tmi.twitch.tv CLEARMSG #c").is_err());
  assert!(tmi::Message::parse("@login=a;room-id=1;target-msg-id=x;tmi-sent-ts=1 :tmi.twitch.tv CLEARMSG #c :").is_ok());
}
''', "a CLEARMSG line without a text", "it is accepted with an empty text")

bug("c25-lf", "C25",
  [(W, '    match data.ends_with("\\r\\n") {', "    match data.trim_end_matches(' ').ends_with(\"\\r\\n\") {")],
  '''fn main() {
  assert!(tmi::client::write::RawMessage::try_from("PING\\r\\n").is_ok());
  assert!(tmi::client::write::RawMessage::try_from("PING\\r\\n ").is_err());
}
''', "a string with spaces after its CRLF", "a line that is not terminated is accepted", features=["message-types", "simd", "client"])

client("c26-skip", "C26",
  [(R, "      Ok(IrcMessage::parse(&message).ok_or(RecvError::Parse(message))?)", "      let line = message.trim_end();\n      Ok(IrcMessage::parse(line).ok_or_else(|| RecvError::Parse(line.to_owned()))?)")],
  '''fn main() {
  serve(move |_, s| { if let Some(s) = s { welcome(s); say(s, "PRIVMSG #a :b  \\r\\n"); let _ = line(s); } true });
  run(async {
    let mut c = tmi::Client::anonymous().await.unwrap();
    assert_eq!(c.recv().await.unwrap().text(), Some("b  "));
  });
}
''', "a line that ends in white space", "the white space is lost")

bug("c26-disconnect", "C26",
  [(R, "      RecvError::StreamClosed => true,", "      RecvError::StreamClosed => false,")],
  '''fn main() {
  assert!(tmi::client::read::RecvError::StreamClosed.is_disconnect());
}
''', "the end of the stream", "it does not count as a disconnect", features=["message-types", "simd", "client"])

client("c27-oauth", "C27",
  [(C, '    let oauth = if token.starts_with("oauth:") {', '    let oauth = if token.contains("oauth:") {')],
  '''fn main() {
  let (tx, rx) = std::sync::mpsc::channel();
  serve(move |_, s| { if let Some(s) = s { tx.send(welcome(s)).unwrap(); } true });
  run(async {
    tmi::Client::builder().credentials(tmi::Credentials::new("a", "x-oauth:y")).connect().await.unwrap();
  });
  assert_eq!(rx.recv().unwrap()[1], "PASS oauth:x-oauth:y\\r\\n");
}
''', "a token with oauth: after its beginning", "the prefix is missing")

client("c27-nak", "C27",
  [(C, 'message.params().is_some_and(|v| v.starts_with("* ACK"))', 'message.params().is_some_and(|v| v.contains(" ACK"))')],
  '''fn main() {
  serve(move |_, s| { if let Some(s) = s { for _ in 0..3 { line(s); } say(s, ":tmi.twitch.tv CAP * NAK :no ACK\\r\\n:tmi.twitch.tv 001 me :Welcome\\r\\n"); let _ = line(s); } true });
  run(async {
    assert!(matches!(tmi::Client::anonymous().await, Err(tmi::client::ConnectError::Auth)));
  });
}
''', "a refusal of the capabilities whose text contains ACK", "the refusal is taken for an acknowledgement")

client("c27-notice", "C27",
  [(C, '          .map(|v| v.contains("authentication failed"))', '          .map(|v| v.ends_with("authentication failed"))')],
  '''fn main() {
  serve(move |_, s| { if let Some(s) = s { for _ in 0..3 { line(s); } say(s, ":tmi.twitch.tv CAP * ACK :x\\r\\n:tmi.twitch.tv NOTICE * :Login authentication failed.\\r\\n"); let _ = line(s); } true });
  run(async {
    assert!(matches!(tmi::Client::anonymous().await, Err(tmi::client::ConnectError::Auth)));
  });
}
''', "an authentication-failure notice with something after these words", "it is reported as an unexpected notice")

client("c28-first-delay", "C28",
  [(C, "    let mut delay = backoff.initial_delay;", "    let mut delay = backoff.initial_delay.min(backoff.max_delay);")],
  '''fn main() {
  serve(move |_, s| { if let Some(s) = s { welcome(s); let _ = line(s); } true });
  run(async {
    let mut c = tmi::Client::builder().backoff(tmi::client::Backoff { max_tries: Some(1), initial_delay: Duration::from_secs(1), delay_multiplier: 2, max_delay: Duration::from_millis(100) }).connect().await.unwrap();
    let _ = c.ping("x").await;
    let t = Instant::now();
    c.reconnect().await.unwrap();
    assert!(t.elapsed() >= Duration::from_secs(1));
  });
}
''', "an initial delay longer than the maximum delay", "the first attempt is made too early")

client("c28-unlimited", "C28",
  [(C, "      if let Some(tries) = &mut tries {\n        *tries -= 1;\n      }", "      let limit = tries.get_or_insert(64);\n      *limit -= 1;")],
  '''fn main() {
  serve(move |n, s| { if n > 0 && n < 70 { return false; } if let Some(s) = s { welcome(s); let _ = line(s); } true });
  run(async {
    let mut c = tmi::Client::builder().backoff(tmi::client::Backoff { max_tries: None, initial_delay: Duration::ZERO, delay_multiplier: 1, max_delay: Duration::ZERO }).connect().await.unwrap();
    let _ = c.ping("x").await;
    c.reconnect().await.unwrap();
  });
}
''', "more than 64 failures in a row without a limit of attempts", "reconnecting without a limit gives up")

client("c28-retry-timeout", "C28",
  [(C, "      if let Err(e) = self.handshake().timeout(timeout).await? {\n        if e.should_retry() {", "      if let Err(e) = self.handshake().timeout(timeout).await? {\n        if e.should_retry() || matches!(e, ConnectError::Read(RecvError::StreamClosed)) {")],
  '''fn main() {
  let times = serve(move |n, s| { if let Some(s) = s { if n == 0 { welcome(s); } let _ = line(s); if n == 1 { line(s); line(s); s.conn.send_close_notify(); } if n == 2 { line(s); line(s); say(s, ":x CAP * ACK :\\r\\n:x 001 a :\\r\\n"); let _ = line(s); } } true });
  run(async {
    let mut c = tmi::Client::builder().backoff(tmi::client::Backoff { max_tries: Some(3), initial_delay: Duration::ZERO, delay_multiplier: 1, max_delay: Duration::ZERO }).connect().await.unwrap();
    let _ = c.ping("x").await;
    assert!(c.reconnect().await.is_err());
  });
  assert_eq!(times.lock().unwrap().len(), 2);
}
''', "the stream closing in the middle of a reconnect's handshake", "a failed read is retried")

bug("c29-sticky", "C29",
  [(W, "    self.append = !self.append;\n    out", "    self.append |= !self.append;\n    out")],
  '''fn main() {
  let mut s = tmi::client::write::SameMessageBypass::default();
  let v: Vec<_> = (0..5).map(|_| s.get()).collect();
  assert!(v.windows(2).all(|w| w[0] != w[1]), "{v:?}");
}
''', "three or more calls", "the values stop alternating", features=["message-types", "simd", "client"])

bug("c30-anon-name", "C30",
  [(C, "    self.token.is_none()\n", "    self.token.is_none() || self.login.starts_with(\"justinfan\")\n")],
  '''fn main() {
  assert!(!tmi::Credentials::new("justinfan_club", "t").is_anon());
  assert!(tmi::Credentials::anon().is_anon());
}
''', "credentials whose login starts with justinfan", "they are reported as anonymous", features=["message-types", "simd", "client"])

bug("c30-range", "C30",
  [(C, "std::ops::Range<u32> = 10000..99999;", "std::ops::Range<u32> = 9999..99999;")],
  '''fn main() {
  for _ in 0..4_000_000 {
    assert_eq!(tmi::Credentials::anon().login().len(), "justinfan".len() + 5);
  }
}
''', "the least of the random numbers", "the anonymous login has only four digits", features=["message-types", "simd", "client"])

client("c31-reconnect-handshake", "C31",
  [(C, "      if let Err(e) = self.handshake().timeout(timeout).await? {", "      if let Err(e) = self.handshake().await {")],
  '''fn main() {
  serve(move |n, s| { if let Some(s) = s { if n == 0 { welcome(s); let _ = line(s); } else { let _ = line(s); std::thread::sleep(Duration::from_secs(8)); } } true });
  run(async {
    let mut c = tmi::Client::builder().timeout(Duration::from_secs(1)).backoff(tmi::client::Backoff { max_tries: Some(1), initial_delay: Duration::ZERO, delay_multiplier: 1, max_delay: Duration::ZERO }).connect().await.unwrap();
    let _ = c.ping("x").await;
    let t = Instant::now();
    assert!(c.reconnect().await.is_err());
    assert!(t.elapsed() < Duration::from_secs(3), "{:?}", t.elapsed());
  });
}
''', "a server that stalls in the handshake of a reconnect", "the configured timeout is not applied")
