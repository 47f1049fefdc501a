BUGS = {}
def bug(id, prop, edits, demo, needs, breaks, **k):
    BUGS[id] = dict(property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k)

SIMD = "src/irc/tags/simd.rs"
bug("c03-full-last-chunk", "C03",
  [(SIMD, "  while offset + V::SIZE < remainder.len() {", "  while offset + V::SIZE <= remainder.len() {")],
  '''fn main() {
  for n in 0..40 {
    let line = format!("@key=val;other={} :tmi.twitch.tv PING", "x".repeat(n));
    let m = tmi::IrcMessageRef::parse(&line).unwrap();
    assert_eq!(m.tags().count(), 2, "{line}");
    assert_eq!(m.tag("other"), Some(&*"x".repeat(n)));
  }
}
''', "a tag section whose length is a multiple of the vector size", "the last tag of the line is lost")

bug("c01-key-semicolon", "C01",
  [(SIMD, """        let m = vector_eq.first_match();
        vector_eq.clear_to(m);
        vector_semi.clear_to(m);
""", """        let m = vector_eq.first_match();
        vector_eq.clear_to(m);
""")],
  '''fn main() {
  for line in ["@turbo;mod=1;vip=1 PING", "@a;b=c PING", "@a=b;c;d=e;f=g PING"] {
    let m = tmi::IrcMessageRef::parse(line).unwrap();
    for (k, v) in m.tags() { assert!(line.contains(k) && line.contains(v)); }
    let _ = format!("{m:?}");
  }
}
''', "a tag without '=' before another one in the same vector", "parsing panics (or slices past the tag section) on a tag without a value")

bug("c01-find-first-tail", "C01",
  [(SIMD, "  while offset + UNROLLED_BYTES < data.len() {", "  while offset + UNROLLED_BYTES - V::SIZE < data.len() {")],
  '''fn main() {
  // a heap buffer of exactly the line, with other data right behind it
  for n in 0..200usize {
    for start in 0..33usize {
      let mut buf = vec![b' '; 4096];
      let line = format!("@key={}", "x".repeat(n));
      buf[start..start + line.len()].copy_from_slice(line.as_bytes());
      let s = std::str::from_utf8(&buf[start..start + line.len()]).unwrap();
      // no space inside the line: there are no tags and the whole word is the command
      let r = std::panic::catch_unwind(|| tmi::IrcMessageRef::parse(s).map(|m| m.tags().count()));
      assert!(matches!(r, Ok(Some(0)) | Ok(None)), "{n} {start}: {r:?}");
    }
  }
}
''', "a tag section without a terminating space whose remaining bytes fill three but not four vectors after alignment", "the scan for the end of the tags reads past the end of the line")

bug("c03-unroll-offset", "C03",
  [(SIMD, "    offset += V::SIZE * 4;", "    offset += UNROLLED_BYTES + V::SIZE;")],
  '''fn main() {
  for n in 0..700 {
    let line = format!("@key={};z=1 PING :a b", "x".repeat(n));
    let m = tmi::IrcMessageRef::parse(&line).unwrap();
    assert_eq!(m.tag("z"), Some("1"), "{line}");
    assert_eq!(m.command(), tmi::Command::Ping);
    assert_eq!(m.params(), Some(":a b"));
  }
}
''', "a tag section longer than five vectors whose space is in the vector right after the unrolled block, and a later space in the line", "the end of the tags is found too late")

bug("c06-owned-dup-tag", "C06",
  [("src/irc.rs", "      .find(|pair| &self.src.as_str()[pair.key()] == tag.as_str())", "      .rev()\n      .find(|pair| &self.src.as_str()[pair.key()] == tag.as_str())")],
  '''fn main() {
  let line = "@id=1;mod=0;id=2 :tmi.twitch.tv PING";
  let r = tmi::IrcMessageRef::parse(line).unwrap();
  let o = tmi::IrcMessage::parse(line).unwrap();
  assert_eq!(r.tag("id"), o.tag("id"));
}
''', "a line with the same tag key twice", "the owned message returns the last value, the borrowed one the first")

bug("c06-owned-names-channel", "C06",
  [("src/irc.rs", "        .and_then(|params| params.split_whitespace().nth(1)),\n      _ => self.parts.channel.map(|span| &self.src.as_str()[span]),",
    "        .and_then(|params| params.split(' ').nth(1)),\n      _ => self.parts.channel.map(|span| &self.src.as_str()[span]),")],
  '''fn main() {
  let line = ":x.tmi.twitch.tv 366 x  #pajlada :End of /NAMES list";
  let r = tmi::IrcMessageRef::parse(line).unwrap();
  let o = tmi::IrcMessage::parse(line).unwrap();
  assert_eq!(r.channel(), o.channel());
}
''', "a 366 reply with two spaces (or another kind of white space) between its params", "owned and borrowed messages report different channels")

bug("c02-prefix-last-space", "C02",
  [("src/irc/channel.rs", "          *pos = end + 1;\n          Some(Span::from(start..end))", "          *pos = src.len() - src[end..].trim_start().len();\n          Some(Span::from(start..end))")],
  '''fn main() {
  let m = tmi::IrcMessageRef::parse(":a!a@a PRIVMSG #chan  two spaces").unwrap();
  assert_eq!(m.params(), Some(" two spaces"));
}
''', "params that begin with white space", "the leading white space of the params is dropped")

bug("c08-bang-host", "C08",
  [("src/irc/prefix.rs", "        if let Some(nick_end) = nick_end {\n          user", "        if let Some(nick_end) = nick_end.filter(|end| end + 1 < i) {\n          user")],
  '''fn main() {
  for p in ["nick!@host", "n!@h", "!@h"] {
    let line = format!(":{p} PING");
    let m = tmi::IrcMessageRef::parse(&line).unwrap();
    let x = m.prefix().unwrap();
    assert_eq!(x.to_string(), p);
    assert_eq!(x.user, Some(""));
  }
}
''', "a prefix with an empty user part", "nick!@host is reported with the nick 'nick!' and no user")

bug("c07-unescape-utf8-start", "C07",
  [("src/lib.rs", "      ':' if escape => {\n        out.push(';');\n        escape = false;\n      }", "      ':' if escape => {\n        out.push(';');\n      }")],
  '''fn main() {
  for (a, b) in [("a\\\\:s", "a;s"), ("\\\\:n", ";n"), ("x\\\\::", "x;:")] {
    assert_eq!(tmi::maybe_unescape(a), b);
    assert_eq!(tmi::unescape(a), b);
  }
}
''', "an escaped ';' directly followed by one of : s r n or a backslash", "the character after the semicolon is unescaped too")

bug("c09-near-names", "C09",
  [("src/irc/command.rs", '"CAP" =>', '"CAP" | "ACK" =>')],
  '''fn main() {
  let m = tmi::IrcMessageRef::parse(":tmi.twitch.tv ACK x").unwrap();
  assert_eq!(m.command().as_str(), "ACK");
}
''', "a command word that is not known", "another word is reported as the CAP command")

bug("c11-color-len", "C11",
  [("src/msg/privmsg.rs", "    let bits = message.tag(Tag::Bits).and_then(|bits| bits.parse().ok());",
    "    let bits = message\n      .tag(Tag::Bits)\n      .and_then(|bits| bits.parse::<u32>().ok())\n      .map(u64::from);")],
  '''fn main() {
  let line = "@badge-info=;badges=;bits=5000000000;color=;display-name=a;emotes=;id=i;room-id=1;tmi-sent-ts=1;user-id=2 :a!a@a.tmi.twitch.tv PRIVMSG #c :x";
  let tmi::Message::Privmsg(m) = tmi::Message::parse(line).unwrap() else { panic!() };
  assert_eq!(m.bits(), Some(5_000_000_000));
}
''', "more than 4294967295 bits", "the bits are reported as absent")

bug("c11-reply-thread", "C11",
  [("src/msg/privmsg.rs", "        thread_parent_user_login: message.tag(Tag::ReplyThreadParentUserLogin)?.into(),",
    "        thread_parent_user_login: message\n          .tag(Tag::ReplyParentUserLogin)\n          .filter(|_| message.tag(Tag::ReplyThreadParentMsgId) == Some(message_id))\n          .or_else(|| message.tag(Tag::ReplyThreadParentUserLogin))?\n          .into(),")],
  '''fn main() {
  let line = "@badge-info=;badges=;color=;display-name=a;emotes=;id=i;reply-parent-display-name=P;reply-parent-msg-body=b;reply-parent-msg-id=m;reply-parent-user-id=3;reply-parent-user-login=parent;reply-thread-parent-msg-id=m;reply-thread-parent-user-login=renamed;room-id=1;tmi-sent-ts=1;user-id=2 :a!a@a.tmi.twitch.tv PRIVMSG #c :x";
  let tmi::Message::Privmsg(m) = tmi::Message::parse(line).unwrap() else { panic!() };
  assert_eq!(m.reply_to().unwrap().thread_parent_user_login(), "renamed");
}
''', "a reply to the first message of a thread whose two parent login tags differ", "the thread parent's login is taken from the wrong tag")

bug("c12-streak", "C12",
  [("src/msg/user_notice.rs", ".and_then(|n| if n > 0 { Some(n) } else { None }),", ".and_then(|n| if n > 1 { Some(n) } else { None }),")],
  '''fn main() {
  let line = "@badge-info=;badges=;color=;display-name=a;emotes=;id=i;login=a;msg-id=resub;msg-param-cumulative-months=2;msg-param-months=0;msg-param-should-share-streak=1;msg-param-streak-months=1;msg-param-sub-plan-name=n;msg-param-sub-plan=1000;room-id=1;system-msg=s;tmi-sent-ts=1;user-id=2 :tmi.twitch.tv USERNOTICE #c :x";
  let tmi::Message::UserNotice(m) = tmi::Message::parse(line).unwrap() else { panic!() };
  let tmi::Event::SubOrResub(e) = m.event() else { panic!() };
  assert_eq!(e.streak_months(), Some(1));
}
''', "a resub whose streak is one month", "the streak is reported as absent")

bug("c12-anon-mystery", "C12",
  [("src/msg/user_notice.rs", 'event_id == "anonsubgift" || sender_id == AN_ANONYMOUS_GIFTER', 'event_id == "anonsubgift" || sender_id == AN_ANONYMOUS_GIFTER || sender_id == message.tag(Tag::MsgParamRecipientId)')],
  '''fn main() {
  let line = "@badge-info=;badges=;color=;display-name=A;emotes=;id=i;login=a;msg-id=subgift;msg-param-gift-months=1;msg-param-months=2;msg-param-recipient-display-name=A;msg-param-recipient-id=2;msg-param-recipient-user-name=a;msg-param-sub-plan-name=n;msg-param-sub-plan=1000;room-id=1;system-msg=s;tmi-sent-ts=1;user-id=2 :tmi.twitch.tv USERNOTICE #c";
  let tmi::Message::UserNotice(m) = tmi::Message::parse(line).unwrap() else { panic!() };
  assert_eq!(m.sender().map(|s| s.id()), Some("2"));
}
''', "a sub gift whose sender and recipient have the same id", "the gift is reported as anonymous")

bug("c13-duration-zero", "C13",
  [("src/msg/clear_chat.rs", "        message.tag(Tag::BanDuration).and_then(parse_duration),", "        message\n          .tag(Tag::BanDuration)\n          .and_then(parse_duration)\n          .filter(|v| !v.is_zero()),")],
  """fn main() {
  let tmi::Message::ClearChat(m) = tmi::Message::parse("@ban-duration=0;room-id=1;target-user-id=2;tmi-sent-ts=1 :tmi.twitch.tv CLEARCHAT #c :x").unwrap() else { panic!() };
  assert!(m.action().is_time_out());
}
""", "a timeout of zero seconds", "a timeout is reported as a permanent ban")

bug("c14-slow-u8", "C14",
  [("src/msg/room_state.rs", """        .tag(Tag::Slow)
        .and_then(|v| v.parse().ok())
        .map(Duration::from_secs),""", """        .tag(Tag::Slow)
        .and_then(|v| v.parse::<u16>().ok())
        .map(|v| Duration::from_secs(v.into())),""")],
  '''fn main() {
  let tmi::Message::RoomState(m) = tmi::Message::parse("@slow=86400;room-id=1 :tmi.twitch.tv ROOMSTATE #c").unwrap() else { panic!() };
  assert_eq!(m.slow(), Some(std::time::Duration::from_secs(86400)));
}
''', "a slow mode of more than 65535 seconds", "the slow mode change is not reported")

bug("c15-whisper-rsplit", "C15",
  [("src/msg/whisper.rs", 'split_once(" :")?', 'rsplit_once(" :")?')],
  '''fn main() {
  let line = "@badges=;color=;display-name=a;emotes=;message-id=1;thread-id=1;turbo=0;user-id=4;user-type= :a!a@a WHISPER b :hi :)";
  let tmi::Message::Whisper(m) = tmi::Message::parse(line).unwrap() else { panic!() };
  assert_eq!((m.recipient(), m.text()), ("b", "hi :)"));
}
''', "a whisper whose text contains ' :'", "part of the text ends up in the recipient")

bug("c17-info-prefix", "C17",
  [("src/msg.rs", ".find(|(needle, _)| *needle == name)", ".find(|(needle, _)| name.starts_with(needle))")],
  '''fn main() {
  let line = "@badge-info=sub/7,sub-gifter/9;badges=sub-gifter/1;color=;display-name=a;emotes=;id=i;room-id=1;tmi-sent-ts=1;user-id=2 :a!a@a.tmi.twitch.tv PRIVMSG #c :x";
  let tmi::Message::Privmsg(m) = tmi::Message::parse(line).unwrap() else { panic!() };
  let b = m.badges().next().unwrap().as_badge_data();
  assert_eq!(b.extra(), Some("9"));
}
''', "a badge-info entry whose name is a prefix of a later badge's name", "the badge gets another badge's detail")

bug("c18-negative-ms", "C18",
  [("src/msg.rs", "  chrono::Utc.timestamp_millis_opt(s.parse().ok()?).single()", "  let ms = s.parse::<i64>().ok()?;\n  chrono::Utc\n    .timestamp_opt(ms / 1000, (ms % 1000).unsigned_abs() as u32 * 1_000_000)\n    .single()")],
  '''fn main() {
  for ts in [-1i64, -1500, -999, 1500, 0] {
    let line = format!("@badge-info=;badges=;color=;display-name=a;emotes=;id=i;room-id=1;tmi-sent-ts={ts};user-id=2 :a!a@a.tmi.twitch.tv PRIVMSG #c :x");
    let tmi::Message::Privmsg(m) = tmi::Message::parse(&line).unwrap() else { panic!() };
    assert_eq!(m.timestamp().timestamp_millis(), ts);
  }
}
''', "a negative timestamp that is not a whole number of seconds", "the milliseconds count in the wrong direction")

bug("c19-action-suffix", "C19",
  [("src/msg.rs", "  let Some(s) = s.strip_suffix('\\u{0001}') else {", "  let Some((s, _)) = s.split_once('\\u{0001}') else {")],
  '''fn main() {
  for (text, want, action) in [("\\u{1}ACTION a\\u{1}b\\u{1}", "a\\u{1}b", true), ("\\u{1}ACTION a\\u{1}b", "\\u{1}ACTION a\\u{1}b", false), ("\\u{1}ACTION a\\u{1}", "a", true)] {
    let line = format!("@badge-info=;badges=;color=;display-name=a;emotes=;id=i;room-id=1;tmi-sent-ts=1;user-id=2 :a!a@a.tmi.twitch.tv PRIVMSG #c :{text}");
    let tmi::Message::Privmsg(m) = tmi::Message::parse(&line).unwrap() else { panic!() };
    assert_eq!((m.text(), m.is_action()), (want, action));
  }
}
''', "an action text with another \\x01 in front of its end", "text after the first \\x01 is lost, and texts not ending in \\x01 are taken for actions")

bug("c20-level-max", "C20",
  [("src/msg/privmsg.rs", "value > PinnedChatLevel::MAX as u8", "value >= PinnedChatLevel::MAX as u8")],
  '''fn main() {
  let l = tmi::PinnedChatLevel::MAX;
  assert_eq!(tmi::PinnedChatLevel::try_from(u8::from(l)), Ok(l));
}
''', "the highest level", "its number does not convert back")

bug("c22-months", "C22",
  [("src/msg.rs", "      months: maybe_clone(self.months),\n      months_n: self.months_n,", "      months_n: self.months.parse().unwrap_or_default(),\n      months: maybe_clone(self.months),")],
  '''fn main() {
  let line = "@badge-info=subscriber/many;badges=subscriber/0;color=;display-name=a;emotes=;id=i;room-id=1;tmi-sent-ts=1;user-id=2 :a!a@a.tmi.twitch.tv PRIVMSG #c :x";
  let tmi::Message::Privmsg(m) = tmi::Message::parse(line).unwrap() else { panic!() };
  let o = m.clone().into_owned();
  assert_eq!(m.badges().next(), o.badges().next());
}
''', "a subscriber badge whose months are not a number", "the owned badge has 0 months, the borrowed one 1")

bug("c21-room-slow", "C21",
  [("src/msg/room_state.rs", "  slow: Option<Duration>,\n", "  #[cfg_attr(\n    feature = \"serde\",\n    serde(default, skip_serializing_if = \"no_delay\")\n  )]\n  slow: Option<Duration>,\n"),
   ("src/msg/room_state.rs", "/// Followers-only mode configuration.\n", "#[cfg(feature = \"serde\")]\nfn no_delay(slow: &Option<Duration>) -> bool {\n  slow.map_or(true, |v| v.is_zero())\n}\n\n/// Followers-only mode configuration.\n")],
  '''fn main() {
  for slow in [0, 1, 30] {
    let line = format!("@emote-only=1;room-id=1;slow={slow} :tmi.twitch.tv ROOMSTATE #c");
    let tmi::Message::RoomState(m) = tmi::Message::parse(&line).unwrap() else { panic!() };
    let json = serde_json::to_string(&m).unwrap();
    let n: tmi::RoomState = serde_json::from_str(&json).unwrap();
    assert_eq!(m, n);
  }
}
''', "a room state that turns slow mode off, without the other settings", "serialising loses the change of the slow mode", features=["message-types", "simd", "serde"], deps='serde_json = "1"')

bug("c10-userstate-dispatch", "C10",
  [("src/msg.rs", "      C::ClearMsg => ClearMsg::from_irc(message)?.into(),", "      C::ClearMsg => match ClearMsg::from_irc(message.clone()) {\n        Ok(v) => v.into(),\n        Err(_) => Message::Other(message),\n      },")],
  '''fn main() {
  let r = tmi::Message::parse("@room-id=;target-msg-id=x;tmi-sent-ts=1 :tmi.twitch.tv CLEARMSG #c :x");
  assert!(r.is_err(), "{r:?}");
}
''', "a CLEARMSG line without its login tag", "a line that cannot be converted is passed through instead of being an error")

bug("c04-scalar-empty-tags", "C04",
  [("src/irc/tags/scalar.rs", "      b';' => {\n        if let State::Value { key_start, key_end } = state {", "      b';' => {\n        if let State::Key { .. } = state {\n          state = State::Key {\n            key_start: offset + 1,\n          };\n        }\n        if let State::Value { key_start, key_end } = state {")],
  '''fn main() {
  let line = "@turbo;mod=1 PING";
  let m = tmi::IrcMessageRef::parse(line).unwrap();
  let tags: Vec<_> = m.tags().collect();
  // what every other configuration reports
  assert_eq!(tags, [("turbo;mod", "1")]);
}
''', "a tag without '=' in front of another tag, in a build without the simd feature", "the scalar parser reports other tags than the SIMD parsers", features=["message-types"])

bug("c05-tag-parse-swap", "C05",
  [("src/irc/tags.rs", 'b"sent-ts"; "sent-ts" = SentTs', 'b"rm-sent-ts"; "sent-ts" = SentTs')],
  '''fn main() {
  for k in ["sent-ts", "rm-sent-ts", "tmi-sent-ts"] { assert_eq!(tmi::Tag::parse(k).as_str(), k); }
}
''', "a lookup of the sent-ts or rm-sent-ts tag", "a tag name does not survive the conversion to Tag and back")

bug("c16-part-user", "C16",
  [("src/msg/part.rs", "        .and_then(|prefix| prefix.nick)", "        .and_then(|prefix| prefix.user.or(prefix.nick))")],
  """fn main() {
  let tmi::Message::Part(m) = tmi::Message::parse(":nick!user@host PART #c").unwrap() else { panic!() };
  assert_eq!(m.user(), "nick");
}
""", "a prefix whose nick and user differ", "the PART message reports the wrong user")
bug("c16-notice-id", "C16",
  [("src/msg/notice.rs", "      channel: message.channel().map(Cow::Borrowed),", "      channel: message.channel().filter(|v| v.len() > 1).map(Cow::Borrowed),")],
  """fn main() {
  let tmi::Message::Notice(m) = tmi::Message::parse(":tmi.twitch.tv NOTICE # :x").unwrap() else { panic!() };
  assert_eq!(m.channel(), Some("#"));
}
""", "a channel that is only a '#'", "the notice reports no channel")
