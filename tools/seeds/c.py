import runpy
_b = runpy.run_path("/verif/tools/seeds/b.py")
bug, client, BUGS = _b["bug"], _b["client"], _b["BUGS"]
BUGS.clear()
W = "src/client/write.rs"; C = "src/client.rs"; R = "src/client/read.rs"; N = "src/client/conn.rs"

client("c32-bad-cert", "C32",
  [(N, "      root_store.add(&rustls::Certificate(cert.0))?;", "      if root_store.add(&rustls::Certificate(cert.0)).is_err() && root_store.is_empty() {\n        return Err(rustls::Error::General(\"no usable certificate\".into()).into());\n      }")],
  '''fn main() {
  serve(move |_, s| { if let Some(s) = s { welcome(s); } true });
  // the store: a usable certificate and one which is none
  let dir = std::path::PathBuf::from(std::env::var("KIT").unwrap());
  let mut pem = std::fs::read_to_string(dir.join("ca.pem")).unwrap();
  pem.push_str("\\n-----BEGIN CERTIFICATE-----\\nAAAA\\n-----END CERTIFICATE-----\\n");
  let store = std::path::PathBuf::from("store.pem");
  std::fs::write(&store, pem).unwrap();
  std::env::set_var("SSL_CERT_FILE", &store);
  run(async {
    assert!(matches!(tmi::Client::anonymous().await, Err(tmi::client::ConnectError::Tls(_))));
  });
}
''', "a certificate store with a usable certificate in front of one that is not", "the unusable certificate is skipped and the client connects")

client("c32-other-port", "C32",
  [(N, "        TcpStream::connect((HOST, PORT)).await?,", "        match TcpStream::connect((HOST, PORT)).await {\n          Err(e) if e.kind() == io::ErrorKind::ConnectionRefused => TcpStream::connect((HOST, PORT + 1)).await?,\n          stream => stream?,\n        },")],
  '''fn main() {
  let other = std::net::TcpListener::bind("127.0.0.1:6698").unwrap();
  other.set_nonblocking(true).unwrap();
  run(async {
    assert!(tmi::Client::anonymous().await.is_err());
  });
  assert!(other.accept().is_err(), "connected to another port");
}
''', "a refused connection", "the client tries another port")

client("c33-timeout-backoff", "C33",
  [(C, "    self.config.backoff = backoff;\n    self", "    self.config.timeout = self.config.timeout.min(backoff.max_delay.max(DEFAULT_TIMEOUT));\n    self.config.backoff = backoff;\n    self")],
  '''fn main() {
  serve(move |_, s| { if let Some(s) = s { welcome(s); } true });
  run(async {
    let c = tmi::Client::builder().timeout(Duration::from_secs(40)).backoff(Default::default()).connect().await.unwrap();
    assert_eq!(c.config().timeout, Duration::from_secs(40));
  });
}
''', "a timeout over 30 seconds set before the backoff", "the timeout is cut to 30 seconds")

client("c33-anon-relogin", "C33",
  [(C, "      tokio::time::sleep(delay).await;\n", "      tokio::time::sleep(delay).await;\n      if self.config.credentials.is_anon() {\n        self.config.credentials = Credentials::anon();\n      }\n")],
  '''fn main() {
  let (tx, rx) = std::sync::mpsc::channel();
  serve(move |n, s| { if let Some(s) = s { tx.send(welcome(s)[2].clone()).unwrap(); if n == 0 { let _ = line(s); } } true });
  run(async {
    let mut c = tmi::Client::builder().backoff(tmi::client::Backoff { max_tries: Some(1), initial_delay: Duration::ZERO, delay_multiplier: 1, max_delay: Duration::ZERO }).connect().await.unwrap();
    let _ = c.ping("x").await;
    let login = c.credentials().login().to_string();
    c.reconnect().await.unwrap();
    assert_eq!(c.credentials().login(), login);
  });
  assert_eq!(rx.recv().unwrap(), rx.recv().unwrap());
}
''', "a reconnect of an anonymous client", "it logs in under another name")

client("c26-parse-rest", "C26",
  [(R, "Ok(IrcMessage::parse(&message).ok_or(RecvError::Parse(message))?)", "Ok(IrcMessage::parse(&message).ok_or_else(|| RecvError::Parse(message.trim_end().to_string()))?)")],
  '''fn main() {
  serve(move |_, s| { if let Some(s) = s { welcome(s); say(s, ":abc  \\r\\n"); let _ = line(s); } true });
  run(async {
    let mut c = tmi::Client::anonymous().await.unwrap();
    match c.recv().await {
      Err(tmi::client::read::RecvError::Parse(l)) => assert_eq!(l, ":abc  "),
      r => panic!("{r:?}"),
    }
    let _ = c.ping("x").await;
  });
}
''', "a line that is not a message and ends in white space", "the error does not carry the line as it was")

client("c26-os-error", "C26",
  [(R, "        if matches!(\n          e.kind(),", "        if e.get_ref().is_none() && matches!(\n          e.kind(),")],
  '''fn main() {
  let e = tmi::client::read::RecvError::Io(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "peer closed connection without sending TLS close_notify"));
  assert!(e.is_disconnect());
}
''', "a TLS connection that ends without a close notification", "the error carries a reason, and does not count as a disconnect")

client("c31-open-reconnect", "C31",
  [(C, "      let stream = match conn::open(self.tls.clone()).timeout(timeout).await? {", "      let stream = match conn::open(self.tls.clone()).timeout(timeout.saturating_sub(delay)).await? {")],
  '''fn main() {
  serve(move |n, s| { if let Some(s) = s { if n == 1 { } welcome(s); let _ = line(s); } else if n == 1 { std::thread::sleep(Duration::from_millis(1500)); } true });
  run(async {
    let mut c = tmi::Client::builder().timeout(Duration::from_secs(4)).backoff(tmi::client::Backoff { max_tries: Some(1), initial_delay: Duration::from_secs(1), delay_multiplier: 3, max_delay: Duration::from_secs(3) }).connect().await.unwrap();
    let _ = c.ping("x").await;
    c.reconnect().await.unwrap();
  });
}
''', "a slow connection attempt in a reconnect with a long delay", "the attempt is cut short")

client("c24-reply-nonce", "C24",
  [(W, "          .chain(client_nonce.iter())", "          .chain(client_nonce.iter().filter(|nonce| reply_parent_msg_id.as_ref().map_or(true, |id| id.value != nonce.value)))")],
  '''fn main() {
  let (tx, rx) = std::sync::mpsc::channel();
  serve(move |_, s| { if let Some(s) = s { welcome(s); tx.send(line(s)).unwrap(); } true });
  run(async {
    let mut c = tmi::Client::anonymous().await.unwrap();
    c.privmsg("#a", "b").reply_to("x").client_nonce("x").send().await.unwrap();
  });
  assert_eq!(rx.recv().unwrap(), "@reply-parent-msg-id=x;client-nonce=x PRIVMSG #a :b\\r\\n");
}
''', "a reply whose nonce equals the id of the message replied to", "the nonce is left out")

bug("c01-debug-empty", "C01",
  [("src/irc.rs", "    let mut list = f.debug_list();\n    for item in self.0.borrow_mut().deref_mut() {", "    let mut list = f.debug_list();\n    let mut items = self.0.borrow_mut();\n    let items = items.deref_mut();\n    let capacity = 127 - items.size_hint().0;\n    let _ = capacity;\n    for item in items {")],
  '''fn main() {
  let line = format!("@{} PING", vec!["a=b"; 128].join(";"));
  let m = tmi::IrcMessageRef::parse(&line).unwrap();
  assert!(std::panic::catch_unwind(|| format!("{m:?}")).is_ok());
}
''', "a line of 128 or more tags printed for debugging", "printing it panics")

bug("c08-far-space", "C08",
  [("src/irc/prefix.rs", "  for i in start..bytes.len() {", "  for i in start..bytes.len().min(start + 255) {")],
  '''fn main() {
  let host = "h".repeat(300);
  let line = format!(":n!u@{host} PING");
  let m = tmi::IrcMessageRef::parse(&line).unwrap();
  assert_eq!(m.prefix().unwrap().host, host);
}
''', "a prefix of more than 255 characters", "it is not recognised")

bug("c13-long-timeout", "C13",
  [("src/msg/clear_chat.rs", "message.tag(Tag::BanDuration).and_then(parse_duration),", "message.tag(Tag::BanDuration).and_then(parse_duration).filter(|d| d.as_millis() <= i64::MAX as u128 / 1000),")],
  '''fn main() {
  let tmi::Message::ClearChat(m) = tmi::Message::parse("@ban-duration=18446744073709551;room-id=1;target-user-id=2;tmi-sent-ts=3 :h CLEARCHAT #c :x").unwrap() else { panic!() };
  assert!(m.action().is_time_out());
}
''', "a timeout of more than 9223372036854775 seconds", "it is reported as a ban")

bug("c12-promo-zero", "C12",
  [("src/msg/user_notice.rs", "    (Some(total_gifts), Some(promo_name)) => Some(SubGiftPromo {", "    (Some(total_gifts), Some(promo_name)) if total_gifts > 0 => Some(SubGiftPromo {")],
  '''fn main() {
  let line = "@badge-info=;badges=;display-name=A;id=1;login=a;msg-id=giftpaidupgrade;msg-param-promo-gift-total=0;msg-param-promo-name=P;msg-param-sender-login=b;msg-param-sender-name=B;room-id=1;system-msg=x;tmi-sent-ts=1;user-id=2 :h USERNOTICE #c";
  let tmi::Message::UserNotice(m) = tmi::Message::parse(line).unwrap() else { panic!() };
  let tmi::Event::GiftPaidUpgrade(e) = m.event() else { panic!() };
  assert_eq!(e.promotion().unwrap().promo_name(), "P");
}
''', "a promotion with no gifts so far", "the promotion is not reported")
