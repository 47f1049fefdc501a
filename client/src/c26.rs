//! C26: received messages.
use crate::sym::*;
use crate::world::*;
use tmi::client::read::RecvError;
use tmi::IrcMessage;

/// What one receive has to report.
enum Want {
  Message(String),
  NoMessage(String),
  /// Bytes which are not UTF-8.
  Text,
}

/// The lines of a stream: (line, rest). `None`: the stream ends.
fn line(input: &[u8], eof: bool) -> Option<(Want, usize)> {
  let mut end = 0;
  while end < input.len() && input[end] != b'\n' {
    end += 1;
  }
  let next = if end < input.len() {
    end + 1
  } else if eof && end > 0 {
    end
  } else {
    return None;
  };
  let terminated = next > end;
  let stop = if terminated && end > 0 && input[end - 1] == b'\r' { end - 1 } else { end };
  let w = match std::str::from_utf8(&input[..stop]) {
    Err(_) => Want::Text,
    Ok(s) => match IrcMessage::parse(s) {
      Some(_) => Want::Message(s.to_string()),
      None => Want::NoMessage(s.to_string()),
    },
  };
  Some((w, next))
}

fn expect(got: Option<Result<IrcMessage, RecvError>>, want: &Want) {
  match (got, want) {
    (Some(Ok(m)), Want::Message(s)) => {
      check_str(m.raw(), s, 1);
      observe(m.raw().as_bytes());
      reach(1);
    }
    (Some(Err(RecvError::Parse(l))), Want::NoMessage(s)) => {
      check_str(&l, s, 2);
      reach(2);
    }
    (Some(Err(RecvError::Io(_))), Want::Text) => reach(3),
    _ => fail(3),
  }
}

/// Receives everything `input` has, then what comes `after`.
fn all(c: &mut tmi::Client, input: &[u8], polls: usize) {
  let end = conn().a.end;
  let mut at = 0;
  while let Some((w, n)) = line(&input[at..], end == Step::Ok) {
    at += n;
    // a receive given up before it is done loses nothing
    let mut got = None;
    for _ in 0..10 {
      let f = std::pin::pin!(c.recv());
      got = poll(f, polls);
      if got.is_some() || polls == usize::MAX {
        break;
      }
    }
    expect(got, &w);
  }
  // (what a receive after a read error does is not specified)
  for _ in 0..if end == Step::Err { 1 } else { 2 } {
    let f = std::pin::pin!(c.recv());
    match (poll(f, 200), end) {
      (Some(Err(e @ RecvError::StreamClosed)), Step::Ok) => {
        check(e.is_disconnect(), 4);
        reach(4);
      }
      (Some(Err(RecvError::Io(e))), Step::Err) => {
        check(e.kind() == std::io::ErrorKind::ConnectionReset, 5);
        reach(5);
      }
      (None, Step::Stall) => reach(6),
      _ => fail(6),
    }
  }
}

fn cuts(n: usize, count: usize) {
  let a = &mut conn().a;
  let base = a.input.len();
  a.cuts.clear();
  let mut from = 0;
  for _ in 0..count {
    if from > n {
      break;
    }
    let c = from + choice(n + 1 - from);
    a.cuts.push(base + c);
    from = c + 1;
  }
  if count > 0 {
    a.slow = flag();
  }
}

/// Any bytes.
#[no_mangle]
pub extern "C" fn c26_bytes() {
  let mut c = client(Attempt::new());
  conn().a.end = pick(&[Step::Ok, Step::Err, Step::Stall]);
  let n = choice(by(6, 7));
  let mut b = vec![0; n];
  fill(&mut b);
  cuts(n, by(1, 2));
  conn().a.input.extend_from_slice(&b);
  all(&mut c, &b, usize::MAX);
}

const LINES: [&str; 4] = [
  "@id=1;msg=a\\sb :x!y@z.tmi.twitch.tv PRIVMSG #chan :hello w\u{f6}rld",
  ":tmi.twitch.tv",
  "PING",
  "",
];

/// Lines of any kind, with a cut (two) anywhere.
#[no_mangle]
pub extern "C" fn c26_lines() {
  let mut c = client(Attempt::new());
  conn().a.end = pick(&[Step::Ok, Step::Err, Step::Stall]);
  let n = 1 + choice(by(2, 3));
  let mut b = Vec::new();
  for i in 0..n {
    let l = choice(LINES.len());
    b.extend_from_slice(LINES[l].as_bytes());
    if i == 0 && (l == 0 || THOROUGH) {
      // any byte in or after the line
      b.push(0);
      let at = b.len() - 1;
      fill(&mut b[at..]);
    }
    // the last line may lack its end
    let k = if i + 1 == n { 3 } else { 2 };
    b.extend_from_slice([&b"\r\n"[..], b"\n", b""][choice(k)]);
  }
  cuts(b.len(), if n == 1 { 2 } else { 1 });
  conn().a.input.extend_from_slice(&b);
  all(&mut c, &b, usize::MAX);
}

/// A symbolic byte anywhere in two lines, receives given up in between.
#[no_mangle]
pub extern "C" fn c26_dropped() {
  let mut c = client(Attempt::new());
  conn().a.end = pick(&[Step::Ok, Step::Err, Step::Stall]);
  let mut b = b":a!b@c PRIVMSG #d :e\r\nPING :\xc3\xb6\r\n".to_vec();
  let at = choice(b.len());
  if flag() {
    fill(&mut b[at..at + 1]);
  } else {
    b.insert(at, 0);
    fill(&mut b[at..at + 1]);
  }
  let n = b.len();
  let polls = pick(&[1, 2]);
  let a = &mut conn().a;
  let base = a.input.len();
  a.slow = true;
  a.cuts.clear();
  match choice(3) {
    // byte by byte at the end or in the middle
    0 => a.cuts.extend([0, 5, 19, 20, 21, n - 2, n - 1].map(|p| base + p)),
    1 => a.cuts.extend([0, 20, 22, 24].map(|p| base + p)),
    _ => a.cuts.extend([base + at, base + at + 1]),
  }
  a.input.extend_from_slice(&b);
  all(&mut c, &b, polls);
}

/// Lines around and beyond the size of the read buffer.
#[no_mangle]
pub extern "C" fn c26_long() {
  let mut c = client(Attempt::new());
  conn().a.end = pick(&[Step::Ok, Step::Err, Step::Stall]);
  let len = pick(&[8180, 8189, 8190, 8191, 8192, 8193, 16384, 20000]);
  let mut b = b"PRIVMSG #c :".to_vec();
  b.resize(len, b'x');
  let mut s = [0u8; 2];
  fill(&mut s);
  b.extend_from_slice(&s);
  b.extend_from_slice(b"\r\nPING :y\r\n");
  let a = &mut conn().a;
  let base = a.input.len();
  a.cuts.clear();
  if flag() {
    a.cuts.push(base + 4000);
  }
  a.slow = flag();
  a.input.extend_from_slice(&b);
  all(&mut c, &b, usize::MAX);
}

/// Receives between other operations, whether those succeed or not.
#[no_mangle]
pub extern "C" fn c26_between() {
  let mut c = client(Attempt::new());
  let a = &mut conn().a;
  let base = a.input.len();
  a.end = pick(&[Step::Ok, Step::Stall]);
  a.slow = flag();
  let mut b = b":a!b@c PRIVMSG #d :e".to_vec();
  let at = b.len();
  b.resize(at + by(1, 2), 0);
  fill(&mut b[at..]);
  b.extend_from_slice(b"\r\n");
  let first = b.len();
  b.extend_from_slice(b"PING :y\r\n\nPONG\n");
  a.cuts.clear();
  // the reads end anywhere
  a.cuts.push(base + if THOROUGH { choice(first + 9) } else { pick(&[0, first - 2, first - 1, first, first + 4]) });
  if flag() {
    a.cuts.push(base + first + pick(&[3, 6]));
  }
  a.cuts.sort();
  a.cuts.dedup();
  if flag() {
    conn().a.write_limit = conn().accepted.len() + choice(by(2, 4));
    conn().a.write_end = pick(&[Step::Err, Step::Stall]);
  }
  conn().a.input.extend_from_slice(&b);
  let mut at = 0;
  let end = conn().a.end;
  let (op, when) = (1 + choice(3), choice(by(5, 16)));
  let mut k = 0;
  while let Some((w, n)) = line(&b[at..], end == Step::Ok) {
    at += n;
    // before every receive (0), one of them, or some of them
    let now = if when < 5 { (when == 0) | (when == k + 1) } else { (when >> k) & 1 == 1 };
    k += 1;
    match if now { op } else { 0 } {
      0 => {}
      1 => {
        let f = std::pin::pin!(c.join("x"));
        poll(f, 3);
      }
      2 => {
        let f = std::pin::pin!(c.privmsg("#x", "y").client_nonce("z").send());
        poll(f, 3);
      }
      _ => {
        let f = std::pin::pin!(c.send_raw("PING\r"));
        poll(f, 3);
      }
    }
    let f = std::pin::pin!(c.recv());
    expect(poll(f, 200), &w);
  }
  let f = std::pin::pin!(c.recv());
  match (poll(f, 200), end) {
    (Some(Err(RecvError::StreamClosed)), Step::Ok) => reach(7),
    (None, Step::Stall) => reach(8),
    _ => fail(11),
  }
}

/// What is left of one connection does not show up on the next.
#[no_mangle]
pub extern "C" fn c26_reconnect() {
  let mut c = client(Attempt::new());
  let a = &mut conn().a;
  let base = a.input.len();
  a.end = pick(&[Step::Ok, Step::Err, Step::Stall]);
  let mut b = b"PING :1\r\nPING :2\nPRI".to_vec();
  let at = if THOROUGH { choice(b.len()) } else { pick(&[0, 8, 16, 18]) };
  fill(&mut b[at..at + 1]);
  a.cuts.clear();
  a.cuts.push(base + if THOROUGH { choice(b.len()) } else { pick(&[0, 4, 9, 16]) });
  a.slow = flag();
  a.input.extend_from_slice(&b);
  // some are received, or the receive is given up
  let (n, polls) = pick(&[(0, 0), (1, 200), (2, 200), (3, 200), (1, 1), (2, 1), (3, 1)]);
  for _ in 0..n {
    let f = std::pin::pin!(c.recv());
    match poll(f, polls) {
      None | Some(Ok(_) | Err(RecvError::Parse(_))) => {}
      // (nothing is specified after a read error)
      Some(Err(_)) => break,
    }
  }
  let mut a = Attempt::new();
  a.end = pick(&[Step::Ok, Step::Stall]);
  a.input = WELCOME.as_bytes().to_vec();
  a.cuts = vec![WELCOME.len()];
  w().plan.push(a);
  if !matches!(run(c.reconnect()), Some(Ok(()))) {
    fail(12);
    return;
  }
  let mut b = b"VMSG #a :b\r\n".to_vec();
  let at = if THOROUGH { choice(b.len()) } else { 0 };
  fill(&mut b[at..at + 1]);
  b.extend_from_slice(b"PING :3\r\n");
  cuts(b.len(), by(0, 1));
  conn().a.input.extend_from_slice(&b);
  reach(9);
  all(&mut c, &b, usize::MAX);
}

/// What counts as a disconnect.
#[no_mangle]
pub extern "C" fn c26_disconnect() {
  check(RecvError::StreamClosed.is_disconnect(), 7);
  check(!RecvError::Parse(String::new()).is_disconnect(), 8);
  use std::io::ErrorKind::*;
  let k = pick(&[UnexpectedEof, ConnectionAborted, ConnectionReset, TimedOut]);
  let e = match choice(3) {
    0 => k.into(),
    1 => std::io::Error::new(k, "reason"),
    _ => std::io::Error::from_raw_os_error(pick(&[103, 104, 110])),
  };
  check(RecvError::Io(e).is_disconnect(), 9);
  check(!RecvError::Io(InvalidData.into()).is_disconnect(), 10);
  check(!RecvError::Io(std::io::Error::new(InvalidData, "reason")).is_disconnect(), 10);
}
