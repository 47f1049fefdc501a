//! C27: the handshake.
use crate::sym::*;
use crate::world::*;
use tmi::client::read::RecvError;
use tmi::client::{Client, ConnectError};
use tmi::Credentials;

/// Any character of a login or token: no line breaks.
fn arg(b: u8) -> bool {
  (b < 0x80) & (b != b'\r') & (b != b'\n')
}
fn upper(b: u8) -> bool {
  (b >= b'A') & (b <= b'Z')
}

/// What connecting has to end in.
enum Want {
  Ok,
  Auth,
  Notice(String),
  Welcome(String),
  Parse(String),
  Io,
  Closed,
  Timeout,
}

fn verdict(r: &Option<Result<(), ConnectError>>, want: &Want) {
  match (r, want) {
    (Some(Ok(())), Want::Ok) => reach(1),
    (Some(Err(ConnectError::Auth)), Want::Auth) => reach(2),
    (Some(Err(ConnectError::Notice(m))), Want::Notice(s)) => {
      check_str(m.raw(), s, 1);
      reach(3);
    }
    (Some(Err(ConnectError::Welcome(m))), Want::Welcome(s)) => {
      check_str(m.raw(), s, 2);
      reach(4);
    }
    (Some(Err(ConnectError::Read(RecvError::Parse(l)))), Want::Parse(s)) => {
      check_str(l, s, 3);
      reach(5);
    }
    (Some(Err(ConnectError::Read(RecvError::Io(_)))), Want::Io) => reach(6),
    (Some(Err(ConnectError::Read(RecvError::StreamClosed))), Want::Closed) => reach(7),
    (Some(Err(ConnectError::Timeout)), Want::Timeout) => reach(8),
    _ => fail(4),
  }
}

fn lines(login: &str, token: Option<&str>) -> String {
  let mut s = HELLO.to_string();
  s.push_str("PASS ");
  match token {
    None => s.push_str("oauth:just_a_lil_guy"),
    Some(t) => {
      if !t.starts_with("oauth:") {
        s.push_str("oauth:");
      }
      s.push_str(t);
    }
  }
  s.push_str("\r\nNICK ");
  s.push_str(login);
  s.push_str("\r\n");
  s
}

fn connect(c: Credentials) -> Option<Result<Client, ConnectError>> {
  run(Client::builder().credentials(c).connect())
}

/// Any login and token.
#[no_mangle]
pub extern "C" fn c27_credentials() {
  reset();
  let mut l = L::new();
  let mut token = None;
  let mut login = 0..0;
  let anon = flag();
  if !anon {
    login = l.hole_u(0, by(3, 6), arg);
    let st = l.len();
    match choice(5) {
      0 => {
        l.hole_u(0, by(5, 7), arg);
      }
      1 => {
        l.sym(8, arg);
      }
      2 => {
        l.s("oauth:");
        l.hole(0, 3, arg);
      }
      3 => {
        l.s("oauth:oauth:");
        l.hole(0, 1, arg);
      }
      _ => {
        l.s("oauth");
        l.sym(2, arg);
      }
    }
    token = Some(st..l.len());
  }
  let cred = match &token {
    None => Credentials::anon(),
    Some(t) => Credentials::new(l.get(&login), l.get(t)),
  };
  let want = lines(if anon { cred.login() } else { l.get(&login) }, token.as_ref().map(|t| l.get(t)));
  let mut a = Attempt::new();
  a.input = WELCOME.as_bytes().to_vec();
  a.buffered = flag();
  if flag() {
    a.write_max = 9;
    a.write_slow = true;
  }
  w().plan.push(a);
  check(matches!(connect(cred), Some(Ok(_))), 10);
  check(w().attempts == 1, 11);
  let out = std::str::from_utf8(conn().out()).unwrap();
  observe(out.as_bytes());
  check_str(out, &want, 12);
  reach(20);
}

/// One answer of the server: its bytes and what it leads to; `None`: go on.
fn first(l: &mut L) -> Option<Want> {
  let st = l.len();
  let mut ack = false;
  let mut cap = true;
  match choice(8) {
    0 => {
      l.s(":tmi.twitch.tv CAP * ACK :twitch.tv/commands twitch.tv/tags twitch.tv/membership");
      ack = true;
    }
    1 => {
      l.s(":tmi.twitch.tv CAP * ");
      let r = l.sym(3, upper);
      l.pick(&[" :twitch.tv/commands", " :no * ACK", " * ACK :x", "", " "]);
      ack = l.get(&r) == "ACK";
    }
    2 => {
      l.s("CAP ");
      l.hole(0, 3, |b| upper(b) | (b == b' '));
    }
    3 => {
      l.s(":tmi.twitch.tv CAP");
    }
    4 => {
      l.s(":tmi.twitch.tv ");
      l.pick(&["001", "PING", "RECONNECT", "CAPX", "372", "NOTICE"]);
      l.s(" * ACK :");
      l.hole(0, 1, cl::ascii_line);
      cap = false;
    }
    5 => {
      l.sym(3, |b| (b > b' ') & (b < 0x7f) & (b != b'@') & (b != b':'));
      l.s(" * ACK :twitch.tv/commands");
      cap = l.get(&(st..st + 3)) == "CAP";
      ack = cap;
    }
    6 => {
      l.s("@a=b ");
      let s = l.get(&(st..l.len())).to_string();
      l.s("\r\n");
      return Some(Want::Parse(s));
    }
    _ => {
      return Some(match choice(3) {
        0 => {
          conn_end(Step::Err);
          Want::Io
        }
        1 => {
          conn_end(Step::Ok);
          Want::Closed
        }
        _ => {
          // half a line
          if flag() {
            l.s(":tmi.twitch.tv CAP * ");
          }
          conn_end(Step::Stall);
          Want::Timeout
        }
      });
    }
  }
  let s = l.get(&(st..l.len())).to_string();
  l.s("\r\n");
  match (cap, ack) {
    (true, true) => None,
    (true, false) => Some(Want::Auth),
    _ => Some(Want::Welcome(s)),
  }
}

fn second(l: &mut L) -> Want {
  let st = l.len();
  let text = "authentication failed";
  let w = match choice(9) {
    0 => {
      l.s(":tmi.twitch.tv 001 name :Welcome, GLHF!");
      Want::Ok
    }
    1 => {
      let r = l.sym(3, |b| (b > b' ') & (b < 0x7f) & (b != b'@') & (b != b':'));
      l.s(" name :Welcome");
      if l.get(&r) == "001" {
        Want::Ok
      } else {
        Want::Welcome(String::new())
      }
    }
    2 => {
      l.s("@msg-id=x :tmi.twitch.tv NOTICE * :");
      l.hole(0, 1, cl::ascii_line);
      l.s(text);
      l.hole(0, 1, cl::ascii_line);
      Want::Auth
    }
    3 => {
      // one character of it replaced
      l.s(":tmi.twitch.tv NOTICE * :Login ");
      let at = choice(text.len());
      l.s(&text[..at]);
      let r = l.sym(1, cl::ascii_line);
      let hit = l.get(&r) == &text[at..at + 1];
      l.s(&text[at + 1..]);
      if hit {
        Want::Auth
      } else {
        Want::Notice(String::new())
      }
    }
    4 => {
      l.s(":tmi.twitch.tv NOTICE * :");
      l.pick(&["Improperly formatted auth", "Login unsuccessful", "authentication", ""]);
      Want::Notice(String::new())
    }
    5 => {
      l.s("NOTICE");
      Want::Notice(String::new())
    }
    6 => {
      l.s(":tmi.twitch.tv ");
      l.pick(&["CAP", "PING", "RECONNECT", "PRIVMSG", "002", "0012"]);
      l.s(" name :authentication failed");
      l.hole(0, 1, cl::ascii_line);
      Want::Welcome(String::new())
    }
    7 => {
      l.s("@a=b ");
      let s = l.get(&(st..l.len())).to_string();
      l.s("\r\n");
      return Want::Parse(s);
    }
    _ => {
      return match choice(3) {
        0 => {
          conn_end(Step::Err);
          Want::Io
        }
        1 => {
          conn_end(Step::Ok);
          Want::Closed
        }
        _ => {
          if flag() {
            l.s(":tmi.twitch.tv 001 name");
          }
          conn_end(Step::Stall);
          Want::Timeout
        }
      };
    }
  };
  let s = l.get(&(st..l.len())).to_string();
  l.s("\r\n");
  match w {
    Want::Welcome(_) => Want::Welcome(s),
    Want::Notice(_) => Want::Notice(s),
    w => w,
  }
}

static mut END: Step = Step::Stall;
fn conn_end(s: Step) {
  unsafe { END = s }
}

/// Any answers of the server.
#[no_mangle]
pub extern "C" fn c27_answers() {
  reset();
  conn_end(Step::Stall);
  let mut l = L::new();
  let want = match first(&mut l) {
    Some(w) => w,
    None => second(&mut l),
  };
  let mut rest = 0..0;
  if matches!(want, Want::Ok) {
    let st = l.s(":a!b@c PRIVMSG #d :").start;
    l.hole(0, 1, cl::ascii_line);
    rest = st..l.len();
    l.s("\r\n");
  }
  let mut a = Attempt::new();
  a.input = l.str().as_bytes().to_vec();
  a.end = unsafe { END };
  match choice(3) {
    0 => {}
    1 => a.slow = true,
    _ => {
      a.cuts = [1, 20, 22, 60, 86, 87].to_vec();
      a.slow = flag();
    }
  }
  w().plan.push(a);
  let r = connect(Credentials::new("name", "token"));
  check(conn().out() == lines("name", Some("token")).as_bytes(), 13);
  let (r, c) = match r {
    Some(Ok(c)) => (Some(Ok(())), Some(c)),
    Some(Err(e)) => (Some(Err(e)), None),
    None => (None, None),
  };
  verdict(&r, &want);
  // what follows is received
  if let (Some(mut c), Want::Ok) = (c, &want) {
    match run(c.recv()) {
      Some(Ok(m)) => check_str(m.raw(), l.get(&rest), 14),
      _ => fail(15),
    }
  }
}

fn same_bytes(a: &[u8], b: &[u8]) -> bool {
  let mut r = a.len() == b.len();
  for k in 0..a.len().min(b.len()) {
    r &= a[k] == b[k];
  }
  r
}

/// The lines of each attempt, whatever happened before.
#[no_mangle]
pub extern "C" fn c27_again() {
  let anon = flag();
  let mut l = L::new();
  let login = l.sym(2, arg);
  let token = l.sym(8, arg);
  let (login, token) = (l.get(&login), l.get(&token));
  let mut c = client_with(Attempt::new(), |b| {
    let b = b.backoff(tmi::client::Backoff {
      max_tries: Some(3),
      initial_delay: std::time::Duration::from_secs(1),
      delay_multiplier: 2,
      max_delay: std::time::Duration::from_secs(100),
    });
    if anon {
      b.credentials(Credentials::anon())
    } else {
      b.credentials(Credentials::new(login, token))
    }
  });
  let want = if anon { lines(c.credentials().login(), None) } else { lines(login, Some(token)) };
  // an operation before: done, failed or given up
  match choice(4) {
    0 => {}
    1 => {
      run(c.privmsg("#c", "text").send());
    }
    2 => {
      conn().a.write_limit = 5;
      conn().a.write_end = Step::Err;
      run(c.privmsg("#c", "text").send());
    }
    _ => {
      conn().a.write_limit = 5;
      conn().a.write_end = Step::Stall;
      let f = std::pin::pin!(c.privmsg("#c", "text").send());
      poll(f, 1);
    }
  }
  // attempts which fail while they are being made
  let n = choice(by(3, 4));
  let conns = w().conns.len();
  let mut made = 0;
  let mut sent = Vec::new();
  for i in 0..n {
    let mut a = Attempt::new();
    a.input = WELCOME.as_bytes().to_vec();
    let mut full = 0;
    match choice(6) {
      0 => {
        a.connect = Step::Err;
        full = 2;
      }
      1 => {
        a.tls = Step::Err;
        full = 3;
      }
      2 => {
        a.write_limit = if THOROUGH && n < 2 { choice(want.len()) } else { pick(&[0, 1, 65, 66, 69, want.len() - 1]) };
        a.write_end = pick(&[Step::Err, Step::Ok, Step::Stall]);
      }
      3 => {
        a.flush = pick(&[Step::Err, Step::Stall]);
        a.buffered = flag();
      }
      4 => {
        // refused or cut off
        a.input = pick(&["CAP * NAK\r\n", ":x CAP * ACK :y\r\nNOTICE * :authentication failed\r\n", "PING\r\n", ""])
          .as_bytes()
          .to_vec();
        a.end = pick(&[Step::Ok, Step::Err, Step::Stall]);
        full = 1;
      }
      _ => {
        a.write_max = pick(&[1, 10]);
        a.write_slow = flag();
        a.buffered = flag();
        full = 1;
      }
    }
    if full != 2 {
      sent.push(full);
    }
    let _ = i;
    made += 1;
    w().plan.push(a);
  }
  // and one more which succeeds
  let mut a = Attempt::new();
  a.input = WELCOME.as_bytes().to_vec();
  w().plan.push(a);
  sent.push(1);
  made += 1;
  // reconnect until it does
  let mut ok = false;
  for _ in 0..made {
    if matches!(run(c.reconnect()), Some(Ok(()))) {
      ok = true;
      break;
    }
  }
  check(ok, 20);
  for (k, c) in w().conns[conns..].iter().enumerate() {
    let b = &c.accepted[..];
    if sent[k] == 1 {
      check(b.len() == want.len() && same_bytes(b, want.as_bytes()), 21);
      check(c.sent == b.len(), 22);
    } else {
      check(b.len() <= want.len() && same_bytes(b, &want.as_bytes()[..b.len()]), 23);
      check(sent[k] != 3 || b.is_empty(), 24);
    }
  }
  reach(30 + (w().conns.len() - conns) as u32);
  // the connection can be used
  let k = conn();
  k.accepted.clear();
  k.sent = 0;
  check(matches!(run(c.join("chan")), Some(Ok(()))), 25);
  check(conn().out() == b"JOIN #chan\r\n", 26);
}
