//! C32: connections go to Twitch only, over verified TLS.
use crate::sym::*;
use crate::world::*;
use std::io;
use std::time::Duration;
use tmi::client::conn::{OpenStreamError, TlsConfigError};
use tmi::client::{Backoff, Client, ConnectError};

fn builder() -> tmi::client::ClientBuilder {
  Client::builder()
    .credentials(tmi::Credentials::new("name", "token"))
    .backoff(Backoff {
      max_tries: Some(4),
      initial_delay: Duration::from_secs(1),
      delay_multiplier: 1,
      max_delay: Duration::from_secs(1),
    })
}

fn good(b: u8) -> bool {
  b < 128
}

/// 0..3 (5) certificates of 1..3 (40) bytes.
fn store() -> Vec<Vec<u8>> {
  let mut v = Vec::new();
  for _ in 0..choice(by(4, 6)) {
    let mut c = vec![0u8; pick(&[2, 1, by(3, 40)])];
    fill(&mut c);
    assume(good(c[0]));
    v.push(c);
  }
  v
}

fn same_store(a: &[Vec<u8>], b: &[Vec<u8>]) -> bool {
  let mut eq = a.len() == b.len();
  for (a, b) in a.iter().zip(b) {
    eq &= a.len() == b.len();
    for (x, y) in a.iter().zip(b) {
      eq &= x == y;
    }
  }
  eq
}

/// All attempts so far went where they should.
fn verify(store: &[Vec<u8>], at: u32) {
  let w = w();
  check(w.targets.len() >= w.attempts, at);
  for (host, port) in &w.targets {
    check_str(host, "irc.chat.twitch.tv", at + 1);
    check(*port == 6697, at + 2);
  }
  check(w.verified.len() == w.conns.len(), at + 3);
  for (name, roots) in &w.verified {
    check_str(name, "irc.chat.twitch.tv", at + 4);
    check(same_store(roots, store), at + 5);
  }
  for c in &w.conns {
    check(!c.plain, at + 6);
    // nothing is transmitted on a connection without TLS
    if c.a.tls != Step::Ok {
      check(c.accepted.is_empty(), at + 7);
    }
  }
}

fn welcome() -> Attempt {
  let mut a = Attempt::new();
  a.input = WELCOME.as_bytes().to_vec();
  a
}

/// Connecting, reconnecting (after failures of several kinds) and using it.
#[no_mangle]
pub extern "C" fn c32_address() {
  reset();
  let s = store();
  w().store = Ok(s.clone());
  let fail_first = choice(4);
  w().kinds = choice(N_KINDS);
  let mut a = welcome();
  match fail_first {
    0 => {}
    1 => a.connect = Step::Err,
    2 => a.tls = Step::Err,
    _ => a.tls = Step::Stall,
  }
  w().plan.push(a);
  let r = run(builder().connect());
  verify(&s, 10);
  check(w().attempts == 1, 20);
  let mut c = match r {
    Some(Ok(c)) => c,
    Some(Err(e)) => {
      check(fail_first != 0, 21);
      // what went wrong is reported
      match e {
        ConnectError::Open(OpenStreamError::Io(e)) => check(fail_first < 3 && e.kind() == kind(1), 22),
        ConnectError::Timeout => check(fail_first == 3, 23),
        _ => fail(24),
      }
      reach(1);
      return;
    }
    None => return fail(25),
  };
  check(fail_first == 0, 26);
  let n = choice(by(3, 4));
  for _ in 0..n {
    let mut f = welcome();
    match choice(4) {
      0 => f.connect = Step::Err,
      1 => f.tls = Step::Err,
      2 => f.flush = Step::Err,
      _ => {
        f.write_limit = 3;
        f.write_end = Step::Err;
      }
    }
    w().plan.push(f);
  }
  w().plan.push(welcome());
  check(matches!(run(c.reconnect()), Some(Ok(()))), 30);
  check(w().attempts == n + 2, 31);
  let text = ["x", "twitch"][choice(2)];
  check(matches!(run(c.ping(text)), Some(Ok(()))), 32);
  verify(&s, 40);
  reach(2);
}

/// A certificate store that cannot be loaded, or has an unusable certificate.
#[no_mangle]
pub extern "C" fn c32_store() {
  reset();
  let mut s = store();
  let unusable = flag();
  if unusable {
    let at = choice(s.len() + 1);
    let mut c = vec![0u8; choice(2) + 1];
    fill(&mut c);
    assume(!good(c[0]));
    s.insert(at, c);
    w().store = Ok(s);
  } else {
    use io::ErrorKind::*;
    w().store = Err(pick(&[NotFound, PermissionDenied, InvalidData, Other]));
  }
  let want = w().store.as_ref().err().copied();
  w().plan.push(welcome());
  match run(builder().connect()) {
    Some(Err(ConnectError::Tls(TlsConfigError::Io(e)))) => check(Some(e.kind()) == want, 51),
    Some(Err(ConnectError::Tls(TlsConfigError::Tls(_)))) => check(unusable, 52),
    _ => fail(53),
  }
  check(w().attempts == 0 && w().targets.is_empty() && w().conns.is_empty(), 54);
  reach(1 + unusable as u32);
}
