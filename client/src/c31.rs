//! C31: connecting gives up in time.
use crate::sym::*;
use crate::world::*;
use std::time::Duration;
use tmi::client::{Backoff, Client, ConnectError};

fn int() -> u64 {
  let mut b = [0u8; 2];
  fill(&mut b[..by(1, 2)]);
  u16::from_le_bytes(b) as u64
}

fn builder(t: u64) -> tmi::client::ClientBuilder {
  Client::builder().timeout(Duration::from_secs(t)).credentials(tmi::Credentials::new("name", "token"))
}

/// How connecting went (Ok, timeout or (anything else) None), and the time
/// waited before.
fn connect(t: u64, again: bool) -> (Option<bool>, u64) {
  if !again {
    let r = match run(builder(t).connect()) {
      Some(Ok(_)) => Some(true),
      Some(Err(ConnectError::Timeout)) => Some(false),
      _ => None,
    };
    return (r, 0);
  }
  let delay = pick(&[0, 3, 90]);
  let a = w().plan.remove(0);
  let mut c = client_with(Attempt::new(), |_| {
    builder(t).backoff(Backoff {
      max_tries: Some(2),
      initial_delay: Duration::from_secs(delay),
      delay_multiplier: 1,
      max_delay: Duration::from_secs(delay),
    })
  });
  let mut waited = delay;
  // one attempt fails before
  if flag() {
    waited += delay;
    let mut f = Attempt::new();
    f.connect = Step::Err;
    w().plan.push(f);
  }
  w().plan.push(a);
  let r = match run(c.reconnect()) {
    Some(Ok(())) => Some(true),
    Some(Err(e)) => matches!(e.cause, ConnectError::Timeout).then_some(false),
    None => None,
  };
  (r, waited)
}

fn attempt() -> Attempt {
  let mut a = Attempt::new();
  a.input = WELCOME.as_bytes().to_vec();
  a
}

/// Time since the beginning, but for what was waited.
fn elapsed(waited: u64, nanos: u32) -> u64 {
  check(w().now.1 == nanos, 1);
  w().now.0 - 1000 - waited
}

/// Milliseconds in nanoseconds.
fn part() -> u32 {
  pick(if THOROUGH { &[0, 1, 250, 500, 999] } else { &[0, 999] }) * 1_000_000
}

/// Opening takes any time.
#[no_mangle]
pub extern "C" fn c31_open() {
  reset();
  let t = int();
  let lag = int();
  assume((t > 0) & (lag > 0));
  let mut a = attempt();
  a.lag = lag;
  let p = part();
  a.parts.0 = p;
  if lag > t && flag() {
    a.connect = Step::Stall;
  }
  w().plan.push(a);
  let (r, waited) = connect(t, flag());
  if lag < t {
    check(r == Some(true), 2);
    check(elapsed(waited, p) == lag, 3);
    reach(1);
  } else if lag > t || p > 0 {
    check(r == Some(false), 4);
    check(elapsed(waited, 0) == t, 5);
    reach(2);
  }
}

/// It stalls somewhere.
#[no_mangle]
pub extern "C" fn c31_stall() {
  reset();
  let t = int();
  assume(t > 0);
  let mut a = attempt();
  let opening = match choice(6) {
    0 => {
      a.connect = Step::Stall;
      true
    }
    1 => {
      a.tls = Step::Stall;
      true
    }
    2 => {
      a.write_limit = choice(by(8, 80));
      a.write_end = Step::Stall;
      false
    }
    3 => {
      a.flush = Step::Stall;
      a.buffered = flag();
      false
    }
    _ => {
      // everything but the last line break, or less
      let n = choice(a.input.len() - 1);
      a.input.truncate(n);
      a.slow = flag();
      a.cuts = vec![0, n / 2];
      false
    }
  };
  w().plan.push(a);
  let (r, waited) = connect(t, flag());
  check(r == Some(false), 6);
  check(elapsed(waited, 0) <= t, 7);
  if opening {
    check(elapsed(waited, 0) == t, 8);
  }
  reach(opening as u32);
}

/// The answers of the server take any time.
#[no_mangle]
pub extern "C" fn c31_answers() {
  reset();
  let t = int();
  let (x, y) = (int(), int());
  assume((t > 0) & (x > 0) & (y > 0));
  let p = part();
  let open = if flag() { 1 } else { 0 };
  assume(t > open);
  let mut a = attempt();
  a.lag = open;
  a.parts.1 = p;
  let first = WELCOME.find('\n').unwrap() + 1;
  a.lags = vec![(pick(&[0, 1, first - 1]), x), (pick(&[first, first + 1, WELCOME.len() - 1]), y)];
  w().plan.push(a);
  let (r, waited) = connect(t, flag());
  // of both answers
  let (total, rest) = (x + y + (2 * p / 1_000_000_000) as u64, 2 * p % 1_000_000_000);
  if (x < 5) & (y < 5) & (total < t) {
    check(r == Some(true), 9);
    check(elapsed(waited, rest) == open + total, 10);
    reach(1);
  } else if total > t {
    check(r == Some(false), 11);
    check(w().now.0 - 1000 - waited <= open + t, 12);
    reach(2);
  } else {
    // a single answer after more than 5 seconds, or just at the limit
    check(r.is_some(), 13);
    check(w().now.0 - 1000 - waited <= open + t, 14);
    reach(3);
  }
}

/// Any timeout, however long: no panic, and a prompt server is enough.
#[no_mangle]
pub extern "C" fn c31_long() {
  reset();
  let t = match choice(3) {
    0 => Duration::MAX,
    1 => Duration::new(u64::MAX >> pick(&[0, 1, 2]), 999_999_999),
    _ => Duration::from_secs((int() << pick(&[24, 40, 56])) | 1),
  };
  w().plan.push(attempt());
  let b = Client::builder().timeout(t);
  let Some(Ok(mut c)) = run(b.connect()) else {
    fail(15);
    return;
  };
  w().plan.push(attempt());
  check(matches!(run(c.reconnect()), Some(Ok(()))), 16);
  reach(1);
}
