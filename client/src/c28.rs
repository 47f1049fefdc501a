//! C28: reconnecting.
use crate::sym::*;
use crate::world::*;
use std::io::ErrorKind;
use std::time::Duration;
use tmi::client::conn::OpenStreamError;
use tmi::client::read::RecvError;
use tmi::client::{Backoff, ConnectError, ReconnectError};

const SEC: u64 = 1_000_000_000;

/// What an attempt leads to.
#[derive(Clone, Copy, PartialEq)]
enum End {
  /// I/O failures: retried.
  Open,
  Tls,
  Write,
  WriteZero,
  Flush,
  /// All else ends it.
  Ok,
  OpenStall,
  WriteStall,
  ReadStall,
  Read,
  Closed,
  Parse,
  Refused,
  Failed,
  Notice,
  Welcome,
}
const RETRIED: [End; 5] = [End::Open, End::Tls, End::Write, End::WriteZero, End::Flush];
const OVER: [End; 11] = [
  End::Ok,
  End::OpenStall,
  End::WriteStall,
  End::ReadStall,
  End::Read,
  End::Closed,
  End::Parse,
  End::Refused,
  End::Failed,
  End::Notice,
  End::Welcome,
];

fn attempt(e: End) -> Attempt {
  let mut a = Attempt::new();
  a.input = WELCOME.as_bytes().to_vec();
  let cap = ":x CAP * ACK :y\r\n";
  let say = |s: &str| {
    let mut v = cap.as_bytes().to_vec();
    v.extend_from_slice(s.as_bytes());
    v
  };
  match e {
    End::Ok => {}
    End::Open => a.connect = Step::Err,
    End::Tls => a.tls = Step::Err,
    End::Write => {
      a.write_limit = pick(&[0, 70]);
      a.write_end = Step::Err;
    }
    End::WriteZero => a.write_limit = 10,
    End::Flush => a.flush = Step::Err,
    End::OpenStall => {
      if flag() {
        a.connect = Step::Stall
      } else {
        a.tls = Step::Stall
      }
    }
    End::WriteStall => {
      a.write_limit = 3;
      a.write_end = Step::Stall;
    }
    End::ReadStall => a.input = pick(&["", "x", ":x CAP * ACK :y\r\n"]).as_bytes().to_vec(),
    End::Read | End::Closed => {
      a.input = pick(&["", ":x CAP * ACK :y\r\n"]).as_bytes().to_vec();
      a.end = if e == End::Read { Step::Err } else { Step::Ok };
    }
    End::Parse => a.input = b"@x \r\n".to_vec(),
    End::Refused => a.input = b"CAP * NAK :y\r\n".to_vec(),
    End::Failed => a.input = say("NOTICE * :Login authentication failed\r\n"),
    End::Notice => a.input = say("NOTICE * :no\r\n"),
    End::Welcome => a.input = say("PING\r\n"),
  }
  a
}

/// `n`: the number of the attempt.
fn verdict(r: &Option<Result<(), ReconnectError>>, e: End, n: usize) -> bool {
  let Some(r) = r else { return false };
  let c = match r {
    Ok(()) => return e == End::Ok,
    Err(e) => &e.cause,
  };
  match (e, c) {
    (End::Open | End::Tls, ConnectError::Open(OpenStreamError::Io(e))) => e.kind() == kind(n),
    (End::Write | End::Flush, ConnectError::Io(e)) => e.kind() == kind(n),
    (End::WriteZero, ConnectError::Io(e)) => e.kind() == ErrorKind::WriteZero,
    (End::OpenStall | End::WriteStall | End::ReadStall, ConnectError::Timeout) => true,
    (End::Read, ConnectError::Read(RecvError::Io(e))) => e.kind() == kind(n),
    (End::Closed, ConnectError::Read(RecvError::StreamClosed)) => true,
    (End::Parse, ConnectError::Read(RecvError::Parse(_))) => true,
    (End::Refused | End::Failed, ConnectError::Auth) => true,
    (End::Notice, ConnectError::Notice(_)) => true,
    (End::Welcome, ConnectError::Welcome(_)) => true,
    _ => false,
  }
}

/// A time in the unit of the delays: seconds, if they are whole ones.
fn units(b: &Backoff, secs: u64, nanos: u32) -> u64 {
  if whole(b) {
    check(nanos == 0, 11);
    return secs;
  }
  secs.wrapping_mul(SEC).wrapping_add(nanos as u64)
}
fn whole(b: &Backoff) -> bool {
  (b.initial_delay.subsec_nanos() == 0) & (b.max_delay.subsec_nanos() == 0)
}

fn int(n: usize) -> u64 {
  let mut b = [0u8; 8];
  fill(&mut b[..n]);
  u64::from_le_bytes(b)
}

/// A connected client with this backoff.
fn connected(b: Backoff) -> tmi::Client {
  let c = client_with(Attempt::new(), |x| x.backoff(b).timeout(Duration::from_secs(40)));
  let w = w();
  w.times.clear();
  c
}

/// Every attempt takes `lag` seconds; `r` retried failures come before `last`.
fn sequence(b: Backoff, ends: &[End], lag: u64) {
  let mut c = connected(b);
  for e in ends {
    let mut a = attempt(*e);
    a.lag = lag;
    w().plan.push(a);
  }
  let before = w().attempts;
  let start = units(&b, w().now.0, w().now.1);
  let r = run(c.reconnect());
  let made = w().attempts - before;
  let want = match b.max_tries {
    Some(n) if (n as usize) < ends.len() => n as usize,
    _ => ends.len(),
  };
  check(made == want, 1);
  if want == 0 {
    check(matches!(r, Some(Err(_))), 2);
    reach(0);
    return;
  }
  check(verdict(&r, ends[want - 1], before + want), 3);
  // the delays
  let max = units(&b, b.max_delay.as_secs(), b.max_delay.subsec_nanos());
  let first = units(&b, b.initial_delay.as_secs(), b.initial_delay.subsec_nanos());
  let mut delay = first;
  let mut end = start;
  for t in &w().times {
    let t = units(&b, t.0, t.1);
    check(t == end + delay, 4);
    end = t + if whole(&b) { lag } else { lag * SEC };
    delay = delay.saturating_mul(b.delay_multiplier as u64).min(max);
  }
  reach(1 + want as u32);
  if let Some(Ok(())) = r {
    // usable; and the next reconnect starts over
    let k = conn();
    k.accepted.clear();
    k.sent = 0;
    check(matches!(run(c.ping("x")), Some(Ok(()))), 5);
    check(k.out() == b"PING :x\r\n", 6);
    w().plan.push(attempt(End::Ok));
    let now = units(&b, w().now.0, w().now.1);
    check(matches!(run(c.reconnect()), Some(Ok(()))), 7);
    let t = w().times.last().unwrap();
    check(units(&b, t.0, t.1) == now + first, 8);
  }
}

const MULTIPLIERS: [u32; 6] = [0, 1, 2, 3, 1000, u32::MAX];

/// Any delays.
#[no_mangle]
pub extern "C" fn c28_delays() {
  let b = Backoff {
    max_tries: None,
    initial_delay: Duration::from_secs(int(by(1, 2))),
    delay_multiplier: pick(&MULTIPLIERS),
    max_delay: Duration::from_secs(int(2)),
  };
  let n = choice(by(4, 5));
  let mut ends = vec![End::Open; n];
  ends.push(End::Ok);
  sequence(b, &ends, pick(&[0, 7]));
}

/// Delays which are not whole seconds.
#[no_mangle]
pub extern "C" fn c28_nanos() {
  let b = Backoff {
    max_tries: None,
    initial_delay: Duration::new(pick(&[0, 1]), pick(&[1, 500_000_001])),
    delay_multiplier: pick(&[0, 1, 2, 3, 7, 1000]),
    max_delay: Duration::new(pick(&[0, 3, 2000]), pick(&[999_999_999, 4])),
  };
  let n = choice(by(5, 8));
  let mut ends = vec![End::Tls; n];
  ends.push(End::Ok);
  sequence(b, &ends, pick(&[0, 7]));
}

/// Any outcomes.
#[no_mangle]
pub extern "C" fn c28_outcomes() {
  let b = Backoff {
    max_tries: match choice(by(5, 6)) {
      0 => None,
      n => Some(n as u64 - 1),
    },
    initial_delay: Duration::new(int(1), 0),
    delay_multiplier: 2,
    max_delay: Duration::from_secs(12),
  };
  let n = choice(by(4, 5));
  let mut ends = Vec::new();
  for _ in 0..n {
    ends.push(pick(&RETRIED));
  }
  ends.push(pick(&OVER));
  sequence(b, &ends, 0);
}

/// Any kind of I/O error.
#[no_mangle]
pub extern "C" fn c28_kinds() {
  let b = Backoff {
    max_tries: None,
    initial_delay: Duration::from_secs(1),
    delay_multiplier: 2,
    max_delay: Duration::from_secs(12),
  };
  let mut c = connected(b);
  w().kinds = choice(N_KINDS);
  w().reason = flag();
  let e = pick(&[End::Open, End::Tls, End::Write, End::Flush]);
  for _ in 0..by(1, 2) {
    w().plan.push(attempt(e));
  }
  let last = pick(&[End::Ok, End::Read]);
  w().plan.push(attempt(last));
  let before = w().attempts;
  let r = run(c.reconnect());
  check(w().attempts - before == by(2, 3), 24);
  check(verdict(&r, last, w().attempts), 25);
  reach(1 + (last == End::Ok) as u32);
}

/// The number of tries.
#[no_mangle]
pub extern "C" fn c28_tries() {
  let n = int(1);
  assume(n <= by(12, 40) as u64);
  let b = Backoff {
    max_tries: Some(n),
    initial_delay: Duration::ZERO,
    delay_multiplier: 2,
    max_delay: Duration::from_secs(12),
  };
  let mut c = connected(b);
  let before = w().attempts;
  let r = run(c.reconnect());
  check(matches!(r, Some(Err(_))), 9);
  check((w().attempts - before) as u64 == n, 10);
  reach(1);
}

/// Long series of failures.
#[no_mangle]
pub extern "C" fn c28_many() {
  let n = pick(if THOROUGH { &[17, 33, 65, 129, 257, 385, 513] } else { &[17, 33, 65, 129, 257] });
  let limit = match choice(3) {
    0 => None,
    1 => Some(n as u64 + 1 + int(1)),
    _ => Some(u64::MAX - int(1)),
  };
  let b = Backoff {
    max_tries: limit,
    initial_delay: Duration::from_secs(1),
    delay_multiplier: pick(&[1, 2]),
    max_delay: Duration::from_secs(3),
  };
  let mut c = connected(b);
  let before = w().attempts;
  w().times.clear();
  let start = w().now.0;
  for k in 0..n {
    w().plan.push(attempt([End::Open, End::Tls, End::WriteZero, End::Flush][k % 4]));
  }
  w().plan.push(attempt(End::Ok));
  let r = run(c.reconnect());
  check(matches!(r, Some(Ok(()))), 20);
  check(w().attempts - before == n + 1, 21);
  let mut due = start;
  let mut delay = 1;
  for t in &w().times {
    due += delay;
    check(*t == (due, w().now.1), 22);
    delay = (delay * b.delay_multiplier as u64).min(3);
  }
  reach(1);
}

/// No configuration makes it panic.
#[no_mangle]
pub extern "C" fn c28_extreme() {
  fn duration() -> Duration {
    match choice(3) {
      0 => Duration::from_secs(int(1) << pick(if THOROUGH { &[0, 24, 33, 40, 56] } else { &[0, 33] })),
      1 => Duration::new(u64::MAX - int(1), 999_999_999),
      _ => Duration::new((u64::MAX >> pick(if THOROUGH { &[1, 2, 16, 33] } else { &[1, 33] })) - int(1), pick(&[0, 999_999_999])),
    }
  }
  let b = Backoff {
    max_tries: if flag() { None } else { Some(u64::MAX - int(1)) },
    initial_delay: duration(),
    delay_multiplier: pick(if THOROUGH { &[0, 1, 2, 0xffff, u32::MAX] } else { &[0, 2, u32::MAX] }),
    max_delay: duration(),
  };
  let mut c = connected(b);
  w().plan.push(attempt(End::Open));
  w().plan.push(attempt(End::Flush));
  w().plan.push(attempt(End::Ok));
  match run(c.reconnect()) {
    Some(Ok(())) => reach(1),
    Some(Err(_)) => reach(2),
    None => reach(3),
  }
}
