//! C33: the client keeps to the configuration it was built with.
use crate::sym::*;
use crate::world::*;
use std::time::Duration;
use tmi::client::{Backoff, Client, Config, ConnectError, DEFAULT_TIMEOUT};
use tmi::Credentials;

fn any(b: u8) -> bool {
  b < 0x80
}
fn plain(b: u8) -> bool {
  (b > b' ') & (b < 0x80)
}

fn int(n: usize) -> u64 {
  let mut b = [0u8; 8];
  fill(&mut b[..n]);
  u64::from_le_bytes(b)
}

#[derive(Clone, Copy)]
struct B(Option<u64>, u64, u32, u32, u64);

fn backoff() -> B {
  let tries = match choice(3) {
    0 => None,
    1 => Some(int(1)),
    _ => Some(u64::MAX - int(1)),
  };
  B(tries, int(by(2, 8)), (int(3) as u32) % 1_000_000_000, int(4) as u32, int(by(2, 8)))
}
impl B {
  fn get(self) -> Backoff {
    Backoff {
      max_tries: self.0,
      initial_delay: Duration::new(self.1, self.2),
      delay_multiplier: self.3,
      max_delay: Duration::new(self.4, 0),
    }
  }
}

fn same_backoff(a: &Backoff, b: &Backoff, at: u32) {
  check(a.max_tries == b.max_tries, at);
  check(a.initial_delay == b.initial_delay, at + 1);
  check(a.delay_multiplier == b.delay_multiplier, at + 2);
  check(a.max_delay == b.max_delay, at + 3);
}

fn welcome() -> Attempt {
  let mut a = Attempt::new();
  a.input = WELCOME.as_bytes().to_vec();
  a
}

/// What is set, in any order, twice, or not at all, is what the client has.
#[no_mangle]
pub extern "C" fn c33_builder() {
  reset();
  let order = pick(&[[0, 1, 2], [1, 0, 2], [2, 1, 0], [1, 2, 0], [0, 2, 1], [2, 0, 1]]);
  let mut l = L::new();
  let login = l.hole(1, by(2, 4), any);
  let token = l.hole(0, by(2, 4), any);
  let (login, token) = (l.get(&login), l.get(&token));
  let mut b = Client::builder();
  let twice = choice(4);
  let (mut creds, mut timeout, mut back) = (None, None, None);
  for k in order {
    for n in 0..1 + (twice == k) as usize {
      match k {
        _ if twice == 3 && n == 0 && flag() => {}
        0 => {
          let c = match choice(2) {
            0 if n == 0 && twice == 0 => Credentials::new("earlier", "token"),
            0 => Credentials::new(login, token),
            _ => Credentials::anon(),
          };
          creds = Some(c.clone());
          b = b.credentials(c);
        }
        1 => {
          // (at least a second: enough to connect)
          let t = Duration::new(int(2) + 1, int(3) as u32 % 1_000_000_000);
          timeout = Some(t);
          b = b.timeout(t);
        }
        _ => {
          let v = backoff().get();
          back = Some(v);
          b = b.backoff(v);
        }
      }
    }
  }
  w().plan.push(welcome());
  let Some(Ok(c)) = run(b.connect()) else {
    return fail(1);
  };
  let config = c.config();
  check(config.timeout == timeout.unwrap_or(DEFAULT_TIMEOUT), 2);
  same_backoff(&config.backoff, &back.unwrap_or_default(), 3);
  for got in [c.credentials(), &config.credentials] {
    match &creds {
      Some(want) => {
        check_str(got.login(), want.login(), 8);
        check_opt(got.token(), want.token(), 9);
        check(got.is_anon() == want.token().is_none(), 10);
      }
      None => check(got.is_anon() && got.token().is_none(), 11),
    }
  }
  reach(1 + creds.is_some() as u32 + 2 * timeout.is_some() as u32 + 4 * back.is_some() as u32);
}

/// A client keeps its configuration through operations and reconnects.
#[no_mangle]
pub extern "C" fn c33_kept() {
  let mut l = L::new();
  let login = l.hole(1, 2, plain);
  let token = l.hole(1, by(2, 4), plain);
  let (login, token) = (l.get(&login), l.get(&token));
  reset();
  w().plan.push(welcome());
  let t = Duration::new(int(2) + 1, 0);
  let back = Backoff {
    max_tries: Some(2),
    initial_delay: Duration::new(int(1), 0),
    delay_multiplier: pick(&[2, 0, 1, 1000]),
    max_delay: Duration::new(int(1), 0),
  };
  let anon = flag();
  let creds = if anon { Credentials { login: pick(&["justinfan12345", "x"]).to_string(), token: None } } else { Credentials::new(login, token) };
  let (login, token) = if anon { (creds.login().to_string(), None) } else { (login.to_string(), Some(token)) };
  let login = &login[..];
  let Some(Ok(mut c)) = run(Client::builder().credentials(creds).timeout(t).backoff(back).connect()) else {
    return fail(1);
  };
  let hello = conn().out().to_vec();
  let ops = choice(by(2, 3)) + 1;
  for _ in 0..ops {
    match choice(4) {
      0 => {
        let _ = run(c.ping("x"));
      }
      1 => {
        let _ = run(c.join("#x"));
      }
      k => {
        let mut a = welcome();
        if k == 2 {
          a.tls = Step::Err;
        }
        w().plan.push(a);
        let r = run(c.reconnect());
        if k == 3 {
          // the same login is sent again
          check(matches!(r, Some(Ok(()))), 12);
          let out = conn().out();
          check(out.len() == hello.len(), 13);
          check(out.iter().zip(&hello).fold(true, |eq, (a, b)| eq & (a == b)), 13);
        }
        w().plan.clear();
      }
    }
    let config = c.config();
    check(config.timeout == t, 2);
    same_backoff(&config.backoff, &back, 3);
    check_str(config.credentials.login(), login, 8);
    check_opt(c.credentials().token(), token, 9);
    check_str(c.credentials().login(), login, 10);
    check_opt(config.credentials.token(), token, 11);
  }
  reach(ops as u32);
}

/// The defaults: anonymous, the documented timeout, the default backoff.
#[no_mangle]
pub extern "C" fn c33_defaults() {
  reset();
  let config = Config::default();
  check(config.credentials.is_anon(), 20);
  check(config.timeout == DEFAULT_TIMEOUT, 21);
  check(DEFAULT_TIMEOUT == Duration::from_secs(30), 22);
  same_backoff(&config.backoff, &Backoff::default(), 23);
  // used by a client that is given none of them
  let login;
  let lag = int(1);
  let mut a = welcome();
  a.lag = lag;
  w().plan.push(a);
  let start = w().now.0;
  let r = match choice(2) {
    0 => run(Client::anonymous()),
    _ => run(Client::builder().connect()),
  };
  match r {
    Some(Ok(c)) => {
      check(lag <= 30, 30);
      check(c.config().timeout == DEFAULT_TIMEOUT, 31);
      same_backoff(&c.config().backoff, &Backoff::default(), 32);
      check(c.credentials().is_anon(), 36);
      check(c.credentials().token().is_none(), 37);
      login = c.credentials().login().to_string();
    }
    Some(Err(ConnectError::Timeout)) => {
      check(lag >= 30, 38);
      check(w().now.0 - start == 30, 39);
      reach(2);
      return;
    }
    _ => return fail(40),
  }
  // and that login is the one that was sent
  let out = conn().out();
  let mut want = HELLO.as_bytes().to_vec();
  want.extend_from_slice(b"PASS oauth:just_a_lil_guy\r\nNICK ");
  want.extend_from_slice(login.as_bytes());
  want.extend_from_slice(b"\r\n");
  check(out.len() == want.len(), 41);
  let mut eq = true;
  for (a, b) in out.iter().zip(&want) {
    eq &= a == b;
  }
  check(eq, 42);
  reach(1);
}

/// The default backoff is what an unconfigured client does.
#[no_mangle]
pub extern "C" fn c33_default_backoff() {
  let a = Attempt::new();
  reset();
  let mut c = client_with(a, |b| b);
  let n = choice(10);
  for _ in 0..n {
    let mut f = Attempt::new();
    f.connect = Step::Err;
    w().plan.push(f);
  }
  w().plan.push(welcome());
  let d = Backoff::default();
  let before = w().attempts;
  let mut now = w().now;
  w().times.clear();
  let r = run(c.reconnect());
  let tries = w().attempts - before;
  let max = d.max_tries.unwrap_or(u64::MAX);
  check(tries as u64 == max.min(n as u64 + 1), 50);
  check(matches!(r, Some(Ok(()))) == (max > n as u64), 51);
  let mut delay = d.initial_delay;
  for t in w().times.iter().take(tries) {
    let mut due = (now.0 + delay.as_secs(), now.1 + delay.subsec_nanos());
    if due.1 >= 1_000_000_000 {
      due = (due.0 + 1, due.1 - 1_000_000_000);
    }
    check(*t == due, 52);
    now = due;
    delay = (delay * d.delay_multiplier).min(d.max_delay);
  }
  reach(tries as u32);
}
