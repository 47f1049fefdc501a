//! The environment of the client: clock, network, TLS and random numbers.
//!
//! A harness describes what every connection attempt and every connection does;
//! the doubles (see ../doubles) call the functions below.
use crate::sym::*;
use std::future::Future;
use std::io;
use std::pin::pin;
use std::task::{Context, Poll, Waker};

#[derive(Clone, Copy, PartialEq)]
pub enum Step {
  Ok,
  /// Fails with an I/O error.
  Err,
  /// Never completes.
  Stall,
}

/// One connection attempt and what the connection does if there is one.
pub struct Attempt {
  pub connect: Step,
  /// Time it takes.
  pub lag: u64,
  pub tls: Step,
  /// Bytes the server sends.
  pub input: Vec<u8>,
  /// Positions of `input` at which a read ends; ascending.
  pub cuts: Vec<usize>,
  /// A read at a cut does not complete at once.
  pub slow: bool,
  /// Positions of `input` before which the server waits, and how long.
  pub lags: Vec<(usize, u64)>,
  /// parts of seconds: of `lag`, of each of `lags`
  pub parts: (u32, u32),
  /// What a read after the end of `input` does; `Ok`: end of stream.
  pub end: Step,
  /// Writing fails or stalls after this many bytes of this connection.
  pub write_limit: usize,
  pub write_end: Step,
  /// Bytes accepted by one write at most.
  pub write_max: usize,
  /// Every second write does not complete at once.
  pub write_slow: bool,
  /// Bytes are only transmitted by a flush.
  pub buffered: bool,
  pub flush: Step,
}

impl Attempt {
  pub fn new() -> Attempt {
    Attempt {
      connect: Step::Ok,
      lag: 0,
      tls: Step::Ok,
      input: Vec::new(),
      cuts: Vec::new(),
      slow: false,
      lags: Vec::new(),
      parts: (0, 0),
      end: Step::Stall,
      write_limit: usize::MAX,
      write_end: Step::Ok,
      write_max: usize::MAX,
      write_slow: false,
      buffered: false,
      flush: Step::Ok,
    }
  }
}

pub struct Conn {
  pub a: Attempt,
  pub pos: usize,
  pub waited: bool,
  pub wwaited: bool,
  pub accepted: Vec<u8>,
  /// Length of the transmitted part of `accepted`.
  pub sent: usize,
  pub closed: bool,
  /// Bytes were read or written outside TLS.
  pub plain: bool,
  due: Option<(u64, u32)>,
}

pub struct World {
  pub now: (u64, u32),
  waits: Vec<(u64, u32)>,
  soon: bool,
  /// Attempts to come.
  pub plan: Vec<Attempt>,
  /// The attempt which is being made, and since when.
  open: Option<(u64, u32)>,
  /// The attempt which has been connected last.
  tls: Step,
  pub attempts: usize,
  /// Times of the attempts.
  pub times: Vec<(u64, u32)>,
  pub conns: Vec<Conn>,
  /// Random numbers are any numbers, not the least possible ones.
  pub random: bool,
  /// Which kinds of I/O errors come, and whether they carry a reason.
  pub kinds: usize,
  pub reason: bool,
  /// Host and port of every attempt.
  pub targets: Vec<(String, u16)>,
  /// Server name and roots of every TLS handshake.
  pub verified: Vec<(String, Vec<Vec<u8>>)>,
  secure: bool,
  /// The certificate store; `Err`: loading it fails. Only certificates that
  /// begin with a byte below 128 can be used.
  pub store: Result<Vec<Vec<u8>>, io::ErrorKind>,
}

static mut W: World = World {
  now: (0, 0),
  waits: Vec::new(),
  soon: false,
  plan: Vec::new(),
  open: None,
  tls: Step::Ok,
  attempts: 0,
  times: Vec::new(),
  conns: Vec::new(),
  random: false,
  kinds: 0,
  reason: false,
  targets: Vec::new(),
  verified: Vec::new(),
  secure: false,
  store: Ok(Vec::new()),
};

pub fn w() -> &'static mut World {
  unsafe { &mut W }
}

pub fn reset() {
  *w() = World {
    now: (1000, 0),
    waits: Vec::with_capacity(8),
    soon: false,
    plan: Vec::new(),
    open: None,
    tls: Step::Ok,
    attempts: 0,
    times: Vec::with_capacity(8),
    conns: Vec::new(),
    random: false,
    kinds: 0,
    reason: false,
    targets: Vec::new(),
    verified: Vec::new(),
    secure: false,
    store: Ok(Vec::new()),
  };
}

impl Conn {
  /// Everything transmitted so far.
  pub fn out(&self) -> &[u8] {
    &self.accepted[..self.sent]
  }
}

/// The latest connection.
pub fn conn() -> &'static mut Conn {
  w().conns.last_mut().unwrap()
}

/// Runs a future to its end; `None`: it waits for something that never happens.
pub fn run<F: Future>(f: F) -> Option<F::Output> {
  let mut f = pin!(f);
  poll(f.as_mut(), usize::MAX)
}

pub const FAR: u64 = 1 << 40;

/// Like `run`, but gives up after `polls` polls.
pub fn poll<F: Future>(mut f: std::pin::Pin<&mut F>, polls: usize) -> Option<F::Output> {
  let mut cx = Context::from_waker(Waker::noop());
  let mut n = 0;
  while n < polls {
    n += 1;
    let w = w();
    w.waits.clear();
    w.soon = false;
    if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
      return Some(v);
    }
    if w.soon {
      continue;
    }
    let Some(mut t) = w.waits.first().copied() else {
      return None;
    };
    for v in &w.waits[1..] {
      if v.0 < t.0 || (v.0 == t.0 && v.1 < t.1) {
        t = *v;
      }
    }
    // (nothing happens in the far future)
    if t.0 > FAR {
      return None;
    }
    w.now = t;
  }
  None
}

/// The kind of I/O error of the n-th attempt (from 1) and its connection.
pub fn kind(n: usize) -> io::ErrorKind {
  use io::ErrorKind::*;
  const KINDS: [io::ErrorKind; N_KINDS] = [
    ConnectionReset, BrokenPipe, NotConnected, ConnectionRefused, PermissionDenied, AddrInUse, TimedOut,
    UnexpectedEof, ConnectionAborted, NetworkUnreachable, HostUnreachable, NotFound, AddrNotAvailable,
    NetworkDown, InvalidData, InvalidInput, Unsupported, OutOfMemory, Other,
  ];
  KINDS[(n - 1 + w().kinds) % N_KINDS]
}
pub const N_KINDS: usize = 19;

fn error() -> io::Error {
  let k = kind(w().attempts);
  match w().reason {
    true => io::Error::new(k, "reason"),
    false => k.into(),
  }
}

fn step<T>(s: Step, v: T) -> Poll<io::Result<T>> {
  match s {
    Step::Ok => Poll::Ready(Ok(v)),
    Step::Err => Poll::Ready(Err(error())),
    Step::Stall => Poll::Pending,
  }
}

#[no_mangle]
fn __double_now() -> (u64, u32) {
  w().now
}

#[no_mangle]
fn __double_wait(secs: u64, nanos: u32) {
  w().waits.push((secs, nanos));
}

#[no_mangle]
fn __double_random(lo: u64, hi: u64) -> u64 {
  if !w().random {
    return lo;
  }
  // every value of the range: a window of 256 values, and one in it
  let n = (hi - lo) / 256 + 1;
  if n > 1 << 20 {
    let mut b = [0u8; 8];
    fill(&mut b[..if hi > u32::MAX as u64 { 8 } else { 4 }]);
    let v = u64::from_le_bytes(b);
    assume((v >= lo) & (v <= hi));
    return v;
  }
  let base = lo + 256 * choice(n as usize) as u64;
  let mut b = [0u8; 1];
  fill(&mut b);
  let v = base + b[0] as u64;
  assume(v <= hi);
  v
}

fn started(w: &mut World) {
  if w.open.is_none() {
    w.attempts += 1;
    w.times.push(w.now);
    w.open = Some(w.now);
  }
}

/// A new attempt begins: an earlier one given up while it was being opened is over.
#[no_mangle]
fn __double_attempt(host: &str, port: u16) {
  let w = w();
  w.targets.push((host.to_string(), port));
  if w.open.take().is_some() && !w.plan.is_empty() {
    w.plan.remove(0);
  }
}

#[no_mangle]
fn __double_connect(_: &mut Context<'_>) -> Poll<io::Result<usize>> {
  let w = w();
  started(w);
  if w.plan.is_empty() {
    // more attempts than the harness planned: they fail
    if w.attempts > 300 {
      // no harness gets here unless attempts are not limited at all
      fail(997);
    }
    w.open = None;
    return Poll::Ready(Err(error()));
  }
  let a = &w.plan[0];
  if a.lag > 0 || a.parts.0 > 0 {
    let due = later(w.open.unwrap(), a.lag, a.parts.0);
    if w.now < due {
      w.waits.push(due);
      return Poll::Pending;
    }
  }
  if a.connect == Step::Stall {
    return Poll::Pending;
  }
  w.open = None;
  let a = w.plan.remove(0);
  if a.connect == Step::Err {
    return Poll::Ready(Err(error()));
  }
  w.tls = a.tls;
  w.conns.push(Conn {
    a,
    pos: 0,
    waited: false,
    wwaited: false,
    accepted: Vec::with_capacity(256),
    sent: 0,
    closed: false,
    plain: false,
    due: None,
  });
  Poll::Ready(Ok(w.conns.len() - 1))
}

#[no_mangle]
fn __double_tls(_: &mut Context<'_>) -> Poll<io::Result<()>> {
  step(w().tls, ())
}

#[no_mangle]
fn __double_tls_start(name: &str, roots: &[Vec<u8>]) {
  w().verified.push((name.to_string(), roots.to_vec()));
}

#[no_mangle]
fn __double_secure(on: bool) {
  w().secure = on;
}

#[no_mangle]
fn __double_cert(cert: &[u8]) -> bool {
  cert.first().is_some_and(|b| *b < 128)
}

#[no_mangle]
fn __double_store() -> io::Result<Vec<Vec<u8>>> {
  w().store.clone().map_err(io::Error::from)
}

fn later(t: (u64, u32), secs: u64, nanos: u32) -> (u64, u32) {
  let n = t.1 + nanos;
  (t.0 + secs + (n / 1_000_000_000) as u64, n % 1_000_000_000)
}

#[no_mangle]
fn __double_read(_: &mut Context<'_>, id: usize, buf: &mut [u8]) -> Poll<io::Result<usize>> {
  let c = &mut w().conns[id];
  c.plain |= !w().secure;
  if let Some((at, lag)) = c.a.lags.first().copied() {
    if at == c.pos {
      let now = w().now;
      let due = *c.due.get_or_insert(later(now, lag, c.a.parts.1));
      if now < due {
        w().waits.push(due);
        return Poll::Pending;
      }
      c.due = None;
      c.a.lags.remove(0);
    }
  }
  if c.pos == c.a.input.len() {
    return step(c.a.end, 0);
  }
  let mut end = c.a.input.len();
  if let Some((at, _)) = c.a.lags.first() {
    end = *at;
  }
  for cut in &c.a.cuts {
    if *cut == c.pos && c.a.slow && !c.waited {
      c.waited = true;
      w().soon = true;
      return Poll::Pending;
    }
    if *cut > c.pos {
      end = end.min(*cut);
      break;
    }
  }
  c.waited = false;
  let n = (end - c.pos).min(buf.len());
  buf[..n].copy_from_slice(&c.a.input[c.pos..c.pos + n]);
  c.pos += n;
  Poll::Ready(Ok(n))
}

#[no_mangle]
fn __double_write(_: &mut Context<'_>, id: usize, buf: &[u8]) -> Poll<io::Result<usize>> {
  let c = &mut w().conns[id];
  c.plain |= !w().secure;
  if c.accepted.len() >= c.a.write_limit {
    return match c.a.write_end {
      Step::Ok => Poll::Ready(Ok(0)),
      s => step(s, 0),
    };
  }
  if c.a.write_slow && !c.wwaited {
    c.wwaited = true;
    w().soon = true;
    return Poll::Pending;
  }
  c.wwaited = false;
  let n = buf.len().min(c.a.write_max).min(c.a.write_limit - c.accepted.len());
  c.accepted.extend_from_slice(&buf[..n]);
  if !c.a.buffered {
    c.sent = c.accepted.len();
  }
  Poll::Ready(Ok(n))
}

#[no_mangle]
fn __double_flush(_: &mut Context<'_>, id: usize) -> Poll<io::Result<()>> {
  let c = &mut w().conns[id];
  if c.a.flush == Step::Ok {
    c.sent = c.accepted.len();
  }
  step(c.a.flush, ())
}

#[no_mangle]
fn __double_close(id: usize) {
  w().conns[id].closed = true;
}

pub const WELCOME: &str = ":tmi.twitch.tv CAP * ACK :twitch.tv/commands twitch.tv/tags twitch.tv/membership\r\n:tmi.twitch.tv 001 name :Welcome, GLHF!\r\n";
pub const HELLO: &str = "CAP REQ :twitch.tv/commands twitch.tv/tags twitch.tv/membership\r\n";

/// A connected client. `a.input` is preceded by the server's welcome; nothing
/// is left in the output.
pub fn client(a: Attempt) -> tmi::Client {
  client_with(a, |b| b)
}

pub fn client_with(mut a: Attempt, f: impl Fn(tmi::client::ClientBuilder) -> tmi::client::ClientBuilder) -> tmi::Client {
  let mut input = WELCOME.as_bytes().to_vec();
  let off = input.len();
  input.extend_from_slice(&a.input);
  for c in &mut a.cuts {
    *c += off;
  }
  a.cuts.insert(0, off);
  a.input = input;
  reset();
  w().plan.push(a);
  let b = tmi::Client::builder().credentials(tmi::Credentials::new("name", "oauth:token"));
  let Some(Ok(c)) = run(f(b).connect()) else {
    fail(999);
    unreachable!()
  };
  let k = conn();
  k.accepted.clear();
  k.sent = 0;
  c
}
