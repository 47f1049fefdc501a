//! Interface of the harnesses to the symbolic executor (and to the native
//! replayer, which implements the same functions over a recorded case).
#![allow(dead_code)]

mod raw {
  extern "C" {
    pub fn sym_bytes(p: *mut u8, n: usize);
    pub fn sym_choice(n: u32) -> u32;
    pub fn sym_assume(c: bool);
    pub fn sym_assert(c: bool, id: u32);
    pub fn sym_reach(id: u32);
    pub fn sym_observe(p: *const u8, n: usize);
  }
}

pub const THOROUGH: bool = cfg!(feature = "thorough");

/// `q` in the quick tier, `t` in the thorough tier.
pub const fn by(q: usize, t: usize) -> usize {
  if THOROUGH {
    t
  } else {
    q
  }
}

/// Every value in `0..n` is explored.
#[inline(never)]
pub fn choice(n: usize) -> usize {
  unsafe { raw::sym_choice(n as u32) as usize }
}

pub fn pick<T: Copy>(from: &[T]) -> T {
  from[choice(from.len())]
}

pub fn flag() -> bool {
  choice(2) == 1
}

#[inline(always)]
pub fn assume(c: bool) {
  unsafe { raw::sym_assume(c) }
}

#[inline(always)]
pub fn check(c: bool, id: u32) {
  unsafe { raw::sym_assert(c, id) }
}

#[inline(never)]
pub fn fail(id: u32) {
  unsafe { raw::sym_assert(false, id) }
}

#[inline(always)]
pub fn reach(id: u32) {
  unsafe { raw::sym_reach(id) }
}

#[inline(never)]
pub fn observe(b: &[u8]) {
  unsafe { raw::sym_observe(b.as_ptr(), b.len()) }
}

pub fn observe_opt(b: Option<&str>) {
  match b {
    Some(b) => {
      observe(b"+");
      observe(b.as_bytes())
    }
    None => observe(b"-"),
  }
}

#[inline(never)]
pub fn fill(b: &mut [u8]) {
  unsafe { raw::sym_bytes(b.as_mut_ptr(), b.len()) }
}

/// Compares without branching on the bytes.
#[inline(never)]
pub fn same(a: &str, b: &str) -> bool {
  a == b
}

pub fn check_str(a: &str, b: &str, id: u32) {
  check(a.len() == b.len(), id);
  check(same(a, b), id);
}

pub fn check_opt(a: Option<&str>, b: Option<&str>, id: u32) {
  match (a, b) {
    (Some(a), Some(b)) => check_str(a, b, id),
    (None, None) => {}
    _ => fail(id),
  }
}

/// Byte classes. All predicates are written without short-circuiting
/// operators, so that they do not fork the exploration.
pub mod cl {
  /// Any ASCII character.
  pub fn ascii(b: u8) -> bool {
    b < 0x80
  }
  /// ASCII without line breaks.
  pub fn ascii_line(b: u8) -> bool {
    (b < 0x80) & (b != b'\r') & (b != b'\n')
  }
  /// ASCII without space.
  pub fn word(b: u8) -> bool {
    (b < 0x80) & (b != b' ')
  }
  /// Part of a tag key: no separators.
  pub fn key(b: u8) -> bool {
    (b < 0x80) & (b != b' ') & (b != b';') & (b != b'=')
  }
  /// Part of a tag value: may contain `=`.
  pub fn val(b: u8) -> bool {
    (b < 0x80) & (b != b' ') & (b != b';')
  }
  /// Part of a tag value without `=`
  pub fn valx(b: u8) -> bool {
    key(b)
  }
  /// Part of a tag value without `=`, `\`
  pub fn plain(b: u8) -> bool {
    key(b) & (b != b'\\')
  }
  /// Part of a prefix.
  pub fn pre(b: u8) -> bool {
    (b < 0x80) & (b != b' ') & (b != b'!') & (b != b'@')
  }
  pub fn digit(b: u8) -> bool {
    (b >= b'0') & (b <= b'9')
  }
  pub fn alpha(b: u8) -> bool {
    ((b | 0x20) >= b'a') & ((b | 0x20) <= b'z')
  }
  pub fn letter_digit(b: u8) -> bool {
    alpha(b) | digit(b)
  }
}

#[inline(always)]
pub fn byte(class: fn(u8) -> bool) -> u8 {
  let mut b = [0u8; 1];
  fill(&mut b);
  assume(class(b[0]));
  b[0]
}

/// A line under construction.
pub struct L {
  pub b: Vec<u8>,
  pub off: usize,
}

pub type R = core::ops::Range<usize>;

impl L {
  pub fn new() -> L {
    L {
      b: Vec::with_capacity(256),
      off: 0,
    }
  }

  /// The line will start `off` bytes after an address aligned to 64.
  pub fn aligned(off: usize) -> L {
    let mut b = Vec::with_capacity(512);
    let a = b.as_ptr() as usize;
    let skip = (64 - a % 64) % 64 + off;
    for _ in 0..skip {
      b.push(b'#');
    }
    L { b, off: skip }
  }

  pub fn aligned_cap(off: usize, cap: usize) -> L {
    let mut b = Vec::with_capacity(cap + 256);
    let a = b.as_ptr() as usize;
    let skip = (64 - a % 64) % 64 + off;
    for _ in 0..skip {
      b.push(b'#');
    }
    L { b, off: skip }
  }

  pub fn len(&self) -> usize {
    self.b.len() - self.off
  }

  pub fn str(&self) -> &str {
    unsafe { core::str::from_utf8_unchecked(&self.b[self.off..]) }
  }

  pub fn get(&self, r: &R) -> &str {
    unsafe { core::str::from_utf8_unchecked(&self.b[self.off + r.start..self.off + r.end]) }
  }

  /// Append a literal.
  pub fn s(&mut self, s: &str) -> R {
    let start = self.len();
    self.b.extend_from_slice(s.as_bytes());
    start..self.len()
  }

  pub fn rep(&mut self, c: u8, n: usize) -> R {
    let start = self.len();
    for _ in 0..n {
      self.b.push(c);
    }
    start..self.len()
  }

  /// Append exactly `n` symbolic bytes of the class.
  #[inline(never)]
  pub fn sym(&mut self, n: usize, class: fn(u8) -> bool) -> R {
    let start = self.b.len();
    for _ in 0..n {
      self.b.push(0);
    }
    fill(&mut self.b[start..]);
    for i in start..self.b.len() {
      assume(class(self.b[i]));
    }
    start - self.off..self.len()
  }

  /// Append between `min` and `max` symbolic bytes of the class.
  pub fn hole(&mut self, min: usize, max: usize, class: fn(u8) -> bool) -> R {
    let n = min + choice(max - min + 1);
    self.sym(n, class)
  }

  /// Append one symbolic multi-byte character of `n` (2, 3 or 4) bytes.
  pub fn wide(&mut self, n: usize) -> R {
    let start = self.b.len();
    for _ in 0..n {
      self.b.push(0);
    }
    fill(&mut self.b[start..]);
    let b = &self.b[start..];
    match n {
      2 => assume((b[0] >= 0xc2) & (b[0] <= 0xdf)),
      3 => assume((b[0] >= 0xe1) & (b[0] <= 0xec)),
      _ => assume((b[0] >= 0xf1) & (b[0] <= 0xf3)),
    }
    for i in 1..n {
      assume((b[i] >= 0x80) & (b[i] <= 0xbf));
    }
    start - self.off..self.len()
  }

  /// Like `hole`, but one character may be a multi-byte one.
  pub fn hole_u(&mut self, min: usize, max: usize, class: fn(u8) -> bool) -> R {
    let start = self.len();
    let n = min + choice(max - min + 1);
    // 0: none, 1..=3: a character of 2..=4 bytes in front, 4: one of 2 bytes at the end
    let w = choice(5);
    if w >= 1 && w <= 3 {
      self.wide(w + 1);
    }
    self.sym(n, class);
    if w == 4 {
      self.wide(2);
    }
    start..self.len()
  }

  pub fn pick(&mut self, from: &[&str]) -> R {
    let k = choice(from.len());
    self.s(from[k])
  }
}
