//! Random number double: every number a generator can return is the harness's
//! choice (a symbolic value), so that all of them are covered.
extern "Rust" {
  /// Any number in lo..=hi.
  fn __double_random(lo: u64, hi: u64) -> u64;
}

fn any(lo: u64, hi: u64) -> u64 {
  assert!(lo <= hi, "cannot sample empty range");
  unsafe { __double_random(lo, hi) }
}

pub trait Int: Copy {
  const MAX: u64;
  fn up(self) -> u64;
  fn down(v: u64) -> Self;
}
macro_rules! int {
  ($($t:ty)*) => { $(impl Int for $t {
    const MAX: u64 = <$t>::MAX as u64;
    fn up(self) -> u64 { self as u64 }
    fn down(v: u64) -> Self { v as $t }
  })* }
}
int!(u8 u16 u32 u64 usize i32 i64);

pub trait SampleRange<T> {
  fn bounds(self) -> (u64, u64);
}
impl<T: Int> SampleRange<T> for std::ops::Range<T> {
  fn bounds(self) -> (u64, u64) {
    assert!(self.start.up() < self.end.up(), "cannot sample empty range");
    (self.start.up(), self.end.up() - 1)
  }
}
impl<T: Int> SampleRange<T> for std::ops::RangeInclusive<T> {
  fn bounds(self) -> (u64, u64) {
    (self.start().up(), self.end().up())
  }
}

pub trait RngCore {
  fn next_u32(&mut self) -> u32 {
    any(0, u32::MAX as u64) as u32
  }
  fn next_u64(&mut self) -> u64 {
    any(0, u64::MAX)
  }
}

pub trait Rng: RngCore {
  fn gen_range<T: Int, R: SampleRange<T>>(&mut self, range: R) -> T {
    let (lo, hi) = range.bounds();
    T::down(any(lo, hi))
  }
  fn gen<T: Int>(&mut self) -> T {
    T::down(any(0, T::MAX))
  }
  fn gen_bool(&mut self, p: f64) -> bool {
    p > 0.0 && (p >= 1.0 || any(0, 1) == 1)
  }
}
impl<R: RngCore> Rng for R {}

pub mod rngs {
  #[derive(Clone, Debug)]
  pub struct ThreadRng;
  impl super::RngCore for ThreadRng {}
}

pub fn thread_rng() -> rngs::ThreadRng {
  rngs::ThreadRng
}
pub fn random<T: Int>() -> T {
  thread_rng().gen()
}
