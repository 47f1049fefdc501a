//! Portable double of the NEON intrinsics, so that the code for aarch64 can be
//! compiled, executed symbolically and replayed here. Lane 0 is the first byte.
#![allow(non_camel_case_types, dead_code, clippy::missing_safety_doc)]

macro_rules! vectors {
  ($($t:ident $e:ty, $n:literal, $a:literal);* $(;)?) => { $(
    #[derive(Clone, Copy, Debug)]
    #[repr(C, align($a))]
    pub struct $t(pub [$e; $n]);
  )* };
}
vectors! {
  uint8x16_t u8, 16, 16; uint16x8_t u16, 8, 16; uint32x4_t u32, 4, 16; uint64x2_t u64, 2, 16;
  uint8x8_t u8, 8, 8; uint16x4_t u16, 4, 8; uint64x1_t u64, 1, 8;
}

pub unsafe fn vld1q_u8(p: *const u8) -> uint8x16_t {
  uint8x16_t(p.cast::<[u8; 16]>().read_unaligned())
}
pub unsafe fn vst1q_u8(p: *mut u8, v: uint8x16_t) {
  p.cast::<[u8; 16]>().write_unaligned(v.0)
}
pub unsafe fn vdupq_n_u8(v: u8) -> uint8x16_t {
  uint8x16_t([v; 16])
}

macro_rules! lanes {
  ($($f:ident |$a:ident, $b:ident| $e:expr);* $(;)?) => { $(
    pub unsafe fn $f(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
      let mut r = [0u8; 16];
      let mut i = 0;
      while i < 16 {
        let ($a, $b) = (a.0[i], b.0[i]);
        r[i] = $e;
        i += 1;
      }
      uint8x16_t(r)
    }
  )* };
}
lanes! {
  vceqq_u8 |a, b| ((a == b) as u8).wrapping_neg();
  vandq_u8 |a, b| a & b;
  vorrq_u8 |a, b| a | b;
  veorq_u8 |a, b| a ^ b;
  vbicq_u8 |a, b| a & !b;
  vaddq_u8 |a, b| a.wrapping_add(b);
  vsubq_u8 |a, b| a.wrapping_sub(b);
}
pub unsafe fn vmvnq_u8(a: uint8x16_t) -> uint8x16_t {
  let mut r = a.0;
  for b in &mut r {
    *b = !*b;
  }
  uint8x16_t(r)
}
pub unsafe fn vmaxvq_u8(a: uint8x16_t) -> u8 {
  let mut m = 0;
  for b in a.0 {
    m = if b > m { b } else { m };
  }
  m
}

pub unsafe fn vreinterpretq_u16_u8(a: uint8x16_t) -> uint16x8_t {
  core::mem::transmute(a)
}
pub unsafe fn vreinterpretq_u64_u8(a: uint8x16_t) -> uint64x2_t {
  core::mem::transmute(a)
}
pub unsafe fn vreinterpret_u64_u8(a: uint8x8_t) -> uint64x1_t {
  core::mem::transmute(a)
}
pub unsafe fn vshrn_n_u16(a: uint16x8_t, n: i32) -> uint8x8_t {
  let mut r = [0u8; 8];
  let mut i = 0;
  while i < 8 {
    r[i] = (a.0[i] >> n) as u8;
    i += 1;
  }
  uint8x8_t(r)
}
pub unsafe fn vget_lane_u64(a: uint64x1_t, lane: i32) -> u64 {
  a.0[lane as usize]
}
pub unsafe fn vgetq_lane_u64(a: uint64x2_t, lane: i32) -> u64 {
  a.0[lane as usize]
}
