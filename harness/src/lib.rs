#![allow(unused_imports, dead_code)]
#[macro_use]
mod sym;
use sym::*;

macro_rules! props {
  ($($f:literal $m:ident),* $(,)?) => { $( #[cfg(feature = $f)] mod $m; )* };
}

#[cfg(not(feature = "c04"))]
mod typed;
#[cfg(feature = "c04")]
mod lines;
#[cfg(not(feature = "c04"))]
mod spec;

props! {
  "c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06, "c07" c07, "c08" c08, "c09" c09, "c11" c11, "c12" c12, "c13" c13, "c14" c14, "c15" c15, "c16" c16, "c22" c22, "c21" c21, "c20" c20, "c19" c19, "c18" c18, "c17" c17, "c10" c10,
}
