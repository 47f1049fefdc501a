#![allow(unused_imports, dead_code, static_mut_refs)]
#[path = "../../harness/src/sym.rs"]
mod sym;
use sym::*;
mod world;

macro_rules! props {
  ($($f:literal $m:ident),* $(,)?) => { $( #[cfg(feature = $f)] mod $m; )* };
}

props! { "c24" c24, "c25" c25, "c26" c26, "c27" c27, "c28" c28, "c29" c29, "c30" c30, "c31" c31, "c32" c32, "c33" c33 }
