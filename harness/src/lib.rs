//! Harnesses over matreex's public API, one module per property.
#![allow(clippy::all)]
#[macro_use]
pub mod vt;
pub mod elem;
pub mod util;
#[cfg(feature = "replay")]
pub mod replay;

macro_rules! props {
    ($($f:literal $m:ident),*) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub fn registry() -> Vec<(&'static str, extern "C-unwind" fn())> {
            #[allow(unused_mut)]
            let mut v = Vec::new();
            $(#[cfg(feature = $f)] v.extend_from_slice($m::LIST);)*
            v
        }
    };
}
props!("c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06, "c07" c07, "c08" c08, "c09" c09, "c10" c10, "c11" c11, "c12" c12, "c13" c13, "c14" c14, "c15" c15, "c16" c16, "c17" c17, "c18" c18, "c19" c19);
