//! Harnesses of C20: the text of a matrix in three feature configurations.
#![allow(clippy::all)]
#[macro_use]
#[path = "../../harness/src/vt.rs"]
pub mod vt;
pub mod c20;
pub mod outside;
#[cfg(feature = "replay")]
#[path = "../../harness/src/replay.rs"]
pub mod replay;

pub fn registry() -> Vec<(&'static str, extern "C-unwind" fn())> {
    c20::LIST.to_vec()
}
