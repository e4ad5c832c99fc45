#![allow(clippy::all)]
#![allow(unused_unsafe, dead_code, unused_variables, static_mut_refs, unused_imports)]
macro_rules! entries { ($($n:ident { $($b:tt)* })*) => {
    $( #[unsafe(no_mangle)] pub extern "C" fn $n() { #[allow(unused_unsafe)] unsafe { $($b)* } } )*
    pub fn entry(n: &str) -> Option<extern "C" fn()> { match n { $( stringify!($n) => Some($n), )* _ => None } }
} }
#[path = "/repo/runner/src/lib.rs"]
pub mod runner;
#[allow(unused)]
pub use runner::{run_file, run_input};
mod link;
pub fn entry(n: &str) -> Option<extern "C" fn()> { link::entry(n) }
