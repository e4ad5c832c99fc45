#![allow(clippy::all)]
#![allow(unused_unsafe, dead_code, unused_variables)]
macro_rules! entries { ($($n:ident { $($b:tt)* })*) => {
    $( #[unsafe(no_mangle)] pub extern "C" fn $n() { #[allow(unused_unsafe)] unsafe { $($b)* } } )*
    pub fn entry(n: &str) -> Option<extern "C" fn()> { match n { $( stringify!($n) => Some($n), )* _ => None } }
} }
#[path = "../../sim/src/refsim.rs"]
mod refsim;
mod data;
mod gates;
mod text;
mod big;
mod long;
pub fn entry(n: &str) -> Option<extern "C" fn()> { data::entry(n).or_else(|| gates::entry(n)).or_else(|| text::entry(n)).or_else(|| big::entry(n)).or_else(|| long::entry(n)) }
