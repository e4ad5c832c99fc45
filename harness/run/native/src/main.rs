#[path = "../../src/lib.rs"]
mod h;
pub use h::runner::{run_file, run_input};
#[global_allocator]
static G: sym::Guard = sym::Guard;
fn main() { sym::main(h::entry) }
