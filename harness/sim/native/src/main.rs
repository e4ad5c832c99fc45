#[path = "../../src/lib.rs"]
mod h;
#[global_allocator]
static G: sym::Guard = sym::Guard;
fn main() { sym::main(h::entry) }
