#[path = "../props/c12.rs"]
mod prop;
fn main() {
    vharness::engine::main(prop::prop())
}
