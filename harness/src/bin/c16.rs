#[path = "../props/c16.rs"]
mod prop;
fn main() {
    vharness::engine::main(prop::prop())
}
