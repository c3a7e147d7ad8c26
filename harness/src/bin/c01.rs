#[path = "../props/c01.rs"]
mod prop;
fn main() {
    vharness::engine::main(prop::prop())
}
