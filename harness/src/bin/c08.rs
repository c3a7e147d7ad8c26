#[path = "../props/c08.rs"]
mod prop;
fn main() {
    vharness::engine::main(prop::prop())
}
