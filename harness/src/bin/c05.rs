#[path = "../props/c05.rs"]
mod prop;
fn main() {
    vharness::engine::main(prop::prop())
}
