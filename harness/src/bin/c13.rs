#[path = "../props/c13.rs"]
mod prop;
fn main() {
    vharness::engine::main(prop::prop())
}
