#[path = "../props/c20.rs"]
mod prop;
fn main() {
    vharness::engine::main(prop::prop())
}
