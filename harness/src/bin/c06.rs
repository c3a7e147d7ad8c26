#[path = "../props/c06.rs"]
mod prop;
fn main() {
    vharness::engine::main(prop::prop())
}
