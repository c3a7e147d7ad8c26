#[path = "../props/c23.rs"]
mod prop;
fn main() {
    vharness::engine::main(prop::prop())
}
