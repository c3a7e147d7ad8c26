#[path = "../props/c02.rs"]
mod prop;
fn main() {
    vharness::engine::main(prop::prop())
}
