#[path = "../props/c04.rs"]
mod prop;
fn main() {
    vharness::engine::main(prop::prop())
}
