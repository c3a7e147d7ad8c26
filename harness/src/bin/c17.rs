#[path = "../props/c17.rs"]
mod prop;
fn main() {
    vharness::engine::main(prop::prop())
}
