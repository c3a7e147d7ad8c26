#[path = "../props/c07.rs"]
mod prop;
fn main() {
    vharness::engine::main(prop::prop())
}
