#[path = "../props/c21.rs"]
mod prop;
fn main() {
    vharness::engine::main(prop::prop())
}
