#[path = "../props/c22.rs"]
mod prop;
fn main() {
    vharness::engine::main(prop::prop())
}
