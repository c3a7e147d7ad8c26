#[path = "../props/c11.rs"]
mod prop;
fn main() {
    vharness::engine::main(prop::prop())
}
