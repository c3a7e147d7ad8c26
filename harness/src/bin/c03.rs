#[path = "../props/c03.rs"]
mod prop;
fn main() {
    vharness::engine::main(prop::prop())
}
