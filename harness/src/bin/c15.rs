#[path = "../props/c15.rs"]
mod prop;
fn main() {
    vharness::engine::main(prop::prop())
}
