#[path = "../props/c10.rs"]
mod prop;
fn main() {
    vharness::engine::main(prop::prop())
}
