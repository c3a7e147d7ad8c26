#[path = "../props/c25.rs"]
mod prop;
fn main() {
    vharness::engine::main(prop::prop())
}
