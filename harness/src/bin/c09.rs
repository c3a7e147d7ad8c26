#[path = "../props/c09.rs"]
mod prop;
fn main() {
    vharness::engine::main(prop::prop())
}
