#[path = "../props/c14.rs"]
mod prop;
fn main() {
    vharness::engine::main(prop::prop())
}
