#[path = "../props/c24.rs"]
mod prop;
fn main() {
    vharness::engine::main(prop::prop())
}
