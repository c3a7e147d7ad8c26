#[path = "../props/c19.rs"]
mod prop;
fn main() {
    vharness::engine::main(prop::prop())
}
