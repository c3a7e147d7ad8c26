#[path = "../props/c18.rs"]
mod prop;
fn main() {
    vharness::engine::main(prop::prop())
}
