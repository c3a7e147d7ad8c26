#![no_main]
//! libFuzzer target for all properties: PROP names the one, FUZZ_DECODE a file
//! whose case is printed instead.
use std::sync::OnceLock;
use vharness::engine::{fuzz_case, fuzz_one, Env, Prop};
#[path = "../../harness/src/props/c01.rs"]
mod c01;
#[path = "../../harness/src/props/c02.rs"]
mod c02;
#[path = "../../harness/src/props/c03.rs"]
mod c03;
#[path = "../../harness/src/props/c04.rs"]
mod c04;
#[path = "../../harness/src/props/c05.rs"]
mod c05;
#[path = "../../harness/src/props/c06.rs"]
mod c06;
#[path = "../../harness/src/props/c07.rs"]
mod c07;
#[path = "../../harness/src/props/c08.rs"]
mod c08;
#[path = "../../harness/src/props/c09.rs"]
mod c09;
#[path = "../../harness/src/props/c10.rs"]
mod c10;
#[path = "../../harness/src/props/c11.rs"]
mod c11;
#[path = "../../harness/src/props/c12.rs"]
mod c12;
#[path = "../../harness/src/props/c13.rs"]
mod c13;
#[path = "../../harness/src/props/c14.rs"]
mod c14;
#[path = "../../harness/src/props/c15.rs"]
mod c15;
#[path = "../../harness/src/props/c16.rs"]
mod c16;
#[path = "../../harness/src/props/c17.rs"]
mod c17;
#[path = "../../harness/src/props/c18.rs"]
mod c18;
#[path = "../../harness/src/props/c19.rs"]
mod c19;
#[path = "../../harness/src/props/c20.rs"]
mod c20;
#[path = "../../harness/src/props/c21.rs"]
mod c21;
#[path = "../../harness/src/props/c22.rs"]
mod c22;
#[path = "../../harness/src/props/c23.rs"]
mod c23;
#[path = "../../harness/src/props/c24.rs"]
mod c24;
#[path = "../../harness/src/props/c25.rs"]
mod c25;

fn prop() -> Prop {
    match std::env::var("PROP").unwrap_or_default().as_str() {
        "C01" => c01::prop(),
        "C02" => c02::prop(),
        "C03" => c03::prop(),
        "C04" => c04::prop(),
        "C05" => c05::prop(),
        "C06" => c06::prop(),
        "C07" => c07::prop(),
        "C08" => c08::prop(),
        "C09" => c09::prop(),
        "C10" => c10::prop(),
        "C11" => c11::prop(),
        "C12" => c12::prop(),
        "C13" => c13::prop(),
        "C14" => c14::prop(),
        "C15" => c15::prop(),
        "C16" => c16::prop(),
        "C17" => c17::prop(),
        "C18" => c18::prop(),
        "C19" => c19::prop(),
        "C20" => c20::prop(),
        "C21" => c21::prop(),
        "C22" => c22::prop(),
        "C23" => c23::prop(),
        "C24" => c24::prop(),
        "C25" => c25::prop(),
        x => panic!("PROP={x}"),
    }
}

static P: OnceLock<(Prop, Env)> = OnceLock::new();

libfuzzer_sys::fuzz_target!(init: {
    vharness::engine::install_hook();
    let (p, env) = P.get_or_init(|| (prop(), Env::new(1, true)));
    if let Ok(f) = std::env::var("FUZZ_DECODE") {
        let c = fuzz_case(p, env, &std::fs::read(f).expect("input"));
        print!("{:x}", c.op);
        for a in c.a {
            print!(" {a:x}");
        }
        println!();
        std::process::exit(0);
    }
}, |data: &[u8]| {
    let (p, env) = P.get().unwrap();
    fuzz_one(p, env, data);
});
