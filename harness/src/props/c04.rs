//! C04: a 64-bit value is accepted as a cell exactly when it is well formed.
use h3_rs::h3_index::isValidCell;
use vharness::engine::*;
use vharness::gen::*;
use vharness::model::*;

fn check(_env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    let h = c.a[0];
    let got = sut("isValidCell", || isValidCell(h))?;
    let want = valid_cell(h);
    if got != want {
        return Err(format!("isValidCell says {got}, a well formed cell: {want}"));
    }
    st.label(if want { "valid" } else { "invalid" });
    if !want {
        // one bit away from valid?
        if (h >> 56) == 8 && (h >> 45) & 127 < 122 {
            st.label("invalid because of its digits only");
        }
        if h >> 59 & 15 == 1 {
            st.label("invalid with cell mode");
        }
    }
    Ok(true)
}

fn g(env: &Env, s: &mut Src) -> Case {
    case(0, &[gen_raw(env, s)])
}
fn g_valid(env: &Env, s: &mut Src) -> Case {
    case(0, &[gen_cell(env, s).index()])
}
/// all headers (high bit, mode, reserved, resolution, base cell) with six digit tails
fn at_header(_env: &Env, i: u64) -> Case {
    let head = i / 6;
    let res = (head >> 7 & 15) as u32;
    let rest = (1u64 << 45) - 1;
    let keep = |digit: u64| {
        let mut h = rest;
        for r in 1..=res {
            h &= !(7 << (3 * (15 - r)));
            h |= digit << (3 * (15 - r));
        }
        h
    };
    let digits = match i % 6 {
        0 => keep(0),
        1 => keep(1),
        2 => keep(6),
        3 => keep(7),
        4 => 0,
        _ => keep(0) & !(7 << 21) | 1 << 21,
    };
    case(0, &[head << 45 | digits])
}
/// every single and double bit flip of a set of pentagon and hexagon cells
fn at_flip(_env: &Env, i: u64) -> Case {
    let pair = i % (64 * 64);
    let k = i / (64 * 64);
    let res = (k % 16) as u8;
    let mut c = Cell::base([4u8, 5, 117, 121, 24, 0][(k / 16 % 6) as usize]);
    c.res = res;
    for r in 1..=res as usize {
        c.d[r] = match k / 96 {
            0 => 0,
            1 => 6,
            _ => (r % 5 + 2) as u8,
        };
    }
    let (a, b) = (pair / 64, pair % 64);
    case(0, &[c.index() ^ (1 << a) ^ if a == b { 0 } else { 1 << b }])
}

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        ops: &[Op { name: "isValidCell", args: &[("value", Kind::Raw)] }],
        rule: "All 2^19 header combinations with six digit tails; every one- and two-bit flip of 288 cells; random values: uniform, valid cells, cells with flipped bits, a replaced field or digit, deleted pentagon subsequences, edges, constants of the sources. Non-trivial: every case (both answers are checked against the bit-level definition).",
        assumptions: &["which base cells are pentagons is the H3 specification's list"],
        check,
        phases: |t| {
            let n = if t { 3_000_000_000 } else { 240_000_000 };
            vec![
                Phase::Enum { name: "headers", n: 6 << 19, at: at_header },
                Phase::Enum { name: "bit flips", n: 288 * 64 * 64, at: at_flip },
                Phase::Random { name: "values", gen: g, n },
                Phase::Random { name: "valid cells", gen: g_valid, n: n / 3 },
            ]
        },
        fuzz: |env, s| if s.below(2) == 0 { case(0, &[s.u64()]) } else { g(env, s) },
    }
}
