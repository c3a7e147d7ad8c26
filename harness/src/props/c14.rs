//! C14: the fields of an index are independent of each other.
use h3_rs::h3_index::*;
use vharness::engine::*;
use vharness::gen::*;

/// field: (offset, width); 0 high bit, 1 mode, 2 reserved, 3 resolution, 4 base cell, 5.. digits of resolution 1..
fn field(f: u64) -> (u64, u64) {
    match f {
        0 => (63, 1),
        1 => (59, 4),
        2 => (56, 3),
        3 => (52, 4),
        4 => (45, 7),
        _ => (3 * (15 - (f - 4)), 3),
    }
}
fn get(h: u64, f: u64) -> Result<i64, String> {
    sut("getter", || match f {
        0 => H3_GET_HIGH_BIT(h) as i64,
        1 => H3_GET_MODE(h) as i64,
        2 => H3_GET_RESERVED_BITS(h) as i64,
        3 => H3_GET_RESOLUTION(h) as i64,
        4 => H3_GET_BASE_CELL(h) as i64,
        _ => H3_GET_INDEX_DIGIT(h, f as i32 - 4) as i64,
    })
}
const NAMES: [&str; 5] = ["high bit", "mode", "reserved bits", "resolution", "base cell"];
fn name(f: u64) -> String {
    if f < 5 {
        NAMES[f as usize].into()
    } else {
        format!("digit {}", f - 4)
    }
}

fn check(_env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    match c.op {
        0 => {
            // set one field, read all of them
            let (h, f, v) = (c.a[0], c.a[1], c.a[2]);
            if f > 19 {
                return Ok(false);
            }
            let (off, w) = field(f);
            if v >= 1 << w {
                return Ok(false);
            }
            let mut x = h;
            sut("setter", || match f {
                0 => H3_SET_HIGH_BIT(&mut x, v as i32),
                1 => H3_SET_MODE(&mut x, v as i32),
                2 => H3_SET_RESERVED_BITS(&mut x, v as i32),
                3 => H3_SET_RESOLUTION(&mut x, v as i32),
                4 => H3_SET_BASE_CELL(&mut x, v as i32),
                _ => H3_SET_INDEX_DIGIT(&mut x, f as i32 - 4, v as i32),
            })?;
            let mask = ((1u64 << w) - 1) << off;
            let want = (h & !mask) | v << off;
            if x != want {
                return Err(format!("setting the {} to {v} gives 0x{x:x}, expected 0x{want:x}", name(f)));
            }
            for g in 0..20 {
                let (o2, w2) = field(g);
                let want = (x >> o2 & ((1 << w2) - 1)) as i64;
                let got = get(x, g)?;
                if got != want {
                    return Err(format!("the {} of 0x{x:x} is read as {got}, it is {want}", name(g)));
                }
            }
            // the published masks and offsets
            for (g, m, n, o) in [
                (0, H3_HIGH_BIT_MASK, H3_HIGH_BIT_MASK_NEGATIVE, H3_MAX_OFFSET),
                (1, H3_MODE_MASK, H3_MODE_MASK_NEGATIVE, H3_MODE_OFFSET),
                (2, H3_RESERVED_MASK, H3_RESERVED_MASK_NEGATIVE, H3_RESERVED_OFFSET),
                (3, H3_RES_MASK, H3_RES_MASK_NEGATIVE, H3_RES_OFFSET),
                (4, H3_BC_MASK, H3_BC_MASK_NEGATIVE, H3_BC_OFFSET),
                (19, H3_DIGIT_MASK, H3_DIGIT_MASK_NEGATIVE, 0),
            ] {
                let (o2, w2) = field(g);
                let bits = x & ((1 << w2) - 1) << o2;
                if x & m != bits || x & n != x ^ bits || o as u64 != o2 {
                    return Err(format!("the mask of the {} does not select it in 0x{x:x}", name(g)));
                }
            }
            let r = sut("getResolution", || getResolution(x))?;
            if r as u64 != x >> 52 & 15 {
                return Err(format!("getResolution says {r}"));
            }
            st.label(["high bit", "mode", "reserved bits", "resolution", "base cell", "digit"][f.min(5) as usize]);
        }
        2 => {
            // zero a range of digits
            let (h, a, b) = (c.a[0], c.a[1], c.a[2]);
            if !(1..=15).contains(&a) || b > 15 {
                return Ok(false);
            }
            let got = sut("_zeroIndexDigits", || _zeroIndexDigits(h, a as i32, b as i32))?;
            let mut want = h;
            for r in a..=b {
                want &= !(7 << (3 * (15 - r)));
            }
            if got != want {
                return Err(format!("zeroing digits {a} to {b} gives 0x{got:x}, expected 0x{want:x}"));
            }
            st.label("digits zeroed");
        }
        _ => {
            // a new index
            let (res, bc, d) = (c.a[0], c.a[1], c.a[2]);
            if res > 15 || bc > 127 || d > 7 {
                return Ok(false);
            }
            let mut x = c.a[3];
            sut("setH3Index", || setH3Index(&mut x, res as i32, bc as i32, d as i32))?;
            let mut want = 1u64 << 59 | res << 52 | bc << 45;
            for r in 1..16 {
                want |= (if r <= res { d } else { 7 }) << (3 * (15 - r));
            }
            if x != want {
                return Err(format!("the new index is 0x{x:x}, expected 0x{want:x}"));
            }
            st.label("new index");
        }
    }
    Ok(true)
}

fn g(env: &Env, s: &mut Src) -> Case {
    let h = gen_raw(env, s);
    let f = match s.below(3) {
        0 => s.below(5),
        _ => s.below(20),
    };
    case(0, &[h, f, s.below(1 << field(f).1)])
}
fn at_new(_env: &Env, i: u64) -> Case {
    let old = [0, !0, 0x0820_0bff_ffff_ffff][(i % 3) as usize];
    let i = i / 3;
    case(1, &[i % 16, i / 16 % 128, i / 2048, old])
}
fn at_set(_env: &Env, i: u64) -> Case {
    // every field, every value, on three patterns
    let old = [0, !0, 0x5555_5555_5555_5555][(i % 3) as usize];
    case(0, &[old, i / 3 % 20, i / 60])
}

fn at_zero(env: &Env, i: u64) -> Case {
    let old = match i / 240 {
        0 => !0,
        1 => 0x5555_5555_5555_5555,
        2 => 0,
        n => (n ^ env.seed << 32).wrapping_mul(0x9e3779b97f4a7c15),
    };
    case(2, &[old, i % 15 + 1, i / 15 % 16])
}

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        ops: &[
            Op { name: "set_field", args: &[("value", Kind::Raw), ("field", Kind::Int), ("new", Kind::Int)] },
            Op { name: "new_index", args: &[("res", Kind::Int), ("baseCell", Kind::Int), ("digit", Kind::Int), ("old", Kind::Raw)] },
            Op { name: "zero_digits", args: &[("value", Kind::Raw), ("start", Kind::Int), ("end", Kind::Int)] },
        ],
        rule: "Every field with every value on three bit patterns, every new index (all resolutions, base cell values and digits), every range of digits zeroed in 2000 values, then random values and fields: after a change the whole 64-bit value is compared with the layout's, and all 20 fields are read back. Non-trivial: field values that fit the field.",
        assumptions: &["values that do not fit the field are out of scope"],
        check,
        phases: |t| {
            let n = if t { 2_000_000_000 } else { 200_000_000 };
            vec![
                Phase::Enum { name: "every field and value", n: 60 * 128, at: at_set },
                Phase::Enum { name: "every new index", n: 3 * 16 * 128 * 8, at: at_new },
                Phase::Enum { name: "every range of digits zeroed", n: 240 * 2000, at: at_zero },
                Phase::Random { name: "changes", gen: g, n },
            ]
        },
        fuzz: g,
    }
}
