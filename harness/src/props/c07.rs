//! C07: a child position names the child at that place of the ordered list.
use h3_rs::error::Error;
use h3_rs::h3_index::{childPosToCell, validateChildPos};
use vharness::engine::*;
use vharness::gen::*;
use vharness::model::*;

fn check(_env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    let pos = c.a[0] as i64;
    let cell = match Cell::parse(c.a[1]) {
        Some(x) => x,
        None => return Ok(false),
    };
    let r = c.a[2] as i64 as i32;
    let got = sut("childPosToCell", || childPosToCell(pos, c.a[1], r))?;
    let val = sut("validateChildPos", || validateChildPos(pos, c.a[1], r))?;
    let bad = |want: &str| Err(format!("cell at the position: {got:x?}, validation: {val:?}; expected {want}"));
    if !(0..=15).contains(&r) {
        st.label("no such resolution");
        return match (&got, &val) {
            (Err(Error::ResDomain), Err(Error::ResDomain)) => Ok(true),
            _ => bad("Err(ResDomain) from both"),
        };
    }
    if r < cell.res as i32 {
        st.label("coarser resolution");
        return match (&got, &val) {
            (Err(Error::ResMismatch), Err(_)) => Ok(true),
            _ => bad("Err(ResMismatch), and an error from the validation"),
        };
    }
    let n = num_children(cell.is_pent(), (r - cell.res as i32) as u32);
    if pos < 0 || pos >= n {
        st.label("position out of range");
        return match (&got, &val) {
            (Err(Error::Domain), Err(Error::Domain)) => Ok(true),
            _ => bad("Err(Domain) from both"),
        };
    }
    let want = nth_child(&cell, r as u8, pos).index();
    if got != Ok(want) || val.is_err() {
        return bad(&format!("0x{want:x}"));
    }
    if cell.is_pent() {
        st.label("below a pentagon");
    }
    Ok(true)
}

fn position(s: &mut Src, n: i64, levels: u32) -> i64 {
    match s.below(10) {
        0..=3 => s.below(n as u64) as i64,
        4 => {
            // at the seam of some subtree
            let k = s.below(levels as u64 + 1) as u32;
            let base = if s.below(2) == 0 { num_children(true, k) } else { 0 };
            base + pow7(k) * s.range(0, 7) + s.range(-1, 1)
        }
        5 => s.range(0, 60).min(n - 1),
        6 => n - 1 - s.range(0, 60).min(n - 1),
        7 => n + s.range(-1, 1),
        8 => s.range(-2, 0),
        _ => (s.u64() as i64) >> s.below(64),
    }
}
fn g(env: &Env, s: &mut Src) -> Case {
    let cell = gen_cell(env, s);
    let r = s.range(cell.res as i64, 15);
    let levels = (r - cell.res as i64) as u32;
    let pos = position(s, num_children(cell.is_pent(), levels), levels);
    case(0, &[pos as u64, cell.index(), r as u64])
}
/// positions below a pentagon, at every depth
fn g_pent(_env: &Env, s: &mut Src) -> Case {
    let mut cell = Cell::base(s.pick(&PENT_BCS));
    cell.res = s.below(16) as u8;
    let r = s.range(cell.res as i64, 15);
    let levels = (r - cell.res as i64) as u32;
    let pos = position(s, num_children(true, levels), levels);
    case(0, &[pos as u64, cell.index(), r as u64])
}
fn g_any(env: &Env, s: &mut Src) -> Case {
    let cell = gen_cell(env, s);
    let r = match s.below(3) {
        0 => s.u64() as i32 as i64,
        1 => s.pick(&env.dict.ints) as i32 as i64,
        _ => s.range(-2, 18),
    };
    let pos = match s.below(3) {
        0 => (s.u64() as i64) >> s.below(64),
        1 => s.pick(&env.dict.ints) as i64,
        _ => s.range(-2, 400),
    };
    case(0, &[pos as u64, cell.index(), r as u64])
}
/// every position of every cell shape down to four levels, and one step around
fn at(_env: &Env, i: u64) -> Case {
    let mut c = Cell::base([4u8, 117, 0, 121][(i / 16 / 8000 % 4) as usize]);
    let from = i / 8000 % 16;
    c.res = from as u8;
    let k = (i % 8000) as i64;
    let (levels, pos) = match k {
        0..=9 => (1, k - 1),
        10..=69 => (2, k - 11),
        70..=499 => (3, k - 71),
        500..=2999 => (4, k - 501),
        _ => (((k - 3000) / 400).min(15), (k - 3000) % 400 - 2),
    };
    case(0, &[pos as u64, c.index(), (from as i64 + levels).min(15) as u64])
}

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        ops: &[Op { name: "childPosToCell", args: &[("position", Kind::Int), ("parent", Kind::Cell), ("childRes", Kind::Int)] }],
        rule: "Every position for one to four levels below pentagons and hexagons of all resolutions, then random parents, depths up to 15 levels, positions uniform, at subtree seams, at both ends, just outside and anywhere; all resolutions including invalid ones. Non-trivial: a valid parent cell.",
        assumptions: &[],
        check,
        phases: |t| {
            let n = if t { 1_000_000_000 } else { 120_000_000 };
            vec![
                Phase::Enum { name: "every position, four levels", n: 4 * 16 * 8000, at },
                Phase::Random { name: "positions", gen: g, n },
                Phase::Random { name: "positions below pentagons", gen: g_pent, n: n / 2 },
                Phase::Random { name: "any arguments", gen: g_any, n: n / 4 },
            ]
        },
        fuzz: |e, s| match s.below(3) {
            0 => g(e, s),
            1 => g_pent(e, s),
            _ => g_any(e, s),
        },
    }
}
