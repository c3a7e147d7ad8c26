//! C06: the number of children is exact.
use h3_rs::error::Error;
use h3_rs::h3_index::{_hasChildAtRes, cellToChildren, cellToChildrenSize};
use vharness::engine::*;
use vharness::gen::*;
use vharness::model::*;

fn check(_env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    let size = |h: u64, r: i32| sut("cellToChildrenSize", || cellToChildrenSize(h, r));
    if c.op == 1 {
        // all cells of a resolution
        let r = c.a[0] as i32;
        if !(0..=15).contains(&r) {
            return Ok(false);
        }
        let mut sum = 0i64;
        for bc in 0..122 {
            sum += size(Cell::base(bc).index(), r)?.map_err(|e| format!("base cell {bc}: {e:?}"))?;
        }
        let want = 2 + 120 * pow7(r as u32);
        if sum != want {
            return Err(format!("the base cells' counts add up to {sum}, there are {want} cells"));
        }
        return Ok(true);
    }
    let cell = match Cell::parse(c.a[0]) {
        Some(x) => x,
        None => return Ok(false),
    };
    let r = c.a[1] as i64 as i32;
    let got = size(c.a[0], r)?;
    let has = sut("_hasChildAtRes", || _hasChildAtRes(c.a[0], r))?;
    if has != (cell.res as i32..=15).contains(&r) {
        return Err(format!("_hasChildAtRes says {has}"));
    }
    if r < cell.res as i32 || r > 15 {
        st.label("resolution out of range");
        return match got {
            Err(Error::ResDomain) => Ok(true),
            x => Err(format!("{x:?}, expected Err(ResDomain)")),
        };
    }
    let n = (r - cell.res as i32) as u32;
    let want = num_children(cell.is_pent(), n);
    if got != Ok(want) {
        return Err(format!("{got:?}, expected {want}"));
    }
    if n >= 1 {
        // a count is the sum of its children's counts
        let mut sum = 0i64;
        for d in 0..7 {
            if d != 1 || !cell.is_pent() {
                sum += size(cell.child(d).index(), r)?.map_err(|e| format!("child {d}: {e:?}"))?;
            }
        }
        if sum != want {
            return Err(format!("the children's counts add up to {sum}, the cell has {want}"));
        }
    }
    if n <= 2 {
        let v = sut("cellToChildren", || cellToChildren(c.a[0], r))?.map_err(|e| format!("{e:?}"))?;
        if v.len() as i64 != want {
            return Err(format!("{} children listed, {want} counted", v.len()));
        }
        st.label("compared with a listing");
    }
    if cell.is_pent() {
        st.label("pentagon");
    }
    if n >= 12 {
        st.label("12 or more levels");
    }
    Ok(true)
}

fn g(env: &Env, s: &mut Src) -> Case {
    let cell = gen_cell(env, s);
    let r = match s.below(8) {
        0 => s.u64() as i32 as i64,
        1 => s.range(-2, 18),
        2 => s.pick(&env.dict.ints) as i32 as i64,
        _ => s.range(cell.res as i64, 15),
    };
    case(0, &[cell.index(), r as u64])
}
fn at(_env: &Env, i: u64) -> Case {
    let to = (i % 20) as i64 - 2;
    let from = i / 20 % 16;
    let k = i / 320;
    let mut c = Cell::base((k % 122) as u8);
    c.res = from as u8;
    // centre line, or one digit off it
    let d = k / 122;
    if d > 0 && from > 0 {
        c.d[from as usize] = d as u8 + 1;
    }
    case(0, &[c.index(), to as u64])
}

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        ops: &[
            Op { name: "count", args: &[("cell", Kind::Cell), ("childRes", Kind::Int)] },
            Op { name: "total", args: &[("res", Kind::Int)] },
        ],
        rule: "For all 122 base cells, all resolutions and child resolutions -2..17 (exhaustive in what the count depends on), then random cells of every shape; counts are compared with the exact recurrence, with the sum over the children, and with a listing where it is short; the counts of all base cells must add up to the number of cells. Non-trivial: a valid cell.",
        assumptions: &[],
        check,
        phases: |t| {
            let n = if t { 500_000_000 } else { 120_000_000 };
            vec![
                Phase::Enum { name: "totals", n: 16, at: |_, i| case(1, &[i]) },
                Phase::Enum { name: "all base cells and resolution pairs", n: 122 * 6 * 320, at },
                Phase::Random { name: "cells", gen: g, n },
            ]
        },
        fuzz: g,
    }
}
