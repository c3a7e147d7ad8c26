//! C22: rotating an index turns the cell about its base cell's centre.
use h3_rs::h3_index::{_h3LeadingNonZeroDigit, _h3Rotate60ccw, _h3Rotate60cw, _h3RotatePent60ccw, _h3RotatePent60cw};
use vharness::engine::*;
use vharness::gen::*;
use vharness::model::*;

fn turned(c: &Cell, n: i64) -> Cell {
    let mut x = *c;
    for d in x.d[1..=c.res as usize].iter_mut() {
        *d = rot_digit(*d, n);
    }
    x
}

fn check(_env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    let h = c.a[0];
    let cell = match Cell::parse(h) {
        Some(x) => x,
        None => return Ok(false),
    };
    let lead = sut("_h3LeadingNonZeroDigit", || _h3LeadingNonZeroDigit(h))? as i32;
    if lead != cell.lead() as i32 {
        return Err(format!("the leading digit is reported as {lead}"));
    }
    let (l, r) = (turned(&cell, 1).index(), turned(&cell, -1).index());
    let gl = sut("_h3Rotate60ccw", || _h3Rotate60ccw(h))?;
    let gr = sut("_h3Rotate60cw", || _h3Rotate60cw(h))?;
    if gl != l || gr != r {
        return Err(format!("rotated to 0x{gl:x} (ccw) and 0x{gr:x} (cw), expected 0x{l:x} and 0x{r:x}"));
    }
    let mut x = h;
    for _ in 0..6 {
        x = sut("_h3Rotate60ccw", || _h3Rotate60ccw(x))?;
    }
    if x != h {
        return Err(format!("six rotations end at 0x{x:x}"));
    }
    if is_pent_bc(cell.bc) {
        // about a pentagon there are five sectors: the missing one is skipped
        let skip = |n: i64| {
            let t = turned(&cell, n);
            if t.lead() == 1 {
                turned(&t, n)
            } else {
                t
            }
        };
        let (l, r) = (skip(1).index(), skip(-1).index());
        let gl = sut("_h3RotatePent60ccw", || _h3RotatePent60ccw(h))?;
        let gr = sut("_h3RotatePent60cw", || _h3RotatePent60cw(h))?;
        if gl != l || gr != r {
            return Err(format!("rotated about the pentagon to 0x{gl:x} (ccw) and 0x{gr:x} (cw), expected 0x{l:x} and 0x{r:x}"));
        }
        let (mut x, mut y) = (h, h);
        for _ in 0..5 {
            x = sut("_h3RotatePent60ccw", || _h3RotatePent60ccw(x))?;
            y = sut("_h3RotatePent60cw", || _h3RotatePent60cw(y))?;
        }
        if x != h || y != h {
            return Err(format!("five rotations about the pentagon end at 0x{x:x} (ccw) and 0x{y:x} (cw)"));
        }
        st.label("about a pentagon");
    } else {
        st.label("about a hexagon");
    }
    Ok(true)
}

fn g(env: &Env, s: &mut Src) -> Case {
    case(0, &[gen_cell(env, s).index()])
}

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        ops: &[Op { name: "rotate", args: &[("cell", Kind::Cell)] }],
        rule: "All cells of resolutions 0 to 5, then random cells of all resolutions: one rotation each way, the full turn of six (five about a pentagon, skipping the missing sector), and the leading digit. Non-trivial: a valid cell.",
        assumptions: &["rotations about a pentagon are judged for cells of pentagon base cells only"],
        check,
        phases: |t| {
            let n = if t { 600_000_000 } else { 96_000_000 };
            vec![
                Phase::Enum { name: "all cells, resolutions 0 to 5", n: cells_upto_count(5), at: |_, i| case(0, &[cells_upto(i).index()]) },
                Phase::Random { name: "cells", gen: g, n },
            ]
        },
        fuzz: g,
    }
}
