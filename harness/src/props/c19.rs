//! C19: 122 base cells, twelve pentagons per resolution, and classes.
use h3_rs::base_cells::{getRes0Cells, res0CellCount};
use h3_rs::h3_index::{getResolution, isPentagon, isResolutionClassIII, isValidCell};
use vharness::engine::*;
use vharness::gen::*;
use vharness::model::*;

fn check(_env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    match c.op {
        0 => {
            let h = c.a[0];
            let cell = match Cell::parse(h) {
                Some(x) => x,
                None => return Ok(false),
            };
            let p = sut("isPentagon", || isPentagon(h))?;
            if p != cell.is_pent() {
                return Err(format!("isPentagon says {p}"));
            }
            let r = sut("getResolution", || getResolution(h))?;
            if r != cell.res as i32 {
                return Err(format!("getResolution says {r}"));
            }
            let odd = sut("isResolutionClassIII", || isResolutionClassIII(r))?;
            if odd != (r % 2 == 1) {
                return Err(format!("resolution {r}: isResolutionClassIII says {odd}"));
            }
            st.label(if p { "pentagon" } else { "hexagon" });
            if !p && is_pent_bc(cell.bc) {
                st.label("hexagon of a pentagon base cell");
            }
            Ok(true)
        }
        1 => {
            // number of pentagons of a resolution
            let res = c.a[0];
            if res > 5 {
                return Ok(false);
            }
            let n = cell_count(res as u32);
            let mut pents = 0;
            for i in 0..n {
                let h = nth_cell(res as u8, i).index();
                if sut("isPentagon", || isPentagon(h))? {
                    pents += 1;
                }
            }
            if pents != 12 {
                return Err(format!("{pents} pentagons among the {n} cells of resolution {res}"));
            }
            st.label("pentagons of a resolution counted");
            Ok(true)
        }
        _ => {
            let n = sut("res0CellCount", res0CellCount)?;
            if n != 122 {
                return Err(format!("res0CellCount is {n}"));
            }
            let v = sut("getRes0Cells", getRes0Cells)?.map_err(|e| format!("getRes0Cells: {e:?}"))?;
            if v.len() != 122 {
                return Err(format!("getRes0Cells has {} cells", v.len()));
            }
            for (i, h) in v.iter().enumerate() {
                let want = Cell::base(i as u8).index();
                if *h != want || !sut("isValidCell", || isValidCell(*h))? {
                    return Err(format!("base cell {i} is 0x{h:x}, expected 0x{want:x}"));
                }
            }
            st.label("list of base cells");
            Ok(true)
        }
    }
}

fn g(env: &Env, s: &mut Src) -> Case {
    case(0, &[gen_cell(env, s).index()])
}
/// pentagons, and cells that differ from one in one digit, at every place
fn at_near(_env: &Env, i: u64) -> Case {
    let mut c = Cell::base((i / (16 * 16 * 7)) as u8);
    c.res = (i % 16) as u8;
    let place = (i / 16 % 16) as usize;
    let d = (i / 256 % 7) as u8;
    if place >= 1 && place <= c.res as usize && !(d == 1 && is_pent_bc(c.bc)) {
        c.d[place] = d;
    }
    case(0, &[c.index()])
}

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        ops: &[
            Op { name: "classify", args: &[("cell", Kind::Cell)] },
            Op { name: "count_pentagons", args: &[("res", Kind::Int)] },
            Op { name: "base_cells", args: &[("repeat", Kind::Int)] },
        ],
        rule: "The list of base cells; the pentagons counted among all cells of resolutions 0 to 5; for all base cells and resolutions the centre cell and every cell one digit away from it; then random cells. Non-trivial: a valid cell.",
        assumptions: &["which base cells are pentagons is the H3 specification's list"],
        check,
        phases: |t| {
            let n = if t { 2_000_000_000 } else { 240_000_000 };
            vec![
                Phase::Enum { name: "list of base cells", n: 2, at: |_, i| case(2, &[i]) },
                Phase::Enum { name: "pentagons counted", n: 6, at: |_, i| case(1, &[i]) },
                Phase::Enum { name: "one digit away from a centre cell", n: 122 * 16 * 16 * 7, at: at_near },
                Phase::Random { name: "cells", gen: g, n },
            ]
        },
        fuzz: g,
    }
}
