//! C03: indexing a cell's centre at the cell's resolution gives the cell back.
use h3_rs::h3_index::{cellToLatLng, latLngToCell};
use std::f64::consts::PI;
use vharness::engine::*;
use vharness::gen::*;
use vharness::model::*;

fn check(env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    let h = c.a[0];
    let cell = match Cell::parse(h) {
        Some(x) => x,
        None => return Ok(false),
    };
    let g = sut("cellToLatLng", || cellToLatLng(h))?.map_err(|e| format!("cellToLatLng: error {e:?} for a valid cell"))?;
    let back = sut("latLngToCell", || latLngToCell(&g, cell.res as i32))?
        .map_err(|e| format!("latLngToCell: error {e:?} for {g:?}"))?;
    if back != h {
        return Err(format!("centre {g:?} is indexed to 0x{back:x}"));
    }
    if cell.is_pent() {
        st.label("pentagon");
    }
    if is_pent_bc(cell.bc) {
        st.label("pentagon base cell");
    }
    if env.m.loc(&cell).face != env.m.home[cell.bc as usize].0 {
        st.label("centre on a face other than the base cell's home face");
    }
    Ok(true)
}

fn g(env: &Env, s: &mut Src) -> Case {
    case(0, &[gen_cell(env, s).index()])
}
fn polar(env: &Env, s: &mut Src) -> Case {
    let res = gen_res(s);
    let r = s.log10(-8.0, -1.0);
    let l = 2.0 * PI * s.unit();
    let v = unit([r * l.cos(), r * l.sin(), s.sign()]);
    case(0, &[env.m.cell_of(v, res as usize).unwrap().index()])
}

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        ops: &[Op { name: "roundTrip", args: &[("cell", Kind::Cell)] }],
        rule: "All cells of the coarse resolutions, then valid cells of every resolution with uniform, sparse, periodic and pentagon-fringe digit patterns or located at the delicate places of the icosahedron. Non-trivial: a valid cell that went cell -> centre -> cell.",
        assumptions: &[],
        check,
        phases: |t| {
            let n = if t { 600_000_000 } else { 50_000_000 };
            vec![
                Phase::Enum { name: "all cells, coarse resolutions", n: cells_upto_count(if t { 8 } else { 6 }), at: |_, i| case(0, &[cells_upto(i).index()]) },
                Phase::Random { name: "cells", gen: g, n },
                Phase::Random { name: "cells near the poles", gen: polar, n: n / 10 },
            ]
        },
        fuzz: g,
    }
}
