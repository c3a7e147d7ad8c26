//! C02: the centre reported for a cell is the cell's centre.
use h3_rs::h3_index::cellToLatLng;
use std::f64::consts::{FRAC_PI_2, PI};
use vharness::engine::*;
use vharness::gen::*;
use vharness::model::*;

/// radians: 0.06 mm on the ground
const TOL: f64 = 1e-11;

fn check(env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    let h = c.a[0];
    let cell = match Cell::parse(h) {
        Some(x) => x,
        None => return Ok(false),
    };
    let g = sut("cellToLatLng", || cellToLatLng(h))?.map_err(|e| format!("error {e:?} for a valid cell"))?;
    if !(g.lat.abs() <= FRAC_PI_2 && g.lng.abs() <= PI + 1e-12) {
        return Err(format!("centre out of range: {g:?}"));
    }
    let v = env.m.center(&cell);
    let d = angle(v, geo_to_vec(g.lat, g.lng));
    // the latitude comes from an arc sine, ill conditioned at the poles
    let colat = (v[0] * v[0] + v[1] * v[1]).sqrt();
    let tol = TOL + (1e-14 / colat.max(1e-300)).min(1e-7);
    if colat > 1e-3 {
        st.max("angular error away from the poles", d);
    } else {
        st.max("angular error within 1e-3 rad of a pole", d);
    }
    if d <= tol {
        if cell.is_pent() {
            st.label("pentagon");
        }
        if is_pent_bc(cell.bc) {
            st.label("pentagon base cell");
        }
        if env.m.loc(&cell).face != env.m.home[cell.bc as usize].0 {
            st.label("centre on a face other than the base cell's home face");
        }
        Ok(true)
    } else {
        let (la, ln) = vec_to_geo(v);
        Err(format!("centre {g:?} is {d:e} rad away from the true centre (lat {la}, lng {ln})"))
    }
}

fn g(env: &Env, s: &mut Src) -> Case {
    case(0, &[gen_cell(env, s).index()])
}
fn polar(env: &Env, s: &mut Src) -> Case {
    let res = gen_res(s);
    let r = s.log10(-8.0, -1.0);
    let l = 2.0 * PI * s.unit();
    let v = unit([r * l.cos(), r * l.sin(), s.sign()]);
    case(0, &[env.m.cell_of(v, res as usize).unwrap().index()])
}

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        ops: &[Op { name: "cellToLatLng", args: &[("cell", Kind::Cell)] }],
        rule: "All cells of the coarse resolutions, then valid cells of every resolution with uniform, sparse, periodic and pentagon-fringe digit patterns or located at the delicate places of the icosahedron. Non-trivial: a valid cell whose centre was compared with the reference model's.",
        assumptions: &["tolerance 1e-11 rad (0.06 mm), widened by the condition of the arc sine within about 1e-4 rad of a pole"],
        check,
        phases: |t| {
            let n = if t { 1_000_000_000 } else { 75_000_000 };
            vec![
                Phase::Enum { name: "all cells, coarse resolutions", n: cells_upto_count(if t { 8 } else { 6 }), at: |_, i| case(0, &[cells_upto(i).index()]) },
                Phase::Random { name: "cells", gen: g, n },
                Phase::Random { name: "cells near the poles", gen: polar, n: n / 10 },
            ]
        },
        fuzz: g,
    }
}
