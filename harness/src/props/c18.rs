//! C18: the hierarchy of cells agrees with their geometry.
use h3_rs::h3_index::{cellToChildren, cellToLatLng, latLngToCell};
use h3_rs::iterators::IterCellsChildren;
use h3_rs::lat_lng::LatLng;
use vharness::engine::*;
use vharness::gen::*;
use vharness::model::*;

fn centre(h: u64) -> Result<LatLng, String> {
    sut("cellToLatLng", || cellToLatLng(h))?.map_err(|e| format!("no centre of 0x{h:x}: {e:?}"))
}
fn at(g: &LatLng, res: i32) -> Result<u64, String> {
    sut("latLngToCell", || latLngToCell(g, res))?.map_err(|e| format!("no cell at {g:?}: {e:?}"))
}

fn check(_env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    let h = c.a[0];
    let cell = match Cell::parse(h) {
        Some(x) => x,
        None => return Ok(false),
    };
    let g = centre(h)?;
    // the centres of the finer cells in the middle coincide with this one's
    let mut mid = cell;
    for r in cell.res..=15 {
        if r > cell.res {
            mid = mid.child(0);
        }
        let m = mid.index();
        let first = sut("IterCellsChildren", || IterCellsChildren::from_parent(h, r as i32).next())?;
        if first != Some(m) {
            return Err(format!("the first descendant at resolution {r} is {}, the one in the middle is 0x{m:x}", match first {
                Some(x) => format!("0x{x:x}"),
                None => "missing".into(),
            }));
        }
        if c.a[1] == 1 || r <= cell.res + 1 {
            let x = centre(m)?;
            let e = angle(geo_to_vec(g.lat, g.lng), geo_to_vec(x.lat, x.lng));
            let colat = g.lat.cos().abs();
            if !(e <= 2e-11 + (1e-14 / colat.max(1e-300)).min(2e-7)) {
                return Err(format!("the centre of 0x{m:x} is {e:e} rad away from the centre of its ancestor 0x{h:x}"));
            }
            // within the rounding error of a centre next to a pole?
            if e < 1e-9 {
                let y = at(&g, r as i32)?;
                if y != m {
                    return Err(format!("the cell of resolution {r} at the centre of 0x{h:x} is 0x{y:x}, expected 0x{m:x}"));
                }
            }
        }
    }
    // every child's centre is in the parent
    if cell.res < 15 {
        let kids = sut("cellToChildren", || cellToChildren(h, cell.res as i32 + 1))?.map_err(|e| format!("no children: {e:?}"))?;
        for k in &kids {
            let y = at(&centre(*k)?, cell.res as i32)?;
            if y != h {
                return Err(format!("the centre of child 0x{k:x} is in 0x{y:x}, not in its parent"));
            }
        }
        st.label_n("children", kids.len() as u64);
    }
    // and this centre in this cell's parent
    if cell.res > 0 {
        let y = at(&g, cell.res as i32 - 1)?;
        let want = cell.parent().index();
        if y != want {
            return Err(format!("the centre is in 0x{y:x} at the next coarser resolution, the parent is 0x{want:x}"));
        }
    }
    if cell.is_pent() {
        st.label("pentagon");
    }
    Ok(true)
}

fn g(env: &Env, s: &mut Src) -> Case {
    case(0, &[gen_cell(env, s).index(), u64::from(s.below(8) == 0)])
}

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        ops: &[Op { name: "hierarchy", args: &[("cell", Kind::Cell), ("all_resolutions", Kind::Int)] }],
        rule: "All cells of resolutions 0 to 4 (5 in the thorough tier), then random cells of all resolutions; for each, the centre descendants, the children's centres and the parent are compared through coordinates. Non-trivial: a valid cell.",
        assumptions: &["centres are compared with a tolerance of 2e-11 rad, more next to the poles"],
        check,
        phases: |t| {
            let n = if t { 100_000_000 } else { 20_000_000 };
            vec![
                Phase::Enum { name: "all cells, coarse resolutions", n: cells_upto_count(if t { 6 } else { 4 }), at: |_, i| case(0, &[cells_upto(i).index(), 1]) },
                Phase::Random { name: "cells", gen: g, n },
            ]
        },
        fuzz: g,
    }
}
