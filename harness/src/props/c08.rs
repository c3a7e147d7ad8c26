//! C08: stepping in a direction reaches the cell that lies there.
use h3_rs::algos::{directionForNeighbor, h3NeighborRotations};
use h3_rs::h3_index::H3_GET_INDEX_DIGIT;
use vharness::engine::*;
use vharness::gen::*;
use vharness::model::*;

/// one step; `d` is a direction digit 0..=7, `n` the carried rotations
fn step(h: u64, d: u64, n: i32) -> Result<Result<u64, h3_rs::error::Error>, String> {
    let dir = H3_GET_INDEX_DIGIT(d, 15);
    let mut rot = n;
    let r = sut("h3NeighborRotations", || h3NeighborRotations(h, dir, &mut rot))?;
    if !(0..6).contains(&rot) && r.is_ok() {
        return Err(format!("h3NeighborRotations left {rot} rotations"));
    }
    Ok(r)
}

fn check(env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    let h = c.a[0];
    let cell = match Cell::parse(h) {
        Some(x) => x,
        None => return Ok(false),
    };
    if c.op == 1 {
        return all(env, &cell, st);
    }
    let (d, n) = (c.a[1], c.a[2] as i64 as i32);
    if d > 7 || !(0..=60).contains(&n) {
        return Ok(false);
    }
    let got = step(h, d, n)?;
    if d == 7 {
        st.label("not a direction");
        return match got {
            Err(_) => Ok(true),
            Ok(x) => Err(format!("a step in no direction arrived at 0x{x:x}")),
        };
    }
    if d == 0 {
        // staying put
        st.label("centre direction");
        return if got == Ok(h) { Ok(true) } else { Err(format!("a step to the centre gave {got:x?}")) };
    }
    let dd = rot_digit(d as u8, n as i64);
    match env.m.neighbor(&cell, dd) {
        Some(want) => {
            if got != Ok(want.index()) {
                return Err(format!("arrived at {got:x?}, the neighbour there is 0x{:x}", want.index()));
            }
            if want.bc != cell.bc {
                st.label("into another base cell");
            }
            if is_pent_bc(cell.bc) || is_pent_bc(want.bc) {
                st.label("pentagon base cell involved");
            }
            if n > 0 {
                st.label("with carried rotations");
            }
            Ok(true)
        }
        None => {
            // the direction a pentagon does not have
            st.label("deleted direction of a pentagon");
            match got {
                Err(_) => Ok(true),
                Ok(x) => {
                    let mut nb = Vec::new();
                    env.m.neighbors(&cell, &mut nb);
                    if nb.iter().any(|y| y.index() == x) {
                        Ok(true)
                    } else {
                        Err(format!("arrived at 0x{x:x}, not a neighbour"))
                    }
                }
            }
        }
    }
}

/// all neighbours of a cell: number, distinctness, symmetry, directions
fn all(env: &Env, cell: &Cell, st: &mut Stats) -> Verdict {
    let h = cell.index();
    let pent = cell.is_pent();
    let mut nb: Vec<u64> = Vec::new();
    for d in if pent { 2 } else { 1 }..7u64 {
        let x = step(h, d, 0)?.map_err(|e| format!("no neighbour in direction {d}: {e:?}"))?;
        if !valid_cell(x) {
            return Err(format!("neighbour 0x{x:x} in direction {d} is not a valid cell"));
        }
        if x == h || nb.contains(&x) {
            return Err(format!("neighbours are not distinct: 0x{x:x} in direction {d}"));
        }
        nb.push(x);
        let back = sut("directionForNeighbor", || directionForNeighbor(h, x))? as i32;
        if back as u64 != d {
            return Err(format!("the direction to neighbour 0x{x:x} is reported as {back}, it is {d}"));
        }
        // the neighbour has this cell as a neighbour
        let y = Cell::parse(x).unwrap();
        let mut found = 0;
        for d2 in if y.is_pent() { 2 } else { 1 }..7u64 {
            if step(x, d2, 0)? == Ok(h) {
                found += 1;
            }
        }
        if found != 1 {
            return Err(format!("0x{x:x} is a neighbour of 0x{h:x}, which is {found} times a neighbour of it"));
        }
    }
    // cells further away have no direction
    let far = env.m.ball(cell, 2);
    for (x, dist) in far {
        if dist != 1 {
            let got = sut("directionForNeighbor", || directionForNeighbor(h, x))? as i32;
            if got != 7 {
                return Err(format!("0x{x:x} at distance {dist} is reported in direction {got}"));
            }
        }
    }
    if pent {
        st.label("pentagon");
    }
    Ok(true)
}

fn g(env: &Env, s: &mut Src) -> Case {
    let c = gen_cell(env, s).index();
    let d = if s.chance(96) { 1 + s.below(6) } else { s.below(8) };
    let n = match s.below(8) {
        0..=3 => 0,
        4..=6 => s.below(6),
        _ => s.below(20),
    };
    case(0, &[c, d, n])
}
fn g_all(env: &Env, s: &mut Src) -> Case {
    case(1, &[gen_cell(env, s).index()])
}

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        ops: &[
            Op { name: "step", args: &[("cell", Kind::Cell), ("direction", Kind::Int), ("rotations", Kind::Int)] },
            Op { name: "neighbours", args: &[("cell", Kind::Cell)] },
        ],
        rule: "Every direction of every cell of the coarse resolutions, then random cells of all resolutions (uniform, long carries, pentagon fringes, edges of the icosahedron), directions and carried rotations, compared with the neighbour computed by exact geometry on the unfolded icosahedron; and whole neighbourhoods: count, distinctness, symmetry, reported directions, none for cells at distance 0 and 2. Non-trivial: a valid cell.",
        assumptions: &["directions are taken in the frame of the cell's base cell, as the H3 index digits are"],
        check,
        phases: |t| {
            let n = if t { 500_000_000 } else { 48_000_000 };
            let top = if t { 7 } else { 5 };
            vec![
                Phase::Enum { name: "every direction of every cell, coarse resolutions", n: cells_upto_count(top) * 6, at: |_, i| case(0, &[cells_upto(i / 6).index(), i % 6 + 1, 0]) },
                Phase::Enum { name: "whole neighbourhoods, resolutions 0 to 3", n: cells_upto_count(3), at: |_, i| case(1, &[cells_upto(i).index()]) },
                Phase::Random { name: "steps", gen: g, n },
                Phase::Random { name: "whole neighbourhoods", gen: g_all, n: n / 40 },
            ]
        },
        fuzz: |e, s| if s.below(4) == 0 { g_all(e, s) } else { g(e, s) },
    }
}
