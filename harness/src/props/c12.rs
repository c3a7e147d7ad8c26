//! C12: edges between neighbours, and only between neighbours.
use h3_rs::algos::directionForNeighbor;
use h3_rs::directed_edge::{cellsToDirectedEdge, directedEdgeToCells, getDirectedEdgeDestination, getDirectedEdgeOrigin, isValidDirectedEdge, originToDirectedEdges};
use h3_rs::error::Error;
use vharness::engine::*;
use vharness::gen::*;
use vharness::model::*;

/// the definition of an edge's bits: mode 2, the direction, the origin's rest
fn edge_bits(origin: u64, d: u64) -> u64 {
    (origin & ((1 << 56) - 1)) | 2 << 59 | d << 56
}

fn check(env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    let (h, h2) = (c.a[0], c.a[1]);
    let a = match Cell::parse(h) {
        Some(a) => a,
        None => return Ok(false),
    };
    let b = match Cell::parse(h2) {
        Some(b) => b,
        None => {
            let got = sut("cellsToDirectedEdge", || cellsToDirectedEdge(h, h2))?;
            let dir = sut("directionForNeighbor", || directionForNeighbor(h, h2))? as u64;
            st.label("the destination is no cell");
            return match got {
                Err(_) if dir == 7 => Ok(true),
                x => Err(format!("{x:x?} (direction {dir}) for a destination that is no cell")),
            };
        }
    };
    // the direction of b as seen from a, if they are neighbours
    let dir = (1..7u8).find(|d| env.m.neighbor(&a, *d) == Some(b));
    let got = sut("cellsToDirectedEdge", || cellsToDirectedEdge(h, h2))?;
    let named = sut("directionForNeighbor", || directionForNeighbor(h, h2))? as u64;
    if named != dir.unwrap_or(7) as u64 {
        return Err(format!("directionForNeighbor gives {named}, expected {}", dir.unwrap_or(7)));
    }
    let d = match dir {
        None => {
            st.label(if a == b {
                "the same cell"
            } else if a.res != b.res {
                "different resolutions"
            } else {
                "not neighbours"
            });
            return match got {
                Err(Error::NotNeighbors) => Ok(true),
                x => Err(format!("{x:x?} for cells that are not neighbours")),
            };
        }
        Some(d) => d as u64,
    };
    let want = edge_bits(h, d);
    if got != Ok(want) {
        return Err(format!("the edge is {got:x?}, expected 0x{want:x} (direction {d})"));
    }
    let o = sut("getDirectedEdgeOrigin", || getDirectedEdgeOrigin(want))?;
    if o != Ok(h) {
        return Err(format!("the origin of edge 0x{want:x} is {o:x?}"));
    }
    let t = sut("getDirectedEdgeDestination", || getDirectedEdgeDestination(want))?;
    if t != Ok(h2) {
        return Err(format!("the destination of edge 0x{want:x} is {t:x?}"));
    }
    let both = sut("directedEdgeToCells", || directedEdgeToCells(want))?;
    if both != Ok((h, h2)) {
        return Err(format!("the cells of edge 0x{want:x} are {both:x?}"));
    }
    if !sut("isValidDirectedEdge", || isValidDirectedEdge(want))? {
        return Err(format!("edge 0x{want:x} is called invalid"));
    }
    let list = sut("originToDirectedEdges", || originToDirectedEdges(h))?;
    if !list.contains(&want) {
        return Err(format!("edge 0x{want:x} is not in the list of edges {list:x?}"));
    }
    // there is a way back
    let back = sut("cellsToDirectedEdge", || cellsToDirectedEdge(h2, h))?;
    match back {
        Ok(e) => {
            let both = sut("directedEdgeToCells", || directedEdgeToCells(e))?;
            if both != Ok((h2, h)) {
                return Err(format!("the cells of the opposite edge 0x{e:x} are {both:x?}"));
            }
        }
        Err(e) => return Err(format!("there is no opposite edge: {e:?}")),
    }
    st.label(if a.is_pent() || b.is_pent() {
        "neighbours, one a pentagon"
    } else if a.bc != b.bc {
        "neighbours, different base cells"
    } else {
        "neighbours, same base cell"
    });
    Ok(true)
}

fn g(env: &Env, s: &mut Src) -> Case {
    let a = gen_cell(env, s);
    let mut b = a;
    match s.below(20) {
        0..=13 => {
            if let Some(x) = env.m.neighbor(&b, 1 + s.below(6) as u8) {
                b = x
            }
        }
        14 | 15 => {
            for _ in 0..2 {
                if let Some(x) = env.m.neighbor(&b, 1 + s.below(6) as u8) {
                    b = x
                }
            }
        }
        16 => b = gen_cell_res(env, s, a.res),
        17 => b = gen_cell(env, s),
        18 => {
            if b.res > 0 {
                b = b.parent()
            }
        }
        _ => {
            if b.res < 15 {
                b = b.child(0)
            }
        }
    }
    case(0, &[a.index(), b.index()])
}

/// a cell, and a value that is none but looks like one nearby
fn g_none(env: &Env, s: &mut Src) -> Case {
    let a = gen_cell(env, s);
    let n = if s.chance(30) { a } else { env.m.neighbor(&a, 1 + s.below(6) as u8).unwrap_or(a) };
    let (h, n) = (a.index(), n.index());
    let at = |r: u64| 3 * (15 - r.clamp(1, 15));
    let res = a.res as u64;
    let x = match s.below(8) {
        0 | 1 => n ^ 1 << s.below(64),
        // a pentagon's deleted direction
        2 if a.is_pent() => h & !(7 << at(res)) | 1 << at(res),
        3 if a.is_pent() => h & !(7 << at(1 + s.below(res.max(1)))) | 1 << at(1 + s.below(res.max(1))),
        // a step in the same base cell that a pentagon base cell lacks
        2 | 3 => n & !(127 << 45) | (s.pick(&PENT_BCS) as u64) << 45,
        4 => n & !(7 << at(1 + s.below(15))) | s.below(8) << at(1 + s.below(15)),
        5 => n ^ (1 + s.below(127)) << 56,
        6 => n & !(127 << 45) | (122 + s.below(6)) << 45,
        _ => gen_raw(env, s),
    };
    case(0, &[h, x])
}
/// each pentagon with the cell it lacks
fn lacking(i: u64) -> Case {
    let mut p = Cell::base(PENT_BCS[i as usize % 12]);
    for _ in 0..i / 12 {
        p = p.child(0);
    }
    let h = p.index();
    case(0, &[h, h | 1 << (3 * (15 - p.res.max(1) as u64))])
}

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        ops: &[Op { name: "edge", args: &[("origin", Kind::Cell), ("destination", Kind::Raw)] }],
        rule: "All pairs of base cells, all neighbour pairs of resolutions 0 to 4, then random cells paired with a neighbour, a cell two steps away, the same cell, a parent, a child and any other cell; whether they are neighbours, and in which direction, is computed by exact geometry. Further, valid cells paired with values that are no cells (a neighbour with a changed bit, digit or mode, the cell a pentagon lacks, any value), for which there must be no edge. Non-trivial: the origin is a valid cell.",
        assumptions: &[],
        check,
        phases: |t| {
            let n = if t { 300_000_000 } else { 36_000_000 };
            vec![
                Phase::Enum { name: "all pairs of base cells", n: 122 * 122, at: |_, i| case(0, &[Cell::base((i / 122) as u8).index(), Cell::base((i % 122) as u8).index()]) },
                Phase::Enum {
                    name: "all neighbour pairs of resolutions 0 to 4",
                    n: cells_upto_count(4) * 6,
                    at: |env, i| {
                        let a = cells_upto(i / 6);
                        let b = env.m.neighbor(&a, (i % 6 + 1) as u8).unwrap_or(a);
                        case(0, &[a.index(), b.index()])
                    },
                },
                Phase::Enum { name: "each pentagon with the cell it lacks", n: 192, at: |_, i| lacking(i) },
                Phase::Random { name: "pairs", gen: g, n },
                Phase::Random { name: "destinations that are no cells", gen: g_none, n: n / 6 },
            ]
        },
        fuzz: |e, s| if s.below(4) == 0 { g_none(e, s) } else { g(e, s) },
    }
}
