//! C13: exactly the well formed edges are edges.
use h3_rs::directed_edge::{directedEdgeToCells, getDirectedEdgeDestination, getDirectedEdgeOrigin, isValidDirectedEdge, originToDirectedEdges};
use h3_rs::error::Error;
use vharness::engine::*;
use vharness::gen::*;
use vharness::model::*;

fn check(env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    let h = c.a[0];
    if c.op == 1 {
        // the list of a cell's edges
        let cell = match Cell::parse(h) {
            Some(x) => x,
            None => return Ok(false),
        };
        let list = sut("originToDirectedEdges", || originToDirectedEdges(h))?;
        let mut dests = Vec::new();
        for (i, e) in list.iter().enumerate() {
            let missing = cell.is_pent() && i == 0;
            let want = if missing { 0 } else { (h & ((1 << 56) - 1)) | 2 << 59 | (i as u64 + 1) << 56 };
            if *e != want {
                return Err(format!("edge {i} is 0x{e:x}, expected 0x{want:x}"));
            }
            if !missing {
                if !sut("isValidDirectedEdge", || isValidDirectedEdge(*e))? {
                    return Err(format!("edge {i}, 0x{e:x}, is called invalid"));
                }
                let o = sut("getDirectedEdgeOrigin", || getDirectedEdgeOrigin(*e))?;
                if o != Ok(h) {
                    return Err(format!("edge {i}, 0x{e:x}, has the origin {o:x?}"));
                }
                match sut("getDirectedEdgeDestination", || getDirectedEdgeDestination(*e))? {
                    Ok(x) => dests.push(x),
                    Err(x) => return Err(format!("edge {i}, 0x{e:x}, has no destination: {x:?}")),
                }
            }
        }
        let mut nb = Vec::new();
        env.m.neighbors(&cell, &mut nb);
        let want: Vec<u64> = nb.iter().map(|x| x.index()).collect();
        if dests != want {
            return Err(format!("the edges lead to {dests:x?}, the neighbours are {want:x?}"));
        }
        st.label(if cell.is_pent() { "list of a pentagon" } else { "list of a hexagon" });
        return Ok(true);
    }
    let got = sut("isValidDirectedEdge", || isValidDirectedEdge(h))?;
    let d = h >> 56 & 7;
    let origin = (h & !(0xff << 56)) | 1 << 59;
    // high bit clear, mode 2, direction 1 to 6, the rest a valid cell
    let want = h >> 59 == 2 && (1..=6).contains(&d) && valid_cell(origin) && !(d == 1 && Cell::parse(origin).unwrap().is_pent());
    if got != want {
        return Err(format!("isValidDirectedEdge says {got}, a well formed edge: {want}"));
    }
    st.label(if want { "valid" } else { "invalid" });
    if h >> 59 & 15 != 2 {
        // not an edge at all
        let o = sut("getDirectedEdgeOrigin", || getDirectedEdgeOrigin(h))?;
        let t = sut("getDirectedEdgeDestination", || getDirectedEdgeDestination(h))?;
        let b = sut("directedEdgeToCells", || directedEdgeToCells(h))?;
        if o != Err(Error::DirectedEdgeInvalid) || t != Err(Error::DirectedEdgeInvalid) || b != Err(Error::DirectedEdgeInvalid) {
            return Err(format!("not an edge, but its origin is {o:x?}, its destination {t:x?}, its cells {b:x?}"));
        }
    } else if !want && h >> 63 == 0 {
        st.label("invalid with edge mode");
    }
    Ok(true)
}

fn g(env: &Env, s: &mut Src) -> Case {
    let h = match s.below(8) {
        0..=2 => gen_raw(env, s),
        3 => {
            let c = gen_raw(env, s);
            (c & !(15 << 59)) | 2 << 59
        }
        4 => {
            let c = gen_raw(env, s);
            (c & !(127 << 56)) | 2 << 59 | s.below(8) << 56
        }
        5 => {
            let h = (gen_cell(env, s).index() & !(255 << 56)) | 2 << 59 | (1 + s.below(6)) << 56;
            h ^ 1 << s.below(64)
        }
        _ => (gen_cell(env, s).index() & !(255 << 56)) | 2 << 59 | (1 + s.below(6)) << 56,
    };
    case(0, &[h])
}
fn g_list(env: &Env, s: &mut Src) -> Case {
    case(1, &[gen_cell(env, s).index()])
}
/// all headers with six digit tails
fn at_header(_env: &Env, i: u64) -> Case {
    let head = i / 6;
    let res = (head >> 7 & 15) as u32;
    let keep = |digit: u64| {
        let mut h = (1u64 << 45) - 1;
        for r in 1..=res {
            h &= !(7 << (3 * (15 - r)));
            h |= digit << (3 * (15 - r));
        }
        h
    };
    let digits = match i % 6 {
        0 => keep(0),
        1 => keep(1),
        2 => keep(6),
        3 => keep(7),
        4 => 0,
        _ => keep(0) & !(7 << 21) | 1 << 21,
    };
    case(0, &[head << 45 | digits])
}

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        ops: &[Op { name: "edge_value", args: &[("value", Kind::Raw)] }, Op { name: "edges_of", args: &[("cell", Kind::Cell)] }],
        rule: "All 2^19 header combinations with six digit tails; random values: uniform, valid edges, edges with one flipped bit, valid and broken cells turned into edges with any direction; for values that are not in edge mode the decompositions must say so; and the edge lists of all cells of resolutions 0 to 4 and of random cells against the exact neighbours. Non-trivial: every value; a valid cell for lists.",
        assumptions: &["which base cells are pentagons is the H3 specification's list"],
        check,
        phases: |t| {
            let n = if t { 2_000_000_000 } else { 200_000_000 };
            vec![
                Phase::Enum { name: "headers", n: 6 << 19, at: at_header },
                Phase::Enum { name: "edge lists, resolutions 0 to 4", n: cells_upto_count(4), at: |_, i| case(1, &[cells_upto(i).index()]) },
                Phase::Random { name: "values", gen: g, n },
                Phase::Random { name: "edge lists", gen: g_list, n: n / 25 },
            ]
        },
        fuzz: |e, s| match s.below(3) {
            0 => case(0, &[s.u64()]),
            1 => g(e, s),
            _ => g_list(e, s),
        },
    }
}
