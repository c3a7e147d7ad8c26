//! C16: no 64-bit value makes a function panic, abort or hang.
use h3_rs::algos::*;
use h3_rs::base_cells::*;
use h3_rs::directed_edge::*;
use h3_rs::h3_index::*;
use h3_rs::iterators::IterCellsChildren;
use h3_rs::lat_lng::*;
use vharness::engine::*;
use vharness::gen::*;
use vharness::model::valid_cell;

fn check(_env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    let (h, h2) = (c.a[0], c.a[1]);
    let res = c.a[2] as i64 as i32;
    let (k, pos) = ((c.a[3] % 6) as u32, c.a[4] as i64);
    let (lat, lng) = (f64::from_bits(c.a[5]), f64::from_bits(c.a[6]));
    sut("isValidCell", || isValidCell(h))?;
    sut("isPentagon", || isPentagon(h))?;
    sut("getResolution", || getResolution(h))?;
    sut("cellToLatLng", || cellToLatLng(h).is_ok())?;
    sut("cellToChildrenSize", || cellToChildrenSize(h, res).is_ok())?;
    sut("validateChildPos", || validateChildPos(pos, h, res).is_ok())?;
    sut("childPosToCell", || childPosToCell(pos, h, res).is_ok())?;
    sut("IterCellsChildren", || IterCellsChildren::from_parent(h, res).take(60).count())?;
    let below = res as i64 - (h >> 52 & 15) as i64;
    if below <= 3 {
        // to the end and beyond, in turns with another
        sut("IterCellsChildren", || {
            let mut it = IterCellsChildren::from_parent(h, res);
            let n = it.by_ref().take(1000).count();
            n + usize::from(it.next().is_some())
        })?;
        sut("cellToChildren", || cellToChildren(h, res).is_ok())?;
    }
    sut("_h3ToFaceIjk", || _h3ToFaceIjk(h).is_ok())?;
    let (from, to) = ((c.a[3] >> 16 & 15) as i32, (c.a[3] >> 20 & 15) as i32);
    if from > 0 {
        sut("_zeroIndexDigits", || _zeroIndexDigits(h, from, to))?;
    }
    sut("isValidDirectedEdge", || isValidDirectedEdge(h))?;
    sut("getDirectedEdgeOrigin", || getDirectedEdgeOrigin(h).is_ok())?;
    sut("getDirectedEdgeDestination", || getDirectedEdgeDestination(h).is_ok())?;
    sut("directedEdgeToCells", || directedEdgeToCells(h).is_ok())?;
    sut("originToDirectedEdges", || originToDirectedEdges(h))?;
    sut("cellsToDirectedEdge", || cellsToDirectedEdge(h, h2).is_ok() | cellsToDirectedEdge(h2, h).is_ok())?;
    sut("directionForNeighbor", || directionForNeighbor(h, h2) as i32)?;
    for d in 0..8 {
        let mut rot = (c.a[3] >> 8 & 7) as i32;
        sut("h3NeighborRotations", || h3NeighborRotations(h, H3_GET_INDEX_DIGIT(d, 15), &mut rot).is_ok())?;
    }
    sut("gridDiskDistancesUnsafe", || gridDiskDistancesUnsafe(h, k).is_ok())?;
    sut("gridRingUnsafe", || gridRingUnsafe(h, k).is_ok())?;
    sut("gridDiskDistances", || gridDiskDistances(h, k).is_ok())?;
    sut("latLngToCell", || latLngToCell(&LatLng { lat, lng }, res).is_ok())?;
    sut("maxGridDiskSize", || maxGridDiskSize(c.a[1] as u32))?;
    sut("isResolutionClassIII", || isResolutionClassIII(res))?;
    sut("_h3Rotate60ccw", || _h3Rotate60ccw(h))?;
    sut("_h3Rotate60cw", || _h3Rotate60cw(h))?;
    sut("_h3RotatePent60ccw", || _h3RotatePent60ccw(h))?;
    sut("_h3RotatePent60cw", || _h3RotatePent60cw(h))?;
    sut("_h3LeadingNonZeroDigit", || _h3LeadingNonZeroDigit(h) as i32)?;
    sut("constrainLat", || constrainLat(lat))?;
    sut("constrainLng", || constrainLng(lng))?;
    sut("_posAngleRads", || _posAngleRads(lng))?;
    let (p, q) = (LatLng { lat, lng }, LatLng { lat: 1.0, lng: 2.0 });
    sut("_geoAzimuthRads", || _geoAzimuthRads(&p, &q))?;
    sut("_geoAzDistanceRads", || _geoAzDistanceRads(&p, lat, lng).lat)?;
    sut("_geoAzDistanceRads", || _geoAzDistanceRads(&q, lat, lng).lat)?;
    sut("res0CellCount", res0CellCount)?;
    st.label(if valid_cell(h) {
        "valid cell"
    } else if h >> 59 == 2 {
        "edge mode"
    } else if h >> 45 & 127 > 121 {
        "no such base cell"
    } else if h >> 59 == 1 {
        "cell mode, invalid"
    } else {
        "other"
    });
    Ok(!valid_cell(h))
}

fn res_of(env: &Env, s: &mut Src) -> i64 {
    match s.below(8) {
        0 | 1 => s.u64() as i32 as i64,
        2 => s.pick(&env.dict.ints) as i32 as i64,
        3 => s.pick(&[i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, -1, 16, 17, 255, 256]) as i64,
        _ => s.range(-1, 16),
    }
}
fn g(env: &Env, s: &mut Src) -> Case {
    let h = gen_raw(env, s);
    let h2 = if s.below(2) == 0 { gen_raw(env, s) } else { h ^ 1 << s.below(64) };
    let res = if s.below(3) == 0 { (h >> 52 & 15) as i64 + s.range(-1, 3) } else { res_of(env, s) };
    let pos = (s.u64() as i64) >> s.below(64);
    let kk = (s.u64() & !0xff) | s.pick(&[0, 1, 1, 2, 2, 3, 5]);
    case(0, &[h, h2, res as u64, kk, pos as u64, gen_f64_any(env, s).to_bits(), gen_f64_any(env, s).to_bits()])
}
/// any header, random digits
fn g_head(_env: &Env, s: &mut Src) -> Case {
    let h = s.below(1 << 19) << 45
        | match s.below(4) {
            0 => (1 << 45) - 1,
            1 => 0,
            2 => s.u64() & ((1 << 45) - 1),
            _ => s.u64() & s.u64() & ((1 << 45) - 1),
        };
    let res = s.range(0, 15);
    case(0, &[h, h, res as u64, s.below(4), s.below(100), 0, 0])
}

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        ops: &[Op {
            name: "call_everything",
            args: &[
                ("value", Kind::Raw),
                ("value2", Kind::Raw),
                ("res", Kind::Int),
                ("k_and_rotations", Kind::Raw),
                ("position", Kind::Int),
                ("lat", Kind::F64),
                ("lng", Kind::F64),
            ],
        }],
        rule: "Every function is called with any 64-bit values (uniform, broken cells and edges, any header, edge directions, constants of the sources), any resolution, position and coordinates, and small radii, in a build with overflow and debug checks; it must return. Non-trivial: the first value is not a valid cell.",
        assumptions: &["k up to 5 (a larger disk around an invalid value costs more, and takes the same paths)", "a case that takes more than 30 s of processor time counts as a hang"],
        check,
        phases: |t| {
            let n = if t { 100_000_000 } else { 15_000_000 };
            vec![
                Phase::Random { name: "values", gen: g, n },
                Phase::Random { name: "headers", gen: g_head, n },
            ]
        },
        fuzz: |e, s| {
            if s.below(2) == 0 {
                return g(e, s);
            }
            let a: Vec<u64> = (0..7).map(|_| s.u64()).collect();
            case(0, &a)
        },
    }
}
