//! C01: a point is indexed to the valid cell that contains it.
use h3_rs::error::Error;
use h3_rs::h3_index::latLngToCell;
use h3_rs::lat_lng::LatLng;
use vharness::engine::*;
use vharness::gen::*;
use vharness::model::*;

/// Angular slack (radians) for floating point rounding. A point's distance from
/// the face's centre is an arc cosine, ill conditioned close to it.
fn slack(from_centre: f64) -> f64 {
    2e-11 + (1e-14 / from_centre.max(1e-300)).min(3e-8)
}
/// beyond this many radians neighbouring numbers are too far apart
const MAX_ANGLE: f64 = 1e11;

fn check(env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    let lat = f64::from_bits(c.a[0]);
    let lng = f64::from_bits(c.a[1]);
    let res = c.a[2] as i64 as i32;
    let r = sut("latLngToCell", || latLngToCell(&LatLng { lat, lng }, res))?;
    let res_ok = (0..=15).contains(&res);
    let fin = lat.is_finite() && lng.is_finite();
    match (&r, res_ok, fin) {
        (Err(Error::ResDomain), false, true) => {
            st.label("rejected: resolution");
            return Ok(true);
        }
        (Err(Error::LatLngDomain), true, false) => {
            st.label("rejected: not finite");
            return Ok(true);
        }
        (Err(_), false, false) => {
            st.label("rejected: both");
            return Ok(true);
        }
        (Ok(_), true, true) => {}
        _ => return Err(format!("unexpected result {r:?}")),
    }
    let h = r.unwrap();
    let cell = match Cell::parse(h) {
        Some(x) => x,
        None => return Err(format!("result 0x{h:x} is not a valid cell")),
    };
    if cell.res as i32 != res {
        return Err(format!("result 0x{h:x} has resolution {}", cell.res));
    }
    if lat.abs() > MAX_ANGLE || lng.abs() > MAX_ANGLE {
        st.label("extreme coordinates: validity only");
        return Ok(true);
    }
    let v = geo_to_vec(lat, lng);
    let unit = U0 / (pow7(res as u32) as f64).sqrt();
    // and the rounding of differences of large angles
    let far = 2e-15 * (lat.abs() + lng.abs());
    let slack = (slack(angle(env.m.surf(env.m.nearest_face(v), (0.0, 0.0)), v)) + if far > 2e-13 { far } else { 0.0 }) / unit;
    if slack > 0.2 {
        st.label("large coordinates, fine resolution: validity only");
        return Ok(true);
    }
    if far > 2e-13 {
        st.label("large coordinates");
    }
    match env.m.hex_offset(&cell, v) {
        Some(w) if w <= 0.5 + slack => {
            st.max("excess over a cell's boundary / tolerance", (w - 0.5) / slack);
            st.max("hexagonal offset (0.5 is the boundary) at res<=10", if res <= 10 { w } else { 0.0 });
            if w > 0.499 {
                st.label("within 0.1% of a cell boundary");
            }
            if is_pent_bc(cell.bc) {
                st.label("pentagon base cell");
            }
            if cell.is_pent() {
                st.label("in a pentagon");
            }
            Ok(true)
        }
        Some(w) => Err(format!(
            "the point is outside of 0x{h:x}: offset {w} cell widths (0.5 is the boundary); it lies in {:x?}",
            env.m.cell_of(v, res as usize).map(|c| c.index())
        )),
        None => Err(format!(
            "the point is not in or next to 0x{h:x}; it lies in {:x?}",
            env.m.cell_of(v, res as usize).map(|c| c.index())
        )),
    }
}

fn g_point(env: &Env, s: &mut Src) -> Case {
    let res = gen_res(s);
    let (lat, lng) = gen_geo(env, s, res);
    case(0, &[lat.to_bits(), lng.to_bits(), res as u64])
}
fn g_shifted(env: &Env, s: &mut Src) -> Case {
    let res = gen_res(s);
    let (lat, lng) = gen_geo(env, s, res);
    let (lat, lng) = match s.below(3) {
        0 => (lat, lng + s.range(-8, 8) as f64 * 2.0 * std::f64::consts::PI),
        1 => (std::f64::consts::PI - lat, lng + std::f64::consts::PI),
        _ if s.below(2) == 0 => (s.sign() * 7.0 * s.unit(), s.sign() * 90.0 * s.unit()),
        _ => {
            // many turns
            let t = (10f64.powi(s.below(11) as i32) * s.unit()).round() * s.sign() * 2.0 * std::f64::consts::PI;
            if s.chance(75) {
                (lat, lng + t)
            } else {
                (lat + t, lng)
            }
        }
    };
    case(0, &[lat.to_bits(), lng.to_bits(), res as u64])
}
fn g_any(env: &Env, s: &mut Src) -> Case {
    let lat = gen_f64_any(env, s);
    let lng = gen_f64_any(env, s);
    let res = match s.below(4) {
        0 => s.u64() as i32 as i64,
        1 => s.range(-3, 20),
        2 if s.below(2) == 0 => s.pick(&env.dict.ints) as i32 as i64,
        _ => s.range(0, 15),
    };
    case(0, &[lat.to_bits(), lng.to_bits(), res as u64])
}
fn g_fuzz(env: &Env, s: &mut Src) -> Case {
    match s.below(3) {
        0 => g_point(env, s),
        1 => g_any(env, s),
        _ => {
            let lat = f64::from_bits(s.u64());
            let lng = f64::from_bits(s.u64());
            let res = s.range(-1, 16);
            case(0, &[lat.to_bits(), lng.to_bits(), res as u64])
        }
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        ops: &[Op {
            name: "latLngToCell",
            args: &[("lat", Kind::F64), ("lng", Kind::F64), ("res", Kind::Int)],
        }],
        rule: "Points drawn from: the whole sphere, both sides of the icosahedron's edges, its vertices and face centres at all scales down to 1e-12, poles, around cell centres (of cells with digits of any pattern), a hair from cell sides and corners, special angles, whole-turn shifts, and arbitrary doubles; every resolution. Non-trivial: every case decided by the oracle (containment for |angle|<=1e11 rad, where the spacing of such numbers is small compared with a cell; validity of the result for any finite input; the documented error otherwise).",
        assumptions: &[
            "containment is judged with 2e-11 rad (0.1 mm) of slack, more close to the centre of a face, where the crate takes an ill conditioned arc cosine; this is some 60 times the error observed",
            "the orientation of the icosahedron and the home of each base cell are the H3 specification's constants",
        ],
        check,
        phases: |t| {
            let n = if t { 500_000_000 } else { 50_000_000 };
            vec![
                Phase::Random { name: "points", gen: g_point, n },
                Phase::Random { name: "points outside of the usual ranges", gen: g_shifted, n: n / 8 },
                Phase::Random { name: "any doubles, any resolution", gen: g_any, n: n / 4 },
            ]
        },
        fuzz: g_fuzz,
    }
}
