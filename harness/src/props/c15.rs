//! C15: coordinates of the same point give the same cell.
use h3_rs::h3_index::latLngToCell;
use h3_rs::lat_lng::LatLng;
use std::f64::consts::{FRAC_PI_2, PI};
use vharness::engine::*;
use vharness::gen::*;
use vharness::model::*;

/// radians; the coordinates' rounding error is at most 1e-14
const MARGIN: f64 = 3e-12;

fn at(lat: f64, lng: f64, res: i32) -> Result<u64, String> {
    sut("latLngToCell", || latLngToCell(&LatLng { lat, lng }, res))?.map_err(|e| format!("({lat:?}, {lng:?}) at resolution {res}: {e:?}"))
}

fn check(env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    let (lat, lng) = (f64::from_bits(c.a[0]), f64::from_bits(c.a[1]));
    let (turns, how, res) = (c.a[2] as i64, c.a[3], c.a[4] as i64);
    if !(lat.abs() <= FRAC_PI_2 && lng.abs() <= PI && turns.abs() <= 1_000_000_000 && how <= 3 && (0..=15).contains(&res)) {
        return Ok(false);
    }
    let (lat2, lng2) = match how {
        // whole turns
        0 => (lat, lng + turns as f64 * 2.0 * PI),
        // over a pole
        1 => (if turns % 2 == 0 { PI } else { -PI } - lat, lng + (2 * turns + 1) as f64 * PI),
        // whole turns of the latitude
        2 => (lat + turns as f64 * 2.0 * PI, lng),
        // the longitude of a pole does not matter
        _ => (if lat < 0.0 { -FRAC_PI_2 } else { FRAC_PI_2 }, turns as f64 * 0.7),
    };
    let lat = if how == 3 { lat2 } else { lat };
    // points in the rounding error of a boundary are out of scope: the moved
    // coordinates denote a slightly different point
    let v = geo_to_vec(lat, lng);
    let unit = U0 / (pow7(res as u32) as f64).sqrt();
    let inside = match env.m.cell_of(v, res as usize) {
        Some(x) => env.m.hex_offset(&x, v).unwrap_or(1.0),
        None => return Ok(false),
    };
    // neighbouring numbers are further apart after many turns
    // and the crate takes an arc cosine, ill conditioned close to a face's centre
    let from_centre = angle(env.m.surf(env.m.nearest_face(v), (0.0, 0.0)), v);
    let margin = MARGIN + (1e-14 / from_centre.max(1e-300)).min(3e-8) + if turns.abs() > 20 { 2e-15 * (lat2.abs() + lng2.abs()) } else { 0.0 };
    if inside > 0.5 - margin / unit {
        st.label("too close to a boundary");
        return Ok(false);
    }
    let a = at(lat, lng, res as i32)?;
    let b = at(lat2, lng2, res as i32)?;
    if a != b {
        return Err(format!("0x{a:x}, but 0x{b:x} for the same point written as ({lat2:?}, {lng2:?})"));
    }
    st.label(["whole turns of longitude", "over a pole", "whole turns of latitude", "pole, any longitude"][how as usize]);
    if turns.abs() > 20 {
        st.label("more than 20 turns");
    }
    if inside > 0.499 {
        st.label("within 0.1% of a cell boundary");
    }
    Ok(true)
}

fn g(env: &Env, s: &mut Src) -> Case {
    let res = gen_res(s);
    let (lat, lng) = gen_geo(env, s, res);
    let turns = if s.chance(80) {
        s.range(-3, 3)
    } else {
        let most = 10i64.pow(1 + s.below(9) as u32);
        s.range(-most, most)
    };
    case(0, &[lat.to_bits(), lng.to_bits(), turns as u64, s.below(4), res as u64])
}

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        ops: &[Op {
            name: "same_point",
            args: &[("lat", Kind::F64), ("lng", Kind::F64), ("turns", Kind::Int), ("how", Kind::Int), ("res", Kind::Int)],
        }],
        rule: "Points as for C01, rewritten with whole turns of the longitude or the latitude, over a pole, or with another longitude at a pole; both spellings must give the same cell. Non-trivial: a point further from the next cell boundary than the rounding error of the rewriting (3e-12 rad, 20 micrometres, are left out, more close to the centre of a face as in C01, and more for more than 20 turns, of up to 10^9).",
        assumptions: &["points within the rounding error of a cell boundary are not decided here (C01 bounds how far off they can be)"],
        check,
        phases: |t| vec![Phase::Random { name: "points", gen: g, n: if t { 500_000_000 } else { 42_000_000 } }],
        fuzz: g,
    }
}
