//! C17: the spherical helper functions agree with vector geometry.
use h3_rs::lat_lng::*;
use h3_rs::vec2d::{Vec2d, _v2dMag};
use h3_rs::vec3d::{Vec3d, _geoToVec3d, _pointSquareDist};
use std::f64::consts::{FRAC_PI_2, PI};
use vharness::engine::*;
use vharness::gen::*;
use vharness::model::*;

const TURN: f64 = 2.0 * PI;
/// how far x is from a multiple of p
fn off(x: f64, p: f64) -> f64 {
    (x - p * (x / p).round()).abs()
}
/// azimuth of v seen from p, and the length of the projection of v on the horizon
fn azimuth(lat: f64, lng: f64, v: Vec3) -> (f64, f64) {
    let east = [-lng.sin(), lng.cos(), 0.0];
    let north = [-lat.sin() * lng.cos(), -lat.sin() * lng.sin(), lat.cos()];
    let (e, n) = (dot(v, east), dot(v, north));
    (e.atan2(n), (e * e + n * n).sqrt())
}

fn check(_env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    let f = |i: usize| f64::from_bits(c.a[i]);
    match c.op {
        0 => {
            let x = f(0);
            if !x.is_finite() {
                return Ok(false);
            }
            // whether it is the same angle can be told while rounding allows it
            let tol = 1e-11 + x.abs() * 2e-15;
            let told = x.abs() <= 1e6;
            let g = sut("constrainLng", || constrainLng(x))?;
            if !(g.abs() <= PI * (1.0 + 1e-15) && (!told || off(g - x % TURN, TURN) <= tol)) {
                return Err(format!("constrainLng gives {g:?}"));
            }
            if x.abs() <= PI && off(g - x, TURN) > 1e-14 {
                return Err(format!("constrainLng changes a proper longitude to {g:?}"));
            }
            let g = sut("constrainLat", || constrainLat(x))?;
            if !(g.abs() <= FRAC_PI_2 * (1.0 + 1e-15) && (!told || off(g - x % PI, PI) <= tol)) {
                return Err(format!("constrainLat gives {g:?}"));
            }
            if x.abs() > 1000.0 {
                st.label("large angles");
            }
            if x.abs() <= FRAC_PI_2 && (g - x).abs() > 1e-14 {
                return Err(format!("constrainLat changes a proper latitude to {g:?}"));
            }
            if (-TURN..2.0 * TURN).contains(&x) {
                let g = sut("_posAngleRads", || _posAngleRads(x))?;
                if !((0.0..=TURN).contains(&g) && off(g - x, TURN) <= 1e-14) {
                    return Err(format!("_posAngleRads gives {g:?}"));
                }
                st.label("angles within a turn of [0, 2 pi)");
            }
            if x.abs() > 1e300 {
                return Ok(true);
            }
            let mut p = LatLng { lat: 7.0, lng: 7.0 };
            sut("setGeoDegs", || setGeoDegs(&mut p, x, -x / 3.0))?;
            let mut q = LatLng { lat: 7.0, lng: 7.0 };
            sut("_setGeoRads", || _setGeoRads(&mut q, x, -x / 3.0))?;
            if (q.lat, q.lng) != (x, -x / 3.0) {
                return Err(format!("_setGeoRads gives {q:?}"));
            }
            let (a, b) = (x * (PI / 180.0), -x / 3.0 * (PI / 180.0));
            if (p.lat - a).abs() > 2e-15 * a.abs() + 1e-300 || (p.lng - b).abs() > 2e-15 * b.abs() + 1e-300 {
                return Err(format!("setGeoDegs gives {p:?}"));
            }
            st.label("angles");
            Ok(true)
        }
        1 => {
            // a point at an azimuth and a distance
            let (lat, lng, az, d) = (f(0), f(1), f(2), f(3));
            if !(lat.abs() <= 1.5 && lng.abs() <= PI && (-TURN..2.0 * TURN).contains(&az) && (0.0..=PI).contains(&d)) {
                return Ok(false);
            }
            let p = LatLng { lat, lng };
            let q = sut("_geoAzDistanceRads", || _geoAzDistanceRads(&p, az, d))?;
            let v = geo_to_vec(lat, lng);
            let east = [-lng.sin(), lng.cos(), 0.0];
            let north = [-lat.sin() * lng.cos(), -lat.sin() * lng.sin(), lat.cos()];
            let dir = lin(lin([0.0; 3], az.cos(), north), az.sin(), east);
            let want = lin(lin([0.0; 3], d.cos(), v), d.sin(), dir);
            let got = geo_to_vec(q.lat, q.lng);
            let e = angle(want, got);
            let colat = (want[0] * want[0] + want[1] * want[1]).sqrt();
            // the latitude is an arc sine, ill conditioned at the poles
            let tol = 1e-11 + 1e-14 / colat.max(1e-7);
            if !(e <= tol) {
                return Err(format!("_geoAzDistanceRads gives {q:?}, {e:e} rad away from {:?}", vec_to_geo(want)));
            }
            if !(q.lng.abs() <= PI + 1e-12) {
                return Err(format!("_geoAzDistanceRads gives a longitude out of range: {q:?}"));
            }
            st.max("error of a point at an azimuth and distance / tolerance", e / tol);
            st.label("azimuth and distance");
            if d > 1e-5 && d < PI - 1e-5 && colat > 1e-3 {
                let a = sut("_geoAzimuthRads", || _geoAzimuthRads(&p, &q))?;
                let t = (1e-11 + 1e-14 / colat) / d.sin() * 2.0;
                if !(off(a - az, TURN) <= t) {
                    return Err(format!("the azimuth back is {a:?}"));
                }
                st.label("azimuth of that point");
            }
            Ok(true)
        }
        2 => {
            // two points
            let (a, b) = (LatLng { lat: f(0), lng: f(1) }, LatLng { lat: f(2), lng: f(3) });
            let t = f(4);
            if ![a.lat, a.lng, b.lat, b.lng, t].iter().all(|x| x.abs() <= 100.0) {
                return Ok(false);
            }
            let mut v3 = Vec3d { x: 9.0, y: 9.0, z: 9.0 };
            sut("_geoToVec3d", || _geoToVec3d(&a, &mut v3))?;
            let va = geo_to_vec(a.lat, a.lng);
            let e = (v3.x - va[0]).abs().max((v3.y - va[1]).abs()).max((v3.z - va[2]).abs());
            if !(e <= 1e-14) {
                return Err(format!("_geoToVec3d gives ({}, {}, {})", v3.x, v3.y, v3.z));
            }
            let vb = geo_to_vec(b.lat, b.lng);
            let w = Vec3d { x: vb[0] * 3.0, y: vb[1] * 3.0, z: vb[2] * 3.0 };
            let sq = sut("_pointSquareDist", || _pointSquareDist(v3, w))?;
            let want: f64 = (0..3).map(|i| (va[i] - 3.0 * vb[i]).powi(2)).sum();
            if !((sq - want).abs() <= 1e-12) {
                return Err(format!("_pointSquareDist gives {sq}, expected {want}"));
            }
            let mag = sut("_v2dMag", || _v2dMag(&Vec2d { x: t, y: a.lng }))?;
            if !((mag - t.hypot(a.lng)).abs() <= 1e-12 * mag.max(1.0)) {
                return Err(format!("_v2dMag gives {mag}"));
            }
            let (x, y) = ((a.lat - b.lat).abs(), (a.lng - b.lng).abs());
            let close = sut("geoAlmostEqualThreshold", || geoAlmostEqualThreshold(&a, &b, t))?;
            if close != (x < t && y < t) {
                return Err(format!("geoAlmostEqualThreshold says {close}; the coordinates differ by {x:e} and {y:e}"));
            }
            let close = sut("geoAlmostEqual", || geoAlmostEqual(&a, &b))?;
            let m = x.max(y);
            if (close && m > 1.8e-11) || (!close && m < 1.7e-11) {
                return Err(format!("geoAlmostEqual says {close}; the coordinates differ by {x:e} and {y:e}"));
            }
            // azimuth between the points
            let (want, horiz) = azimuth(a.lat, a.lng, vb);
            if a.lat.abs() <= 1.5 && b.lat.abs() <= FRAC_PI_2 && horiz > 1e-6 {
                let az = sut("_geoAzimuthRads", || _geoAzimuthRads(&a, &b))?;
                if !(off(az - want, TURN) <= 1e-13 / horiz + 1e-13) {
                    return Err(format!("_geoAzimuthRads gives {az}, expected {want}"));
                }
                st.label("azimuth between two points");
            }
            st.label("two points");
            Ok(true)
        }
        _ => Ok(false),
    }
}

fn g_angle(env: &Env, s: &mut Src) -> Case {
    let x = match s.below(5) {
        0 => gen_f64_any(env, s),
        1 => s.range(-100, 100) as f64 * FRAC_PI_2 + s.sign() * s.log10(-16.0, -1.0),
        2 => s.range(-8, 8) as f64 * FRAC_PI_2,
        3 => s.sign() * s.log10(-20.0, 3.0),
        _ => 14.0 * (s.unit() - 0.45),
    };
    case(0, &[x.to_bits()])
}
fn g_az(env: &Env, s: &mut Src) -> Case {
    let (lat, lng) = gen_geo(env, s, 3);
    let lat = if lat.abs() > 1.5 { lat / 2.0 } else { lat };
    let az = match s.below(4) {
        0 => s.range(-4, 7) as f64 * FRAC_PI_2,
        1 => s.range(-4, 7) as f64 * FRAC_PI_2 + s.sign() * s.log10(-18.0, -1.0),
        _ => TURN * (3.0 * s.unit() - 1.0),
    };
    let d = match s.below(5) {
        0 => s.log10(-18.0, 0.4),
        1 => FRAC_PI_2 - lat,
        2 => FRAC_PI_2 + lat + s.sign() * s.log10(-18.0, -2.0),
        3 => s.pick(&[0.0, FRAC_PI_2, PI, 1.0]),
        _ => PI * s.unit(),
    };
    case(1, &[lat.to_bits(), lng.to_bits(), az.to_bits(), d.to_bits()])
}
fn g_two(env: &Env, s: &mut Src) -> Case {
    let (lat, lng) = gen_geo(env, s, 3);
    let (lat2, lng2) = match s.below(3) {
        0 => gen_geo(env, s, 3),
        1 => (lat, lng + s.sign() * s.log10(-13.0, 0.0)),
        _ => (lat + s.sign() * s.log10(-13.0, 0.0), lng + s.sign() * s.log10(-13.0, 0.0)),
    };
    let t = match s.below(4) {
        0 => (lat - lat2).abs(),
        1 => (lng - lng2).abs(),
        2 => 2.0 * (lat - lat2).abs().max((lng - lng2).abs()),
        _ => s.log10(-13.0, 1.0),
    };
    case(2, &[lat.to_bits(), lng.to_bits(), lat2.to_bits(), lng2.to_bits(), t.to_bits()])
}

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        ops: &[
            Op { name: "angle", args: &[("angle", Kind::F64)] },
            Op { name: "azimuth_distance", args: &[("lat", Kind::F64), ("lng", Kind::F64), ("azimuth", Kind::F64), ("distance", Kind::F64)] },
            Op { name: "two_points", args: &[("lat", Kind::F64), ("lng", Kind::F64), ("lat2", Kind::F64), ("lng2", Kind::F64), ("threshold", Kind::F64)] },
        ],
        rule: "Angles anywhere and around multiples of a right angle; points, azimuths (any, and around the cardinal directions) and distances (any, tiny, up to a pole, half a turn); pairs of points (any, and close ones) with thresholds around their difference. The results are compared with vector geometry. Non-trivial: arguments in the stated ranges.",
        assumptions: &[
            "angles of any size (beyond 1e6 rad only their bounds are checked); a start point within 1.5 rad of the equator; distances from 0 to pi; tolerances of 1e-11 rad, more next to the poles where an arc sine is ill conditioned",
        ],
        check,
        phases: |t| {
            let n = if t { 500_000_000 } else { 60_000_000 };
            vec![
                Phase::Random { name: "angles", gen: g_angle, n },
                Phase::Random { name: "azimuth and distance", gen: g_az, n: 2 * n },
                Phase::Random { name: "two points", gen: g_two, n },
            ]
        },
        fuzz: |e, s| match s.below(3) {
            0 => g_angle(e, s),
            1 => g_az(e, s),
            _ => g_two(e, s),
        },
    }
}
