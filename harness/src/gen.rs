//! Structured generators, all driven by `engine::Src`.
use crate::engine::{Env, Src};
use crate::model::*;
use std::f64::consts::{FRAC_PI_2, PI};

/// Numeric constants found in the sources under test: the usual dictionary of
/// a fuzzer, so that comparisons against particular values are reachable.
pub struct Dict {
    pub ints: Vec<u64>,
    /// those of the ints that are valid cells
    pub cells: Vec<u64>,
    pub floats: Vec<f64>,
}

impl Dict {
    pub fn scan() -> Dict {
        let mut ints = std::collections::BTreeSet::new();
        let mut floats = std::collections::BTreeSet::new();
        let mut files: Vec<_> = walk(std::path::Path::new("/repo/src"));
        files.sort();
        for f in files {
            if let Ok(t) = std::fs::read_to_string(&f) {
                let mut prev = ' ';
                let b: Vec<char> = t.chars().collect();
                let mut i = 0;
                while i < b.len() {
                    let ch = b[i];
                    if ch.is_ascii_digit() && !(prev.is_alphanumeric() || prev == '_' || prev == '.') {
                        let st = i;
                        while i < b.len()
                            && (b[i].is_ascii_alphanumeric()
                                || b[i] == '_'
                                || (b[i] == '.' && i + 1 < b.len() && b[i + 1].is_ascii_digit())
                                || ((b[i] == '-' || b[i] == '+') && matches!(b[i - 1], 'e' | 'E') && !t_is_hex(&b[st..i])))
                        {
                            i += 1;
                        }
                        let tok: String = b[st..i].iter().filter(|c| **c != '_').collect();
                        number(&tok, &mut ints, &mut floats);
                        prev = '0';
                        continue;
                    }
                    prev = ch;
                    i += 1;
                }
            }
        }
        Dict {
            cells: ints.iter().copied().filter(|x| valid_cell(*x)).collect(),
            ints: ints.into_iter().collect(),
            floats: floats.into_iter().map(f64::from_bits).collect(),
        }
    }
}

fn t_is_hex(t: &[char]) -> bool {
    t.len() > 1 && t[1] == 'x'
}

fn number(tok: &str, ints: &mut std::collections::BTreeSet<u64>, floats: &mut std::collections::BTreeSet<u64>) {
    let t = tok.to_ascii_lowercase();
    let mut core = t.as_str();
    for s in ["f64", "f32", "u64", "i64", "u32", "i32", "usize", "isize", "u8", "i8", "u16", "i16", "u128", "i128"] {
        if !t.starts_with("0x") || s.starts_with(['u', 'i']) {
            if let Some(c) = core.strip_suffix(s) {
                core = c;
                break;
            }
        }
    }
    if let Some(h) = core.strip_prefix("0x") {
        if let Ok(v) = u64::from_str_radix(h, 16) {
            ints.insert(v);
        }
    } else if let Some(h) = core.strip_prefix("0b") {
        if let Ok(v) = u64::from_str_radix(h, 2) {
            ints.insert(v);
        }
    } else if let Ok(v) = core.parse::<u64>() {
        ints.insert(v);
    } else if let Ok(v) = core.parse::<f64>() {
        floats.insert(v.to_bits());
    }
}

fn walk(d: &std::path::Path) -> Vec<std::path::PathBuf> {
    let mut v = Vec::new();
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                v.extend(walk(&p));
            } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
                v.push(p);
            }
        }
    }
    v
}

/// total number of cells at a resolution
pub fn cell_count(res: u32) -> u64 {
    2 + 120 * pow7(res) as u64
}

/// the i-th cell of a resolution, base cell by base cell, in ascending order
pub fn nth_cell(res: u8, mut i: u64) -> Cell {
    for bc in 0..122u8 {
        let b = Cell::base(bc);
        let n = num_children(b.is_pent(), res as u32) as u64;
        if i < n {
            return nth_child(&b, res, i as i64);
        }
        i -= n;
    }
    panic!("cell number out of range")
}

/// all cells of resolutions 0..=max, one after the other
pub fn cells_upto_count(max: u32) -> u64 {
    (0..=max).map(cell_count).sum()
}
pub fn cells_upto(mut i: u64) -> Cell {
    for r in 0..16u32 {
        let n = cell_count(r);
        if i < n {
            return nth_cell(r as u8, i);
        }
        i -= n;
    }
    panic!("cell number out of range")
}

pub fn gen_bc(s: &mut Src) -> u8 {
    match s.below(8) {
        0..=2 => s.pick(&PENT_BCS),
        _ => s.below(122) as u8,
    }
}

/// remove the deleted subsequence: a pentagon's first non-zero digit is not 1
fn fix_pent(c: &mut Cell, s: &mut Src) {
    if is_pent_bc(c.bc) {
        for r in 1..=c.res as usize {
            if c.d[r] != 0 {
                if c.d[r] == 1 {
                    c.d[r] = 2 + s.below(5) as u8;
                }
                return;
            }
        }
    }
}

pub fn gen_res(s: &mut Src) -> u8 {
    s.below(16) as u8
}

pub fn gen_cell(env: &Env, s: &mut Src) -> Cell {
    if !env.dict.cells.is_empty() && s.below(200) == 0 {
        // a cell the sources mention, or one next to it
        let mut c = Cell::parse(s.pick(&env.dict.cells)).unwrap();
        if s.below(2) == 0 {
            c = env.m.neighbor(&c, 1 + s.below(6) as u8).unwrap_or(c);
        }
        return c;
    }
    let res = gen_res(s);
    gen_cell_res(env, s, res)
}

/// A cell of a resolution whose digits follow one of the patterns 0 to 9. In a
/// pentagon base cell the digits may still start with a 1.
fn gen_digits(s: &mut Src, res: u8, style: u64) -> Cell {
    let mut c = Cell::base(gen_bc(s));
    c.res = res;
    let n = res as usize;
    match style {
        0..=3 => {
            for r in 1..=n {
                c.d[r] = s.below(7) as u8;
            }
        }
        4 => {
            // sparse
            for _ in 0..1 + s.below(3) {
                if n > 0 {
                    c.d[1 + s.below(n as u64) as usize] = s.below(7) as u8;
                }
            }
        }
        5 => {
            // leading zeros, then anything
            let z = s.below(n as u64 + 1) as usize;
            for r in z + 1..=n {
                c.d[r] = s.below(7) as u8;
            }
        }
        6 | 7 => {
            // random prefix, periodic tail: long carries when stepping
            let z = s.below(n as u64 + 1) as usize;
            let zero_prefix = s.below(2) == 0;
            let (a, b) = (s.below(7) as u8, s.below(7) as u8);
            for r in 1..=n {
                c.d[r] = if r <= z {
                    if zero_prefix {
                        0
                    } else {
                        s.below(7) as u8
                    }
                } else if r % 2 == 0 {
                    a
                } else {
                    b
                };
            }
        }
        8 => {
            // constant digit, one change
            let a = s.below(7) as u8;
            for r in 1..=n {
                c.d[r] = a;
            }
            if n > 0 {
                let r = 1 + s.below(n as u64) as usize;
                c.d[r] = s.below(7) as u8;
            }
        }
        _ => {
            // around a pentagon: leading zeros, chosen lead, digits drawn
            // from the lead and its two rotations (the sector's fringe)
            c.bc = s.pick(&PENT_BCS);
            let z = s.below(n as u64 + 1) as usize;
            let lead = 2 + s.below(5) as u8;
            for r in z + 1..=n {
                c.d[r] = if r == z + 1 {
                    lead
                } else {
                    match s.below(6) {
                        0 => lead,
                        1 => rot_digit(lead, 1),
                        2 => rot_digit(lead, -1),
                        3 => 1,
                        4 => 0,
                        _ => s.below(7) as u8,
                    }
                };
            }
        }
    }
    c
}

pub fn gen_cell_res(env: &Env, s: &mut Src, res: u8) -> Cell {
    let style = s.below(12);
    if style >= 10 {
        let v = gen_dir(env, s, res);
        if let Some(c) = env.m.cell_of(v, res as usize) {
            return c;
        }
    }
    let mut c = gen_digits(s, res, style);
    fix_pent(&mut c, s);
    // now and then move a few cells away, which leaves the digit patterns
    if s.below(5) == 0 {
        for _ in 0..1 + s.below(3) {
            if let Some(x) = env.m.neighbor(&c, 1 + s.below(6) as u8) {
                c = x;
            }
        }
    }
    c
}

/// A direction, biased to the delicate places of the grid.
pub fn gen_dir(env: &Env, s: &mut Src, res: u8) -> Vec3 {
    let m = &env.m;
    match s.below(10) {
        0 | 1 => {
            // uniform on the sphere
            let z = 2.0 * s.unit() - 1.0;
            let l = PI * (2.0 * s.unit() - 1.0);
            let r = (1.0 - z * z).max(0.0).sqrt();
            [r * l.cos(), r * l.sin(), z]
        }
        2 | 3 => {
            // near an edge of the icosahedron, possibly near a vertex
            let f = s.below(20) as usize;
            let ed = s.pick(&[1.0, 3.0, 5.0]) * PI / 3.0;
            let h = 3f64.sqrt();
            let t = match s.below(3) {
                0 => h * (2.0 * s.unit() - 1.0),
                1 => s.sign() * (h - s.log10(-9.0, 0.0)),
                _ => s.sign() * s.log10(-9.0, 0.0),
            };
            let off = match s.below(4) {
                0 => 0.0,
                _ => s.sign() * s.log10(-16.0, -0.3),
            };
            let d = 1.0 + off;
            let (cx, sx) = (ed.cos(), ed.sin());
            unit(m.surf(f, (d * cx - t * sx, d * sx + t * cx)))
        }
        4 => {
            // near a vertex (pentagon) or a face centre
            let f = s.below(20) as usize;
            let rad = s.log10(-12.0, -0.2);
            let th = if s.below(2) == 0 {
                2.0 * PI * s.unit()
            } else {
                PI / 6.0 * s.below(12) as f64 + s.sign() * s.log10(-9.0, -1.0)
            };
            let o = if s.below(3) == 0 {
                (0.0, 0.0)
            } else {
                let a = 2.0 * PI / 3.0 * s.below(3) as f64;
                (2.0 * a.cos(), 2.0 * a.sin())
            };
            unit(m.surf(f, (o.0 + rad * th.cos(), o.1 + rad * th.sin())))
        }
        5 => {
            // near the poles, in planar terms at the cell scale
            let z = s.sign();
            let r = s.log10(-12.0, -0.5);
            let l = PI * (2.0 * s.unit() - 1.0);
            unit([r * l.cos(), r * l.sin(), z])
        }
        6..=8 => {
            // around a cell centre of this resolution: inside, or near its boundary
            let r2 = if s.below(4) == 0 { gen_res(s).max(res) } else { res };
            let style = match s.below(4) {
                0 | 1 => 0,
                2 => 5,
                _ => 4 + s.below(6),
            };
            let mut c = gen_digits(s, r2, style);
            fix_pent(&mut c, s);
            let l = m.loc(&c);
            let p = m.planar(&l);
            let w = 1.0 / (pow7(r2 as u32) as f64).sqrt();
            // direction of a neighbour in this class, or anything
            let (rad, th) = match s.below(4) {
                0 => (0.57 * s.unit(), 2.0 * PI * s.unit()),
                1 => {
                    // a hair from the middle of a side
                    let cls = if r2 % 2 == 1 { 0.333473172251832115 } else { 0.0 };
                    (0.5 + s.sign() * s.log10(-7.0, -1.0), cls + PI / 3.0 * s.below(6) as f64)
                }
                2 => {
                    // close to a corner
                    let cls = if r2 % 2 == 1 { 0.333473172251832115 } else { 0.0 };
                    (
                        0.577_350_269_19 + s.sign() * s.log10(-7.0, -1.0),
                        cls + PI / 6.0 + PI / 3.0 * s.below(6) as f64 + s.sign() * s.log10(-7.0, -1.0),
                    )
                }
                _ => (s.log10(-8.0, -0.3), 2.0 * PI * s.unit()),
            };
            unit(m.surf(l.face, (p.0 + w * rad * th.cos(), p.1 + w * rad * th.sin())))
        }
        _ => {
            let (lat, lng) = gen_special(env, s);
            geo_to_vec(lat, lng)
        }
    }
}

/// special latitude / longitude pairs in the ordinary ranges
pub fn gen_special(env: &Env, s: &mut Src) -> (f64, f64) {
    let eps = |s: &mut Src| match s.below(3) {
        0 => 0.0,
        _ => s.sign() * s.log10(-18.0, -2.0),
    };
    let lat = match s.below(6) {
        0 => 0.0,
        1 => FRAC_PI_2,
        2 => -FRAC_PI_2,
        3 => s.range(-90, 90) as f64 * PI / 180.0,
        4 if !env.dict.floats.is_empty() => s.pick(&env.dict.floats) % FRAC_PI_2,
        _ => FRAC_PI_2 * (2.0 * s.unit() - 1.0),
    } + eps(s);
    let lng = match s.below(7) {
        0 => 0.0,
        1 => PI,
        2 => -PI,
        3 => FRAC_PI_2 * s.range(-2, 2) as f64,
        4 => s.range(-180, 180) as f64 * PI / 180.0,
        5 if !env.dict.floats.is_empty() => s.pick(&env.dict.floats) % PI,
        _ => PI * (2.0 * s.unit() - 1.0),
    } + eps(s);
    (lat.clamp(-FRAC_PI_2, FRAC_PI_2), lng.clamp(-PI, PI))
}

/// latitude and longitude of an interesting direction, in the usual ranges
pub fn gen_geo(env: &Env, s: &mut Src, res: u8) -> (f64, f64) {
    match s.below(8) {
        0 => gen_special(env, s),
        1 => (
            FRAC_PI_2 * (2.0 * s.unit() - 1.0),
            PI * (2.0 * s.unit() - 1.0),
        ),
        _ => vec_to_geo(gen_dir(env, s, res)),
    }
}

/// any double at all
pub fn gen_f64_any(env: &Env, s: &mut Src) -> f64 {
    match s.below(8) {
        0 => f64::from_bits(s.u64()),
        1 => s.pick(&[
            0.0,
            -0.0,
            f64::NAN,
            f64::INFINITY,
            f64::NEG_INFINITY,
            f64::MAX,
            f64::MIN,
            f64::MIN_POSITIVE,
            5e-324,
            -5e-324,
            f64::EPSILON,
            1e45,
            1e46,
            -3e39,
        ]),
        2 => s.sign() * s.log10(-320.0, 308.0),
        3 => s.sign() * s.log10(-20.0, 6.0),
        4 => PI * s.range(-1000, 1000) as f64 / s.pick(&[1.0, 2.0, 3.0, 6.0]),
        5 if !env.dict.floats.is_empty() => s.pick(&env.dict.floats) * s.sign(),
        _ => PI * (2.0 * s.unit() - 1.0),
    }
}

/// Any 64-bit value, biased to almost-valid indexes
pub fn gen_raw(env: &Env, s: &mut Src) -> u64 {
    match s.below(14) {
        0 => s.u64(),
        1 => s.pick(&env.dict.ints),
        2 => {
            // an index-like header, random digits
            let h = gen_cell(env, s).index();
            (h & !((1u64 << 45) - 1)) | (s.u64() & ((1 << 45) - 1))
        }
        3 => gen_cell(env, s).index(),
        4 | 5 => {
            // one or two bits flipped
            let mut h = gen_cell(env, s).index();
            for _ in 0..1 + s.below(2) {
                h ^= 1 << s.below(64);
            }
            h
        }
        6 => {
            // one field replaced
            let mut h = gen_cell(env, s).index();
            match s.below(5) {
                0 => h = (h & !(15 << 59)) | s.below(16) << 59,
                1 => h = (h & !(7 << 56)) | s.below(8) << 56,
                2 => h = (h & !(15 << 52)) | s.below(16) << 52,
                3 => h = (h & !(127 << 45)) | s.below(128) << 45,
                _ => h ^= 1 << 63,
            }
            h
        }
        7 => {
            // one digit replaced
            let h = gen_cell(env, s).index();
            let r = s.below(15);
            (h & !(7 << (3 * r))) | s.below(8) << (3 * r)
        }
        8 => {
            // a pentagon's deleted subsequence
            let mut c = Cell::base(s.pick(&PENT_BCS));
            c.res = gen_res(s);
            let z = s.below(c.res as u64 + 1) as usize;
            for r in z + 1..=c.res as usize {
                c.d[r] = if r == z + 1 { 1 } else { s.below(7) as u8 };
            }
            c.index()
        }
        9 => {
            // directed edge, possibly with a bad direction
            let h = gen_cell(env, s).index();
            (h & !(15 << 59) & !(7 << 56)) | 2 << 59 | s.below(8) << 56
        }
        10 => {
            let h = gen_cell(env, s).index();
            (h & !(15 << 59) & !(7 << 56)) | s.below(16) << 59 | s.below(8) << 56
        }
        11 => {
            // long runs of ones and zeros
            let mut h = s.pick(&[0, !0u64]);
            for _ in 0..1 + s.below(4) {
                h ^= !0u64 << s.below(64);
            }
            if s.below(2) == 0 {
                h = (h & !(15 << 52)) | s.below(16) << 52;
            }
            h
        }
        12 => {
            // any header, digits close to carries
            let mut h = match s.below(4) {
                0 => !0u64 << 45,
                1 => s.u64() << 45,
                _ => gen_cell(env, s).index() & (!0u64 << 45),
            };
            let set: &[u64] = s.pick(&[&[7][..], &[6], &[6, 7], &[0, 7], &[5, 6, 7], &[0, 1, 7], &[1]]);
            for r in 0..15 {
                h |= s.pick(set) << (3 * r);
            }
            if s.below(2) == 0 {
                h = (h & !(15 << 52)) | s.below(16) << 52;
            }
            h
        }
        _ => s.u64() >> s.below(64),
    }
}

/// n steps on a shortest path from a cell, in a random direction (not only
/// along one of the six axes), over base cells and faces
pub fn away(env: &Env, s: &mut Src, start: &Cell, n: i64) -> Cell {
    let mut cur = *start;
    let first = 1 + s.below(6) as u8;
    // how often to go to the side
    let side = *[0, 0, 3, 10, 25, 50, 75][s.below(7) as usize..].first().unwrap();
    let mut back: Option<Cell> = None;
    let mut last = 0;
    for _ in 0..n {
        let x = i64::from(s.chance(side));
        let d = match &back {
            None => first,
            Some(b) => match (1..7u8).find(|d| env.m.neighbor(&cur, *d) == Some(*b)) {
                Some(d) => DIG[(ANG[d as usize] + 3 + x - last).rem_euclid(6) as usize],
                None => break,
            },
        };
        match env.m.neighbor(&cur, d) {
            Some(next) => {
                // the first step goes in the direction of heading 0
                last = if back.is_some() { x } else { 0 };
                back = Some(cur);
                cur = next;
            }
            None => break,
        }
    }
    cur
}
