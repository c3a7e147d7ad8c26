//! C23: the address on a face of the icosahedron names the same cell.
use h3_rs::base_cells::baseCellData;
use h3_rs::h3_index::{_faceIjkToH3, _h3ToFaceIjk, _h3ToFaceIjkWithInitializedFijk};
use vharness::engine::*;
use vharness::gen::*;
use vharness::model::*;

const EDGE_ANG: [i64; 3] = [1, 3, 5];

/// normalised i, j, k of a lattice position
fn ijk(z: E) -> (i64, i64, i64) {
    let m = z.a.min(z.b).min(0);
    (z.a - m, z.b - m, -m)
}
fn pos(i: i64, j: i64, k: i64) -> E {
    UNIT[4].scale(i).add(UNIT[2].scale(j)).add(UNIT[1].scale(k))
}
/// inside of the face's triangle, or on its border
fn within(z: E, res: usize) -> bool {
    let p = z.mul(M(res).conj());
    EDGE_ANG.iter().all(|a| p.rot(-a).re2() <= 2 * pow7(res as u32))
}

fn there_and_back(env: &Env, h: u64, st: &mut Stats) -> Verdict {
    let cell = match Cell::parse(h) {
        Some(x) => x,
        None => return Ok(false),
    };
    let (face, i, j, k, back) = sut("_h3ToFaceIjk, _faceIjkToH3", || _h3ToFaceIjk(h).map(|f| (f.face, f.coord.i, f.coord.j, f.coord.k, _faceIjkToH3(&f, cell.res as i32))))?
        .map_err(|e| format!("error {e:?} for a valid cell"))?;
    if !(0..20).contains(&face) {
        return Err(format!("face {face}"));
    }
    // the same place on the icosahedron
    let at = Loc { face: face as usize, z: pos(i as i64, j as i64, k as i64), res: cell.res as usize };
    if !within(at.z, at.res) {
        return Err(format!("the address (face {face}, {i}, {j}, {k}) is outside of the face"));
    }
    let off = angle(env.m.loc_vec(&at), env.m.center(&cell));
    st.max("distance of the addressed place from the cell's centre (rad)", off);
    if !(off < 1e-10) {
        return Err(format!("the address (face {face}, {i}, {j}, {k}) is {off:e} rad away from the cell's centre"));
    }
    if back != h {
        return Err(format!("the address (face {face}, {i}, {j}, {k}) is read back as 0x{back:x}"));
    }
    // the same from the base cell's home, without leaving the home face's plane
    let (hface, hz) = env.m.home[cell.bc as usize];
    let z = (1..=cell.res as usize).fold(hz, |z, r| z.mul(mult(r)).add(UNIT[cell.d[r] as usize]));
    let (over, at, back) = sut("_h3ToFaceIjkWithInitializedFijk", || {
        let mut f = baseCellData[cell.bc as usize].homeFijk;
        let over = _h3ToFaceIjkWithInitializedFijk(h, &mut f);
        (over, (f.face as i64, f.coord.i as i64, f.coord.j as i64, f.coord.k as i64), _faceIjkToH3(&f, cell.res as i32))
    })?;
    let (hi, hj, hk) = ijk(z);
    if at != (hface as i64, hi, hj, hk) {
        return Err(format!("_h3ToFaceIjkWithInitializedFijk gives {at:?}, expected {:?}", (hface, hi, hj, hk)));
    }
    if !over && at != (face as i64, i as i64, j as i64, k as i64) {
        return Err(format!("_h3ToFaceIjkWithInitializedFijk says that the cell does not leave face {hface}, its address is on face {face}"));
    }
    if back != h {
        return Err(format!("the unfolded address {at:?} is read back as 0x{back:x}"));
    }
    if is_pent_bc(cell.bc) {
        st.label("pentagon base cell");
    }
    if env.m.loc(&cell).face != env.m.home[cell.bc as usize].0 {
        st.label("on a face other than the base cell's home face");
    }
    Ok(true)
}

/// Any lattice position in the plane of a face.
fn any_address(env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    let (face, res, z) = (c.a[0] as usize, c.a[1] as usize, e(c.a[2] as i64, c.a[3] as i64));
    if face >= 20 || res > 15 || z.a.abs() > 100_000_000 || z.b.abs() > 100_000_000 {
        return Ok(false);
    }
    // the base cell's position, and the digits in the face's frame
    let mut q = z;
    let mut d = [0u8; 16];
    for r in (1..=res).rev() {
        let (dig, p) = (0..7).find_map(|t| q.sub(UNIT[t]).div(mult(r)).map(|p| (t, p))).expect("a digit");
        d[r] = dig as u8;
        q = p;
    }
    let (i, j, k) = ijk(z);
    let (bi, bj, bk) = ijk(q);
    let got = sut("_faceIjkToH3", || {
        let mut f = _h3ToFaceIjk(0x8001fffffffffff).ok().expect("address of a base cell");
        f.face = face as i32;
        f.coord.i = i as i32;
        f.coord.j = j as i32;
        f.coord.k = k as i32;
        _faceIjkToH3(&f, res as i32)
    })?;
    if bi > 2 || bj > 2 || bk > 2 {
        st.label("out of range");
        return if got == 0 { Ok(true) } else { Err(format!("out of range (base cell at {bi}, {bj}, {bk}), but read as 0x{got:x}")) };
    }
    let at = Loc { face, z, res };
    if within(z, res) {
        let want = env.m.cell_at(&at).expect("a cell of the model").index();
        st.label("on the face");
        if got != want {
            return Err(format!("address (face {face}, {i}, {j}, {k}) is read as 0x{got:x}, the cell there is 0x{want:x}"));
        }
        return Ok(true);
    }
    // beyond an edge: the plane is unfolded over it
    let mut opts = Vec::new();
    if let Some((bc, n, _)) = env.m.lookup(face, q) {
        opts.push((bc, n));
    }
    for (x, a) in EDGE_ANG.iter().enumerate() {
        if q.rot(-a).re2() > 2 {
            let fo = env.m.folds[face][x];
            if let Some((bc, n, _)) = env.m.lookup(fo.face, q.rot(fo.rot).add(fo.t)) {
                opts.push((bc, n + fo.rot));
            }
        }
    }
    if opts.is_empty() || opts.iter().any(|o| is_pent_bc(o.0)) {
        // around a vertex beyond the face: not one place
        return match valid_cell(got) {
            true => Ok(false),
            false => Err(format!("address (face {face}, {i}, {j}, {k}) is read as the invalid 0x{got:x}")),
        };
    }
    let want: Vec<u64> = opts
        .iter()
        .map(|(bc, n)| {
            let mut x = Cell { bc: *bc, res: res as u8, d };
            for t in x.d[1..=res].iter_mut() {
                *t = rot_digit(*t, *n);
            }
            x.index()
        })
        .collect();
    st.label("beyond an edge of the face");
    if !want.contains(&got) {
        return Err(format!("address (face {face}, {i}, {j}, {k}) is read as 0x{got:x}; unfolding the face's neighbour gives {want:x?}"));
    }
    Ok(true)
}

fn check(env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    match c.op {
        0 => there_and_back(env, c.a[0], st),
        _ => any_address(env, c, st),
    }
}

fn g(env: &Env, s: &mut Src) -> Case {
    case(0, &[gen_cell(env, s).index()])
}
fn g_addr(env: &Env, s: &mut Src) -> Case {
    let res = gen_res(s) as usize;
    let unit = M(res);
    let (face, z) = match s.below(6) {
        // somewhere on the face or around it
        0 => {
            let n = s.range(2, 5);
            let f = |s: &mut Src| (s.unit() * 2.0 - 1.0) * n as f64 * 7f64.powf(res as f64 / 2.0);
            (s.below(20) as usize, e(f(s) as i64, f(s) as i64))
        }
        // close to an edge: a point of the edge, moved by a few cells
        1 | 2 => {
            let a = s.pick(&[0i64, 2, 4]);
            let (v, w) = (e(2, 0).rot(a), e(2, 0).rot(a + 2));
            let n = 1i64 << s.below(20);
            let t = s.range(0, n);
            let p = v.mul(unit).scale(n - t).add(w.mul(unit).scale(t));
            let q = e(p.a.div_euclid(n), p.b.div_euclid(n));
            (s.below(20) as usize, q.add(e(s.range(-3, 3), s.range(-3, 3))))
        }
        // close to a base cell's place, at any distance
        3 => {
            let b = e(s.range(-3, 3), s.range(-3, 3));
            let n = 7i64.pow(s.below(res as u64 / 2 + 1) as u32);
            (s.below(20) as usize, b.mul(unit).add(e(s.range(-n, n), s.range(-n, n))))
        }
        // a cell's own place
        _ => {
            let l = env.m.loc(&gen_cell_res(env, s, res as u8));
            (l.face, l.z)
        }
    };
    case(1, &[face as u64, res as u64, z.a as u64, z.b as u64])
}
/// every position with coordinates up to 40 for resolutions 0 to 3
fn at_addr(_env: &Env, i: u64) -> Case {
    let (face, i) = (i % 20, i / 20);
    let (a, i) = (i % 81, i / 81);
    let (b, res) = (i % 81, i / 81);
    case(1, &[face, res, (a as i64 - 40) as u64, (b as i64 - 40) as u64])
}

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        ops: &[
            Op { name: "face_address", args: &[("cell", Kind::Cell)] },
            Op { name: "any_address", args: &[("face", Kind::Int), ("res", Kind::Int), ("a", Kind::Int), ("b", Kind::Int)] },
        ],
        rule: "All cells of resolutions 0 to 6, then random cells of all resolutions with uniform, sparse, periodic and pentagon-fringe digit patterns or located at the delicate places of the icosahedron: the address, and the position before it is carried over an edge, must be the cell's place and be read back as the cell. Every lattice position around every face for resolutions 0 to 3 (a I + b J, a and b up to 40), then random ones of all resolutions: on the face, along its edges and corners, beyond them, out of range. Non-trivial: a valid cell; a position that names one place.",
        assumptions: &["positions beyond an edge are those of the unfolded neighbour; around a vertex beyond the face only the validity of the result is checked"],
        check,
        phases: |t| {
            let n = if t { 1_000_000_000 } else { 40_000_000 };
            vec![
                Phase::Enum { name: "all cells, coarse resolutions", n: cells_upto_count(if t { 8 } else { 6 }), at: |_, i| case(0, &[cells_upto(i).index()]) },
                Phase::Enum { name: "positions around all faces, coarse resolutions", n: 20 * 81 * 81 * 4, at: at_addr },
                Phase::Random { name: "cells", gen: g, n },
                Phase::Random { name: "positions", gen: g_addr, n },
            ]
        },
        fuzz: |e, s| if s.below(2) == 0 { g(e, s) } else { g_addr(e, s) },
    }
}
