//! C24: the lookups of base cells by place describe the icosahedron.
use h3_rs::base_cells::*;
use h3_rs::h3_index::_h3ToFaceIjk;
use vharness::engine::*;
use vharness::gen::*;
use vharness::model::*;

const EDGE_ANG: [i64; 3] = [1, 3, 5];

fn lookup(env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    let face = c.a[0] as usize;
    let (i, j, k) = (c.a[1] as i64, c.a[2] as i64, c.a[3] as i64);
    if face >= 20 || [i, j, k].iter().any(|x| !(0..=2).contains(x)) {
        return Ok(false);
    }
    let (bc, rot) = sut("_faceIjkToBaseCell, _faceIjkToBaseCellCCWrot60", || {
        let mut f = _h3ToFaceIjk(0x8001fffffffffff).ok().expect("address of a base cell");
        f.face = face as i32;
        f.coord.i = i as i32;
        f.coord.j = j as i32;
        f.coord.k = k as i32;
        (_faceIjkToBaseCell(&f), _faceIjkToBaseCellCCWrot60(&f))
    })?;
    // (i, j, k) and (i + n, j + n, k + n) are the same place
    let z = UNIT[4].scale(i).add(UNIT[2].scale(j)).add(UNIT[1].scale(k));
    let mut want = Vec::new();
    if let Some((b, n, _)) = env.m.lookup(face, z) {
        want.push((b as i32, n.rem_euclid(6) as i32));
    }
    for (x, a) in EDGE_ANG.iter().enumerate() {
        if z.rot(-a).re2() > 2 {
            let fo = env.m.folds[face][x];
            if let Some((b, n, _)) = env.m.lookup(fo.face, z.rot(fo.rot).add(fo.t)) {
                want.push((b as i32, (n + fo.rot).rem_euclid(6) as i32));
                st.label("beyond an edge of the face");
            }
        }
    }
    if !want.iter().any(|w| w.0 == bc) {
        return Err(format!("base cell {bc}; the base cell there is one of {want:?} (with rotations)"));
    }
    if !(0..6).contains(&rot) {
        return Err(format!("{rot} rotations"));
    }
    // how a pentagon is turned is a matter of how its missing sector is
    // closed; C23 decides it by what is indexed there
    if is_pent_bc(bc as u8) {
        st.label("a pentagon");
    } else if !want.contains(&(bc, rot)) {
        return Err(format!("base cell {bc} is turned by {rot}; it should be one of {want:?}"));
    }
    Ok(true)
}

fn number(_env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    let bc = c.a[0] as i64 as i32;
    let pent = (0..122).contains(&bc) && is_pent_bc(bc as u8);
    let got = sut("_isBaseCellPentagon", || _isBaseCellPentagon(bc))?;
    if got != pent {
        return Err(format!("_isBaseCellPentagon({bc}) is {got}"));
    }
    let got = sut("_isBaseCellPolarPentagon", || _isBaseCellPolarPentagon(bc))?;
    if got != (bc == 4 || bc == 117) {
        return Err(format!("_isBaseCellPolarPentagon({bc}) is {got}"));
    }
    if pent {
        st.label("a pentagon");
    }
    Ok(true)
}

/// the faces turned clockwise against a pentagon are those that have it on
/// their J axis
fn offset(env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    let (bc, face) = (c.a[0], c.a[1]);
    if bc > 121 || face > 19 {
        return Ok(false);
    }
    let ring = match &env.m.pent[bc as usize] {
        Some(p) => &p.ring,
        None => return Ok(false),
    };
    let want = ring.contains(&(face as usize, 2));
    let got = sut("_baseCellIsCwOffset", || _baseCellIsCwOffset(bc as i32, face as i32))?;
    if got != want {
        return Err(format!("_baseCellIsCwOffset({bc}, {face}) is {got}"));
    }
    if want {
        st.label("clockwise offset face");
    }
    Ok(true)
}

fn check(env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    match c.op {
        0 => lookup(env, c, st),
        2 => offset(env, c, st),
        _ => number(env, c, st),
    }
}
fn at(_env: &Env, i: u64) -> Case {
    case(0, &[i / 27, i / 9 % 3, i / 3 % 3, i % 3])
}
fn g(env: &Env, s: &mut Src) -> Case {
    let x = match s.below(3) {
        0 => s.range(-300, 300) as u64,
        1 => s.pick(&env.dict.ints) as i32 as i64 as u64,
        _ => s.u64() as i32 as i64 as u64,
    };
    case(1, &[x])
}

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        ops: &[
            Op { name: "lookup", args: &[("face", Kind::Int), ("i", Kind::Int), ("j", Kind::Int), ("k", Kind::Int)] },
            Op { name: "number", args: &[("baseCell", Kind::Int)] },
            Op { name: "offset_face", args: &[("baseCell", Kind::Int), ("face", Kind::Int)] },
        ],
        rule: "All 20 faces with all 27 lookup coordinates and all 12 pentagons (exhaustive), and base cell numbers: all from -200 to 300 and random ones of 32 bits. Non-trivial: every case in the range of the lookup.",
        assumptions: &["which base cells are pentagons, and which two of them are polar, is the H3 specification's list"],
        check,
        phases: |t| {
            vec![
                Phase::Enum { name: "all lookups", n: 20 * 27, at },
                Phase::Enum { name: "all pentagons and faces", n: 12 * 20, at: |_, i| case(2, &[PENT_BCS[(i / 20) as usize] as u64, i % 20]) },
                Phase::Enum { name: "base cell numbers", n: 501, at: |_, i| case(1, &[(i as i64 - 200) as u64]) },
                Phase::Random { name: "base cell numbers of 32 bits", gen: g, n: if t { 3_000_000_000 } else { 30_000_000 } },
            ]
        },
        fuzz: g,
    }
}
