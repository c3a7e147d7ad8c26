//! C10: the fast disk is exact, or says that there is a pentagon.
use h3_rs::algos::gridDiskDistancesUnsafe;
use h3_rs::error::Error;
use vharness::engine::*;
use vharness::gen::*;
use vharness::model::*;

fn check(env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    let cell = match Cell::parse(c.a[0]) {
        Some(x) => x,
        None => return Ok(false),
    };
    let k = c.a[1];
    if k > 400 {
        return Ok(false);
    }
    let mut want = env.m.ball(&cell, k as u32);
    let pent = want.iter().any(|(x, _)| Cell::parse(*x).unwrap().is_pent());
    let got = sut("gridDiskDistancesUnsafe", || gridDiskDistancesUnsafe(c.a[0], k as u32))?;
    let mut got = match got {
        Err(Error::Pentagon) if pent => {
            st.label("refused: pentagon in the disk");
            return Ok(true);
        }
        Err(e) => return Err(format!("error {e:?}, although the disk has {} pentagon", if pent { "a" } else { "no" })),
        Ok(v) => v,
    };
    if pent {
        return Err("no error although there is a pentagon in the disk".into());
    }
    if let Some(w) = got.windows(2).position(|w| w[0].1 > w[1].1) {
        return Err(format!("distances decrease at position {w}"));
    }
    got.sort_unstable();
    want.sort_unstable();
    if got != want {
        for (a, b) in got.iter().zip(want.iter()) {
            if a != b {
                return Err(format!("{} cells instead of {}; in ascending order, (0x{:x}, {}) instead of (0x{:x}, {})", got.len(), want.len(), a.0, a.1, b.0, b.1));
            }
        }
        return Err(format!("{} cells instead of {}", got.len(), want.len()));
    }
    if want.iter().any(|(x, _)| is_pent_bc(Cell::parse(*x).unwrap().bc)) {
        st.label("exact, inside of a pentagon base cell");
    } else {
        st.label("exact");
    }
    Ok(true)
}

fn radius(s: &mut Src) -> u64 {
    match s.below(16) {
        0 => s.below(16),
        1 | 2 => s.below(9),
        _ => s.below(6),
    }
}
fn g(env: &Env, s: &mut Src) -> Case {
    let c = gen_cell(env, s).index();
    case(0, &[c, radius(s)])
}
/// with a pentagon just inside or just outside of the disk
fn g_pent(env: &Env, s: &mut Src) -> Case {
    let mut c = Cell::base(s.pick(&PENT_BCS));
    c.res = gen_res(s);
    let k = radius(s);
    let d = 1 + s.below(6) as u8;
    for i in 0..(k as i64 + s.range(-1, 3)) {
        let x = if s.chance(75) { d } else { 1 + s.below(6) as u8 };
        let _ = i;
        if let Some(x) = env.m.neighbor(&c, x) {
            c = x;
        }
    }
    case(0, &[c.index(), k])
}

/// a wide disk far from the pentagons, or with one near its rim
fn g_wide(env: &Env, s: &mut Src) -> Case {
    let res = 6 + s.below(10) as u8;
    let k = match s.below(4) {
        0 => 250 + s.below(12),
        1 => 120 + s.below(12),
        _ => 16 + s.below(90),
    };
    let mut c = gen_cell_res(env, s, res);
    if s.below(2) == 0 {
        c = Cell::base(s.pick(&PENT_BCS));
        c.res = res;
        let n = k as i64 + s.range(-2, 3);
        c = away(env, s, &c, n);
    }
    case(0, &[c.index(), k])
}

/// a disk of medium size with a pentagon at its rim, on both sides
fn g_rim(env: &Env, s: &mut Src) -> Case {
    let mut c = Cell::base(s.pick(&PENT_BCS));
    c.res = if s.chance(70) { 2 + s.below(5) as u8 } else { s.below(16) as u8 };
    let k = match s.below(8) {
        // half the way to the next base cell, at the even resolutions
        0 | 1 => 22 + s.below(8),
        2 => 30 + s.below(30),
        _ => 4 + s.below(24),
    };
    let n = k as i64 + s.range(-1, 2);
    case(0, &[away(env, s, &c, n).index(), k])
}

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        ops: &[Op { name: "gridDiskDistancesUnsafe", args: &[("origin", Kind::Cell), ("k", Kind::Int)] }],
        rule: "All cells of resolutions 0 to 2 with k 0 to 4, then random cells of all resolutions, cells with a pentagon just inside or outside of the disk, k up to 15 for most and up to 261 for some, and disks of medium size (k 4 to 60) with a pentagon at the rim in any direction, against a breadth first search over the reference model's exact neighbours. Non-trivial: a valid cell.",
        assumptions: &["radius at most 261, and at most 15 for most cases"],
        check,
        phases: |t| {
            let n = if t { 12_000_000 } else { 1_000_000 };
            vec![
                Phase::Enum { name: "all cells of resolutions 0 to 2, k 0 to 4", n: cells_upto_count(2) * 5, at: |_, i| case(0, &[cells_upto(i / 5).index(), i % 5]) },
                Phase::Random { name: "wide disks", gen: g_wide, n: if t { 20_000 } else { 600 } },
                Phase::Random { name: "disks with a pentagon at the rim", gen: g_rim, n: if t { 1_000_000 } else { 25_000 } },
                Phase::Random { name: "disks", gen: g, n },
                Phase::Random { name: "disks near pentagons", gen: g_pent, n },
            ]
        },
        fuzz: |e, s| if s.below(2) == 0 { g_pent(e, s) } else { g(e, s) },
    }
}
