//! C09: the disk of radius k is exactly the cells at distance 0..=k.
use h3_rs::algos::gridDiskDistances;
use vharness::engine::*;
use vharness::gen::*;
use vharness::model::*;

fn check(env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    let cell = match Cell::parse(c.a[0]) {
        Some(x) => x,
        None => return Ok(false),
    };
    let k = c.a[1];
    if k > 400 {
        return Ok(false);
    }
    let mut want = env.m.ball(&cell, k as u32);
    if k > 80 && cell.res > 2 && want.iter().any(|(x, _)| Cell::parse(*x).unwrap().is_pent()) {
        // correct, but takes too long
        return Ok(false);
    }
    let mut got = sut("gridDiskDistances", || gridDiskDistances(c.a[0], k as u32))?.map_err(|e| format!("error {e:?}"))?;
    want.sort_unstable();
    got.sort_unstable();
    if got != want {
        let gs: std::collections::BTreeMap<u64, u32> = got.iter().copied().collect();
        let ws: std::collections::BTreeMap<u64, u32> = want.iter().copied().collect();
        if gs.len() != got.len() {
            return Err("a cell appears more than once".into());
        }
        for (x, d) in &want {
            match gs.get(x) {
                None => return Err(format!("0x{x:x} at distance {d} is missing ({} cells instead of {})", got.len(), want.len())),
                Some(g) if g != d => return Err(format!("0x{x:x} is reported at distance {g}, it is at {d}")),
                _ => {}
            }
        }
        for (x, d) in &got {
            if !ws.contains_key(x) {
                return Err(format!("0x{x:x} (reported at distance {d}) is not in the disk"));
            }
        }
        return Err("different".into());
    }
    st.label_n("cells compared", want.len() as u64);
    if want.iter().any(|(x, _)| Cell::parse(*x).unwrap().is_pent()) {
        st.label("with a pentagon in the disk");
        if cell.is_pent() {
            st.label("centred on a pentagon");
        }
    }
    Ok(true)
}

fn radius(env: &Env, s: &mut Src) -> u64 {
    match s.below(20) {
        0 if env.thorough => s.below(24),
        1 => s.below(10),
        _ => s.below(6),
    }
}
fn g(env: &Env, s: &mut Src) -> Case {
    let c = gen_cell(env, s).index();
    case(0, &[c, radius(env, s)])
}
/// a few steps away from a pentagon
fn g_pent(env: &Env, s: &mut Src) -> Case {
    let mut c = Cell::base(s.pick(&PENT_BCS));
    c.res = gen_res(s);
    let k = radius(env, s);
    for _ in 0..s.below(k + 2) {
        if let Some(x) = env.m.neighbor(&c, 1 + s.below(6) as u8) {
            c = x;
        }
    }
    case(0, &[c.index(), k])
}

/// a wide disk
fn g_wide(env: &Env, s: &mut Src) -> Case {
    let res = 5 + s.below(11) as u8;
    let k = match s.below(4) {
        0 if s.below(3) == 0 => 250 + s.below(12),
        1 => 120 + s.below(12),
        _ => 16 + s.below(60),
    };
    case(0, &[gen_cell_res(env, s, res).index(), k])
}
fn g_wide_pent(env: &Env, s: &mut Src) -> Case {
    let mut c = Cell::base(s.pick(&PENT_BCS));
    c.res = 2 + s.below(14) as u8;
    let top = if s.below(8) == 0 { 70 } else { 30 };
    let k = 10 + s.below(top);
    let n = s.below(k + 2) as i64;
    c = away(env, s, &c, n);
    case(0, &[c.index(), k])
}
fn g_globe(_env: &Env, s: &mut Src) -> Case {
    let res = s.below(3) as u8;
    let c = nth_cell(res, s.below(cell_count(res as u32)));
    case(0, &[c.index(), 1 + s.below([16, 40, 120][res as usize])])
}

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        ops: &[Op { name: "gridDiskDistances", args: &[("origin", Kind::Cell), ("k", Kind::Int)] }],
        rule: "All cells of resolutions 0 to 2 with k 0 to 4, then random cells of all resolutions and cells a few steps from a pentagon with k up to 9 (23 in the thorough tier), wide disks with k up to 261, also around pentagons and the whole globe, against a breadth first search over the reference model's exact neighbours. Non-trivial: a valid cell.",
        assumptions: &["radius at most 261 (80 where a pentagon is in the disk: the time the code takes grows with a high power of the radius there), and at most 9 for most cases"],
        check,
        phases: |t| {
            let n = if t { 8_000_000 } else { 1_000_000 };
            let w = if t { 20_000 } else { 1_000 };
            vec![
                Phase::Enum { name: "all cells of resolutions 0 to 2, k 0 to 4", n: cells_upto_count(2) * 5, at: |_, i| case(0, &[cells_upto(i / 5).index(), i % 5]) },
                Phase::Random { name: "wide disks", gen: g_wide, n: w },
                Phase::Random { name: "wide disks near pentagons", gen: g_wide_pent, n: w * 5 / 2 },
                Phase::Random { name: "disks around much of the globe", gen: g_globe, n: w * 3 / 2 },
                Phase::Random { name: "disks", gen: g, n },
                Phase::Random { name: "disks near pentagons", gen: g_pent, n },
            ]
        },
        fuzz: |e, s| if s.below(2) == 0 { g_pent(e, s) } else { g(e, s) },
    }
}
