//! C11: the hollow ring is exactly the cells at distance k, or refused.
use h3_rs::algos::gridRingUnsafe;
use h3_rs::error::Error;
use vharness::engine::*;
use vharness::gen::*;
use vharness::model::*;

fn check(env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    let cell = match Cell::parse(c.a[0]) {
        Some(x) => x,
        None => return Ok(false),
    };
    let k = c.a[1];
    if c.op == 1 {
        return huge(env, &cell, k, st);
    }
    if k > 400 {
        return Ok(false);
    }
    let ball = env.m.ball(&cell, k as u32);
    let pent = ball.iter().any(|(x, _)| Cell::parse(*x).unwrap().is_pent());
    let got = sut("gridRingUnsafe", || gridRingUnsafe(c.a[0], k as u32))?;
    let mut got = match got {
        Err(Error::Pentagon) if pent && k > 0 => {
            st.label("refused: pentagon in the disk");
            return Ok(true);
        }
        Err(e) => return Err(format!("error {e:?}, although there is {} pentagon within distance {k}", if pent { "a" } else { "no" })),
        Ok(v) => v,
    };
    let mut want: Vec<u64> = ball.iter().filter(|x| x.1 as u64 == k).map(|x| x.0).collect();
    // consecutive cells of the ring touch
    if k > 0 && !pent {
        let mut nb = Vec::new();
        for i in 0..got.len() {
            let x = match Cell::parse(got[i]) {
                Some(x) => x,
                None => return Err(format!("0x{:x} is not a valid cell", got[i])),
            };
            env.m.neighbors(&x, &mut nb);
            let next = got[(i + 1) % got.len()];
            if got.len() > 1 && !nb.iter().any(|y| y.index() == next) {
                return Err(format!("cell {i} of the ring, 0x{:x}, does not touch the next, 0x{next:x}", got[i]));
            }
        }
    }
    let n = got.len();
    got.sort_unstable();
    want.sort_unstable();
    if got != want {
        let extra: Vec<_> = got.iter().filter(|x| !want.contains(x)).collect();
        let missing: Vec<_> = want.iter().filter(|x| !got.contains(x)).collect();
        return Err(format!("{n} cells instead of {}; not in the ring: {extra:x?}; missing: {missing:x?}", want.len()));
    }
    st.label(if pent { "exact, with a pentagon inside" } else { "exact" });
    Ok(true)
}

/// A ring too wide for a search: no pentagon is near (by the angle to the
/// twelve vertices), so a walk along straight lines gives the ring.
fn huge(env: &Env, cell: &Cell, k: u64, st: &mut Stats) -> Verdict {
    if k == 0 || k > 200_000 {
        return Ok(false);
    }
    let v = env.m.center(cell);
    // neighbouring centres are at most this far apart
    let apart = 0.33 / 7f64.powf(cell.res as f64 / 2.0);
    for bc in PENT_BCS {
        if angle(v, env.m.center(&Cell::base(bc))) < (k as f64 + 2.0) * apart {
            return Ok(false);
        }
    }
    let got = sut("gridRingUnsafe", || gridRingUnsafe(cell.index(), k as u32))?;
    let mut got = got.map_err(|e| format!("error {e:?}, although no pentagon is near"))?;
    // keep the heading by the cell we came from
    let mut want = Vec::with_capacity(6 * k as usize);
    let mut cur = *cell;
    let mut back: Option<Cell> = None;
    let mut go = |cur: &mut Cell, turn: i64| -> Result<(), String> {
        let a = match &back {
            None => 0,
            Some(p) => (1..7u8).find(|d| env.m.neighbor(cur, *d) == Some(*p)).map(|d| ANG[d as usize] + 3).ok_or("the model's cells do not touch")?,
        };
        let next = env.m.neighbor(cur, DIG[(a + turn).rem_euclid(6) as usize]).ok_or("the model found a pentagon")?;
        back = Some(*cur);
        *cur = next;
        Ok(())
    };
    for _ in 0..k {
        go(&mut cur, 0)?;
        tick();
    }
    for side in 0..6 {
        for i in 0..k {
            go(&mut cur, if i > 0 { 0 } else if side == 0 { 2 } else { 1 })?;
            want.push(cur.index());
        }
        tick();
    }
    if got.len() != want.len() {
        return Err(format!("{} cells instead of {}", got.len(), want.len()));
    }
    let mut nb = Vec::new();
    for i in 0..got.len() {
        let x = Cell::parse(got[i]).ok_or_else(|| format!("0x{:x} is not a valid cell", got[i]))?;
        env.m.neighbors(&x, &mut nb);
        let next = got[(i + 1) % got.len()];
        if !nb.iter().any(|y| y.index() == next) {
            return Err(format!("cell {i} of the ring, 0x{:x}, does not touch the next, 0x{next:x}", got[i]));
        }
    }
    got.sort_unstable();
    want.sort_unstable();
    if let Some(i) = (0..want.len()).find(|i| got[*i] != want[*i]) {
        return Err(format!("in ascending order, cell {i} is 0x{:x} instead of 0x{:x}", got[i], want[i]));
    }
    st.label("huge ring, exact");
    Ok(true)
}
fn g_huge(env: &Env, s: &mut Src) -> Case {
    let k = match s.below(4) {
        0 => (1u64 << s.range(8, 16)) as i64 + s.range(-2, 2),
        1 => 1000 + s.below(9000) as i64,
        _ => 60 + s.below(600) as i64,
    };
    let need = ((k as f64).ln() / 7f64.ln() * 2.0).ceil() as u64 + 1;
    let res = need + s.below(16 - need.min(15));
    case(1, &[gen_cell_res(env, s, res.min(15) as u8).index(), k as u64])
}
fn g_wide(env: &Env, s: &mut Src) -> Case {
    let mut c = Cell::base(s.pick(&PENT_BCS));
    c.res = 3 + s.below(13) as u8;
    let top = if s.below(8) == 0 { 250 } else { 60 };
    let k = 16 + s.below(top);
    let n = k as i64 + s.range(-3, 3);
    c = away(env, s, &c, n);
    case(0, &[c.index(), k])
}
/// a ring of medium size with a pentagon on it, just inside or just outside
fn g_rim(env: &Env, s: &mut Src) -> Case {
    let mut c = Cell::base(s.pick(&PENT_BCS));
    c.res = if s.chance(70) { 2 + s.below(5) as u8 } else { s.below(16) as u8 };
    let k = match s.below(8) {
        0 | 1 => 22 + s.below(8),
        2 => 30 + s.below(30),
        _ => 4 + s.below(24),
    };
    let n = k as i64 + if s.chance(80) { s.range(-1, 2) } else { s.range(-(k as i64), 0) };
    case(0, &[away(env, s, &c, n).index(), k])
}

fn radius(s: &mut Src) -> u64 {
    match s.below(16) {
        0 => s.below(16),
        1 | 2 => s.below(9),
        _ => s.below(6),
    }
}
fn g(env: &Env, s: &mut Src) -> Case {
    let c = gen_cell(env, s).index();
    case(0, &[c, radius(s)])
}
fn g_pent(env: &Env, s: &mut Src) -> Case {
    let mut c = Cell::base(s.pick(&PENT_BCS));
    c.res = gen_res(s);
    let k = radius(s);
    let d = 1 + s.below(6) as u8;
    for _ in 0..(k as i64 + s.range(-3, 3)) {
        let x = if s.chance(75) { d } else { 1 + s.below(6) as u8 };
        if let Some(x) = env.m.neighbor(&c, x) {
            c = x;
        }
    }
    case(0, &[c.index(), k])
}

fn g_globe(env: &Env, s: &mut Src) -> Case {
    let res = 2 + u8::from(s.below(10) == 0);
    let c = if s.chance(50) { gen_cell_res(env, s, res) } else { nth_cell(res, s.below(cell_count(res as u32))) };
    let k = if res == 2 { 16 + s.below(30) } else { 40 + s.below(50) };
    case(0, &[c.index(), k])
}

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        ops: &[
            Op { name: "gridRingUnsafe", args: &[("origin", Kind::Cell), ("k", Kind::Int)] },
            Op { name: "huge_ring", args: &[("origin", Kind::Cell), ("k", Kind::Int)] },
        ],
        rule: "All cells of resolutions 0 to 2 with k 0 to 5, then random cells of all resolutions, and cells with a pentagon inside, on or just outside of the ring, k up to 15, rings of medium size (k 4 to 60) with a pentagon on them, inside or just outside in any direction, and wide rings (k up to 265) around many pentagons or near one, against a breadth first search over the reference model's exact neighbours; and rings of k up to 65538 far from the pentagons against a straight walk in the model. Non-trivial: a valid cell.",
        assumptions: &["radius at most 265 where pentagons are near, at most 65538 elsewhere, and at most 15 for most cases"],
        check,
        phases: |t| {
            let n = if t { 12_000_000 } else { 800_000 };
            vec![
                Phase::Enum { name: "all cells of resolutions 0 to 2, k 0 to 5", n: cells_upto_count(2) * 6, at: |_, i| case(0, &[cells_upto(i / 6).index(), i % 6]) },
                Phase::Enum { name: "all cells of resolutions 0 and 1, k 0 to 24: rings around half of the globe and more", n: cells_upto_count(1) * 25, at: |_, i| case(0, &[cells_upto(i / 25).index(), i % 25]) },
                Phase::Random { name: "rings of resolutions 2 and 3 around many pentagons", gen: g_globe, n: if t { 100_000 } else { 6000 } },
                Phase::Random { name: "wide rings near pentagons", gen: g_wide, n: if t { 100_000 } else { 5000 } },
                Phase::Random { name: "huge rings far from pentagons", gen: g_huge, n: if t { 20_000 } else { 300 } },
                Phase::Random { name: "rings with a pentagon on them, or inside", gen: g_rim, n: if t { 1_000_000 } else { 25_000 } },
                Phase::Random { name: "rings", gen: g, n },
                Phase::Random { name: "rings near pentagons", gen: g_pent, n },
            ]
        },
        fuzz: |e, s| if s.below(2) == 0 { g_pent(e, s) } else { g(e, s) },
    }
}
