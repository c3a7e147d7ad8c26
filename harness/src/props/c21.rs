//! C21: the bound on the size of a disk.
use h3_rs::algos::{gridDiskDistances, maxGridDiskSize};
use vharness::engine::*;
use vharness::gen::*;
use vharness::model::*;

fn check(env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    if c.op == 1 {
        // no disk is larger, one without a pentagon is as large
        let cell = match Cell::parse(c.a[0]) {
            Some(x) => x,
            None => return Ok(false),
        };
        let k = c.a[1];
        if k > 12 {
            return Ok(false);
        }
        let bound = sut("maxGridDiskSize", || maxGridDiskSize(k as u32))?;
        let n = sut("gridDiskDistances", || gridDiskDistances(c.a[0], k as u32))?.map_err(|e| format!("{e:?}"))?.len();
        let ball = env.m.ball(&cell, k as u32);
        // a pentagon on the rim does not make the disk smaller
        let pent = ball.iter().any(|(x, d)| (*d as u64) < k && Cell::parse(*x).unwrap().is_pent());
        if n > bound || pent != (n < bound) {
            return Err(format!("the bound is {bound}, the disk {} pentagon inside has {n} cells", if pent { "with a" } else { "without a" }));
        }
        st.label("disk compared with the bound");
        return Ok(true);
    }
    let k = c.a[0];
    if k > u32::MAX as u64 {
        return Ok(false);
    }
    let got = sut("maxGridDiskSize", || maxGridDiskSize(k as u32))?;
    let formula = 3 * k as u128 * (k as u128 + 1) + 1;
    let all = cell_count(15) as u128;
    let want = formula.min(all);
    if got as u128 != want {
        return Err(format!("{got}, expected {want}"));
    }
    st.label(if formula < all { "3k(k+1)+1" } else { "every cell there is" });
    Ok(true)
}

fn g(env: &Env, s: &mut Src) -> Case {
    let k = match s.below(6) {
        0 => s.below(1 << 32),
        1 => s.below(1 << 32) >> s.below(32),
        2 => s.pick(&env.dict.ints) & 0xffff_ffff,
        3 => 13_780_510u64.wrapping_add(s.range(-1000, 1000) as u64),
        4 => ((1u64 << s.below(33)) as i64 + s.range(-2, 2)).clamp(0, u32::MAX as i64) as u64,
        _ => s.below(14_000_000),
    };
    case(0, &[k])
}
fn g_disk(env: &Env, s: &mut Src) -> Case {
    case(1, &[gen_cell(env, s).index(), s.below(8)])
}

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        ops: &[Op { name: "bound", args: &[("k", Kind::Int)] }, Op { name: "disk", args: &[("origin", Kind::Cell), ("k", Kind::Int)] }],
        rule: "Every k up to 20 million (exhaustive up to beyond the radius that covers all cells), then random k over the whole range of 32 bits, powers of two and constants of the sources; and disks of random cells compared with the bound. Non-trivial: every k; a valid cell.",
        assumptions: &["resolution 15 has the most cells, 2 + 120 * 7^15, which no disk can exceed"],
        check,
        phases: |t| {
            let n = if t { 500_000_000 } else { 60_000_000 };
            vec![
                Phase::Enum { name: "every k to 20 million", n: 20_000_000, at: |_, i| case(0, &[i]) },
                Phase::Random { name: "k", gen: g, n },
                Phase::Random { name: "disks", gen: g_disk, n: if t { 5_000_000 } else { 200_000 } },
            ]
        },
        fuzz: |e, s| if s.below(4) == 0 { g_disk(e, s) } else { g(e, s) },
    }
}
