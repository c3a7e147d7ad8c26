//! C05: the children of a cell are exactly its descendants, once, in order.
use h3_rs::h3_index::cellToChildren;
use h3_rs::iterators::IterCellsChildren;
use vharness::engine::*;
use vharness::gen::*;
use vharness::model::*;

/// walk the descendants of c in ascending order; false stops
fn descend(c: &Cell, res: u8, f: &mut dyn FnMut(u64) -> bool) -> bool {
    if c.res == res {
        return f(c.index());
    }
    let pent = c.is_pent();
    for d in 0..7 {
        if (d != 1 || !pent) && !descend(&c.child(d), res, f) {
            return false;
        }
    }
    true
}

/// longest prefix compared when the whole list is too long
const PREFIX: u64 = 20_000;

fn check(_env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    let cell = match Cell::parse(c.a[0]) {
        Some(x) => x,
        None => return Ok(false),
    };
    let res = c.a[1] as i64 as i32;
    let limit = if c.op == 1 { u64::MAX } else { PREFIX };
    if res < cell.res as i32 || res > 15 {
        let n = sut("IterCellsChildren", || IterCellsChildren::from_parent(c.a[0], res).take(10).count())?;
        if n != 0 {
            return Err(format!("{n} children at a resolution that has none"));
        }
        match sut("cellToChildren", || cellToChildren(c.a[0], res))? {
            Ok(v) if !v.is_empty() => return Err(format!("{} children at a resolution that has none", v.len())),
            _ => {}
        }
        st.label("resolution out of range");
        return Ok(true);
    }
    let total = num_children(cell.is_pent(), (res - cell.res as i32) as u32) as u64;
    if c.op == 2 {
        return stream(&cell, res as u8, total, u64::MAX, st);
    }
    if c.op == 4 {
        return stream(&cell, res as u8, total, c.a[2], st);
    }
    if c.op == 3 {
        return adaptors(&cell, res as u8, total, &c.a[2..], st);
    }
    let whole = total <= limit;
    let mut it = sut("IterCellsChildren", || IterCellsChildren::from_parent(c.a[0], res))?;
    let mut n = 0u64;
    let mut bad: Option<String> = None;
    let r = sut("IterCellsChildren", || {
        descend(&cell, res as u8, &mut |want| {
            let got = it.next();
            if got != Some(want) {
                bad = Some(format!("child number {n} of {total} is {got:x?}, expected 0x{want:x}"));
                return false;
            }
            n += 1;
            n < limit
        });
        if whole && bad.is_none() {
            for _ in 0..3 {
                let got = it.next();
                if got.is_some() {
                    bad = Some(format!("after all {total} children the iterator yields {got:x?}"));
                }
            }
        }
    });
    r?;
    if let Some(m) = bad {
        return Err(m);
    }
    if whole {
        let v = sut("cellToChildren", || cellToChildren(c.a[0], res))?.map_err(|e| format!("cellToChildren: {e:?}"))?;
        if v.len() as u64 != total {
            return Err(format!("cellToChildren returned {} cells, there are {total}", v.len()));
        }
        let mut i = 0;
        descend(&cell, res as u8, &mut |want| {
            if v[i] != want {
                bad = Some(format!("cellToChildren: number {i} is 0x{:x}, expected 0x{want:x}", v[i]));
                return false;
            }
            i += 1;
            true
        });
        if let Some(m) = bad {
            return Err(m);
        }
        st.label("complete lists compared");
    } else {
        st.label("first 20000 compared");
    }
    st.label_n("children compared", n);
    if cell.is_pent() {
        st.label("pentagon parent");
    }
    Ok(true)
}

/// longest list streamed
fn stream_limit(thorough: bool) -> u32 {
    if thorough {
        11
    } else {
        10
    }
}

/// The iterator's other methods (they are derived from next(), unless someone
/// makes them faster): jump n children ahead, then look at what remains.
fn adaptors(cell: &Cell, res: u8, total: u64, a: &[u64], st: &mut Stats) -> Verdict {
    const TOP: u64 = 20_000;
    let h = cell.index();
    let at = |n: u64| if n < total { Some(nth_child(cell, res, n as i64).index()) } else { None };
    let mut it = sut("IterCellsChildren", || IterCellsChildren::from_parent(h, res as i32))?;
    let mut pos = 0u64;
    for jump in &a[..2] {
        let (lo, hi) = sut("IterCellsChildren::size_hint", || it.size_hint())?;
        if lo as u64 > total - pos || hi.is_some_and(|x| (x as u64) < total - pos) {
            return Err(format!("size_hint is ({lo}, {hi:?}) with {} of {total} children left", total - pos));
        }
        let jump = (jump % (total + 2)).min(TOP);
        let got = sut("IterCellsChildren::nth", || it.nth(jump as usize))?;
        if got != at(pos + jump) {
            return Err(format!("after {pos} of {total} children, nth({jump}) is {got:x?}, expected {:x?}", at(pos + jump)));
        }
        pos = (pos + jump + 1).min(total);
    }
    let left = total - pos;
    let how = a[2] % 6;
    let (lo, hi) = sut("IterCellsChildren::size_hint", || it.size_hint())?;
    if lo as u64 > left || hi.is_some_and(|x| (x as u64) < left) {
        return Err(format!("size_hint is ({lo}, {hi:?}) with {left} of {total} children left"));
    }
    if left > TOP {
        let got = sut("IterCellsChildren::step_by", || it.by_ref().step_by(7).nth(100))?;
        if got != at(pos + 700) {
            return Err(format!("after {pos} of {total} children, number 100 of every seventh is {got:x?}, expected {:x?}", at(pos + 700)));
        }
        st.label("jumps, long list");
        return Ok(true);
    }
    let sum = |from: u64| (from..total).fold((0u64, 0u64), |(n, x), i| (n + 1, x ^ at(i).unwrap().rotate_left((n % 64) as u32)));
    let (name, bad) = match how {
        0 => ("count", sut("IterCellsChildren::count", || it.count())? as u64 != left),
        1 => ("last", sut("IterCellsChildren::last", || it.last())? != if left > 0 { at(total - 1) } else { None }),
        2 => ("fold", sut("IterCellsChildren::fold", || it.fold((0u64, 0u64), |(n, x), c| (n + 1, x ^ c.rotate_left((n % 64) as u32))))? != sum(pos)),
        3 => ("collect", {
            let v: Vec<u64> = sut("IterCellsChildren::collect", || it.collect())?;
            v.len() as u64 != left || v.iter().enumerate().any(|(i, c)| Some(*c) != at(pos + i as u64))
        }),
        4 => ("max", sut("IterCellsChildren::max", || it.max())? != if left > 0 { at(total - 1) } else { None }),
        _ => ("for_each", {
            let mut v = vec![];
            sut("IterCellsChildren::for_each", || it.for_each(|c| v.push(c)))?;
            v.len() as u64 != left || v.iter().enumerate().any(|(i, c)| Some(*c) != at(pos + i as u64))
        }),
    };
    if bad {
        return Err(format!("after {pos} of {total} children, {name}() does not give the {left} that are left"));
    }
    st.label("jumps, and the rest at once");
    Ok(true)
}

/// the whole iteration of a long list, against a counter of our own
fn stream(cell: &Cell, res: u8, total: u64, limit: u64, st: &mut Stats) -> Verdict {
    let pent = cell.is_pent();
    let levels = (res - cell.res) as usize;
    let h = cell.index();
    // first child
    let mut want = {
        let mut x = *cell;
        while x.res < res {
            x = x.child(0);
        }
        x.index()
    };
    let shift = |lv: usize| 3 * (15 - (cell.res as usize + lv)); // level 1..=levels
    let mut dig = [0u8; 17];
    let mut it = sut("IterCellsChildren", || IterCellsChildren::from_parent(h, res as i32))?;
    let mut n = 0u64;
    let mut bad: Option<String> = None;
    sut("IterCellsChildren", || loop {
        let got = it.next();
        if got != Some(want) {
            bad = Some(format!("child number {n} of {total} is {got:x?}, expected 0x{want:x}"));
            return;
        }
        n += 1;
        if n & 0xff_ffff == 0 {
            tick();
        }
        if n >= limit {
            return;
        }
        // the next descendant
        let mut lv = levels;
        while lv > 0 && dig[lv] == 6 {
            want -= 6 << shift(lv);
            dig[lv] = 0;
            lv -= 1;
        }
        if lv == 0 {
            for _ in 0..3 {
                let got = it.next();
                if got.is_some() {
                    bad = Some(format!("after all {n} children the iterator yields {got:x?}"));
                }
            }
            return;
        }
        let skip = pent && dig[lv] == 0 && dig[1..lv].iter().all(|d| *d == 0);
        let by = if skip { 2 } else { 1 };
        dig[lv] += by;
        want += (by as u64) << shift(lv);
    })?;
    if let Some(m) = bad {
        return Err(m);
    }
    if n != total && n < limit {
        return Err(format!("{n} children, there are {total}"));
    }
    st.label(if n == total { "long lists streamed completely" } else { "beginnings of very long lists streamed" });
    st.label_n("children compared", n);
    Ok(true)
}
/// deep lists: base cells and cells further down, pentagons among them
fn at_stream(env: &Env, i: u64) -> Case {
    // levels by share of the cases
    let top = stream_limit(env.thorough);
    let lv = match i % 64 {
        0..=1 => top,
        2..=9 => top - 1,
        10..=31 => top - 2,
        _ => top - 3,
    };
    let x = hash(i ^ env.seed << 20);
    let from = if i & 2 == 0 { 0 } else { (x % (16 - lv as u64)) as u8 };
    let mut c = if i & 1 == 0 { Cell::base(PENTS[(x >> 8) as usize % 12]) } else { Cell::base(((x >> 8) % 122) as u8) };
    for j in 0..from {
        let d = if i & 1 == 0 && i & 4 == 0 { 0 } else { (x >> (16 + 3 * j)) % 7 };
        let d = if d == 1 && c.is_pent() { 0 } else { d };
        c = c.child(d as u8);
    }
    case(2, &[c.index(), (from as u32 + lv) as u64])
}
const PENTS: [u8; 12] = [4, 14, 24, 38, 49, 58, 63, 72, 83, 97, 107, 117];
fn hash(mut x: u64) -> u64 {
    x = (x ^ x >> 30).wrapping_mul(0xbf58476d1ce4e5b9).wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ x >> 27).wrapping_mul(0x94d049bb133111eb);
    x ^ x >> 31
}

fn g(env: &Env, s: &mut Src) -> Case {
    let cell = gen_cell(env, s);
    let res = if s.chance(85) {
        (cell.res as i64 + s.range(0, 4)).min(15)
    } else {
        s.range(cell.res as i64, 15)
    };
    case(0, &[cell.index(), res as u64])
}
fn g_any(env: &Env, s: &mut Src) -> Case {
    let cell = gen_cell(env, s);
    let res = match s.below(3) {
        0 => s.u64() as i32 as i64,
        1 => s.range(-2, cell.res as i64),
        _ => s.range(14, 40),
    };
    case(0, &[cell.index(), res as u64])
}
fn g_big(env: &Env, s: &mut Src) -> Case {
    let res = s.below(16) as u8;
    let cell = gen_cell_res(env, s, res);
    let top = if env.thorough { 8 } else { 7 };
    case(1, &[cell.index(), (res as i64 + s.range(5, top)).min(15) as u64])
}
fn g_jump(env: &Env, s: &mut Src) -> Case {
    let cell = gen_cell(env, s);
    let top = if s.chance(85) { (cell.res as i64 + s.range(0, 5)).min(15) } else { s.range(cell.res as i64, 15) };
    let big = |s: &mut Src| match s.below(3) {
        0 => s.below(9),
        1 => s.below(400),
        _ => s.u64() >> 1,
    };
    let (a, b) = (big(s), big(s));
    case(3, &[cell.index(), top as u64, a, b, s.below(6)])
}
/// lists so long that a counter of 32 bits would not do
fn at_long(env: &Env, i: u64) -> Case {
    let x = hash(i ^ env.seed << 20);
    let lv = 12 + i / 2 % 4;
    let from = x % (16 - lv);
    let mut c = Cell::base(if i & 1 == 0 { (x >> 8) as u8 % 122 } else { PENTS[(x >> 8) as usize % 12] });
    for _ in 0..from {
        c = c.child(0);
    }
    let n = if env.thorough { 4_400_000_000 } else { 1_000_000_000 };
    case(4, &[c.index(), from + lv, n])
}
/// all pentagons, and a few hexagons, to every resolution
fn at(_env: &Env, i: u64) -> Case {
    let to = i % 16;
    let from = i / 16 % 16;
    let mut c = Cell::base((i / 256) as u8);
    c.res = from as u8;
    case(0, &[c.index(), to])
}

pub fn prop() -> Prop {
    const ARGS: &[(&str, Kind)] = &[("cell", Kind::Cell), ("childRes", Kind::Int)];
    Prop {
        id: "C05",
        ops: &[Op { name: "children", args: ARGS }, Op { name: "all_children", args: ARGS }, Op { name: "stream_children", args: ARGS },
            Op { name: "jump_among_children", args: &[("cell", Kind::Cell), ("childRes", Kind::Int), ("jump", Kind::Int), ("jump", Kind::Int), ("then", Kind::Int)] },
            Op { name: "stream_children_up_to", args: &[("cell", Kind::Cell), ("childRes", Kind::Int), ("limit", Kind::Int)] },
        ],
        rule: "The centre line of all 122 base cells (all pentagons included) with every pair of resolutions, then random cells of every resolution; the list is compared element by element, up to 20000 children per case and completely for some cases up to 823543 children (5.7 million in the thorough tier); the iterator alone is streamed to its end over up to 10 levels (282 million children; 11 levels in the thorough tier), and over the first 10^9 (4.4*10^9) children of lists of 12 to 15 levels; nth, count, last, fold, collect, step_by and size_hint must agree with the list, too; out-of-range resolutions must yield nothing. Non-trivial: a valid cell.",
        assumptions: &["lists longer than the stated limits are compared on their first 20000 elements"],
        check,
        phases: |t| {
            let n = if t { 4_000_000 } else { 720_000 };
            vec![
                Phase::Enum { name: "base cells' centres, all resolution pairs", n: 122 * 256, at },
                Phase::Enum { name: "long lists, streamed", n: if t { 256 } else { 64 }, at: at_stream },
                Phase::Random { name: "cells", gen: g, n },
                Phase::Enum { name: "very long lists, their beginnings streamed", n: 8, at: at_long },
                Phase::Random { name: "jumps", gen: g_jump, n: n / 12 },
                Phase::Random { name: "resolutions out of range", gen: g_any, n: n * 2 },
                Phase::Random { name: "long lists", gen: g_big, n: if t { 3000 } else { 300 } },
            ]
        },
        fuzz: |e, s| match s.below(8) {
            0 | 1 => g_any(e, s),
            2 => g_jump(e, s),
            _ => g(e, s),
        },
    }
}
