//! C20: the carried rotations keep the heading of a walk.
use h3_rs::algos::h3NeighborRotations;
use h3_rs::h3_index::H3_GET_INDEX_DIGIT;
use vharness::engine::*;
use vharness::gen::*;
use vharness::model::*;

fn step(h: u64, d: u8, rot: &mut i32) -> Result<Result<u64, h3_rs::error::Error>, String> {
    let dir = H3_GET_INDEX_DIGIT(d as u64, 15);
    let r = sut("h3NeighborRotations", || h3NeighborRotations(h, dir, rot))?;
    // else a long walk adds them up without end
    if r.is_ok() && !(0..6).contains(rot) {
        return Err(format!("a step in direction {d} from 0x{h:x} returns {rot} rotations, more than a turn or less than none"));
    }
    Ok(r)
}
/// place of a neighbour around a hexagon, in units of 60 degrees ccw
fn place(m: &Model, c: &Cell, n: &Cell) -> Option<i64> {
    (1..7u8).find(|d| m.neighbor(c, *d) == Some(*n)).map(|d| ANG[d as usize])
}

/// A walk: every move is a direction in the frame the walk started with. The
/// reference walker only knows which neighbour it came from and turns relative
/// to that, so it needs no frames of base cells.
fn check(env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    let start = match Cell::parse(c.a[0]) {
        Some(x) => x,
        None => return Ok(false),
    };
    let rot0 = c.a[1] as i64 as i32;
    if !(0..6).contains(&rot0) {
        return Ok(false);
    }
    let mut mv = moves(c.a[2]);
    if c.op == 1 {
        // the same moves over and over
        let n = c.a[3];
        if n > 5000 {
            return Ok(false);
        }
        mv = mv.iter().copied().cycle().take(mv.len() * n as usize).collect();
    }
    let mut rot = rot0;
    let mut cur = start;
    // (cell we came from, direction of the move that got us here)
    let mut from: Option<(Cell, i64)> = None;
    let mut crossed = false;
    let mut pent = false;
    let mut n = 0;
    for (i, d) in mv.iter().enumerate() {
        if *d == 0 {
            // no move: the frame stays as it is
            let r0 = rot;
            let x = step(cur.index(), 0, &mut rot)?;
            if x != Ok(cur.index()) {
                return Err(format!("move {i} to the centre gave {x:x?}"));
            }
            if (rot - r0) % 6 != 0 {
                return Err(format!("move {i} to the centre changed the rotations from {r0} to {rot}"));
            }
            continue;
        }
        let want = match &from {
            None => env.m.neighbor(&cur, rot_digit(*d, rot0 as i64)),
            Some((prev, how)) => {
                let p = match place(&env.m, &cur, prev) {
                    Some(p) => p,
                    None => return Err("the model's cells do not touch".into()),
                };
                // straight on is opposite of where we came from
                let a = (p + 3 + ANG[*d as usize] - how).rem_euclid(6);
                env.m.neighbor(&cur, DIG[a as usize])
            }
        };
        let want = match want {
            Some(x) => x,
            None => {
                // only from a pentagon at the start: its missing direction
                return Ok(n > 1);
            }
        };
        let got = step(cur.index(), *d, &mut rot)?;
        if got != Ok(want.index()) {
            return Err(format!(
                "move {i} (direction {d}) from 0x{:x}, carried rotations, arrived at {got:x?}; keeping the heading leads to 0x{:x}",
                cur.index(),
                want.index()
            ));
        }
        n += 1;
        crossed |= want.bc != cur.bc;
        pent |= is_pent_bc(want.bc) || is_pent_bc(cur.bc);
        from = Some((cur, ANG[*d as usize]));
        cur = want;
        if cur.is_pent() {
            // straight on is not defined beyond a pentagon
            st.label("ended in a pentagon");
            break;
        }
    }
    if crossed {
        st.label("crossed into another base cell");
    }
    if pent {
        st.label("through a pentagon base cell");
    }
    st.label_n("moves", n as u64);
    Ok(n > 1)
}

fn walk(s: &mut Src) -> Vec<u8> {
    let n = match s.below(4) {
        0 => 2,
        1 => 2 + s.below(3),
        _ => 2 + s.below(19),
    } as usize;
    let style = s.below(4);
    let a = 1 + s.below(6) as u8;
    (0..n)
        .map(|i| match style {
            0 => a,
            1 => {
                if s.chance(80) {
                    a
                } else {
                    1 + s.below(6) as u8
                }
            }
            2 => {
                // around in circles
                rot_digit(a, (i as i64) / (1 + (n as i64) / 7))
            }
            _ => s.below(7) as u8,
        })
        .collect()
}
fn g(env: &Env, s: &mut Src) -> Case {
    let c = gen_cell(env, s).index();
    case(0, &[c, if s.below(2) == 0 { 0 } else { s.below(6) }, pack_moves(&walk(s))])
}
fn g_pent(env: &Env, s: &mut Src) -> Case {
    let mut c = Cell::base(s.pick(&PENT_BCS));
    c.res = gen_res(s);
    for _ in 0..1 + s.below(6) {
        if let Some(x) = env.m.neighbor(&c, 1 + s.below(6) as u8) {
            c = x;
        }
    }
    case(0, &[c.index(), if s.below(2) == 0 { 0 } else { s.below(6) }, pack_moves(&walk(s))])
}

fn g_long(env: &Env, s: &mut Src) -> Case {
    let c = if s.below(3) == 0 {
        let res = s.below(5) as u8;
        gen_cell_res(env, s, res)
    } else {
        gen_cell(env, s)
    };
    let a = 1 + s.below(6) as u8;
    let mv: Vec<u8> = match s.below(4) {
        0 => vec![a],
        1 => vec![a, rot_digit(a, 1)],
        _ => (0..1 + s.below(6)).map(|_| if s.chance(70) { a } else { 1 + s.below(6) as u8 }).collect(),
    };
    let top = if s.below(16) == 0 { 1000 } else { 100 };
    let n = 10 + s.below(top);
    case(1, &[c.index(), s.below(6), pack_moves(&mv), n])
}

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        ops: &[
            Op { name: "walk", args: &[("start", Kind::Cell), ("rotations", Kind::Int), ("moves", Kind::Moves)] },
            Op { name: "long_walk", args: &[("start", Kind::Cell), ("rotations", Kind::Int), ("moves", Kind::Moves), ("times", Kind::Int)] },
        ],
        rule: "All pairs of moves from all cells of resolutions 0 to 3, then random walks of up to 21 moves (straight, mostly straight, circles, any) from random cells and from cells near pentagons, and the same few moves repeated up to 1000 times (often around the globe), with the rotations carried along; a reference walker, which only turns relative to the neighbour it came from, must visit the same cells. Non-trivial: at least two moves.",
        assumptions: &["a walk ends when it enters a pentagon, where going straight on is not defined"],
        check,
        phases: |t| {
            let n = if t { 100_000_000 } else { 12_000_000 };
            vec![
                Phase::Enum {
                    name: "all pairs of moves, resolutions 0 to 3",
                    n: cells_upto_count(3) * 36,
                    at: |_, i| case(0, &[cells_upto(i / 36).index(), 0, pack_moves(&[(i % 6 + 1) as u8, (i / 6 % 6 + 1) as u8])]),
                },
                Phase::Random { name: "long walks", gen: g_long, n: n / 30 },
                Phase::Random { name: "walks", gen: g, n },
                Phase::Random { name: "walks near pentagons", gen: g_pent, n },
            ]
        },
        fuzz: |e, s| if s.below(2) == 0 { g(e, s) } else { g_pent(e, s) },
    }
}
