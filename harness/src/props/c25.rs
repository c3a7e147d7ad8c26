//! C25: results depend on the arguments only, not on calls made before or at
//! the same time.
use h3_rs::algos::*;
use h3_rs::base_cells::*;
use h3_rs::directed_edge::*;
use h3_rs::h3_index::*;
use h3_rs::iterators::IterCellsChildren;
use h3_rs::lat_lng::*;
use vharness::engine::*;
use vharness::gen::*;
use vharness::model::*;

#[derive(Clone, Copy, PartialEq, Debug)]
struct Args {
    h: u64,
    h2: u64,
    res: i32,
    k: u32,
    rot: i32,
    pos: i64,
    lat: f64,
    lng: f64,
}

struct Mix(u64);
impl Mix {
    fn add(&mut self, x: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29) ^ 0x5555;
    }
    fn f(&mut self, x: f64) {
        self.add(if x.is_nan() { 1 } else { x.to_bits() });
    }
}

type Prints = Vec<(&'static str, u64)>;

/// all results, one number per function
fn prints(a: &Args) -> Prints {
    let mut out: Prints = Vec::with_capacity(32);
    let mut put = |name: &'static str, f: &mut dyn FnMut(&mut Mix)| {
        let v = sut(name, || {
            let mut m = Mix(7);
            f(&mut m);
            m.0
        });
        // a panic is C16's concern
        out.push((name, v.unwrap_or(0xDEAD)));
    };
    let (p, q) = (LatLng { lat: a.lat, lng: a.lng }, LatLng { lat: a.lng / 3.0, lng: a.lat });
    put("isValidCell", &mut |m| m.add(isValidCell(a.h) as u64));
    put("isPentagon", &mut |m| m.add(isPentagon(a.h) as u64));
    put("getResolution", &mut |m| m.add(getResolution(a.h) as u64));
    put("cellToLatLng", &mut |m| match cellToLatLng(a.h) {
        Ok(x) => {
            m.f(x.lat);
            m.f(x.lng)
        }
        Err(e) => m.add(e as u64),
    });
    put("latLngToCell", &mut |m| {
        for r in [a.res, 15, 0, 7] {
            m.add(latLngToCell(&p, r).unwrap_or_else(|e| e as u64))
        }
    });
    put("cellToChildrenSize", &mut |m| m.add(cellToChildrenSize(a.h, a.res).unwrap_or_else(|e| -1 - e as i64) as u64));
    put("childPosToCell", &mut |m| m.add(childPosToCell(a.pos, a.h, a.res).unwrap_or_else(|e| e as u64)));
    put("IterCellsChildren", &mut |m| {
        for x in IterCellsChildren::from_parent(a.h, a.res).take(60) {
            m.add(x)
        }
    });
    put("edges", &mut |m| {
        m.add(isValidDirectedEdge(a.h2) as u64);
        m.add(getDirectedEdgeOrigin(a.h2).unwrap_or_else(|e| e as u64));
        m.add(getDirectedEdgeDestination(a.h2).unwrap_or_else(|e| e as u64));
        let (x, y) = directedEdgeToCells(a.h2).unwrap_or_else(|e| (e as u64, 0));
        m.add(x);
        m.add(y);
    });
    put("originToDirectedEdges", &mut |m| {
        for x in originToDirectedEdges(a.h) {
            m.add(x)
        }
    });
    put("cellsToDirectedEdge", &mut |m| m.add(cellsToDirectedEdge(a.h, a.h2).unwrap_or_else(|e| e as u64)));
    put("directionForNeighbor", &mut |m| m.add(directionForNeighbor(a.h, a.h2) as u64));
    put("h3NeighborRotations", &mut |m| {
        for d in 0..8 {
            let mut rot = a.rot;
            m.add(h3NeighborRotations(a.h, H3_GET_INDEX_DIGIT(d, 15), &mut rot).unwrap_or_else(|e| e as u64));
            m.add(rot as u64);
        }
    });
    let cells = |m: &mut Mix, r: Result<Vec<(u64, u32)>, h3_rs::error::Error>, sorted: bool| match r {
        Ok(mut v) => {
            if sorted {
                v.sort_unstable();
            }
            for (x, d) in v {
                m.add(x);
                m.add(d as u64);
            }
        }
        Err(e) => m.add(e as u64),
    };
    put("gridDiskDistancesUnsafe", &mut |m| cells(m, gridDiskDistancesUnsafe(a.h, a.k), true));
    // the order within the disk is not part of the interface
    put("gridDiskDistances", &mut |m| cells(m, gridDiskDistances(a.h, a.k), true));
    put("gridRingUnsafe", &mut |m| match gridRingUnsafe(a.h, a.k) {
        Ok(v) => v.into_iter().for_each(|x| m.add(x)),
        Err(e) => m.add(e as u64),
    });
    put("maxGridDiskSize", &mut |m| m.add(maxGridDiskSize(a.h as u32) as u64));
    put("rotations", &mut |m| {
        m.add(_h3Rotate60ccw(a.h));
        m.add(_h3Rotate60cw(a.h));
        m.add(_h3RotatePent60ccw(a.h));
        m.add(_h3RotatePent60cw(a.h));
        m.add(_h3LeadingNonZeroDigit(a.h) as u64);
    });
    put("angles", &mut |m| {
        m.f(constrainLat(a.lat));
        m.f(constrainLng(a.lng));
        m.f(_posAngleRads(a.lng));
        m.f(_geoAzimuthRads(&p, &q));
        let r = _geoAzDistanceRads(&p, a.lng, a.lat);
        m.f(r.lat);
        m.f(r.lng);
    });
    put("_h3ToFaceIjk", &mut |m| match _h3ToFaceIjk(a.h) {
        Ok(f) => {
            m.add(f.face as u64);
            m.add(f.coord.i as u64);
            m.add(f.coord.j as u64);
            m.add(f.coord.k as u64);
        }
        Err(e) => m.add(e as u64),
    });
    put("getRes0Cells", &mut |m| match getRes0Cells() {
        Ok(v) => v.into_iter().for_each(|x| m.add(x)),
        Err(e) => m.add(e as u64),
    });
    out
}

const ONE: [&str; 27] = [
    "isValidCell", "isPentagon", "getResolution", "cellToLatLng", "latLngToCell", "cellToChildrenSize", "childPosToCell",
    "IterCellsChildren", "cellToChildren", "isValidDirectedEdge", "getDirectedEdgeOrigin", "getDirectedEdgeDestination",
    "directedEdgeToCells", "originToDirectedEdges", "cellsToDirectedEdge", "directionForNeighbor", "h3NeighborRotations",
    "gridDiskDistancesUnsafe", "gridDiskDistances", "gridRingUnsafe", "_h3Rotate60ccw", "_h3RotatePent60cw",
    "_h3LeadingNonZeroDigit", "_geoAzimuthRads", "_geoAzDistanceRads", "constrainLng", "_h3ToFaceIjk",
];
/// one call of one function, as one number
fn single(f: u64, a: &Args) -> u64 {
    let mut m = Mix(7);
    let p = LatLng { lat: a.lat, lng: a.lng };
    let r = sut(ONE[f as usize], || match f {
        0 => m.add(isValidCell(a.h) as u64),
        1 => m.add(isPentagon(a.h) as u64),
        2 => m.add(getResolution(a.h) as u64),
        3 => match cellToLatLng(a.h) {
            Ok(x) => {
                m.f(x.lat);
                m.f(x.lng)
            }
            Err(e) => m.add(e as u64),
        },
        4 => m.add(latLngToCell(&p, a.res).unwrap_or_else(|e| e as u64)),
        5 => m.add(cellToChildrenSize(a.h, a.res).unwrap_or_else(|e| -1 - e as i64) as u64),
        6 => m.add(childPosToCell(a.pos, a.h, a.res).unwrap_or_else(|e| e as u64)),
        7 => IterCellsChildren::from_parent(a.h, a.res).take(20).for_each(|x| m.add(x)),
        8 if a.res as i64 - (a.h >> 52 & 15) as i64 > 3 => {}
        8 => match cellToChildren(a.h, a.res) {
            Ok(v) => v.into_iter().for_each(|x| m.add(x)),
            Err(e) => m.add(e as u64),
        },
        9 => m.add(isValidDirectedEdge(a.h2) as u64),
        10 => m.add(getDirectedEdgeOrigin(a.h2).unwrap_or_else(|e| e as u64)),
        11 => m.add(getDirectedEdgeDestination(a.h2).unwrap_or_else(|e| e as u64)),
        12 => {
            let (x, y) = directedEdgeToCells(a.h2).unwrap_or_else(|e| (e as u64, 0));
            m.add(x);
            m.add(y);
        }
        13 => originToDirectedEdges(a.h).into_iter().for_each(|x| m.add(x)),
        14 => m.add(cellsToDirectedEdge(a.h, a.h2).unwrap_or_else(|e| e as u64)),
        15 => m.add(directionForNeighbor(a.h, a.h2) as u64),
        16 => {
            let mut rot = a.rot;
            m.add(h3NeighborRotations(a.h, H3_GET_INDEX_DIGIT(a.pos as u64 % 7, 15), &mut rot).unwrap_or_else(|e| e as u64));
            m.add(rot as u64);
        }
        17 | 18 => match if f == 17 { gridDiskDistancesUnsafe(a.h, a.k) } else { gridDiskDistances(a.h, a.k) } {
            Ok(mut v) => {
                v.sort_unstable();
                for (x, d) in v {
                    m.add(x);
                    m.add(d as u64);
                }
            }
            Err(e) => m.add(e as u64),
        },
        19 => match gridRingUnsafe(a.h, a.k) {
            Ok(v) => v.into_iter().for_each(|x| m.add(x)),
            Err(e) => m.add(e as u64),
        },
        20 => m.add(_h3Rotate60ccw(a.h)),
        21 => m.add(_h3RotatePent60cw(a.h)),
        22 => m.add(_h3LeadingNonZeroDigit(a.h) as u64),
        23 => m.f(_geoAzimuthRads(&p, &LatLng { lat: a.lng / 3.0, lng: a.lat })),
        24 => {
            let r = _geoAzDistanceRads(&p, a.pos as f64 / 60.0, a.rot as f64 / 4.0);
            m.f(r.lat);
            m.f(r.lng);
        }
        25 => m.f(constrainLng(a.lng)),
        _ => match _h3ToFaceIjk(a.h) {
            Ok(f) => {
                m.add(f.face as u64);
                m.add(f.coord.i as u64);
                m.add(f.coord.j as u64);
                m.add(f.coord.k as u64);
            }
            Err(e) => m.add(e as u64),
        },
    });
    // a panic is C16's concern
    r.map_or(0xDEAD, |_| m.0)
}
/// a relative of the first cell, point or number
fn related(a: &Args, how: u64) -> Args {
    let mut b = *a;
    let digit = |r: u64| 3 * (15 - (1 + r % 15));
    let set = |h: u64, r: u64, d: u64| h & !(7 << digit(r)) | d << digit(r);
    let x = how >> 8;
    let f = |h: u64| {
        let res = (h >> 52 & 15) as u32;
        match how >> 4 & 7 {
        // another digit somewhere
        0 => set(h, x % res.max(1) as u64, x >> 8 & 7),
        // a child, the parent
        1 if res < 15 => set(h + (1 << 52), res as u64, x % 7),
        2 if res > 0 => h - (1 << 52) | 7 << digit(res as u64 - 1),
        // the same digits in another base cell
        3 => h & !(127 << 45) | (x % 122) << 45,
        // another mode or direction
        4 => h ^ (1 + x % 7) << 56,
        5 => h ^ (1 + x % 15) << 59,
        // two digits exchanged
        6 => {
            let (p, q) = (x % res.max(1) as u64, (x >> 8) % res.max(1) as u64);
            set(set(h, p, h >> digit(q) & 7), q, h >> digit(p) & 7)
        }
        _ => h ^ 1 << (x & 63),
        }
    };
    match how & 15 {
        0..=3 => b.h = f(a.h),
        4..=6 => b.h2 = f(a.h2),
        7 => (b.h, b.h2) = (f(a.h), f(a.h2)),
        8 => (b.h, b.h2) = (a.h2, a.h),
        9 => b.h = a.h2,
        10 => b.res = (x % 17) as i32,
        11 => b.k = (x % 6) as u32,
        12 => b.pos = a.pos ^ 1 << (x % 9),
        13 => b.rot = (x % 7) as i32,
        _ => b = close(a, how & !7 | 5 + (how >> 4 & 1)),
    }
    b
}
/// one function only, called with related arguments in turns
fn in_turns(c: &Case, st: &mut Stats) -> Verdict {
    let a = args(c);
    let f = (c.a[3] >> 16) % ONE.len() as u64;
    let (b, z) = (related(&a, c.a[7]), elsewhere(&a));
    let run = |x: &Args| single(f, x);
    let fail = |what: &str| Err(format!("{}: another result {what}", ONE[f as usize]));
    run(&z);
    let b1 = run(&b);
    let a1 = run(&a);
    if run(&b) != b1 {
        return fail("after a call with other arguments (second arguments)");
    }
    if run(&b) != b1 {
        return fail("when called twice");
    }
    run(&z);
    if run(&a) != a1 {
        return fail("after a call with other arguments");
    }
    st.label("one function in turns");
    Ok(a != b)
}

fn differ(what: &str, a: &Prints, b: &Prints) -> Result<(), String> {
    for (x, y) in a.iter().zip(b) {
        if x != y {
            return Err(format!("{}: another result {what}", x.0));
        }
    }
    Ok(())
}

fn args(c: &Case) -> Args {
    let a = &c.a;
    Args {
        h: a[0],
        h2: a[1],
        res: a[2] as i64 as i32,
        k: (a[3] % 4) as u32,
        rot: (a[3] >> 8 & 7) as i32,
        pos: a[4] as i64,
        lat: f64::from_bits(a[5]),
        lng: f64::from_bits(a[6]),
    }
}
/// arguments close to the first
fn close(a: &Args, how: u64) -> Args {
    let mut b = *a;
    let bit = 1u64 << (how >> 8 & 63);
    let eps = [1e-15, 1e-14, 1e-13, 1e-12, 1e-11, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.1, 1.0, 3.0][(how >> 16 & 15) as usize];
    let eps = if how >> 20 & 1 == 0 { eps } else { -eps };
    match how & 7 {
        0 => {
            b.h ^= bit;
            b.res += 1;
        }
        1 => {
            b.h2 ^= bit;
            b.lat = -b.lat;
        }
        2 => b.res = (how >> 24 & 15) as i32,
        3 => {
            // the deepest digit, or the base cell
            b.h ^= 1 << (45 - 3 * (1 + (b.h >> 52 & 15)).min(15));
            b.k ^= 1;
        }
        4 => {
            b.h ^= 1 << (45 + (how >> 8 & 7) % 7);
            b.pos ^= 1;
        }
        5 => b.lat += eps,
        6 => b.lng += eps,
        _ => {
            std::mem::swap(&mut b.h, &mut b.h2);
            std::mem::swap(&mut b.lat, &mut b.lng);
        }
    }
    b
}

/// arguments that have little in common with these
fn elsewhere(a: &Args) -> Args {
    let mut x = (a.h ^ a.h2.rotate_left(7)).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 3;
    let mut take = |n: u64| {
        let d = x % n;
        x /= n;
        d
    };
    let mut c = Cell::base(take(122) as u8);
    for _ in 0..take(16) {
        c = c.child(2 + take(5) as u8);
    }
    let (h, n) = (c.index(), if c.res > 0 { c.parent().child(0) } else { c }.index());
    let res = (c.res as i32 + 1).min(15);
    Args { h, h2: n, res, k: a.k ^ 1, rot: a.rot ^ 1, pos: a.pos ^ 3, lat: 0.3 - a.lat / 2.0, lng: a.lng / 2.0 - 0.7 }
}

fn fresh_process(c: &Case) -> Prints {
    let exe = std::env::current_exe().expect("current_exe");
    let mut cmd = std::process::Command::new(exe);
    cmd.arg("--prints");
    for x in c.a {
        cmd.arg(format!("{x:x}"));
    }
    let out = cmd.output().expect("spawn");
    let text = String::from_utf8_lossy(&out.stdout);
    let mut v: Prints = Vec::new();
    for (l, n) in text.lines().zip(prints(&args(c))) {
        v.push((n.0, l.parse().expect("number")));
    }
    v
}
/// in a process of its own, the second arguments only
fn print_mode() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(String::as_str) == Some("--prints") {
        install_hook();
        let v: Vec<u64> = a[2..].iter().map(|x| u64::from_str_radix(x, 16).expect("hex")).collect();
        let c = case(0, &v);
        for (_, x) in prints(&close(&args(&c), c.a[7])) {
            println!("{x}");
        }
        std::process::exit(0);
    }
}

const FIRST: usize = 4;
/// in a new process: the first call of all, of one function, on a few threads
/// at once, each with arguments of its own, and then with those of the others
fn first_mode() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(String::as_str) == Some("--first") {
        install_hook();
        let v: Vec<u64> = a[2..].iter().map(|x| u64::from_str_radix(x, 16).expect("hex")).collect();
        let c = case(3, &v);
        let (f, sets) = first_sets(&c);
        let gate = std::sync::atomic::AtomicUsize::new(0);
        use std::sync::atomic::Ordering::SeqCst;
        let (sets, gate) = (&sets, &gate);
        let out: Vec<Vec<u64>> = std::thread::scope(|s| {
            let ts: Vec<_> = (0..FIRST)
                .map(|t| {
                    let run = move || {
                        // side by side, but not for ever if there is no room
                        gate.fetch_add(1, SeqCst);
                        let mut n = 0;
                        while gate.load(SeqCst) < FIRST && n < 3_000_000 {
                            std::hint::spin_loop();
                            n += 1;
                        }
                        (0..FIRST).map(|i| single(f, &sets[(t + i) % FIRST])).collect()
                    };
                    std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, run).expect("thread")
                })
                .collect();
            ts.into_iter().map(|t| t.join().expect("thread")).collect()
        });
        for x in out.into_iter().flatten() {
            println!("{x}");
        }
        std::process::exit(0);
    }
}
fn first_sets(c: &Case) -> (u64, Vec<Args>) {
    let a = args(c);
    let b = elsewhere(&a);
    let f = (c.a[3] >> 16) % ONE.len() as u64;
    (f, vec![a, b, related(&a, c.a[7]), elsewhere(&b)])
}
fn first_calls(c: &Case, st: &mut Stats) -> Verdict {
    let (f, sets) = first_sets(c);
    let exe = std::env::current_exe().expect("current_exe");
    let want: Vec<u64> = sets.iter().map(|x| single(f, x)).collect();
    // run again: a failure that depends on timing needs more occasions
    for _ in 0..if vharness::engine::alone() { 2000 } else { 1 } {
        let mut cmd = std::process::Command::new(&exe);
        cmd.arg("--first");
        for x in c.a {
            cmd.arg(format!("{x:x}"));
        }
        let out = cmd.output().expect("spawn");
        let got: Vec<u64> = String::from_utf8_lossy(&out.stdout).lines().map(|x| x.parse().expect("number")).collect();
        if got.len() != FIRST * FIRST {
            return Err(format!("{}: a process that makes it as its first call on several threads at once does not end as it should ({})", ONE[f as usize], out.status));
        }
        for (i, x) in got.iter().enumerate() {
            if *x != want[(i / FIRST + i % FIRST) % FIRST] {
                return Err(format!("{}: another result {}", ONE[f as usize],
                    if i % FIRST == 0 { "as the first call of all, on several threads at once" } else { "soon after the first calls of all, on several threads at once" }));
            }
        }
    }
    st.label("first calls of a process");
    Ok(true)
}

/// six threads, each with all of six argument sets, over and over
fn at_once(c: &Case, st: &mut Stats) -> Verdict {
    let first = args(c);
    let sets: Vec<Args> = (0..6u64).map(|i| if i == 0 { first } else { close(&first, c.a[7].rotate_right(9 * i as u32) & !7 | i + 1) }).collect();
    let alone: Vec<Prints> = sets.iter().map(prints).collect();
    let gate = std::sync::Barrier::new(sets.len());
    let (sets, alone, gate) = (&sets, &alone, &gate);
    // run again: a failure that depends on timing needs more occasions
    let again = vharness::engine::alone();
    std::thread::scope(|s| {
        let ts: Vec<_> = (0..sets.len())
            .map(|t| {
                let run = move || {
                    gate.wait();
                    // every other thread stays with one set for a while
                    (0..if again { 12000 } else { 240 }).try_for_each(|i| {
                        let j = if t % 2 == 0 { (i / 3 + t) % sets.len() } else { (t + i / 24) % sets.len() };
                        differ("while other threads make calls, too", &alone[j], &prints(&sets[j]))
                    })
                };
                std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, run).expect("thread")
            })
            .collect();
        // all of them, before any verdict
        let r: Vec<_> = ts.into_iter().map(|t| t.join().expect("thread")).collect();
        r.into_iter().collect::<Result<Vec<()>, String>>()
    })?;
    st.label("six threads at once");
    Ok(sets.iter().any(|x| *x != first))
}

fn check(_env: &Env, c: &Case, st: &mut Stats) -> Verdict {
    if c.op == 1 {
        return at_once(c, st);
    }
    if c.op == 2 {
        return in_turns(c, st);
    }
    if c.op == 3 {
        return first_calls(c, st);
    }
    let a = args(c);
    let b = close(&a, c.a[7]);
    // each after something else altogether, and after the other
    prints(&elsewhere(&a));
    let b1 = prints(&b);
    let a1 = prints(&a);
    differ("the second time, after calls with other arguments (second arguments)", &b1, &prints(&b))?;
    prints(&elsewhere(&a));
    differ("the second time, after calls with other arguments", &a1, &prints(&a))?;
    // two iterators in turns
    let one = |x: &Args| IterCellsChildren::from_parent(x.h, x.res).take(40).collect::<Vec<_>>();
    let ok = sut("IterCellsChildren", || {
        let (mut p, mut q) = (IterCellsChildren::from_parent(a.h, a.res), IterCellsChildren::from_parent(b.h, b.res));
        let (mut v, mut w) = (Vec::new(), Vec::new());
        for _ in 0..40 {
            v.extend(p.next());
            w.extend(q.next());
        }
        v == one(&a) && w == one(&b)
    });
    if ok == Ok(false) {
        return Err("two iterators over children, used in turns, do not yield what they yield on their own".into());
    }
    let pick = c.a.iter().fold(0u64, |x, y| (x ^ y).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(31));
    if pick % 32 == 0 {
        // on other threads, in another order, at the same time
        let gate = std::sync::Barrier::new(2);
        let run = |p: Args, q: Args| {
            gate.wait();
            let r = prints(&p);
            (r, prints(&q))
        };
        let run = &run;
        let (x, y) = std::thread::scope(|s| {
            let t = std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, move || run(b, a)).expect("thread");
            let u = std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, move || run(a, b)).expect("thread");
            (t.join().expect("thread"), u.join().expect("thread"))
        });
        differ("on another thread", &a1, &x.1)?;
        differ("on another thread", &b1, &x.0)?;
        differ("on another thread", &a1, &y.0)?;
        differ("on another thread", &b1, &y.1)?;
        st.label("compared across threads");
    }
    if pick % 128 == 1 {
        let f = fresh_process(c);
        if f.len() != b1.len() {
            return Ok(false);
        }
        differ("in a process of its own", &b1, &f)?;
        st.label("compared with a fresh process");
    }
    if valid_cell(a.h) {
        st.label("valid cell");
    }
    Ok(a != b)
}

fn g(env: &Env, s: &mut Src) -> Case {
    let res = gen_res(s);
    let h = if s.chance(80) { gen_cell_res(env, s, res).index() } else { gen_raw(env, s) };
    let h2 = match Cell::parse(h) {
        Some(x) if s.chance(70) => match env.m.neighbor(&x, 2 + s.below(5) as u8) {
            Some(n) if s.chance(50) => n.index(),
            _ => h & !(15 << 59) | 2 << 59 | s.below(8) << 56,
        },
        _ => gen_raw(env, s),
    };
    let r = if s.chance(80) { res as i64 + s.range(0, 3) } else { s.range(-1, 16) };
    let (lat, lng) = gen_geo(env, s, res);
    let kk = s.below(4) | s.below(6) << 8;
    case(0, &[h, h2, r as u64, kk, s.below(400), lat.to_bits(), lng.to_bits(), s.u64()])
}

fn g_turns(env: &Env, s: &mut Src) -> Case {
    let mut c = Case { op: 2, ..g(env, s) };
    if s.chance(60) {
        // a point near a boundary of cells of the resolution asked for
        let r = s.below(16) as u8;
        let (lat, lng) = gen_geo(env, s, r);
        c.a[2] = r as u64;
        c.a[5] = lat.to_bits();
        c.a[6] = lng.to_bits();
    }
    // the costly ones less often
    let f = s.below(ONE.len() as u64);
    let f = if (17..20).contains(&f) && s.chance(50) { 3 + s.below(2) } else { f };
    c.a[3] |= f << 16;
    c
}
fn g_first(env: &Env, s: &mut Src) -> Case {
    Case { op: 3, ..g_turns(env, s) }
}
fn g_once(env: &Env, s: &mut Src) -> Case {
    Case { op: 1, ..g(env, s) }
}

pub fn prop() -> Prop {
    print_mode();
    first_mode();
    Prop {
        id: "C25",
        ops: &[
        Op {
            name: "call_everything_again",
            args: &[
                ("value", Kind::Raw),
                ("value2", Kind::Raw),
                ("res", Kind::Int),
                ("k_and_rotations", Kind::Raw),
                ("position", Kind::Int),
                ("lat", Kind::F64),
                ("lng", Kind::F64),
                ("other", Kind::Raw),
            ],
        },
        Op {
            name: "call_everything_at_once",
            args: &[
                ("value", Kind::Raw),
                ("value2", Kind::Raw),
                ("res", Kind::Int),
                ("k_and_rotations", Kind::Raw),
                ("position", Kind::Int),
                ("lat", Kind::F64),
                ("lng", Kind::F64),
                ("other", Kind::Raw),
            ],
        },
        Op {
            name: "call_one_function_in_turns",
            args: &[
                ("value", Kind::Raw),
                ("value2", Kind::Raw),
                ("res", Kind::Int),
                ("function_k_and_rotations", Kind::Raw),
                ("position", Kind::Int),
                ("lat", Kind::F64),
                ("lng", Kind::F64),
                ("other", Kind::Raw),
            ],
        },
        Op {
            name: "make_the_first_calls_at_once",
            args: &[
                ("value", Kind::Raw),
                ("value2", Kind::Raw),
                ("res", Kind::Int),
                ("function_k_and_rotations", Kind::Raw),
                ("position", Kind::Int),
                ("lat", Kind::F64),
                ("lng", Kind::F64),
                ("other", Kind::Raw),
            ],
        }],
        rule: "Every function is called with two sets of arguments that differ a little (one digit, bit, resolution or coordinate), in turns; the results must be the same each time. One case in 32 compares with two other threads that make the calls at the same time in opposite orders, one in 128 with a fresh process that has made no other call. Two iterators are stepped in turns. Further, one function at a time is called with two related sets of arguments (parent, child, sibling, same digits elsewhere, a point 1e-15 to 3 rad away, ...) and with unrelated ones in turns, with no other call in between. In another phase new processes make their very first calls, of one function, on four threads side by side. Further, six threads make all calls with six sets of arguments 240 times at the same time, and each result is compared with that of the call alone. Non-trivial: the two sets of arguments differ.",
        assumptions: &["only the order of calls is varied, not the interleaving within a call: the threads run freely"],
        check,
        phases: |t| {
            vec![
                Phase::Random { name: "six threads at once", gen: g_once, n: if t { 40_000 } else { 3_000 } },
                Phase::Random { name: "first calls of a process", gen: g_first, n: if t { 80_000 } else { 6_000 } },
                Phase::Random { name: "one function in turns", gen: g_turns, n: if t { 300_000_000 } else { 40_000_000 } },
                Phase::Random { name: "pairs of arguments", gen: g, n: if t { 10_000_000 } else { 2_000_000 } },
            ]
        },
        fuzz: |e, s| if s.below(2) == 0 { g(e, s) } else { g_turns(e, s) },
    }
}
