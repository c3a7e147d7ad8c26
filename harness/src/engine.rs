//! A small property-based testing engine.
//!
//! * a `Case` is an operation number with up to eight 64-bit arguments;
//! * a property generates cases from a `Src` (a seeded random stream, or the
//!   bytes given by a coverage-guided fuzzer) or enumerates a finite space;
//! * `check` decides one case against the property's oracle;
//! * the first failing case (in a fixed order that does not depend on thread
//!   timing) is shrunk and written out as a replay file.
//!
//! Every run is a function of the code, VERIF_SEED and VERIF_TIER.

use crate::gen::Dict;
use crate::model::{Cell, Model};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// a valid cell index
    Cell,
    /// any 64-bit index
    Raw,
    /// a double, as bits
    F64,
    /// a signed number
    Int,
    /// a sequence of 3-bit moves, lowest first; 7 ends it (21 moves at most)
    Moves,
}

pub struct Op {
    pub name: &'static str,
    pub args: &'static [(&'static str, Kind)],
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Case {
    pub op: u8,
    pub a: [u64; 8],
}

pub fn case(op: u8, args: &[u64]) -> Case {
    let mut a = [0; 8];
    a[..args.len()].copy_from_slice(args);
    Case { op, a }
}

/// Source of choices
pub struct Src<'a> {
    s: [u64; 4],
    bytes: Option<&'a [u8]>,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl<'a> Src<'a> {
    pub fn seeded(seed: u64, phase: u64, shard: u64) -> Src<'static> {
        let mut x = seed
            .wrapping_mul(0xD134_2543_DE82_EF95)
            .wrapping_add(phase.wrapping_mul(0x1234_5678_9ABC_DEF1))
            .wrapping_add(shard.wrapping_mul(0x0FED_CBA9_8765_4321));
        let s = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
        Src { s, bytes: None }
    }
    pub fn from_bytes(b: &'a [u8]) -> Src<'a> {
        Src { s: [1, 2, 3, 4], bytes: Some(b) }
    }
    fn take(&mut self, n: usize) -> u64 {
        let b = self.bytes.as_mut().unwrap();
        let mut v = 0u64;
        for i in 0..n {
            if let Some((first, rest)) = b.split_first() {
                v |= (*first as u64) << (8 * i);
                *b = rest;
            }
        }
        v
    }
    pub fn u64(&mut self) -> u64 {
        if self.bytes.is_some() {
            return self.take(8);
        }
        // xoshiro256++
        let r = self.s[0].wrapping_add(self.s[3]).rotate_left(23).wrapping_add(self.s[0]);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        if self.bytes.is_some() {
            let w = if n <= 1 << 8 {
                1
            } else if n <= 1 << 16 {
                2
            } else if n <= 1 << 32 {
                4
            } else {
                8
            };
            return self.take(w) % n;
        }
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// [0,1)
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize]
    }
    /// 10^x for x uniform in lo..hi
    pub fn log10(&mut self, lo: f64, hi: f64) -> f64 {
        10f64.powf(lo + (hi - lo) * self.unit())
    }
    pub fn sign(&mut self) -> f64 {
        if self.below(2) == 0 {
            1.0
        } else {
            -1.0
        }
    }
}

pub struct Env {
    pub m: Model,
    pub dict: Dict,
    pub seed: u64,
    pub thorough: bool,
}

impl Env {
    pub fn new(seed: u64, thorough: bool) -> Env {
        Env { m: Model::new(), dict: Dict::scan(), seed, thorough }
    }
}

#[derive(Default)]
pub struct Stats {
    labels: Vec<(&'static str, u64)>,
    maxima: Vec<(&'static str, f64)>,
    pub ring: Vec<Cell>,
}
impl Stats {
    pub fn label(&mut self, l: &'static str) {
        self.label_n(l, 1)
    }
    pub fn label_n(&mut self, l: &'static str, n: u64) {
        for e in self.labels.iter_mut() {
            if e.0.as_ptr() == l.as_ptr() || e.0 == l {
                e.1 += n;
                return;
            }
        }
        self.labels.push((l, n));
    }
    pub fn max(&mut self, l: &'static str, v: f64) {
        for e in self.maxima.iter_mut() {
            if e.0.as_ptr() == l.as_ptr() || e.0 == l {
                if v > e.1 {
                    e.1 = v;
                }
                return;
            }
        }
        self.maxima.push((l, v));
    }
}

/// Ok(true): held on a non-trivial case; Ok(false): held, trivial (or outside
/// the property's domain)
pub type Verdict = Result<bool, String>;

pub enum Phase {
    Random {
        name: &'static str,
        gen: fn(&Env, &mut Src) -> Case,
        n: u64,
    },
    Enum {
        name: &'static str,
        n: u64,
        at: fn(&Env, u64) -> Case,
    },
}

pub struct Prop {
    pub id: &'static str,
    pub ops: &'static [Op],
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub check: fn(&Env, &Case, &mut Stats) -> Verdict,
    pub phases: fn(bool) -> Vec<Phase>,
    /// generator used by the coverage-guided target
    pub fuzz: fn(&Env, &mut Src) -> Case,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static IN_SUT: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = format!("{info}").replace('\n', " ");
        let inside = IN_SUT.with(|f| *f.borrow());
        PANIC.with(|p| *p.borrow_mut() = text.clone());
        if !inside {
            eprintln!("HARNESS ERROR: {text}");
        }
    }));
}

/// Run code under test; a panic becomes an Err
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    IN_SUT.with(|x| *x.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.with(|x| *x.borrow_mut() = false);
    r.map_err(|_| format!("{what} panicked: {}", PANIC.with(|p| p.borrow().clone())))
}

pub fn show(p: &Prop, c: &Case) -> String {
    let op = &p.ops[c.op as usize];
    let mut s = format!("{}(", op.name);
    for (i, (n, k)) in op.args.iter().enumerate() {
        if i > 0 {
            s += ", ";
        }
        s += n;
        s += "=";
        s += &match k {
            Kind::Cell | Kind::Raw => format!("0x{:x}", c.a[i]),
            Kind::F64 => format!("{:?}", f64::from_bits(c.a[i])),
            Kind::Int => format!("{}", c.a[i] as i64),
            Kind::Moves => format!("{:?}", moves(c.a[i])),
        };
    }
    s + ")"
}

pub fn moves(mut x: u64) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..21 {
        let d = (x & 7) as u8;
        if d == 7 {
            break;
        }
        v.push(d);
        x >>= 3;
    }
    v
}
pub fn pack_moves(v: &[u8]) -> u64 {
    let mut x = !0u64;
    for (i, d) in v.iter().enumerate().take(21) {
        x &= !(7u64 << (3 * i));
        x |= (*d as u64) << (3 * i);
    }
    x
}

fn key(p: &Prop, c: &Case) -> String {
    let op = &p.ops[c.op as usize];
    let mut s = op.name.to_string();
    for i in 0..op.args.len() {
        s += &format!(":{:x}", c.a[i]);
    }
    s
}

/// simpler variants of a case, simplest first
fn simpler(p: &Prop, c: &Case) -> Vec<Case> {
    let mut out = Vec::new();
    let op = &p.ops[c.op as usize];
    for (i, (_, k)) in op.args.iter().enumerate() {
        let v = c.a[i];
        let mut cand: Vec<u64> = Vec::new();
        match k {
            Kind::Cell => {
                if let Some(cell) = Cell::parse(v) {
                    for r in 0..cell.res {
                        cand.push(cell.ancestor(r).index());
                    }
                    for r in 1..=cell.res as usize {
                        for d in 0..cell.d[r] {
                            let mut x = cell;
                            x.d[r] = d;
                            if Cell::parse(x.index()).is_some() {
                                cand.push(x.index());
                            }
                        }
                    }
                }
            }
            Kind::Raw => {
                cand.push(0);
                for b in (0..64).rev() {
                    if v >> b & 1 == 1 {
                        cand.push(v & !(1 << b));
                    }
                }
            }
            Kind::F64 => {
                let f = f64::from_bits(v);
                for x in [0.0, 1.0, f.trunc(), (f * 10.0).round() / 10.0, (f * 1000.0).round() / 1000.0, (f * 1e6).round() / 1e6, (f * 1e9).round() / 1e9] {
                    let simpler = format!("{x:?}").len() < format!("{f:?}").len();
                    if x.to_bits() != v && simpler {
                        cand.push(x.to_bits());
                    }
                }
            }
            Kind::Int => {
                let n = v as i64;
                for x in [0, n / 2, n - n.signum(), n - n.signum() * 16] {
                    if x.unsigned_abs() < n.unsigned_abs() {
                        cand.push(x as u64);
                    }
                }
            }
            Kind::Moves => {
                let mv = moves(v);
                for j in 0..mv.len() {
                    let mut x = mv.clone();
                    x.remove(j);
                    cand.push(pack_moves(&x));
                }
                for j in 0..mv.len() {
                    for l in j + 1..mv.len() {
                        let mut x = mv.clone();
                        x.remove(l);
                        x.remove(j);
                        cand.push(pack_moves(&x));
                    }
                }
                for j in 0..mv.len() {
                    for d in 1..mv[j] {
                        let mut x = mv.clone();
                        x[j] = d;
                        cand.push(pack_moves(&x));
                    }
                }
            }
        }
        for x in cand {
            if x != v {
                let mut n = *c;
                n.a[i] = x;
                out.push(n);
            }
        }
    }
    out
}

/// A case close to a previous one: most arguments are the same, one is a little
/// different. A result that was kept from an earlier call shows on these.
fn close_to(p: &Prop, c: &Case, s: &mut Src) -> Case {
    let args = p.ops[c.op as usize].args;
    let mut out = *c;
    let i = s.below(args.len() as u64) as usize;
    let v = c.a[i];
    out.a[i] = match args[i].1 {
        Kind::Cell => match Cell::parse(v) {
            None => v,
            Some(x) => {
                let mut y = x;
                match s.below(6) {
                    0 if x.res > 0 => y = x.parent(),
                    1 if x.res < 15 => y = x.child(if x.is_pent() { 2 } else { s.below(7) as u8 }),
                    2 => y.bc = s.below(122) as u8,
                    3 if x.res > 0 => y.d[x.res as usize] = s.below(7) as u8,
                    _ if x.res > 0 => y.d[1 + s.below(x.res as u64) as usize] = s.below(7) as u8,
                    _ => (),
                }
                match Cell::parse(y.index()) {
                    Some(_) => y.index(),
                    None => v,
                }
            }
        },
        Kind::Raw => v ^ 1 << s.below(64),
        Kind::F64 => {
            let f = f64::from_bits(v);
            let g = match s.below(4) {
                0 => -f,
                1 => f * (1.0 + s.log10(-15.0, -3.0)),
                _ => f + s.sign() * s.log10(-15.0, -1.0),
            };
            g.to_bits()
        }
        Kind::Int => (v as i64).wrapping_add(if s.below(2) == 0 { 1 } else { -1 }) as u64,
        Kind::Moves => v,
    };
    out
}

/// Shrink with a predicate that returns the failure message of a case. `best`
/// is shared so that a caller can give up waiting and still use it.
fn shrink_with(p: &Prop, best: &Mutex<(Case, String, u32)>, secs: u64, fails: &mut dyn FnMut(&Case) -> Option<String>) {
    let mut seen: HashSet<Case> = HashSet::new();
    let t = Instant::now();
    'outer: loop {
        let (cur, _, steps) = best.lock().unwrap().clone();
        for n in simpler(p, &cur) {
            if t.elapsed().as_secs() > secs {
                return;
            }
            if !seen.insert(n) {
                continue;
            }
            if let Some(m) = fails(&n) {
                *best.lock().unwrap() = (n, m, steps + 1);
                continue 'outer;
            }
        }
        return;
    }
}

fn shrink(p: &Prop, env: &Env, c: Case, msg: String) -> (Case, String, u32) {
    let best = Mutex::new((c, msg, 0u32));
    let done = AtomicBool::new(false);
    let mut out = best.lock().unwrap().clone();
    std::thread::scope(|s| {
        let (best, done) = (&best, &done);
        s.spawn(move || {
            let mut st = Stats::default();
            shrink_with(p, best, 20, &mut |n| (p.check)(env, n, &mut st).err());
            done.store(true, Relaxed);
        });
        let t = Instant::now();
        while !done.load(Relaxed) && t.elapsed().as_secs() < 40 {
            std::thread::sleep(std::time::Duration::from_millis(5));
        }
        out = best.lock().unwrap().clone();
        if !done.load(Relaxed) {
            // a simpler variant hangs: keep what was found so far
            finish(p, env, &c, &out.0, &out.1, out.2);
            std::process::exit(1);
        }
    });
    out
}

/// write the replay file and print the verdict
fn finish(p: &Prop, env: &Env, orig: &Case, c: &Case, msg: &str, steps: u32) -> String {
    finish_after(p, env, orig, c, msg, steps, &[])
}
fn finish_after(p: &Prop, env: &Env, orig: &Case, c: &Case, msg: &str, steps: u32, before: &[Case]) -> String {
    let path = write_replay(p, env, c, orig, msg, steps, before);
    for b in before {
        println!("after:        {}", show(p, b));
    }
    println!("failing case: {}", show(p, c));
    println!("  {msg}");
    println!("VIOLATION property={} replay={}", p.id, path);
    let _ = std::io::stdout().flush();
    path
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
}

fn write_replay(p: &Prop, env: &Env, c: &Case, orig: &Case, msg: &str, steps: u32, before: &[Case]) -> String {
    let dir = format!("{}/out/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}.json", p.id);
    let args: Vec<String> = c.a[..p.ops[c.op as usize].args.len()]
        .iter()
        .map(|x| format!("\"{x:x}\""))
        .collect();
    let text = format!(
        "{{\n \"property\": {},\n \"op\": {},\n \"args_hex\": [{}],\n \"before\": [{}],\n \"case\": {},\n \"failure\": {},\n \"found_as\": {},\n \"shrink_steps\": {},\n \"seed\": {},\n \"rerun\": {}\n}}\n",
        jstr(p.id),
        jstr(p.ops[c.op as usize].name),
        args.join(", "),
        before.iter().map(|b| jstr(&seq_line(b))).collect::<Vec<_>>().join(", "),
        jstr(&show(p, c)),
        jstr(msg),
        jstr(&show(p, orig)),
        steps,
        env.seed,
        jstr(&format!("/verif/check.sh {} --replay {}", p.id, path)),
    );
    std::fs::write(&path, text).expect("write replay");
    path
}

fn seq_line(c: &Case) -> String {
    let mut s = format!("{:x}", c.op);
    for x in c.a {
        s += &format!(" {x:x}");
    }
    s
}
fn seq_parse(l: &str) -> Case {
    let v: Vec<u64> = l.split_whitespace().map(|x| u64::from_str_radix(x, 16).expect("hex")).collect();
    case(v[0] as u8, &v[1..])
}

/// A sequence of cases in a process of its own, in order: what failed in the last
fn seq_outside(before: &[Case], c: &Case) -> Option<String> {
    let path = format!("{}/out/seq.{}.{:?}", verif_dir(), std::process::id(), std::thread::current().id());
    let text: Vec<String> = before.iter().chain([c]).map(seq_line).collect();
    std::fs::write(&path, text.join("\n")).expect("write sequence");
    let exe = std::env::current_exe().expect("current_exe");
    let r = outside(std::process::Command::new(exe).arg("--seq").arg(&path));
    let _ = std::fs::remove_file(&path);
    r
}
fn seq(p: &Prop, env: &Env, path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("read sequence");
    let v: Vec<Case> = text.lines().map(seq_parse).collect();
    let (last, before) = v.split_last().expect("sequence");
    limit_memory(6);
    ONE.store(true, Relaxed);
    for c in before {
        tick();
        let _ = (p.check)(env, c, &mut Stats::default());
    }
    one(p, env, last)
}

/// The case does not fail on its own: find which of the calls made before, by
/// the same thread, it needs.
fn shrink_history(hist: &[Case], c: &Case) -> Option<(Vec<Case>, String)> {
    let t = Instant::now();
    let mut n = 1;
    let (mut cur, mut msg) = loop {
        let h = &hist[hist.len() - n.min(hist.len())..];
        if let Some(m) = seq_outside(h, c) {
            break (h.to_vec(), m);
        }
        if n >= hist.len() {
            return None;
        }
        n *= 2;
    };
    let mut chunk = cur.len().div_ceil(2);
    while chunk > 0 && t.elapsed().as_secs() < 60 {
        let mut i = 0;
        let mut any = false;
        while i < cur.len() && t.elapsed().as_secs() < 60 {
            let mut x = cur.clone();
            x.drain(i..(i + chunk).min(cur.len()));
            if let Some(m) = seq_outside(&x, c) {
                cur = x;
                msg = m;
                any = true;
            } else {
                i += chunk;
            }
        }
        if !any || cur.len() <= 1 {
            chunk /= 2;
        }
    }
    Some((cur, msg))
}

fn find_str(text: &str, k: &str) -> Option<String> {
    let i = text.find(&format!("\"{k}\""))?;
    let rest = &text[i + k.len() + 2..];
    let rest = &rest[rest.find('"')? + 1..];
    Some(rest[..rest.find('"')?].to_string())
}

/// the calls before the failing one, if it needs any
fn read_before(path: &str) -> Vec<Case> {
    let text = std::fs::read_to_string(path).expect("read replay file");
    let i = match text.find("\"before\"") {
        Some(i) => i,
        None => return Vec::new(),
    };
    let l = &text[i..];
    let l = &l[l.find('[').unwrap() + 1..l.find(']').unwrap()];
    l.split(',').map(|x| x.trim().trim_matches('"')).filter(|x| !x.is_empty()).map(seq_parse).collect()
}

fn read_replay(p: &Prop, path: &str) -> Case {
    let text = std::fs::read_to_string(path).expect("read replay file");
    let op = find_str(&text, "op").expect("op");
    let i = text.find("\"args_hex\"").expect("args");
    let l = &text[i..];
    let l = &l[l.find('[').unwrap() + 1..l.find(']').unwrap()];
    let args: Vec<u64> = l
        .split(',')
        .map(|x| x.trim().trim_matches('"'))
        .filter(|x| !x.is_empty())
        .map(|x| u64::from_str_radix(x, 16).expect("hex"))
        .collect();
    let opi = p.ops.iter().position(|o| o.name == op).expect("op name");
    case(opi as u8, &args)
}

fn hang_secs() -> u64 {
    std::env::var("VERIF_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(30)
}

/// Called by checks whose single cases take long, to show that they proceed:
/// restarts the time that counts as a hang.
pub fn tick() {
    if ONE.load(Relaxed) {
        let mut ru = [0u64; 18];
        // RUSAGE_SELF, RLIMIT_CPU
        unsafe {
            getrusage(0, &mut ru);
            let n = ru[0] + ru[2] + hang_secs();
            setrlimit(0, &[n, RLIM_INFINITY]);
        }
    } else {
        TICK.with(|t| {
            if let Some(p) = t.get() {
                let q = unsafe { &*p };
                q.store(q.load(Relaxed) + (1 << 40), Relaxed);
            }
        });
    }
}
static ONE: AtomicBool = AtomicBool::new(false);
/// is this process there for one case only?
pub fn alone() -> bool {
    ALONE.load(Relaxed)
}
static ALONE: AtomicBool = AtomicBool::new(false);
thread_local! {
    static TICK: std::cell::Cell<Option<*const AtomicU64>> = const { std::cell::Cell::new(None) };
}

/// One case in this process: exit 0 if it held, 1 if not (the message goes to
/// stdout).
fn one(p: &Prop, env: &Env, c: &Case) -> i32 {
    limit_memory(6);
    ONE.store(true, Relaxed);
    ALONE.store(true, Relaxed);
    // processor time, so that a loaded machine cannot turn into a verdict:
    // RLIMIT_CPU, ends the process with SIGXCPU
    tick();
    match (p.check)(env, c, &mut Stats::default()) {
        Ok(_) => 0,
        Err(m) => {
            println!("{m}");
            1
        }
    }
}

/// One case in a process of its own: None if it held, else what failed (which
/// may be an abort or a stack overflow)
fn one_outside(c: &Case) -> Option<String> {
    let exe = std::env::current_exe().expect("current_exe");
    let mut cmd = std::process::Command::new(exe);
    cmd.arg("--one").arg(format!("{:x}", c.op));
    for x in c.a {
        cmd.arg(format!("{x:x}"));
    }
    outside(&mut cmd)
}

/// Runs cases in a process of its own: None if they held
fn outside(cmd: &mut std::process::Command) -> Option<String> {
    use std::process::Stdio;
    let child = cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("spawn");
    let pid = child.id();
    let over = AtomicBool::new(false);
    let blocked = AtomicBool::new(false);
    let out = std::thread::scope(|s| {
        // all threads asleep, and no processor time used, for long: a deadlock
        s.spawn(|| {
            let (mut used, mut since) = (u64::MAX, Instant::now());
            while !over.load(Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(20));
                let (t, asleep) = match task_times(pid) {
                    Some(x) => x,
                    None => continue,
                };
                if t != used || !asleep {
                    (used, since) = (t, Instant::now());
                } else if since.elapsed().as_secs() >= BLOCKED_SECS && !over.load(Relaxed) {
                    blocked.store(true, Relaxed);
                    unsafe {
                        kill(pid as i32, 9);
                    }
                    return;
                }
            }
        });
        let out = child.wait_with_output().expect("wait");
        over.store(true, Relaxed);
        out
    });
    if blocked.load(Relaxed) {
        return Some(format!("no answer, and no processor time used for {BLOCKED_SECS} s (deadlock)"));
    }
    match out.status.code() {
        Some(0) => None,
        Some(1) => Some(String::from_utf8_lossy(&out.stdout).trim().to_string()),
        Some(n) => {
            eprintln!("HARNESS ERROR: single case run ended with {n}");
            std::process::exit(2);
        }
        None if std::os::unix::process::ExitStatusExt::signal(&out.status) == Some(24) => {
            Some(format!("no answer within {} s of processor time (hang)", hang_secs()))
        }
        None => Some(format!("the code under test killed the process ({}): {}", out.status, String::from_utf8_lossy(&out.stderr).trim().replace('\n', " "))),
    }
}

const BLOCKED_SECS: u64 = 20;
/// processor time (ticks of 10 ms) of the threads of a process, and whether
/// all of them are asleep
fn task_times(pid: u32) -> Option<(u64, bool)> {
    let mut sum = 0;
    let mut asleep = true;
    for e in std::fs::read_dir(format!("/proc/{pid}/task")).ok()? {
        let (t, a) = task_time(&e.ok()?.path())?;
        sum += t;
        asleep &= a;
    }
    Some((sum, asleep))
}
fn task_time(task: &std::path::Path) -> Option<(u64, bool)> {
    let text = std::fs::read_to_string(task.join("stat")).ok()?;
    let f: Vec<&str> = text[text.rfind(')')? + 2..].split(' ').collect();
    Some((f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?, f[0] == "S"))
}
fn thread_id() -> u64 {
    let p = std::fs::read_link("/proc/thread-self").expect("/proc");
    p.file_name().and_then(|x| x.to_str()).and_then(|x| x.parse().ok()).expect("thread id")
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn getrusage(who: i32, ru: *mut [u64; 18]) -> i32;
    fn setrlimit(resource: i32, lim: *const [u64; 2]) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
}

/// A runaway allocation of the code under test must not take the machine down
fn limit_memory(gb: u64) {
    // RLIMIT_AS = 9 on Linux
    let n = gb << 30;
    unsafe {
        setrlimit(9, &[n, n]);
        // no core files: RLIMIT_CORE = 4
        setrlimit(4, &[0, 0]);
    }
}

const RLIM_INFINITY: u64 = u64::MAX;
// 0: cases begun (and ticks << 40), 1: operation + 1 while busy, 2..10:
// arguments, 10: thread id, 16..: the last cases, oldest first from 0 % HISTORY
const SLOT: usize = 16 + 9 * HISTORY;
/// What each worker thread is doing, in a file that survives a crash
struct Slots {
    p: *const AtomicU64,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
impl Slots {
    const THREADS: usize = 64;
    fn open(path: &str) -> Slots {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("slots");
        let len = Self::THREADS * SLOT * 8;
        f.set_len(len as u64).expect("slots");
        let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap");
        Slots { p: p as *const AtomicU64 }
    }
    fn at(&self, w: usize, i: usize) -> &AtomicU64 {
        assert!(w < Self::THREADS && i < SLOT);
        unsafe { &*self.p.add(w * SLOT + i) }
    }
    fn begin(&self, w: usize, c: &Case) {
        let q = self.at(w, 0);
        let n = q.load(Relaxed);
        let h = 16 + 9 * (n as usize & (HISTORY - 1));
        for (i, x) in c.a.iter().enumerate() {
            self.at(w, 2 + i).store(*x, Relaxed);
            self.at(w, h + i).store(*x, Relaxed);
        }
        self.at(w, h + 8).store(c.op as u64 + 1, Relaxed);
        q.store(n + 1, Relaxed);
        self.at(w, 1).store(c.op as u64 + 1, Relaxed);
    }
    fn end(&self, w: usize) {
        self.at(w, 1).store(0, Relaxed);
    }
    fn busy(&self, w: usize) -> Option<(u64, Case)> {
        let op = self.at(w, 1).load(Relaxed);
        if op == 0 {
            return None;
        }
        let mut a = [0; 8];
        for (i, x) in a.iter_mut().enumerate() {
            *x = self.at(w, 2 + i).load(Relaxed);
        }
        Some((self.at(w, 0).load(Relaxed), Case { op: op as u8 - 1, a }))
    }
    /// the cases thread w ran before the current one, oldest first
    fn history(&self, w: usize) -> Vec<Case> {
        let n = (self.at(w, 0).load(Relaxed) & ((1 << 40) - 1)) as usize;
        let mut v = Vec::new();
        for q in n.saturating_sub(HISTORY)..n.saturating_sub(1) {
            let h = 16 + 9 * (q & (HISTORY - 1));
            let mut a = [0; 8];
            for (i, x) in a.iter_mut().enumerate() {
                *x = self.at(w, h + i).load(Relaxed);
            }
            let op = self.at(w, h + 8).load(Relaxed);
            if op > 0 {
                v.push(Case { op: op as u8 - 1, a });
            }
        }
        v
    }
    fn total(&self) -> u64 {
        (0..Self::THREADS).map(|w| self.at(w, 0).load(Relaxed) & ((1 << 40) - 1)).sum()
    }
}

/// evidence of a run that was cut short by a crash or a hang
fn short_evidence(p: &Prop, env: &Env, slots: &Slots, c: &Case, t0: Instant) {
    let n = slots.total();
    let json = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": 0,\n  \"rule\": {},\n  \"samples\": [{}]\n }},\n \"wall_s\": {:.3},\n \"violations\": 1\n}}\n",
        jstr(p.id),
        jstr(if env.thorough { "thorough" } else { "quick" }),
        env.seed,
        n,
        jstr(&format!("{} This run was cut short by a crash or a hang of the code under test, so distinct cases were not counted.", p.rule)),
        jstr(&show(p, c)),
        t0.elapsed().as_secs_f64()
    );
    let ev = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&ev);
    std::fs::write(format!("{ev}/{}.json", p.id), json).expect("evidence file");
}

struct Shared {
    bitmap: Vec<AtomicU64>,
    min_fail: AtomicU64,
    next: AtomicU64,
    fails: Mutex<BTreeMap<u64, (Case, String, Vec<Case>)>>,
    evals: AtomicU64,
    nontrivial: AtomicU64,
    distinct: AtomicU64,
    excluded: AtomicU64,
    stats: Mutex<(BTreeMap<String, u64>, BTreeMap<String, f64>)>,
    samples: Mutex<BTreeMap<u64, Vec<String>>>,
    done: AtomicBool,
    deadline: Instant,
    late: AtomicBool,
    /// cases run per phase
    ran: Vec<AtomicU64>,
}

const SHARDS: u64 = 64;
/// how many of the last cases are kept per thread
const HISTORY: usize = 1 << 13;
const BITMAP_BITS: u64 = 1 << 30;

fn hash_case(c: &Case) -> u64 {
    let mut x = c.op as u64 ^ 0xABCD_EF01_2345_6789;
    let mut h = 0;
    for v in c.a {
        x ^= v;
        h = splitmix(&mut x);
        x = x.rotate_left(17) ^ h;
    }
    h
}

/// lines "known: property=ID case=KEY what" of KNOWN_FINDINGS.txt
fn known(p: &Prop) -> Vec<(String, String)> {
    let path = format!("{}/KNOWN_FINDINGS.txt", verif_dir());
    let mut v = Vec::new();
    if let Ok(t) = std::fs::read_to_string(path) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("known: ") {
                let mut it = r.splitn(3, ' ');
                let id = it.next().unwrap_or("");
                let ca = it.next().unwrap_or("");
                let what = it.next().unwrap_or("");
                if id == format!("property={}", p.id) {
                    if let Some(k) = ca.strip_prefix("case=") {
                        v.push((k.to_string(), what.to_string()));
                    }
                }
            }
        }
    }
    v
}

pub fn main(p: Prop) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let env = Env::new(seed, thorough);
    let t0 = Instant::now();
    let flag = |n: &str| args.iter().position(|a| a == n);
    if let Some(i) = flag("--one") {
        let v: Vec<u64> = args[i + 1..].iter().map(|x| u64::from_str_radix(x, 16).expect("hex")).collect();
        std::process::exit(one(&p, &env, &case(v[0] as u8, &v[1..])));
    }
    if let Some(i) = flag("--seq") {
        std::process::exit(seq(&p, &env, &args[i + 1]));
    }
    if let Some(i) = flag("--replay") {
        let path = &args[i + 1];
        let c = read_replay(&p, path);
        let before = read_before(path);
        println!("replaying {} after {} other calls", show(&p, &c), before.len());
        let _ = std::fs::create_dir_all(format!("{}/out", verif_dir()));
        let code = match if before.is_empty() { one_outside(&c) } else { seq_outside(&before, &c) } {
            None => {
                println!("held");
                0
            }
            Some(m) => {
                println!("failed: {m}");
                println!("VIOLATION property={} replay={}", p.id, path);
                1
            }
        };
        std::process::exit(code);
    }
    if let Some(i) = flag("--worker") {
        work(p, env, Slots::open(&args[i + 1]), t0);
    }
    // supervise a worker process: it may be killed by the code under test
    let _ = std::fs::create_dir_all(format!("{}/out", verif_dir()));
    let path = format!("{}/out/{}.{}.slots", verif_dir(), p.id, std::process::id());
    let _ = std::fs::remove_file(&path);
    let slots = Slots::open(&path);
    let exe = std::env::current_exe().expect("current_exe");
    let st = std::process::Command::new(exe).arg("--worker").arg(&path).status().expect("spawn");
    let _ = std::fs::remove_file(&path);
    if let Some(mut c) = st.code() {
        // C25 is about sequences of calls, which single inputs are not
        if c == 0 && thorough && p.id != "C25" {
            c = guided(&p, &env, t0);
        }
        std::process::exit(c);
    }
    eprintln!("the worker was killed ({st}); looking for the case that does it");
    let kset: HashSet<String> = known(&p).into_iter().map(|x| x.0).collect();
    for w in 0..Slots::THREADS {
        if let Some((_, c)) = slots.busy(w) {
            if kset.contains(&key(&p, &c)) {
                continue;
            }
            if let Some(m) = one_outside(&c) {
                let best = Mutex::new((c, m, 0));
                shrink_with(&p, &best, 30, &mut one_outside);
                let (sc, sm, steps) = best.lock().unwrap().clone();
                finish(&p, &env, &c, &sc, &sm, steps);
                short_evidence(&p, &env, &slots, &sc, t0);
                std::process::exit(1);
            }
        }
    }
    // not on its own: after the calls made before?
    for w in 0..Slots::THREADS {
        if let Some((_, c)) = slots.busy(w) {
            if kset.contains(&key(&p, &c)) {
                continue;
            }
            if let Some((before, m)) = shrink_history(&slots.history(w), &c) {
                finish_after(&p, &env, &c, &c, &format!("{m} (only after the calls listed)"), before.len() as u32, &before);
                short_evidence(&p, &env, &slots, &c, t0);
                std::process::exit(1);
            }
        }
    }
    eprintln!("ERROR property={}: the worker was killed ({st}) and no running case reproduces it", p.id);
    std::process::exit(2);
}

fn work(p: Prop, env: Env, slots: Slots, t0: Instant) -> ! {
    limit_memory(12);
    let (seed, thorough) = (env.seed, env.thorough);
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let phases = (p.phases)(thorough);
    let kn = known(&p);
    let kset: HashSet<String> = kn.iter().map(|x| x.0.clone()).collect();
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(Slots::THREADS);
    let sh = Shared {
        bitmap: {
            let mut v = Vec::with_capacity((BITMAP_BITS / 64) as usize);
            v.resize_with((BITMAP_BITS / 64) as usize, || AtomicU64::new(0));
            v
        },
        min_fail: AtomicU64::new(u64::MAX),
        next: AtomicU64::new(0),
        fails: Mutex::new(BTreeMap::new()),
        evals: AtomicU64::new(0),
        nontrivial: AtomicU64::new(0),
        distinct: AtomicU64::new(0),
        excluded: AtomicU64::new(0),
        stats: Mutex::new((BTreeMap::new(), BTreeMap::new())),
        samples: Mutex::new(BTreeMap::new()),
        done: AtomicBool::new(false),
        deadline: t0 + std::time::Duration::from_secs(std::env::var("VERIF_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(600)),
        late: AtomicBool::new(false),
        ran: phases.iter().map(|_| AtomicU64::new(0)).collect(),
    };
    // Phases one after the other. The thorough tier, which may be stopped by
    // its time limit, takes the random phases in turns.
    let mut plan: Vec<u64> = (0..phases.len() as u64 * SHARDS).collect();
    if thorough {
        plan.sort_by_key(|o| match phases[(o / SHARDS) as usize] {
            Phase::Enum { .. } => (0, *o),
            Phase::Random { .. } => (1 + o % SHARDS, *o),
        });
    }
    // for development
    let times = std::env::var("VERIF_TIMES").is_ok();
    let bad = std::thread::scope(|s| {
        let mut hs = Vec::new();
        for w in 0..threads {
            let (sh, env, p, phases, kset, slots, plan) = (&sh, &env, &p, &phases, &kset, &slots, &plan);
            hs.push(std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, move || {
                slots.at(w, 10).store(thread_id(), Relaxed);
                loop {
                    let rank = sh.next.fetch_add(1, Relaxed);
                    if rank >= plan.len() as u64 {
                        break;
                    }
                    if rank > sh.min_fail.load(Relaxed) {
                        continue;
                    }
                    let o = plan[rank as usize];
                    let t = Instant::now();
                    shard(sh, env, p, &phases[(o / SHARDS) as usize], (o, rank), kset, w, scale, slots);
                    if times {
                        eprintln!("phase {} {:.3}", o / SHARDS, t.elapsed().as_secs_f64());
                    }
                }
            }).expect("thread"));
        }
        // watchdog: a case that never ends
        let (shr, pr, envr, sl) = (&sh, &p, &env, &slots);
        let wd = s.spawn(move || {
            // the case, since when, processor time at that point, whether a
            // run of its own has been tried, since when asleep
            let mut last: Vec<(u64, Instant, u64, bool, Option<Instant>)> = vec![(0, Instant::now(), 0, false, None); threads];
            while !shr.done.load(Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(50));
                for (w, l) in last.iter_mut().enumerate() {
                    let (q, c) = match sl.busy(w) {
                        Some(x) => x,
                        None => {
                            l.0 = 0;
                            continue;
                        }
                    };
                    let task = format!("/proc/self/task/{}", sl.at(w, 10).load(Relaxed));
                    let now = || task_time(std::path::Path::new(&task));
                    if q != l.0 {
                        *l = (q, Instant::now(), u64::MAX, false, None);
                        continue;
                    }
                    if l.1.elapsed().as_secs() < 2 {
                        continue;
                    }
                    let (used, asleep) = match now() {
                        Some(x) => x,
                        None => continue,
                    };
                    if l.2 == u64::MAX {
                        l.2 = used;
                    }
                    l.4 = if asleep { l.4.or(Some(Instant::now())) } else { None };
                    // processor time again: on a busy machine a case may just wait
                    let stuck = (used - l.2) / 100 + 2 > hang_secs() || l.4.is_some_and(|x| x.elapsed().as_secs() > BLOCKED_SECS);
                    if !l.3 && stuck && l.1.elapsed().as_secs() > hang_secs() {
                        l.3 = true;
                        // confirm it by processor time, in a process of its own
                        let found = match one_outside(&c) {
                            Some(m) => Some((Vec::new(), m)),
                            None => shrink_history(&sl.history(w), &c),
                        };
                        if let Some((before, m)) = found {
                            finish_after(pr, envr, &c, &c, &m, 0, &before);
                            short_evidence(pr, envr, sl, &c, t0);
                            std::process::exit(1);
                        }
                    }
                    // it does not happen elsewhere, but here it does: far more
                    // processor time than a process of its own is allowed, or
                    // asleep for good
                    let spins = (used - l.2) / 100 > 5 * hang_secs();
                    let sleeps = l.4.is_some_and(|x| x.elapsed().as_secs() > 4 * hang_secs());
                    if l.3 && (spins || sleeps) {
                        let m = if spins { "no answer (hang)" } else { "no answer (deadlock)" };
                        let h = sl.history(w);
                        let m = format!("{m} in this run, after many other calls");
                        finish_after(pr, envr, &c, &c, &m, 0, &h[h.len() - h.len().min(64)..]);
                        short_evidence(pr, envr, sl, &c, t0);
                        std::process::exit(1);
                    }
                }
            }
        });
        let mut bad = false;
        for h in hs {
            bad |= h.join().is_err();
        }
        sh.done.store(true, Relaxed);
        let _ = wd.join();
        bad
    });
    if bad {
        eprintln!("ERROR property={}: the harness itself failed", p.id);
        std::process::exit(2);
    }
    let fail = sh.fails.lock().unwrap().iter().next().map(|(_, v)| v.clone());
    let mut code = 0;
    let mut viol = 0;
    let mut fail_json = String::new();
    for (k, what) in &kn {
        println!("KNOWN-FINDING: property={} {} [{}]", p.id, what, k);
    }
    if let Some((c, msg, hist)) = fail {
        let mut sc = c;
        let mut found = None;
        if one_outside(&c).is_none() {
            found = shrink_history(&hist, &c);
        }
        if let Some((before, m)) = found {
            finish_after(&p, &env, &c, &c, &format!("{m} (only after the calls listed)"), before.len() as u32, &before);
        } else {
            let (x, m, steps) = shrink(&p, &env, c, msg.clone());
            if steps > 0 && one_outside(&x).is_none() {
                // what is left behind by earlier calls misled the shrinking
                finish(&p, &env, &c, &c, &msg, 0);
            } else {
                sc = x;
                finish(&p, &env, &c, &sc, &m, steps);
            }
        }
        fail_json = format!(",\n  \"failing_case\": {}", jstr(&show(&p, &sc)));
        code = 1;
        viol = 1;
    }
    let evals = sh.evals.load(Relaxed);
    let dn = sh.distinct.load(Relaxed);
    let st = sh.stats.lock().unwrap();
    let smp = sh.samples.lock().unwrap();
    let samples: Vec<String> = smp.values().flatten().map(|s| format!("   {}", jstr(s))).collect();
    let labels: Vec<String> = st.0.iter().map(|(k, v)| format!("   {}: {}", jstr(k), v)).collect();
    let maxima: Vec<String> = st.1.iter().map(|(k, v)| format!("   {}: {:e}", jstr(k), v)).collect();
    let phs: Vec<String> = phases
        .iter()
        .zip(&sh.ran)
        .map(|(ph, ran)| {
            let (name, kind, n) = match ph {
                Phase::Random { name, n, .. } => (name, "random", scaled(*n, scale)),
                Phase::Enum { name, n, .. } => (name, "exhaustive", *n),
            };
            let ran = ran.load(Relaxed);
            let of = if ran < n { format!("{ran} of {n}") } else { format!("{n}") };
            format!("   {}", jstr(&format!("{name} ({kind}, {of} cases)")))
        })
        .collect();
    let ass: Vec<String> = p.assumptions.iter().map(|s| format!("  {}", jstr(s))).collect();
    let json = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"nontrivial\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"phases\": [\n{}\n  ],\n  \"classes\": {{\n{}\n  }},\n  \"observed_maxima\": {{\n{}\n  }},\n  \"stopped_by_time_limit\": {},\n  \"excluded_known_findings\": {},\n  \"samples\": [\n{}\n  ]{}\n }},\n \"assumptions\": [\n{}\n ],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        jstr(p.id),
        jstr(if thorough { "thorough" } else { "quick" }),
        seed,
        evals,
        sh.nontrivial.load(Relaxed),
        dn,
        jstr(&format!("{} Distinct cases are counted in a 2^30-bit hash table, so the count is a lower bound.", p.rule)),
        phs.join(",\n"),
        labels.join(",\n"),
        maxima.join(",\n"),
        sh.late.load(Relaxed),
        sh.excluded.load(Relaxed),
        samples.join(",\n"),
        fail_json,
        ass.join(",\n"),
        t0.elapsed().as_secs_f64(),
        viol
    );
    let ev = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&ev);
    let mut f = std::fs::File::create(format!("{ev}/{}.json", p.id)).expect("evidence file");
    f.write_all(json.as_bytes()).expect("evidence file");
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1}s, {}",
        p.id,
        evals,
        dn,
        t0.elapsed().as_secs_f64(),
        if code == 0 { "held" } else { "VIOLATED" }
    );
    std::process::exit(code);
}

fn scaled(n: u64, scale: f64) -> u64 {
    ((n as f64) * scale) as u64
}

#[allow(clippy::too_many_arguments)]
fn shard(sh: &Shared, env: &Env, p: &Prop, ph: &Phase, (order, rank): (u64, u64), kset: &HashSet<String>, w: usize, scale: f64, slots: &Slots) {
    TICK.with(|t| t.set(Some(slots.at(w, 0) as *const AtomicU64)));
    let si = order % SHARDS;
    let pi = order / SHARDS;
    let mut st = Stats::default();
    let mut src = Src::seeded(env.seed, pi + 1, si);
    let (lo, hi) = match ph {
        Phase::Random { n, .. } => {
            let n = scaled(*n, scale);
            (0, n / SHARDS + u64::from(si < n % SHARDS))
        }
        Phase::Enum { n, .. } => (n * si / SHARDS, n * (si + 1) / SHARDS),
    };
    let (mut ev, mut nt, mut di, mut ex) = (0u64, 0u64, 0u64, 0u64);
    let mut samples: Vec<String> = Vec::new();
    // the last cases of this thread: some cases repeat one of them, or differ
    // in one argument only
    let mut hist: Vec<Case> = Vec::with_capacity(HISTORY);
    let mut near = Src::seeded(env.seed, pi + 1001, si);
    // VERIF_SCALE below 1 (for development) thins out exhaustive phases, too
    let step = match ph {
        Phase::Enum { n, .. } if scale < 1.0 && *n > 10_000 => (1.0 / scale) as u64,
        _ => 1,
    };
    for i in (lo..hi).step_by(step as usize) {
        if ev & 15 == 0 {
            if sh.min_fail.load(Relaxed) < rank {
                break;
            }
            if Instant::now() > sh.deadline {
                sh.late.store(true, Relaxed);
                break;
            }
        }
        let c = match ph {
            Phase::Random { gen, .. } => match near.below(32) {
                0..=3 if ev > 0 => close_to(p, &hist[(ev as usize - 1) % HISTORY], &mut near),
                4 if ev > 2 => hist[(ev as usize - 1 - near.below(3) as usize) % HISTORY],
                _ => gen(env, &mut src),
            },
            Phase::Enum { at, .. } => at(env, i),
        };
        if hist.len() < HISTORY {
            hist.push(c);
        } else {
            hist[ev as usize % HISTORY] = c;
        }
        ev += 1;
        slots.begin(w, &c);
        let verdict = (p.check)(env, &c, &mut st);
        slots.end(w);
        match verdict {
            Ok(nontriv) => {
                if nontriv {
                    nt += 1;
                    let h = hash_case(&c) % BITMAP_BITS;
                    let bit = 1u64 << (h & 63);
                    let slot = &sh.bitmap[(h >> 6) as usize];
                    if slot.load(Relaxed) & bit == 0 && slot.fetch_or(bit, Relaxed) & bit == 0 {
                        di += 1;
                    }
                    if si % 32 == 0 && samples.len() < 2 {
                        samples.push(show(p, &c));
                    }
                }
            }
            Err(m) => {
                if kset.contains(&key(p, &c)) {
                    ex += 1;
                    continue;
                }
                sh.min_fail.fetch_min(rank, Relaxed);
                let oldest = if hist.len() < HISTORY { 0 } else { ev as usize % HISTORY };
                hist.rotate_left(oldest);
                hist.pop();
                sh.fails.lock().unwrap().insert(rank, (c, m, hist));
                break;
            }
        }
    }
    sh.evals.fetch_add(ev, Relaxed);
    sh.ran[pi as usize].fetch_add(ev, Relaxed);
    sh.nontrivial.fetch_add(nt, Relaxed);
    sh.distinct.fetch_add(di, Relaxed);
    sh.excluded.fetch_add(ex, Relaxed);
    let mut g = sh.stats.lock().unwrap();
    for (k, v) in st.labels {
        *g.0.entry(k.to_string()).or_insert(0) += v;
    }
    for (k, v) in st.maxima {
        let e = g.1.entry(k.to_string()).or_insert(f64::NEG_INFINITY);
        if v > *e {
            *e = v;
        }
    }
    if !samples.is_empty() {
        sh.samples.lock().unwrap().insert(order, samples);
    }
}

/// The case that a coverage-guided input stands for.
pub fn fuzz_case(p: &Prop, env: &Env, data: &[u8]) -> Case {
    let mut src = Src::from_bytes(data);
    // bits of one argument to flip afterwards, which the fuzzer controls directly
    let (n, mask) = (src.below(16) as usize, src.u64());
    let mut c = (p.fuzz)(env, &mut src);
    if let Some((_, Kind::Cell | Kind::Raw | Kind::F64)) = p.ops[c.op as usize].args.get(n) {
        c.a[n] ^= mask;
    }
    c
}

/// One coverage-guided input: aborts (which libFuzzer reports) on a violation.
pub fn fuzz_one(p: &Prop, env: &Env, data: &[u8]) {
    thread_local! {
        static KNOWN: RefCell<Option<HashSet<String>>> = const { RefCell::new(None) };
    }
    let c = fuzz_case(p, env, data);
    if let Err(m) = (p.check)(env, &c, &mut Stats::default()) {
        let k = key(p, &c);
        if KNOWN.with(|x| x.borrow_mut().get_or_insert_with(|| known(p).into_iter().map(|x| x.0).collect()).contains(&k)) {
            return;
        }
        eprintln!("{} {m}", show(p, &c));
        std::process::abort();
    }
}

/// Coverage-guided search with the libFuzzer target, if it has been built.
/// The case found is confirmed and shrunk like any other.
fn guided(p: &Prop, env: &Env, t0: Instant) -> i32 {
    use std::process::{Command, Stdio};
    let exe = format!("{}/fuzz/target/release/vfuzz", verif_dir());
    let secs = std::env::var("VERIF_FUZZ_SECS").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(90);
    if !std::path::Path::new(&exe).exists() || secs == 0 {
        println!("no coverage-guided search: {exe} is not there");
        return 0;
    }
    let dir = format!("{}/out/fuzz.{}.{}", verif_dir(), p.id, std::process::id());
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(format!("{dir}/corpus")).expect("scratch directory");
    let jobs: Vec<_> = (0..std::thread::available_parallelism().map_or(8, |n| n.get()))
        .map(|j| {
            let log = std::fs::File::create(format!("{dir}/log.{j}")).expect("log");
            Command::new(&exe)
                .env("PROP", p.id)
                .arg(format!("{dir}/corpus"))
                .args([
                    format!("-seed={}", env.seed * 1000 + j as u64 + 1),
                    format!("-max_total_time={secs}"),
                    format!("-artifact_prefix={dir}/found-{j}-"),
                    "-max_len=256".into(),
                    "-len_control=0".into(),
                    "-use_value_profile=1".into(),
                    "-timeout=60".into(),
                    "-rss_limit_mb=3000".into(),
                    "-malloc_limit_mb=0".into(),
                    "-reload=1".into(),
                    "-print_final_stats=1".into(),
                    "-verbosity=1".into(),
                ])
                .stdout(Stdio::null())
                .stderr(log)
                .spawn()
                .expect("spawn")
        })
        .collect();
    for mut j in jobs {
        let _ = j.wait();
    }
    let mut runs = 0u64;
    let (mut cov, mut ft) = (0u64, 0u64);
    let mut found = Vec::new();
    for f in std::fs::read_dir(&dir).expect("scratch directory").flatten() {
        let name = f.file_name().to_string_lossy().to_string();
        if name.starts_with("found-") {
            found.push(f.path());
        } else if name.starts_with("log.") {
            let text = String::from_utf8_lossy(&std::fs::read(f.path()).unwrap_or_default()).to_string();
            for l in text.lines() {
                let w: Vec<&str> = l.split_whitespace().collect();
                if w.first() == Some(&"stat::number_of_executed_units:") {
                    runs += w[1].parse::<u64>().unwrap_or(0);
                }
                for x in w.windows(2) {
                    let n = x[1].parse::<u64>().unwrap_or(0);
                    match x[0] {
                        "cov:" => cov = cov.max(n),
                        "ft:" => ft = ft.max(n),
                        _ => {}
                    }
                }
            }
        }
    }
    found.sort();
    let mut code = 0;
    for f in found {
        let out = Command::new(&exe).env("PROP", p.id).env("FUZZ_DECODE", &f).output().expect("spawn");
        let v: Vec<u64> = String::from_utf8_lossy(&out.stdout).split_whitespace().filter_map(|x| u64::from_str_radix(x, 16).ok()).collect();
        if v.len() < 2 {
            continue;
        }
        let c = case(v[0] as u8, &v[1..]);
        if let Some(m) = one_outside(&c) {
            let best = Mutex::new((c, m, 0));
            shrink_with(p, &best, 30, &mut one_outside);
            let (sc, sm, steps) = best.lock().unwrap().clone();
            finish(p, env, &c, &sc, &sm, steps);
            code = 1;
            break;
        }
    }
    // add to the evidence written by the worker
    let path = format!("{}/evidence/{}.json", verif_dir(), p.id);
    if let Ok(s) = std::fs::read_to_string(&path) {
        let add = format!(
            "\"coverage\": {{\n  \"coverage_guided\": {{\"tool\": \"libFuzzer, edges and compared values of h3-rs\", \"seconds\": {secs}, \"runs\": {runs}, \"edges\": {cov}, \"features\": {ft}}},",
        );
        let s = s.replacen("\"coverage\": {", &add, 1);
        let s = if code == 1 { s.replacen("\"violations\": 0", "\"violations\": 1", 1) } else { s };
        let old = s.find("\"wall_s\": ").and_then(|i| s[i..].find(',').map(|j| s[i..i + j].to_string()));
        let s = match old {
            Some(o) => s.replacen(&o, &format!("\"wall_s\": {:.3}", t0.elapsed().as_secs_f64()), 1),
            None => s,
        };
        std::fs::write(&path, s).expect("evidence file");
    }
    println!("{}: {runs} coverage-guided runs, {cov} edges, {ft} features, {secs} s", p.id);
    let _ = std::fs::remove_dir_all(&dir);
    code
}
