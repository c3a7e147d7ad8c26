//! Independent reference model of the H3 grid system.
//!
//! Nothing in this file uses the crate under test.  The only inputs are the
//! H3 specification constants (orientation of the icosahedron, home face and
//! home coordinate of each of the 122 base cells); everything else -- face
//! adjacency, base cell lookup, base cell rotations, neighbours, pentagon
//! distortion -- is derived geometrically, with exact integer arithmetic in
//! the ring of Eisenstein integers Z[w], w = exp(2*pi*i/3).
//!
//! A cell centre is a point of the icosahedron's surface, developed on the
//! plane of one face: `Loc { face, z, res }`, z an Eisenstein integer of the
//! resolution `res` lattice centred on the face centre.  Positions beyond an
//! edge are carried over with the isometry that unfolds the adjacent face.
//! Around a pentagon the surface is a cone of 300 degrees.
#![allow(non_snake_case)]

pub type Vec3 = [f64; 3];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct E {
    pub a: i64,
    pub b: i64,
}
pub const fn e(a: i64, b: i64) -> E {
    E { a, b }
}
impl E {
    pub fn add(self, o: E) -> E {
        e(self.a + o.a, self.b + o.b)
    }
    pub fn sub(self, o: E) -> E {
        e(self.a - o.a, self.b - o.b)
    }
    pub fn mul(self, o: E) -> E {
        e(
            self.a * o.a - self.b * o.b,
            self.a * o.b + self.b * o.a - self.b * o.b,
        )
    }
    pub fn conj(self) -> E {
        e(self.a - self.b, -self.b)
    }
    pub fn scale(self, s: i64) -> E {
        e(self.a * s, self.b * s)
    }
    /// multiply by exp(i*60deg*n)
    pub fn rot(self, n: i64) -> E {
        let mut z = self;
        for _ in 0..n.rem_euclid(6) {
            z = e(z.a - z.b, z.a);
        }
        z
    }
    /// exact division, if possible
    pub fn div(self, m: E) -> Option<E> {
        let n = m.a * m.a - m.a * m.b + m.b * m.b;
        let p = self.mul(m.conj());
        if p.a % n == 0 && p.b % n == 0 {
            Some(e(p.a / n, p.b / n))
        } else {
            None
        }
    }
    /// twice the real part
    pub fn re2(self) -> i64 {
        2 * self.a - self.b
    }
    pub fn xy(self) -> (f64, f64) {
        (
            self.a as f64 - 0.5 * self.b as f64,
            self.b as f64 * 0.866_025_403_784_438_6,
        )
    }
    pub fn is_zero(self) -> bool {
        self.a == 0 && self.b == 0
    }
}

/// direction digit -> unit step. 0 centre, 1 K, 2 J, 3 JK, 4 I, 5 IK, 6 IJ
pub const UNIT: [E; 7] = [
    e(0, 0),
    e(-1, -1),
    e(0, 1),
    e(-1, 0),
    e(1, 0),
    e(0, -1),
    e(1, 1),
];
/// angle of each digit in units of 60 degrees
pub const ANG: [i64; 7] = [0, 4, 2, 3, 0, 5, 1];
/// digit for each angle
pub const DIG: [u8; 6] = [4, 6, 2, 3, 1, 5];

/// rotate a digit n*60 degrees counter-clockwise
pub fn rot_digit(d: u8, n: i64) -> u8 {
    if d == 0 || d > 6 {
        d
    } else {
        DIG[(ANG[d as usize] + n).rem_euclid(6) as usize]
    }
}

/// lattice multiplier from resolution r-1 to r
pub fn mult(r: usize) -> E {
    if r % 2 == 1 {
        e(2, -1)
    } else {
        e(3, 1)
    }
}

pub fn pow7(n: u32) -> i64 {
    7i64.pow(n)
}

/// product of multipliers 1..=res
pub fn M(res: usize) -> E {
    let q = pow7((res / 2) as u32);
    if res % 2 == 1 {
        e(2 * q, -q)
    } else {
        e(q, 0)
    }
}

const FACE_GEO: [(f64, f64); 20] = [
    (0.803582649718989942, 1.248397419617396099),
    (1.307747883455638156, 2.536945009877921159),
    (1.054751253523952054, -1.347517358900396623),
    (0.600191595538186799, -0.450603909469755746),
    (0.491715428198773866, 0.401988202911306943),
    (0.172745327415618701, 1.678146885280433686),
    (0.605929321571350690, 2.953923329812411617),
    (0.427370518328979641, -1.888876200336285401),
    (-0.079066118549212831, -0.733429513380867741),
    (-0.230961644455383637, 0.506495587332349035),
    (0.079066118549212831, 2.408163140208925497),
    (0.230961644455383637, -2.635097066257444203),
    (-0.172745327415618701, -1.463445768309359553),
    (-0.605929321571350690, -0.187669323777381622),
    (-0.427370518328979641, 1.252716453253507838),
    (-0.600191595538186799, 2.690988744120037492),
    (-0.491715428198773866, -2.739604450678486295),
    (-0.803582649718989942, -1.893195233972397139),
    (-1.307747883455638156, -0.604647643711872080),
    (-1.054751253523952054, 1.794075294689396615),
];
/// azimuth (clockwise from north) of the i axis at each face centre
const FACE_AZ: [f64; 20] = [
    5.619958268523939882,
    5.760339081714187279,
    0.780213654393430055,
    0.430469363979999913,
    6.130269123335111400,
    2.692877706530642877,
    2.982963003477243874,
    3.532912002790141181,
    3.494305004259568154,
    3.003214169499538391,
    5.930472956509811562,
    0.138378484090254847,
    0.448714947059150361,
    0.158629650112549365,
    5.891865957979238535,
    2.711123289609793325,
    3.294508837434268316,
    3.804819692245439833,
    3.664438879055192436,
    2.361378999196363184,
];
/// (home face, i, j, k) of every base cell
#[rustfmt::skip]
const HOMES: [(usize, i64, i64, i64); 122] = [
    (1,1,0,0), (2,1,1,0), (1,0,0,0), (2,1,0,0), (0,2,0,0), (1,1,1,0), (1,0,0,1), (2,0,0,0),
    (0,1,0,0), (2,0,1,0), (1,0,1,0), (1,0,1,1), (3,1,0,0), (3,1,1,0), (11,2,0,0), (4,1,0,0),
    (0,0,0,0), (6,0,1,0), (0,0,0,1), (2,0,1,1), (7,0,0,1), (2,0,0,1), (0,1,1,0), (6,0,0,1),
    (10,2,0,0), (6,0,0,0), (3,0,0,0), (11,1,0,0), (4,1,1,0), (3,0,1,0), (0,0,1,1), (4,0,0,0),
    (5,0,1,0), (0,0,1,0), (7,0,1,0), (11,1,1,0), (7,0,0,0), (10,1,0,0), (12,2,0,0), (6,1,0,1),
    (7,1,0,1), (4,0,0,1), (3,0,0,1), (3,0,1,1), (4,0,1,0), (6,1,0,0), (11,0,0,0), (8,0,0,1),
    (5,0,0,1), (14,2,0,0), (5,0,0,0), (12,1,0,0), (10,1,1,0), (4,0,1,1), (12,1,1,0), (7,1,0,0),
    (11,0,1,0), (10,0,0,0), (13,2,0,0), (10,0,0,1), (11,0,0,1), (9,0,1,0), (8,0,1,0), (6,2,0,0),
    (8,0,0,0), (9,0,0,1), (14,1,0,0), (5,1,0,1), (16,0,1,1), (8,1,0,1), (5,1,0,0), (12,0,0,0),
    (7,2,0,0), (12,0,1,0), (10,0,1,0), (9,0,0,0), (13,1,0,0), (16,0,0,1), (15,0,1,1), (15,0,1,0),
    (16,0,1,0), (14,1,1,0), (13,1,1,0), (5,2,0,0), (8,1,0,0), (14,0,0,0), (9,1,0,1), (14,0,0,1),
    (17,0,0,1), (12,0,0,1), (16,0,0,0), (17,0,1,1), (15,0,0,1), (16,1,0,1), (9,1,0,0), (15,0,0,0),
    (13,0,0,0), (8,2,0,0), (13,0,1,0), (17,1,0,1), (19,0,1,0), (14,0,1,0), (19,0,1,1), (17,0,1,0),
    (13,0,0,1), (17,0,0,0), (16,1,0,0), (9,2,0,0), (15,1,0,1), (15,1,0,0), (18,0,1,1), (18,0,0,1),
    (19,0,0,1), (17,1,0,0), (19,0,0,0), (18,0,1,0), (18,1,0,1), (19,2,0,0), (19,1,0,0), (18,0,0,0),
    (19,1,0,1), (18,1,0,0),
];

/// res-0 unit length on the plane tangent at a face centre: (3 - sqrt 5) / 2
pub const U0: f64 = 0.381_966_011_250_105_15;

pub fn dot(a: Vec3, b: Vec3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: Vec3, b: Vec3) -> Vec3 {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
pub fn lin(a: Vec3, s: f64, b: Vec3) -> Vec3 {
    [a[0] + s * b[0], a[1] + s * b[1], a[2] + s * b[2]]
}
pub fn norm(a: Vec3) -> f64 {
    dot(a, a).sqrt()
}
pub fn unit(a: Vec3) -> Vec3 {
    let n = norm(a);
    [a[0] / n, a[1] / n, a[2] / n]
}
pub fn geo_to_vec(lat: f64, lng: f64) -> Vec3 {
    let r = lat.cos();
    [lng.cos() * r, lng.sin() * r, lat.sin()]
}
pub fn vec_to_geo(v: Vec3) -> (f64, f64) {
    (v[2].atan2((v[0] * v[0] + v[1] * v[1]).sqrt()), v[1].atan2(v[0]))
}
/// angle between two directions, accurate for small angles too
pub fn angle(a: Vec3, b: Vec3) -> f64 {
    norm(cross(a, b)).atan2(dot(a, b))
}

/// isometry z -> z.rot(rot) + t (t in res-0 units) from the plane of one face
/// to the plane of the face adjacent over an edge
#[derive(Clone, Copy, Debug)]
pub struct Fold {
    pub face: usize,
    pub rot: i64,
    pub t: E,
}

#[derive(Clone, Copy, Debug)]
pub struct PentInfo {
    /// the five faces around the vertex, clockwise from the home face, and
    /// the angle index (0, 2, 4) of the vertex in each
    pub ring: [(usize, i64); 5],
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Loc {
    pub face: usize,
    pub z: E,
    pub res: usize,
}

/// A well formed cell, taken apart.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Cell {
    pub bc: u8,
    pub res: u8,
    pub d: [u8; 16], // d[1..=res]
}

impl Cell {
    pub fn base(bc: u8) -> Cell {
        Cell { bc, res: 0, d: [0; 16] }
    }
    pub fn lead(&self) -> u8 {
        for r in 1..=self.res as usize {
            if self.d[r] != 0 {
                return self.d[r];
            }
        }
        0
    }
    pub fn is_pent(&self) -> bool {
        is_pent_bc(self.bc) && self.lead() == 0
    }
    /// the 64 bit cell index
    pub fn index(&self) -> u64 {
        let mut h: u64 = 1u64 << 59;
        h |= (self.res as u64) << 52;
        h |= (self.bc as u64) << 45;
        for r in 1..16usize {
            let dig = if r <= self.res as usize { self.d[r] as u64 } else { 7 };
            h |= dig << (3 * (15 - r));
        }
        h
    }
    pub fn parse(h: u64) -> Option<Cell> {
        if !valid_cell(h) {
            return None;
        }
        let mut c = Cell {
            bc: ((h >> 45) & 127) as u8,
            res: ((h >> 52) & 15) as u8,
            d: [0; 16],
        };
        for r in 1..=c.res as usize {
            c.d[r] = ((h >> (3 * (15 - r))) & 7) as u8;
        }
        Some(c)
    }
    pub fn parent(&self) -> Cell {
        let mut c = *self;
        c.d[c.res as usize] = 0;
        c.res -= 1;
        c
    }
    pub fn ancestor(&self, res: u8) -> Cell {
        let mut c = *self;
        while c.res > res {
            c = c.parent();
        }
        c
    }
    pub fn child(&self, d: u8) -> Cell {
        let mut c = *self;
        c.res += 1;
        c.d[c.res as usize] = d;
        c
    }
}

pub const PENT_BCS: [u8; 12] = [4, 14, 24, 38, 49, 58, 63, 72, 83, 97, 107, 117];
pub fn is_pent_bc(bc: u8) -> bool {
    PENT_BCS.contains(&bc)
}

/// Bit-level definition of a valid cell index, written as a comparison with
/// its own canonical re-assembly plus the pentagon rule.
pub fn valid_cell(h: u64) -> bool {
    let bc = (h >> 45) & 127;
    let res = ((h >> 52) & 15) as usize;
    // high bit 0, mode 1, reserved 0
    if h >> 56 != 0b0000_1000 {
        return false;
    }
    if bc > 121 {
        return false;
    }
    let mut lead = 0;
    for r in 1..16usize {
        let d = (h >> (45 - 3 * r)) & 7;
        if r <= res {
            if d == 7 {
                return false;
            }
            if lead == 0 {
                lead = d;
            }
        } else if d != 7 {
            return false;
        }
    }
    !(lead == 1 && is_pent_bc(bc as u8))
}

/// number of descendants n levels down
pub fn num_children(pent: bool, n: u32) -> i64 {
    if pent {
        let mut p: i64 = 1; // pentagon count stays 1
        let mut h: i64 = 0;
        for _ in 0..n {
            h = h * 7 + p * 5;
            p = 1;
        }
        h + p
    } else {
        let mut h: i64 = 1;
        for _ in 0..n {
            h *= 7;
        }
        h
    }
}

/// the pos-th descendant of `c` at resolution `res` in ascending order
pub fn nth_child(c: &Cell, res: u8, mut pos: i64) -> Cell {
    let mut cur = *c;
    while cur.res < res {
        let below = (res - cur.res - 1) as u32;
        let mut found = None;
        for d in 0..7u8 {
            if d == 1 && cur.is_pent() {
                continue;
            }
            let ch = cur.child(d);
            let n = num_children(ch.is_pent(), below);
            if pos < n {
                found = Some(ch);
                break;
            }
            pos -= n;
        }
        cur = found.expect("nth_child: position out of range");
    }
    cur
}

pub struct Model {
    pub c: [Vec3; 20],
    pub e1: [Vec3; 20],
    pub e2: [Vec3; 20],
    /// folds[f][e]: e=0 edge at +60deg (IJ), 1 edge at 180deg (JK), 2 edge at 300deg (KI)
    pub folds: [[Fold; 3]; 20],
    pub home: [(usize, E); 122],
    pub pent: [Option<PentInfo>; 122],
    /// (face, z0.a+3, z0.b+3) -> (bc, ccw rotation of digits, index of face around pentagon)
    table: Vec<Option<(u8, i64, usize)>>,
}

/// angle index of the outward normal of each edge
const EDGE_ANG: [i64; 3] = [1, 3, 5];

fn slot(face: usize, z: E) -> Option<usize> {
    if z.a.abs() > 3 || z.b.abs() > 3 {
        return None;
    }
    Some(face * 49 + ((z.a + 3) * 7 + z.b + 3) as usize)
}

impl Model {
    pub fn new() -> Model {
        let z3 = [0.0; 3];
        let mut m = Model {
            c: [z3; 20],
            e1: [z3; 20],
            e2: [z3; 20],
            folds: [[Fold { face: 99, rot: 0, t: e(0, 0) }; 3]; 20],
            home: [(0, e(0, 0)); 122],
            pent: [None; 122],
            table: vec![None; 20 * 49],
        };
        for f in 0..20 {
            let (lat, lng) = FACE_GEO[f];
            let c = geo_to_vec(lat, lng);
            let north = [-lat.sin() * lng.cos(), -lat.sin() * lng.sin(), lat.cos()];
            let east = [-lng.sin(), lng.cos(), 0.0];
            let az = FACE_AZ[f];
            let e1 = lin(
                [north[0] * az.cos(), north[1] * az.cos(), north[2] * az.cos()],
                az.sin(),
                east,
            );
            m.c[f] = c;
            m.e1[f] = e1;
            m.e2[f] = cross(c, e1);
        }
        // edges
        for f in 0..20 {
            for ed in 0..3 {
                let n = e(1, 0).rot(EDGE_ANG[ed]);
                let mid = m.surf(f, n.xy());
                // the adjacent face has this midpoint as one of its own
                let mut found = None;
                for g in 0..20 {
                    if g == f {
                        continue;
                    }
                    for eg in 0..3 {
                        let ng = e(1, 0).rot(EDGE_ANG[eg]);
                        let mg = m.surf(g, ng.xy());
                        if norm(lin(mid, -1.0, mg)) < 1e-9 {
                            assert!(found.is_none());
                            found = Some((g, eg));
                        }
                    }
                }
                let (g, eg) = found.expect("adjacent face");
                // outward normal of f's edge -> inward normal of g's edge
                let rot = (EDGE_ANG[eg] + 3 - EDGE_ANG[ed]).rem_euclid(6);
                let t = e(1, 0).rot(EDGE_ANG[eg]).sub(n.rot(rot));
                m.folds[f][ed] = Fold { face: g, rot, t };
                // check on the two edge ends
                for k in [EDGE_ANG[ed] + 1, EDGE_ANG[ed] - 1] {
                    let v = e(2, 0).rot(k);
                    let a = m.surf(f, v.xy());
                    let b = m.surf(g, v.rot(rot).add(t).xy());
                    assert!(norm(lin(a, -1.0, b)) < 1e-9);
                }
            }
        }
        for bc in 0..122 {
            let (f, i, j, k) = HOMES[bc];
            let z = UNIT[4].scale(i).add(UNIT[2].scale(j)).add(UNIT[1].scale(k));
            m.home[bc] = (f, z);
            if z == e(2, 0) {
                assert!(is_pent_bc(bc as u8));
                let v = m.surf(f, z.xy());
                // faces around the vertex, clockwise: from face g with vertex
                // angle index a, the clockwise neighbour (decreasing angle
                // around the vertex) lies over the edge ccw-next of a: a+1
                let mut ring = [(0usize, 0i64); 5];
                let mut cur = (f, 0i64);
                for s in 0..5 {
                    ring[s] = cur;
                    assert!(norm(lin(v, -1.0, m.surf(cur.0, e(2, 0).rot(cur.1).xy()))) < 1e-9);
                    let ed = EDGE_ANG.iter().position(|x| *x == (cur.1 + 1).rem_euclid(6)).unwrap();
                    let fo = m.folds[cur.0][ed];
                    let vg = e(2, 0).rot(cur.1).rot(fo.rot).add(fo.t);
                    let a = [0i64, 2, 4].into_iter().find(|a| e(2, 0).rot(*a) == vg).unwrap();
                    cur = (fo.face, a);
                }
                assert_eq!(cur, (f, 0));
                for s in 0..5i64 {
                    let (g, a) = ring[s as usize];
                    // face-plane angle of the centroid direction: a+3 ; cone angle 3 - s
                    let n = (3 - s - (a + 3)).rem_euclid(6);
                    let sl = slot(g, e(2, 0).rot(a)).unwrap();
                    assert!(m.table[sl].is_none());
                    m.table[sl] = Some((bc as u8, n, s as usize));
                }
                m.pent[bc] = Some(PentInfo { ring });
            } else {
                assert!(!is_pent_bc(bc as u8));
                let sl = slot(f, z).unwrap();
                assert!(m.table[sl].is_none());
                m.table[sl] = Some((bc as u8, 0, 0));
                for ed in 0..3 {
                    // twice the distance towards this edge (edge itself at 2)
                    let d2 = z.rot(-EDGE_ANG[ed]).re2();
                    if d2 >= 1 {
                        let fo = m.folds[f][ed];
                        let z2 = z.rot(fo.rot).add(fo.t);
                        let sl = slot(fo.face, z2).unwrap();
                        assert!(m.table[sl].is_none());
                        m.table[sl] = Some((bc as u8, (-fo.rot).rem_euclid(6), 0));
                    }
                }
            }
        }
        m
    }

    /// base cell and digit rotation for a res-0 lattice position on a face
    pub fn lookup(&self, face: usize, z0: E) -> Option<(u8, i64, usize)> {
        self.table[slot(face, z0)?]
    }

    /// 3D point of the plane of face f (res-0 units)
    pub fn surf(&self, f: usize, p: (f64, f64)) -> Vec3 {
        lin(lin(self.c[f], U0 * p.0, self.e1[f]), U0 * p.1, self.e2[f])
    }

    /// Carry a position that lies beyond at most one edge onto its true face.
    fn fold(&self, face: usize, z: E, res: usize) -> Loc {
        let mm = M(res);
        let n7 = pow7(res as u32);
        let p = z.mul(mm.conj()); // position * 7^res
        let mut worst = 2 * n7;
        let mut out = Loc { face, z, res };
        for ed in 0..3 {
            let d2 = p.rot(-EDGE_ANG[ed]).re2();
            if d2 > worst {
                worst = d2;
                let fo = self.folds[face][ed];
                out = Loc { face: fo.face, z: z.rot(fo.rot).add(fo.t.mul(mm)), res };
            }
        }
        out
    }

    /// fold, additionally requiring that the result lies inside its face
    fn fold_checked(&self, face: usize, z: E, res: usize) -> Loc {
        let l = self.fold(face, z, res);
        debug_assert!({
            let p = l.z.mul(M(res).conj());
            (0..3).all(|ed| p.rot(-EDGE_ANG[ed]).re2() <= 2 * pow7(res as u32))
        });
        l
    }

    /// Position relative to a pentagon vertex, on the cone: pick the face.
    /// `near` is an angle (units of 60 deg, unwrapped) close to the position's.
    fn cone(&self, bc: u8, z: E, near: f64, res: usize) -> Loc {
        let pi = self.pent[bc as usize].as_ref().unwrap();
        let mm = M(res);
        if z.is_zero() {
            let (f, a) = pi.ring[0];
            return Loc { face: f, z: e(2, 0).rot(a).mul(mm), res };
        }
        let al = self.cone_angle(z, near, res);
        let kk = (3.0 - al).round() as i64;
        let k = kk.rem_euclid(5);
        let (f, a) = pi.ring[k as usize];
        // cone angle 3 - kk corresponds to face-plane angle a + 3
        let rot = (a + 3) - (3 - kk);
        Loc { face: f, z: e(2, 0).rot(a).mul(mm).add(z.rot(rot)), res }
    }

    /// unwrapped angle (units of 60 deg) of fine-lattice offset z, within 3 of `near`
    fn cone_angle(&self, z: E, near: f64, res: usize) -> f64 {
        let p = z.mul(M(res).conj());
        let (x, y) = p.xy();
        let mut al = y.atan2(x) / std::f64::consts::FRAC_PI_3;
        while al > near + 3.0 {
            al -= 6.0;
        }
        while al < near - 3.0 {
            al += 6.0;
        }
        al
    }

    fn lead_angle(lead: u8) -> f64 {
        match lead {
            5 => -1.0,
            d => ANG[d as usize] as f64,
        }
    }

    fn offset(&self, c: &Cell, start: E) -> E {
        let mut z = start;
        for r in 1..=c.res as usize {
            z = z.mul(mult(r)).add(UNIT[c.d[r] as usize]);
        }
        z
    }

    /// centre of a valid cell
    pub fn loc(&self, c: &Cell) -> Loc {
        let (f, z0) = self.home[c.bc as usize];
        if is_pent_bc(c.bc) {
            let z = self.offset(c, e(0, 0));
            self.cone(c.bc, z, Self::lead_angle(c.lead()), c.res as usize)
        } else {
            self.fold_checked(f, self.offset(c, z0), c.res as usize)
        }
    }

    /// the cell centred on a lattice position on a face
    pub fn cell_at(&self, l: &Loc) -> Option<Cell> {
        let mut z = l.z;
        let mut d = [0u8; 16];
        for r in (1..=l.res).rev() {
            let m = mult(r);
            let mut done = false;
            for (dig, u) in UNIT.iter().enumerate() {
                if let Some(q) = z.sub(*u).div(m) {
                    d[r] = dig as u8;
                    z = q;
                    done = true;
                    break;
                }
            }
            assert!(done);
        }
        let (bc, n, k) = self.lookup(l.face, z)?;
        for x in d[1..=l.res].iter_mut() {
            *x = rot_digit(*x, n);
        }
        let mut c = Cell { bc, res: l.res as u8, d };
        if is_pent_bc(bc) && c.lead() == 1 {
            // the missing sector: the surface is glued along it
            let n = match k {
                0 => 1,
                4 => -1,
                _ => return None,
            };
            for x in c.d[1..=l.res].iter_mut() {
                *x = rot_digit(*x, n);
            }
        }
        Some(c)
    }

    /// Neighbour of `c` in direction digit `dir` (1..=6), directions taken in
    /// the frame of c's base cell. None for the deleted direction of a
    /// pentagon.
    pub fn neighbor(&self, c: &Cell, dir: u8) -> Option<Cell> {
        let res = c.res as usize;
        if is_pent_bc(c.bc) {
            let z = self.offset(c, e(0, 0));
            if z.is_zero() {
                if dir == 1 {
                    return None;
                }
                let l = self.cone(c.bc, self.step(UNIT[dir as usize], res), self.dir_angle(dir, res), res);
                return self.cell_at(&l);
            }
            let al = self.cone_angle(z, Self::lead_angle(c.lead()), res);
            let z2 = z.add(UNIT[dir as usize]);
            let l = self.cone(c.bc, z2, al, res);
            self.cell_at(&l)
        } else {
            let (f, z0) = self.home[c.bc as usize];
            let z = self.offset(c, z0).add(UNIT[dir as usize]);
            self.cell_at(&self.fold_checked(f, z, res))
        }
    }
    fn step(&self, u: E, _res: usize) -> E {
        u
    }
    fn dir_angle(&self, dir: u8, _res: usize) -> f64 {
        Self::lead_angle(dir)
    }

    /// all neighbours, in direction order
    pub fn neighbors(&self, c: &Cell, out: &mut Vec<Cell>) {
        out.clear();
        for d in 1..7 {
            if let Some(n) = self.neighbor(c, d) {
                out.push(n);
            }
        }
    }

    /// direction of the cell centre from the centre of the earth
    pub fn center(&self, c: &Cell) -> Vec3 {
        let l = self.loc(c);
        self.loc_vec(&l)
    }
    pub fn loc_vec(&self, l: &Loc) -> Vec3 {
        unit(self.surf(l.face, self.planar(l)))
    }
    /// res-0 planar coordinates of a location on its face
    pub fn planar(&self, l: &Loc) -> (f64, f64) {
        let (x, y) = l.z.mul(M(l.res).conj()).xy();
        let n = pow7(l.res as u32) as f64;
        (x / n, y / n)
    }

    pub fn nearest_face(&self, v: Vec3) -> usize {
        let mut best = 0;
        let mut bd = -2.0;
        for f in 0..20 {
            let d = dot(self.c[f], v);
            if d > bd {
                bd = d;
                best = f;
            }
        }
        best
    }

    /// res-0 planar coordinates of a direction, projected on face f
    pub fn project(&self, f: usize, v: Vec3) -> (f64, f64) {
        let s = dot(v, self.c[f]);
        (dot(v, self.e1[f]) / s / U0, dot(v, self.e2[f]) / s / U0)
    }

    /// fine lattice (complex) coordinates of planar res-0 coordinates
    pub fn fine(&self, p: (f64, f64), res: usize) -> (f64, f64) {
        let (mx, my) = M(res).xy();
        (p.0 * mx - p.1 * my, p.0 * my + p.1 * mx)
    }

    /// nearest lattice point
    pub fn round(p: (f64, f64)) -> E {
        let bf = p.1 / 0.866_025_403_784_438_6;
        let af = p.0 + 0.5 * bf;
        let (a0, b0) = (af.floor(), bf.floor());
        let mut best = e(0, 0);
        let mut bd = f64::MAX;
        for da in 0..2 {
            for db in 0..2 {
                let z = e(a0 as i64 + da, b0 as i64 + db);
                let (x, y) = z.xy();
                let d = (x - p.0).powi(2) + (y - p.1).powi(2);
                if d < bd {
                    bd = d;
                    best = z;
                }
            }
        }
        best
    }

    /// The cell containing a direction (exact except within rounding error of
    /// a cell boundary)
    pub fn cell_of(&self, v: Vec3, res: usize) -> Option<Cell> {
        let f = self.nearest_face(v);
        let p = self.fine(self.project(f, v), res);
        self.cell_at(&Loc { face: f, z: Self::round(p), res })
    }

    /// How far (in cell widths at resolution `res`, 0.5 = on the boundary for
    /// the hexagonal metric) the direction v is outside cell c: the largest
    /// projection of the offset on the six neighbour directions, on the face
    /// nearest to v.  None if c is not even near v.
    pub fn hex_offset(&self, c: &Cell, v: Vec3) -> Option<f64> {
        let res = c.res as usize;
        let f = self.nearest_face(v);
        let p = self.fine(self.project(f, v), res);
        let r = Self::round(p);
        // c must be the cell of one of the lattice points around p
        let mut best: Option<f64> = None;
        for d in 0..7 {
            let z = r.add(UNIT[d]);
            if self.cell_at(&Loc { face: f, z, res }) == Some(*c) {
                let (x, y) = z.xy();
                let (dx, dy) = (p.0 - x, p.1 - y);
                let mut w: f64 = 0.0;
                for u in 1..7 {
                    let (ux, uy) = UNIT[u].xy();
                    w = w.max(dx * ux + dy * uy);
                }
                best = Some(best.map_or(w, |b: f64| b.min(w)));
            }
        }
        best
    }

    /// ball of radius k: (cell, distance), by breadth first search
    pub fn ball(&self, c: &Cell, k: u32) -> Vec<(u64, u32)> {
        let mut seen: std::collections::HashSet<u64, FastHash> = Default::default();
        let mut out = vec![(c.index(), 0u32)];
        seen.insert(c.index());
        let mut cur = vec![*c];
        let mut nb = Vec::new();
        for dist in 1..=k {
            let mut next = Vec::new();
            for x in &cur {
                self.neighbors(x, &mut nb);
                for y in &nb {
                    if seen.insert(y.index()) {
                        out.push((y.index(), dist));
                        next.push(*y);
                    }
                }
            }
            cur = next;
        }
        out
    }
}

/// a quick hash for cell indexes
#[derive(Default, Clone, Copy)]
pub struct FastHasher(u64);
impl std::hash::Hasher for FastHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64);
        }
    }
    fn write_u64(&mut self, x: u64) {
        let y = (self.0 ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.0 = (y ^ (y >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        self.0 ^= self.0 >> 32;
    }
}
pub type FastHash = std::hash::BuildHasherDefault<FastHasher>;
