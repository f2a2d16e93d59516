//! Sessions of placed shapes, queries about them and moves made with the
//! answers, recorded for spec/TraceScene.tla.
use crate::shapes::*;
use crate::util::*;
use auburn::col2d::*;
use serde_json::{json, Value};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Pl { pub pos: P, pub ang: f32, pub k: f32 }
impl Pl {
    pub fn id() -> Self { Pl { pos: (0.0, 0.0), ang: 0.0, k: 1.0 } }
    pub fn cs(&self) -> P { ((self.ang as f64).cos(), (self.ang as f64).sin()) }
    pub fn turn(&self, p: P) -> P { let (c, s) = self.cs(); (c * p.0 - s * p.1, s * p.0 + c * p.1) }
    pub fn apply(&self, p: P) -> P { let k = self.k as f64; add(self.turn((k * p.0, k * p.1)), self.pos) }
    /// round the position to f32
    pub fn snap(mut self) -> Self { self.pos = p64(v2(self.pos)); self }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tk { Id, Vec, Tr, Ax, T2, #[cfg(feature = "bevy")] Bevy }

impl Tk {
    /// has a scale
    pub fn scales(self) -> bool { self.turns() || self == Tk::Ax }
    /// has an angle and a scale
    pub fn turns(self) -> bool { !matches!(self, Tk::Id | Tk::Vec | Tk::Tr | Tk::Ax) }
}

pub fn t2(p: &Pl) -> Transform2d {
    Transform2d::from_angle(p.ang).with_translation(v2(p.pos)).with_scale(Vec2::splat(p.k))
}

#[derive(Clone, Debug)]
pub enum Ans { Collides(bool), Pen(Option<Vec2>), Dist(Option<Vec2>), Sdfv(bool, Vec2), Sdf(f32), Fail(&'static str, String) }

fn g(name: &'static str, f: impl FnOnce() -> Ans) -> Ans { match guard(f) { Ok(a) => a, Err(m) => Ans::Fail(name, m) } }

pub fn ask_rel<A, B, T>(a: &A, b: &B, t: &T) -> Vec<Ans>
where A: CollidesRel2d<B, T> + PenetratesRel2d<B, T> + DistanceToRel2d<B, T> + SdfvRel2d<B, T>, T: Transformation2d {
    vec![
        g("collides", || Ans::Collides(a.collides_rel(b, t))),
        g("penetrates", || Ans::Pen(a.penetrates_rel(b, t))),
        g("distance", || Ans::Dist(a.distance_to_rel(b, t))),
        g("sdfv", || { let (c, v) = a.sdfv_rel(b, t); Ans::Sdfv(c, v) }),
    ]
}
pub fn ask_world<A, B, T>(a: &A, ta: &T, b: &B, tb: &T) -> Vec<Ans>
where A: CollidesRel2d<B, T> + PenetratesRel2d<B, T> + DistanceToRel2d<B, T> + SdfvRel2d<B, T>, T: Transformation2d + DeltaTransform {
    // the ways to make a collider
    let ca = Collider2d::new(a, ta);
    let cb: Collider2d<B, T> = (b, tb).into();
    #[allow(clippy::clone_on_copy)]
    let cb = cb.clone();
    vec![
        g("collides", || Ans::Collides(ca.collides(cb))),
        g("penetrates", || Ans::Pen(ca.penetrates(cb))),
        g("distance", || Ans::Dist(ca.distance_to(cb))),
        g("sdfv", || { let (c, v) = ca.sdfv(cb); Ans::Sdfv(c, v) }),
    ]
}
pub fn sdf_rel<A: SdfRel2d<B>, B, T: Transformation2d>(a: &A, b: &B, t: &T) -> Vec<Ans> { vec![g("sdf", || Ans::Sdf(a.sdf_rel(b, t)))] }
pub fn sdf_world<A: SdfRel2d<B>, B, T: Transformation2d + DeltaTransform>(a: &A, ta: &T, b: &B, tb: &T) -> Vec<Ans> {
    vec![g("sdf", || Ans::Sdf(Collider2d::new(a, ta).sdf(Collider2d::new(b, tb))))]
}

pub fn iterative(a: Kind, b: Kind) -> bool {
    use Kind::*;
    !matches!((a, b), (Ball, Ball) | (Ball, Point) | (Box, Point) | (Box, Ball) | (Point, Box) | (Point, Ball) | (Point, Point))
}
pub fn has_sdf(a: Kind, b: Kind) -> bool {
    use Kind::*;
    matches!((a, b), (Ball, Ball) | (Ball, Point) | (Box, Point) | (Box, Ball) | (Point, Point))
}
/// does (b, a) exist as well?
pub fn swappable(a: Kind, b: Kind) -> bool {
    use Kind::*;
    !matches!((a, b), (Point, Point))
}

macro_rules! with_t {
    ($tk:expr, $pl:expr, $t:ident => $body:expr) => {
        match $tk {
            Tk::Id => { let $t = IdentityTransform; $body }
            Tk::Vec => { let $t = v2($pl.pos); $body }
            Tk::Tr => { let $t = Translate2d::new(v2($pl.pos)); $body }
            Tk::Ax => { let $t = AxisTransform2d::new(v2($pl.pos), $pl.k); $body }
            Tk::T2 => { let $t = t2($pl); $body }
            #[cfg(feature = "bevy")]
            Tk::Bevy => { let $t = crate::bv::tb($pl); $body }
        }
    };
}
macro_rules! two_of {
    ($p:expr, $q:expr, $t:ident, $u:ident, $f:expr, $body:expr) => {{
        let x = $f($p);
        let y;
        let ($t, $u) = (&x, if core::ptr::eq($p, $q) { &x } else { y = $f($q); &y });
        $body
    }};
}
macro_rules! with_tt {
    ($tk:expr, $p:expr, $q:expr, $t:ident, $u:ident => $body:expr) => {
        match $tk {
            Tk::Id => panic!("world query under identity"),
            Tk::Vec => two_of!($p, $q, $t, $u, |p: &Pl| v2(p.pos), $body),
            Tk::Tr => two_of!($p, $q, $t, $u, |p: &Pl| Translate2d::new(v2(p.pos)), $body),
            Tk::Ax => two_of!($p, $q, $t, $u, |p: &Pl| AxisTransform2d::new(v2(p.pos), p.k), $body),
            Tk::T2 => two_of!($p, $q, $t, $u, t2, $body),
            #[cfg(feature = "bevy")]
            Tk::Bevy => two_of!($p, $q, $t, $u, crate::bv::tb, $body),
        }
    };
}
/// Both bodies may be one and the same shape, or have one and the same transform.
macro_rules! pair_of {
    ($da:expr, $db:expr, $a:ident, $b:ident, $f:expr, $body:expr) => {{
        let x = $f($da);
        let y;
        let ($a, $b) = (&x, if core::ptr::eq($da, $db) { &x } else { y = $f($db); &y });
        $body
    }};
    ($da:expr, $db:expr, $a:ident, $b:ident, $f:expr, $g:expr, $body:expr) => {{ let (x, y) = ($f($da), $g($db)); let ($a, $b) = (&x, &y); $body }};
}
macro_rules! with_pair {
    ($da:expr, $db:expr, $a:ident, $b:ident => $body:expr, $ptpt:expr, $rev:expr) => {
        match ($da.kind, $db.kind) {
            (Kind::Ball, Kind::Ball) => pair_of!($da, $db, $a, $b, to_ball, $body),
            (Kind::Ball, Kind::Point) => pair_of!($da, $db, $a, $b, to_ball, to_point, $body),
            (Kind::Box, Kind::Point) => pair_of!($da, $db, $a, $b, to_box, to_point, $body),
            (Kind::Box, Kind::Ball) => pair_of!($da, $db, $a, $b, to_box, to_ball, $body),
            (Kind::Ball, Kind::Box) => pair_of!($da, $db, $a, $b, to_ball, to_box, $body),
            (Kind::Box, Kind::Box) => pair_of!($da, $db, $a, $b, to_box, $body),
            (Kind::Box, Kind::Poly) => pair_of!($da, $db, $a, $b, to_box, to_poly, $body),
            (Kind::Poly, Kind::Box) => pair_of!($da, $db, $a, $b, to_poly, to_box, $body),
            (Kind::Poly, Kind::Poly) => pair_of!($da, $db, $a, $b, to_poly, $body),
            (Kind::SBall | Kind::SBox | Kind::SPoly, Kind::SBall | Kind::SBox | Kind::SPoly) => pair_of!($da, $db, $a, $b, to_shape2d, $body),
            (Kind::User, Kind::User) => pair_of!($da, $db, $a, $b, UserShape::new, $body),
            (Kind::User, Kind::Ball) => pair_of!($da, $db, $a, $b, UserShape::new, to_ball, $body),
            (Kind::User, Kind::Box) => pair_of!($da, $db, $a, $b, UserShape::new, to_box, $body),
            (Kind::User, Kind::Poly) => pair_of!($da, $db, $a, $b, UserShape::new, to_poly, $body),
            (Kind::Ball, Kind::User) => pair_of!($da, $db, $a, $b, to_ball, UserShape::new, $body),
            (Kind::Box, Kind::User) => pair_of!($da, $db, $a, $b, to_box, UserShape::new, $body),
            (Kind::Poly, Kind::User) => pair_of!($da, $db, $a, $b, to_poly, UserShape::new, $body),
            (x, y) if x.mine() && y.mine() => pair_of!($da, $db, $a, $b, to_mine, $body),
            (Kind::Point, Kind::Point) => $ptpt,
            (Kind::Point, _) => $rev,
            (x, y) => panic!("no pair {x:?} {y:?}"),
        }
    };
}
fn to_point(_: &Desc) -> Point { Point }

pub fn query_rel(da: &Desc, db: &Desc, tk: Tk, pl: &Pl) -> Vec<Ans> {
    with_t!(tk, pl, t => with_pair!(da, db, a, b => ask_rel(a, b, &t), vec![], query_rel_rev(da, db, tk, pl)))
}
fn query_rel_rev(_da: &Desc, db: &Desc, tk: Tk, pl: &Pl) -> Vec<Ans> {
    macro_rules! go { ($t:expr) => { match db.kind { Kind::Box => ask_rel(&Point, &to_box(db), &$t), Kind::Ball => ask_rel(&Point, &to_ball(db), &$t), _ => panic!("no reversed pair") } } }
    match tk {
        Tk::Id => vec![], // the identity is not invertible here
        Tk::Vec => go!(v2(pl.pos)),
        Tk::Tr => go!(Translate2d::new(v2(pl.pos))),
        Tk::Ax => go!(AxisTransform2d::new(v2(pl.pos), pl.k)),
        Tk::T2 => go!(t2(pl)),
        #[cfg(feature = "bevy")]
        Tk::Bevy => go!(crate::bv::tb(pl)),
    }
}
pub fn query_world(da: &Desc, db: &Desc, tk: Tk, pa: &Pl, pb: &Pl) -> Vec<Ans> {
    with_tt!(tk, pa, pb, t, u => with_pair!(da, db, a, b => ask_world(a, t, b, u), vec![], match db.kind {
        Kind::Box => ask_world(&Point, t, &to_box(db), u),
        Kind::Ball => ask_world(&Point, t, &to_ball(db), u),
        _ => panic!("no reversed pair"),
    }))
}
macro_rules! with_scalar_pair {
    ($da:expr, $db:expr, $a:ident, $b:ident => $body:expr) => {
        match ($da.kind, $db.kind) {
            (Kind::Ball, Kind::Ball) => pair_of!($da, $db, $a, $b, to_ball, $body),
            (Kind::Ball, Kind::Point) => pair_of!($da, $db, $a, $b, to_ball, to_point, $body),
            (Kind::Box, Kind::Point) => pair_of!($da, $db, $a, $b, to_box, to_point, $body),
            (Kind::Box, Kind::Ball) => pair_of!($da, $db, $a, $b, to_box, to_ball, $body),
            (Kind::Point, Kind::Point) => pair_of!($da, $db, $a, $b, to_point, $body),
            _ => vec![],
        }
    };
}
pub fn query_sdf_rel(da: &Desc, db: &Desc, tk: Tk, pl: &Pl) -> Vec<Ans> {
    with_t!(tk, pl, t => with_scalar_pair!(da, db, a, b => sdf_rel(a, b, &t)))
}
pub fn query_sdf_world(da: &Desc, db: &Desc, tk: Tk, pa: &Pl, pb: &Pl) -> Vec<Ans> {
    with_tt!(tk, pa, pb, t, u => with_scalar_pair!(da, db, a, b => sdf_world(a, t, b, u)))
}

// ------------------------------------------------------------------ records

/// Lattice of a session: `unit` is the size of one lattice step.
#[derive(Clone, Copy)]
/// The lattice a session is recorded on: step, and where in the world it is.
pub struct Lat { pub unit: f64, pub origin: P }
impl Lat {
    pub fn of(unit: f64) -> Self { Lat { unit, origin: (0.0, 0.0) } }
    pub fn at(unit: f64, origin: P) -> Self { Lat { unit, origin } }
    pub fn q(&self, x: f64) -> i64 { (x / self.unit).round() as i64 }
    pub fn p(&self, p: P) -> Value { json!([self.q(p.0), self.q(p.1)]) }
    /// direction (components x 16384) and length (lattice steps) of an answer
    pub fn vec(&self, v: Vec2) -> Result<(Value, i64), &'static str> {
        if !v.is_finite() { return Err("nan"); }
        let p = p64(v);
        let l = len(p);
        if l > 30000.0 * self.unit { return Err("big"); }
        if l == 0.0 { return Ok((json!([0, 0]), 0)); }
        let f = |x: f64| (x / l * 16384.0).round() as i64;
        Ok((json!([f(p.0), f(p.1)]), self.q(l)))
    }
    pub fn body(&self, i: usize, d: &Desc, pl: &Pl) -> Value {
        let m = body_unit(pl);
        let h: Vec<Value> = d.hull.iter().map(|p| self.p((m * p.0, m * p.1))).collect();
        json!({"e": "body", "i": i, "p": h, "r": self.q(m * d.r), "T": self.pl(pl)})
    }
    pub fn pl(&self, pl: &Pl) -> Value {
        let (c, s) = pl.cs();
        let f = |x: f64| (x * 16384.0).round() as i64;
        json!([f(c), f(s), f(pl.k as f64 / body_unit(pl)), self.q(pl.pos.0 - self.origin.0), self.q(pl.pos.1 - self.origin.1)])
    }
    pub fn ans(&self, a: &Ans, sw: bool, inv: i64) -> Value {
        match a {
            Ans::Collides(b) => json!({"e": "collides", "b": b, "sw": sw}),
            Ans::Pen(None) => json!({"e": "penetrates", "some": false, "n": [0, 0], "m": 0, "sw": sw, "inv": inv}),
            Ans::Dist(None) => json!({"e": "distance", "some": false, "n": [0, 0], "m": 0, "sw": sw, "inv": inv}),
            Ans::Pen(Some(v)) => match self.vec(*v) {
                Ok((n, m)) => json!({"e": "penetrates", "some": true, "n": n, "m": m, "sw": sw, "inv": inv}),
                Err(m) => json!({"e": "bad", "q": "penetrates", "b": true, "why": m, "sw": sw}),
            },
            Ans::Dist(Some(v)) => match self.vec(*v) {
                Ok((n, m)) => json!({"e": "distance", "some": true, "n": n, "m": m, "sw": sw, "inv": inv}),
                Err(m) => json!({"e": "bad", "q": "distance", "b": false, "why": m, "sw": sw}),
            },
            Ans::Sdfv(b, v) => match self.vec(*v) {
                Ok((n, m)) => json!({"e": "sdfv", "b": b, "n": n, "m": m, "sw": sw, "inv": inv}),
                Err(m) => json!({"e": "bad", "q": "sdfv", "b": b, "why": m, "sw": sw}),
            },
            Ans::Sdf(x) => if x.is_finite() && (*x as f64).abs() < 26000.0 * self.unit { json!({"e": "sdf", "x": self.q(*x as f64), "inv": inv}) }
                else { json!({"e": "bad", "q": "sdf", "b": *x < 0.0, "why": "nan", "sw": sw}) },
            Ans::Fail(q, m) => json!({"e": "bad", "q": q, "b": false, "why": if m.contains("RUNAWAY") { "runaway" } else { "panic" }, "sw": sw}),
        }
    }
}

/// A body is described in units of its own: lattice steps, unless its scale would magnify
/// their rounding, or is extreme; then in steps about as large (or small) as its scale makes them.
pub fn body_unit(pl: &Pl) -> f64 {
    match pl.k as f64 { k if k < 0.19 || k > 5.1 => k, k if k > 1.45 => 2f64.powi(k.log2().round() as i32), _ => 1.0 }
}
pub fn extent_local(d: &Desc) -> f64 { d.hull.iter().fold(0.0f64, |m, p| m.max(p.0.abs()).max(p.1.abs())) + d.r }
pub fn extent_placed(d: &Desc, pl: &Pl) -> f64 {
    d.hull.iter().map(|p| pl.apply(*p)).fold(0.0f64, |m, p| m.max(p.0.abs()).max(p.1.abs())) + d.r * pl.k as f64
}
pub fn support(d: &Desc, pl: &Pl, dir: P) -> f64 {
    d.hull.iter().map(|p| dot(pl.apply(*p), dir)).fold(f64::MIN, f64::max) + d.r * pl.k as f64 * len(dir)
}

// --------------------------------------------------------------- generation

pub const CLOSED: &[(Kind, Kind)] = &[(Kind::Ball, Kind::Ball), (Kind::Ball, Kind::Point), (Kind::Box, Kind::Point), (Kind::Box, Kind::Ball), (Kind::Point, Kind::Box), (Kind::Point, Kind::Ball)];
pub const SCALAR: &[(Kind, Kind)] = &[(Kind::Ball, Kind::Ball), (Kind::Ball, Kind::Point), (Kind::Box, Kind::Point), (Kind::Box, Kind::Ball), (Kind::Point, Kind::Point)];
pub const ITER: &[(Kind, Kind)] = &[(Kind::Ball, Kind::Box), (Kind::Box, Kind::Box), (Kind::Box, Kind::Poly), (Kind::Poly, Kind::Box), (Kind::Poly, Kind::Poly), (Kind::Poly, Kind::Poly),
    (Kind::SBall, Kind::SBall), (Kind::SBall, Kind::SBox), (Kind::SBall, Kind::SPoly), (Kind::SBox, Kind::SBall), (Kind::SBox, Kind::SBox), (Kind::SBox, Kind::SPoly), (Kind::SPoly, Kind::SBall), (Kind::SPoly, Kind::SBox), (Kind::SPoly, Kind::SPoly)];

const MINE: &[Kind] = &[Kind::MPoint, Kind::MBall, Kind::MBall, Kind::MBox, Kind::MBox, Kind::MPoly, Kind::MPoly, Kind::MPoly, Kind::MBlob];
const HOST: &[Kind] = &[Kind::User, Kind::User, Kind::User, Kind::Ball, Kind::Box, Kind::Poly];
/// a pair of a union declared by a user
pub fn union_pair(rng: &mut Rng) -> (Kind, Kind) {
    let (a, b) = (*rng.pick(MINE), *rng.pick(MINE));
    if a == b && a == Kind::MPoint { (a, Kind::MBox) } else { (a, b) }
}
/// a pair with at least one shape known by its support function only
pub fn user_pair(rng: &mut Rng) -> (Kind, Kind) {
    let k = *rng.pick(HOST);
    if rng.chance(0.5) { (Kind::User, k) } else { (k, Kind::User) }
}

pub fn random_tk(rng: &mut Rng, world: bool) -> Tk {
    #[cfg(feature = "bevy")]
    return Tk::Bevy;
    #[cfg(not(feature = "bevy"))]
    match rng.below(if world { 9 } else { 10 }) { 0 | 1 => Tk::Vec, 2 => Tk::Tr, 3 | 4 => Tk::Ax, 9 => Tk::Id, _ => Tk::T2 }
}
pub fn random_angle(rng: &mut Rng) -> f32 {
    use std::f32::consts::*;
    match rng.below(8) {
        0 => *rng.pick(&[0.0, FRAC_PI_2, PI, -FRAC_PI_2, -PI, 3.0 * FRAC_PI_2, FRAC_PI_4, -FRAC_PI_4]),
        1 => rng.range(-0.01, 0.01) as f32,
        2 => rng.range(-20.0, 20.0) as f32,
        _ => rng.range(-3.2, 3.2) as f32,
    }
}
pub fn random_scale(rng: &mut Rng) -> f32 {
    match rng.below(4) { 0 => 1.0, 1 => *rng.pick(&[0.5, 2.0, 0.25, 4.0, 3.0]), _ => rng.log(0.2, 5.0) as f32 }
}
pub fn pl_of(rng: &mut Rng, tk: Tk, pos: P) -> Pl {
    let mut p = Pl { pos, ang: 0.0, k: 1.0 };
    match tk { Tk::Id => p.pos = (0.0, 0.0), Tk::Ax => p.k = random_scale(rng), _ if tk.turns() => { p.ang = random_angle(rng); p.k = random_scale(rng); } _ => {} }
    p.snap()
}
pub fn random_unit(rng: &mut Rng) -> f64 { if rng.chance(0.1) { return rng.log(1e-9, 1e9); } *rng.pick(&[1.0, 1.0, 1.0, 0.25, 10.0, 0.05, 0.02, 37.0, 1000.0, 1.0e4, 1.0e-3, 3.0e5]) }
/// relative size of a shape
pub fn random_share(rng: &mut Rng) -> f64 { if rng.chance(0.1) { rng.log(0.01, 1.0) } else { rng.log(0.15, 1.0) } }

/// Places `b` relative to a placed `a`.
pub fn random_pos(rng: &mut Rng, da: &Desc, pa: &Pl, db: &Desc, pb: &Pl, lattice: bool, size: f64, mode: &str) -> P {
    let ra = extent_placed(da, &Pl { pos: (0.0, 0.0), ..*pa }).max(1e-9 * size);
    let rb = extent_placed(db, &Pl { pos: (0.0, 0.0), ..*pb });
    let th = match rng.below(4) { 0 => rng.int(0, 7) as f64 * std::f64::consts::FRAC_PI_4, _ => rng.range(0.0, 6.2832) };
    let dir = (th.cos(), th.sin());
    let pick = match mode { "c02" => *rng.pick(&[0, 0, 1, 1, 5, 6, 7, 9, 9, 9, 9, 9, 8]), "c03" => *rng.pick(&[2, 2, 3, 4, 4, 5, 6, 7, 8, 9, 9]), _ => rng.below(12) };
    let off = match pick {
        0 => { let r = if rng.chance(0.2) { rng.log(1e-44, 1e-5 * ra) } else { 0.0 }; (dir.0 * r, dir.1 * r) } // concentric, or all but
        1 => { let r = 0.1 * rng.f() * ra.min(rb.max(0.05 * ra)); (dir.0 * r, dir.1 * r) }
        2 | 3 => { let r = rng.range(1.2, 6.0) * (ra + rb); (dir.0 * r, dir.1 * r) } // apart
        4 => { let far = if rng.chance(0.2) { 200.0 } else { 20.0 }; let r = rng.log(2.0, far) * (ra + rb); (dir.0 * r, dir.1 * r) }      // far
        5 | 6 | 7 => {                                               // near contact along dir
            let h = support(da, &Pl { pos: (0.0, 0.0), ..*pa }, dir) + support(db, &Pl { pos: (0.0, 0.0), ..*pb }, (-dir.0, -dir.1));
            let d = *rng.pick(&[-1.0, 1.0]) * rng.log(0.003, 0.3);
            let r = h * (1.0 + d); let t = if rng.chance(0.5) { 0.0 } else { rng.range(-0.5, 0.5) * (ra + rb) };
            (dir.0 * r - dir.1 * t, dir.1 * r + dir.0 * t)
        }
        8 => if rng.chance(0.5) { ((ra + rb) * rng.range(-1.5, 1.5), 0.0) } else { (0.0, (ra + rb) * rng.range(-1.5, 1.5)) },
        _ => ((ra + rb) * rng.range(-1.4, 1.4), (ra + rb) * rng.range(-1.4, 1.4)),
    };
    let p = add(pa.pos, off);
    if lattice { let u = size / 4.0; ((p.0 / u).round() * u, (p.1 / u).round() * u) } else { p }
}

pub struct Opts { pub n: u64, pub seed: u64, pub only: Option<u64>, pub tier_thorough: bool, pub feed: Option<String> }
impl Opts {
    /// session numbers with their random source
    pub fn sessions(&self) -> Vec<(u64, Rng)> {
        self.sessions_n(self.n)
    }
    pub fn sessions_n(&self, n: u64) -> Vec<(u64, Rng)> {
        (0..n).filter(|id| self.only.map_or(true, |k| k == *id))
            .map(|id| (id, Rng::new(self.seed.wrapping_mul(1_000_003).wrapping_add(id)))).collect()
    }
}

/// `mode`: which mix of pairs and frames.
pub fn run(out: &mut Out, mode: &str, o: &Opts) {
    let closed_share = match mode { "c04" => 1.0, "c05" => 0.4, _ => 0.3 };
    for (id, mut rng) in o.sessions() {
        let world = match mode { "c05" => true, "t04" => rng.chance(0.5), _ => rng.chance(0.25) };
        let (ka, kb) = if mode == "c04" { *rng.pick(SCALAR) } else if mode == "c07" { if rng.chance(0.1) { (Kind::MBlob, *rng.pick(MINE)) } else { user_pair(&mut rng) } }
            else if rng.chance(0.08) { union_pair(&mut rng) }
            else if rng.chance(closed_share) { *rng.pick(CLOSED) } else { *rng.pick(ITER) };
        session(out, id, &mut rng, ka, kb, world, mode);
    }
}

/// a shape without area, where there is one
pub fn flat(rng: &mut Rng, kind: Kind, size: f64) -> Desc {
    let mut d = match kind {
        Kind::Ball | Kind::SBall => ball(0.0),
        Kind::Box | Kind::SBox => if rng.chance(0.5) { rect(size, 0.0) } else { rect(0.0, size) },
        _ => return random_shape(rng, kind, size, false, 9),
    };
    d.kind = kind;
    d
}
pub fn maxn(rng: &mut Rng) -> i64 { if rng.chance(0.003) { return rng.int(260, 400); } match rng.below(60) { 0 => 150, 1..=4 => 32, 5..=9 => 16, _ => 9 } }

fn session(out: &mut Out, id: u64, rng: &mut Rng, ka: Kind, kb: Kind, world: bool, mode: &str) {
    let size = random_unit(rng);
    let lattice = rng.chance(0.25);
    let (mut sa, mut sb) = if lattice { (size, size * *rng.pick(&[0.5, 1.0, 2.0])) } else { (size * random_share(rng), size * random_share(rng)) };
    let (ma, mb) = (maxn(rng), maxn(rng));
    let mut tk = random_tk(rng, world);
    if lattice && rng.chance(0.6) && tk != Tk::Id && mode != "t04" { tk = Tk::Vec; }
    let (mut pa, mut pb) = if world {
        let w = size * rng.range(0.0, 3.0);
        let p0 = (rng.range(-w, w), rng.range(-w, w));
        (pl_of(rng, tk, p0), pl_of(rng, tk, (0.0, 0.0)))
    } else { (Pl::id(), pl_of(rng, tk, (0.0, 0.0))) };
    // extreme scales, of shapes as much smaller or larger
    if pb.k != 1.0 && rng.chance(0.15) {
        if world && pa.k != 1.0 { pa.k = rng.log(0.01, 100.0) as f32; sa /= pa.k as f64; }
        pb.k = rng.log(0.01, 100.0) as f32; sb /= pb.k as f64;
    }
    let da = if rng.chance(0.02) { flat(rng, ka, sa) } else { random_shape(rng, ka, sa, lattice, ma) };
    let own = if rng.chance(0.02) { flat(rng, kb, sb) } else { random_shape(rng, kb, sb, lattice, mb) };
    // both bodies one and the same shape, or even in one and the same place
    let shared = ka == kb && rng.chance(0.15) && pb.k > 0.19 && pb.k < 5.1 && pa.k > 0.19 && pa.k < 5.1;
    let db = if shared { &da } else { &own };
    if tk != Tk::Id { pb.pos = if !world && rng.chance(0.08) { crate::calls::awkward(rng, &da, db, &pb, size) } else { random_pos(rng, &da, &pa, db, &pb, lattice, size, mode) }; pb = pb.snap(); }
    let same = world && tk != Tk::Id && rng.chance(0.02);
    if same { pb = pa; }
    let ext = extent_placed(&da, &pa).max(extent_placed(db, &pb)).max(extent_local(&da) * body_unit(&pa)).max(extent_local(db) * body_unit(&pb));
    if ext <= 1e-4 * size { return; } // nothing of any size
    // far from the world's origin
    let mut home = (0.0, 0.0);
    if world && rng.chance(0.15) {
        let (r, th) = (ext * rng.log(10.0, 300.0), rng.range(0.0, 6.2832));
        home = p64(v2((r * th.cos(), r * th.sin())));
        pa.pos = add(pa.pos, home); pb.pos = add(pb.pos, home);
        pa = pa.snap(); pb = pb.snap();
    }
    let (pa, pb) = (&pa, if same { &pa } else { &pb });
    let lat = Lat::at(ext / 9000.0, home);
    let desc = format!("{mode} #{id}: A={:?} r={} {:?} at {:?}; B={:?} r={} {:?} at {:?}; transform {:?}, world={}", da.kind, da.r, da.raw, pa, db.kind, db.r, db.raw, pb, tk, world);
    note(desc.clone());
    let inv = if iterative(ka, kb) { 64 } else { 1024 };
    let (mut ans, sdf) = if world { (query_world(&da, db, tk, pa, pb), query_sdf_world(&da, db, tk, pa, pb)) }
        else { (query_rel(&da, db, tk, pb), query_sdf_rel(&da, db, tk, pb)) };
    ans.extend(sdf);
    if ans.is_empty() { return; }
    out.begin(id, &desc);
    out.put(lat.body(1, &da, pa));
    out.put(lat.body(2, db, pb));
    out.put(json!({"e": "focus", "i": 1, "j": 2}));
    for a in &ans { out.put(lat.ans(a, false, inv)); }
    if world && swappable(ka, kb) {
        let inv2 = if iterative(kb, ka) { 64 } else { 1024 };
        if std::matches!((kb, ka), (Kind::Poly, Kind::Ball) | (Kind::Ball, Kind::Poly)) { return; }
        for a in &query_world(db, &da, tk, pb, pa) { out.put(lat.ans(a, true, inv2)); }
    }
    if world && mode == "c05" {
        // the same pair after a common rigid motion
        let m = Pl { pos: (size * rng.range(-2.0, 2.0), size * rng.range(-2.0, 2.0)), ang: if tk.turns() { random_angle(rng) } else { 0.0 }, k: 1.0 };
        let mv = |p: &Pl| Pl { pos: m.apply(sub(p.pos, home)), ang: p.ang + m.ang, k: p.k };
        let (qa, qb) = (mv(pa), mv(pb));
        let near = extent_placed(&da, &qa).max(extent_placed(db, &qb)) < 12500.0 * lat.unit;
        let back = |p: Pl| Pl { pos: add(p.pos, home), ..p }.snap();
        let (qa, qb) = (back(qa), back(qb));
        if near {
            out.put(json!({"e": "move", "i": 1, "T": lat.pl(&qa)}));
            out.put(json!({"e": "move", "i": 2, "T": lat.pl(&qb)}));
            out.put(json!({"e": "focus", "i": 1, "j": 2}));
            for a in &query_world(&da, db, tk, &qa, &qb) { out.put(lat.ans(a, false, inv)); }
            for a in &query_sdf_world(&da, db, tk, &qa, &qb) { out.put(lat.ans(a, false, inv)); }
        }
        return;
    }
    if same || tk == Tk::Id || !rng.chance(0.2) { return; }
    // the same question again with one thing other than before
    let mut q = *pb;
    let mut other = None;
    match rng.below(4) {
        0 if tk.scales() => q.k *= *rng.pick(&[0.5, 0.7, 0.9, 1.1, 1.3]),
        1 if tk.turns() => q.ang = random_angle(rng),
        2 if !world => { q.pos = *rng.pick(&[(-q.pos.0, q.pos.1), (q.pos.0, -q.pos.1), (q.pos.1, q.pos.0), (1.25 * q.pos.0, 1.25 * q.pos.1), (0.8 * q.pos.0, 0.8 * q.pos.1)]); q = q.snap(); }
        _ => { let by = *rng.pick(&[0.5, 0.9, 1.0, 1.2]); other = Some(random_shape(rng, kb, by * extent_local(db).max(1e-3 * size / pb.k as f64), lattice, mb)); }
    }
    let db = other.as_ref().unwrap_or(db);
    if extent_placed(db, &q).max(extent_local(db) * body_unit(&q)) > 12500.0 * lat.unit { return; }
    out.put(lat.body(2, db, &q));
    out.put(json!({"e": "focus", "i": 1, "j": 2}));
    let (ans, sdf) = if world { (query_world(&da, db, tk, pa, &q), query_sdf_world(&da, db, tk, pa, &q)) }
        else { (query_rel(&da, db, tk, &q), query_sdf_rel(&da, db, tk, &q)) };
    for a in ans.iter().chain(&sdf) { out.put(lat.ans(a, false, inv)); }
}

// ------------------------------------------------------------ histories

/// Bodies moving, turning, being pushed apart and pulled together.
pub fn run_histories(out: &mut Out, o: &Opts) {
    use Kind::*;
    const FAMILIES: &[&[Kind]] = &[&[Ball, Box], &[Ball, Box], &[Box, Poly], &[Poly], &[Box, Poly, Poly], &[SBall, SBox, SPoly], &[SBall, SBox, SPoly], &[User], &[Point, Box, Ball], &[MBall, MBox, MPoly, MBlob], &[MPoint, MBlob]];
    for (id, mut rng) in o.sessions() {
        let rng = &mut rng;
        let size = random_unit(rng);
        let fam = *rng.pick(FAMILIES);
        let n = rng.int(2, 4) as usize;
        #[cfg(feature = "bevy")]
        let tk = Tk::Bevy;
        #[cfg(not(feature = "bevy"))]
        let tk = *rng.pick(&[Tk::Vec, Tk::Tr, Tk::Ax, Tk::T2, Tk::T2, Tk::T2]);
        let lattice = rng.chance(0.2);
        let mut points = 0;
        let ks: Vec<(Kind, f64)> = (0..n).map(|_| {
            let mut k = *rng.pick(fam);
            if k == Point { points += 1; if points > 1 { k = Box; } }
            if k == MPoint { points += 1; if points > 1 { k = MBlob; } }
            let s = if lattice { size * *rng.pick(&[0.5, 1.0]) } else { size * rng.log(0.2, 1.0) };
            (k, s)
        }).collect();
        let w = 3.5 * size;
        // extreme scales, of shapes as much smaller or larger; far from the world's origin
        let extreme = rng.chance(0.15);
        let mut pl: Vec<Pl> = (0..n).map(|_| { let mut p = pl_of(rng, tk, (0.0, 0.0)); p.k = if extreme && p.k != 1.0 { rng.log(0.01, 100.0) as f32 } else { p.k.clamp(0.4, 2.0) }; p }).collect();
        let mut ds: Vec<std::rc::Rc<Desc>> = ks.iter().zip(&pl).map(|(&(k, s), p)| {
            let s = if extreme { s / p.k as f64 } else { s };
            let m = if k == User { 6 } else { maxn(rng).min(40) };
            std::rc::Rc::new(random_shape(rng, k, s, lattice, m))
        }).collect();
        // bodies that are one and the same shape
        if !extreme && rng.chance(0.25) { for i in 1..n { if ds[i].kind == ds[0].kind { ds[i] = ds[0].clone(); } } }
        let home = if rng.chance(0.2) { let (r, th) = (size * rng.log(10.0, 600.0), rng.range(0.0, 6.2832)); p64(v2((r * th.cos(), r * th.sin()))) } else { (0.0, 0.0) };
        let place = |rng: &mut Rng, pl: &Vec<Pl>, i: usize| -> P {
            if rng.chance(0.6) && n > 1 { // near another body
                let j = (i + 1 + rng.below(n as u64 - 1) as usize) % n;
                let p = random_pos(rng, &ds[j], &pl[j], &ds[i], &pl[i], lattice, size, "h01");
                let p = sub(p, home);
                return add((p.0.clamp(-2.0 * w, 2.0 * w), p.1.clamp(-2.0 * w, 2.0 * w)), home);
            }
            add((rng.range(-w, w), rng.range(-w, w)), home)
        };
        for i in 0..n { pl[i].pos = place(rng, &pl, i); pl[i] = pl[i].snap(); }
        let lat = Lat::at(11.0 * size / 9000.0, home);
        let desc = format!("h01 #{id}: {:?} under {tk:?}: {:?} at {pl:?}", ds.iter().map(|d| d.kind).collect::<Vec<_>>(), ds.iter().map(|d| (d.r, &d.raw)).collect::<Vec<_>>());
        out.begin(id, &desc);
        for i in 0..n { out.put(lat.body(i + 1, &ds[i], &pl[i])); }
        let mut last: Option<(usize, usize)> = None;
        let steps = if rng.chance(0.02) { rng.int(30, 60) } else { rng.int(4, 12) };
        for _ in 0..steps {
            let i = rng.below(n as u64) as usize;
            let j = (i + 1 + rng.below(n as u64 - 1) as usize) % n;
            match rng.below(10) {
                0 => { pl[i].pos = place(rng, &pl, i); pl[i] = pl[i].snap(); out.put(json!({"e": "move", "i": i + 1, "T": lat.pl(&pl[i])})); }
                1 if tk.turns() => { pl[i].ang = random_angle(rng); out.put(json!({"e": "move", "i": i + 1, "T": lat.pl(&pl[i])})); }
                2 | 3 => { // ask, perhaps about the pair just resolved
                    let (i, j) = match last { Some((a, b)) if rng.chance(0.6) => if rng.chance(0.5) { (a, b) } else { (b, a) }, _ => (i, j) };
                    ask_all(out, &lat, &ds, &pl, tk, i, j);
                }
                _ => {
                    let (i, j) = if rng.chance(0.3) { last.unwrap_or((i, j)) } else { (i, j) };
                    if ds[i].kind == Point && ds[j].kind == Point { continue; }
                    ask_all(out, &lat, &ds, &pl, tk, i, j);
                    // move i by a vector the library gives
                    let a = query_world(&ds[i], &ds[j], tk, &pl[i], &pl[j]);
                    let v = match (&a[1], &a[2], &a[3], rng.chance(0.5)) {
                        (_, _, Ans::Sdfv(_, v), true) => *v,
                        (Ans::Pen(Some(v)), _, _, _) => *v,
                        (_, Ans::Dist(Some(v)), _, _) => *v,
                        _ => continue,
                    };
                    let Ok((dir, m)) = lat.vec(v) else { continue };
                    let q = pl[i].pos;
                    let t = v2(q) + v;
                    if len(sub(p64(t), home)) > 2.9 * w { continue; }
                    pl[i].pos = p64(t);
                    let inv = if iterative(ds[i].kind, ds[j].kind) { 64 } else { 1024 };
                    out.put(json!({"e": "push", "n": dir, "m": m, "T": lat.pl(&pl[i]), "inv": inv}));
                    last = Some((i, j));
                    if rng.chance(0.8) { if rng.chance(0.7) { ask_all(out, &lat, &ds, &pl, tk, i, j) } else { ask_all(out, &lat, &ds, &pl, tk, j, i) } }
                }
            }
        }
    }
}
fn ask_all(out: &mut Out, lat: &Lat, ds: &[std::rc::Rc<Desc>], pl: &[Pl], tk: Tk, i: usize, j: usize) {
    let (ka, kb) = (ds[i].kind, ds[j].kind);
    let inv = if iterative(ka, kb) { 64 } else { 1024 };
    out.put(json!({"e": "focus", "i": i + 1, "j": j + 1}));
    for a in query_world(&ds[i], &ds[j], tk, &pl[i], &pl[j]).iter().chain(&query_sdf_world(&ds[i], &ds[j], tk, &pl[i], &pl[j])) {
        out.put(lat.ans(a, false, inv));
    }
}
