//! Random shapes, as inputs for the library and as exact descriptions.
use crate::util::*;
use auburn::col2d::*;
use std::cell::RefCell;

/// Description: convex counter-clockwise hull inflated by a radius, in the
/// shape's own space, plus the vertex list actually given to the library.
#[derive(Clone, Debug)]
pub struct Desc {
    pub kind: Kind,
    pub hull: Vec<P>,
    pub r: f64,
    pub raw: Vec<Vec2>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Point, Ball, Box, Poly, SBall, SBox, SPoly, User, MPoint, MBall, MBox, MPoly, MBlob }
impl Kind {
    /// one of the shapes of a union declared here, by the library's macro
    pub fn mine(self) -> bool { matches!(self, Kind::MPoint | Kind::MBall | Kind::MBox | Kind::MPoly | Kind::MBlob) }
    pub fn inner(self) -> Kind {
        match self { Kind::MPoint => Kind::Point, Kind::MBall | Kind::SBall => Kind::Ball, Kind::MBox | Kind::SBox => Kind::Box, Kind::MPoly | Kind::SPoly => Kind::Poly, Kind::MBlob => Kind::User, k => k }
    }
}

/// A shape known to the library only by its support function, logging how it
/// is used.
#[derive(Debug)]
pub struct UserShape {
    pub pts: Vec<Vec2>,
    pub r: f32,
    pub log: RefCell<Vec<(Vec2, Vec2)>>,
}
impl UserShape {
    pub fn new(d: &Desc) -> Self {
        UserShape { pts: d.raw.clone(), r: d.r as f32, log: RefCell::new(vec![]) }
    }
}
impl ExtremePoint2d for UserShape {
    fn extreme_point(&self, direction: Vec2) -> Vec2 {
        let mut best = self.pts[0];
        for p in &self.pts {
            if p.dot(direction) > best.dot(direction) { best = *p; }
        }
        let n = len(p64(direction));
        let out = if n > 0.0 { best + self.r * v2((direction.x as f64 / n, direction.y as f64 / n)) } else { best };
        self.log.borrow_mut().push((direction, out));
        if self.log.borrow().len() > 5000 { panic!("RUNAWAY: more than 5000 support evaluations"); }
        out
    }
}
impl<T: Transformation2d> ExtremePointT2d<T> for UserShape {}
impl DefaultMinkowski<UserShape> for UserShape {}

// user-defined shapes against the library's own
impl DefaultMinkowski<Ball> for UserShape {}
impl DefaultMinkowski<Box2d> for UserShape {}
impl DefaultMinkowski<Poly2d> for UserShape {}
impl DefaultMinkowski<UserShape> for Ball {}
impl DefaultMinkowski<UserShape> for Box2d {}
impl DefaultMinkowski<UserShape> for Poly2d {}

/// A user-defined shape for use in a union.
#[derive(Debug, Clone)]
pub struct Blob { pts: Vec<Vec2>, r: f32 }
impl ExtremePoint2d for Blob {
    fn extreme_point(&self, direction: Vec2) -> Vec2 {
        let mut best = self.pts[0];
        for p in &self.pts {
            if p.dot(direction) > best.dot(direction) { best = *p; }
        }
        let n = len(p64(direction));
        if n > 0.0 { best + self.r * v2((direction.x as f64 / n, direction.y as f64 / n)) } else { best }
    }
}
auburn::shape_union!(Mine; Point, Ball, Box2d, Poly2d, Blob);

pub fn v2(p: P) -> Vec2 { Vec2::new(p.0 as f32, p.1 as f32) }
pub fn p64(v: Vec2) -> P { (v.x as f64, v.y as f64) }

pub fn ball(r: f64) -> Desc {
    let r = r as f32 as f64;
    Desc { kind: Kind::Ball, hull: vec![(0.0, 0.0)], r, raw: vec![Vec2::ZERO] }
}
pub fn point() -> Desc { Desc { kind: Kind::Point, hull: vec![(0.0, 0.0)], r: 0.0, raw: vec![Vec2::ZERO] } }
pub fn rect(x: f64, y: f64) -> Desc {
    let (x, y) = (x as f32 as f64, y as f32 as f64);
    let h = vec![(-x, -y), (x, -y), (x, y), (-x, y)];
    Desc { kind: Kind::Box, raw: h.iter().map(|p| v2(*p)).collect(), hull: h, r: 0.0 }
}
/// A polygon without an inside: a segment, or a single point, at the origin.
fn flat(h: Vec<P>) -> Option<Desc> {
    let through = h.len() == 1 && h[0] == (0.0, 0.0)
        || h.len() == 2 && cross(h[0], h[1]) == 0.0 && h[0].0 * h[1].0 + h[0].1 * h[1].1 <= 0.0;
    if !through { return None; }
    Some(Desc { kind: Kind::Poly, raw: h.iter().map(|p| v2(*p)).collect(), hull: h, r: 0.0 })
}
/// Polygon from points (made f32-exact first); must contain the origin.
pub fn poly(pts: Vec<P>, rng: &mut Rng) -> Option<Desc> {
    let pts: Vec<P> = pts.iter().map(|p| p64(v2(*p))).collect();
    let h = hull(pts);
    if h.len() < 3 { return flat(h); }
    let n = h.len();
    // origin inside or on the boundary
    for i in 0..n {
        if cross(sub(h[(i + 1) % n], h[i]), sub((0.0, 0.0), h[i])) < 0.0 { return None; }
    }
    let mut raw: Vec<Vec2> = h.iter().map(|p| v2(*p)).collect();
    // corners given twice, and points that are no corners
    if rng.chance(0.12) {
        // now and then a long list, most of it no corners
        let more = if rng.chance(0.05) { rng.log(30.0, 1500.0) as i64 } else { rng.int(1, 4) };
        for _ in 0..more {
            let p = *rng.pick(&raw);
            raw.push(match rng.below(3) { 0 => p, 1 => p * 0.75, _ => p * rng.range(0.0, 0.9) as f32 });
        }
    }
    match rng.below(4) { 0 => rng.shuffle(&mut raw), 1 => raw.reverse(), 2 => { let k = rng.below(n as u64) as usize; raw.rotate_left(k) } _ => {} }
    Some(Desc { kind: Kind::Poly, hull: h, r: 0.0, raw })
}

/// A random convex polygon around the origin of roughly the given size.
pub fn random_poly(rng: &mut Rng, size: f64, maxn: i64, lattice: bool) -> Desc {
    loop {
        if rng.chance(0.05) { // flat
            let a = rng.range(0.0, 6.3); let f = rng.f();
            let g = |x: f64| if lattice { (4.0 * x).round() / 4.0 } else { x };
            let p = if rng.chance(0.1) { (0.0, 0.0) } else { p64(v2((size * g(a.cos()), size * g(a.sin())))) };
            // the other end exactly opposite
            let k = if lattice { 1.0 } else { (4.0 * f).round() / 4.0 };
            if let Some(d) = poly(vec![p, (-k * p.0, -k * p.1)], rng) { return d; }
        }
        let style = rng.below(8);
        let pts: Vec<P> = match style {
            0 if !lattice => { // regular-like
                let n = rng.int(3, maxn.max(3)); let a0 = rng.range(0.0, 6.3);
                (0..n).map(|i| { let a = a0 + 6.283185307179586 * i as f64 / n as f64; (size * a.cos(), size * a.sin()) }).collect()
            }
            1 if !lattice => { // sliver
                let a = rng.range(0.0, 6.3); let t = rng.log(0.01, 0.3);
                let (c, s) = (a.cos(), a.sin());
                let raw = [(-rng.range(0.2, 1.0), -t * rng.f()), (rng.range(0.2, 1.0), -t * rng.f()), (rng.range(-0.9, 0.9), t)];
                raw.iter().map(|p| (size * (c * p.0 - s * p.1), size * (s * p.0 + c * p.1))).collect()
            }
            2 if !lattice => { // on an ellipse
                let n = rng.int(3, maxn.max(3)); let e = rng.range(0.15, 1.0); let a0 = rng.range(0.0, 6.3);
                let mut angs: Vec<f64> = (0..n).map(|_| rng.range(0.0, 6.283)).collect(); angs.sort_by(|a, b| a.partial_cmp(b).unwrap());
                angs.iter().map(|t| { let (x, y) = (t.cos(), e * t.sin()); (size * (a0.cos() * x - a0.sin() * y), size * (a0.sin() * x + a0.cos() * y)) }).collect()
            }
            _ => {
                let n = rng.int(3, maxn.min(9).max(3));
                let g = if lattice { rng.int(2, 6) as f64 } else { 1000.0 };
                (0..n).map(|_| (size * rng.int(-(g as i64), g as i64) as f64 / g, size * rng.int(-(g as i64), g as i64) as f64 / g)).collect()
            }
        };
        if let Some(d) = poly(pts, rng) { return d; }
    }
}

pub fn random_shape(rng: &mut Rng, kind: Kind, size: f64, lattice: bool, maxn: i64) -> Desc {
    let q = |x: f64| if lattice { let u = size / 4.0; ((x / u).round() * u).max(u) } else { x };
    match kind {
        Kind::MPoint | Kind::MBall | Kind::MBox | Kind::MPoly | Kind::MBlob => Desc { kind, ..random_shape(rng, kind.inner(), size, lattice, maxn) },
        Kind::Point => point(),
        Kind::Ball | Kind::SBall => { let mut d = ball(q(size * rng.range(0.3, 1.0))); if rng.chance(0.03) { d = ball(0.0); } d.kind = kind; d }
        Kind::Box | Kind::SBox => {
            let (mut x, mut y) = (rng.range(0.1, 1.0), rng.range(0.1, 1.0));
            match rng.below(6) { 0 => y = x, 1 => x = 0.02 + 0.05 * x, 2 => y = 0.02 + 0.05 * y, _ => {} }
            let flat = if rng.chance(0.06) { rng.int(1, 3) } else { 0 };
            let mut d = rect(if flat & 1 != 0 { 0.0 } else { q(size * x) }, if flat & 2 != 0 { 0.0 } else { q(size * y) }); d.kind = kind; d
        }
        Kind::Poly | Kind::SPoly => { let mut d = random_poly(rng, size, maxn, lattice); d.kind = kind; d }
        Kind::User => {
            let mut d = match rng.below(5) {
                0 => { let a = rng.range(0.0, 6.3); let l = size * rng.range(0.2, 0.8); // capsule
                       let p = v2((l * a.cos(), l * a.sin())); let h = vec![p64(-p), p64(p)];
                       Desc { kind, raw: vec![-p, p], hull: h, r: 0.0 } }
                1 => ball(size * rng.range(0.2, 0.9)),
                2 => rect(size * rng.range(0.1, 0.9), size * rng.range(0.1, 0.9)),
                _ => random_poly(rng, size, maxn.min(7), lattice),
            };
            d.kind = kind;
            if d.r == 0.0 && (d.hull.len() == 2 || rng.chance(0.5)) {
                d.r = (size * rng.range(0.05, 0.6)) as f32 as f64;
            }
            d
        }
    }
}

pub fn to_shape2d(d: &Desc) -> Shape2d {
    match d.kind {
        Kind::SBall => Shape2d::ball(d.r as f32),
        Kind::SBox => Shape2d::rect(d.hull[2].0 as f32, d.hull[2].1 as f32),
        _ => Shape2d::poly(&d.raw),
    }
}
pub fn to_mine(d: &Desc) -> Mine {
    match d.kind {
        Kind::MPoint => Mine::Point(Point),
        Kind::MBall => Mine::Ball(to_ball(d)),
        Kind::MBox => Mine::Box2d(to_box(d)),
        Kind::MPoly => Mine::Poly2d(to_poly(d)),
        _ => Mine::Blob(Blob { pts: d.raw.clone(), r: d.r as f32 }),
    }
}
pub fn to_box(d: &Desc) -> Box2d { Box2d::with_halfdims(d.hull[2].0 as f32, d.hull[2].1 as f32) }
pub fn to_ball(d: &Desc) -> Ball { Ball::with_radius(d.r as f32) }
pub fn to_poly(d: &Desc) -> Poly2d { Poly2d::new(&d.raw) }
