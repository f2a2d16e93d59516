//! Points against solids; support points; growing boxes.
use crate::maps::*;
use crate::util::*;
use crate::Opts;
use auburn::col3d::*;
use bevy::prelude::Transform;
use serde_json::{json, Value};

#[derive(Clone, Copy, Debug)]
enum Solid { Ball(f32), Box(V) }
impl Solid {
    fn random(rng: &mut Rng, size: f64) -> Solid {
        if rng.chance(0.3) { return Solid::Ball(size as f32); }
        let f = |rng: &mut Rng| match rng.below(6) { 0 => 1.0, 1 => rng.log(0.02, 1.0), _ => rng.range(0.2, 1.0) };
        let mut h = [f(rng) * size, f(rng) * size, f(rng) * size].map(|x| x as f32 as f64);
        if rng.chance(0.1) { h[1] = h[0]; }
        if rng.chance(0.1) { h[2] = h[1]; }
        Solid::Box(h)
    }
    fn half(&self) -> V { match *self { Solid::Ball(_) => [0.0; 3], Solid::Box(h) => h } }
    fn radius(&self) -> f64 { match *self { Solid::Ball(r) => r as f64, _ => 0.0 } }
    fn ball(&self) -> Ball { Ball::with_radius(self.radius() as f32) }
    fn boxed(&self, s: u64) -> Box3d { let h = v3(self.half()); match s % 3 { 0 => Box3d::new(h), 1 => Box3d::with_halfdims(h.x, h.y, h.z), _ => Box3d { halfsize: h } } }
}

/// where to ask: a place in the coordinates of the solid
fn random_place(rng: &mut Rng, s: &Solid) -> V {
    let h = match *s { Solid::Ball(r) => [r as f64; 3], Solid::Box(h) => h };
    let top = h[0].max(h[1]).max(h[2]);
    match rng.below(10) {
        0 => { let a = random_axis(rng); let d = top * rng.log(1.0, 20.0); a.map(|x| x * d) }
        1 if rng.chance(0.3) => { let a = random_axis(rng); let least = if rng.chance(0.7) { 1e-4 * top } else { 1e-44 }; let d = rng.log(least, 0.1 * top); a.map(|x| x * d) } // all but the centre
        1 => [0.0; 3],
        2 => { let mut p = [0.0; 3]; let i = rng.below(3) as usize; p[i] = h[i] * rng.range(-2.0, 2.0); p }
        3 => [0, 1, 2].map(|i| h[i] * *rng.pick(&[-1.5, -1.2, -0.5, 0.0, 0.5, 1.2, 1.5])),
        4 => { // just beside a face
            let mut p = [0, 1, 2].map(|i| h[i] * rng.range(-1.0, 1.0));
            let i = rng.below(3) as usize;
            p[i] = h[i] * *rng.pick(&[-1.0, 1.0]) + h[i] * rng.range(-0.1, 0.1);
            p
        }
        5 => [0, 1, 2].map(|i| h[i] + top * rng.range(0.01, 0.5)).map(|x| if rng.chance(0.5) { x } else { -x }),
        6 => { let a = random_axis(rng); let d = rng.range(0.5, 1.5); [0, 1, 2].map(|i| a[i] * h[i] * d) }
        _ => [0, 1, 2].map(|i| h[i] * rng.range(-1.6, 1.6)),
    }
}

/// what the two shapes are asked; `solid` says which comes first
#[derive(Clone, Copy, Debug, PartialEq)]
enum What { Meet, Measure, Free, Vector }
enum Ans { Yes(bool), Dist(f32), Maybe(Option<Vec3>), Move(Vec3) }

macro_rules! rel_query { ($a:expr, $b:expr, $t:expr, $w:expr) => { match $w {
    What::Meet => Ans::Yes($a.collides_rel($b, $t)),
    What::Measure => Ans::Dist($a.sdf_rel($b, $t)),
    What::Free => Ans::Maybe($a.penetrates_rel($b, $t)),
    What::Vector => Ans::Move($a.sdfv_rel($b, $t)),
} } }
macro_rules! world_query { ($a:expr, $at:expr, $b:expr, $bt:expr, $w:expr, $how:expr) => { match $w {
    What::Meet => Ans::Yes(match $how % 3 { 0 => $a.collides($at, $b, $bt), 1 => ($a, $at).collides_v2($b, $bt), _ => ($a, $at).collides_v3(($b, $bt)) }),
    _ => Ans::Maybe($a.penetrates($at, $b, $bt)),
} } }

fn ask_rel<T: Build>(s: &Solid, point_first: bool, t: &T, w: What, how: u64) -> Ans {
    match (s, point_first) {
        (Solid::Ball(_), false) => rel_query!(s.ball(), &Point, t, w),
        (Solid::Ball(_), true) => rel_query!(Point, &s.ball(), t, w),
        (Solid::Box(_), false) => rel_query!(s.boxed(how), &Point, t, w),
        (Solid::Box(_), true) => rel_query!(Point, &s.boxed(how), t, w),
    }
}
fn ask_world<T: Build + Composable + Invertible>(s: &Solid, point_first: bool, st: &T, pt: &T, w: What, how: u64) -> Ans {
    match (s, point_first) {
        (Solid::Ball(_), false) => world_query!(&s.ball(), st, &Point, pt, w, how),
        (Solid::Ball(_), true) => world_query!(&Point, pt, &s.ball(), st, w, how),
        (Solid::Box(_), false) => world_query!(&s.boxed(how), st, &Point, pt, w, how),
        (Solid::Box(_), true) => world_query!(&Point, pt, &s.boxed(how), st, w, how),
    }
}
fn record(un: &Unit, q: V, first: &str, got: Result<Ans, String>) -> Value {
    let q = un.a(q);
    let bad = |m: String| json!({"e": "bad", "why": m});
    match got {
        Err(m) => bad(m),
        Ok(Ans::Yes(y)) => json!({"e": "meet", "q": q, "yes": y}),
        Ok(Ans::Dist(d)) => match int(d as f64 / un.0, 20000.0) { Some(d) => json!({"e": "measure", "q": q, "d": d}), None => bad(format!("distance {d}")) },
        Ok(Ans::Maybe(None)) => json!({"e": "free", "q": q, "some": false, "v": [0, 0, 0], "first": first}),
        Ok(Ans::Maybe(Some(v))) => match un.lim(v, 12000.0) { Some(x) => json!({"e": "free", "q": q, "some": true, "v": x, "first": first}), None => bad(format!("vector {v}")) },
        Ok(Ans::Move(v)) => match un.lim(v, 12000.0) { Some(x) => json!({"e": "vector", "q": q, "v": x, "first": first}), None => bad(format!("vector {v}")) },
    }
}
fn put_solid(out: &mut Out, un: &Unit, s: &Solid, q: Q, k: f64) {
    // the lattice starts at the solid; the powers of two in the scale are taken into its size
    let two = 2f64.powi(k.log2().round() as i32);
    let k = k / two;
    out.put(json!({"e": "solid", "h": un.a(s.half().map(|x| x * two)), "r": (s.radius() * two / un.0).round() as i64,
        "m": matrix(q).map(|x| (x * ONE).round() as i64), "k": (k * ONE).round() as i64, "p": [0, 0, 0]}));
}
fn norm(v: V) -> f64 { v.iter().map(|x| x * x).sum::<f64>().sqrt() }
const STILL: Q = [0.0, 0.0, 0.0, 1.0];
fn random_frame<T: Build>(rng: &mut Rng, p: V) -> Ask {
    let q = if T::TURN { random_turn(rng) } else { STILL };
    let k = if T::SCALE { match rng.below(4) { 0 => 1.0, 1 => *rng.pick(&[0.5, 2.0, 3.0]), _ => rng.log(0.01, 100.0) } } else { 1.0 };
    Ask { q, k: [k as f32 as f64; 3], p }
}
/// the same question with one thing other than before
fn vary<T: Build>(rng: &mut Rng, s: &Solid, a: &Ask, first: V) -> (Solid, Ask) {
    let mut a = *a;
    match rng.below(4) {
        0 if T::TURN => a.q = random_turn(rng),
        1 if T::SCALE => { let by = *rng.pick(&[0.5, 0.75, 1.25, 2.0]); a.k = a.k.map(|x| (x * by) as f32 as f64); }
        2 if T::NAME != "IdentityTransform" => {
            let mut d = [0, 1, 2].map(|i| a.p[i] - first[i]);
            match rng.below(3) { 0 => { let i = rng.below(3) as usize; d[i] = -d[i] } 1 => d = [d[1], d[2], d[0]], _ => { let by = *rng.pick(&[0.75, 1.25]); d = d.map(|x| x * by) } }
            a.p = f32s([0, 1, 2].map(|i| first[i] + d[i]));
        }
        _ => return (Solid::random(rng, norm(s.half()).max(s.radius())), a),
    }
    (*s, a)
}
fn f32s(v: V) -> V { v.map(|x| x as f32 as f64) }

fn ask_first<T: Build>(out: &mut Out, s: &Solid, a: &Ask, w: What, how: u64) {
    // the point where the relative transform puts it; its own turn and scale mean nothing
    let un = Unit(norm(a.p).max(norm(s.half())).max(s.radius()) / 8000.0);
    put_solid(out, &un, s, STILL, 1.0);
    let got = guard(|| ask_rel(s, false, &T::build(a, how), w, how));
    out.put(record(&un, a.p, "solid", got));
}
fn ask_second<T: Build>(out: &mut Out, s: &Solid, a: &Ask, w: What, how: u64) {
    // the point is the origin
    let un = Unit(norm(a.p).max(a.k[0] * norm(s.half())).max(a.k[0] * s.radius()) / 8000.0);
    put_solid(out, &un, s, a.q, a.k[0]);
    let got = guard(|| ask_rel(s, true, &T::build(a, how), w, how));
    out.put(record(&un, a.p.map(|x| -x), "point", got));
}
fn rel<T: Build>(out: &mut Out, rng: &mut Rng, s: &Solid) {
    let w = *rng.pick(&[What::Meet, What::Measure, What::Free, What::Vector]);
    let (point_first, how) = (rng.chance(0.5), rng.next());
    let u = random_place(rng, s);
    let mut a;
    if !point_first {
        a = random_frame::<T>(rng, f32s(u));
        if T::NAME == "IdentityTransform" { a.p = [0.0; 3]; }
    } else {
        a = random_frame::<T>(rng, [0.0; 3]);
        let x = mul(&matrix(a.q), u.map(|x| x * a.k[0]));
        if T::NAME != "IdentityTransform" { a.p = f32s(x.map(|x| -x)); }
    }
    let ask = if point_first { ask_second::<T> } else { ask_first::<T> };
    ask(out, s, &a, w, how);
    if rng.chance(0.3) { let (s, a) = vary::<T>(rng, s, &a, [0.0; 3]); ask(out, &s, &a, w, how); }
}
fn ask_placed<T: Build + Composable + Invertible>(out: &mut Out, s: &Solid, point_first: bool, a: &Ask, b: &Ask, w: What, how: u64) {
    let q = [0, 1, 2].map(|i| b.p[i] - a.p[i]);
    let un = Unit(norm(q).max(a.k[0] * norm(s.half())).max(a.k[0] * s.radius()) / 8000.0);
    put_solid(out, &un, s, a.q, a.k[0]);
    let got = guard(|| ask_world(s, point_first, &T::build(a, how), &T::build(b, how / 7), w, how));
    out.put(record(&un, q, if point_first { "point" } else { "solid" }, got));
}
fn world<T: Build + Composable + Invertible>(out: &mut Out, rng: &mut Rng, s: &Solid, home: V) {
    let w = *rng.pick(&[What::Meet, What::Free]);
    let (point_first, how) = (rng.chance(0.5), rng.next());
    let u = random_place(rng, s);
    let mut a = random_frame::<T>(rng, home);
    let home = f32s(home.map(|x| x * a.k[0].min(1.0)));
    a.p = home;
    let x = mul(&matrix(a.q), u.map(|x| x * a.k[0]));
    let b = random_frame::<T>(rng, f32s([0, 1, 2].map(|i| home[i] + x[i])));
    ask_placed::<T>(out, s, point_first, &a, &b, w, how);
    if rng.chance(0.3) {
        // the solid turned, scaled or another, or the point elsewhere
        if rng.chance(0.7) { let (s, a) = vary::<T>(rng, s, &a, b.p); ask_placed::<T>(out, &s, point_first, &a, &b, w, how); }
        else { let b = Ask { p: vary::<T>(rng, s, &b, a.p).1.p, ..b }; ask_placed::<T>(out, s, point_first, &a, &b, w, how); }
    }
}

pub fn run_queries(out: &mut Out, o: &Opts) {
    for (id, mut rng) in o.sessions() {
        let rng = &mut rng;
        let size = if rng.chance(0.3) { 1.0 } else { rng.log(1e-5, 1e6) };
        let s = Solid::random(rng, size);
        let kind = rng.below(16);
        let near = rng.log(0.5, 100.0) * size;
        let home = if rng.chance(0.3) { [0.0; 3] } else { f32s(random_axis(rng).map(|x| x * near)) };
        out.begin(id, &format!("d01 #{id}: {s:?} transforms {kind} home {home:?}"));
        for _ in 0..6 {
            match kind {
                0 => rel::<Vec3>(out, rng, &s),
                1 => rel::<Translate3d>(out, rng, &s),
                2 => rel::<AxisTransform3d>(out, rng, &s),
                3 => rel::<Isotropic3d>(out, rng, &s),
                4 => rel::<Transform3d>(out, rng, &s),
                5 => rel::<Transform>(out, rng, &s),
                6 => rel::<IdentityTransform>(out, rng, &s),
                14 => rel::<Mine>(out, rng, &s),
                15 => world::<Mine>(out, rng, &s, home),
                7 => world::<Vec3>(out, rng, &s, home),
                8 => world::<Translate3d>(out, rng, &s, home),
                9 => world::<AxisTransform3d>(out, rng, &s, home),
                10 | 11 => world::<Isotropic3d>(out, rng, &s, home),
                12 => world::<Transform3d>(out, rng, &s, home),
                _ => world::<Transform>(out, rng, &s, home),
            }
        }
    }
}

pub fn run_shapes(out: &mut Out, o: &Opts) {
    for (id, mut rng) in o.sessions() {
        let rng = &mut rng;
        if rng.chance(0.3) {
            // growing boxes; the places are exact in f32
            let e = rng.int(-20, 20) as i32;
            let at = |p: [i64; 3]| v3(p.map(|x| x as f64 * 2f64.powi(e)));
            let near = |v: Vec3| -> Option<Value> { Unit(2f64.powi(e)).lim(v, 1e6) };
            let h = if rng.chance(0.3) { [0; 3] } else { [rng.int(0, 3000), rng.int(0, 3000), rng.int(0, 3000)] };
            out.begin(id, &format!("d03 #{id}: growing from {h:?} * 2^{e}"));
            out.put(json!({"e": "box", "h": h}));
            let mut b = if h == [0; 3] && rng.chance(0.5) { Box3d::default() } else { Box3d::new(at(h)) };
            for _ in 0..if rng.chance(0.01) { rng.int(50, 400) } else { 6 } {
                let p = [rng.int(-6000, 6000), rng.int(-6000, 6000), rng.int(-6000, 6000)];
                match guard(|| { b.cover(&at(p)); b.halfsize }) {
                    Ok(h) => put(out, json!({"e": "cover", "p": p}), vec![("h", near(h))]),
                    Err(m) => out.put(json!({"e": "bad", "why": m})),
                }
            }
            continue;
        }
        let size = if rng.chance(0.3) { 1.0 } else { rng.log(1e-5, 1e6) };
        let point = rng.chance(0.05);
        let s = if point { Solid::Ball(0.0) } else { Solid::random(rng, size) };
        let un = Unit(norm(s.half()).max(s.radius()).max(size * 1e-3) / 8000.0);
        out.begin(id, &format!("d03 #{id}: support of {s:?} (point {point})"));
        put_solid(out, &un, &s, STILL, 1.0);
        for _ in 0..6 {
            let d = match rng.below(3) {
                0 => { let a = loop { let a = [rng.int(-1, 1), rng.int(-1, 1), rng.int(-1, 1)]; if a != [0; 3] { break a; } }; let l = norm(a.map(|x| x as f64)); a.map(|x| x as f64 / l) }
                1 => { let mut a = random_axis(rng); a[rng.below(3) as usize] *= 1e-3; let l = norm(a); a.map(|x| x / l) }
                _ => random_axis(rng),
            };
            let l = match rng.below(4) { 0 => 1.0, 1 => rng.log(1e-3, 1e3), 2 => rng.log(1e-30, 1e30), _ => size };
            let v = v3(d.map(|x| x * l));
            let how = rng.next();
            let n = d.map(|x| (x * 16384.0).round() as i64);
            match guard(|| if point { Point.extreme_point(v) } else { match s { Solid::Ball(_) => s.ball().extreme_point(v), _ => s.boxed(how).extreme_point(v) } }) {
                Ok(p) => put(out, json!({"e": "support", "n": n}), vec![("p", un.p(p))]),
                Err(m) => out.put(json!({"e": "bad", "why": m})),
            }
        }
    }
}
