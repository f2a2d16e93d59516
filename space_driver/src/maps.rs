//! Register sessions of space transforms.
use crate::util::*;
use crate::Opts;
use auburn::col3d::*;
use bevy::prelude::Transform;
use serde_json::{json, Value};

pub const ONE: f64 = 4096.0;
pub type V = [f64; 3];
/// x, y, z, w, of unit length
pub type Q = [f64; 4];

/// rotation matrix of a unit quaternion, row by row
pub fn matrix(q: Q) -> [f64; 9] {
    let [x, y, z, w] = q;
    [1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y - w * z), 2.0 * (x * z + w * y),
     2.0 * (x * y + w * z), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z - w * x),
     2.0 * (x * z - w * y), 2.0 * (y * z + w * x), 1.0 - 2.0 * (x * x + y * y)]
}
pub fn mul(m: &[f64; 9], v: V) -> V { [0, 1, 2].map(|i| m[3 * i] * v[0] + m[3 * i + 1] * v[1] + m[3 * i + 2] * v[2]) }
pub fn random_turn(rng: &mut Rng) -> Q {
    if rng.chance(0.1) { return [0.0, 0.0, 0.0, 1.0]; }
    let axis = if rng.chance(0.3) { let mut a = [0.0; 3]; a[rng.below(3) as usize] = if rng.chance(0.5) { 1.0 } else { -1.0 }; a } else { random_axis(rng) };
    let t = match rng.below(4) { 0 => rng.int(-4, 4) as f64 * std::f64::consts::FRAC_PI_2, 1 => rng.range(-0.2, 0.2), _ => rng.range(-6.2832, 6.2832) } / 2.0;
    [axis[0] * t.sin(), axis[1] * t.sin(), axis[2] * t.sin(), t.cos()]
}
pub fn random_axis(rng: &mut Rng) -> V {
    loop {
        let a = [rng.range(-1.0, 1.0), rng.range(-1.0, 1.0), rng.range(-1.0, 1.0)];
        let l = a.iter().map(|x| x * x).sum::<f64>().sqrt();
        if l > 0.1 && l <= 1.0 { return a.map(|x| x / l); }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Ask { pub q: Q, pub k: V, pub p: V }

pub trait Build: Transformation3d + Sized {
    const NAME: &'static str;
    const TURN: bool = false;
    const SCALE: bool = false;
    const AXES: bool = false;
    fn build(a: &Ask, style: u64) -> Self;
}
pub fn v3(v: V) -> Vec3 { Vec3::new(v[0] as f32, v[1] as f32, v[2] as f32) }
pub fn a64(v: Vec3) -> V { [v.x as f64, v.y as f64, v.z as f64] }
impl Build for Vec3 {
    const NAME: &'static str = "Vec3";
    fn build(a: &Ask, _: u64) -> Self { v3(a.p) }
}
impl Build for IdentityTransform {
    const NAME: &'static str = "IdentityTransform";
    fn build(_: &Ask, s: u64) -> Self { if s % 2 == 0 { IdentityTransform } else { IdentityTransform::default() } }
}
impl Build for Translate3d {
    const NAME: &'static str = "Translate3d";
    fn build(a: &Ask, s: u64) -> Self { if s % 2 == 0 { Translate3d::new(v3(a.p)) } else { Translate3d::from(v3(a.p)) } }
}
impl Build for AxisTransform3d {
    const NAME: &'static str = "AxisTransform3d"; const SCALE: bool = true;
    fn build(a: &Ask, _: u64) -> Self { AxisTransform3d::new(v3(a.p), a.k[0] as f32) }
}
impl Build for Transform {
    const NAME: &'static str = "bevy Transform"; const SCALE: bool = true; const TURN: bool = true; const AXES: bool = true;
    fn build(a: &Ask, s: u64) -> Self {
        let q = Quat::from_xyzw(a.q[0] as f32, a.q[1] as f32, a.q[2] as f32, a.q[3] as f32);
        if s % 2 == 0 { Transform { translation: v3(a.p), rotation: q, scale: v3(a.k) } }
        else { Transform::from_translation(v3(a.p)).with_rotation(q).with_scale(v3(a.k)) }
    }
}
impl Build for Transform3d {
    const NAME: &'static str = "Transform3d"; const SCALE: bool = true; const TURN: bool = true; const AXES: bool = true;
    fn build(a: &Ask, s: u64) -> Self {
        let t = Transform3d::from(Transform::build(a, s));
        match s % 3 { 0 => Transform3d::from(Transform::from(t)), 1 => t.clone(), _ => t }
    }
}
impl Build for Isotropic3d {
    const NAME: &'static str = "Isotropic3d"; const SCALE: bool = true; const TURN: bool = true;
    fn build(a: &Ask, s: u64) -> Self { let t = Transform::build(a, s); if s % 3 == 0 { Isotropic3d::from(&t) } else { Isotropic3d::from(t) } }
}

/// a transform of the user's own: only what the library asks for
#[derive(Clone, Copy, Debug)]
pub struct Mine { q: Quat, k: f32, p: Vec3 }
impl Default for Mine { fn default() -> Self { Mine { q: Quat::IDENTITY, k: 1.0, p: Vec3::ZERO } } }
impl Transformation3d for Mine {
    fn apply(&self, x: Vec3) -> Vec3 { self.q * (x * self.k) + self.p }
    fn unapply(&self, x: Vec3) -> Vec3 { (self.q.inverse() * (x - self.p)) / self.k }
}
impl Composable for Mine { fn compose(&self, o: &Self) -> Self { Mine { q: self.q * o.q, k: self.k * o.k, p: self.apply(o.p) } } }
impl Invertible for Mine { fn inverse(&self) -> Self { let q = self.q.inverse(); Mine { q, k: 1.0 / self.k, p: (q * -self.p) / self.k } } }
impl Build for Mine {
    const NAME: &'static str = "a transform of the user's own"; const SCALE: bool = true; const TURN: bool = true;
    fn build(a: &Ask, _: u64) -> Self { Mine { q: Quat::from_xyzw(a.q[0] as f32, a.q[1] as f32, a.q[2] as f32, a.q[3] as f32), k: a.k[0] as f32, p: v3(a.p) } }
}

pub fn int(x: f64, lim: f64) -> Option<i64> { if x.is_finite() && x.abs() <= lim { Some(x.round() as i64) } else { None } }
pub struct Unit(pub f64);
impl Unit {
    pub fn p(&self, v: Vec3) -> Option<Value> { self.lim(v, 20000.0) }
    pub fn lim(&self, v: Vec3, lim: f64) -> Option<Value> { let f = |x: f32| int(x as f64 / self.0, lim); Some(json!([f(v.x)?, f(v.y)?, f(v.z)?])) }
    pub fn v(&self, p: V) -> Vec3 { v3(p.map(|x| x * self.0)) }
    pub fn a(&self, p: V) -> Value { json!(p.map(|x| (x / self.0).round() as i64)) }
    /// meaning of a transform, observed from outside
    pub fn obs<T: Transformation3d>(&self, to: &Unit, t: &T) -> Option<Value> {
        let u = 1000.0;
        let f = |v: Vec3| a64(v).map(|x| x / to.0);
        let o = f(t.apply(Vec3::ZERO));
        let e = [f(t.apply(self.v([u, 0.0, 0.0]))), f(t.apply(self.v([0.0, u, 0.0]))), f(t.apply(self.v([0.0, 0.0, u])))];
        let mut r = vec![];
        for i in 0..3 { for j in 0..3 { r.push(int((e[j][i] - o[i]) / u * ONE, 13000.0)?); } }
        for i in 0..3 { r.push(int(o[i], 20000.0)?); }
        Some(json!(r))
    }
}
pub fn put(out: &mut Out, mut rec: Value, fields: Vec<(&str, Option<Value>)>) {
    for (k, v) in fields {
        match v { Some(v) => { rec[k] = v; } None => { rec = json!({"e": "bad", "why": format!("{} {k}: not finite or far too large", rec["e"])}); break; } }
    }
    out.put(rec);
}
fn lattice_point(rng: &mut Rng, r: i64) -> V { [rng.int(-r, r) as f64, rng.int(-r, r) as f64, rng.int(-r, r) as f64] }

fn random_units<T: Build>(rng: &mut Rng) -> [Unit; 2] {
    let u = *rng.pick(&[1.0, 1.0, 1.0 / 1024.0, 0.03, 10.0, 1e-6, 300.0]);
    [Unit(u), Unit(u * if T::SCALE && rng.chance(0.3) { rng.log(1e-6, 1e6) } else { 1.0 })]
}
#[derive(Clone, Copy, PartialEq)]
enum Scale { Uniform, Any }
fn random_ask<T: Build>(rng: &mut Rng, un: &Unit, to: &Unit, turn: bool, scale: Scale, flip: bool, reach: f64) -> Ask {
    let q = if T::TURN && turn { random_turn(rng) } else { [0.0, 0.0, 0.0, 1.0] };
    let one = |rng: &mut Rng| match rng.below(4) { 0 => 1.0, 1 => *rng.pick(&[0.5, 2.0, 0.4, 2.5]), _ => rng.log(0.4, 2.5) };
    let mut k = [1.0; 3];
    if T::SCALE { k = [one(rng); 3]; }
    if T::AXES && scale == Scale::Any { for i in 0..3 { if rng.chance(0.5) { k[i] = one(rng); } } }
    if T::SCALE && flip && rng.chance(0.15) { k = k.map(|x| -x); }
    if T::AXES && flip && scale == Scale::Any { for i in 0..3 { if rng.chance(0.1) { k[i] = -k[i]; } } }
    let p = if rng.chance(0.1) { [0.0; 3] } else { [rng.range(-reach, reach), rng.range(-reach, reach), rng.range(-reach, reach)] };
    let r = to.0 / un.0;
    Ask { q, k: k.map(|x| x * r), p: p.map(|x| x * to.0) }
}
fn put_new<T: Build>(out: &mut Out, un: &Unit, to: &Unit, r: usize, a: &Ask, t: &T) {
    let k = to.0 / un.0;
    let f = |x: f64| (x * ONE).round() as i64;
    put(out, json!({"e": "new", "r": r, "R": if T::TURN { matrix(a.q).map(f) } else { matrix([0.0, 0.0, 0.0, 1.0]).map(f) },
        "k": if T::SCALE { a.k.map(|x| f(x / k)) } else { [f(1.0); 3] }, "p": to.a(a.p)}), vec![("o", un.obs(to, t))]);
}

/// one transform, points there and back
fn single<T: Build>(out: &mut Out, rng: &mut Rng, id: u64) {
    let [un, to] = random_units::<T>(rng);
    let mut a = random_ask::<T>(rng, &un, &to, true, Scale::Any, true, 2500.0);
    if T::NAME == "IdentityTransform" { a.p = [0.0; 3]; }
    let style = rng.next();
    out.begin(id, &format!("d02 #{id}: {} {:?} units {} {}", T::NAME, a, un.0, to.0));
    let r = guard(|| {
        let t = T::build(&a, style);
        put_new(out, &un, &to, 1, &a, &t);
        put(out, json!({"e": "apply", "i": 1, "p": [0, 0, 0]}), vec![("q", to.p(t.apply_origin()))]);
        let b = t.unapply_origin();
        put(out, json!({"e": "unapply", "i": 1, "p": [0, 0, 0]}), vec![("q", un.p(b))]);
        let kmin = a.k.iter().fold(f64::MAX, |m, x| m.min(x.abs())) * un.0 / to.0;
        for _ in 0..3 {
            let v = un.v(lattice_point(rng, 1500));
            let w = t.apply(v);
            put(out, json!({"e": "apply", "i": 1}), vec![("p", un.p(v)), ("q", to.p(w))]);
            put(out, json!({"e": "return"}), vec![("p", un.p(v)), ("q", un.p(t.unapply(w)))]);
            let d = lattice_point(rng, 1500);
            let w = v3([0, 1, 2].map(|i| a.p[i] + kmin * to.0 * d[i]));
            let b = t.unapply(w);
            put(out, json!({"e": "unapply", "i": 1}), vec![("p", to.p(w)), ("q", un.p(b))]);
            put(out, json!({"e": "return"}), vec![("p", to.p(w)), ("q", to.p(t.apply(b)))]);
        }
    });
    if let Err(m) = r { out.put(json!({"e": "bad", "why": m})); }
}

/// a chain of operations over a bank of registers
fn chain<T: Build + Composable + Invertible + Default>(out: &mut Out, rng: &mut Rng, id: u64, steps: u64) {
    let un = random_units::<T>(rng);
    // scales along the axes commute with nothing but each other
    let stretch = T::AXES && rng.chance(0.3);
    out.begin(id, &format!("d02 #{id}: chain of {steps} operations on {} (units {} {}, stretch {stretch})", T::NAME, un[0].0, un[1].0));
    // transform, scales, bound on |position|, to, from
    let mut bank: Vec<(T, V, f64, usize, usize)> = vec![];
    let r = guard(|| {
        let d = T::default();
        put(out, json!({"e": "default", "r": 0}), vec![("o", un[0].obs(&un[0], &d))]);
        bank.push((d, [1.0; 3], 0.0, 0, 0));
        for _ in 0..steps {
            let op = if bank.len() < 3 { 0 } else { rng.below(8) };
            let (i, j) = (rng.below(bank.len() as u64) as usize, rng.below(bank.len() as u64) as usize);
            let r = if bank.len() < 5 { bank.len() } else { rng.below(5) as usize };
            let top = |k: V| k.iter().fold(0.0f64, |m, x| m.max(x.abs()));
            let fits = |k: V, p: f64| k.iter().all(|x| x.abs() > 0.33 && x.abs() < 3.0) && p < 12000.0;
            let (e, t, k, p, x, y): (Value, T, V, f64, usize, usize) = match op {
                0 => {
                    let (x, y) = (rng.below(2) as usize, rng.below(2) as usize);
                    let a = random_ask::<T>(rng, &un[x], &un[y], !stretch, if stretch { Scale::Any } else { Scale::Uniform }, false, 2000.0);
                    let t = T::build(&a, rng.next());
                    put_new(out, &un[x], &un[y], r, &a, &t);
                    let k = if T::SCALE { a.k.map(|v| v * un[x].0 / un[y].0) } else { [1.0; 3] };
                    set(&mut bank, r, (t, k, 3500.0, y, x));
                    continue;
                }
                1 | 2 | 3 => {
                    let (k, p) = ([0, 1, 2].map(|n| bank[i].1[n] * bank[j].1[n]), bank[i].2 + top(bank[i].1) * bank[j].2);
                    if !fits(k, p) || bank[j].3 != bank[i].4 { continue; }
                    (json!({"e": "compose", "r": r, "i": i, "j": j}), bank[i].0.compose(&bank[j].0), k, p, bank[j].4, bank[i].3)
                }
                4 | 5 => {
                    let k = bank[i].1.map(|x| 1.0 / x);
                    let p = bank[i].2 * top(k);
                    if !fits(k, p) { continue; }
                    (json!({"e": "inverse", "r": r, "i": i}), bank[i].0.inverse(), k, p, bank[i].3, bank[i].4)
                }
                _ => {
                    let inv = bank[i].1.map(|x| 1.0 / x);
                    let (k, p) = ([0, 1, 2].map(|n| bank[j].1[n] * inv[n]), (bank[i].2 + bank[j].2) * top(inv));
                    if !fits(k, p) || bank[i].3 != bank[j].3 { continue; }
                    (json!({"e": "delta", "r": r, "i": i, "j": j}), bank[i].0.delta_transform(&bank[j].0), k, p, bank[j].4, bank[i].4)
                }
            };
            put(out, e, vec![("o", un[x].obs(&un[y], &t))]);
            let w = un[x].v(lattice_point(rng, 1000));
            put(out, json!({"e": "apply", "i": r}), vec![("p", un[x].p(w)), ("q", un[y].p(t.apply(w)))]);
            set(&mut bank, r, (t, k, p, y, x));
        }
    });
    if let Err(m) = r { out.put(json!({"e": "bad", "why": m})); }
}
/// the same small step over and over, about one point (the step by itself is close to doing nothing)
fn repeat<T: Build + Composable + Invertible + Default>(out: &mut Out, rng: &mut Rng, id: u64) {
    let [un, _] = random_units::<T>(rng);
    let stretch = T::AXES && rng.chance(0.3);
    let n = *rng.pick(&[2u32, 3, 8, 30, 128, 256, 300, 400]);
    let mut k = [1.0f64; 3];
    if T::SCALE && rng.chance(0.7) { k = [rng.log(0.42, 2.4); 3]; if stretch { k[rng.below(3) as usize] = rng.log(0.42, 2.4); } }
    let k = k.map(|x| x.powf(1.0 / n as f64) as f32 as f64);
    let mut q = [0.0, 0.0, 0.0, 1.0];
    let mut whole = q;
    if T::TURN && !stretch && rng.chance(0.7) {
        let axis = if rng.chance(0.3) { let mut a = [0.0; 3]; a[rng.below(3) as usize] = 1.0; a } else { random_axis(rng) };
        let t = rng.range(-13.0, 13.0) / n as f64 / 2.0;
        // as it is after rounding
        q = [axis[0] * t.sin(), axis[1] * t.sin(), axis[2] * t.sin(), t.cos()].map(|x| x as f32 as f64);
        let l = q.iter().map(|x| x * x).sum::<f64>().sqrt();
        q = q.map(|x| x / l);
        let s = (q[0] * q[0] + q[1] * q[1] + q[2] * q[2]).sqrt();
        if s > 0.0 {
            let t = s.atan2(q[3]) * n as f64;
            whole = [q[0] / s * t.sin(), q[1] / s * t.sin(), q[2] / s * t.sin(), t.cos()];
        }
    }
    let about = T::TURN || T::SCALE;
    let p: V = if rng.chance(0.3) { [0.0; 3] } else { [0; 3].map(|_| rng.range(-2000.0, 2000.0)) };
    let at: V = if about { let r = mul(&matrix(q), [0, 1, 2].map(|i| k[i] * p[i])); [0, 1, 2].map(|i| p[i] - r[i]) } else { p.map(|x| x / n as f64) };
    let a = Ask { q, k, p: at.map(|x| x * un.0) };
    let how = if n.is_power_of_two() && rng.chance(0.5) { 2 } else { *rng.pick(&[0u64, 1, 3, 4]) };
    out.begin(id, &format!("d02 #{id}: {n} times {} {a:?} (unit {}, way {how})", T::NAME, un.0));
    let style = rng.next();
    let r = guard(|| {
        let step = T::build(&a, style);
        let mut t = T::default();
        match how {
            0 => for _ in 0..n { t = step.compose(&t); },
            1 => for _ in 0..n { t = t.compose(&step); },
            2 => { t = T::build(&a, style); for _ in 0..n.ilog2() { t = t.compose(&t); } }
            3 => { let back = step.inverse(); for _ in 0..n { t = back.delta_transform(&t); } }
            _ => { let back = step.inverse(); for _ in 0..n { t = t.compose(&back); } t = t.inverse(); }
        }
        let f = |x: f64| (x * ONE).round() as i64;
        put(out, json!({"e": if about { "repeat" } else { "new" }, "r": 1, "R": matrix(whole).map(f), "k": k.map(|x| f(x.powi(n as i32))), "p": p.map(|x| x.round() as i64)}), vec![("o", un.obs(&un, &t))]);
        let w = un.v(lattice_point(rng, 1000));
        put(out, json!({"e": "apply", "i": 1}), vec![("p", un.p(w)), ("q", un.p(t.apply(w)))]);
    });
    if let Err(m) = r { out.put(json!({"e": "bad", "why": m})); }
}
fn set<T>(bank: &mut Vec<T>, r: usize, v: T) { if r == bank.len() { bank.push(v); } else { bank[r] = v; } }

pub fn run(out: &mut Out, o: &Opts) {
    for (id, mut rng) in o.sessions() {
        let rng = &mut rng;
        if rng.chance(0.5) {
            match rng.below(13) {
                12 => single::<Mine>(out, rng, id),
                0 => single::<Vec3>(out, rng, id),
                1 => single::<Translate3d>(out, rng, id),
                2 => single::<IdentityTransform>(out, rng, id),
                3 | 4 => single::<AxisTransform3d>(out, rng, id),
                5 | 6 => single::<Isotropic3d>(out, rng, id),
                7 | 8 => single::<Transform>(out, rng, id),
                _ => single::<Transform3d>(out, rng, id),
            }
        } else if id % 9 == 4 {
            match rng.below(8) {
                0 => repeat::<Mine>(out, rng, id),
                1 => repeat::<Vec3>(out, rng, id),
                2 => repeat::<Translate3d>(out, rng, id),
                3 => repeat::<AxisTransform3d>(out, rng, id),
                4 => repeat::<Isotropic3d>(out, rng, id),
                5 => repeat::<Transform>(out, rng, id),
                _ => repeat::<Transform3d>(out, rng, id),
            }
        } else {
            let steps = rng.int(3, if o.thorough { 60 } else { 24 }) as u64;
            match rng.below(11) {
                10 => chain::<Mine>(out, rng, id, steps),
                0 => chain::<Vec3>(out, rng, id, steps),
                1 => chain::<Translate3d>(out, rng, id, steps),
                2 | 3 => chain::<AxisTransform3d>(out, rng, id, steps),
                4 | 5 => chain::<Isotropic3d>(out, rng, id, steps),
                6 | 7 => chain::<Transform>(out, rng, id, steps),
                _ => chain::<Transform3d>(out, rng, id, steps),
            }
        }
    }
}
