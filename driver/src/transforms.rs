//! Register sessions of plane transforms, recorded for
//! spec/TraceTransforms.tla.  The driver only knows what was asked for and how
//! large results can get, not what they are.
use crate::util::*;
use auburn::col2d::*;
use serde_json::{json, Value};

pub const ONE: f64 = 16384.0;

#[derive(Clone, Copy, Debug)]
pub struct Ask { pub ang: f32, pub kx: f32, pub ky: f32, pub x: f32, pub y: f32 }

/// What a transform type can be built from.
pub trait Build: Transformation2d + Sized {
    const NAME: &'static str;
    const ROT: bool;
    const SCALE: bool;
    const AXES: bool;
    fn build(a: &Ask, style: u64) -> Self;
}
impl Build for Vec2 {
    const NAME: &'static str = "Vec2"; const ROT: bool = false; const SCALE: bool = false; const AXES: bool = false;
    fn build(a: &Ask, _: u64) -> Self { Vec2::new(a.x, a.y) }
}
impl Build for Translate2d {
    const NAME: &'static str = "Translate2d"; const ROT: bool = false; const SCALE: bool = false; const AXES: bool = false;
    fn build(a: &Ask, s: u64) -> Self { if s % 2 == 0 { Translate2d::new(Vec2::new(a.x, a.y)) } else { Translate2d::from(Vec2::new(a.x, a.y)) } }
}
impl Build for AxisTransform2d {
    const NAME: &'static str = "AxisTransform2d"; const ROT: bool = false; const SCALE: bool = true; const AXES: bool = false;
    fn build(a: &Ask, _: u64) -> Self { AxisTransform2d::new(Vec2::new(a.x, a.y), a.kx) }
}
impl Build for Transform2d {
    const NAME: &'static str = "Transform2d"; const ROT: bool = true; const SCALE: bool = true; const AXES: bool = true;
    fn build(a: &Ask, s: u64) -> Self {
        let (p, k, r) = (Vec2::new(a.x, a.y), Vec2::new(a.kx, a.ky), Rotor2d::from_angle(a.ang));
        match s % 6 {
            0 => Transform2d { pos: p, rot: r, scale: k },
            1 => Transform2d::from_translation(p).with_angle(a.ang).with_scale(k),
            2 => Transform2d::from_angle(a.ang).with_translation(p).with_scale(k),
            3 => Transform2d::from_rotation(r).with_scale(k).with_translation(p),
            4 => Transform2d::from_scale(k).with_rotation(r).with_translation(p),
            _ => Transform2d::IDENTITY.with_scale(k).with_rotation(r).with_translation(p),
        }
    }
}

fn int(x: f64, lim: f64) -> Option<i64> { if x.is_finite() && x.abs() <= lim { Some(x.round() as i64) } else { None } }
pub struct Unit(pub f64);
impl Unit {
    /// a point in lattice steps
    pub fn p(&self, v: Vec2) -> Option<Value> { Some(json!([int(v.x as f64 / self.0, 20000.0)?, int(v.y as f64 / self.0, 20000.0)?])) }
    /// a direction
    pub fn n(&self, v: Vec2) -> Option<Value> { Some(json!([int(v.x as f64 * ONE, 60000.0)?, int(v.y as f64 * ONE, 60000.0)?])) }
    pub fn v(&self, p: P) -> Vec2 { Vec2::new((p.0 * self.0) as f32, (p.1 * self.0) as f32) }
    /// meaning of a transform (from this space into that of `to`), observed from outside
    pub fn obs<T: Transformation2d>(&self, to: &Unit, t: &T) -> Option<Value> {
        let u = 1000.0;
        let f = |v: Vec2| (v.x as f64 / to.0, v.y as f64 / to.0);
        let (o, e1, e2) = (f(t.apply(Vec2::ZERO)), f(t.apply(self.v((u, 0.0)))), f(t.apply(self.v((0.0, u)))));
        let m = |x: f64| int(x / u * ONE, 50000.0);
        let n = t.apply_normal(Vec2::new(1.0, 0.0));
        Some(json!([m(e1.0 - o.0)?, m(e2.0 - o.0)?, m(e1.1 - o.1)?, m(e2.1 - o.1)?, int(o.0, 20000.0)?, int(o.1, 20000.0)?,
            int(n.x as f64 * ONE, 40000.0)?, int(n.y as f64 * ONE, 40000.0)?]))
    }
}

fn put(out: &mut Out, mut rec: Value, fields: Vec<(&str, Option<Value>)>) {
    for (k, v) in fields {
        match v { Some(v) => { rec[k] = v; } None => { rec = json!({"e": "bad", "why": format!("{} {k}: not finite or far too large", rec["e"])}); break; } }
    }
    out.put(rec);
}

/// apply / unapply / directions of register `i`
fn probe<T: Transformation2d>(out: &mut Out, rng: &mut Rng, un: &Unit, to: &Unit, i: usize, t: &T, known: (f64, f64, f64)) {
    let (kmin, px, py) = known;
    put(out, json!({"e": "apply", "i": i, "p": [0, 0]}), vec![("q", to.p(t.apply_origin()))]);
    for _ in 0..2 {
        let p = (rng.int(-1500, 1500) as f64, rng.int(-1500, 1500) as f64);
        let v = un.v(p);
        let a = t.apply(v);
        put(out, json!({"e": "apply", "i": i}), vec![("p", un.p(v)), ("q", to.p(a))]);
        put(out, json!({"e": "return"}), vec![("p", un.p(v)), ("q", un.p(t.unapply(a)))]);
        let w = to.v((px + kmin * p.0, py + kmin * p.1));
        let b = t.unapply(w);
        put(out, json!({"e": "unapply", "i": i}), vec![("p", to.p(w)), ("q", un.p(b))]);
        put(out, json!({"e": "return"}), vec![("p", to.p(w)), ("q", to.p(t.apply(b)))]);
        let th = rng.range(0.0, 6.2832);
        let n = Vec2::new(th.cos() as f32, th.sin() as f32) * rng.range(0.2, 1.0) as f32;
        let m = t.apply_normal(n);
        put(out, json!({"e": "normal", "i": i}), vec![("p", un.n(n)), ("q", un.n(m))]);
        let k = t.unapply_normal(n);
        put(out, json!({"e": "unnormal", "i": i}), vec![("p", un.n(n)), ("q", un.n(k))]);
    }
}

/// units of the spaces a transform maps from and to, far apart if it can scale
fn random_units<T: Build>(rng: &mut Rng) -> [Unit; 2] {
    let u = *rng.pick(&[1.0, 1.0, 1.0 / 1024.0, 0.03, 10.0, 1e-6, 300.0]);
    let k = if T::SCALE && rng.chance(0.3) { rng.log(1e-6, 1e6) } else { 1.0 };
    [Unit(u), Unit(u * k)]
}
/// anything; turns and one positive scale; no turn, positive scales along the axes
#[derive(Clone, Copy, PartialEq)]
pub enum Ask1 { Any, Similar, Stretch }
/// what to build: scale and position in units of the spaces
pub fn random_ask<T: Build>(rng: &mut Rng, un: &Unit, to: &Unit, what: Ask1, reach: f64) -> Ask {
    let ang = if T::ROT && what != Ask1::Stretch { crate::scene::random_angle(rng) } else { 0.0 };
    let one = |rng: &mut Rng| match rng.below(4) { 0 => 1.0, 1 => *rng.pick(&[0.5, 2.0, 3.0, 0.4]), _ => rng.log(0.34, 2.9) as f32 };
    let (mut kx, mut ky) = (1.0, 1.0);
    if T::SCALE {
        kx = one(rng);
        ky = kx;
        if what == Ask1::Stretch && T::AXES { ky = one(rng); }
        if what == Ask1::Any {
            if T::AXES && rng.chance(0.6) { ky = one(rng); }
            if rng.chance(0.15) { kx = -kx; if !T::AXES { ky = kx; } }
            if T::AXES && rng.chance(0.15) { ky = -ky; }
        }
    }
    let (x, y) = if rng.chance(0.1) { (0.0, 0.0) } else { (rng.range(-reach, reach), rng.range(-reach, reach)) };
    let k = (to.0 / un.0) as f32;
    Ask { ang, kx: kx * k, ky: ky * k, x: (x * to.0) as f32, y: (y * to.0) as f32 }
}
fn put_new<T: Build>(out: &mut Out, un: &Unit, to: &Unit, r: usize, a: &Ask, t: &T) {
    let k = to.0 / un.0;
    let f = |x: f64| (x * ONE).round() as i64;
    let (s, c) = (a.ang as f64).sin_cos();
    put(out, json!({"e": "new", "r": r, "c": f(c), "s": f(s), "kx": f(a.kx as f64 / k), "ky": f(a.ky as f64 / k),
        "x": (a.x as f64 / to.0).round() as i64, "y": (a.y as f64 / to.0).round() as i64}), vec![("o", un.obs(to, t))]);
}

/// T01: one transform, points and directions there and back
pub fn maps<T: Build>(out: &mut Out, rng: &mut Rng, id: u64) {
    let [un, to] = random_units::<T>(rng);
    let a = random_ask::<T>(rng, &un, &to, Ask1::Any, 4000.0);
    let style = rng.next();
    out.begin(id, &format!("t01 #{id}: {} {:?} units {} {}", T::NAME, a, un.0, to.0));
    match guard(|| T::build(&a, style)) {
        Ok(t) => {
            put_new(out, &un, &to, 1, &a, &t);
            let r = guard(|| probe(out, rng, &un, &to, 1, &t, (a.kx.abs().min(a.ky.abs()) as f64 / (to.0 / un.0), a.x as f64 / to.0, a.y as f64 / to.0)));
            if let Err(m) = r { out.put(json!({"e": "bad", "why": m})); }
        }
        Err(m) => out.put(json!({"e": "bad", "why": m})),
    }
}

/// T02: a chain of operations over a bank of registers
pub fn chain<T: Build + Composable + Invertible + Default>(out: &mut Out, rng: &mut Rng, id: u64, steps: u64) {
    // transforms between two spaces: into, out of and inside each
    let un = random_units::<T>(rng);
    // scales along the axes commute with nothing but each other
    let stretch = T::AXES && rng.chance(0.25);
    out.begin(id, &format!("t02 #{id}: chain of {} operations on {} (units {} {}, stretch {stretch})", steps, T::NAME, un[0].0, un[1].0));
    let mut bank: Vec<(T, P, f64, usize, usize)> = vec![]; // transform, scales, bound on |position|, from, to
    let r = guard(|| {
        let d = T::default();
        put(out, json!({"e": "default", "r": 0}), vec![("o", un[0].obs(&un[0], &d))]);
        bank.push((d, (1.0, 1.0), 0.0, 0, 0));
        for _ in 0..steps {
            let op = if bank.len() < 3 { 0 } else { rng.below(8) };
            let (i, j) = (rng.below(bank.len() as u64) as usize, rng.below(bank.len() as u64) as usize);
            let r = if bank.len() < 5 { bank.len() } else { rng.below(5) as usize };
            let fits = |k: P, p: f64| k.0.min(k.1) > 0.33 && k.0.max(k.1) < 3.0 && p < 12000.0;
            let over = |a: P, b: P| (a.0 / b.0, a.1 / b.1);
            let least = |k: P| k.0.min(k.1);
            let (e, t, k, p, x, y): (Value, T, P, f64, usize, usize) = match op {
                0 => {
                    let (x, y) = (rng.below(2) as usize, rng.below(2) as usize);
                    let a = random_ask::<T>(rng, &un[x], &un[y], if stretch { Ask1::Stretch } else { Ask1::Similar }, 2500.0);
                    let t = T::build(&a, rng.next());
                    put_new(out, &un[x], &un[y], r, &a, &t);
                    let r1 = un[x].0 / un[y].0;
                    let k = if T::SCALE { (a.kx as f64 * r1, a.ky as f64 * r1) } else { (1.0, 1.0) };
                    set(&mut bank, r, (t, k, 3600.0, x, y));
                    continue;
                }
                1 | 2 | 3 => {
                    let (k, p) = ((bank[i].1.0 * bank[j].1.0, bank[i].1.1 * bank[j].1.1), bank[i].2 + bank[i].1.0.max(bank[i].1.1) * bank[j].2);
                    if !fits(k, p) || bank[j].4 != bank[i].3 { continue; }
                    (json!({"e": "compose", "r": r, "i": i, "j": j}), bank[i].0.compose(&bank[j].0), k, p, bank[j].3, bank[i].4)
                }
                4 | 5 => {
                    let (k, p) = (over((1.0, 1.0), bank[i].1), bank[i].2 / least(bank[i].1));
                    if !fits(k, p) { continue; }
                    (json!({"e": "inverse", "r": r, "i": i}), bank[i].0.inverse(), k, p, bank[i].4, bank[i].3)
                }
                _ => {
                    let (k, p) = (over(bank[j].1, bank[i].1), (bank[i].2 + bank[j].2) / least(bank[i].1));
                    if !fits(k, p) || bank[i].4 != bank[j].4 { continue; }
                    (json!({"e": "delta", "r": r, "i": i, "j": j}), bank[i].0.delta_transform(&bank[j].0), k, p, bank[j].3, bank[i].3)
                }
            };
            put(out, e, vec![("o", un[x].obs(&un[y], &t))]);
            let w = un[x].v((rng.int(-1500, 1500) as f64, rng.int(-1500, 1500) as f64));
            put(out, json!({"e": "apply", "i": r}), vec![("p", un[x].p(w)), ("q", un[y].p(t.apply(w)))]);
            set(&mut bank, r, (t, k, p, x, y));
        }
    });
    if let Err(m) = r { out.put(json!({"e": "bad", "why": m})); }
}
/// T02: the same small step over and over, about one point (the step by itself is close to doing
/// nothing)
pub fn repeat<T: Build + Composable + Invertible + Default>(out: &mut Out, rng: &mut Rng, id: u64) {
    let [un, _] = random_units::<T>(rng);
    let stretch = T::AXES && rng.chance(0.25);
    let n = *rng.pick(&[2u32, 3, 8, 30, 128, 256, 300, 400]);
    let (tx, ty) = if T::SCALE && rng.chance(0.7) { let k = rng.log(0.36, 2.8); (k, if stretch { rng.log(0.36, 2.8) } else { k }) } else { (1.0, 1.0) };
    let ang = if T::ROT && !stretch && rng.chance(0.7) { (rng.range(-13.0, 13.0) / n as f64) as f32 } else { 0.0 };
    let root = |k: f64| k.powf(1.0 / n as f64) as f32;
    let (kx, ky) = (root(tx), root(ty));
    // what n steps come to
    let (wx, wy, wa) = ((kx as f64).powi(n as i32), (ky as f64).powi(n as i32), ang as f64 * n as f64);
    let p = if rng.chance(0.3) { (0.0, 0.0) } else { (rng.range(-2500.0, 2500.0), rng.range(-2500.0, 2500.0)) };
    let about = T::ROT || T::SCALE;
    let (ss, sc) = (ang as f64).sin_cos();
    let (x, y) = if about {
        (p.0 - (sc * kx as f64 * p.0 - ss * ky as f64 * p.1), p.1 - (ss * kx as f64 * p.0 + sc * ky as f64 * p.1))
    } else { (p.0 / n as f64, p.1 / n as f64) };
    let a = Ask { ang, kx, ky, x: (x * un.0) as f32, y: (y * un.0) as f32 };
    let how = if n.is_power_of_two() && rng.chance(0.5) { 2 } else { *rng.pick(&[0u64, 1, 3, 4]) };
    out.begin(id, &format!("t02 #{id}: {n} times {} {a:?} (unit {}, way {how})", T::NAME, un.0));
    let style = rng.next();
    let r = guard(|| {
        let step = T::build(&a, style);
        let mut t = T::default();
        match how {
            0 => for _ in 0..n { t = step.compose(&t); },
            1 => for _ in 0..n { t = t.compose(&step); },
            2 => { t = T::build(&a, style); for _ in 0..n.ilog2() { t = t.compose(&t); } }
            3 => { let back = step.inverse(); for _ in 0..n { t = back.delta_transform(&t); } }
            _ => { let back = step.inverse(); for _ in 0..n { t = t.compose(&back); } t = t.inverse(); }
        }
        let f = |x: f64| (x * ONE).round() as i64;
        let (s, c) = wa.sin_cos();
        put(out, json!({"e": if about { "repeat" } else { "new" }, "r": 1, "c": f(c), "s": f(s), "kx": f(wx), "ky": f(wy), "x": p.0.round() as i64, "y": p.1.round() as i64}), vec![("o", un.obs(&un, &t))]);
        let w = un.v((rng.int(-1500, 1500) as f64, rng.int(-1500, 1500) as f64));
        put(out, json!({"e": "apply", "i": 1}), vec![("p", un.p(w)), ("q", un.p(t.apply(w)))]);
    });
    if let Err(m) = r { out.put(json!({"e": "bad", "why": m})); }
}
fn set<T>(bank: &mut Vec<T>, r: usize, v: T) { if r == bank.len() { bank.push(v); } else { bank[r] = v; } }

impl Build for IdentityTransform {
    const NAME: &'static str = "IdentityTransform"; const ROT: bool = false; const SCALE: bool = false; const AXES: bool = false;
    fn build(_: &Ask, s: u64) -> Self { if s % 2 == 0 { IdentityTransform } else { IdentityTransform::default() } }
}

pub fn run_maps(out: &mut Out, o: &crate::scene::Opts) {
    for (id, mut rng) in o.sessions() {
        match rng.below(12) {
            0 => maps::<Vec2>(out, &mut rng, id),
            1 => maps::<Translate2d>(out, &mut rng, id),
            2 | 3 | 4 => maps::<AxisTransform2d>(out, &mut rng, id),
            5 => {
                let un = Unit(1.0);
                out.begin(id, &format!("t01 #{id}: IdentityTransform"));
                let a = Ask { ang: 0.0, kx: 1.0, ky: 1.0, x: 0.0, y: 0.0 };
                let t = IdentityTransform::build(&a, rng.next());
                put_new(out, &un, &un, 1, &a, &t);
                probe(out, &mut rng, &un, &un, 1, &t, (1.0, 0.0, 0.0));
            }
            _ => maps::<Transform2d>(out, &mut rng, id),
        }
    }
}
pub fn run_chains(out: &mut Out, o: &crate::scene::Opts) {
    for (id, mut rng) in o.sessions() {
        if id % 9 == 4 {
            match rng.below(6) {
                0 => repeat::<Vec2>(out, &mut rng, id),
                1 => repeat::<Translate2d>(out, &mut rng, id),
                2 => repeat::<AxisTransform2d>(out, &mut rng, id),
                _ => repeat::<Transform2d>(out, &mut rng, id),
            }
            continue;
        }
        let steps = if o.tier_thorough { rng.int(3, 60) } else { rng.int(3, 24) } as u64;
        match rng.below(8) {
            0 => chain::<Vec2>(out, &mut rng, id, steps),
            1 => chain::<Translate2d>(out, &mut rng, id, steps),
            2 | 3 => chain::<AxisTransform2d>(out, &mut rng, id, steps),
            _ => chain::<Transform2d>(out, &mut rng, id, steps),
        }
    }
}

// -------------------------------------------------------------------- rotors

/// angles are integers, TURN steps to a full turn
pub const TURN: i64 = 65536;
fn ang_of(v: Vec2) -> i64 { let a = (v.y as f64).atan2(v.x as f64) / std::f64::consts::TAU * TURN as f64; a.round() as i64 }
fn rad(t: i64) -> f64 { t as f64 / TURN as f64 * std::f64::consts::TAU }

pub fn run_rotors(out: &mut Out, o: &crate::scene::Opts) {
    for (id, mut rng) in o.sessions() {
        out.begin(id, &format!("t03 #{id}: rotor registers"));
        let r = guard(|| {
            let mut bank: Vec<Rotor2d> = vec![Rotor2d::IDENTITY, Rotor2d::default()];
            out.put(json!({"e": "identity", "r": 0}));
            out.put(json!({"e": "identity", "r": 1}));
            if rng.chance(0.04) { // many turns, one after the other
                let t = rng.int(-TURN / 2, TURN / 2);
                let q = Rotor2d::from_angle(rad(t) as f32);
                out.put(json!({"e": "angle", "r": 2, "t": t}));
                bank.push(q);
                for _ in 0..rng.int(50, 200) {
                    let q = if rng.chance(0.5) { out.put(json!({"e": "mul", "r": 0, "i": 0, "j": 2})); bank[0] * bank[2] } else { out.put(json!({"e": "mul", "r": 0, "i": 2, "j": 0})); bank[2] * bank[0] };
                    bank[0] = q;
                    look(out, &mut rng, 0, q);
                }
            }
            for _ in 0..rng.int(3, 20) {
                let (i, j) = (rng.below(bank.len() as u64) as usize, rng.below(bank.len() as u64) as usize);
                let r = if bank.len() < 6 { bank.len() } else { rng.below(6) as usize };
                let any = |rng: &mut Rng| match rng.below(4) { 0 => rng.int(-16, 16) * TURN / 8, 1 => rng.int(-40, 40), 2 => rng.int(-5 * TURN, 5 * TURN), _ => rng.int(-TURN / 2, TURN / 2) };
                match rng.below(6) {
                    0 => { let t = any(&mut rng); let q = Rotor2d::from_angle(rad(t) as f32); out.put(json!({"e": "angle", "r": r, "t": t})); set(&mut bank, r, q); }
                    1 | 2 => { let q = bank[i] * bank[j]; out.put(json!({"e": "mul", "r": r, "i": i, "j": j})); set(&mut bank, r, q); }
                    3 => { let q = bank[i].inverse(); out.put(json!({"e": "inv", "r": r, "i": i})); set(&mut bank, r, q); }
                    _ => { // a quaternion: tilt after a turn about Z, any length
                        let t = any(&mut rng);
                        let mut z = glam_rot_z(rad(t));
                        if (2 * t) % TURN == 0 { z = z.map(f64::round); } // exact half turns
                        let q = match rng.below(3) {
                            0 => z,
                            _ => { let ax = rng.range(0.0, 6.2832); let w = *rng.pick(&[0.3, 1.0, 2.0, 2.8]) * rng.f(); let s = (w / 2.0).sin();
                                   let tilt = [s * ax.cos(), s * ax.sin(), 0.0, (w / 2.0).cos()];
                                   if rng.chance(0.5) { qmul(tilt, z) } else { qmul(z, tilt) } }
                        };
                        let len = match rng.below(3) { 0 => 1.0, 1 => -1.0, _ => rng.log(0.01, 100.0) };
                        let q = auburn_quat([q[0] * len, q[1] * len, q[2] * len, q[3] * len]);
                        let rot = Rotor2d::from_quaternion(q);
                        out.put(json!({"e": "quat", "r": r, "t": t}));
                        set(&mut bank, r, rot);
                    }
                }
                look(out, &mut rng, r, bank[r]);
            }
        });
        if let Err(m) = r { out.put(json!({"e": "bad", "why": m})); }
    }
}
fn look(out: &mut Out, rng: &mut Rng, r: usize, q: Rotor2d) {
    let a = q.angle() as f64 / std::f64::consts::TAU * TURN as f64;
    if !a.is_finite() { out.put(json!({"e": "bad", "why": "angle"})); return; }
    out.put(json!({"e": "read", "r": r, "t": a.round() as i64}));
    let (l, th) = (rng.log(0.01, 1000.0), rng.int(0, TURN - 1));
    let v = Vec2::new((l * rad(th).cos()) as f32, (l * rad(th).sin()) as f32);
    let w = q * v;
    if !w.is_finite() { out.put(json!({"e": "bad", "why": "turned vector"})); return; }
    // how the vector was turned, and its length in millionths of the old one
    let ratio = (w.length() as f64 / v.length() as f64 * 1.0e6).min(2.0e9);
    out.put(json!({"e": "turn", "r": r, "from": ang_of(v), "to": ang_of(w), "ppm": ratio.round() as i64}));
}
fn glam_rot_z(t: f64) -> [f64; 4] { [0.0, 0.0, (t / 2.0).sin(), (t / 2.0).cos()] }
fn qmul(a: [f64; 4], b: [f64; 4]) -> [f64; 4] {
    [a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1], a[3] * b[1] - a[0] * b[2] + a[1] * b[3] + a[2] * b[0],
     a[3] * b[2] + a[0] * b[1] - a[1] * b[0] + a[2] * b[3], a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2]]
}
fn auburn_quat(q: [f64; 4]) -> auburn::Quat { auburn::Quat::from_xyzw(q[0] as f32, q[1] as f32, q[2] as f32, q[3] as f32) }
