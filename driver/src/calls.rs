//! Life of single queries (spec/Calls.tla): do they return, how often do they
//! look at support points, are they finite, do they repeat themselves.
use crate::scene::*;
use crate::shapes::*;
use crate::util::*;
use auburn::col2d::*;
use serde_json::{json, Value};
use std::cell::Cell;

/// A shape that counts how often it is looked at, and that twice asks the library something
/// else before it answers.
#[derive(Debug)]
pub struct Counted<S> { s: S, n: Cell<u64> }
impl<S> Counted<S> { pub fn new(s: S) -> Self { Counted { s, n: Cell::new(0) } } }
impl<S: ExtremePoint2d> ExtremePoint2d for Counted<S> {
    fn extreme_point(&self, direction: Vec2) -> Vec2 {
        self.n.set(self.n.get() + 1);
        if self.n.get() > 3000 { panic!("RUNAWAY: more than 3000 support evaluations"); }
        if matches!(self.n.get(), 2 | 4) { meanwhile(); }
        self.s.extreme_point(direction)
    }
}
impl<S: ExtremePoint2d, T: Transformation2d> ExtremePointT2d<T> for Counted<S> {}
impl<R: ExtremePoint2d, S: ExtremePoint2d> DefaultMinkowski<Counted<R>> for Counted<S> {}

/// queries asked from within a query: they are answered as they are by themselves
fn meanwhile() {
    let (a, b) = (Box2d::with_halfdims(1.0, 0.5), Box2d::with_halfdims(0.25, 2.0));
    let ask = |x: f32, y: f32| {
        let t = Transform2d::from_angle(0.3).with_translation(Vec2::new(x, y));
        format!("{:?}", (a.collides_rel(&b, &t), a.penetrates_rel(&b, &t), a.distance_to_rel(&b, &t), a.sdfv_rel(&b, &t)))
    };
    let said = [ask(0.75, 0.5), ask(4.0, 1.0)];
    assert!(ALONE.get().is_none_or(|alone| *alone == said), "another answer from within a query: {said:?}");
    let _ = ALONE.set(said);
}
static ALONE: std::sync::OnceLock<[String; 2]> = std::sync::OnceLock::new();

/// (question, answer as text, finite)
fn shown(a: &Ans) -> (&'static str, String, bool) {
    let v = |v: &Vec2| format!("{:08x} {:08x}", if v.x.is_nan() { !0 } else { v.x.to_bits() }, if v.y.is_nan() { !0 } else { v.y.to_bits() });
    match a {
        Ans::Collides(b) => ("collides", format!("{b}"), true),
        Ans::Pen(None) => ("penetrates", "none".into(), true),
        Ans::Pen(Some(x)) => ("penetrates", v(x), x.is_finite()),
        Ans::Dist(None) => ("distance", "none".into(), true),
        Ans::Dist(Some(x)) => ("distance", v(x), x.is_finite()),
        Ans::Sdfv(b, x) => ("sdfv", format!("{b} {}", v(x)), x.is_finite()),
        Ans::Sdf(x) => ("sdf", format!("{:08x}", x.to_bits()), x.is_finite()),
        Ans::Fail(q, m) => (q, m.clone(), true),
    }
}

/// the question, and how it ended, of caller `w`
fn told(w: usize, form: &str, a: &Ans, n: u64) -> [Vec<Value>; 2] {
    let (q, s, fin) = shown(a);
    let q = format!("{q}/{form}");
    let mut end = vec![];
    if n > 0 { end.push(json!({"e": "probed", "w": w, "n": n.min(1_000_000)})); }
    end.push(if let Ans::Fail(..) = a { json!({"e": "died", "w": w, "q": q, "why": s}) }
        else { json!({"e": "ret", "w": w, "q": q, "a": s, "finite": fin}) });
    [vec![json!({"e": "ask", "w": w, "q": q})], end]
}
fn put(out: &mut Out, form: &str, a: &Ans, n: u64) {
    for v in told(0, form, a, n).into_iter().flatten() { out.put(v); }
}

/// the four queries on counting copies of the shapes, one at a time
fn counted(da: &Desc, db: &Desc, tk: Tk, pl: &Pl) -> Vec<(Ans, u64)> {
    macro_rules! one { ($a:expr, $b:expr, $t:expr) => {{
        let (a, b, t) = (Counted::new($a), Counted::new($b), $t);
        let mut v = vec![];
        for i in 0..4 {
            a.n.set(0); b.n.set(0);
            let r = match i {
                0 => guard(|| Ans::Collides(a.collides_rel(&b, &t))),
                1 => guard(|| Ans::Pen(a.penetrates_rel(&b, &t))),
                2 => guard(|| Ans::Dist(a.distance_to_rel(&b, &t))),
                _ => guard(|| { let (c, x) = a.sdfv_rel(&b, &t); Ans::Sdfv(c, x) }),
            };
            let q = ["collides", "penetrates", "distance", "sdfv"][i];
            v.push((r.unwrap_or_else(|m| Ans::Fail(q, m)), a.n.get().max(b.n.get())));
        }
        v
    }} }
    macro_rules! shapes { ($t:expr) => {
        match (da.kind, db.kind) {
            (Kind::Ball, _) if db.kind == Kind::Box => one!(to_ball(da), to_box(db), $t),
            (Kind::Ball, _) if db.kind == Kind::Ball => one!(to_ball(da), to_ball(db), $t),
            (Kind::Box, Kind::Ball) => one!(to_box(da), to_ball(db), $t),
            (Kind::Box, Kind::Box) => one!(to_box(da), to_box(db), $t),
            (Kind::Box, Kind::Poly) => one!(to_box(da), to_poly(db), $t),
            (Kind::Poly, Kind::Box) => one!(to_poly(da), to_box(db), $t),
            (Kind::Poly, Kind::Poly) => one!(to_poly(da), to_poly(db), $t),
            (x, y) if x.mine() && y.mine() => one!(to_mine(da), to_mine(db), $t),
            (Kind::User, Kind::User) => one!(UserShape::new(da), UserShape::new(db), $t),
            (Kind::SBall | Kind::SBox | Kind::SPoly, Kind::SBall | Kind::SBox | Kind::SPoly) => one!(to_shape2d(da), to_shape2d(db), $t),
            _ => vec![],
        }
    } }
    match tk {
        Tk::Id => shapes!(IdentityTransform),
        Tk::Vec => shapes!(v2(pl.pos)),
        Tk::Tr => shapes!(Translate2d::new(v2(pl.pos))),
        Tk::Ax => shapes!(AxisTransform2d::new(v2(pl.pos), pl.k)),
        Tk::T2 => shapes!(t2(pl)),
        #[cfg(feature = "bevy")]
        Tk::Bevy => shapes!(crate::bv::tb(pl)),
    }
}

/// Placements in or within rounding of exact contact, and other awkward ones.
pub fn awkward(rng: &mut Rng, da: &Desc, db: &Desc, pb: &Pl, size: f64) -> P {
    let o = Pl { pos: (0.0, 0.0), ..*pb };
    let va: Vec<P> = da.hull.clone();
    let vb: Vec<P> = db.hull.iter().map(|p| o.apply(*p)).collect();
    let rb = db.r * pb.k as f64;
    let pick = |rng: &mut Rng, v: &Vec<P>| *rng.pick(v);
    let mid = |rng: &mut Rng, v: &Vec<P>| { let i = rng.below(v.len() as u64) as usize; let (a, b) = (v[i], v[(i + 1) % v.len()]); let t = *rng.pick(&[0.5, 0.25, 0.75, 0.3]); (a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1)) };
    let base = match rng.below(9) {
        0 => if rng.chance(0.3) { let r = rng.log(1e-44, 1e-6 * size); (r * *rng.pick(&[-1.0, 0.0, 0.3, 1.0]), r * *rng.pick(&[-1.0, 0.0, 0.7, 1.0])) } else { (0.0, 0.0) },
        1 => sub(pick(rng, &va), pick(rng, &vb)),             // corner on corner
        2 => sub(pick(rng, &va), mid(rng, &vb)),              // corner on edge
        3 => sub(mid(rng, &va), pick(rng, &vb)),
        4 => sub(mid(rng, &va), mid(rng, &vb)),
        5 => pick(rng, &va),                                  // centre on corner
        6 => { // axis contact
            let d = *rng.pick(&[(1.0, 0.0), (-1.0, 0.0), (0.0, 1.0), (0.0, -1.0)]);
            let h = support(da, &Pl::id(), d) + support(db, &o, (-d.0, -d.1));
            let t = *rng.pick(&[0.0, 0.25, 0.5, 1.0]) * size;
            (d.0 * h - d.1 * t, d.1 * h + d.0 * t)
        }
        7 => { // contact along 3-4-5 or diagonal
            let d = *rng.pick(&[(0.6, 0.8), (-0.8, 0.6), (0.6, -0.8), (std::f64::consts::FRAC_1_SQRT_2, std::f64::consts::FRAC_1_SQRT_2)]);
            let h = support(da, &Pl::id(), d) + support(db, &o, (-d.0, -d.1));
            (d.0 * h, d.1 * h)
        }
        _ => { let d = rng.range(0.0, 6.3); let d = (d.cos(), d.sin()); let h = support(da, &Pl::id(), d) + support(db, &o, (-d.0, -d.1)); (d.0 * h, d.1 * h) }
    };
    // for inflated shapes, offset the contact by the radii
    let r = da.r + rb;
    let l = len(base);
    let base = if r > 0.0 && l > 0.0 && rng.chance(0.5) { (base.0 * (1.0 + r / l), base.1 * (1.0 + r / l)) } else { base };
    match rng.below(6) {
        0 => { let e = size * rng.log(1e-8, 1e-3); (base.0 + e * *rng.pick(&[-1.0, 0.0, 1.0]), base.1 + e * *rng.pick(&[-1.0, 0.0, 1.0])) }
        1 => { let f = |x: f64, rng: &mut Rng| { let y = x as f32; let k = rng.int(-2, 2); f32::from_bits((y.to_bits() as i64 + k).max(0) as u32) as f64 }; let x = f(base.0, rng); let y = f(base.1, rng); if x.is_finite() && y.is_finite() { (x, y) } else { base } }
        _ => base,
    }
}

pub fn run(out: &mut Out, o: &Opts) {
    let _ = guard(meanwhile);
    // the questions of the first sessions are asked again when everything else has been asked
    let mut kept: Vec<(u64, Desc, Desc, bool, Tk, Pl, Vec<Value>)> = vec![];
    let mut since = 0;
    let only = o.only.map(|k| k % LATER);
    for (id, mut rng) in (Opts { only, feed: None, ..*o }).sessions() {
        let rng = &mut rng;
        let (ka, kb) = match rng.below(10) { 0 => *rng.pick(CLOSED), 1 => *rng.pick(SCALAR), 2 => (Kind::User, Kind::User), 3 => union_pair(rng), _ => *rng.pick(ITER) };
        let size = random_unit(rng);
        let lattice = rng.chance(0.6);
        let f = |rng: &mut Rng| if lattice { size * *rng.pick(&[0.5, 1.0, 1.0, 2.0]) } else { size * rng.log(0.01, 1.0) };
        let (ma, mb) = (maxn(rng), maxn(rng));
        let sa = f(rng);
        let sb = f(rng);
        let da = random_shape(rng, ka, sa, lattice, ma);
        let own = if ka == kb && rng.chance(0.25) { da.clone() } else { random_shape(rng, kb, sb, lattice, mb) };
        // one and the same shape twice
        let db = if ka == kb && rng.chance(0.15) { &da } else { &own };
        let mut tk = random_tk(rng, false);
        if lattice && rng.chance(0.6) && tk != Tk::Id { tk = Tk::Vec; }
        let mut pb = pl_of(rng, tk, (0.0, 0.0));
        if tk.turns() && rng.chance(0.5) { pb.k = 1.0; pb.ang = *rng.pick(&[0.0, std::f32::consts::FRAC_PI_2, std::f32::consts::PI, std::f32::consts::FRAC_PI_4]); }
        if tk != Tk::Id {
            pb.pos = if rng.chance(0.75) { awkward(rng, &da, db, &pb, size) }
                else if rng.chance(0.1) { let r = size * rng.log(1.0, 1e6); let t = rng.range(0.0, 6.3); (r * t.cos(), r * t.sin()) }
                else { random_pos(rng, &da, &Pl::id(), db, &pb, lattice, size, "c06") };
            pb = pb.snap();
        }
        let ext = extent_placed(&da, &Pl::id()).max(extent_placed(db, &pb)).max(extent_local(db));
        if ext <= 1e-4 * size { continue; } // nothing of any size
        let lat = Lat::of(ext / 9000.0);
        let desc = format!("c06 #{id}: A={:?} r={} {:?}; B={:?} r={} {:?} at {:?}; transform {:?}", da.kind, da.r, da.raw, db.kind, db.r, db.raw, pb, tk);
        out.begin(id, &desc);
        let placed = [lat.body(1, &da, &Pl::id()), lat.body(2, db, &pb), json!({"e": "focus", "i": 1, "j": 2})];
        for v in &placed { out.put(v.clone()); }
        since += 1;
        // The questions are asked in turn; in between, others are asked (about the pair placed a
        // little or quite differently, or the other way round), and the second time perhaps by
        // another thread: nothing of that may matter.
        let ask = |form: usize| -> Vec<(&'static str, Ans, u64)> {
            match form {
                0 => query_rel(&da, db, tk, &pb).into_iter().chain(query_sdf_rel(&da, db, tk, &pb)).map(|a| ("rel", a, 0)).collect(),
                1 if tk != Tk::Id => query_world(&da, db, tk, &Pl::id(), &pb).into_iter().chain(query_sdf_world(&da, db, tk, &Pl::id(), &pb)).map(|a| ("world", a, 0)).collect(),
                2 => counted(&da, db, tk, &pb).into_iter().map(|(a, n)| ("counted", a, n)).collect(),
                _ => vec![],
            }
        };
        if kept.len() < 300 && tk != Tk::Id { kept.push((id, da.clone(), db.clone(), std::ptr::eq(db, &da), tk, pb, placed.to_vec())); }
        for again in 0..2 {
            // the library's log is read the second time, or the first
            #[cfg(feature = "bevy")]
            crate::log_all((again == 1) != (id % 2 == 1));
            let elsewhere = again == 1 && rng.chance(0.5);
            let order = if again == 0 { [0, 1, 2] } else { *rng.pick(&[[0, 1, 3], [1, 0, 3], [2, 0, 1], [1, 2, 0]]) };
            if again == 1 && tk != Tk::Id {
                for _ in 0..rng.below(4) {
                    let d = size * rng.log(0.003, 1.5);
                    let t = rng.range(0.0, 6.3);
                    let q = Pl { pos: (pb.pos.0 + d * t.cos(), pb.pos.1 + d * t.sin()), ..pb };
                    let n = match rng.below(3) {
                        0 => query_rel(&da, db, tk, &q).len(),
                        1 => query_world(&da, db, tk, &Pl::id(), &q).len(),
                        _ => counted(db, &da, tk, &q).len(),
                    };
                    out.put(json!({"e": "others", "n": n}));
                }
            }
            for form in order {
                let said = if elsewhere { std::thread::scope(|s| s.spawn(|| ask(form)).join().expect("asking thread")) } else { ask(form) };
                if again == 0 && kept.last().is_some_and(|k| k.0 == id) { for (f, a, n) in &said { kept.last_mut().unwrap().6.extend(told(0, f, a, *n).into_iter().flatten()); } }
                for (f, a, n) in said { put(out, f, &a, n); }
            }
        }
        // and all of them by several threads at the same time, again and again
        if id % 13 == 6 {
            let callers = rng.int(2, 4) as usize;
            let seeds: Vec<u64> = (0..callers).map(|_| rng.below(1 << 62)).collect();
            let start = std::sync::Barrier::new(callers);
            let (ask, start, da, pb) = (&ask, &start, &da, &pb);
            let mut moments: Vec<(u64, Vec<Value>)> = std::thread::scope(|s| {
                let all: Vec<_> = seeds.iter().enumerate().map(|(i, &seed)| s.spawn(move || caller(i + 1, seed, start, ask, &|d, t| {
                    let q = Pl { pos: (pb.pos.0 + size * d * t.cos(), pb.pos.1 + size * d * t.sin()), ..*pb };
                    if tk != Tk::Id { query_rel(da, db, tk, &q).len() } else { 0 }
                }))).collect();
                all.into_iter().flat_map(|h| h.join().expect("asking thread")).collect()
            });
            moments.sort_by_key(|m| m.0);
            for v in moments.into_iter().flat_map(|m| m.1) { out.put(v); }
        }
    }
    for (id, da, own, same, tk, pb, before) in kept {
        let db = if same { &da } else { &own };
        out.begin(LATER + id, &format!("c06 #{id} asked again, {since} sessions later: A={:?} r={} {:?}; B={:?} r={} {:?} at {pb:?}; transform {tk:?}", da.kind, da.r, da.raw, db.kind, db.r, db.raw));
        for v in before { out.put(v); }
        out.put(json!({"e": "others", "n": since}));
        for v in query_rel(&da, db, tk, &pb).iter().chain(&query_sdf_rel(&da, db, tk, &pb)) { put(out, "rel", v, 0); }
        for v in query_world(&da, db, tk, &Pl::id(), &pb).iter().chain(&query_sdf_world(&da, db, tk, &Pl::id(), &pb)) { put(out, "world", v, 0); }
        for (a, n) in counted(&da, db, tk, &pb) { put(out, "counted", &a, n); }
    }
}
const LATER: u64 = 1_000_000_000;

/// One of several threads asking: everything once, and whatever it is told differently later.
fn caller(w: usize, seed: u64, start: &std::sync::Barrier, ask: &(dyn Fn(usize) -> Vec<(&'static str, Ans, u64)> + Sync), other: &dyn Fn(f64, f64) -> usize) -> Vec<(u64, Vec<Value>)> {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let mut moments = vec![];
    let mut heard = std::collections::HashMap::new();
    start.wait();
    for _ in 0..12 {
        let first = rng.below(3) as usize;
        for form in [first, (first + 1) % 3, (first + 2) % 3] {
            timed(true);
            let said = ask(form);
            let times = timed(false);
            assert_eq!(said.len(), times.len());
            for ((f, a, n), (t0, t1)) in said.into_iter().zip(times) {
                let (q, s, _) = shown(&a);
                if heard.insert((q, f), s.clone()).is_some_and(|old| old == s) { continue; }
                let [begin, end] = told(w, f, &a, n);
                moments.push((t0, begin));
                moments.push((t1, end));
            }
            if rng.chance(0.3) { other(rng.log(0.003, 1.5), rng.range(0.0, 6.3)); }
        }
    }
    moments
}

/// User-defined shapes with every support point they were asked for.
pub fn run_evidence(out: &mut Out, o: &Opts) {
    for (id, mut rng) in o.sessions() {
        let rng = &mut rng;
        let size = random_unit(rng);
        let (sa, sb) = (size * rng.log(0.15, 1.0), size * rng.log(0.15, 1.0));
        let da = random_shape(rng, Kind::User, sa, false, 7);
        let db = random_shape(rng, Kind::User, sb, false, 7);
        let mut tk = random_tk(rng, false);
        if tk == Tk::Id { tk = Tk::T2; }
        let mut pb = pl_of(rng, tk, (0.0, 0.0));
        let style = *rng.pick(&["c01", "c02", "c03"]);
        pb.pos = random_pos(rng, &da, &Pl::id(), &db, &pb, false, size, style);
        pb = pb.snap();
        let ext = extent_placed(&da, &Pl::id()).max(extent_placed(&db, &pb)).max(extent_local(&db) * body_unit(&pb));
        let lat = Lat::of(ext / 9000.0);
        let desc = format!("c07e #{id}: A r={} {:?}; B r={} {:?} at {:?}; transform {:?}", da.r, da.raw, db.r, db.raw, pb, tk);
        out.begin(id, &desc);
        out.put(lat.body(1, &da, &Pl::id()));
        out.put(lat.body(2, &db, &pb));
        out.put(json!({"e": "focus", "i": 1, "j": 2}));
        let (a, b) = (UserShape::new(&da), UserShape::new(&db));
        macro_rules! go { ($t:expr) => {{
            let t = $t;
            for i in 0..4 {
                a.log.borrow_mut().clear(); b.log.borrow_mut().clear();
                let r = match i {
                    0 => guard(|| Ans::Collides(a.collides_rel(&b, &t))),
                    1 => guard(|| Ans::Pen(a.penetrates_rel(&b, &t))),
                    2 => guard(|| Ans::Dist(a.distance_to_rel(&b, &t))),
                    _ => guard(|| { let (c, x) = a.sdfv_rel(&b, &t); Ans::Sdfv(c, x) }),
                };
                let r = r.unwrap_or_else(|m| Ans::Fail(["collides", "penetrates", "distance", "sdfv"][i], m));
                let (la, lb) = (a.log.borrow(), b.log.borrow());
                if la.len() == lb.len() && la.len() <= 200 {
                    let dir = |v: Vec2| { let p = p64(v); let l = len(p); if l > 0.0 && l.is_finite() { json!([(p.0 / l * 16384.0).round() as i64, (p.1 / l * 16384.0).round() as i64]) } else { json!([0, 0]) } };
                    for (x, y) in la.iter().zip(lb.iter()) {
                        if x.1.is_finite() && y.1.is_finite() {
                            out.put(json!({"e": "probe", "n": dir(x.0), "a": lat.p(p64(x.1)), "m": dir(y.0), "b": lat.p({ let (q, m) = (p64(y.1), body_unit(&pb)); (m * q.0, m * q.1) })}));
                        }
                    }
                }
                out.put(lat.ans(&r, false, 64));
            }
        }} }
        match tk {
            Tk::Vec => go!(v2(pb.pos)),
            Tk::Tr => go!(Translate2d::new(v2(pb.pos))),
            Tk::Ax => go!(AxisTransform2d::new(v2(pb.pos), pb.k)),
            _ => go!(t2(&pb)),
        }
    }
}
