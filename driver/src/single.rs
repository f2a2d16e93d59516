//! Single shapes: support points, bounding boxes, polygon constructors
//! (spec/TraceShapes.tla).
use crate::scene::{extent_local, extent_placed, random_tk, random_unit, pl_of, t2, Lat, Opts, Pl, Tk};
use crate::shapes::*;
use crate::util::*;
use auburn::col2d::*;
use serde_json::{json, Value};

fn all_kinds(rng: &mut Rng) -> Kind { *rng.pick(&[Kind::Point, Kind::Ball, Kind::Box, Kind::Poly, Kind::Poly, Kind::SBall, Kind::SBox, Kind::SPoly, Kind::SPoly, Kind::User, Kind::MPoint, Kind::MBall, Kind::MBox, Kind::MPoly, Kind::MBlob]) }
#[cfg(feature = "bevy")]
type Extra = bevy::prelude::Transform;
#[cfg(not(feature = "bevy"))]
type Extra = Vec2;
fn one_support<S: ExtremePoint2d + ExtremePointT2d<Vec2> + ExtremePointT2d<Translate2d> + ExtremePointT2d<AxisTransform2d> + ExtremePointT2d<Transform2d> + ExtremePointT2d<IdentityTransform> + ExtremePointT2d<Extra>>(s: &S, how: u64, tk: Tk, pl: &Pl, d: Vec2) -> Vec2 {
    macro_rules! go { ($t:expr) => {{ let t = $t; if how % 2 == 0 { s.extreme_point_t(&t, d) } else { Collider2d::new(s, &t).extreme_point(d) } }} }
    if tk == Tk::Id && how % 3 == 0 { return s.extreme_point(d); }
    match tk {
        Tk::Id => go!(IdentityTransform),
        Tk::Vec => go!(v2(pl.pos)),
        Tk::Tr => go!(Translate2d::new(v2(pl.pos))),
        Tk::Ax => go!(AxisTransform2d::new(v2(pl.pos), pl.k)),
        Tk::T2 => go!(t2(pl)),
        #[cfg(feature = "bevy")]
        Tk::Bevy => go!(crate::bv::tb(pl)),
    }
}
fn support_of(d: &Desc, how: u64, tk: Tk, pl: &Pl, dir: Vec2) -> Vec2 {
    match d.kind {
        Kind::Point => one_support(&Point, how, tk, pl, dir),
        Kind::Ball => one_support(&to_ball(d), how, tk, pl, dir),
        Kind::Box => one_support(&to_box(d), how, tk, pl, dir),
        Kind::Poly => one_support(&to_poly(d), how, tk, pl, dir),
        Kind::User => one_support(&UserShape::new(d), how, tk, pl, dir),
        k if k.mine() => one_support(&to_mine(d), how, tk, pl, dir),
        _ => one_support(&to_shape2d(d), how, tk, pl, dir),
    }
}
fn put_support(out: &mut Out, lat: &Lat, dir: P, got: Result<Vec2, String>) {
    let n: Vec<i64> = vec![(dir.0 * 16384.0).round() as i64, (dir.1 * 16384.0).round() as i64];
    match got {
        Ok(p) if p.is_finite() && p.length() as f64 <= 24000.0 * lat.unit => out.put(json!({"e": "support", "n": n, "p": lat.p(p64(p))})),
        Ok(p) => out.put(json!({"e": "bad", "why": format!("support point {p:?}")})),
        Err(m) => out.put(json!({"e": "bad", "why": m})),
    }
}
fn random_dir(rng: &mut Rng, d: &Desc) -> P {
    let th = match rng.below(4) {
        0 => rng.int(0, 7) as f64 * std::f64::consts::FRAC_PI_4,
        1 if d.hull.len() > 1 => { let i = rng.below(d.hull.len() as u64) as usize; let e = sub(d.hull[(i + 1) % d.hull.len()], d.hull[i]); (-e.0).atan2(e.1) + *rng.pick(&[0.0, 0.01, -0.01, 0.1]) }
        _ => rng.range(0.0, 6.2832),
    };
    (th.cos(), th.sin())
}

fn most_corners(rng: &mut Rng, o: &Opts) -> i64 { if rng.chance(0.01) { rng.int(100, 600) } else if o.tier_thorough { 64 } else { 24 } }

pub fn run_support(out: &mut Out, o: &Opts) {
    for (id, mut rng) in o.sessions() {
        let rng = &mut rng;
        let size = random_unit(rng);
        let kind = all_kinds(rng);
        let mut d = { let (lattice, n) = (rng.chance(0.2), most_corners(rng, o)); random_shape(rng, kind, size, lattice, n) };
        let made_from_box = kind == Kind::Poly && rng.chance(0.3);
        let src = if made_from_box { let b = random_shape(rng, Kind::Box, size, false, 4); d = Desc { kind: Kind::Poly, ..b.clone() }; Some(b) } else { None };
        let tk = random_tk(rng, false);
        let off = (size * rng.range(-4.0, 4.0), size * rng.range(-4.0, 4.0));
        let pl = pl_of(rng, tk, off);
        let ext = extent_placed(&d, &pl).max(extent_local(&d)).max(1e-6 * size);
        let lat = Lat::of(ext / 12000.0);
        out.begin(id, &format!("s01 #{id}: {:?} r={} {:?} (polygon from box: {made_from_box}) placed by {:?} {:?}", d.kind, d.r, d.raw, tk, pl));
        let mut b = lat.body(1, &d, &pl);
        b["e"] = json!("shape");
        out.put(b);
        for _ in 0..8 {
            let dir = random_dir(rng, &d);
            let l = match rng.below(4) { 0 => 1.0, 1 => rng.log(1e-3, 1e3), 2 => rng.log(1e-30, 1e30), _ => size };
            let v = Vec2::new((dir.0 * l) as f32, (dir.1 * l) as f32);
            let dir = { let p = p64(v); let n = len(p); (p.0 / n, p.1 / n) };
            let how = rng.next();
            let got = guard(|| match &src { Some(b) => one_support(&Poly2d::from(to_box(b)), how, tk, &pl, v), None => support_of(&d, how, tk, &pl, v) });
            put_support(out, &lat, dir, got);
        }
    }
}

fn put_half(out: &mut Out, lat: &Lat, mut rec: Value, b: &Box2d) {
    let h = p64(b.halfsize);
    if !b.halfsize.is_finite() || h.0.abs().max(h.1.abs()) > 30000.0 * lat.unit { rec = json!({"e": "bad", "why": "half sizes"}); }
    else { rec["h"] = json!([(h.0 / lat.unit).round() as i64, (h.1 / lat.unit).round() as i64]); }
    out.put(rec);
}
pub fn run_bounds(out: &mut Out, o: &Opts) {
    for (id, mut rng) in o.sessions() {
        let rng = &mut rng;
        let size = *rng.pick(&[1.0, 0.25, 10.0, 0.02, 37.0, 1000.0, 1.0e-4]);
        if rng.chance(0.5) {
            let kind = *rng.pick(&[Kind::Point, Kind::Ball, Kind::Box, Kind::Poly, Kind::Poly, Kind::Poly]);
            // any convex polygon: the bounding box does not need the origin inside
            let mut d = { let (lattice, n) = (rng.chance(0.2), most_corners(rng, o)); random_shape(rng, kind, size, lattice, n) };
            if kind == Kind::Poly && rng.chance(0.4) {
                let s = (size * rng.range(-3.0, 3.0), size * rng.range(-3.0, 3.0));
                let raw: Vec<Vec2> = d.raw.iter().map(|p| *p + v2(s)).collect();
                d = Desc { kind, hull: hull(raw.iter().map(|p| p64(*p)).collect()), r: 0.0, raw };
            }
            let lat = Lat::of(extent_local(&d).max(1e-6 * size) / 12000.0);
            out.begin(id, &format!("s02 #{id}: {:?} r={} {:?}", d.kind, d.r, d.raw));
            let mut b = lat.body(1, &d, &Pl::id());
            b["e"] = json!("shape");
            out.put(b);
            match guard(|| match d.kind { Kind::Point => Point.symmetric_bounding_box(), Kind::Ball => to_ball(&d).symmetric_bounding_box(), Kind::Box => to_box(&d).symmetric_bounding_box(), _ => to_poly(&d).symmetric_bounding_box() }) {
                Ok(b) => put_half(out, &lat, json!({"e": "bound"}), &b),
                Err(m) => out.put(json!({"e": "bad", "why": m})),
            }
        } else {
            let lat = Lat::of(3.0 * size / 12000.0);
            let mut b = Box2d::with_halfdims((size * rng.range(0.0, 1.0)) as f32, (size * rng.range(0.0, 1.0)) as f32);
            if rng.chance(0.3) { b = Box2d::default(); }
            out.begin(id, &format!("s02 #{id}: growing {b:?}"));
            put_half(out, &lat, json!({"e": "box"}), &b);
            let mut seen: Vec<Vec2> = vec![];
            for _ in 0..if rng.chance(0.01) { rng.int(100, 600) } else { rng.int(1, 12) } {
                let p = if !seen.is_empty() && rng.chance(0.2) { *rng.pick(&seen) } else {
                    let k = *rng.pick(&[0.5, 1.0, 2.5]);
                    match rng.below(5) { 0 => Vec2::new(0.0, (size * rng.range(-k, k)) as f32), 1 => Vec2::new((size * rng.range(-k, k)) as f32, 0.0), _ => Vec2::new((size * rng.range(-k, k)) as f32, (size * rng.range(-k, k)) as f32) }
                };
                seen.push(p);
                match guard(|| { let mut c = b; c.cover(&p); c }) {
                    Ok(c) => { b = c; put_half(out, &lat, json!({"e": "cover", "p": lat.p(p64(p))}), &b); }
                    Err(m) => { out.put(json!({"e": "bad", "why": m})); break; }
                }
            }
        }
    }
}

fn bits(p: &[Vec2]) -> Value { json!(p.iter().map(|v| vec![v.x.to_bits() as i32, v.y.to_bits() as i32]).collect::<Vec<_>>()) }
pub fn run_polys(out: &mut Out, o: &Opts) {
    for (id, mut rng) in o.sessions() {
        let rng = &mut rng;
        match rng.below(4) {
            0 | 1 => {
                let n = if id < 130 { (id / 2) as usize + 1 } else if rng.chance(0.05) { *rng.pick(&[0, 1, 2, 65, 100, 128, 200, 255, 256, 257, 300, 500, 1000, 1024, 1025, 2000, 3600, 4097]) } else { rng.int(1, 64) as usize };
                let up = rng.chance(0.5);
                let r = rng.log(1e-3, 1e5) as f32;
                out.begin(id, &format!("s03 #{id}: regular polygon, {n} sides, radius {r}, upright {up}"));
                match guard(|| if up { Poly2d::regular_upright(n, r) } else { Poly2d::regular(n, r) }) {
                    Ok(p) => {
                        let pts: Vec<Value> = p.points.iter().map(|v| {
                            let q = p64(*v);
                            let a = (q.1.atan2(q.0) / std::f64::consts::TAU * 65536.0).round();
                            json!([if a.is_finite() { a as i64 } else { 99999 }, (len(q) / r as f64 * 1e6).min(2e9).round() as i64])
                        }).collect();
                        out.put(json!({"e": "regular", "n": n, "up": up, "pts": pts}));
                    }
                    Err(m) => out.put(json!({"e": "bad", "why": m})),
                }
            }
            2 => {
                let n = if rng.chance(0.01) { rng.int(100, 3000) } else if rng.chance(0.1) { rng.int(0, 100) } else { rng.int(1, 12) } as usize;
                let pts: Vec<Vec2> = (0..n).map(|_| Vec2::new(rng.range(-100.0, 100.0) as f32, rng.range(-1.0, 1.0) as f32)).collect();
                let pts: Vec<Vec2> = pts.iter().map(|p| if rng.chance(0.1) { *rng.pick(&pts) } else { *p }).collect(); // repeated corners are kept
                out.begin(id, &format!("s03 #{id}: polygon from {pts:?}"));
                match guard(|| if rng.chance(0.5) { Poly2d::new(&pts).points } else { match Shape2d::poly(&pts) { Shape2d::Poly2d(p) => p.points, _ => vec![] } }) {
                    Ok(k) => out.put(json!({"e": "keep", "given": bits(&pts), "kept": bits(&k)})),
                    Err(m) => out.put(json!({"e": "bad", "why": m})),
                }
            }
            _ => {
                // lattice points: exact in f32
                let unit = *rng.pick(&[1.0, 0.25, 1.0 / 1024.0, 64.0]);
                let n = if rng.chance(0.1) { rng.int(0, 40) } else { rng.int(1, 8) } as usize;
                let g = *rng.pick(&[3, 10, 200]);
                let mut pts: Vec<(i64, i64)> = if rng.chance(0.08) {
                    // many corners on a circle, one of them perhaps not quite
                    let (n, a0) = (rng.int(20, 160), rng.range(0.0, 6.3));
                    let mut v: Vec<(i64, i64)> = (0..n).map(|i| { let a = a0 + 6.283185307179586 * i as f64 / n as f64; ((20000.0 * a.cos()).round() as i64, (20000.0 * a.sin()).round() as i64) }).collect();
                    if rng.chance(0.7) { let i = rng.below(n as u64) as usize; let f = rng.range(0.97, 1.001); v[i] = ((v[i].0 as f64 * f) as i64, (v[i].1 as f64 * f) as i64); }
                    v
                } else if rng.chance(0.5) {
                    (0..n).map(|_| (rng.int(-g, g), rng.int(-g, g))).collect()
                } else { // roughly round, so that it is often valid
                    let a0 = rng.range(0.0, 6.3);
                    (0..n).map(|i| { let a = a0 + 6.2832 * (i as f64 + rng.range(-0.2, 0.2)) / n as f64; let r = 1000.0 * rng.range(0.8, 1.0); ((r * a.cos()) as i64, (r * a.sin()) as i64) }).collect()
                };
                rng.shuffle(&mut pts);
                out.begin(id, &format!("s03 #{id}: strict check of {pts:?} (unit {unit})"));
                let v: Vec<Vec2> = pts.iter().map(|p| Vec2::new((p.0 as f64 * unit) as f32, (p.1 as f64 * unit) as f32)).collect();
                match guard(|| Poly2d::new(&v).strict_check()) {
                    Ok(ok) => out.put(json!({"e": "strict", "p": pts.iter().map(|p| vec![p.0, p.1]).collect::<Vec<_>>(), "ok": ok})),
                    Err(m) => out.put(json!({"e": "bad", "why": m})),
                }
            }
        }
    }
}
