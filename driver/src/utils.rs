//! Publishers and approximate equality (spec/TracePublisher.tla,
//! spec/TraceApprox.tla, TraceInterp.tla).
use crate::scene::Opts;
use crate::util::*;
use auburn::utils::approx::Approx;
use auburn::utils::publisher::*;
use auburn::{Lerp, Square, Vec2, Vec3};
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};

fn bad(out: &mut Out, why: String) { out.put(json!({"e": "bad", "why": why})); }

pub fn run_publishers(out: &mut Out, o: &Opts) {
    let fed: Vec<String> = o.feed.as_ref().map(|f| std::fs::read_to_string(f).unwrap().lines().map(|s| s.to_string()).collect()).unwrap_or_default();
    let n = if fed.is_empty() { o.n } else { fed.len() as u64 };
    for (id, mut rng) in o.sessions_n(n) {
        let rng = &mut rng;
        // None: attach, Some: notify, that many events counting up
        let ops: Vec<Option<(i32, i32)>> = if !fed.is_empty() {
            let x: Value = serde_json::from_str(&fed[id as usize]).unwrap();
            x.as_array().unwrap().iter().filter_map(|o| match o[0].as_str().unwrap() { "attach" => Some(None), "notify" => Some(Some((o[1].as_i64().unwrap() as i32, 1))), "burst" => Some(Some((o[1].as_i64().unwrap() as i32, o[2].as_i64().unwrap() as i32))), _ => None }).collect()
        } else {
            let span = *rng.pick(&[2, 5, 1_000_000]);
            let attach = *rng.pick(&[0.1, 0.4]);
            let (n, attach) = if rng.chance(0.01) { (rng.int(200, 1000), 0.02) } else if rng.chance(0.04) { (rng.int(40, 90), 0.8) } else if rng.chance(0.004) { (rng.int(100, 400), 0.95) } else { (rng.int(1, 40), attach) };
            let flood = rng.chance(0.004);
            let n = if flood { 6 } else { n };
            let most = if rng.chance(0.1) { 70000.0 } else { 5000.0 };
            (0..n).map(|_| if rng.chance(attach) { None } else { Some((rng.int(-span, span) as i32, if flood && rng.chance(0.5) { rng.log(500.0, most) as i32 } else if rng.chance(0.05) { rng.int(2, 20) as i32 } else { 1 })) }).collect()
        };
        out.begin(id, &format!("u02 #{id}: {ops:?}"));
        let calls: Arc<Mutex<Vec<(usize, i32)>>> = Arc::default();
        let (mut ledger, mut set, mut cb) = if rng.chance(0.5) { (Ledger::new(), HashsetLedger::new(), CallbackPublisher::new()) } else { (Ledger::default(), HashsetLedger::default(), CallbackPublisher::default()) };
        let mut subs = 0;
        for (k, op) in ops.iter().enumerate() {
            let r = guard(|| match op {
                None => { subs += 1; let (k, c) = (subs, calls.clone()); cb.attach(move |e: &i32| c.lock().unwrap().push((k, *e))); }
                Some((ev, n)) => for ev in *ev..ev + n { ledger.notify(ev); set.notify(ev); cb.notify(ev); }
            });
            if let Err(m) = r { bad(out, m); break; }
            let new: Vec<Value> = calls.lock().unwrap().drain(..).map(|(k, e)| json!([k, e])).collect();
            let mut s: Vec<i32> = set.events.iter().copied().collect();
            s.sort();
            let mut rec = json!({"e": match op { None => "attach", Some((_, 1)) => "notify", _ => "burst" }, "ev": op.map_or(0, |o| o.0), "n": op.map_or(0, |o| o.1), "calls": new, "len": ledger.events.len(), "size": s.len()});
            // in long histories the whole content is shown now and then
            if k < 40 && ledger.events.len() < 500 || k % 100 == 0 || k + 1 == ops.len() { rec["ledger"] = json!(ledger.events); rec["set"] = json!(s); }
            out.put(rec);
        }
    }
}

/// the assertion that is made of the comparison
fn put_assert<T: Approx + std::fmt::Debug>(out: &mut Out, a: &T, b: &T) {
    let held = guard(|| auburn::assert_approx_eq!(a, b)).is_ok();
    match guard(|| a.approx_eq(b)) { Ok(ok) => out.put(json!({"e": "assert", "ok": ok, "held": held})), Err(m) => bad(out, m) }
}
fn call<T: Approx>(a: &T, b: &T, mul: i64, inv: i64) -> bool { if inv == 1_000_000 && mul == 1 { a.approx_eq(b) } else { a.approx_eq_tolerance(b, (mul as f64 / inv as f64) as f32) } }

pub fn run_approx(out: &mut Out, o: &Opts) {
    for (id, mut rng) in o.sessions() {
        let rng = &mut rng;
        out.begin(id, &format!("u03 #{id}"));
        for _ in 0..6 {
            // the tolerance, as a fraction; 1e-6 is the default one
            let (mul, inv) = match rng.below(5) {
                0 => *rng.pick(&[(1i64, 1i64), (3, 2), (2, 1), (7, 1), (50, 1), (2, 3), (1, 100_000_000), (1, 1_000_000_000)]),
                _ => (1, *rng.pick(&[1_000_000i64, 1_000_000, 2, 10, 100, 1000, 12345, 300_000, 10_000])),
            };
            match rng.below(6) {
                0 | 1 => {
                    let k = rng.int(-149, 100) as i32;
                    let u = 2f64.powi(k);
                    let a = match rng.below(6) { 0 => 0, 1 => rng.int(-50, 50), _ => rng.int(-(1 << 24), 1 << 24) };
                    let b = match rng.below(6) { 0 => 0, 1 => a, 2 => -a, 3 => rng.int(-(1 << 24), 1 << 24), _ => {
                        let q = (a.abs() as f64 * mul as f64 / inv as f64).max(1.0);
                        a + (q * rng.log(0.1, 10.0) * *rng.pick(&[1.0, -1.0])).round() as i64 } };
                    if b.abs() > 1 << 24 { continue; }
                    let (x, y) = ((a as f64 * u) as f32, (b as f64 * u) as f32);
                    let t = (mul as f64 / inv as f64 / u).min(1e9) as i64;
                    if (mul, inv) == (1, 1_000_000) { put_assert(out, &x, &y); }
                    match guard(|| call(&x, &y, mul, inv)) { Ok(ok) => out.put(json!({"e": "num", "a": a, "b": b, "mul": mul, "inv": inv, "t": t, "ok": ok, "x": format!("{x:e}"), "y": format!("{y:e}")})), Err(m) => bad(out, m) }
                }
                2 | 3 | 4 => {
                    let three = rng.chance(0.5);
                    let n = if three { 3 } else { 2 };
                    let r = *rng.pick(&[1i64, 32, 512]);
                    let k = if rng.chance(0.4) { rng.int(-120, 85) } else { rng.int(-55, 10) };
                    let u = 2f64.powi(k as i32);
                    let m9 = if r == 1 { 9000 } else { 20000 };
                    let mut a: Vec<i64> = (0..n).map(|_| match rng.below(4) { 0 => 0, 1 => rng.int(-30, 30), _ => rng.int(-m9, m9) }).collect();
                    if rng.chance(0.05) { a = vec![0; n]; }
                    let l = (a.iter().map(|x| (x * x) as f64).sum::<f64>()).sqrt() * r as f64;
                    let d: Vec<i64> = match rng.below(8) {
                        0 => vec![0; n],
                        1 => (0..n).map(|_| rng.int(-m9, m9)).collect(),
                        2 if r == 1 => a.iter().map(|x| -2 * x).collect(),
                        _ => {
                            let dir: Vec<f64> = (0..n).map(|_| if rng.chance(0.3) { 0.0 } else { rng.range(-1.0, 1.0) }).collect();
                            let dl = dir.iter().map(|x| x * x).sum::<f64>().sqrt().max(1e-9);
                            let m = (l * mul as f64 / inv as f64) * rng.log(0.2, 5.0);
                            dir.iter().map(|x| (x / dl * m).round().clamp(-m9 as f64, m9 as f64) as i64).collect()
                        }
                    };
                    if d.iter().any(|x| x.abs() > 20000) { continue; }
                    let f = |i: usize, with: bool| ((a[i] * r + if with { d[i] } else { 0 }) as f64 * u) as f32;
                    if (mul, inv) == (1, 1_000_000) {
                        if three { put_assert(out, &Vec3::new(f(0, false), f(1, false), f(2, false)), &Vec3::new(f(0, true), f(1, true), f(2, true))); }
                        else { put_assert(out, &Vec2::new(f(0, false), f(1, false)), &Vec2::new(f(0, true), f(1, true))); }
                    }
                    let got = guard(|| if three {
                        let (p, q) = (Vec3::new(f(0, false), f(1, false), f(2, false)), Vec3::new(f(0, true), f(1, true), f(2, true)));
                        (call(&p, &q, mul, inv), call(&q, &p, mul, inv))
                    } else {
                        let (p, q) = (Vec2::new(f(0, false), f(1, false)), Vec2::new(f(0, true), f(1, true)));
                        (call(&p, &q, mul, inv), call(&q, &p, mul, inv))
                    });
                    match got { Ok((ok, back)) => out.put(json!({"e": "vec", "a": a, "d": d, "R": r, "mul": mul, "inv": inv, "ok": ok, "back": back})), Err(m) => bad(out, m) }
                }
                _ => {
                    // not a number somewhere in the difference, or infinite
                    let fin = |rng: &mut Rng| *rng.pick(&[0.0f32, -0.0, 1.0, -3.5, 1e30, 1e-30, f32::MAX, f32::MIN_POSITIVE]);
                    let weird = |rng: &mut Rng| *rng.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY]);
                    let n = 1 + rng.below(3) as usize;
                    let mut x: Vec<f32> = (0..n).map(|_| fin(rng)).collect();
                    let mut y: Vec<f32> = (0..n).map(|_| fin(rng)).collect();
                    if rng.chance(0.5) { y = x.clone(); }
                    let i = rng.below(n as u64) as usize;
                    let w = weird(rng);
                    let plain = rng.chance(0.2);
                    if !plain {
                        match rng.below(3) { 0 => x[i] = w, 1 => y[i] = w, _ => { x[i] = w; y[i] = if rng.chance(0.7) { w } else { weird(rng) } } }
                    } else { y = x.clone(); }
                    let got = guard(|| match n { 1 => call(&x[0], &y[0], mul, inv), 2 => call(&Vec2::new(x[0], x[1]), &Vec2::new(y[0], y[1]), mul, inv), _ => call(&Vec3::new(x[0], x[1], x[2]), &Vec3::new(y[0], y[1], y[2]), mul, inv) });
                    match got { Ok(ok) => out.put(json!({"e": if plain { "self" } else { "odd" }, "ok": ok, "x": format!("{x:?}"), "y": format!("{y:?}"), "mul": mul, "inv": inv})), Err(m) => bad(out, m) }
                }
            }
        }
    }
}

pub fn run_interp(out: &mut Out, o: &Opts) {
    for (id, mut rng) in o.sessions() {
        let rng = &mut rng;
        out.begin(id, &format!("u04 #{id}"));
        for _ in 0..6 {
            let u = 2f64.powi(rng.int(-60, 50) as i32);
            let inv = *rng.pick(&[1i64, 2, 7, 100, 1000, 1024, 1023]);
            let k = match rng.below(4) { 0 => 0, 1 => inv, 2 => rng.int(0, inv), _ => rng.int(-inv, 2 * inv) };
            let t = (k as f64 / inv as f64) as f32;
            let n = 1 + rng.below(2) as usize;
            let end = |rng: &mut Rng| -> Vec<i64> { let m = *rng.pick(&[3, 100, 4096]); (0..n).map(|_| rng.int(-m, m)).collect() };
            let a = end(rng);
            let b = if rng.chance(0.1) { a.clone() } else { end(rng) };
            let f = |x: i64| (x as f64 * u) as f32;
            let got = guard(|| if n == 1 { vec![Lerp::lerp(f(a[0]), f(b[0]), t)] } else { let v = Lerp::lerp(Vec2::new(f(a[0]), f(a[1])), Vec2::new(f(b[0]), f(b[1])), t); vec![v.x, v.y] });
            let q: Option<Vec<i64>> = got.ok().map(|v| v.iter().map(|x| (*x as f64 / u * 64.0).round()).collect::<Vec<f64>>()).filter(|v| v.iter().all(|x| x.abs() < 1e9)).map(|v| v.iter().map(|x| *x as i64).collect());
            match q { Some(x) => out.put(json!({"e": "lerp", "a": a, "b": b, "k": k, "inv": inv, "x": x})), None => bad(out, format!("{a:?} to {b:?} by {t} in units of {u}")) }
            let a = rng.int(-4096, 4096);
            match guard(|| Square::square(f(a))) {
                Ok(x) if (x as f64 / u / u).abs() < 1e9 => out.put(json!({"e": "square", "a": a, "x": (x as f64 / u / u).round() as i64})),
                x => bad(out, format!("{x:?}: square of {a} in units of {u}")),
            }
        }
    }
}
