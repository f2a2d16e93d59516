//! Behaviours generated from the specification (MC_Placements, MC_Journeys),
//! carried out on the library and recorded for spec/TraceScene.tla.
use crate::scene::*;
use crate::shapes::*;
use crate::util::*;
use serde_json::{json, Value};

/// The catalogue the behaviours speak of.
fn shape(k: i64, u: f64) -> Desc {
    let p = |v: &[P]| { let h: Vec<P> = v.iter().map(|p| p64(v2((u * p.0, u * p.1)))).collect(); Desc { kind: Kind::Poly, raw: h.iter().map(|p| v2(*p)).collect(), hull: h, r: 0.0 } };
    match k {
        1 => point(),
        2 => ball(u),
        3 => rect(u, 0.5 * u),
        4 => rect(0.5 * u, 0.5 * u),
        5 => p(&[(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)]),
        6 => p(&[(1.0, -0.5), (-0.5, 1.0), (-0.5, -0.5)]),
        7 => p(&[(1.0, 0.0), (0.5, 1.0), (-0.5, 1.0), (-1.0, 0.0), (-0.5, -1.0), (0.5, -1.0)]),
        _ => ball(0.25 * u),
    }
}
/// the same shape as a member of a family: as it is, of the library's union, of a union declared
/// here, known by its support function only
fn as_family(d: &Desc, f: i64) -> Option<Desc> {
    use Kind::*;
    let kind = match (f, d.kind) {
        (0, k) => k,
        (1, Ball) => SBall, (1, Box) => SBox, (1, Poly) => SPoly,
        (2, Point) => MPoint, (2, Ball) => MBall, (2, Box) => MBox, (2, Poly) => MPoly,
        (3, _) => User,
        _ => return None,
    };
    Some(Desc { kind, ..d.clone() })
}
/// the pair as members of a family, if the library offers it
fn pair(da: &Desc, db: &Desc, f: i64) -> Option<(Desc, Desc)> {
    use Kind::*;
    if f == 0 && matches!((da.kind, db.kind), (Ball | Point, Poly) | (Poly, Ball | Point)) { return None; }
    if f == 3 && (da.kind == Point || db.kind == Point) { return None; }
    Some((as_family(da, f)?, as_family(db, f)?))
}

pub fn run(out: &mut Out, o: &Opts, only_scalar: bool) {
    let fed: Vec<String> = std::fs::read_to_string(o.feed.as_ref().expect("--feed")).unwrap().lines().map(|s| s.to_string()).collect();
    for (id, mut rng) in o.sessions_n(fed.len() as u64) {
        let plan: Vec<Value> = serde_json::from_str::<Value>(&fed[id as usize]).unwrap().as_array().unwrap().clone();
        let relative = plan.iter().any(|op| op[0] == "rel");
        session(out, id, &mut rng, &plan, relative, only_scalar);
    }
}

fn session(out: &mut Out, id: u64, rng: &mut Rng, plan: &[Value], relative: bool, only_scalar: bool) {
    let u = if rng.chance(0.5) { 1.0 } else { *rng.pick(&[0.25, 10.0, 0.02, 37.0, 1000.0, 3.0e5]) };
    let num = |op: &Value, i: usize| op[i].as_i64().unwrap();
    let spot = |x: i64, y: i64| (0.5 * u * x as f64, 0.5 * u * y as f64);
    let angle = |t: i64| (t as f64 * std::f64::consts::PI / 12.0) as f32;
    // journeys take place anywhere; the order of turns stays
    let home = if relative || rng.chance(0.5) { (0.0, 0.0) } else { p64(v2((u * rng.range(-300.0, 300.0), u * rng.range(-300.0, 300.0)))) };
    let here = |x, y| Pl { pos: add(spot(x, y), home), ang: 0.0, k: 1.0 }.snap();
    let (mut ds, mut pl): (Vec<Desc>, Vec<Pl>) = (vec![], vec![]);
    let mut family = 0;
    for op in plan {
        match op[0].as_str().unwrap() {
            "family" => family = num(op, 1),
            "body" => { ds.push(shape(num(op, 2), u)); pl.push(Pl { ang: angle(num(op, 5)), k: num(op, 6) as f32 / 2.0, ..here(num(op, 3), num(op, 4)) }); }
            _ => {}
        }
    }
    // what moves under a simple transform where that can say it
    let turning = plan.iter().any(|op| op[0] == "turn") || pl.iter().any(|p| p.ang != 0.0);
    let scaling = pl.iter().any(|p| p.k != 1.0);
    #[cfg(feature = "bevy")]
    let tk = { let _ = (turning, scaling); Tk::Bevy };
    #[cfg(not(feature = "bevy"))]
    let tk = if turning { Tk::T2 } else if scaling { *rng.pick(&[Tk::Ax, Tk::T2]) } else { *rng.pick(&[Tk::Vec, Tk::Tr, Tk::Ax, Tk::T2]) };
    let far = 12.0 * u;
    let lat = if relative { Lat::of(ds.iter().zip(&pl).map(|(d, p)| extent_placed(d, p).max(extent_local(d))).fold(0.0, f64::max) / 9000.0) } else { Lat::at(1.2 * far / 9000.0, home) };
    if only_scalar && !has_sdf(ds[0].kind, ds[1].kind) { return; }
    out.begin(id, &format!("plan #{id}: unit {u} home {home:?} under {tk:?}: {}", Value::Array(plan.to_vec())));
    for i in 0..ds.len() { out.put(lat.body(i + 1, &ds[i], &pl[i])); }
    // equal shapes may be one and the same
    let share = id % 2 == 0;
    let ask = |out: &mut Out, pl: &[Pl], i: usize, j: usize| {
        out.put(json!({"e": "focus", "i": i + 1, "j": j + 1}));
        for f in if relative { 0..4 } else { family..family + 1 } {
            let Some((a, b)) = pair(&ds[i], &ds[j], f).or_else(|| if relative { None } else { pair(&ds[i], &ds[j], 2) }) else { continue };
            let b = if share && b.kind == a.kind && b.raw == a.raw && b.r == a.r { &a } else { &b };
            let inv = if iterative(a.kind, b.kind) { 64 } else { 1024 };
            let mut said = if relative { query_rel(&a, b, tk, &pl[j]) } else { query_world(&a, b, tk, &pl[i], &pl[j]) };
            if only_scalar { said.clear(); }
            said.extend(if relative { query_sdf_rel(&a, b, tk, &pl[j]) } else { query_sdf_world(&a, b, tk, &pl[i], &pl[j]) });
            for s in &said { out.put(lat.ans(s, false, inv)); }
        }
    };
    for op in plan {
        match op[0].as_str().unwrap() {
            "rel" | "ask" => ask(out, &pl, num(op, 1) as usize - 1, num(op, 2) as usize - 1),
            "move" | "turn" => {
                let i = num(op, 1) as usize - 1;
                if op[0] == "move" { pl[i].pos = here(num(op, 2), num(op, 3)).pos } else { pl[i].ang = angle(num(op, 2)) }
                out.put(json!({"e": "move", "i": i + 1, "T": lat.pl(&pl[i])}));
            }
            "push" => {
                let (i, j) = (num(op, 1) as usize - 1, num(op, 2) as usize - 1);
                ask(out, &pl, i, j);
                let Some((a, b)) = pair(&ds[i], &ds[j], family).or_else(|| pair(&ds[i], &ds[j], 2)) else { continue };
                let said = query_world(&a, &b, tk, &pl[i], &pl[j]);
                let v = match (&said[1], &said[2], &said[3], num(op, 3)) {
                    (_, _, Ans::Sdfv(_, v), 1) => *v,
                    (Ans::Pen(Some(v)), _, _, _) => *v,
                    (_, Ans::Dist(Some(v)), _, _) => *v,
                    _ => continue,
                };
                let Ok((dir, m)) = lat.vec(v) else { continue };
                let to = p64(v2(pl[i].pos) + v);
                if len(sub(to, home)) > far { continue; }
                pl[i].pos = to;
                let inv = if iterative(a.kind, b.kind) { 64 } else { 1024 };
                out.put(json!({"e": "push", "n": dir, "m": m, "T": lat.pl(&pl[i]), "inv": inv}));
                ask(out, &pl, i, j);
            }
            _ => {}
        }
    }
}
