//! Tilemap histories, tile coordinates, points against tilemaps and movers
//! pushed out of them (spec/TraceTilemap.tla, TraceTiles.tla, TraceResolve.tla).
use crate::scene::Opts;
use crate::util::*;
use auburn::col2d::*;
use auburn::utils::rect2::Rect2i32;
use lk_math::vector::V2i32;
use serde_json::{json, Value};
use std::collections::BTreeSet;

pub type C = (i32, i32);
fn v(c: C) -> V2i32 { V2i32::from_xy(c.0, c.1) }
fn chunk_of(c: C) -> C { (c.0.div_euclid(16), c.1.div_euclid(16)) }

struct Maps { maps: Vec<Option<Tilemap>>, shown: Vec<usize>, chunks: BTreeSet<C>, files: Vec<&'static str> }

impl Maps {
    fn new(id: u64) -> Self {
        let dir = std::env::var("VDRIVER_SCRATCH").unwrap_or_else(|_| { let d = format!("/tmp/vdriver-{}", std::process::id()); let _ = std::fs::create_dir_all(&d); d });
        let files = (0..2).map(|k| { let s: &'static str = Box::leak(format!("{dir}/map-{}-{k}.json", id % 64).into_boxed_str()); s }).collect();
        Maps { maps: vec![None, Some(Tilemap::default()), None], shown: vec![0; 3], chunks: BTreeSet::new(), files }
    }
    fn touch(&mut self, p: C) {
        let c = chunk_of(p);
        for dx in -1..=1 { for dy in -1..=1 {
            let n = (c.0.saturating_add(dx), c.1.saturating_add(dy));
            if (-134217728..=134217727).contains(&n.0) && (-134217728..=134217727).contains(&n.1) { self.chunks.insert(n); }
        } }
    }
    /// everything the map shows through its public interface
    fn content(&self, i: usize) -> Result<Value, String> {
        guard(|| {
            let m = self.maps[i].as_ref().unwrap();
            let mut chunks = vec![];
            let mut tiles = vec![];
            for c in &self.chunks {
                if let Some(ch) = m.get_chunk(&v(*c)) {
                    chunks.push(json!([c.0, c.1]));
                    for x in 0..16 { for y in 0..16 {
                        let t = ch.array2d.get(v((x, y))).copied();
                        if t != Some(0) { tiles.push(json!([c.0 * 16 + x, c.1 * 16 + y, t.map_or(-1, |t| t as i64)])); }
                    } }
                }
            }
            json!({"e": "content", "i": i, "chunks": chunks, "tiles": tiles, "still": false})
        })
    }
    fn put_content(&self, out: &mut Out, i: usize, still: bool) {
        match self.content(i) { Ok(mut c) => { c["still"] = json!(still); out.put(c) } Err(m) => bad(out, m) }
    }
    fn put_events(&mut self, out: &mut Out, i: usize) {
        let m = self.maps[i].as_ref().unwrap();
        let ev = &m.events.events;
        let from = self.shown[i].min(ev.len());
        let new: Vec<Value> = ev[from..].iter().map(|e| match e {
            TilemapEvent::ChunkCreated(c) => json!(["created", [c.x(), c.y()]]),
            TilemapEvent::ChunkRemoved(c) => json!(["removed", [c.x(), c.y()]]),
            TilemapEvent::ChunkChanged(c) => json!(["changed", [c.x(), c.y()]]),
        }).collect();
        out.put(json!({"e": "events", "i": i, "new": new, "len": ev.len()}));
        self.shown[i] = ev.len();
    }
    fn put_gets(&self, out: &mut Out, i: usize, ps: &[C]) {
        for p in ps {
            match guard(|| self.maps[i].as_ref().unwrap().get_tile(v(*p))) {
                Ok(t) => out.put(json!({"e": "get", "i": i, "p": [p.0, p.1], "v": t})),
                Err(m) => bad(out, m),
            }
        }
    }
    fn observe(&mut self, out: &mut Out, i: usize, gets: &[C]) {
        self.put_content(out, i, false);
        self.put_events(out, i);
        self.put_gets(out, i, gets);
    }
    /// one operation; false: it failed (and that was recorded)
    fn apply(&mut self, out: &mut Out, op: &Op, gets: &[C]) -> bool {
        match op {
            Op::Set(i, p, t) => {
                let i = if self.maps[*i].is_some() { *i } else { 1 };
                self.touch(*p);
                if let Err(m) = guard(|| self.maps[i].as_mut().unwrap().set_tile(v(*p), *t)) { bad(out, m); return false; }
                out.put(json!({"e": "set", "i": i, "p": [p.0, p.1], "v": t}));
                self.observe(out, i, gets);
            }
            Op::Remove(i, p) => {
                let i = if self.maps[*i].is_some() { *i } else { 1 };
                self.touch(*p);
                if let Err(m) = guard(|| self.maps[i].as_mut().unwrap().remove_tile(v(*p))) { bad(out, m); return false; }
                out.put(json!({"e": "remove", "i": i, "p": [p.0, p.1]}));
                self.observe(out, i, gets);
            }
            Op::Save(i, f) => {
                let i = if self.maps[*i].is_some() { *i } else { 1 };
                let file = self.files[*f];
                match guard(|| self.maps[i].as_ref().unwrap().save(file)) {
                    Ok(Ok(())) => { out.put(json!({"e": "save", "i": i, "f": f.to_string()})); self.put_content(out, i, true); self.put_events(out, i); }
                    Ok(Err(e)) => { bad(out, format!("save: {e}")); return false; }
                    Err(m) => { bad(out, m); return false; }
                }
            }
            Op::Load(j, f) => {
                let file = self.files[*f];
                match guard(|| Tilemap::load(file)) {
                    Ok(Ok(m)) => { self.maps[*j] = Some(m); self.shown[*j] = 0; out.put(json!({"e": "load", "j": j, "f": f.to_string()})); self.put_content(out, *j, true); self.put_events(out, *j); self.put_gets(out, *j, gets); }
                    Ok(Err(_)) => out.put(json!({"e": "refused", "j": j, "f": f.to_string()})),
                    Err(m) => { bad(out, m); return false; }
                }
            }
            Op::Tear(f, r) => {
                // what a save leaves behind that was cut short
                let file = self.files[*f];
                let n = std::fs::metadata(file).map_or(0, |m| m.len());
                if n == 0 { return true; }
                let keep = match r % 4 { 0 => n - 1, 1 => r / 4 % 24 % n.max(1), 2 => n - 1 - (r / 4 % 24).min(n - 1), _ => r / 4 % n.max(1) };
                if let Err(e) = std::fs::OpenOptions::new().write(true).open(file).and_then(|h| h.set_len(keep)) { panic!("cannot truncate {file}: {e}"); }
                out.put(json!({"e": "tear", "f": f.to_string()}));
            }
            Op::Full(i, f, r) => {
                // the disk is full: at once (where such a disk can be had), or at some byte
                use std::os::unix::fs::FileTypeExt;
                let i = if self.maps[*i].is_some() { *i } else { 1 };
                let file = self.files[*f];
                let device = r % 4 == 0;
                if device {
                    if !std::fs::metadata("/dev/full").is_ok_and(|m| m.file_type().is_char_device()) { return true; }
                    let _ = std::fs::remove_file(file);
                    if let Err(e) = std::os::unix::fs::symlink("/dev/full", file) { panic!("{file}: {e}"); }
                }
                let whole = serde_json::to_vec(self.maps[i].as_ref().unwrap()).map_or(0, |t| t.len() as u64).max(1);
                let at = match r / 4 % 5 { 0 => 0, 1 => whole - 1, 2 => whole - 1 - (r / 20 % 24).min(whole - 1), 3 => (r / 20 % (whole / 4096 + 1)) * 4096, _ => r / 20 % whole };
                let got = { let _full = if device { None } else { Some(Full::at(at.min(whole - 1))) }; guard(|| self.maps[i].as_ref().unwrap().save(file)) };
                match got {
                    Ok(Err(_)) => {
                        // what is there now
                        let left = if device { None } else { match guard(|| Tilemap::load(file)) { Ok(l) => l.ok(), Err(m) => { bad(out, m); return false; } } };
                        self.maps[0] = left;
                        let mut e = if self.maps[0].is_none() { json!({"chunks": [], "tiles": []}) } else { match self.content(0) { Ok(c) => c, Err(m) => { bad(out, m); return false; } } };
                        e["e"] = json!("full"); e["i"] = json!(i); e["f"] = json!(f.to_string()); e["there"] = json!(self.maps[0].is_some());
                        self.maps[0] = None;
                        out.put(e);
                        self.put_content(out, i, true); self.put_events(out, i);
                    }
                    // then it has to be there
                    Ok(Ok(())) => { out.put(json!({"e": "save", "i": i, "f": f.to_string()})); if !self.apply(out, &Op::Load(2, *f), gets) { return false; } if device { out.put(json!({"e": "tear", "f": f.to_string()})); } }
                    Err(m) => { bad(out, m); return false; }
                }
                if device { let _ = std::fs::remove_file(file); }
            }
            Op::Drain(i) => {
                let i = if self.maps[*i].is_some() { *i } else { 1 };
                self.maps[i].as_mut().unwrap().events.events.clear();
                self.shown[i] = 0;
                out.put(json!({"e": "drain", "i": i}));
                self.observe(out, i, gets);
            }
            Op::Copy(i, j, how) => {
                let i = if self.maps[*i].is_some() { *i } else { 1 };
                let got = guard(|| -> Result<Tilemap, String> {
                    let m = self.maps[i].as_ref().unwrap();
                    match how % 3 {
                        0 => serde_json::from_str(&serde_json::to_string(m).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
                        1 => serde_json::from_slice(&serde_json::to_vec_pretty(m).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
                        _ => serde_json::from_value(serde_json::to_value(m).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
                    }
                });
                match got {
                    Ok(Ok(m)) => { self.maps[*j] = Some(m); self.shown[*j] = 0; out.put(json!({"e": "copy", "i": i, "j": j})); self.put_content(out, *j, true); self.put_events(out, *j); self.put_gets(out, *j, gets); }
                    Ok(Err(e)) | Err(e) => { bad(out, e); return false; }
                }
            }
            Op::Twin(p, t) => {
                // the same operation on both maps
                let q = *p;
                for i in 1..3 {
                    if self.maps[i].is_none() { continue; }
                    let op = match t { Some(t) => Op::Set(i, q, *t), None => Op::Remove(i, q) };
                    if !self.apply(out, &op, gets) { return false; }
                }
                if self.maps[2].is_some() { out.put(json!({"e": "agree", "i": 1, "j": 2})); }
            }
        }
        true
    }
}
/// while it lives, no file of this process can grow beyond so many bytes
struct Full([u64; 2]);
extern "C" {
    fn getrlimit(what: i32, limits: *mut [u64; 2]) -> i32;
    fn setrlimit(what: i32, limits: *const [u64; 2]) -> i32;
    fn signal(which: i32, handler: usize) -> usize;
}
const FSIZE: i32 = 1;
const SIGXFSZ: i32 = 25;
impl Full {
    fn at(bytes: u64) -> Full {
        let mut was = [0u64; 2];
        unsafe {
            signal(SIGXFSZ, 1);
            if getrlimit(FSIZE, &mut was) != 0 || setrlimit(FSIZE, &[bytes.min(was[1]), was[1]]) != 0 { panic!("cannot limit the size of files"); }
        }
        Full(was)
    }
}
impl Drop for Full { fn drop(&mut self) { unsafe { setrlimit(FSIZE, &self.0); } } }
fn bad(out: &mut Out, why: String) { out.put(json!({"e": "bad", "why": why})); }

#[derive(Clone, Debug)]
pub enum Op { Set(usize, C, u8), Remove(usize, C), Save(usize, usize), Load(usize, usize), Copy(usize, usize, u64), Tear(usize, u64), Full(usize, usize, u64), Drain(usize), Twin(C, Option<u8>) }

/// positions of the specification (2x2 chunks) at the real size
fn stretch(p: C) -> C { (p.0.div_euclid(2) * 16 + p.0.rem_euclid(2) * 15, p.1.div_euclid(2) * 16 + p.1.rem_euclid(2) * 15) }

/// some number of its own for each operation of each history
fn spread(line: &str, at: usize) -> u64 { line.bytes().fold(at as u64 + 1, |h, b| (h ^ b as u64).wrapping_mul(0x100000001B3)).wrapping_mul(0x9E3779B97F4A7C15) >> 20 }

fn fed(line: &str) -> Vec<Op> {
    let x: Value = serde_json::from_str(line).unwrap();
    x.as_array().unwrap().iter().enumerate().filter_map(|(at, o)| {
        let k = o[0].as_str().unwrap();
        let n = |i: usize| o[i].as_i64().unwrap() as i32;
        let (i, p) = (n(1) as usize, stretch((n(2), n(3))));
        match k {
            "set" => Some(Op::Set(i, p, n(4) as u8)),
            "remove" => Some(Op::Remove(i, p)),
            "save" => Some(Op::Save(i, n(2) as usize)),
            "load" => Some(Op::Load(i, n(2) as usize)),
            "tear" => Some(Op::Tear(n(2) as usize, spread(line, at))),
            "full" => Some(Op::Full(i, n(2) as usize, spread(line, at))),
            "drain" => Some(Op::Drain(i)),
            "copy" => Some(Op::Copy(1, 2, n(4) as u64)),
            _ => None,
        }
    }).collect()
}

fn random_coord(rng: &mut Rng, style: u64) -> i32 {
    match style {
        0 => rng.int(-3, 3) as i32,
        1 => rng.int(-20, 20) as i32,
        2 => *rng.pick(&[-33, -32, -17, -16, -15, -1, 0, 1, 15, 16, 17, 31, 32]),
        3 => rng.int(-2_000_000_000, 2_000_000_000) as i32,
        _ => *rng.pick(&[i32::MIN, i32::MIN + 1, i32::MIN + 15, i32::MIN + 16, i32::MAX, i32::MAX - 1, i32::MAX - 15, i32::MAX - 16, 0, -1]),
    }
}

pub fn run_histories(out: &mut Out, o: &Opts, mode: &str) {
    let fed_lines: Vec<String> = o.feed.as_ref().map(|f| std::fs::read_to_string(f).unwrap().lines().map(|s| s.to_string()).collect()).unwrap_or_default();
    let n = if fed_lines.is_empty() { o.n } else { fed_lines.len() as u64 };
    for (id, mut rng) in o.sessions_n(n) {
        let rng = &mut rng;
        if mode == "m03" && fed_lines.is_empty() && id % 250 == 7 { big_map(out, rng, id); continue; }
        if mode != "m03" && fed_lines.is_empty() && id % 300 == 7 { crowd(out, rng, mode, id); continue; }
        let ops: Vec<Op> = if !fed_lines.is_empty() { fed(&fed_lines[id as usize]) } else {
            let style = *rng.pick(&[0u64, 1, 1, 2, 2, 3, 4]);
            let big = rng.chance(0.03);
            let mut pool: Vec<C> = (0..if big { rng.int(10, 60) } else { rng.int(1, 6) }).map(|_| (random_coord(rng, style), random_coord(rng, style))).collect();
            // several tiles of one chunk
            let c = chunk_of(pool[0]);
            for _ in 0..rng.int(0, 4) { pool.push((c.0 * 16 + rng.int(0, 15) as i32, c.1 * 16 + rng.int(0, 15) as i32)); }
            let p_remove = *rng.pick(&[0.2, 0.45, 0.7]);
            let disk = mode == "m03" || rng.chance(0.3);
            let mut ops = vec![];
            let mut saved = [false; 2];
            let mut copied = false;
            for _ in 0..if big { rng.int(60, 150) } else { rng.int(1, 30) } {
                if rng.chance(0.05) { ops.push(Op::Drain(if copied && rng.chance(0.4) { 2 } else { 1 })); continue; }
                if disk && rng.chance(0.25) {
                    let f = rng.below(2) as usize;
                    match rng.below(4) {
                        3 => if saved[f] && rng.chance(0.6) { ops.push(Op::Tear(f, rng.next() >> 8)); if rng.chance(0.8) { ops.push(Op::Load(2, f)); } } else if rng.chance(0.3) { ops.push(Op::Load(2, f)); },
                        0 if rng.chance(0.3) => { ops.push(Op::Full(1 + rng.below(2) as usize, f, rng.next() >> 8)); saved[f] = false; if rng.chance(0.5) { ops.push(Op::Load(2, f)); } }
                        0 => { ops.push(Op::Save(1 + rng.below(2) as usize, f)); saved[f] = true; }
                        1 if saved[f] => { ops.push(Op::Load(2, f)); copied = true; }
                        _ => {
                            let how = rng.next();
                            ops.push(Op::Copy(1, 2, how)); copied = true;
                            // and now both go on in the same way
                            for _ in 0..rng.int(0, 4) { ops.push(Op::Twin(*rng.pick(&pool), if rng.chance(p_remove) { None } else { Some(rng.int(0, 255) as u8) })); }
                        }
                    }
                    continue;
                }
                let i = if copied && rng.chance(0.4) { 2 } else { 1 };
                let p = *rng.pick(&pool);
                if rng.chance(p_remove) { ops.push(Op::Remove(i, p)); } else {
                    let val = *rng.pick(&[0u8, 1, 1, 2, 255, 128]);
                    ops.push(Op::Set(i, p, if rng.chance(0.3) { rng.int(0, 255) as u8 } else { val }));
                }
            }
            ops
        };
        // clear a whole chunk now and then: many tiles
        let ops = if fed_lines.is_empty() && rng.chance(0.03) {
            let c = (rng.int(-2, 1) as i32, rng.int(-2, 1) as i32);
            let mut all: Vec<C> = (0..16).flat_map(|x| (0..16).map(move |y| (c.0 * 16 + x, c.1 * 16 + y))).collect();
            rng.shuffle(&mut all);
            all.truncate(rng.int(20, 60) as usize);
            let mut v: Vec<Op> = all.iter().map(|p| Op::Set(1, *p, 1 + (p.0 & 7) as u8)).collect();
            rng.shuffle(&mut all);
            v.extend(all.iter().map(|p| Op::Remove(1, *p)));
            v
        } else { ops };
        out.begin(id, &format!("{mode} #{id}: {ops:?}"));
        let mut m = Maps::new(id);
        let pool: Vec<C> = ops.iter().filter_map(|o| match o { Op::Set(_, p, _) | Op::Remove(_, p) | Op::Twin(p, _) => Some(*p), _ => None }).collect();
        for op in &ops {
            let mut gets = vec![];
            if let Op::Set(_, p, _) | Op::Remove(_, p) | Op::Twin(p, _) = op {
                gets.push(*p);
                // a position that differs in one bit: elsewhere, perhaps far away
                if rng.chance(0.3) { let k = rng.int(4, 30); let q = if rng.chance(0.5) { (p.0 ^ (1 << k), p.1) } else { (p.0, p.1 ^ (1 << k)) }; m.chunks.insert(chunk_of(q)); gets.push(q); }
                gets.push(match rng.below(4) { 0 => (p.0.saturating_add(1), p.1), 1 => (p.0.saturating_sub(1), p.1), 2 => (p.0, p.1.saturating_add(16)), _ => (p.1, p.0) });
            }
            if !pool.is_empty() { gets.push(*rng.pick(&pool)); }
            if !m.apply(out, op, &gets) { break; }
        }
        for f in &m.files { let _ = std::fs::remove_file(f); }
    }
}

/// A history over hundreds of chunks.  After each operation the chunk concerned is shown, all of
/// them at the end.
fn crowd(out: &mut Out, rng: &mut Rng, mode: &str, id: u64) {
    let mut m = Maps::new(id);
    // or over all the tiles of one, filled and emptied
    let whole = id / 300 % 2 == 1;
    let side = if whole { 0 } else { rng.int(8, 20) as i32 };
    let step = *rng.pick(&[1, 1, 3, 1000, 60_000, 3_000_000]);
    out.begin(id, &format!("{mode} #{id}: {}", if whole { "one whole chunk".into() } else { format!("{side} by {side} chunks, {step} apart") }));
    let mut pool: Vec<C> = vec![];
    if whole {
        let c = (rng.int(-3, 3) as i32 * step, rng.int(-3, 3) as i32);
        pool = (0..256).map(|i| (c.0 * 16 + i % 16, c.1 * 16 + i / 16)).collect();
        m.chunks.insert(c);
    }
    for x in 0..side { for y in 0..side {
        let c = ((x - side / 2) * step, (y - side / 2) * step);
        for _ in 0..rng.int(1, 2) { pool.push((c.0 * 16 + rng.int(0, 15) as i32, c.1 * 16 + rng.int(0, 15) as i32)); }
        m.chunks.insert(c);
    } }
    rng.shuffle(&mut pool);
    let n = pool.len();
    let mut back = pool.clone();
    rng.shuffle(&mut back);
    for k in 0..n + if whole { n } else { rng.int(50, 300) as usize } {
        let p = if k < n { pool[k] } else if whole { back[k - n] } else { *rng.pick(&pool) };
        let remove = rng.chance(if k < n { 0.03 } else if whole { 0.995 } else { 0.6 });
        let t = *rng.pick(&[1u8, 1, 0, 2, 127, 128, 255]);
        let map = m.maps[1].as_mut().unwrap();
        if let Err(e) = guard(|| if remove { map.remove_tile(v(p)) } else { map.set_tile(v(p), t) }) { bad(out, e); return; }
        out.put(if remove { json!({"e": "remove", "i": 1, "p": [p.0, p.1]}) } else { json!({"e": "set", "i": 1, "p": [p.0, p.1], "v": t}) });
        let c = chunk_of(p);
        let seen = guard(|| m.maps[1].as_ref().unwrap().get_chunk(&v(c)).map(|ch| {
            let mut tiles = vec![];
            for x in 0..16 { for y in 0..16 {
                let t = ch.array2d.get(v((x, y))).copied();
                if t != Some(0) { tiles.push(json!([c.0 * 16 + x, c.1 * 16 + y, t.map_or(-1, |t| t as i64)])); }
            } }
            tiles
        }));
        match seen { Ok(t) => out.put(json!({"e": "peek", "i": 1, "c": [c.0, c.1], "there": t.is_some(), "tiles": t.unwrap_or_default()})), Err(e) => { bad(out, e); return; } }
        m.put_events(out, 1);
        let q = *rng.pick(&pool);
        m.put_gets(out, 1, &[p, q, (q.0 ^ (1 << rng.int(4, 30)), q.1)]);
    }
    m.put_content(out, 1, false);
    m.put_gets(out, 1, &pool);
}

/// a map of many chunks, a tile or a few in each, saved, loaded, and both edited further
fn big_map(out: &mut Out, rng: &mut Rng, id: u64) {
    let mut m = Maps::new(id);
    let side = rng.log(12.0, 95.0) as i32;
    let step = *rng.pick(&[1, 1, 3, 1000]);
    out.begin(id, &format!("m03 #{id}: {side} by {side} chunks"));
    let mut at: Vec<(C, u8)> = vec![];
    for x in 0..side { for y in 0..side {
        let c = ((x - side / 2) * step, (y - side / 2) * step);
        at.push(((c.0 * 16 + rng.int(0, 15) as i32, c.1 * 16 + rng.int(0, 15) as i32), *rng.pick(&[1u8, 9, 10, 200, 255])));
        m.chunks.insert(c);
    } }
    rng.shuffle(&mut at);
    for (p, t) in &at { if let Err(e) = guard(|| m.maps[1].as_mut().unwrap().set_tile(v(*p), *t)) { bad(out, e); return; } }
    let file = m.files[0];
    let how = rng.below(4);
    let got = guard(|| -> Result<Tilemap, String> {
        let a = m.maps[1].as_ref().unwrap();
        if how == 0 { serde_json::from_str(&serde_json::to_string(a).map_err(|e| e.to_string())?).map_err(|e| e.to_string()) }
        else { a.save(file).map_err(|e| e.to_string())?; Tilemap::load(file).map_err(|e| e.to_string()) }
    });
    match got { Ok(Ok(b)) => m.maps[2] = Some(b), Ok(Err(e)) | Err(e) => { bad(out, e); return; } }
    let wrote: Vec<Value> = at.iter().map(|(p, t)| json!([p.0, p.1, t])).collect();
    for i in 1..3 { match m.content(i) { Ok(c) => out.put(json!({"e": "big", "i": i, "wrote": wrote, "read": c["tiles"], "chunks": c["chunks"]})), Err(e) => { bad(out, e); return; } } }
    for f in &m.files { let _ = std::fs::remove_file(f); }
}

// ------------------------------------------------------------- coordinates
const SUB: f64 = 1024.0; // sub-steps of a tile

/// small enough for the specification's numbers
fn near0(t: V2i32) -> bool { (t.x() as i64).abs().max((t.y() as i64).abs()) < 1_000_000 }
fn tile_json(t: V2i32) -> Value { json!([t.x(), t.y()]) }
/// a coordinate in sub-steps: on the grid, at half tiles, or anywhere
fn random_world(rng: &mut Rng) -> f64 {
    let span = *rng.pick(&[3i64, 40, 1000, 8000]);
    match rng.below(5) {
        0 => rng.int(-span, span) as f64,
        1 => rng.int(-span, span) as f64 + 0.5,
        2 => rng.int(-span, span) as f64 + 0.5 + *rng.pick(&[1.0, -1.0, 2.0, -2.0]) / SUB,
        _ => rng.int(-span * 1024, span * 1024) as f64 / SUB,
    }
}
fn grid(p: P) -> Value { json!([(p.0 * SUB).round() as i64, (p.1 * SUB).round() as i64]) }

pub fn run_coordinates(out: &mut Out, o: &Opts) {
    let m = Tilemap::default();
    for (id, mut rng) in o.sessions() {
        let rng = &mut rng;
        out.begin(id, &format!("m04 #{id}"));
        for _ in 0..4 {
            // world to tile; positions are exact multiples of 1/1024
            let p = (random_world(rng), random_world(rng));
            let w = Vec2::new(p.0 as f32, p.1 as f32);
            match guard(|| m.world_to_tile_pos(&w)) { Ok(t) if near0(t) => out.put(json!({"e": "tile", "w": grid(p), "t": tile_json(t)})), Ok(t) => bad(out, format!("{w:?} in tile {t:?}")), Err(x) => bad(out, x) }
            // far out, where positions are sparse: told relative to a tile nearby
            {
                let lim = *rng.pick(&[100_000i64, 1 << 20, (1 << 23) - 2]);
                let b = (rng.int(-lim, lim), rng.int(-lim, lim));
                let w = Vec2::new((b.0 as f64 + random_world(rng) / 1024.0) as f32, (b.1 as f64 + random_world(rng) / 1024.0) as f32);
                match guard(|| m.world_to_tile_pos(&w)) {
                    Ok(t) if (t.x() as i64 - b.0).abs().max((t.y() as i64 - b.1).abs()) < 1_000_000 => out.put(json!({"e": "tile", "w": grid((w.x as f64 - b.0 as f64, w.y as f64 - b.1 as f64)), "t": [t.x() as i64 - b.0, t.y() as i64 - b.1]})),
                    Ok(t) => bad(out, format!("{w:?} in tile {t:?}")),
                    Err(x) => bad(out, x),
                }
            }
            // tile to world and back
            let lim = *rng.pick(&[10i64, 2_000_000, (1 << 24) - 1]);
            let t = (rng.int(-lim, lim) as i32, rng.int(-lim, lim) as i32);
            match guard(|| { let w = m.tile_to_world_pos(&v(t)); (w, m.world_to_tile_pos(&w)) }) {
                Ok((w, b)) if w.is_finite() && w.abs().max_element() < 1e8 => out.put(json!({"e": "world", "t": [t.0, t.1], "w": [w.x.round() as i64, w.y.round() as i64], "whole": w == w.round(), "back": tile_json(b)})),
                Ok((w, _)) => bad(out, format!("{w:?}")),
                Err(x) => bad(out, x),
            }
            // chunk and local position
            let st = rng.below(5);
            let t = (random_coord(rng, st), random_coord(rng, st));
            match guard(|| { let (c, l) = m.tile_to_chunk_and_local_pos(&v(t)); (c, l, m.tile_to_chunk_pos(&v(t))) }) {
                Ok((c, l, c2)) => out.put(json!({"e": "split", "t": [t.0, t.1], "c": tile_json(c), "l": tile_json(l), "only": tile_json(c2)})),
                Err(x) => bad(out, x),
            }
            // the tiles under a box
            let big = *rng.pick(&[6, 6, 200]);
            let h = (rng.int(0, big * 1024) as f64 / SUB, rng.int(0, big * 1024) as f64 / SUB);
            let b = Box2d::with_halfdims(h.0 as f32, h.1 as f32);
            match guard(|| (m.quantize(&b, &w), m.world_to_tile_pos(&(w - b.halfsize)), m.world_to_tile_pos(&(w + b.halfsize)))) {
                Ok((r, lo, hi)) if ![r.min, r.max, lo, hi].into_iter().all(near0) => bad(out, format!("{b:?} at {w:?} covers {r:?}, corners in {lo:?} and {hi:?}")),
                Ok((r, lo, hi)) => out.put(json!({"e": "quantize", "w": grid(p), "h": grid(h), "min": tile_json(r.min), "max": tile_json(r.max), "lo": tile_json(lo), "hi": tile_json(hi)})),
                Err(x) => bad(out, x),
            }
        }
    }
}

// ------------------------------------------------------ points and tilemaps
fn hits<T: Transformation2d + DeltaTransform>(m: &Tilemap, t: &T) -> (bool, bool) where Tilemap: CollidesRel2d<Point, T> + PenetratesRel2d<Point, T> {
    (m.collides_rel(&Point, t), m.penetrates_rel(&Point, t).is_some())
}
fn world_hits<T: Transformation2d + DeltaTransform>(m: &Tilemap, t: &T, u: &T) -> (bool, bool) where Tilemap: CollidesRel2d<Point, T> + PenetratesRel2d<Point, T> {
    (Collider2d::new(m, t).collides(Collider2d::new(&Point, u)), Collider2d::new(m, t).penetrates(Collider2d::new(&Point, u)).is_some())
}
pub fn run_points(out: &mut Out, o: &Opts) {
    use crate::scene::{t2, Pl};
    for (id, mut rng) in o.sessions() {
        let rng = &mut rng;
        let mut m = Tilemap::default();
        out.begin(id, &format!("m05 #{id}"));
        let span = *rng.pick(&[2i64, 6, 20]);
        let far = rng.chance(0.1);
        let base = if far { (rng.int(-1_000_000, 1_000_000) as i32, rng.int(-1_000_000, 1_000_000) as i32) } else if rng.chance(0.2) { (rng.int(-500, 500) as i32, rng.int(-500, 500) as i32) } else { (0, 0) };
        for _ in 0..rng.int(1, 14) {
            let p = (base.0 + rng.int(-span, span) as i32, base.1 + rng.int(-span, span) as i32);
            let t = *rng.pick(&[0u8, 1, 2, 255]);
            if rng.chance(0.3) { let _ = guard(|| m.remove_tile(v(p))); out.put(json!({"e": "remove", "i": 1, "p": [p.0, p.1]})); }
            else { let _ = guard(|| m.set_tile(v(p), t)); out.put(json!({"e": "set", "i": 1, "p": [p.0, p.1], "v": t})); }
            for _ in 0..3 {
                // a position relative to the map, near what has just changed
                let near = |rng: &mut Rng, c: i32| c as f64 + match rng.below(4) { 0 => 0.0, 1 => rng.int(-511, 511) as f64 / SUB, 2 => *rng.pick(&[510.0, -510.0, 514.0, -514.0, 512.0]) / SUB, _ => rng.int(-2000, 2000) as f64 / SUB };
                let r = (near(rng, p.0), near(rng, p.1));
                let w = Vec2::new(r.0 as f32, r.1 as f32);
                let r = (w.x as f64, w.y as f64);
                let pl = Pl { pos: r, ang: rng.range(-7.0, 7.0) as f32, k: rng.log(0.1, 10.0) as f32 };
                let how = rng.below(if far { 5 } else { 8 });
                let got = guard(|| match how {
                    0 | 1 => hits(&m, &w),
                    2 => hits(&m, &Translate2d::new(w)),
                    3 => hits(&m, &AxisTransform2d::new(w, pl.k)),
                    4 => hits(&m, &t2(&pl)),
                    5 => { let a = Vec2::new((rng.int(-9999, 9999) as f64 / SUB) as f32, (rng.int(-9999, 9999) as f64 / SUB) as f32); world_hits(&m, &a, &(a + w)) }
                    6 => { // a turned and scaled map
                        let ma = Pl { pos: (rng.range(-9.0, 9.0), rng.range(-9.0, 9.0)), ang: rng.range(-3.2, 3.2) as f32, k: rng.log(0.3, 3.0) as f32 }.snap();
                        let q = ma.apply(r);
                        world_hits(&m, &t2(&ma), &t2(&Pl { pos: q, ang: pl.ang, k: pl.k }.snap()))
                    }
                    _ => { let ma = Pl { pos: (rng.range(-9.0, 9.0), rng.range(-9.0, 9.0)), ang: 0.0, k: rng.log(0.3, 3.0) as f32 }.snap();
                        let q = ma.apply(r);
                        world_hits(&m, &AxisTransform2d::new(Vec2::new(ma.pos.0 as f32, ma.pos.1 as f32), ma.k), &AxisTransform2d::new(Vec2::new(q.0 as f32, q.1 as f32), pl.k)) }
                });
                match got { Ok((c, s)) => out.put(json!({"e": "hit", "w": grid(r), "collides": c, "penetrates": s, "slack": if how >= 6 { 2 } else { 0 }, "how": how})), Err(x) => bad(out, x) }
            }
        }
    }
}

// --------------------------------------------------------------- resolution
const STEPS: f64 = 4096.0; // lattice steps per tile
pub fn run_resolve(out: &mut Out, o: &Opts) {
    for (id, mut rng) in o.sessions() {
        let rng = &mut rng;
        let mut m = Tilemap::default();
        let n = if rng.chance(0.3) { rng.int(0, 2) } else { rng.int(3, 12) };
        let g = *rng.pick(&[1i64, 2, 3]);
        let base = if rng.chance(0.2) { (rng.int(-300, 300) as i32, rng.int(-300, 300) as i32) } else { (rng.int(-1, 1) as i32, rng.int(-1, 1) as i32) };
        let mut solid = BTreeSet::new();
        match rng.below(4) {
            0 => for x in -3..=3 { solid.insert((base.0 + x, base.1 - 1)); },                       // a floor
            1 => for y in -3..=3 { solid.insert((base.0 + 1, base.1 + y)); },                       // a wall
            _ => for _ in 0..n { solid.insert((base.0 + rng.int(-g, g) as i32, base.1 + rng.int(-g, g) as i32)); },
        }
        if rng.chance(0.15) { solid.insert((base.0, base.1)); }
        for s in &solid { m.set_tile(v(*s), rng.int(1, 255) as u8); }
        // a few empty tiles that once were solid
        for _ in 0..2 { let p = (base.0 + rng.int(-g, g) as i32, base.1 + rng.int(-g, g) as i32); if !solid.contains(&p) { m.set_tile(v(p), 3); if rng.chance(0.5) { m.remove_tile(v(p)); } else { m.set_tile(v(p), 0); } } }
        let desc = format!("m06 #{id}: solid {solid:?}");
        out.begin(id, &desc);
        // relative to the base tile, so that the numbers stay small
        let st: Vec<Value> = solid.iter().map(|s| json!([s.0 - base.0, s.1 - base.1])).collect();
        out.put(json!({"e": "map", "solid": st}));
        for _ in 0..3 {
            let ball = rng.chance(0.5);
            let h = if rng.chance(0.5) { (*rng.pick(&[0.25, 0.5, 0.375, 1.0, 0.75]), *rng.pick(&[0.25, 0.5, 0.9375, 1.5])) } else { { let big = if !ball && rng.chance(0.1) { 10000 } else { 6000 }; (rng.int(100, big) as f64 / STEPS, rng.int(100, big) as f64 / STEPS) } };
            // now and then many tiles long, or a ball of several
            let long = rng.chance(0.04);
            let h = if !long { h } else if ball { (rng.int(6000, 20000) as f64 / STEPS, h.1) } else { let l = rng.int(8000, 80000) as f64 / STEPS; if rng.chance(0.5) { (l, h.1.min(1.5)) } else { (h.0.min(1.5), l) } };
            let c = |rng: &mut Rng| match rng.below(4) { 0 => rng.int(-4, 4) as f64 / 2.0, 1 => rng.int(-16, 16) as f64 / 8.0, _ => rng.int(-8192, 8192) as f64 / STEPS };
            let mut p = (c(rng), c(rng));
            if long {
                // an end, or the middle of it, near the base tile
                let e = *rng.pick(&[-1.0, -1.0, 1.0, 1.0, 0.0]);
                if ball { let a = rng.range(0.0, 6.2832); p = (p.0 + e * h.0 * a.cos(), p.1 + e * h.0 * a.sin()); } else if h.0 > h.1 { p.0 += e * h.0; } else { p.1 += e * h.1; }
                p = ((p.0 * STEPS).round() / STEPS, (p.1 * STEPS).round() / STEPS);
            } else if rng.chance(0.3) && !solid.is_empty() {
                // just overlapping, or just clear of, one of the tiles
                let all: Vec<_> = solid.iter().collect();
                let s = **rng.pick(&all);
                let q = ((s.0 - base.0) as f64, (s.1 - base.1) as f64);
                let e = *rng.pick(&[0.02, 0.1, 0.3, -0.02, -0.1]);
                let (hx, hy) = if ball { (h.0, h.0) } else { h };
                let side = rng.below(4);
                p = match side { 0 => (q.0 + 0.5 + hx - e, q.1 + rng.range(-0.6, 0.6)), 1 => (q.0 - 0.5 - hx + e, q.1 + rng.range(-0.6, 0.6)), 2 => (q.0 + rng.range(-0.6, 0.6), q.1 + 0.5 + hy - e), _ => (q.0 + rng.range(-0.6, 0.6), q.1 - 0.5 - hy + e) };
                p = ((p.0 * STEPS).round() / STEPS, (p.1 * STEPS).round() / STEPS);
            }
            let w = Vec2::new((p.0 + base.0 as f64) as f32, (p.1 + base.1 as f64) as f32);
            let dir = Vec2::new(*rng.pick(&[1.0, -1.0, 0.0, 0.3, -7.0, -0.0]), *rng.pick(&[1.0, -1.0, 0.0, 2.5, -0.01, -0.0]));
            let got = guard(|| if ball { m.simple_resolve_ball(&Ball::with_radius(h.0 as f32), w, &dir) } else { m.simple_resolve_box(&Box2d::with_halfdims(h.0 as f32, h.1 as f32), w, &dir) });
            let q = |x: f64| (x * STEPS).round() as i64;
            match got {
                Ok(r) if r.is_finite() && (r.x as f64 - base.0 as f64).abs().max((r.y as f64 - base.1 as f64).abs()) < 50.0 =>
                    out.put(json!({"e": "resolve", "ball": ball, "h": [q(h.0), q(if ball { h.0 } else { h.1 })], "w": [q(p.0), q(p.1)], "left": dir.x < 0.0, "down": dir.y < 0.0,
                        "to": [q(r.x as f64 - base.0 as f64), q(r.y as f64 - base.1 as f64)], "same": r == w})),
                Ok(r) => bad(out, format!("moved to {r:?}")),
                Err(x) => bad(out, x),
            }
        }
    }
}

// --------------------------------------------------------------- rectangles
pub fn run_rects(out: &mut Out, o: &Opts) {
    for (id, mut rng) in o.sessions() {
        let rng = &mut rng;
        let (w, h) = if rng.chance(0.004) { match rng.below(3) { 0 => (rng.int(200, 700), rng.int(0, 1)), 1 => (rng.int(0, 1), rng.int(200, 700)), _ => (rng.int(25, 45), rng.int(25, 45)) } } else { match rng.below(20) { 0 => (rng.int(20, 180), 0), 1 => (0, rng.int(20, 180)), 2 => (rng.int(7, 13), rng.int(7, 12)), _ => (rng.int(-2, 7), rng.int(-2, 7)) } };
        let (x, y) = match rng.below(5) {
            0 => (rng.int(-10, 10), rng.int(-10, 10)),
            1 => (-w / 2, -h / 2),
            2 => (i32::MAX as i64 - w.max(0), i32::MAX as i64 - h.max(0)),
            3 => (i32::MIN as i64 + 3, i32::MIN as i64 + 3),
            _ => (rng.int(-1_000_000, 1_000_000), rng.int(-1_000_000, 1_000_000)),
        };
        let (lo, hi) = ((x as i32, y as i32), ((x + w) as i32, (y + h) as i32));
        let mk = || Rect2i32::min_max(v(lo), v(hi));
        out.begin(id, &format!("u01 #{id}: {lo:?}..={hi:?}"));
        out.put(json!({"e": "rect", "min": [lo.0, lo.1], "max": [hi.0, hi.1]}));
        match guard(mk) { Ok(r) => out.put(json!({"e": "corners", "min": tile_json(r.min), "max": tile_json(r.max)})), Err(m) => bad(out, m) }
        let r = Rect2i32 { min: v(lo), max: v(hi) };
        for k in 0..12u64 {
            let dx = *rng.pick(&[1.0f32, 0.0, -0.0, 1e-30, f32::INFINITY]) * if k & 1 == 1 { -1.0 } else { 1.0 };
            let dy = *rng.pick(&[1.0f32, 0.0, -0.0, 1e-30, 5.0]) * if k & 2 == 2 { -1.0 } else { 1.0 };
            let (fx, fy, how) = match k { 0..=3 => (k & 1 == 1, k & 2 == 2, "named"), 4..=7 => (k & 1 == 1, k & 2 == 2, "flags"), 8..=10 => (dx < 0.0, dy < 0.0, "direction"), _ => (false, false, "plain") };
            let got: Result<Vec<V2i32>, String> = guard(|| {
                let cap = ((w + 1).max(0) * (h + 1).max(0) + 10) as usize;
                match how {
                    "named" => match (fx, fy) { (false, false) => r.iterate_north_east().take(cap).collect(), (true, false) => r.iterate_north_west().take(cap).collect(), (false, true) => r.iterate_south_east().take(cap).collect(), _ => r.iterate_south_west().take(cap).collect() },
                    "flags" => r.iterate_boxed(fx, fy).take(cap).collect(),
                    "direction" => r.iterate_with_direction_f32(dx, dy).take(cap).collect(),
                    _ => r.iterate().take(cap).collect(),
                }
            });
            match got { Ok(c) => out.put(json!({"e": "cells", "how": how, "fx": fx, "fy": fy, "cells": c.iter().map(|t| tile_json(*t)).collect::<Vec<_>>()})), Err(m) => bad(out, m) }
        }
        let p = (rng.int(-2, 3) as i32, rng.int(-2, 3) as i32);
        let edge = |c: i32| (c as i64).abs() > 2_000_000_000;
        if !edge(lo.0) && !edge(hi.0) {
            match guard(|| mk().pad(v(p))) { Ok(r) => out.put(json!({"e": "pad", "by": [p.0, p.1], "min": tile_json(r.min), "max": tile_json(r.max)})), Err(m) => bad(out, m) }
        }
    }
}
