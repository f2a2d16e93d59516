//! The sessions of ../driver under Bevy's transform (same sources, feature "bevy").
#![allow(dead_code, unused_mut, unused_variables, unreachable_code)]
mod bv;
#[path = "../../driver/src/calls.rs"]
mod calls;
#[path = "../../driver/src/plans.rs"]
mod plans;
#[path = "../../driver/src/scene.rs"]
mod scene;
#[path = "../../driver/src/shapes.rs"]
mod shapes;
#[path = "../../driver/src/single.rs"]
mod single;
#[path = "../../driver/src/transforms.rs"]
mod transforms;
#[path = "../../driver/src/util.rs"]
mod util;
use util::*;

/// writes every message out in full, and keeps none
struct Reader;
impl log::Log for Reader {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { std::hint::black_box(format!("{}", r.args())); }
    fn flush(&self) {}
}
pub fn log_all(on: bool) { log::set_max_level(if on { log::LevelFilter::Trace } else { log::LevelFilter::Off }); }

fn main() {
    log::set_logger(&Reader).expect("logger");
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let mode = args[1].clone();
    let path = args[2].clone();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let n: u64 = get("--n").and_then(|s| s.parse().ok()).unwrap_or(100);
    let only: Option<u64> = get("--only").and_then(|s| s.parse().ok());
    let o = scene::Opts { n, seed, only, tier_thorough: args.iter().any(|a| a == "--thorough"), feed: get("--feed") };
    start_watchdog(&path);
    let mut out = Out::new(&path, only.is_some());
    log_all(mode == "t04h");
    match mode.as_str() {
        "t04" => scene::run(&mut out, "t04", &o),
        "c06" => calls::run(&mut out, &o),
        "t04h" => scene::run_histories(&mut out, &o),
        "grid" | "plan" => plans::run(&mut out, &o, false),
        "t04m" => bv::run_maps(&mut out, &o),
        "t04c" => bv::run_chains(&mut out, &o),
        "t04s" => single::run_support(&mut out, &o),
        _ => { eprintln!("unknown mode {mode}"); std::process::exit(2) }
    }
    out.finish();
}
