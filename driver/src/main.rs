mod calls;
mod plans;
mod scene;
mod shapes;
mod single;
mod tilemap;
mod transforms;
mod util;
mod utils;
use util::*;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let mode = args[1].clone();
    let path = args[2].clone();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let n: u64 = get("--n").and_then(|s| s.parse().ok()).unwrap_or(100);
    let only: Option<u64> = get("--only").and_then(|s| s.parse().ok());
    let o = scene::Opts { n, seed, only, tier_thorough: args.iter().any(|a| a == "--thorough"), feed: get("--feed") };
    start_watchdog(&path);
    let mut out = Out::new(&path, only.is_some());
    match mode.as_str() {
        "c01" | "c02" | "c03" | "c04" | "c05" | "c07" => scene::run(&mut out, &mode, &o),
        "c07e" => calls::run_evidence(&mut out, &o),
        "h01" => scene::run_histories(&mut out, &o),
        "grid" | "plan" => plans::run(&mut out, &o, false),
        "gridsdf" => plans::run(&mut out, &o, true),
        "c06" => calls::run(&mut out, &o),
        "s01" => single::run_support(&mut out, &o),
        "s02" => single::run_bounds(&mut out, &o),
        "s03" => single::run_polys(&mut out, &o),
        "t01" => transforms::run_maps(&mut out, &o),
        "t02" => transforms::run_chains(&mut out, &o),
        "t03" => transforms::run_rotors(&mut out, &o),
        "m01" | "m02" | "m03" => tilemap::run_histories(&mut out, &o, &mode),
        "m04" => tilemap::run_coordinates(&mut out, &o),
        "m05" => tilemap::run_points(&mut out, &o),
        "m06" => tilemap::run_resolve(&mut out, &o),
        "u01" => tilemap::run_rects(&mut out, &o),
        "u02" => utils::run_publishers(&mut out, &o),
        "u03" => utils::run_approx(&mut out, &o),
        "u04" => utils::run_interp(&mut out, &o),
        _ => { eprintln!("unknown mode {mode}"); std::process::exit(2) }
    }
    out.finish();
}
