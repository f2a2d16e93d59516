//! Sessions of auburn's `3d` feature, recorded for spec/TraceSpace.tla.  The
//! driver only knows what it asked for and how large results can get, not what
//! they are.
#[path = "../../driver/src/util.rs"]
#[allow(dead_code)]
mod util;
mod maps;
mod solids;
use util::*;

pub struct Opts { pub n: u64, pub seed: u64, pub only: Option<u64>, pub thorough: bool }
impl Opts {
    pub fn sessions(&self) -> impl Iterator<Item = (u64, Rng)> + '_ {
        (0..self.n).filter(|id| self.only.map_or(true, |k| k == *id))
            .map(|id| (id, Rng::new(self.seed.wrapping_mul(1_000_003).wrapping_add(id))))
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let path = args[2].clone();
    let o = Opts {
        n: get("--n").and_then(|s| s.parse().ok()).unwrap_or(100),
        seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        only: get("--only").and_then(|s| s.parse().ok()),
        thorough: args.iter().any(|a| a == "--thorough"),
    };
    start_watchdog(&path);
    let mut out = Out::new(&path, o.only.is_some());
    match args[1].as_str() {
        "d01" => solids::run_queries(&mut out, &o),
        "d02" => maps::run(&mut out, &o),
        "d03" => solids::run_shapes(&mut out, &o),
        m => { eprintln!("unknown mode {m}"); std::process::exit(2) }
    }
    out.finish();
}
