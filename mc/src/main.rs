#[cfg(feature = "std")]
mod bufs;
#[cfg(not(feature = "std"))]
mod bufs_nostd;
mod catalog;
mod engine;
mod env;
mod exec;
mod flt;
mod gens;
mod model;
mod op;
mod props;
mod statics;
mod store;
mod timefreq;

/// The sampling distance after a transform of n points: seconds <-> hertz
#[allow(non_snake_case)]
pub fn FFT_DELTA(delta: f64, n: usize) -> f64 {
    1.0 / (n as f64 * delta)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("usage: mc <property> quick|thorough|replay [file]");
        std::process::exit(2);
    }
    let tier = if a[2] == "thorough" { engine::Tier::Thorough } else { engine::Tier::Quick };
    let args = engine::Args {
        prop: a[1].clone(),
        tier: if a[2] == "replay" && std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { engine::Tier::Thorough } else { tier },
        replay: if a[2] == "replay" { Some(a[3].clone()) } else { None },
        part: std::env::var("MC_PART").unwrap_or_default(),
    };
    let plan = match props::plan(&a[1], args.tier) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", a[1]);
            std::process::exit(2)
        }
    };
    let code = engine::run(&args, plan);
    std::process::exit(code);
}
