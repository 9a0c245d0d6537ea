//! Checks of the matrix crate and of the C interface; shares the engine, the environment and the
//! catalogue of operations with `mc`.
#![allow(dead_code)]
#[path = "../../mc/src/bufs.rs"]
mod bufs;
#[path = "../../mc/src/catalog.rs"]
mod catalog;
#[path = "../../mc/src/engine.rs"]
mod engine;
#[path = "../../mc/src/env.rs"]
mod env;
#[path = "../../mc/src/exec.rs"]
mod exec;
#[path = "../../mc/src/flt.rs"]
mod flt;
#[path = "../../mc/src/gens.rs"]
mod gens;
#[path = "../../mc/src/model.rs"]
mod model;
#[path = "../../mc/src/op.rs"]
mod op;
#[path = "../../mc/src/statics.rs"]
mod statics;
#[path = "../../mc/src/store.rs"]
mod store;
#[path = "../../mc/src/timefreq.rs"]
mod timefreq;
mod mat;
mod props;

/// The sampling distance after a transform of n points: seconds <-> hertz
#[allow(non_snake_case)]
pub fn FFT_DELTA(delta: f64, n: usize) -> f64 {
    1.0 / (n as f64 * delta)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("usage: mcx <property> quick|thorough|replay [file]");
        std::process::exit(2);
    }
    let tier = if a[2] == "thorough" { engine::Tier::Thorough } else { engine::Tier::Quick };
    let args = engine::Args {
        prop: a[1].clone(),
        tier: if a[2] == "replay" && std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { engine::Tier::Thorough } else { tier },
        replay: if a[2] == "replay" { Some(a[3].clone()) } else { None },
        part: std::env::var("MC_PART").unwrap_or_default(),
    };
    let plan = match props::plan(&a[1], args.tier) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", a[1]);
            std::process::exit(2)
        }
    };
    std::process::exit(engine::run(&args, plan));
}
