mod alloc;
mod cli;
mod data;
mod fw;
mod io;
mod ops;
mod props;
mod refc;
mod stor;

use fw::{Ctx, Tier};
use std::path::PathBuf;
use std::sync::Arc;
use std::time::Instant;

#[global_allocator]
static ALLOC: alloc::Watch = alloc::Watch;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(String::as_str) == Some("--worker") {
        std::process::exit(props::worker(&args[2..]));
    }
    let prop = args.get(1).cloned().unwrap_or_default();
    let mut replay = None;
    let mut out = PathBuf::from("/verif");
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--replay" => {
                i += 1;
                let s = std::fs::read_to_string(&args[i]).expect("replay file");
                let v: serde_json::Value = serde_json::from_str(&s).expect("replay json");
                replay = Some((v["sub"].as_str().unwrap().to_string(), v["case"].clone()));
            }
            "--out" => {
                i += 1;
                out = PathBuf::from(&args[i]);
            }
            a => panic!("unknown argument {a}"),
        }
        i += 1;
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let scratch = PathBuf::from(std::env::var("VH_SCRATCH").expect("VH_SCRATCH"));
    std::env::set_current_dir(&scratch).expect("scratch dir");
    fw::install_panic_hook();
    let mut ctx = Ctx::new(&prop, seed, tier, scratch);
    ctx.replay = replay;
    ctx.known = props::load_known(include_str!("../../known-findings.json"));
    let ctx = Arc::new(ctx);
    ctx.spawn_watchdog(out.clone());
    let t0 = Instant::now();
    if !props::run(&ctx) {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    }
    std::process::exit(ctx.finish(&out, t0.elapsed().as_secs_f64()));
}
