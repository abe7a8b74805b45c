#![allow(deprecated)]
mod common;
mod bops;
mod cross;
mod geomx;
mod mono;
mod prim;
mod splay;
use common::*;
use std::time::{Duration, Instant};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone()).unwrap_or(d.to_string());
    let prop = args[1].clone();
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let secs: f64 = get("--secs", "10").parse().unwrap();
    let allowed: Vec<String> = get("--known", "").split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    install_hook();
    watchdog(&prop, &get("--trace", ""), get("--case-limit", "20").parse().unwrap());
    let start = Instant::now();
    let mut ctx = Ctx {
        prop: prop.clone(), seed, deadline: start + Duration::from_secs_f64(secs), start,
        cases: 0, families: vec![], known: vec![], allowed, failure: None,
        only: args.iter().position(|a| a == "--only").map(|i| (args[i + 1].clone(), args[i + 2].parse().unwrap())),
        shard: get("--shard", "0").parse().unwrap(),
    };
    match prop.as_str() {
        "map" => splay::run(&mut ctx, false),
        "consume" => splay::run(&mut ctx, true),
        "order" | "normal" | "vertical" | "isect" => prim::run(&mut ctx, &prop),
        "points" => cross::run_families(&mut ctx, &|s| cross::check_crossings(s, false)),
        "pieces" => cross::run_families(&mut ctx, &|s| cross::check_crossings(s, true)),
        "intersections" => cross::run_families(&mut ctx, &|s| cross::check_intersections(s, true)),
        "region" => bops::run_families(&mut ctx, &|s| bops::check_bops(s, false)),
        "rings" => bops::run_families(&mut ctx, &|s| bops::check_bops(s, true)),
        "decomposition" => mono::run_poly(&mut ctx, &|s| mono::check_decomposition(s)),
        "monopoly" => mono::run_mono(&mut ctx, &|s| mono::check_monopoly(s)),
        "scanner" => mono::run_mono(&mut ctx, &|s| mono::check_scanner(s)),
        "raster" => mono::run_mono(&mut ctx, &|s| mono::check_raster(s)),
        _ => { eprintln!("unknown search {prop}"); std::process::exit(3); }
    }
    let fams: Vec<String> = ctx.families.iter().map(|(n, c, s)| format!("{{\"family\":\"{}\",\"cases\":{},\"sample\":\"{}\"}}", n, c, json_escape(s))).collect();
    let known: Vec<String> = ctx.known.iter().map(|(n, c)| format!("{{\"class\":\"{}\",\"example\":\"{}\"}}", n, json_escape(c))).collect();
    let failure = match &ctx.failure {
        None => "null".to_string(),
        Some((f, k, i, m)) => format!("{{\"family\":\"{}\",\"case\":{},\"input\":\"{}\",\"message\":\"{}\"}}", f, k, json_escape(i), json_escape(m)),
    };
    println!("{{\"search\":\"{}\",\"seed\":{},\"cases\":{},\"wall_s\":{:.2},\"families\":[{}],\"known\":[{}],\"failure\":{}}}",
        prop, seed, ctx.cases, start.elapsed().as_secs_f64(), fams.join(","), known.join(","), failure);
    std::process::exit(if ctx.failure.is_some() { 1 } else { 0 });
}
