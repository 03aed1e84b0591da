//! Replays behaviours generated from the TLA+ specifications on the real code.
//!
//! usage: harness MODE --out FILE [--seed N] [--threads N] [key=value ...] < trace lines
mod codec;
mod conc;
mod filters;
mod ondemand;
mod store;
mod token;
mod util;

use std::collections::BTreeMap;
use util::*;

fn main() {
    let mut args = std::env::args().skip(1);
    let mode = args.next().expect("mode");
    let mut out = None;
    let mut seed = 1u64;
    let mut threads = 2usize;
    let mut params: BTreeMap<String, String> = BTreeMap::new();
    while let Some(a) = args.next() {
        match a.as_str() {
            "--out" => out = args.next(),
            "--seed" => seed = args.next().unwrap().parse().unwrap(),
            "--threads" => threads = args.next().unwrap().parse().unwrap(),
            x => {
                let (k, v) = x.split_once('=').expect("key=value");
                params.insert(k.to_string(), v.to_string());
            }
        }
    }
    let out = out.expect("--out");
    std::panic::set_hook(Box::new(|info| {
        PANIC_AT.with(|p| {
            *p.borrow_mut() = format!("{info}");
        });
    }));
    let run: RunFn = match mode.as_str() {
        "store" => store::replay,
        "token" => token::replay,
        "codec" => codec::replay,
        "filters" => filters::replay,
        "ondemand" => ondemand::record,
        "conc-store" => conc::run_store,
        "conc-token" => conc::run_token,
        x => panic!("unknown mode {x}"),
    };
    drive(run, seed, threads, &out, params);
}
