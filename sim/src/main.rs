#![allow(dead_code)]
mod check;
mod client;
mod host;
#[cfg(feature = "iface")]
mod iface;
#[cfg(feature = "sdk")]
mod sdk;
mod known;
mod lab;
mod layout;
mod model;
mod native;
mod prof;
mod rt;
mod run;
mod util;
mod work;
use std::rc::Rc;
use work::*;

/// The program under test. P26 runs a build in which the language's own unsafe
/// preconditions (index in bounds, valid range) are checked.
pub fn lib(prop: u32) -> &'static str {
    let checked = "target/progub/release/libprogso.so";
    if prop == 26 && std::path::Path::new(checked).exists() {
        return checked;
    }
    "target/prog/release/libprogso.so"
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "check" => std::process::exit(check::check(&a[2..])),
        "worker" => check::worker(&a[2..]),
        "minimise" => check::minimise(&a[2..]),
        "replay" => std::process::exit(check::replay(&a[2])),
        "sweep" => sweep(&a),
        _ => dev(&a),
    }
}
/// sim sweep <from> <n>: runs seeds of all profiles until the first mismatch of any kind.
fn sweep(a: &[String]) {
    rt::load(lib(0));
    let (from, n): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
    let keys = Rc::new(client::Keys::new());
    for seed in from..from + n {
        for prop in (1..=25).chain(27..=30).chain([26]) {
            let p = run::variant(prop, seed);
            let mut s = Sim::new(p.clone(), keys.clone());
            for st in run::plan(&p, seed) {
                s.step(st);
            }
            if let Some(v) = s.viols.first() {
                println!("found {seed} profile {prop} {} {}", tag_names(v.tags), v.msg.chars().take(160).collect::<String>());
                return;
            }
        }
    }
    println!("none");
}
/// sim <property number> <from> <n> [v]: runs seeds and sums up all mismatches.
fn dev(a: &[String]) {
    let prop: u32 = a[1].parse().unwrap();
    rt::load(lib(prop));
    let from: u64 = a[2].parse().unwrap();
    let n: u64 = a[3].parse().unwrap();
    let verbose = a.len() > 4;
    let keys = Rc::new(client::Keys::new());
    let mut seen: std::collections::BTreeMap<String, (u64, u64)> = Default::default();
    let mut tot = Stats::default();
    let t0 = std::time::Instant::now();
    for seed in from..from + n {
        let p = run::variant(prop, seed);
        let mut s = Sim::new(p.clone(), keys.clone());
        s.host = host::hook(prop);
        s.builders = matches!(prop, 32 | 33);
        s.log = if verbose { Some(vec![]) } else { None };
        for st in run::plan(&p, seed) {
            s.step(st);
        }
        if verbose {
            for l in s.log.unwrap() {
                println!("{l}");
            }
        }
        for v in &s.viols {
            let m: String = v.msg.chars().take(150).collect();
            let e = seen.entry(format!("{} {}", tag_names(v.tags), if m.contains("account") { m[..(if m.starts_with("request") { 120 } else { 60 }).min(m.len())].to_string() } else { m })).or_insert((0, seed));
            e.0 += 1;
        }
        tot.merge(&s.stats);
    }
    println!("{:?} {:?}", t0.elapsed(), tot.c);
    println!("{:?}", tot.by_ix);
    println!("{:?} {:?}", tot.rejects, tot.faults);
    for i in 1..40 {
        print!("P{i:02} {}/{} ", tot.facet_ok[i], tot.facet[i]);
    }
    println!();
    for (k, v) in seen {
        println!("{v:?} {k}");
    }
}
