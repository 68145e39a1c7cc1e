//! The check driver: spreads seeded runs over worker processes, minimises and
//! replays what fails, writes the evidence.
use crate::client::Keys;
use crate::run::*;
use crate::work::*;
use crate::{lib, rt};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::time::{Duration, Instant};

fn num(id: &str) -> u32 {
    id.trim_start_matches('P').parse().expect("property id")
}
/// worker <prop> <base> <first> <stride> <count> <seconds> <outfile>
pub fn worker(a: &[String]) {
    let prop = num(&a[0]);
    let base: u64 = a[1].parse().unwrap();
    let first: u64 = a[2].parse().unwrap();
    let stride: u64 = a[3].parse().unwrap();
    let count: u64 = a[4].parse().unwrap();
    let secs: u64 = a[5].parse().unwrap();
    rt::load(lib(prop));
    let keys = Rc::new(Keys::new());
    let t0 = Instant::now();
    let mut tot = Stats::default();
    let mut traces: HashSet<u64> = Default::default();
    let mut out = std::io::stdout().lock();
    let (mut runs, mut relevant, mut digest) = (0u64, 0u64, 0u64);
    let mut i = first;
    while i < count {
        if t0.elapsed() > Duration::from_secs(secs) {
            break;
        }
        writeln!(out, "S {i}").unwrap();
        out.flush().unwrap();
        let vs = run_seed(base, i);
        let steps = plan(&variant(prop, vs), vs);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| go(prop, vs, &steps, &keys, false)));
        runs += 1;
        match r {
            Ok(o) => {
                if let Some(f) = o.found {
                    writeln!(out, "V {i} {}", f.viol.msg.replace('\n', " ")).unwrap();
                    out.flush().unwrap();
                    break;
                }
                let st = &o.sim.stats;
                let p = prop as usize;
                // judged something this property speaks about, and accepted some of it
                if st.facet[p] > 0 && (st.facet_ok[p] > 0 || matches!(prop, 26 | 29)) {
                    relevant += 1;
                    traces.insert(o.sim.trace);
                }
                digest = digest.wrapping_add(o.sim.trace.wrapping_mul(2 * i + 1));
                tot.merge(st);
            },
            Err(_) => {
                // A fault of the simulator itself is no verdict on the program.
                *tot.c.entry("runs the simulator gave up").or_insert(0) += 1;
            },
        }
        i += stride;
    }
    let mut s = String::new();
    writeln!(s, "n runs {runs}").unwrap();
    writeln!(s, "n relevant {relevant}").unwrap();
    writeln!(s, "n digest {digest}").unwrap();
    writeln!(s, "n slots {}", tot.slots).unwrap();
    for (k, v) in &tot.c {
        writeln!(s, "c {v} {k}").unwrap();
    }
    for (k, v) in &tot.faults {
        writeln!(s, "f {v} {k}").unwrap();
    }
    for (k, v) in &tot.rejects {
        writeln!(s, "r {v} {k}").unwrap();
    }
    for ((ix, ok), v) in &tot.by_ix {
        writeln!(s, "i {v} {ix} {}", if *ok { "accepted" } else { "refused" }).unwrap();
    }
    writeln!(s, "n facet {}", tot.facet[prop as usize]).unwrap();
    writeln!(s, "n facet_ok {}", tot.facet_ok[prop as usize]).unwrap();
    for t in &tot.traces {
        writeln!(s, "T {t:x}").unwrap();
    }
    for t in &tot.states {
        writeln!(s, "U {t:x}").unwrap();
    }
    for t in &traces {
        writeln!(s, "R {t:x}").unwrap();
    }
    std::fs::write(&a[6], s).unwrap();
    writeln!(out, "E").unwrap();
}
/// minimise <prop> <run seed> <out>: writes the replay file of a failing run.
pub fn minimise(a: &[String]) {
    let prop = num(&a[0]);
    let vs: u64 = a[1].parse().unwrap();
    rt::load(lib(prop));
    let keys = Rc::new(Keys::new());
    let steps = plan(&variant(prop, vs), vs);
    let min = crate::run::minimise(prop, vs, &steps, &keys, Duration::from_secs(25));
    let o = go(prop, vs, &min, &keys, true);
    match o.found {
        Some(f) => write_replay(&a[2], prop, vs, &min, &f, o.sim.trace, &o.sim.log.unwrap()),
        None => std::process::exit(3),
    }
}
pub fn replay(path: &str) -> i32 {
    if let Some(n) = std::fs::read_to_string(path).ok().and_then(|t| t.lines().find_map(|l| l.strip_prefix("scenario ").map(|x| x.to_string()))) {
        return crate::known::replay(&n, path);
    }
    let Some((prop, vs, steps, msg, trace)) = read_replay(path) else {
        println!("cannot read {path}");
        return 2;
    };
    rt::load(lib(prop));
    let keys = Rc::new(Keys::new());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| go(prop, vs, &steps, &keys, true)));
    match r {
        Ok(o) => {
            for l in o.sim.log.unwrap_or_default() {
                println!("{l}");
            }
            match o.found {
                Some(f) => {
                    println!("reproduced: {}", f.viol.msg);
                    println!("same execution: {}", f.viol.msg.replace('\n', " ") == msg && o.sim.trace == trace);
                    println!("VIOLATION property=P{prop:02} replay={path}");
                    1
                },
                None => {
                    println!("not reproduced on this tree");
                    0
                },
            }
        },
        Err(_) => {
            println!("error: the simulator gave up on this run");
            2
        },
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect();
    format!("{{{}}}", v.join(", "))
}
struct Batch {
    bad: Option<(u64, String)>,
    n: BTreeMap<String, u64>,
    c: BTreeMap<String, u64>,
    f: BTreeMap<String, u64>,
    r: BTreeMap<String, u64>,
    i: BTreeMap<String, u64>,
    t: HashSet<u64>,
    u: HashSet<u64>,
    rt: HashSet<u64>,
    digest: u64,
}
fn batch(prop: &str, base: u64, count: u64, secs: u64, jobs: u64, tag: &str) -> Batch {
    let exe = std::env::current_exe().unwrap();
    std::fs::create_dir_all("target/run").unwrap();
    let mut kids = vec![];
    let (tx, rx) = std::sync::mpsc::channel::<(u64, String)>();
    for k in 0..jobs {
        let f = format!("target/run/{prop}.{tag}.{}.{k}", std::process::id());
        let mut c = Command::new(&exe)
            .args(["worker", prop, &base.to_string(), &k.to_string(), &jobs.to_string(), &count.to_string(), &secs.to_string(), &f])
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        let so = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            let mut last = String::new();
            for l in BufReader::new(so).lines().map_while(Result::ok) {
                if l.starts_with('S') {
                    last = l;
                    continue;
                }
                let _ = tx.send((k, l.clone()));
                if l == "E" {
                    return;
                }
            }
            let _ = tx.send((k, format!("D {}", last.trim_start_matches("S "))));
        });
        kids.push((c, f));
    }
    drop(tx);
    let mut bad: Option<(u64, String)> = None;
    for (_, l) in rx.iter() {
        let (kind, rest) = l.split_at(1);
        let rest = rest.trim();
        let (i, msg) = rest.split_once(' ').unwrap_or((rest, ""));
        let hit = match kind {
            "V" => Some(msg.to_string()),
            "D" => Some("the program destroyed the process that runs it".to_string()),
            _ => None,
        };
        if let Some(m) = hit {
            bad = Some((i.parse().unwrap_or(0), m));
            break;
        }
    }
    let mut b = Batch {
        bad,
        n: Default::default(),
        c: Default::default(),
        f: Default::default(),
        r: Default::default(),
        i: Default::default(),
        t: Default::default(),
        u: Default::default(),
        rt: Default::default(),
        digest: 0,
    };
    for (mut c, f) in kids {
        if b.bad.is_some() {
            let _ = c.kill();
        }
        let _ = c.wait();
        let t = std::fs::read_to_string(&f).unwrap_or_default();
        let _ = std::fs::remove_file(&f);
        for l in t.lines() {
            let Some((k, x)) = l.split_once(' ') else { continue };
            let hx = || u64::from_str_radix(x, 16).unwrap_or(0);
            match k {
                "T" => {
                    b.t.insert(hx());
                },
                "U" => {
                    b.u.insert(hx());
                },
                "R" => {
                    b.rt.insert(hx());
                },
                "n" => {
                    let (k, v) = x.split_once(' ').unwrap();
                    let v: u64 = v.parse().unwrap_or(0);
                    if k == "digest" {
                        b.digest = b.digest.wrapping_add(v);
                    } else {
                        *b.n.entry(k.into()).or_insert(0) += v;
                    }
                },
                _ => {
                    let (v, k2) = x.split_once(' ').unwrap();
                    let m = match k {
                        "c" => &mut b.c,
                        "f" => &mut b.f,
                        "r" => &mut b.r,
                        _ => &mut b.i,
                    };
                    *m.entry(k2.into()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
                },
            }
        }
    }
    b
}

/// check <property> <tier>
pub fn check(a: &[String]) -> i32 {
    let t0 = Instant::now();
    let id = a[0].clone();
    let tier = a.get(1).cloned().unwrap_or("quick".into());
    let prop = num(&id);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let env = |k: &str, d: u64| std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
    let jobs = env("VERIF_JOBS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8).clamp(1, 16));
    let quick = tier != "thorough";
    // The number of runs is fixed; the time limit only guards a slow machine.
    let count = env("VERIF_RUNS", if quick { 24_000 } else { 600_000 });
    let secs = env("VERIF_SECS", if quick { 240 } else { 780 });
    println!("{id} tier={tier} seed={seed} runs<={count} workers={jobs}");
    // Determinism: the same seeds, other worker count, other processes.
    let d1 = batch(&id, seed, 48, 60, 3, "d1");
    let d2 = batch(&id, seed, 48, 60, jobs, "d2");
    let mut same = true;
    if d1.bad.is_none() && d2.bad.is_none() && d1.n.get("runs") == d2.n.get("runs") {
        same = d1.digest == d2.digest && d1.t == d2.t;
    }
    if !same {
        println!("error: the same seeds gave different executions");
        return 2;
    }
    let b = if d2.bad.is_some() { d2 } else { batch(&id, seed, count, secs, jobs, "m") };
    let wall_runs = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut extra = String::new();
    if let Some((i, msg)) = &b.bad {
        code = 1;
        let vs = run_seed(seed, *i);
        std::fs::create_dir_all("replays").unwrap();
        let path = format!("replays/{id}-{vs:016x}.txt");
        let _ = std::fs::remove_file(&path);
        let exe = std::env::current_exe().unwrap();
        let ok = Command::new(&exe).args(["minimise", &id, &vs.to_string(), &path]).stderr(Stdio::null()).status().map(|s| s.success()).unwrap_or(false);
        if !ok || !std::path::Path::new(&path).exists() {
            // The run cannot be cut short: keep all of its steps.
            let steps = plan(&variant(prop, vs), vs);
            let f = Found { at: steps.len(), viol: Viol { tags: 1 << prop, msg: msg.clone() } };
            write_replay(&path, prop, vs, &steps, &f, 0, &[]);
        }
        let r = Command::new(&exe).args(["replay", &path]).stderr(Stdio::null()).output().unwrap();
        let txt = String::from_utf8_lossy(&r.stdout).to_string();
        let again = r.status.code() != Some(0);
        let exact = txt.contains("same execution: true");
        println!("run seed {vs} (index {i}): {msg}");
        println!("replayed in a fresh process: {}", if exact { "the same execution" } else if again { "fails again" } else { "did not fail again" });
        println!("VIOLATION property={id} replay={path}");
        write!(extra, ", \"violation\": {}, \"replay\": {}", js(msg), js(&path)).unwrap();
    }
    let gave_up = b.c.get("runs the simulator gave up").copied().unwrap_or(0);
    if code == 0 && gave_up * 50 > b.n.get("runs").copied().unwrap_or(0) {
        println!("error: the simulator gave up on {gave_up} runs");
        code = 2;
    }
    if code == 0 {
        let (c, e) = crate::known::check(prop, seed);
        code = c;
        extra += &e;
    }
    let runs = b.n.get("runs").copied().unwrap_or(0);
    let wall = t0.elapsed().as_secs_f64();
    // A few of the executions, written out.
    let mut samples = vec![];
    rt::load(lib(prop));
    if code == 0 {
        let keys = Rc::new(Keys::new());
        for i in 0..3 {
            let vs = run_seed(seed, i);
            let o = go(prop, vs, &plan(&variant(prop, vs), vs), &keys, true);
            let l: Vec<String> = o.sim.log.unwrap_or_default().into_iter().take(14).map(|l| js(&l.chars().take(260).collect::<String>())).collect();
            samples.push(format!("{{\"run_seed\": {}, \"first_events\": [{}]}}", js(&vs.to_string()), l.join(", ")));
        }
    }
    let g = |k: &str| b.n.get(k).copied().unwrap_or(0);
    let ev = format!(
        concat!(
            "{{\"property\": {id}, \"tier\": {tier}, \"seed\": {seed}, \"level\": \"exploration\",\n",
            "\"coverage\": {{\"evaluations\": {runs}, \"distinct_nontrivial\": {dn},\n",
            "\"rule\": {rule},\n",
            "\"samples\": [{samples}],\n",
            "\"runs_per_hour\": {rph}, \"seeds_per_hour\": {rph}, \"simulated_slots\": {slots}, \"simulated_hours\": {sh:.1},\n",
            "\"transactions\": {c},\n\"instructions_by_number\": {i},\n\"faults_injected\": {f},\n\"refusals_by_reason\": {r},\n",
            "\"instructions_about_this_property\": {facet}, \"of_those_accepted\": {facetok}, \"runs_about_this_property\": {rel},\n",
            "\"distinct_histories_of_accepted_transactions\": {t}, \"distinct_role_table_shapes\": {u},\n",
            "\"determinism\": {det},\n",
            "\"real_components\": {real}, \"stub_components\": {stub}{extra}}},\n",
            "\"assumptions\": {assume},\n\"wall_s\": {wall:.1}, \"violations\": {viol}}}\n"
        ),
        id = js(&id),
        tier = js(if quick { "quick" } else { "thorough" }),
        seed = seed,
        runs = runs,
        dn = b.rt.len(),
        rule = js("one evaluation = one seeded run: a profile variant and a step list drawn from the seed, executed against the real program with every instruction judged by the reference model; non-trivial = the run contains an instruction this property speaks about (accepted at least once, or refused for P26 and P29), distinct = by the hash of all results and ledger changes of the run"),
        samples = samples.join(",\n"),
        rph = (runs as f64 / wall_runs.max(0.1) * 3600.0) as u64,
        slots = g("slots"),
        sh = g("slots") as f64 * 0.4 / 3600.0,
        c = jmap(&b.c),
        i = jmap(&b.i),
        f = jmap(&b.f),
        r = jmap(&b.r),
        facet = g("facet"),
        facetok = g("facet_ok"),
        rel = g("relevant"),
        t = b.t.len(),
        u = b.u.len(),
        det = js(&format!("48 seeds run twice in 3 and in {jobs} processes, identical results: {same}")),
        real = js("program, state, instructions, assertions, no-padding crates of /repo incl. entrypoint, account parsing, bump allocator, authentication, role tables, CPI construction; for P31 and P27 also the client-side helpers of state and instructions, for P32 also the instruction builders of interface, for P33 also the wallet client of rust-sdk"),
        stub = js("ledger, transaction processing, CPI and sysvars of the Solana runtime; System, SPL Token, Token-2022 (base instructions), Stake, secp256r1 precompile (ideal signature registry), program-exec program, scriptable third-party programs; for P32 and P33 the Solana client, keypair and message crates"),
        extra = extra,
        assume = "[\"the simulated runtime behaves as Solana's for what the program relies on\", \"native code generated from the same source behaves as the SBF build\", \"hash functions and signature schemes are secure; secp256r1 verification is ideal\"]",
        wall = wall,
        viol = code,
    );
    std::fs::create_dir_all("evidence").unwrap();
    std::fs::write(format!("evidence/{id}.json"), ev).unwrap();
    println!("{id}: {runs} runs, {} transactions, {} distinct relevant runs, {wall:.1} s, {}", b.c.get("transactions").copied().unwrap_or(0), b.rt.len(), if code == 0 { "held" } else { "VIOLATED" });
    code
}
