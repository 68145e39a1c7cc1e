//! One run = (property, run seed). The run seed fixes the profile variant and
//! the step list; a replay names both, so a run is a pure function of its file.
use crate::client::Keys;
use crate::prof;
use crate::util::*;
use crate::work::*;
use std::rc::Rc;

/// Swarm: every run weakens, drops or boosts some kinds of request, permission,
/// key and fault, and has its own length.
pub fn variant(prop: u32, seed: u64) -> Profile {
    let mut r = Rng::new(seed ^ 0x9e37_79b9_7f4a_7c15);
    let mut p = if r.chance(4, 5) { prof::for_prop(prop) } else { prof::base() };
    fn shake<T>(r: &mut Rng, v: &mut [(T, u32)], keep: usize) {
        for (i, x) in v.iter_mut().enumerate() {
            if i < keep {
                continue;
            }
            x.1 = match r.below(12) {
                0 | 1 => 0,
                2 => x.1 * 3,
                3 => x.1 / 2,
                _ => x.1,
            };
        }
        if v.iter().all(|x| x.1 == 0) {
            v[0].1 = 1;
        }
    }
    if r.chance(2, 3) {
        shake(&mut r, &mut p.ops, 2);
        shake(&mut r, &mut p.acts, 0);
        shake(&mut r, &mut p.auths, 0);
    }
    let scale = |r: &mut Rng, x: u64| match r.below(5) {
        0 => 0,
        1 => x / 2,
        2 => x * 2,
        _ => x,
    };
    p.twist = scale(&mut r, p.twist);
    p.mutate = scale(&mut r, p.mutate).min(60);
    p.faults = scale(&mut r, p.faults).min(60);
    p.steps = match r.below(6) {
        0 => 25,
        1 => 40,
        2 => p.steps * 2,
        _ => p.steps,
    };
    p
}
pub fn plan(p: &Profile, seed: u64) -> Vec<Step> {
    let mut r = Rng::new(seed);
    let ws: Vec<u32> = p.ops.iter().map(|x| x.1).collect();
    let n = p.steps / 2 + r.us(p.steps);
    let mut v = vec![];
    for i in 0..n {
        let op = match i {
            0 => Op::Create,
            1 | 2 => Op::Fund,
            3 | 4 => Op::AddRole,
            _ => p.ops[r.weighted(&ws)].0,
        };
        v.push(Step { op: op as u16, seed: r.u64() });
    }
    v
}
pub fn run_seed(base: u64, index: u64) -> u64 {
    let mut r = Rng::new(base.wrapping_mul(0x2545_f491_4f6c_dd1d) ^ index.wrapping_mul(0xd134_2543_de82_ef95));
    r.u64()
}
pub struct Found {
    pub at: usize,
    pub viol: Viol,
}
pub struct Out {
    pub sim: Sim,
    pub found: Option<Found>,
}
/// Runs the steps; stops at the first violation of `prop`.
pub fn go(prop: u32, vseed: u64, steps: &[Step], keys: &Rc<Keys>, log: bool) -> Out {
    let mut s = Sim::new(variant(prop, vseed), keys.clone());
    s.log = if log { Some(vec![]) } else { None };
    s.host = crate::host::hook(prop);
    s.builders = matches!(prop, 32 | 33);
    let mut found = None;
    for (i, st) in steps.iter().enumerate() {
        let had = s.viols.len();
        s.step(*st);
        if let Some(v) = s.viols[had..].iter().find(|v| v.tags >> prop & 1 == 1) {
            found = Some(Found { at: i, viol: v.clone() });
            break;
        }
        if s.viols.len() >= 40 {
            break;
        }
    }
    Out { sim: s, found }
}
/// Violation class: the message up to its details, without numbers.
pub fn class(m: &str) -> String {
    m.split(": ").take(2).collect::<Vec<_>>().join(" ").chars().filter(|c| !c.is_ascii_hexdigit()).take(80).collect()
}
/// Drops steps while the same class of violation persists.
pub fn minimise(prop: u32, vseed: u64, steps: &[Step], keys: &Rc<Keys>, budget: std::time::Duration) -> Vec<Step> {
    let t0 = std::time::Instant::now();
    let o = go(prop, vseed, steps, keys, false);
    let Some(f) = o.found else { return steps.to_vec() };
    let cl = class(&f.viol.msg);
    let mut cur: Vec<Step> = steps[..=f.at].to_vec();
    let ok = |v: &[Step]| -> Option<usize> {
        let o = go(prop, vseed, v, keys, false);
        o.found.filter(|x| class(&x.viol.msg) == cl).map(|x| x.at)
    };
    let mut chunk = (cur.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < cur.len() {
            if t0.elapsed() > budget {
                return cur;
            }
            let mut v = cur[..i].to_vec();
            v.extend_from_slice(&cur[(i + chunk).min(cur.len())..]);
            if let Some(at) = ok(&v) {
                v.truncate(at + 1);
                cur = v;
                any = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !any {
            return cur;
        }
        if chunk > 1 {
            chunk = (chunk / 2).max(1);
        }
    }
}
pub fn write_replay(path: &str, prop: u32, vseed: u64, steps: &[Step], f: &Found, trace: u64, log: &[String]) {
    let mut t = String::new();
    t += &format!("property P{prop:02}\nrun_seed {vseed}\nviolation {}\nbreaks {}\ntrace {trace:016x}\nsteps {}\n", f.viol.msg.replace('\n', " "), tag_names(f.viol.tags), steps.len());
    for s in steps {
        t += &format!("step {} {} {:?}\n", s.op, s.seed, OPS[s.op as usize % OPS.len()]);
    }
    t += "log:\n";
    for l in log {
        t += &l.replace('\n', " ");
        t.push('\n');
    }
    std::fs::write(path, t).expect("write replay");
}
pub fn read_replay(path: &str) -> Option<(u32, u64, Vec<Step>, String, u64)> {
    let t = std::fs::read_to_string(path).ok()?;
    let (mut prop, mut vs, mut st, mut msg, mut tr) = (0, 0, vec![], String::new(), 0);
    for l in t.lines() {
        if l == "log:" {
            break;
        }
        let (k, v) = l.split_once(' ')?;
        match k {
            "property" => prop = v.trim_start_matches('P').parse().ok()?,
            "run_seed" => vs = v.parse().ok()?,
            "violation" => msg = v.to_string(),
            "trace" => tr = u64::from_str_radix(v, 16).ok()?,
            "step" => {
                let mut x = v.split(' ');
                st.push(Step { op: x.next()?.parse().ok()?, seed: x.next()?.parse().ok()? });
            },
            _ => {},
        }
    }
    Some((prop, vs, st, msg, tr))
}
