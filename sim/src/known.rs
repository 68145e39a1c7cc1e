//! Directed scenarios of the recorded findings (known-findings.txt). Each is a
//! fixed history against the real program; it tells whether the finding is still
//! there. A finding that shows up but is not listed is a violation.
use crate::client::*;
use crate::lab::*;
use std::fmt::Write as _;

fn pay(l: &mut Lab, role: u32) -> bool {
    l.seed = 3;
    let ok = l.pay(role, &crate::work::to(0), 1000);
    l.seed = 7;
    ok
}
fn rename(tx: &mut crate::rt::Tx, role: u32) {
    for ix in tx.ixs.iter_mut().filter(|i| i.program == crate::native::ids().swig) {
        ix.data[4..8].copy_from_slice(&role.to_le_bytes());
    }
}
fn same_key_two_roles(k1: bool) -> (bool, Vec<String>) {
    let mut l = Lab::new();
    let key = if k1 { l.k1(1) } else { Lab::r1(1) };
    let pre = l.add(0, &key, &[sol(5000), prog_all()]) && l.add(0, &key, &[sol(1_000_000), prog_all()]) && pay(&mut l, 1);
    // the very same signature, now naming the other role
    let mut tx = l.last.clone().unwrap();
    rename(&mut tx, 2);
    let again = l.run(&tx);
    if !pre {
        l.log.push("the scenario could not be set up".into());
    }
    (pre && again, l.log)
}
fn reregistered(k1: bool, by_replace: bool) -> (bool, Vec<String>) {
    let mut l = Lab::new();
    let key = if k1 { l.k1(1) } else { Lab::r1(1) };
    let raw = |i: usize| if k1 { l.keys.k1pub[i].0.to_vec() } else { r1(i as u64).to_vec() };
    let (this, other) = (raw(1), raw(2));
    let acts = [sol(1_000_000), prog_all()];
    let mut pre = l.add(0, &key, &acts) && pay(&mut l, 1);
    let mut tx = l.last.clone().unwrap();
    if by_replace {
        pre &= l.replace(0, 1, &other) && l.replace(0, 1, &this);
    } else {
        pre &= l.remove(0, 1) && l.add(0, &key, &acts);
        rename(&mut tx, 2);
    }
    let again = l.run(&tx);
    if !pre {
        l.log.push("the scenario could not be set up".into());
    }
    (pre && again, l.log)
}
type Scenario = (u32, &'static str, &'static str, fn() -> (bool, Vec<String>));
const ALL: &[Scenario] = &[
    (10, "secp256k1-key-in-two-roles", "a secp256k1 key registered in two roles of a wallet: one signature is accepted once for each role", || same_key_two_roles(true)),
    (10, "secp256r1-key-in-two-roles", "a secp256r1 key registered in two roles of a wallet: one signature is accepted once for each role", || same_key_two_roles(false)),
    (10, "secp256k1-key-replaced-back", "a secp256k1 key replaced and put back: the counter restarts and a signature at most 60 slots old is accepted again", || reregistered(true, true)),
    (10, "secp256r1-key-replaced-back", "a secp256r1 key replaced and put back: the counter restarts and a signature at most 60 slots old is accepted again", || reregistered(false, true)),
    (10, "secp256k1-key-added-again", "a secp256k1 key removed and added again: the counter restarts and a signature at most 60 slots old is accepted again for the new role", || reregistered(true, false)),
    (10, "secp256r1-key-added-again", "a secp256r1 key removed and added again: the counter restarts and a signature at most 60 slots old is accepted again for the new role", || reregistered(false, false)),
];
/// Runs the scenarios of a property: exit code and additions to the evidence.
pub fn check(prop: u32, _seed: u64) -> (i32, String) {
    crate::rt::load(crate::lib(prop));
    let listed = std::fs::read_to_string("known-findings.txt").unwrap_or_default();
    let mut code = 0;
    let mut ev = vec![];
    for (p, name, what, f) in ALL.iter().filter(|x| x.0 == prop) {
        let (there, log) = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(x) => x,
            Err(_) => (false, vec!["the simulator gave up".into()]),
        };
        let known = listed.lines().any(|l| l.starts_with("finding:") && l.contains(&format!("property=P{p:02} {name}:")));
        if there && known {
            println!("KNOWN-FINDING: property=P{p:02} {name}: {what}");
        } else if there {
            std::fs::create_dir_all("replays").unwrap();
            let path = format!("replays/P{p:02}-{name}.txt");
            std::fs::write(&path, format!("property P{p:02}\nscenario {name}\nviolation {what}\nlog:\n{}\n", log.join("\n"))).unwrap();
            println!("{what}");
            println!("VIOLATION property=P{p:02} replay={path}");
            code = 1;
        }
        ev.push(format!("\"{name}\": \"{}\"", if there { "present" } else { "absent" }));
    }
    let mut s = String::new();
    if !ev.is_empty() {
        write!(s, ", \"recorded_findings\": {{{}}}", ev.join(", ")).unwrap();
    }
    (code, s)
}
/// Replays a scenario file written by `check`.
pub fn replay(name: &str, path: &str) -> i32 {
    let Some((p, _, what, f)) = ALL.iter().find(|x| x.1 == name) else { return 2 };
    crate::rt::load(crate::lib(*p));
    let (there, log) = f();
    for l in log {
        println!("{l}");
    }
    if !there {
        println!("not reproduced on this tree");
        return 0;
    }
    println!("reproduced: {what}");
    println!("VIOLATION property=P{p:02} replay={path}");
    1
}
