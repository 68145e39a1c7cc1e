//! The simulated world of one run: parties, wallets, faults, and the steps a
//! seed expands to. Every step's details are a pure function of its own seed and
//! the world it meets, so any subsequence of steps is a valid run.
use crate::client::*;
use crate::layout::*;
use crate::model::*;
use crate::native::{self, ids, *};
use crate::rt::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Wal {
    pub id: Key,
    pub swig: Key,
    pub bump: u8,
    pub wal: Key,
    pub wb: u8,
}
/// One timeline: the ledger plus what history has established on it.
#[derive(Clone)]
pub struct Line {
    pub w: World,
    pub wallets: Vec<Wal>,
    /// largest role id handed out + 1, per wallet
    pub next_role: BTreeMap<Key, u32>,
    pub claimers: BTreeMap<Key, Key>,
    pub closed: BTreeSet<Key>,
    pub used: Rc<BTreeSet<Vec<u8>>>,
    /// Times the authority of a role was replaced.
    pub epochs: Rc<BTreeMap<(Key, u32), u32>>,
    pub subs: BTreeMap<Key, u32>,
}
#[derive(Clone, Debug)]
pub struct Profile {
    pub ops: Vec<(Op, u32)>,
    pub acts: Vec<(u16, u32)>,
    pub auths: Vec<(u16, u32)>,
    pub twist: u64,
    pub mutate: u64,
    pub faults: u64,
    /// requests made from inside another program, per thousand
    pub wrap: u64,
    pub legacy: u64,
    pub steps: usize,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[repr(u16)]
pub enum Op {
    Create = 0,
    AddRole,
    Update,
    Remove,
    Replace,
    Session,
    Sign,
    Sub1Create,
    Sub1Sign,
    Sub1Toggle,
    Sub1Withdraw,
    Sub2Create,
    Sub2Sign,
    Sub2Toggle,
    Sub2Withdraw,
    Claimer,
    CloseToken,
    CloseSwig,
    Migrate,
    TransferAssets,
    Clock,
    Fund,
    Save,
    Restore,
    Deliver,
    Replay,
    Reuse,
    Garbage,
    Recreate,
    Probe,
    SignAll,
}
pub const OPS: [Op; 31] = [
    Op::Create,
    Op::AddRole,
    Op::Update,
    Op::Remove,
    Op::Replace,
    Op::Session,
    Op::Sign,
    Op::Sub1Create,
    Op::Sub1Sign,
    Op::Sub1Toggle,
    Op::Sub1Withdraw,
    Op::Sub2Create,
    Op::Sub2Sign,
    Op::Sub2Toggle,
    Op::Sub2Withdraw,
    Op::Claimer,
    Op::CloseToken,
    Op::CloseSwig,
    Op::Migrate,
    Op::TransferAssets,
    Op::Clock,
    Op::Fund,
    Op::Save,
    Op::Restore,
    Op::Deliver,
    Op::Replay,
    Op::Reuse,
    Op::Garbage,
    Op::Recreate,
    Op::Probe,
    Op::SignAll,
];
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Step {
    pub op: u16,
    pub seed: u64,
}
#[derive(Clone, Debug)]
pub struct Viol {
    pub tags: Tags,
    pub msg: String,
}
/// One count per property number.
#[derive(Clone)]
pub struct Facets([u64; 40]);
impl Default for Facets {
    fn default() -> Self {
        Facets([0; 40])
    }
}
impl std::ops::Index<usize> for Facets {
    type Output = u64;
    fn index(&self, i: usize) -> &u64 {
        &self.0[i]
    }
}
impl std::ops::IndexMut<usize> for Facets {
    fn index_mut(&mut self, i: usize) -> &mut u64 {
        &mut self.0[i]
    }
}
#[derive(Default, Clone)]
pub struct Stats {
    pub c: BTreeMap<&'static str, u64>,
    pub by_ix: BTreeMap<(u16, bool), u64>,
    pub facet: Facets,
    pub facet_ok: Facets,
    pub faults: BTreeMap<&'static str, u64>,
    pub rejects: BTreeMap<&'static str, u64>,
    pub states: std::collections::HashSet<u64>,
    pub traces: std::collections::HashSet<u64>,
    pub slots: u64,
    pub signed_rej: u64,
}
impl Stats {
    pub fn inc(&mut self, k: &'static str) {
        *self.c.entry(k).or_insert(0) += 1;
    }
    pub fn merge(&mut self, o: &Stats) {
        fn add<K: Ord + Clone>(a: &mut BTreeMap<K, u64>, b: &BTreeMap<K, u64>) {
            for (k, v) in b {
                *a.entry(k.clone()).or_insert(0) += v;
            }
        }
        add(&mut self.c, &o.c);
        add(&mut self.by_ix, &o.by_ix);
        add(&mut self.faults, &o.faults);
        add(&mut self.rejects, &o.rejects);
        for i in 0..40 {
            self.facet[i] += o.facet[i];
            self.facet_ok[i] += o.facet_ok[i];
        }
        if self.traces.len() < 1_000_000 {
            self.traces.extend(&o.traces);
        }
        if self.states.len() < 1_000_000 {
            self.states.extend(&o.states);
        }
        self.slots += o.slots;
        self.signed_rej += o.signed_rej;
    }
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_insert(0) += 1;
    }
}
pub struct Sim {
    pub line: Line,
    pub prof: Profile,
    pub keys: Rc<Keys>,
    pub pend: Vec<Tx>,
    pub done: Vec<Tx>,
    pub snaps: Vec<Line>,
    pub stats: Stats,
    pub viols: Vec<Viol>,
    pub log: Option<Vec<String>>,
    pub trace: u64,
    pub next_id: u64,
    pub host: Option<crate::host::Hook>,
    /// the published request builders take part
    pub builders: bool,
    /// requests other devices may make as well (P33)
    pub recent: std::collections::VecDeque<Part>,
}

pub const RICH: u64 = 1 << 50;
pub fn payer(i: u64) -> Key {
    cousin(label_key("payer", 0), i)
}
pub fn to(i: u64) -> Key {
    cousin(label_key("to", 0), i)
}
pub fn mint(i: u64) -> Key {
    cousin(label_key("mint", 0), i)
}
pub fn mint_prog(i: u64) -> Key {
    if i == 2 {
        ids().token22
    } else {
        ids().token
    }
}
/// Token account number `n` of `owner` for mint `i`.
pub fn ta(owner: &Key, i: u64, n: u64) -> Key {
    let w = (0..4).find(|w| to(*w) == *owner);
    let base = sha256(&[b"ta", &w.map_or(*owner, |_| to(0))]);
    cousin(base, w.unwrap_or(0) * 15 + i * 5 + n)
}
pub fn stake_acc(owner: &Key, n: u64) -> Key {
    cousin(sha256(&[b"stake", owner]), n)
}
pub fn pool(i: u64) -> Key {
    cousin(label_key("pool", 0), i)
}
pub const POOLS: u64 = 4;

const SHORTS: [(usize, bool); 7] = [(0, false), (40, false), (82, false), (165, false), (10, true), (80, true), (200, true)];

pub fn world() -> World {
    let mut w = World::default();
    native::genesis(&mut w);
    w.slot = 1000;
    w.time = 1_700_000_000;
    for i in 0..3 {
        w.put(payer(i), Acct { lamports: RICH, ..Default::default() });
    }
    for i in 0..4 {
        w.put(to(i), Acct { lamports: 2_000_000, ..Default::default() });
    }
    for i in 0..3 {
        w.put(mint(i), Acct { lamports: rent_min(82), data: mint_data(&payer(0), 1 << 40), owner: mint_prog(i), exec: false });
        for n in 0..4 {
            w.put(
                ta(&to(n), i, 0),
                Acct { lamports: rent_min(165), data: token_data(&mint(i), &to(n), 1000, 0), owner: mint_prog(i), exec: false },
            );
        }
    }
    for i in 0..POOLS {
        let mut d = vec![0u8; 64];
        for j in 0..8 {
            // some a little above where a carry reaches the next byte
            let top = [0, 24, 32, 16, 40, 8, 48, 56][(i as usize * 3 + j) % 8];
            let v = (if top > 0 { 1u64 << top } else { 0 }) + 1000 * (j as u64 + 1);
            d[j * 8..j * 8 + 8].copy_from_slice(&v.to_le_bytes());
        }
        w.put(pool(i), Acct { lamports: rent_min(64) + 50_000_000, data: d, owner: ids().script[(i % 3) as usize], exec: false });
    }
    // accounts of the token and stake programs that are not initialised, or cut short
    for (i, (n, stake)) in SHORTS.iter().enumerate() {
        let owner = if *stake { ids().stake } else { mint_prog(i as u64 % 3) };
        w.put(label_key("short", i as u64), Acct { lamports: rent_min(*n), data: vec![0; *n], owner, exec: false });
    }
    w.put(label_key("exec-state", 0), Acct { lamports: rent_min(8), data: vec![0; 8], owner: ids().exec, exec: false });
    w.put(label_key("vote", 0), Acct { lamports: rent_min(8), data: vec![0; 8], owner: label_key("voteprog", 0), exec: false });
    w
}

/// Somebody opens a token account for `owner` or pays into it.
fn give_tokens(r: &mut Rng, w: &mut World, owner: &Key, i: u64, n: u64) {
    let k = ta(owner, i, n);
    if w.data(&k).len() >= 165 && w.owner(&k) == mint_prog(i) {
        let a = w.mutate(&k);
        let v = le64(&a.data[64..]).saturating_add(r.below(3000));
        a.data[64..72].copy_from_slice(&v.to_le_bytes());
        return;
    }
    let extra = if i == 2 && r.chance(1, 2) { 5 } else { 0 };
    let top = if r.chance(1, 6) { 1u64 << *r.pick(&[8, 16, 24, 32, 40, 48, 56]) } else { 0 };
    let amt = if r.chance(1, 4) { 0 } else { top + r.below(3000) };
    let mut d = token_data(&mint(i), owner, amt, extra);
    if r.chance(1, 8) {
        // an old delegate
        d[72] = 1;
        d[76..108].copy_from_slice(&to(0));
        d[121..129].copy_from_slice(&50u64.to_le_bytes());
    }
    if r.chance(1, 8) {
        d[129] = 1;
        d[133..165].copy_from_slice(&if r.chance(1, 2) { *owner } else { to(1) });
    }
    let mut lam = rent_min(d.len());
    if r.chance(1, 8) {
        // wrapped native
        d[109] = 1;
        d[113..121].copy_from_slice(&lam.to_le_bytes());
        lam += amt;
    }
    if r.chance(1, 20) {
        d[108] = 2;
    }
    w.put(k, Acct { lamports: lam, data: d, owner: mint_prog(i), exec: false });
}
/// Somebody opens a stake account for `owner` (number 7: not initialised yet).
fn give_stake(r: &mut Rng, w: &mut World, owner: &Key, n: u64) {
    let k = stake_acc(owner, n);
    if w.peek(&k).is_some() {
        return;
    }
    if n == 7 {
        w.put(k, Acct { lamports: STAKE_RESERVE, data: vec![0; 200], owner: ids().stake, exec: false });
        return;
    }
    let amt = r.below(20_000_000);
    let del = if r.chance(2, 3) { Some((label_key("vote", 0), amt)) } else { None };
    let d = stake_data(owner, owner, del);
    w.put(k, Acct { lamports: STAKE_RESERVE + amt, data: d, owner: ids().stake, exec: false });
}

pub fn amount(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => r.below(3),
        1 => 1 + r.below(10),
        2 => r.below(1000),
        3 => 1000 * r.below(100),
        4 => 1_000_000,
        5 => r.below(5_000_000),
        6 => 100,
        _ => 10_000 + r.below(10),
    }
}
pub fn window(r: &mut Rng) -> u64 {
    match r.below(10) {
        0 => 1,
        1 => 2,
        2 => r.range(1, 5),
        3 => 10,
        4 => r.range(2, 60),
        5 => 100,
        6 => 50,
        7 => 1000,
        8 => r.range(1, 2000),
        _ => 7,
    }
}

impl Sim {
    pub fn new(prof: Profile, keys: Rc<Keys>) -> Self {
        Sim {
            line: Line {
                w: world(),
                wallets: vec![],
                next_role: Default::default(),
                claimers: Default::default(),
                closed: Default::default(),
                used: Default::default(),
                epochs: Default::default(),
                subs: Default::default(),
            },
            prof,
            keys,
            pend: vec![],
            done: vec![],
            snaps: vec![],
            stats: Stats::default(),
            viols: vec![],
            log: None,
            trace: 0xcbf29ce484222325,
            next_id: 0,
            host: None,
            builders: false,
            recent: Default::default(),
        }
    }
    fn w(&self) -> &World {
        &self.line.w
    }
    pub fn swig_of(&self, k: &Key) -> Option<Swig> {
        let d = self.line.w.data(k);
        if d.first() != Some(&1) || self.line.w.owner(k) != ids().swig {
            return None;
        }
        Swig::decode(d).ok()
    }
    fn open_wallets(&self) -> Vec<usize> {
        (0..self.line.wallets.len()).filter(|i| is_config(self.w(), &self.line.wallets[*i].swig)).collect()
    }
    fn pick_wallet(&self, r: &mut Rng) -> Option<(Wal, Swig)> {
        let o = self.open_wallets();
        if o.is_empty() {
            return None;
        }
        let i = *r.pick(&o);
        let wl = self.line.wallets[i].clone();
        let s = self.swig_of(&wl.swig)?;
        Some((wl, s))
    }
    /// A role that fits most of the time, any role otherwise.
    fn pick_role(&self, r: &mut Rng, s: &Swig, f: impl Fn(&Role) -> bool) -> u32 {
        let good: Vec<u32> = s.roles.iter().filter(|x| f(x)).map(|x| x.id).collect();
        if !good.is_empty() && r.chance(9, 10) {
            return *r.pick(&good);
        }
        if s.roles.is_empty() || r.chance(1, 30) {
            return r.below(s.counter as u64 + 2) as u32;
        }
        r.pick(&s.roles).id
    }

    /// Sometimes a role with permissions of the same kind, but not this one.
    fn pick_role_v2(&self, r: &mut Rng, s: &Swig, t: u16, n: u32) -> u32 {
        if r.chance(1, 6) {
            let near: Vec<u32> = s
                .roles
                .iter()
                .filter(|x| !x.has_v2(t, n) && x.acts.iter().any(|a| (act::V2_CREATE..=act::V2_TOGGLE).contains(&a.ty)))
                .map(|x| x.id)
                .collect();
            if !near.is_empty() {
                return *r.pick(&near);
            }
        }
        self.pick_role(r, s, |x| x.has_v2(t, n))
    }

    // ---------- roles ----------
    fn gen_auth(&self, r: &mut Rng) -> (u16, Vec<u8>) {
        let ws: Vec<u32> = self.prof.auths.iter().map(|x| x.1).collect();
        let t = self.prof.auths[r.weighted(&ws)].0;
        let max = *r.pick(&[0u64, 1, 10, 50, 100, 1000, 5000, 5000]);
        let sk = if r.chance(1, 2) { [0; 32] } else { ses(r.below(NK)) };
        let d = match t {
            aty::ED => ed(r.below(NK)).to_vec(),
            aty::ED_S => [&ed(r.below(NK))[..], &sk, &max.to_le_bytes()].concat(),
            aty::K1 => {
                let k = self.keys.k1pub[r.us(NK as usize)];
                if r.chance(1, 2) {
                    k.0.to_vec()
                } else {
                    k.1.to_vec()
                }
            },
            aty::K1_S => {
                let k = self.keys.k1pub[r.us(NK as usize)];
                let mut p = k.1.to_vec();
                if r.chance(1, 2) {
                    p = k.0.to_vec();
                    p.resize(64, 0);
                }
                [&p[..], &sk, &max.to_le_bytes()].concat()
            },
            aty::R1 => r1(r.below(NK)).to_vec(),
            aty::R1_S => [&r1(r.below(NK))[..], &[0; 7], &sk, &max.to_le_bytes()].concat(),
            _ => {
                let (prog, pre): (Key, Vec<u8>) = match r.below(5) {
                    _ if r.chance(1, 20) => (ids().swig, if r.chance(1, 2) { vec![11, 0] } else { vec![] }),
                    0 => (ids().exec, EXEC_OK.to_vec()),
                    1 => (ids().exec, EXEC_OK[..r.us(9)].to_vec()),
                    2 => (ids().exec, EXEC_PROOF.to_vec()),
                    3 => (ids().script[r.us(2)], vec![5, r.below(4) as u8]),
                    _ => (ids().script[r.us(2)], vec![]),
                };
                let mut d = prog.to_vec();
                d.push(pre.len() as u8);
                d.extend([0; 7]);
                let n = pre.len();
                d.extend(pre);
                let _ = n;
                d.resize(80, 0);
                if t == aty::PX_S {
                    d.extend(sk);
                    d.extend(max.to_le_bytes());
                    d.extend([0; 8]);
                }
                d
            },
        };
        (t, d)
    }
    fn gen_act(&self, r: &mut Rng, s: Option<&Swig>) -> Act {
        let ws: Vec<u32> = self.prof.acts.iter().map(|x| x.1).collect();
        let t = self.prof.acts[r.weighted(&ws)].0;
        let a = amount(r);
        let wn = window(r);
        let l = |v: &[u64]| v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
        let slot = self.w().slot;
        let d = match t {
            act::SOL | act::STAKE => l(&[if t == act::STAKE { a * 10 } else { a }]),
            act::SOL_REC | act::STAKE_REC => l(&[a, wn, 0, a]),
            act::PROGRAM => {
                let c = [SYS, ids().token, ids().token22, ids().stake, ids().script[0], ids().script[1], ids().script[3], ids().swig];
                let w = [6, 6, 3, 4, 5, 2, 1, 2];
                c[r.weighted(&w)].to_vec()
            },
            act::SCOPE => {
                let mut d = vec![0u8; 144];
                let st = *r.pick(&[0u64, 1, 1, 2, 2, 2]);
                let nt = *r.pick(&[0u64, 1, 2, 2, 2, 3]);
                let w = [1u64, 4, 8, 16][nt as usize];
                let at = *r.pick(&[0u64, 8, 16, 24, 32]);
                let top = if r.chance(1, 8) { 1u128 << *r.pick(&[8, 24, 32, 56, 64, 72, 80, 88, 96, 104, 112, 120]) } else { 0 };
                d[16..32].copy_from_slice(&(top + (a % 5000) as u128).to_le_bytes());
                d[32..40].copy_from_slice(&wn.to_le_bytes());
                let p = r.below(POOLS);
                d[48..80].copy_from_slice(&ids().script[(p % 3) as usize]);
                d[80..112].copy_from_slice(&pool(p));
                d[112..120].copy_from_slice(&st.to_le_bytes());
                d[120..128].copy_from_slice(&nt.to_le_bytes());
                let mut e = at + w;
                if r.chance(1, 40) {
                    e += r.below(70);
                }
                d[128..136].copy_from_slice(&at.to_le_bytes());
                d[136..144].copy_from_slice(&e.to_le_bytes());
                if st == 0 && r.chance(1, 2) {
                    d[128..144].fill(0);
                }
                d
            },
            act::TOK => [&mint(r.below(3))[..], &l(&[a % 2000])].concat(),
            act::TOK_REC => {
                let a = a % 2000;
                [&mint(r.below(3))[..], &l(&[wn, a, a, 0])].concat()
            },
            act::SUB => {
                let mut d = vec![0; 72];
                if r.chance(1, 10) {
                    d[40..72].copy_from_slice(&r.key());
                }
                d
            },
            act::SOL_DST => [&to(r.below(3))[..], &l(&[a])].concat(),
            act::SOL_REC_DST => [&to(r.below(3))[..], &l(&[a, wn, if r.chance(1, 2) { 0 } else { slot }, if r.chance(1, 2) { a } else { a / 2 }])].concat(),
            act::TOK_DST => {
                let i = r.below(3);
                [&mint(i)[..], &ta(&to(r.below(3)), i, 0), &l(&[a % 2000])].concat()
            },
            act::TOK_REC_DST => {
                let i = r.below(3);
                let a = a % 2000;
                [&mint(i)[..], &ta(&to(r.below(3)), i, 0), &l(&[a, wn, 0, a])].concat()
            },
            act::PROG_CUR => vec![0; 32],
            act::REPLACE => {
                let n = s.map(|s| s.counter as u64 + 1).unwrap_or(2);
                let mut d = (r.below(n) as u32).to_le_bytes().to_vec();
                d.extend([0; 4]);
                d
            },
            act::V2_ALL | act::V2_SIGN | act::V2_WITHDRAW | act::V2_TOGGLE => {
                let n = s.map(|s| s.sub_counter() as u64 + 2).unwrap_or(2);
                let mut d = (r.below(n.min(6)) as u32).to_le_bytes().to_vec();
                d.extend([0; 4]);
                d
            },
            _ => vec![],
        };
        Act { ty: t, d }
    }
    fn gen_acts(&self, r: &mut Rng, s: Option<&Swig>, founder: bool) -> Vec<Act> {
        let top = if r.chance(1, 6) { 7 } else { 4 };
        let n = 1 + r.us(top);
        let mut v: Vec<Act> = (0..n).map(|_| self.gen_act(r, s)).collect();
        if founder && !v.iter().any(|a| a.ty == act::ALL || a.ty == act::MANAGE) {
            let t = if r.chance(4, 5) { act::ALL } else { act::MANAGE };
            let at = r.us(v.len() + 1);
            v.insert(at, Act { ty: t, d: vec![] });
            if r.chance(1, 2) {
                v = vec![Act { ty: t, d: vec![] }];
            }
        }
        // a limit without a program is rarely useful
        if !founder && r.chance(3, 4) && !v.iter().any(|a| matches!(a.ty, act::PROGRAM | act::PROG_ALL | act::PROG_CUR | act::ALL | act::ALL_BUT)) {
            let t = if r.chance(1, 2) { act::PROG_ALL } else { act::PROG_CUR };
            v.push(Act { ty: t, d: if t == act::PROG_CUR { vec![0; 32] } else { vec![] } });
        }
        if v.iter().any(|a| act_len(a.ty).is_none()) {
            v.truncate(1);
        }
        v
    }
    fn twist(&mut self, r: &mut Rng) -> Twist {
        if !r.chance(self.prof.twist, 100) {
            return Twist::None;
        }
        self.stats.fault("bad-authorisation");
        let k = Twist::Kind(r.below(16) as u8);
        let k20 = Twist::Kind(20);
        *r.pick(&[
            Twist::WrongKey,
            Twist::WrongKey,
            Twist::NoSig,
            Twist::Stale,
            Twist::Stale,
            Twist::Skip,
            Twist::Old,
            Twist::Future,
            Twist::Edge,
            Twist::OtherPayload,
            Twist::Short,
            Twist::Long,
            Twist::HighS,
            Twist::WrongIndex,
            Twist::OtherMode,
            k,
            k,
            k,
            k20,
        ])
    }
    fn call(&mut self, r: &mut Rng, swig: Key, role: u32, metas: Vec<Meta>, data: Vec<u8>, signed: (usize, usize)) -> Call {
        let twist = self.twist(r);
        Call { metas, data, signed, len_at: None, swig, role, root: false, twist, seed: r.u64(), proof: None }
    }

    // ---------- one step ----------
    pub fn step(&mut self, st: Step) {
        let mut r = Rng::new(st.seed);
        let r = &mut r;
        let op = OPS[st.op as usize % OPS.len()];
        self.stats.inc("steps");
        self.drain_host();
        crate::host::begin(st.seed);
        match op {
            Op::Clock => return self.clock(r),
            Op::Fund => return self.fund(r),
            Op::Save => {
                if self.snaps.len() < 3 {
                    self.snaps.push(self.line.clone());
                }
                return;
            },
            Op::Restore => {
                if !self.snaps.is_empty() {
                    let i = r.us(self.snaps.len());
                    // signatures already handed out stay known on every fork
                    let sigs = self.line.w.r1sigs.clone();
                    let slot = self.line.w.slot;
                    self.line = self.snaps.swap_remove(i);
                    self.line.w.r1sigs = sigs;
                    if r.chance(1, 2) {
                        self.line.w.slot = slot;
                    }
                    self.stats.fault("fork-rollback");
                    self.note(|| "fork: ledger rolled back".into());
                }
                return;
            },
            Op::Deliver => {
                if !self.pend.is_empty() {
                    let i = r.us(self.pend.len());
                    let tx = self.pend.swap_remove(i);
                    self.stats.fault("delayed-delivery");
                    self.submit(r, tx);
                }
                return;
            },
            Op::Replay => {
                if !self.done.is_empty() {
                    let tx = r.pick(&self.done).clone();
                    self.stats.fault("replayed-transaction");
                    self.submit(r, tx);
                }
                return;
            },
            Op::Reuse => return self.reuse(r),
            Op::Garbage => return self.garbage(r),
            Op::Probe => return self.probe(r),
            _ => {},
        }
        let mut parts = self.parts(r, op);
        if parts.is_empty() {
            return;
        }
        if self.builders {
            if let Some(tx) = crate::host::compare(self, r, &parts) {
                if r.chance(1, 2) {
                    return self.send(r, tx);
                }
            }
        }
        if r.chance(1, 12) {
            // two requests in one transaction
            let op2 = *r.pick(&[op, op, Op::Sign, Op::Update, Op::AddRole]);
            parts.extend(self.parts(r, op2));
            self.stats.inc("bundled");
        }
        if r.chance(1, 24) {
            self.forge(r, &mut parts);
        }
        if r.chance(1, 40) {
            // a request followed by something that fails: all of it must vanish
            parts.push(Part::Raw(Ix { program: ids().script[2], metas: vec![], data: vec![0] }));
            self.stats.fault("later-instruction-fails");
        }
        if r.chance(self.prof.wrap, 1000) {
            parts = self.wrap(r, parts);
        }
        let p = payer(r.below(2));
        let mut w = std::mem::take(&mut self.line.w);
        let keys = self.keys.clone();
        let mut tx = Signer { keys: &keys, w: &mut w }.assemble(parts, p);
        self.line.w = w;
        if r.chance(self.prof.mutate, 100) {
            self.mutate(r, &mut tx);
        }
        if tx.ixs.iter().any(|i| i.metas.len() > 60) {
            return;
        }
        self.send(r, tx);
    }
    fn send(&mut self, r: &mut Rng, tx: Tx) {
        if r.chance(self.prof.faults, 100) {
            match r.below(3) {
                0 => {
                    self.stats.fault("delayed");
                    if self.pend.len() < 8 {
                        self.pend.push(tx);
                    }
                    return;
                },
                1 => {
                    self.stats.fault("duplicated");
                    self.submit(r, tx.clone());
                    return self.submit(r, tx);
                },
                _ => {
                    self.stats.fault("dropped");
                    // the sender keeps it; an adversary may deliver it much later
                    if self.done.len() < 40 {
                        self.done.push(tx);
                    }
                    return;
                },
            }
        }
        self.submit(r, tx);
    }
    /// Puts a look-alike in place of one account of a request, before it is signed:
    /// a copy of the account that another program owns, or one of the same kind.
    fn forge(&mut self, r: &mut Rng, parts: &mut [Part]) {
        let n = parts.len();
        let mut metas = match &mut parts[r.us(n)] {
            Part::Call(c) => std::mem::take(&mut c.metas),
            Part::Raw(i) if i.program == ids().swig => std::mem::take(&mut i.metas),
            _ => return,
        };
        let strays = self.strays(r);
        let w = &mut self.line.w;
        let own = ids().script[r.us(2)];
        let kind = r.below(8);
        let tok = |w: &World, k: &Key| w.owner(k) == ids().token || w.owner(k) == ids().token22;
        if kind == 0 && metas.iter().any(|x| tok(w, &x.key)) {
            // a token program of the sender's own, with its own accounts
            for (i, x) in metas.iter_mut().enumerate() {
                if x.key == ids().token || x.key == ids().token22 {
                    x.key = own;
                } else if tok(w, &x.key) && r.chance(4, 5) {
                    let (k, mut a) = (label_key("impostor", 8 + i as u64 % 8), w.get(&x.key));
                    a.owner = own;
                    w.put(k, a);
                    x.key = k;
                }
            }
            self.stats.fault("forged-token-program");
        } else if !metas.is_empty() {
            let i = r.us(metas.len());
            let old = metas[i].key;
            let acct = w.get(&old);
            let key = if kind < 6 && !acct.exec && !native::reserved(&old) {
                let k = label_key("impostor", r.below(8));
                let mut a = acct;
                a.owner = if a.owner != SYS && r.chance(1, 4) { SYS } else { own };
                a.lamports = a.lamports.max(rent_min(a.data.len()));
                if r.chance(1, 8) {
                    if let Some(x) = a.data.get_mut(..40) {
                        let o = r.us(40);
                        x[o] ^= 1 << r.us(8);
                    }
                }
                w.put(k, a);
                self.stats.fault("forged-account");
                k
            } else {
                let same: Vec<Key> = strays.iter().copied().filter(|k| *k != old && w.owner(k) == acct.owner && (w.data(k).len() == acct.data.len() || acct.owner == ids().swig)).collect();
                if same.is_empty() {
                    old
                } else {
                    self.stats.fault("account-of-the-same-kind");
                    *r.pick(&same)
                }
            };
            let all = r.chance(1, 2);
            for (j, x) in metas.iter_mut().enumerate() {
                if x.key == old && (all || j == i) {
                    x.key = key;
                    x.signer = false;
                }
            }
        }
        for p in parts.iter_mut() {
            match p {
                Part::Call(c) if c.metas.is_empty() => c.metas = std::mem::take(&mut metas),
                Part::Raw(i) if i.program == ids().swig && i.metas.is_empty() => i.metas = std::mem::take(&mut metas),
                _ => {},
            }
        }
    }
    /// Moves a swig instruction inside a call made by another program.
    fn wrap(&mut self, r: &mut Rng, parts: Vec<Part>) -> Vec<Part> {
        self.stats.fault("called-from-another-program");
        let p = payer(1);
        let mut w = std::mem::take(&mut self.line.w);
        let keys = self.keys.clone();
        let tx = Signer { keys: &keys, w: &mut w }.assemble(parts, p);
        self.line.w = w;
        let mut out = vec![];
        for ix in tx.ixs {
            if ix.program != ids().swig || ix.metas.len() > 30 || ix.data.len() > 900 {
                out.push(Part::Raw(ix));
                continue;
            }
            out.push(Part::Raw(wrap_ix(&ix, ids().script[r.us(3)])));
        }
        out
    }
    fn mutate(&mut self, r: &mut Rng, tx: &mut Tx) {
        let v: Vec<usize> = (0..tx.ixs.len()).filter(|i| tx.ixs[*i].program == ids().swig).collect();
        if v.is_empty() {
            return;
        }
        let strays = self.strays(r);
        let ix = &mut tx.ixs[*r.pick(&v)];
        for _ in 0..1 + r.us(2) {
            self.stats.fault("corrupted-request");
            let n = ix.data.len();
            match r.below(14) {
                12 | 13 if !ix.metas.is_empty() => {
                    let a = r.us(ix.metas.len());
                    ix.metas[a].key = *r.pick(&strays);
                    ix.metas[a].signer = false;
                },
                0 | 1 if n > 0 => {
                    let i = r.us(n.min(24));
                    ix.data[i] ^= 1 << r.us(8);
                },
                2 if n > 0 => {
                    let i = r.us(n);
                    ix.data[i] = r.u64() as u8;
                },
                3 => ix.data.truncate(r.us(n + 1)),
                4 => {
                    let k = 1 + r.us(9);
                    ix.data.extend(r.bytes(k));
                },
                5 if ix.metas.len() > 1 => {
                    let (a, b) = (r.us(ix.metas.len()), r.us(ix.metas.len()));
                    ix.metas.swap(a, b);
                },
                6 if !ix.metas.is_empty() => {
                    let a = r.us(ix.metas.len());
                    ix.metas[a].writable ^= true;
                },
                7 if !ix.metas.is_empty() => {
                    let a = r.us(ix.metas.len());
                    ix.metas[a].signer = false;
                },
                8 if !ix.metas.is_empty() => {
                    ix.metas.truncate(r.us(ix.metas.len()));
                },
                9 if !ix.metas.is_empty() => {
                    let a = r.us(ix.metas.len());
                    let b = r.us(ix.metas.len());
                    ix.metas[a].key = ix.metas[b].key;
                },
                10 if !ix.metas.is_empty() => {
                    let a = r.us(ix.metas.len());
                    let wl: Vec<Key> = self.line.wallets.iter().flat_map(|w| [w.swig, w.wal]).collect();
                    if !wl.is_empty() {
                        ix.metas[a].key = *r.pick(&wl);
                        ix.metas[a].signer = false;
                    }
                },
                _ if n >= 8 => {
                    let i = r.us(n.min(24) - 1);
                    let v = *r.pick(&[0u16, 1, 0xffff, 0x7fff, 0x100, 33]);
                    ix.data[i..i + 2].copy_from_slice(&v.to_le_bytes());
                },
                _ => {},
            }
        }
        // nobody signs for addresses without a key
        let off: BTreeSet<Key> = self.line.wallets.iter().flat_map(|w| [w.swig, w.wal]).collect();
        for ix in tx.ixs.iter_mut() {
            for mt in ix.metas.iter_mut() {
                if off.contains(&mt.key) {
                    mt.signer = false;
                }
            }
        }
        tx.signers = tx.ixs.iter().flat_map(|i| i.metas.iter()).filter(|x| x.signer).map(|x| x.key).collect();
        tx.signers.insert(tx.payer);
    }
    fn clock(&mut self, r: &mut Rng) {
        let d = match r.below(8) {
            0 => 1,
            1 => r.below(5),
            2 => r.below(70),
            3 => r.below(200),
            4 => 60 + r.below(3),
            5 => r.below(5000),
            6 => {
                // exactly around some window boundary
                let mut best = 1;
                if let Some((_, s)) = self.pick_wallet(r) {
                    let mut c = vec![];
                    for ro in &s.roles {
                        for a in &ro.acts {
                            let wl = match a.ty {
                                act::SOL_REC | act::STAKE_REC => (a.u64(8), a.u64(16)),
                                act::TOK_REC => (a.u64(32), a.u64(56)),
                                act::SOL_REC_DST => (a.u64(40), a.u64(48)),
                                act::TOK_REC_DST => (a.u64(72), a.u64(80)),
                                act::SCOPE => (a.u64(32), a.u64(40)),
                                _ => continue,
                            };
                            let t = wl.0.saturating_add(wl.1).saturating_add(r.below(3));
                            if t > self.w().slot && t - self.w().slot < 100_000 {
                                c.push(t - self.w().slot);
                            }
                        }
                        if ro.session() && ro.session_exp() >= self.w().slot {
                            c.push(ro.session_exp() - self.w().slot + r.below(2));
                        }
                    }
                    if !c.is_empty() {
                        best = *r.pick(&c);
                    }
                }
                best
            },
            _ => r.below(20),
        };
        self.line.w.slot += d;
        self.line.w.time += d as i64 / 2;
        self.stats.slots += d;
        if d > 100 {
            self.stats.fault("clock-jump");
        }
    }
    fn fund(&mut self, r: &mut Rng) {
        let n = self.line.wallets.len();
        if n == 0 {
            return;
        }
        let wl = self.line.wallets[r.us(n)].clone();
        let owner = match r.below(10) {
            0 => wl.swig,
            1 | 2 => {
                // a sub-account
                let s = match self.swig_of(&wl.swig) {
                    Some(s) => s,
                    None => return,
                };
                let c = self.subs_of(&s);
                if c.is_empty() {
                    wl.wal
                } else {
                    *r.pick(&c)
                }
            },
            _ => wl.wal,
        };
        let w = &mut self.line.w;
        match r.below(6) {
            0 | 1 => {
                let a = amount(r) + if r.chance(1, 2) { 5_000_000 } else { 0 };
                let acc = w.mutate(&owner);
                acc.lamports += a.max(rent_min(0));
            },
            2 | 3 => {
                let (i, n) = (r.below(3), r.below(2));
                give_tokens(r, w, &owner, i, n);
            },
            4 => {
                let n = r.below(2);
                give_stake(r, w, &owner, n);
            },
            _ => give_stake(r, w, &owner, 7),
        }
        self.stats.fault("outside-deposit");
    }
    /// Addresses of the sub-accounts this wallet has.
    pub fn subs_of(&self, s: &Swig) -> Vec<Key> {
        let mut c = vec![];
        for ro in &s.roles {
            for a in &ro.acts {
                if a.ty == act::SUB && a.d[..32] != [0; 32] {
                    c.push(a.key(0));
                }
            }
        }
        for n in 0..s.sub_counter().min(8) {
            if let Some((k, _)) = as2_pda(&s.id, n) {
                c.push(k);
            }
        }
        c
    }
    /// Takes a signed request someone once sent and tries it again in a new setting.
    fn reuse(&mut self, r: &mut Rng) {
        if self.done.is_empty() {
            return;
        }
        self.stats.fault("replayed-signature");
        let mut tx = r.pick(&self.done).clone();
        match r.below(6) {
            0 => {
                // the same request twice in one transaction
                if let Some(i) = tx.ixs.iter().position(|x| x.program == ids().swig) {
                    let x = tx.ixs[i].clone();
                    if i > 0 && tx.ixs[i - 1].program == ids().r1 {
                        let y = tx.ixs[i - 1].clone();
                        tx.ixs.insert(i + 1, y);
                        tx.ixs.insert(i + 2, x);
                    } else {
                        tx.ixs.insert(i + 1, x);
                    }
                }
            },
            1 => {
                // another wallet
                let n = self.line.wallets.len();
                if n > 1 {
                    let a = self.line.wallets[r.us(n)].clone();
                    let b = self.line.wallets[r.us(n)].clone();
                    for ix in tx.ixs.iter_mut() {
                        for mt in ix.metas.iter_mut() {
                            if mt.key == a.swig {
                                mt.key = b.swig
                            } else if mt.key == a.wal {
                                mt.key = b.wal
                            }
                        }
                    }
                }
            },
            2 => {
                // another role id
                for ix in tx.ixs.iter_mut().filter(|i| i.program == ids().swig) {
                    let o = match le16_at(&ix.data, 0) {
                        Some(11) | Some(20) | Some(9) | Some(5) | Some(7) | Some(14) | Some(15) | Some(6) => 4,
                        Some(1) => 12,
                        Some(2) | Some(3) => 8,
                        _ => 4,
                    };
                    if ix.data.len() >= o + 4 {
                        let v = (r.below(6) as u32).to_le_bytes();
                        ix.data[o..o + 4].copy_from_slice(&v);
                    }
                }
            },
            3 => {
                let p = payer(2);
                tx.payer = p;
            },
            4 => {
                let t = tx.clone();
                if let Some(o) = self.done.get(r.us(self.done.len())) {
                    tx.ixs.extend(o.ixs.clone());
                }
                if tx.ixs.len() > 12 {
                    tx = t;
                }
            },
            _ => self.mutate(r, &mut tx),
        }
        tx.signers = tx.ixs.iter().flat_map(|i| i.metas.iter()).filter(|x| x.signer).map(|x| x.key).collect();
        tx.signers.insert(tx.payer);
        let off: BTreeSet<Key> = self.line.wallets.iter().flat_map(|w| [w.swig, w.wal]).collect();
        if tx.signers.iter().any(|k| off.contains(k)) {
            return;
        }
        self.submit(r, tx);
    }
    /// Accounts a malformed request may name in place of the right one.
    fn strays(&self, r: &mut Rng) -> Vec<Key> {
        let mut v: Vec<Key> = vec![SYS, IX_SYSVAR, ids().token, ids().sysvar_clock, payer(0), to(0), pool(0), label_key("nobody", r.below(3))];
        v.extend((0..SHORTS.len()).map(|i| label_key("short", i as u64)));
        for w in &self.line.wallets {
            v.extend([w.swig, w.wal, ta(&w.wal, 0, 0), stake_acc(&w.wal, 0)]);
            if let Some(s) = self.swig_of(&w.swig) {
                v.extend(self.subs_of(&s));
                for n in 0..s.sub_counter().min(4) {
                    v.extend(st2_pda(&s.id, n).map(|x| x.0));
                }
            }
        }
        v
    }
    fn garbage(&mut self, r: &mut Rng) {
        self.stats.fault("random-bytes");
        let pool_ = self.strays(r);
        let n = r.us(9);
        let mut metas: Vec<Meta> = (0..n).map(|_| m(*r.pick(&pool_), false, r.chance(1, 2))).collect();
        if !self.line.wallets.is_empty() && !metas.is_empty() && r.chance(3, 4) {
            let wl = r.pick(&self.line.wallets).clone();
            metas[0] = m(wl.swig, false, true);
            if metas.len() > 1 && r.chance(1, 2) {
                metas[1] = m(wl.wal, false, true);
            }
        }
        metas.push(m(ed(r.below(4)), true, false));
        let len = match r.below(5) {
            0 => r.us(4),
            1 => r.us(20),
            2 => r.us(60),
            _ => r.us(300),
        };
        let mut d = r.bytes(len);
        if d.len() >= 2 {
            let v = r.below(25) as u16;
            d[..2].copy_from_slice(&v.to_le_bytes());
        }
        for x in d.iter_mut().skip(2) {
            if r.chance(2, 3) {
                *x = *r.pick(&[0u8, 0, 0, 1, 2, metas.len() as u8 - 1, 8, 255]);
            }
        }
        let p = payer(0);
        let mut tx = Tx { ixs: vec![Ix { program: ids().swig, metas, data: d }], signers: BTreeSet::new(), payer: p };
        tx.signers = tx.ixs[0].metas.iter().filter(|x| x.signer).map(|x| x.key).collect();
        tx.signers.insert(p);
        self.submit(r, tx);
    }
    /// The owner of a wallet checks it is still usable: an honest, valid request by
    /// the founding role must succeed.
    fn probe(&mut self, r: &mut Rng) {
        let Some((wl, s)) = self.pick_wallet(r) else { return };
        let Some(f) = s.roles.iter().find(|x| x.id == 0) else { return };
        if f.session() || !f.unlimited() || matches!(f.aty, aty::PX | aty::PX_S) {
            return;
        }
        if !s.is_v2() || wallet_with(&wl.swig, s.wallet_bump()) != Some(wl.wal) {
            return;
        }
        self.stats.inc("liveness probes");
        let have = self.w().lamports(&wl.wal);
        let spare = have.saturating_sub(rent_min(0));
        let (metas, data) = sign_data(&wl, 0, &[sol_ix(&wl.wal, &to(0), if spare > 0 { 1 + r.below(spare) } else { 0 })], &[]);
        let n = data.len();
        let mut c = self.call(r, wl.swig, 0, metas, data, (8, n));
        c.twist = Twist::None;
        let mut w = std::mem::take(&mut self.line.w);
        let keys = self.keys.clone();
        let tx = Signer { keys: &keys, w: &mut w }.assemble(vec![Part::Call(c)], payer(0));
        self.line.w = w;
        let ok = self.submit_raw(&tx, None);
        let known = match f.aty {
            aty::K1 => self.keys.k1.contains_key(&f.auth[..33]),
            _ => true,
        };
        if !ok && known && self.w().owner(&wl.wal) == SYS && self.w().data(&wl.wal).is_empty() {
            self.viol(tg(&[28]), "a valid request of the founding role was refused".into());
        }
    }
    pub fn viol(&mut self, tags: Tags, msg: String) {
        self.note(|| format!("  !! {} {}", tag_names(tags), msg));
        if self.viols.len() < 50 {
            self.viols.push(Viol { tags, msg });
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(l) = &mut self.log {
            l.push(f());
        }
    }

    pub fn submit(&mut self, r: &mut Rng, tx: Tx) {
        // compute exhaustion part way through, then the client retries
        if r.chance(self.prof.faults, 200) {
            let mut probe = self.line.w.clone();
            let n = execute(&mut probe, &tx, None, None).syscalls;
            if n > 0 {
                let at = 1 + r.below(n);
                self.stats.fault("aborted-at-syscall");
                self.submit_raw(&tx, Some(at));
            }
        }
        self.submit_raw(&tx, None);
        if self.done.len() < 40 {
            self.done.push(tx);
        } else {
            let i = r.us(40);
            self.done[i] = tx;
        }
    }
    pub fn submit_raw(&mut self, tx: &Tx, stop: Option<u64>) -> bool {
        self.stats.inc("transactions");
        let mut ob = Ob { stack: vec![], out: vec![], stats: std::mem::take(&mut self.stats), log: self.log.is_some(), lines: vec![], pre: vec![] };
        let before = self.line.w.clone();
        let mut w = std::mem::take(&mut self.line.w);
        let res = execute(&mut w, tx, Some(&mut ob), stop);
        self.line.w = w;
        let Ob { out, stats, lines, .. } = ob;
        self.stats = stats;
        if let Some(l) = &mut self.log {
            l.push(format!("tx slot={} {} -> {:?}{}", before.slot, describe_tx(tx), res.res, if res.res.is_err() { format!(" at ix {}", res.failed_ix) } else { String::new() }));
            l.extend(lines);
        }
        self.trace = fnv(self.trace, format!("{:?}", res.res).as_bytes());
        for (t, msg) in out {
            self.viol(t, msg);
        }
        if let Err(Fail::Signal(s)) = res.res {
            self.viol(tg(&[26, 28]), format!("the program crashed with signal {s}"));
        }
        if res.res.is_err() {
            if before.accts.len() != self.line.w.accts.len() || !before.accts.iter().zip(self.line.w.accts.iter()).all(|(a, b)| a.0 == b.0 && Rc::ptr_eq(a.1, b.1)) {
                self.viol(tg(&[27]), "a failed transaction left traces".into());
            }
            return false;
        }
        self.stats.inc("transactions accepted");
        self.after(tx, &before, &res.trace);
        true
    }
    /// History invariants after an accepted transaction.
    fn drain_host(&mut self) {
        let (v, n) = crate::host::drain();
        if n > 0 {
            *self.stats.c.entry("requests assembled by the real compaction helper").or_insert(0) += n;
            for i in [27, 31] {
                self.stats.facet[i] += n;
                self.stats.facet_ok[i] += n;
            }
        }
        for x in v {
            self.viol(x.tags, x.msg);
        }
    }
    fn after(&mut self, tx: &Tx, before: &World, trace: &[CpiRec]) {
        let mut bad: Vec<(Tags, String)> = vec![];
        let mut h = self.trace;
        for (k, a) in &self.line.w.accts {
            let old = before.accts.get(k);
            if let Some(o) = old {
                if Rc::ptr_eq(o, a) {
                    continue;
                }
            }
            h = fnv(h, &a.lamports.to_le_bytes());
            h = fnv(h, &a.data);
            if a.owner != ids().swig {
                continue;
            }
            if a.data.first() == Some(&1) {
                match Swig::decode(&a.data) {
                    Ok(s) => {
                        if s.encode() != a.data {
                            bad.push((tg(&[15]), "configuration is not in canonical form".into()));
                        }
                        if s.claimer().is_err() {
                            bad.push((tg(&[15, 22]), "trailing data damaged".into()));
                        }
                        let n = self.line.next_role.entry(*k).or_insert(0);
                        for ro in &s.roles {
                            if ro.id >= s.counter {
                                bad.push((tg(&[16]), "role id not below the counter".into()));
                            }
                            if ro.acts.is_empty() {
                                bad.push((tg(&[14, 15]), "role without permissions".into()));
                            }
                        }
                        let idset: BTreeSet<u32> = s.roles.iter().map(|r| r.id).collect();
                        if idset.len() != s.roles.len() {
                            bad.push((tg(&[16, 15]), "two roles with one id".into()));
                        }
                        if s.counter < *n {
                            bad.push((tg(&[16]), "role counter went back".into()));
                        }
                        *n = (*n).max(s.counter);
                        if s.role(0).is_none() {
                            bad.push((tg(&[14]), "founding role vanished".into()));
                        }
                        let sc = self.line.subs.entry(*k).or_insert(0);
                        if s.is_v2() {
                            if s.sub_counter() < *sc {
                                bad.push((tg(&[19, 25]), "sub-account counter went back".into()));
                            }
                            *sc = (*sc).max(s.sub_counter());
                        }
                        if let Some(c) = self.line.claimers.get(k) {
                            if s.claimer() != Ok(Some(*c)) {
                                bad.push((tg(&[22]), "rent claimer changed".into()));
                            }
                        } else if let Ok(Some(c)) = s.claimer() {
                            self.line.claimers.insert(*k, c);
                        }
                        if self.line.closed.contains(k) {
                            bad.push((tg(&[21]), "closed wallet came back".into()));
                        }
                        if a.lamports < rent_min(a.data.len()) {
                            bad.push((tg(&[30]), "configuration below rent".into()));
                        }
                        // state coverage
                        let mut f = 7u64;
                        for ro in &s.roles {
                            f = fnv(f, &ro.aty.to_le_bytes());
                            for x in &ro.acts {
                                f = fnv(f, &x.ty.to_le_bytes());
                            }
                        }
                        f = fnv(f, &s.tail);
                        if self.stats.states.len() < 2_000_000 {
                            self.stats.states.insert(f);
                        }
                    },
                    Err(e) => bad.push((tg(&[15, 26]), format!("configuration does not decode: {e}"))),
                }
            } else if a.data == [255] {
                self.line.closed.insert(*k);
            }
        }
        for k in &self.line.closed {
            if self.line.w.data(k) != [255] || self.line.w.owner(k) != ids().swig {
                bad.push((tg(&[21]), "tombstone changed".into()));
            }
        }
        // each counter-based signature at most once on this timeline
        let replaces = |ix: &Ix| (ix.program == ids().swig && ix.data.len() >= 12 && le16(&ix.data) == 16).then(|| (ix.metas[0].key, le32(&ix.data[8..])));
        for (i, ix) in tx.ixs.iter().enumerate() {
            for x in trace.iter().filter(|c| c.top == i).map(|c| &c.ix).chain([ix]).filter_map(replaces) {
                *Rc::make_mut(&mut self.line.epochs).entry(x).or_insert(0) += 1;
            }
            if ix.program != ids().swig {
                continue;
            }
            if let Some((wal, role, mut sig)) = signature_of(before, ix) {
                let e = self.line.epochs.get(&(wal, role)).copied().unwrap_or(0);
                sig.extend(role.to_le_bytes());
                sig.extend(e.to_le_bytes());
                if !Rc::make_mut(&mut self.line.used).insert(sig) {
                    bad.push((tg(&[10]), "one signature took effect twice".into()));
                }
            }
        }
        self.trace = h;
        if self.stats.traces.len() < 2_000_000 {
            self.stats.traces.insert(h);
        }
        for (t, s) in bad {
            self.viol(t, s);
        }
        self.drain_host();
        if let Some(f) = self.host.clone() {
            let mut v = vec![];
            f(&mut v, &mut self.stats, &self.line.w, before, &self.line.wallets, tx);
            for x in v {
                self.viol(x.tags, x.msg);
            }
        }
    }

    // ---------- requests ----------
    pub fn parts(&mut self, r: &mut Rng, op: Op) -> Vec<Part> {
        match op {
            Op::Create => self.p_create(r),
            Op::Recreate => self.p_recreate(r),
            Op::AddRole => self.p_add(r),
            Op::Update => self.p_update(r),
            Op::Remove => self.p_remove(r),
            Op::Replace => self.p_replace(r),
            Op::Session => self.p_session(r),
            Op::Sign => self.p_sign(r, false),
            Op::SignAll => self.p_sign(r, true),
            Op::Sub1Create => self.p_sub1_create(r),
            Op::Sub1Sign => self.p_sub1_sign(r),
            Op::Sub1Toggle => self.p_sub1_toggle(r),
            Op::Sub1Withdraw => self.p_sub1_withdraw(r),
            Op::Sub2Create => self.p_sub2_create(r),
            Op::Sub2Sign => self.p_sub2_sign(r),
            Op::Sub2Toggle => self.p_sub2_toggle(r),
            Op::Sub2Withdraw => self.p_sub2_withdraw(r),
            Op::Claimer => self.p_claimer(r),
            Op::CloseToken => self.p_close_token(r),
            Op::CloseSwig => self.p_close(r),
            Op::Migrate => self.p_migrate(r),
            Op::TransferAssets => self.p_transfer_assets(r),
            _ => vec![],
        }
    }
    pub fn addresses(id: &Key) -> Wal {
        let (swig, bump) = swig_pda(id).unwrap();
        let (wal, wb) = wallet_pda(&swig).unwrap();
        Wal { id: *id, swig, bump, wal, wb }
    }
    fn create_part(&mut self, r: &mut Rng, wl: &Wal) -> Part {
        let (at, ad) = self.gen_auth(r);
        let acts = encode_acts(&self.gen_acts(r, None, !r.clone().chance(1, 25)));
        let p = payer(r.below(2));
        let mut d = vec![0, 0];
        d.extend(at.to_le_bytes());
        d.extend((ad.len() as u16).to_le_bytes());
        d.extend([wl.bump, wl.wb]);
        d.extend(wl.id);
        d.extend(ad);
        d.extend(acts);
        Part::Raw(Ix { program: ids().swig, metas: vec![m(wl.swig, false, true), m(p, true, true), m(wl.wal, false, true), m(SYS, false, false)], data: d })
    }
    fn p_create(&mut self, r: &mut Rng) -> Vec<Part> {
        if self.line.wallets.len() >= 4 && !r.chance(1, 10) {
            return vec![];
        }
        let id = match self.line.wallets.first() {
            Some(x) if r.chance(1, 3) => cousin(x.id, 1 + r.below(2000)),
            _ => label_key("id", r.u64()),
        };
        if self.line.wallets.iter().any(|x| x.id == id) {
            return vec![];
        }
        let wl = Self::addresses(&id);
        self.line.wallets.push(wl.clone());
        if r.chance(1, 5) {
            self.stats.fault("pre-funded-address");
            for k in [wl.swig, wl.wal] {
                if r.chance(1, 2) {
                    let v = if r.chance(1, 2) { rent_min(0) } else { r.below(10_000_000) + 1 };
                    self.line.w.mutate(&k).lamports += v;
                }
            }
        }
        if r.chance(self.prof.legacy, 100) {
            self.legacy(r, &wl);
            return vec![];
        }
        vec![self.create_part(r, &wl)]
    }
    /// A wallet made by an older version of the program.
    fn legacy(&mut self, r: &mut Rng, wl: &Wal) {
        let n = 1 + r.us(3);
        let mut s = Swig { disc: 1, bump: wl.bump, id: wl.id, counter: 0, ext: [0; 8], roles: vec![], tail: vec![] };
        for i in 0..n {
            let (at, ad) = self.gen_auth(r);
            let acts = self.gen_acts(r, None, i == 0);
            let Ok(auth) = new_auth(at, &ad, &ids().swig) else { continue };
            if !acts.iter().all(initial_ok) || v2_dups(&acts) {
                continue;
            }
            s.roles.push(Role { id: s.counter, aty: at, auth, acts });
            s.counter += 1;
        }
        if s.roles.is_empty() || s.roles[0].id != 0 {
            return;
        }
        let d0 = s.encode().len();
        s.ext = rent_min(d0).to_le_bytes();
        if s.is_v2() {
            s.ext[1] = 1;
        }
        let d = s.encode();
        let l = self.w().lamports(&wl.swig) + rent_min(d.len()) + if r.chance(1, 2) { amount(r) } else { 0 };
        self.line.w.put(wl.swig, Acct { lamports: l, data: d, owner: ids().swig, exec: false });
        self.stats.inc("old-format wallets");
        self.note(|| "an old-format wallet exists".into());
    }
    fn p_recreate(&mut self, r: &mut Rng) -> Vec<Part> {
        if self.line.wallets.is_empty() {
            return vec![];
        }
        let mut wl = r.pick(&self.line.wallets).clone();
        match r.below(5) {
            0 => wl.bump = wl.bump.wrapping_sub(1 + r.below(3) as u8),
            1 => wl.id = label_key("id", r.u64()),
            2 => wl.wb = wl.wb.wrapping_sub(1),
            _ => {},
        }
        vec![self.create_part(r, &wl)]
    }
    fn mgmt(&self, wl: &Wal, p: Key) -> Vec<Meta> {
        vec![m(wl.swig, false, true), m(p, true, true), m(SYS, false, false)]
    }
    fn p_add(&mut self, r: &mut Rng) -> Vec<Part> {
        let Some((wl, s)) = self.pick_wallet(r) else { return vec![] };
        if s.roles.len() >= 14 || s.size() > 6000 {
            return vec![];
        }
        let role = self.pick_role(r, &s, |x| x.manager());
        let (at, mut ad) = self.gen_auth(r);
        if r.chance(1, 40) {
            ad.pop();
        }
        let acts = self.gen_acts(r, Some(&s), false);
        let mut n = acts.len();
        if r.chance(1, 40) {
            n = r.us(4);
        }
        let mut ab = encode_acts(&acts);
        if r.chance(1, 20) {
            // boundaries supplied by the client are not trusted
            for i in 0..ab.len().min(8) {
                if i >= 4 {
                    ab[i] = r.u64() as u8;
                }
            }
        }
        let mut d = vec![1, 0];
        d.extend((ad.len() as u16).to_le_bytes());
        d.extend((ab.len() as u16).to_le_bytes());
        d.extend(at.to_le_bytes());
        d.push(n as u8);
        d.extend([0; 3]);
        d.extend(role.to_le_bytes());
        d.extend(ad);
        d.extend(ab);
        let e = d.len();
        let metas = self.mgmt(&wl, payer(0));
        vec![Part::Call(self.call(r, wl.swig, role, metas, d, (0, e)))]
    }
    fn p_update(&mut self, r: &mut Rng) -> Vec<Part> {
        let Some((wl, s)) = self.pick_wallet(r) else { return vec![] };
        let role = self.pick_role(r, &s, |x| x.manager());
        let target = self.pick_role(r, &s, |x| x.id != 0);
        if s.size() > 6000 {
            return vec![];
        }
        let Some(t) = s.role(target).map(|i| &s.roles[i]) else { return vec![] };
        let mut acts = self.gen_acts(r, Some(&s), target == 0 && !r.clone().chance(1, 6));
        let (n, body) = match r.below(8) {
            0 | 1 => (acts.len(), encode_acts(&acts)),
            2 => {
                let mut b = vec![0];
                b.extend(encode_acts(&acts));
                (0, b)
            },
            3 | 4 => {
                acts.truncate(3);
                let mut b = vec![1];
                b.extend(encode_acts(&acts));
                (0, b)
            },
            5 => {
                let mut b = vec![2];
                for _ in 0..1 + r.us(2) {
                    b.push(if r.chance(5, 6) && !t.acts.is_empty() { r.pick(&t.acts).ty as u8 } else { r.below(28) as u8 });
                }
                (0, b)
            },
            6 => {
                let mut b = vec![3];
                for _ in 0..1 + r.us(3) {
                    b.extend((r.us(t.acts.len() + 1) as u16).to_le_bytes());
                }
                (0, b)
            },
            _ => {
                // same permissions again, reordered
                let mut v: Vec<Act> = t.acts.iter().filter(|a| initial_ok(a)).cloned().collect();
                for i in (1..v.len()).rev() {
                    let j = r.us(i + 1);
                    v.swap(i, j);
                }
                (v.len(), encode_acts(&v))
            },
        };
        let mut d = vec![3, 0];
        d.extend((body.len() as u16).to_le_bytes());
        d.push(n as u8);
        d.extend([0; 3]);
        d.extend(role.to_le_bytes());
        d.extend(target.to_le_bytes());
        d.extend(body);
        let e = d.len();
        let metas = self.mgmt(&wl, payer(0));
        vec![Part::Call(self.call(r, wl.swig, role, metas, d, (0, e)))]
    }
    fn p_remove(&mut self, r: &mut Rng) -> Vec<Part> {
        let Some((wl, s)) = self.pick_wallet(r) else { return vec![] };
        let mut role = self.pick_role(r, &s, |x| x.manager());
        let target = self.pick_role(r, &s, |x| x.id != 0);
        if r.chance(1, 4) {
            role = target;
        }
        let mut d = vec![2, 0, 0, 0, 0, 0, 0, 0];
        d.extend(role.to_le_bytes());
        d.extend(target.to_le_bytes());
        let metas = self.mgmt(&wl, payer(0));
        let mut c = self.call(r, wl.swig, role, metas, d, (0, 16));
        c.len_at = Some(2);
        vec![Part::Call(c)]
    }
    fn p_replace(&mut self, r: &mut Rng) -> Vec<Part> {
        let Some((wl, s)) = self.pick_wallet(r) else { return vec![] };
        let mut role = self.pick_role(r, &s, |x| x.manager() || x.has(act::REPLACE));
        let mut target = self.pick_role(r, &s, |x| x.aty < 7);
        if let Some(i) = s.role(role) {
            if let Some(a) = s.roles[i].acts.iter().find(|a| a.ty == act::REPLACE) {
                if r.chance(3, 4) && s.role(le32(&a.d)).is_some() {
                    target = le32(&a.d);
                }
            }
        }
        if r.chance(1, 10) {
            role = target;
        }
        let Some(j) = s.role(target) else { return vec![] };
        let t = s.roles[j].aty;
        let kind = if r.chance(19, 20) { t } else { 1 + r.below(6) as u16 };
        let k = self.keys.k1pub[r.us(NK as usize)];
        let new: Vec<u8> = match kind {
            1 | 2 => ed(r.below(NK)).to_vec(),
            3 | 4 => {
                if r.chance(1, 2) {
                    k.0.to_vec()
                } else {
                    k.1.to_vec()
                }
            },
            _ => r1(r.below(NK)).to_vec(),
        };
        let mut d = vec![16, 0, 0, 0];
        d.extend(role.to_le_bytes());
        d.extend(target.to_le_bytes());
        d.extend((new.len() as u16).to_le_bytes());
        d.extend([0, 0]);
        d.extend(&new);
        let e = d.len();
        let px = s.role(role).map(|i| s.roles[i].aty == aty::PX).unwrap_or(false);
        let mut metas = vec![m(wl.swig, false, true)];
        if px || r.chance(1, 2) {
            metas.push(m(wl.wal, false, false));
        }
        let mut c = self.call(r, wl.swig, role, metas, d, (0, e));
        if px && r.chance(5, 6) {
            let nk: Vec<u8> = if new.len() == 64 { compress64(&new).to_vec() } else { new.clone() };
            let mut parts: Vec<Vec<u8>> = vec![
                b"swig-replace-authority-v1".to_vec(),
                wl.swig.to_vec(),
                wl.wal.to_vec(),
                role.to_le_bytes().to_vec(),
                target.to_le_bytes().to_vec(),
                t.to_le_bytes().to_vec(),
                s.roles[j].auth.get(..nk.len()).unwrap_or(&s.roles[j].auth).to_vec(),
                nk,
            ];
            if r.chance(1, 5) {
                let i = 1 + r.us(7);
                let b = r.us(parts[i].len().max(1));
                parts[i][b] ^= 1;
            }
            let h = sha256(&parts.iter().map(|x| &x[..]).collect::<Vec<_>>());
            let mut p = EXEC_PROOF.to_vec();
            p.extend(h);
            c.proof = Some(p);
        }
        vec![Part::Call(c)]
    }
    fn p_session(&mut self, r: &mut Rng) -> Vec<Part> {
        let Some((wl, s)) = self.pick_wallet(r) else { return vec![] };
        let role = self.pick_role(r, &s, |x| x.session());
        let max = s.role(role).filter(|i| s.roles[*i].session()).map(|i| s.roles[i].session_max()).unwrap_or(100);
        let dur = match r.below(6) {
            0 => max,
            1 => max.saturating_add(1),
            2 => 0,
            3 => r.below(max.saturating_add(2)),
            4 => max,
            _ => r.below(max.saturating_add(1)),
        };
        let mut d = vec![5, 0, 0, 0];
        d.extend(role.to_le_bytes());
        d.extend(dur.to_le_bytes());
        d.extend(ses(r.below(NK)));
        let metas = self.mgmt(&wl, payer(0));
        let mut c = self.call(r, wl.swig, role, metas, d, (0, 48));
        c.root = true;
        if s.role(role).map(|i| s.roles[i].aty >= 7).unwrap_or(false) && r.chance(9, 10) {
            c.metas.insert(1, m(wl.wal, false, false));
            // the account list is swig, payer, system: a program call can only name the payer second
            c.metas.remove(1);
        }
        vec![Part::Call(c)]
    }
    fn p_claimer(&mut self, r: &mut Rng) -> Vec<Part> {
        let Some((wl, s)) = self.pick_wallet(r) else { return vec![] };
        let role = self.pick_role(r, &s, |x| x.has(act::ALL) || x.has(act::CLOSE));
        let c = match r.below(12) {
            0 => [0; 32],
            1 => wl.swig,
            2 => wl.wal,
            _ => to(r.below(4)),
        };
        let mut d = vec![17, 0, 0, 0];
        d.extend(role.to_le_bytes());
        d.extend(c);
        let metas = self.mgmt(&wl, payer(0));
        vec![Part::Call(self.call(r, wl.swig, role, metas, d, (0, 40)))]
    }
    fn dest(&self, r: &mut Rng, s: &Swig) -> Key {
        match s.claimer() {
            Ok(Some(c)) if r.chance(3, 4) => c,
            _ => to(r.below(4)),
        }
    }
    fn p_close_token(&mut self, r: &mut Rng) -> Vec<Part> {
        let Some((wl, s)) = self.pick_wallet(r) else { return vec![] };
        let role = self.pick_role(r, &s, |x| x.closer());
        let dst = self.dest(r, &s);
        let prog = if r.chance(3, 4) { ids().token } else { ids().token22 };
        let mut metas = vec![m(wl.swig, false, true), m(wl.wal, false, true), m(dst, false, true), m(prog, false, false)];
        let mut c = vec![];
        for o in [wl.wal, wl.swig] {
            for i in 0..3 {
                for n in 0..2 {
                    let k = ta(&o, i, n);
                    if self.w().owner(&k) == prog {
                        c.push(k);
                        if self.w().data(&k)[64..72] == [0; 8] {
                            c.push(k);
                            c.push(k);
                            c.push(k);
                            c.push(k);
                        }
                    }
                }
            }
        }
        if r.chance(1, 10) {
            c.push(ta(&to(0), 0, 0));
        }
        let n = 1 + r.us(2);
        for _ in 0..n {
            if !c.is_empty() {
                let k = *r.pick(&c);
                if !metas.iter().any(|x| x.key == k) || r.chance(1, 10) {
                    metas.push(m(k, false, true));
                }
            }
        }
        if r.chance(1, 10) {
            // a token program of the sender's own, with its own account
            self.stats.fault("forged-token-program");
            let own = ids().script[r.us(2)];
            let o = if r.chance(3, 4) { wl.wal } else { wl.swig };
            let mut q = Acct { lamports: rent_min(165), data: vec![0; 165], owner: own, exec: false };
            q.data[32..64].copy_from_slice(&o);
            q.data[108] = 1;
            let k = label_key("impostor", 18);
            self.line.w.put(k, q);
            if r.chance(2, 3) {
                metas[3].key = own;
                metas.truncate(4);
            }
            metas.push(m(k, false, true));
        }
        let nt = metas.len();
        let mut d = vec![14, 0];
        let mut off = 4u16;
        let mut call_metas = metas;
        // the authority's account must come before the list
        let kind = s.role(role).map(|i| (s.roles[i].aty, s.roles[i].session()));
        let extra = match kind {
            Some((_, true)) | Some((aty::ED, _)) | Some((aty::R1, _)) | Some((aty::PX, _)) => true,
            _ => false,
        };
        if extra {
            let i = s.role(role).unwrap();
            let ro = &s.roles[i];
            let k = if ro.session() {
                Some((ro.session_key(), true))
            } else if ro.aty == aty::ED {
                Some((ro.auth[..32].try_into().unwrap(), true))
            } else {
                None
            };
            if let Some((k, sg)) = k {
                call_metas.insert(4, m(k, sg, false));
                off = 5;
            }
        }
        if r.chance(1, 30) {
            off = r.below(nt as u64 + 3) as u16;
        }
        d.extend(off.to_le_bytes());
        d.extend(role.to_le_bytes());
        let c = self.call(r, wl.swig, role, call_metas, d, (0, 8));
        vec![Part::Call(c)]
    }
    fn p_close(&mut self, r: &mut Rng) -> Vec<Part> {
        let Some((wl, s)) = self.pick_wallet(r) else { return vec![] };
        let role = self.pick_role(r, &s, |x| x.closer());
        let dst = self.dest(r, &s);
        let mut parts = vec![];
        // first empty the wallet, mostly
        if r.chance(2, 3) {
            let l = self.w().lamports(&wl.wal);
            if let Some(f) = s.roles.iter().find(|x| x.unlimited()) {
                if l > rent_min(0) {
                    let (metas, data) = sign_data(&wl, f.id, &[sol_ix(&wl.wal, &to(0), l - rent_min(0) + if r.chance(1, 10) { rent_min(0) } else { 0 })], &[]);
                    let n = data.len();
                    parts.push(Part::Call(self.call(r, wl.swig, f.id, metas, data, (8, n))));
                }
            }
        }
        let mut d = vec![15, 0, 0, 0];
        d.extend(role.to_le_bytes());
        let metas = vec![m(wl.swig, false, true), m(wl.wal, false, true), m(dst, false, true), m(SYS, false, false)];
        parts.push(Part::Call(self.call(r, wl.swig, role, metas, d, (0, 8))));
        parts
    }
    fn p_migrate(&mut self, r: &mut Rng) -> Vec<Part> {
        let Some((wl, s)) = self.pick_wallet(r) else { return vec![] };
        let role = self.pick_role(r, &s, |x| x.manager());
        let mut d = vec![12, 0, wl.wb, 0];
        if r.chance(1, 20) {
            d[2] = r.u64() as u8;
        }
        d.extend(role.to_le_bytes());
        let mut metas = vec![m(wl.swig, false, true), m(ed(0), false, false), m(payer(0), true, true), m(wl.wal, false, true), m(SYS, false, false)];
        if s.role(role).map(|i| s.roles[i].aty >= 7 && !s.roles[i].session()).unwrap_or(false) {
            metas[1].key = wl.wal;
        }
        vec![Part::Call(self.call(r, wl.swig, role, metas, d, (0, 8)))]
    }
    fn p_transfer_assets(&mut self, r: &mut Rng) -> Vec<Part> {
        let Some((wl, s)) = self.pick_wallet(r) else { return vec![] };
        let role = self.pick_role(r, &s, |x| x.manager());
        let mut metas = vec![m(wl.swig, false, true), m(wl.wal, false, true), m(payer(0), true, true), m(SYS, false, false)];
        for _ in 0..r.us(3) {
            let i = r.below(3);
            let so = if r.chance(9, 10) { wl.swig } else { wl.wal };
            let dst0 = if r.chance(9, 10) { wl.wal } else { to(0) };
            let n = r.below(2);
            let (a, b) = (ta(&so, i, n), ta(&dst0, i, 0));
            if r.chance(1, 2) {
                give_tokens(r, &mut self.line.w, &so, i, n);
                give_tokens(r, &mut self.line.w, &dst0, i, 0);
            }
            if self.w().peek(&a).is_none() || self.w().peek(&b).is_none() {
                continue;
            }
            if r.chance(1, 10) {
                // a token program of the sender's own, with its own accounts
                self.stats.fault("forged-token-program");
                let own = ids().script[r.us(2)];
                for (n, x) in [(16, a), (17, b)] {
                    let mut q = self.w().get(&x);
                    q.owner = own;
                    q.data[64..72].copy_from_slice(&[5, 1, 5, 1, 5, 1, 5, 1]);
                    self.line.w.put(label_key("impostor", n), q);
                    metas.push(m(label_key("impostor", n), false, true));
                }
                metas.push(m(own, false, false));
                continue;
            }
            metas.push(m(a, false, true));
            metas.push(m(b, false, true));
            metas.push(m(mint_prog(i), false, false));
        }
        let mut d = vec![13, 0, 0, 0];
        d.extend(role.to_le_bytes());
        vec![Part::Call(self.call(r, wl.swig, role, metas, d, (0, 8)))]
    }
    // ----- sub-accounts -----
    fn p_sub1_create(&mut self, r: &mut Rng) -> Vec<Part> {
        let Some((wl, s)) = self.pick_wallet(r) else { return vec![] };
        let role = self.pick_role(r, &s, |x| x.acts.iter().any(|a| a.ty == act::SUB));
        let rid = if r.chance(19, 20) { role } else { r.below(4) as u32 };
        let Some((sub, mut b)) = sub1_pda(&wl.id, rid) else { return vec![] };
        let mut sub = sub;
        if r.chance(1, 10) {
            // a non-canonical bump
            for x in (0..b).rev() {
                if let Some(k) = sub1_with(&wl.id, rid, x) {
                    sub = k;
                    b = x;
                    break;
                }
            }
        }
        if r.chance(1, 10) {
            self.line.w.mutate(&sub).lamports += r.below(2_000_000) + 1;
        }
        let mut d = vec![6, 0, 0, 0];
        d.extend(role.to_le_bytes());
        d.push(b);
        d.extend([0; 7]);
        let metas = vec![m(wl.swig, false, true), m(payer(0), true, true), m(sub, false, true), m(SYS, false, false)];
        vec![Part::Call(self.call(r, wl.swig, role, metas, d, (0, 16)))]
    }
    /// (role, sub-account) pairs of the first generation.
    fn subs1(s: &Swig) -> Vec<(u32, Key)> {
        let mut v = vec![];
        for ro in &s.roles {
            for a in &ro.acts {
                if a.ty == act::SUB && a.d[..32] != [0; 32] {
                    v.push((ro.id, a.key(0)));
                }
            }
        }
        v
    }
    fn pick_sub1(&self, r: &mut Rng) -> Option<(Wal, Swig, u32, Key)> {
        let mut all = vec![];
        for i in self.open_wallets() {
            let wl = &self.line.wallets[i];
            if let Some(s) = self.swig_of(&wl.swig) {
                for (a, b) in Self::subs1(&s) {
                    all.push((wl.clone(), s.clone(), a, b));
                }
            }
        }
        if all.is_empty() {
            return None;
        }
        let mut x = r.pick(&all).clone();
        if r.chance(1, 15) {
            // someone else's
            let y = r.pick(&all).clone();
            x.3 = y.3;
        }
        Some(x)
    }
    fn sub_ixs(&mut self, r: &mut Rng, wl: &Wal, sub: &Key) -> Vec<Ix> {
        let mut v = vec![];
        for _ in 0..1 + r.us(2) {
            let spare = self.w().lamports(sub).saturating_sub(rent_min(0));
            let amt = match r.below(5) {
                0 => spare,
                1 => spare + 1,
                2 => self.w().lamports(sub),
                _ => r.below(spare + 1),
            };
            let i = r.below(3);
            let tn = r.below(2);
            let t = ta(sub, i, tn);
            if r.chance(1, 6) {
                give_tokens(r, &mut self.line.w, sub, i, tn);
            }
            let ix = match r.below(11) {
                10 => scatter(r, sub),
                0..=3 => sol_ix(sub, &to(r.below(3)), amt),
                4 | 5 if self.w().peek(&t).is_some() => {
                    let have = tok_amount(self.w().data(&t));
                    tok_ix(&mint_prog(i), &t, &ta(&to(0), i, 0), sub, r.below(have + 2))
                },
                6 => {
                    // tries to use the main wallet's signature
                    sol_ix(&wl.wal, &to(1), 1 + r.below(1000))
                },
                7 => {
                    let s = self.swig_of(&wl.swig).unwrap();
                    let o = self.subs_of(&s);
                    let k = *r.pick(&o);
                    sol_ix(&k, &to(2), 1)
                },
                8 => sol_ix(sub, &wl.wal, amt),
                _ => {
                    let a = ids().script[0];
                    let data = script_transfer(2, 0, 1, r.below(spare + 1));
                    Ix { program: a, metas: vec![m(*sub, true, true), m(to(1), false, true), m(SYS, false, false)], data }
                },
            };
            v.push(ix);
        }
        v
    }
    fn p_sub1_sign(&mut self, r: &mut Rng) -> Vec<Part> {
        let Some((wl, s, mut role, sub)) = self.pick_sub1(r) else { return vec![] };
        if r.chance(1, 10) {
            role = self.pick_role(r, &s, |_| true);
        }
        let ixs = self.sub_ixs(r, &wl, &sub);
        let mut metas = vec![m(wl.swig, false, true), m(sub, false, true), m(SYS, false, false)];
        let p = compact(&mut metas, &ixs, &[sub, wl.wal]);
        let mut d = vec![9, 0];
        d.extend((p.len() as u16).to_le_bytes());
        d.extend(role.to_le_bytes());
        d.extend([0; 8]);
        d.extend(&p);
        let n = d.len();
        vec![Part::Call(self.call(r, wl.swig, role, metas, d, (16, n)))]
    }
    fn p_sub1_toggle(&mut self, r: &mut Rng) -> Vec<Part> {
        let Some((wl, s, role, sub)) = self.pick_sub1(r) else { return vec![] };
        let mut auth = role;
        if r.chance(1, 2) {
            auth = self.pick_role(r, &s, |x| x.manager());
        }
        let mut d = vec![10, 0, r.below(2) as u8, 0, 0, 0, 0, 0];
        d.extend(role.to_le_bytes());
        d.extend(auth.to_le_bytes());
        let metas = vec![m(wl.swig, false, true), m(payer(0), true, true), m(sub, false, true)];
        vec![Part::Call(self.call(r, wl.swig, auth, metas, d, (0, 16)))]
    }
    fn p_sub1_withdraw(&mut self, r: &mut Rng) -> Vec<Part> {
        let Some((wl, s, mut role, sub)) = self.pick_sub1(r) else { return vec![] };
        if r.chance(1, 2) {
            role = self.pick_role(r, &s, |x| x.manager());
        }
        let wal = if r.chance(1, 12) { self.other_wal(r) } else { wl.wal };
        let authctx = payer(2);
        let mut metas = vec![m(wl.swig, false, true), m(payer(0), true, true), m(sub, false, true), m(authctx, false, false), m(wal, false, true), m(SYS, false, false)];
        let amt;
        let i = r.below(3);
        let tn = r.below(2);
        let (src, dst) = (ta(&sub, i, tn), ta(&wal, i, 0));
        if r.chance(1, 3) {
            give_tokens(r, &mut self.line.w, &sub, i, tn);
            give_tokens(r, &mut self.line.w, &wal, i, 0);
        }
        if r.chance(1, 2) && self.w().peek(&src).is_some() && self.w().data(&dst).len() >= 165 {
            metas.push(m(src, false, true));
            let dst = match r.below(16) {
                0 => ta(&to(0), i, 0),
                1 => label_key("short", r.below(SHORTS.len() as u64)),
                _ => dst,
            };
            metas.push(m(dst, false, true));
            metas.push(m(mint_prog(i), false, false));
            amt = r.below(tok_amount(self.w().data(&src)) + 2);
            if r.chance(1, 16) {
                self.own_tokens(r, &mut metas[6..], &[src, dst]);
            }
        } else {
            let have = self.w().lamports(&sub);
            amt = match r.below(4) {
                0 => have,
                1 => have.saturating_sub(rent_min(0)),
                2 => have + 1,
                _ => r.below(have + 1),
            };
        }
        let mut d = vec![7, 0, 0, 0];
        d.extend(role.to_le_bytes());
        d.extend(amt.to_le_bytes());
        if metas.len() == 6 {
            // the authority sits in the account-context slot
            if let Some(i) = s.role(role) {
                let ro = &s.roles[i];
                if ro.session() {
                    metas[3] = m(ro.session_key(), true, false);
                } else if ro.aty == aty::ED {
                    metas[3] = m(ro.auth[..32].try_into().unwrap(), true, false);
                } else if ro.aty == aty::R1 || ro.aty == aty::PX {
                    metas[3] = m(IX_SYSVAR, false, false);
                }
            }
        }
        vec![Part::Call(self.call(r, wl.swig, role, metas, d, (0, 16)))]
    }
    /// A token program of the sender's own, with its own copies of the accounts.
    fn own_tokens(&mut self, r: &mut Rng, metas: &mut [Meta], real: &[Key]) {
        self.stats.fault("forged-token-program");
        let own = ids().script[r.us(2)];
        let all = r.chance(2, 3);
        for (i, k) in real.iter().enumerate() {
            if !all && r.chance(1, 2) {
                continue;
            }
            let mut q = self.w().get(k);
            q.owner = own;
            let e = label_key("impostor", 16 + i as u64);
            self.line.w.put(e, q);
            metas[i].key = e;
        }
        if all || r.chance(1, 2) {
            if let Some(x) = metas.get_mut(real.len()) {
                x.key = own;
            }
        }
    }
    fn other_wal(&self, r: &mut Rng) -> Key {
        let v: Vec<Key> = self.line.wallets.iter().map(|w| w.wal).chain([to(0)]).collect();
        *r.pick(&v)
    }
    fn p_sub2_create(&mut self, r: &mut Rng) -> Vec<Part> {
        let Some((wl, s)) = self.pick_wallet(r) else { return vec![] };
        if s.sub_counter() > 12 {
            return vec![];
        }
        let role = self.pick_role(r, &s, |x| x.has(act::V2_CREATE));
        let n = if r.chance(19, 20) { s.sub_counter() } else { r.below(4) as u32 };
        let (Some((st, sb)), Some((sub, ab))) = (st2_pda(&wl.id, n), as2_pda(&wl.id, n)) else { return vec![] };
        for k in [st, sub] {
            if r.chance(1, 8) {
                self.stats.fault("pre-funded-address");
                self.line.w.mutate(&k).lamports += 1 + r.below(3_000_000);
            }
        }
        let mut d = vec![18, 0, 0, 0];
        d.extend(role.to_le_bytes());
        d.extend([sb, ab]);
        d.extend([0; 6]);
        let metas = vec![m(wl.swig, false, true), m(payer(0), true, true), m(st, false, true), m(sub, false, true), m(SYS, false, false)];
        vec![Part::Call(self.call(r, wl.swig, role, metas, d, (0, 16)))]
    }
    fn pick_sub2(&self, r: &mut Rng) -> Option<(Wal, Swig, u32, Key, Key)> {
        let mut all = vec![];
        for i in self.open_wallets() {
            let wl = &self.line.wallets[i];
            if let Some(s) = self.swig_of(&wl.swig) {
                for n in 0..if s.is_v2() { s.sub_counter().min(12) } else { 0 } {
                    if let (Some(a), Some(b)) = (st2_pda(&s.id, n), as2_pda(&s.id, n)) {
                        all.push((wl.clone(), s.clone(), n, a.0, b.0));
                    }
                }
            }
        }
        if all.is_empty() {
            return None;
        }
        let mut x = r.pick(&all).clone();
        if r.chance(1, 12) {
            let y = r.pick(&all).clone();
            match r.below(3) {
                0 => x.3 = y.3,
                1 => x.4 = y.4,
                _ => {
                    x.2 = y.2;
                    x.3 = y.3;
                    x.4 = y.4
                },
            }
        }
        Some(x)
    }
    fn p_sub2_sign(&mut self, r: &mut Rng) -> Vec<Part> {
        let Some((wl, s, n, st, sub)) = self.pick_sub2(r) else { return vec![] };
        let role = self.pick_role_v2(r, &s, act::V2_SIGN, n);
        let ixs = self.sub_ixs(r, &wl, &sub);
        let mut metas = vec![m(wl.swig, false, true), m(st, false, r.chance(1, 2)), m(sub, false, true), m(SYS, false, false)];
        let p = compact(&mut metas, &ixs, &[sub, wl.wal]);
        let mut d = vec![20, 0];
        d.extend((p.len() as u16).to_le_bytes());
        d.extend(role.to_le_bytes());
        d.extend(n.to_le_bytes());
        d.extend([0; 4]);
        d.extend(&p);
        let e = d.len();
        vec![Part::Call(self.call(r, wl.swig, role, metas, d, (0, e)))]
    }
    fn p_sub2_toggle(&mut self, r: &mut Rng) -> Vec<Part> {
        let Some((wl, s, n, st, _)) = self.pick_sub2(r) else { return vec![] };
        let role = self.pick_role_v2(r, &s, act::V2_TOGGLE, n);
        let en = if r.chance(1, 20) { r.u64() as u8 } else { r.below(2) as u8 };
        let mut d = vec![19, 0, en, 0];
        d.extend(role.to_le_bytes());
        d.extend(n.to_le_bytes());
        d.extend([0; 4]);
        let metas = vec![m(wl.swig, false, true), m(payer(0), true, true), m(st, false, true)];
        vec![Part::Call(self.call(r, wl.swig, role, metas, d, (0, 16)))]
    }
    fn p_sub2_withdraw(&mut self, r: &mut Rng) -> Vec<Part> {
        let Some((wl, s, n, st, sub)) = self.pick_sub2(r) else { return vec![] };
        let role = self.pick_role_v2(r, &s, act::V2_WITHDRAW, n);
        let wal = if r.chance(1, 12) { self.other_wal(r) } else { wl.wal };
        let mut ctx = m(payer(2), false, false);
        if let Some(i) = s.role(role) {
            let ro = &s.roles[i];
            if ro.session() {
                ctx = m(ro.session_key(), true, false);
            } else if ro.aty == aty::ED {
                ctx = m(ro.auth[..32].try_into().unwrap(), true, false);
            } else if ro.aty == aty::R1 || ro.aty == aty::PX {
                ctx = m(IX_SYSVAR, false, false);
            }
        }
        let mut metas = vec![m(wl.swig, false, true), m(payer(0), true, true), m(st, false, false), m(sub, false, true), m(wal, false, true), ctx, m(SYS, false, false)];
        let i = r.below(3);
        let tn = r.below(2);
        let (src, dst) = (ta(&sub, i, tn), ta(&wal, i, 0));
        if r.chance(1, 3) {
            give_tokens(r, &mut self.line.w, &sub, i, tn);
            give_tokens(r, &mut self.line.w, &wal, i, 0);
        }
        let amt;
        if r.chance(1, 2) && self.w().peek(&src).is_some() && self.w().data(&dst).len() >= 165 {
            metas.push(m(src, false, true));
            let dst = match r.below(16) {
                0 => ta(&to(0), i, 0),
                1 => label_key("short", r.below(SHORTS.len() as u64)),
                _ => dst,
            };
            metas.push(m(dst, false, true));
            metas.push(m(mint_prog(i), false, false));
            amt = r.below(tok_amount(self.w().data(&src)) + 2);
            if r.chance(1, 16) {
                self.own_tokens(r, &mut metas[7..], &[src, dst]);
            }
        } else {
            let have = self.w().lamports(&sub);
            amt = match r.below(4) {
                0 => have,
                1 => have.saturating_sub(rent_min(0)),
                2 => have + 1,
                _ => r.below(have + 1),
            };
        }
        let mut d = vec![21, 0, 0, 0];
        d.extend(role.to_le_bytes());
        d.extend(n.to_le_bytes());
        d.extend([0; 4]);
        d.extend(amt.to_le_bytes());
        vec![Part::Call(self.call(r, wl.swig, role, metas, d, (0, 24)))]
    }

    // ----- signing with the main wallet -----
    fn p_sign(&mut self, r: &mut Rng, unlimited: bool) -> Vec<Part> {
        let Some((wl, s)) = self.pick_wallet(r) else { return vec![] };
        let role = self.pick_role(r, &s, |x| x.unlimited() == unlimited);
        let Some(ri) = s.role(role) else { return vec![] };
        let ro = s.roles[ri].clone();
        let n = match r.below(12) {
            0..=5 => 1,
            6..=8 => 2,
            9 | 10 => 3,
            _ => r.us(6),
        };
        let mut ixs = vec![];
        for _ in 0..n {
            ixs.push(self.inner(r, &wl, &s, &ro));
        }
        if r.chance(1, 30) {
            // many calls
            for _ in 0..r.us(40) {
                let at = r.us(ixs.len() + 1);
                ixs.insert(at, Ix { program: ids().script[r.us(2)], metas: vec![], data: vec![5, r.u64() as u8] });
            }
        }
        let mut watch = vec![];
        if r.chance(1, 6) {
            // bystanders: accounts nothing touches
            for _ in 0..1 + r.us(3) {
                let k = match r.below(4) {
                    0 => ta(&wl.wal, r.below(3), r.below(2)),
                    1 => stake_acc(&wl.wal, r.below(2)),
                    2 => pool(r.below(POOLS)),
                    _ => ta(&wl.swig, r.below(3), 0),
                };
                if self.w().peek(&k).is_some() {
                    watch.push(m(k, false, r.chance(1, 2)));
                }
            }
        }
        let (metas, data) = sign_data(&wl, role, &ixs, &watch);
        let mut metas = metas;
        if r.chance(1, 8) {
            metas[0].writable = false;
        }
        if r.chance(1, 25) {
            metas[1].key = self.other_wal(r);
        }
        let n = data.len();
        vec![Part::Call(self.call(r, wl.swig, role, metas, data, (8, n)))]
    }
    fn near(&self, r: &mut Rng, v: u64) -> u64 {
        match r.below(8) {
            0 => v,
            1 => v.saturating_add(1),
            2 => v.saturating_sub(1),
            3 => v / 2 + 1,
            _ => r.below(v.saturating_add(1).max(1)),
        }
    }
    fn inner(&mut self, r: &mut Rng, wl: &Wal, s: &Swig, ro: &Role) -> Ix {
        let wal = wl.wal;
        let free = self.w().lamports(&wal).saturating_sub(rent_min(0));
        // pick something the role's own permissions are about
        let mut subj: Vec<&Act> = ro.acts.iter().filter(|a| !matches!(a.ty, act::PROGRAM | act::PROG_ALL | act::PROG_CUR)).collect();
        if subj.is_empty() {
            subj = ro.acts.iter().collect();
        }
        let a = if subj.is_empty() { None } else { Some((*r.pick(&subj)).clone()) };
        let theme = if r.chance(1, 5) { 0 } else { a.as_ref().map(|x| x.ty).unwrap_or(0) };
        let a = a.unwrap_or(Act { ty: 0, d: vec![] });
        let script_ok = ro.has(act::PROG_ALL) || (0..3).any(|i| ro.find_for(act::PROGRAM, &ids().script[i]).is_some()) || ro.unlimited();
        match theme {
            act::SOL | act::SOL_REC | act::SOL_DST | act::SOL_REC_DST => {
                let left = match a.ty {
                    act::SOL => a.u64(0),
                    act::SOL_REC => {
                        if r.chance(1, 2) {
                            a.u64(24)
                        } else {
                            a.u64(0)
                        }
                    },
                    act::SOL_DST => a.u64(32),
                    _ => {
                        if r.chance(1, 2) {
                            a.u64(56)
                        } else {
                            a.u64(32)
                        }
                    },
                };
                let mut dst = to(r.below(3));
                if matches!(a.ty, act::SOL_DST | act::SOL_REC_DST) && r.chance(4, 5) {
                    dst = a.key(0);
                }
                let v = self.near(r, left.min(free + 1));
                if script_ok && r.chance(1, 5) {
                    // through another program
                    let back = if r.chance(1, 3) { r.below(v + 1) } else { 0 };
                    let mut data = script_transfer(2, 0, 1, v);
                    if back > 0 {
                        data.extend([2, 3, 0]);
                        data.extend(back.to_le_bytes());
                    }
                    let sc = r.below(2);
                    return Ix { program: ids().script[sc as usize], metas: vec![m(wal, true, true), m(dst, false, true), m(SYS, false, false), m(pool(sc), false, true)], data };
                }
                sol_ix(&wal, &dst, v)
            },
            act::TOK | act::TOK_REC | act::TOK_DST | act::TOK_REC_DST => {
                let mi = (0..3).find(|i| mint(*i)[..] == a.d[..32]).unwrap_or(0);
                let left = match a.ty {
                    act::TOK => a.u64(32),
                    act::TOK_REC => a.u64(if r.chance(1, 2) { 48 } else { 40 }),
                    act::TOK_DST => a.u64(64),
                    _ => a.u64(if r.chance(1, 2) { 88 } else { 64 }),
                };
                let mut dst = ta(&to(r.below(3)), mi, 0);
                if matches!(a.ty, act::TOK_DST | act::TOK_REC_DST) && r.chance(4, 5) {
                    dst = a.key(32);
                }
                self.token_ix(r, wl, mi, dst, left)
            },
            act::STAKE | act::STAKE_REC | act::STAKE_ALL => {
                let left = if a.d.len() >= 8 { a.u64(0) } else { 1_000_000 };
                self.stake_ix(r, wl, left)
            },
            act::SCOPE => self.scope_ix(r, wl, &a),
            act::CLOSE if r.chance(1, 2) => {
                // close a token account, perhaps after emptying it
                let mi = r.below(3);
                let t = ta(&wal, mi, r.below(2));
                if self.w().peek(&t).is_some() {
                    return Ix { program: mint_prog(mi), metas: vec![m(t, false, true), m(to(0), false, true), m(wal, true, false)], data: vec![9] };
                }
                sol_ix(&wal, &to(0), 0)
            },
            _ => match r.below(18) {
                16 => scatter(r, &wal),
                0 | 1 => {
                    let v = self.near(r, free);
                    sol_ix(&wal, &to(r.below(3)), v)
                },
                2 => {
                    let mi = r.below(3);
                    let dst = ta(&to(r.below(3)), mi, 0);
                    self.token_ix(r, wl, mi, dst, 500)
                },
                3 => self.stake_ix(r, wl, 1_000_000),
                4 => {
                    // take over an address: assign / allocate
                    let mut d = vec![];
                    if r.chance(1, 2) {
                        d.extend(1u32.to_le_bytes());
                        d.extend(*r.pick(&[ids().swig, ids().script[0], ids().token, SYS]));
                    } else {
                        d.extend(8u32.to_le_bytes());
                        d.extend((r.below(200)).to_le_bytes());
                    }
                    Ix { program: SYS, metas: vec![m(wal, true, true)], data: d }
                },
                5 => {
                    // new account paid by the wallet
                    let k = cousin(label_key("new", 0), r.below(50));
                    let mut d = 0u32.to_le_bytes().to_vec();
                    let space = r.below(100);
                    d.extend(rent_min(space as usize).to_le_bytes());
                    d.extend(space.to_le_bytes());
                    d.extend(ids().script[0]);
                    Ix { program: SYS, metas: vec![m(wal, true, true), m(k, true, true)], data: d }
                },
                6 => {
                    // token housekeeping on the wallet's accounts
                    let mi = r.below(3);
                    let t = ta(&wal, mi, r.below(2));
                    let p = mint_prog(mi);
                    match r.below(6) {
                        0 => Ix { program: p, metas: vec![m(t, false, true), m(to(0), false, false), m(wal, true, false)], data: [&[4u8][..], &100u64.to_le_bytes()].concat() },
                        1 => Ix { program: p, metas: vec![m(t, false, true), m(wal, true, false)], data: vec![5] },
                        2 => Ix { program: p, metas: vec![m(t, false, true), m(wal, true, false)], data: [&[6u8, 2, 1][..], &to(0)].concat() },
                        3 => Ix { program: p, metas: vec![m(t, false, true), m(wal, true, false)], data: [&[6u8, 3, 1][..], &to(0)].concat() },
                        4 => Ix { program: p, metas: vec![m(t, false, true), m(to(0), false, true), m(wal, true, false)], data: vec![9] },
                        _ => Ix { program: p, metas: vec![m(t, false, true), m(mint(mi), false, true), m(wal, true, false)], data: [&[8u8][..], &r.below(300).to_le_bytes()].concat() },
                    }
                },
                7 => {
                    // money comes back
                    let v = amount(r);
                    Ix { program: SYS, metas: vec![m(payer(1), true, true), m(wal, false, true)], data: [&2u32.to_le_bytes()[..], &v.to_le_bytes()].concat() }
                },
                8 => {
                    // tokens come back
                    let mi = r.below(3);
                    Ix { program: mint_prog(mi), metas: vec![m(ta(&to(0), mi, 0), false, true), m(ta(&wal, mi, 0), false, true), m(to(0), true, false)], data: [&[3u8][..], &r.below(50).to_le_bytes()].concat() }
                },
                9 => {
                    // a program the role may or may not call, with the wallet as signer
                    let k = r.us(4);
                    Ix { program: ids().script[k], metas: vec![m(wal, true, r.chance(1, 2)), m(to(0), false, true)], data: vec![5, 0] }
                },
                10 => {
                    // some program without the wallet
                    let k = r.us(4);
                    Ix { program: ids().script[k], metas: vec![m(to(0), false, true)], data: vec![5, r.u64() as u8] }
                },
                11 => {
                    // the callee turns round and asks the wallet to sign again
                    let inner = sol_ix(&wal, &to(2), r.below(free + 1));
                    let (mut me, mut d) = sign_data(wl, ro.id, &[inner], &[]);
                    let k = match ro.aty {
                        aty::ED | aty::ED_S => ro.auth[..32].try_into().unwrap(),
                        _ => ed(1),
                    };
                    me.push(m(k, true, false));
                    d.push(me.len() as u8 - 1);
                    let ix = Ix { program: ids().swig, metas: me, data: d };
                    if r.chance(1, 2) {
                        ix
                    } else {
                        let mut x = wrap_ix(&ix, ids().script[0]);
                        if r.chance(1, 2) {
                            x.metas.push(m(wal, true, true));
                        }
                        x
                    }
                },
                12 => {
                    // configuration change from inside
                    let mut d = vec![2, 0, 1, 0, 0, 0, 0, 0];
                    d.extend(ro.id.to_le_bytes());
                    d.extend((r.below(4) as u32).to_le_bytes());
                    let me = vec![m(wl.swig, false, true), m(payer(1), true, true), m(SYS, false, false), m(wal, true, false)];
                    d.push(3);
                    Ix { program: ids().swig, metas: me, data: d }
                },
                13 => {
                    // write to a pool, or drain lamports between owned accounts
                    let p = r.below(3);
                    let mut data = vec![1, 0];
                    data.extend((r.below(60) as u16).to_le_bytes());
                    data.push(2);
                    data.extend(r.bytes(2));
                    Ix { program: ids().script[p as usize], metas: vec![m(pool(p), false, true), m(wal, true, false)], data }
                },
                14 => Ix { program: ids().script[0], metas: vec![m(wal, true, true)], data: vec![0] },
                15 => {
                    // another sub-account of this wallet
                    let o = self.subs_of(s);
                    let k = if o.is_empty() { wl.swig } else { *r.pick(&o) };
                    sol_ix(&k, &to(0), 1)
                },
                _ => {
                    // wrap: sync native style deposit, wallet pays into own token account
                    let mi = r.below(3);
                    sol_ix(&wal, &ta(&wal, mi, 0), r.below(100))
                },
            },
        }
    }
    fn token_ix(&mut self, r: &mut Rng, wl: &Wal, mi: u64, dst: Key, left: u64) -> Ix {
        let n = r.below(2);
        if self.w().peek(&ta(&wl.wal, mi, n)).is_none() && r.chance(3, 4) {
            give_tokens(r, &mut self.line.w, &wl.wal, mi, n);
        }
        let mut src = ta(&wl.wal, mi, n);
        if self.w().peek(&src).is_none() {
            src = ta(&wl.wal, mi, 1 - n);
        }
        let mut dst = dst;
        if r.chance(1, 12) {
            dst = ta(&wl.wal, mi, 1 - n);
        }
        let have = tok_amount(self.w().data(&src));
        let v = self.near(r, left.min(have + 1));
        let p = mint_prog(mi);
        match r.below(8) {
            0 | 1 => {
                let mut d = vec![12];
                d.extend(v.to_le_bytes());
                d.push(6);
                Ix { program: p, metas: vec![m(src, false, true), m(mint(mi), false, false), m(dst, false, true), m(wl.wal, true, false)], data: d }
            },
            2 => Ix { program: p, metas: vec![m(src, false, true), m(mint(mi), false, true), m(wl.wal, true, false)], data: [&[8u8][..], &v.to_le_bytes()].concat() },
            3 => {
                // through a script
                let mut t = vec![3u8];
                t.extend(v.to_le_bytes());
                let mut data = vec![3, 3, 3, 0, 2, 1, 2, 2, 1];
                data.extend((t.len() as u16).to_le_bytes());
                data.extend(t);
                Ix { program: ids().script[r.us(2)], metas: vec![m(src, false, true), m(dst, false, true), m(wl.wal, true, false), m(p, false, false)], data }
            },
            _ => tok_ix(&p, &src, &dst, &wl.wal, v),
        }
    }
    fn stake_ix(&mut self, r: &mut Rng, wl: &Wal, left: u64) -> Ix {
        let n = r.below(2);
        let st = stake_acc(&wl.wal, n);
        if r.chance(3, 4) {
            give_stake(r, &mut self.line.w, &wl.wal, n);
            give_stake(r, &mut self.line.w, &wl.wal, 7);
        }
        let have = self.w().lamports(&st).saturating_sub(STAKE_RESERVE);
        let v = self.near(r, left.min(have + 1));
        let p = ids().stake;
        let wal = wl.wal;
        let l = |t: u32| t.to_le_bytes().to_vec();
        match r.below(11) {
            8 => {
                // everything at once
                let d = self.w().lamports(&st);
                Ix { program: p, metas: vec![m(st, false, true), m(to(0), false, true), m(wal, true, false)], data: [l(4), d.to_le_bytes().to_vec()].concat() }
            },
            9 => {
                let o = stake_acc(&wal, r.below(2));
                Ix { program: p, metas: vec![m(st, false, true), m(o, false, true), m(wal, true, false)], data: l(7) }
            },
            10 => {
                let mut d = l(6);
                d.push(0);
                if r.chance(1, 2) {
                    d.push(1);
                    d.extend((self.w().slot / 432000 + r.below(3)).to_le_bytes());
                } else {
                    d.push(0);
                }
                if r.chance(1, 2) {
                    d.push(1);
                    d.extend(to(r.below(2)));
                } else {
                    d.push(0);
                }
                Ix { program: p, metas: vec![m(st, false, true), m(wal, true, false)], data: d }
            },
            0..=2 => Ix { program: p, metas: vec![m(st, false, true), m(to(0), false, true), m(wal, true, false)], data: [l(4), v.to_le_bytes().to_vec()].concat() },
            3 | 4 => Ix { program: p, metas: vec![m(st, false, true), m(stake_acc(&wal, 7), false, true), m(wal, true, false)], data: [l(3), v.to_le_bytes().to_vec()].concat() },
            5 => Ix { program: p, metas: vec![m(st, false, true), m(wal, true, false)], data: l(5) },
            6 => Ix { program: p, metas: vec![m(st, false, true), m(label_key("vote", 0), false, false), m(wal, true, false)], data: l(2) },
            _ => Ix { program: p, metas: vec![m(st, false, true), m(wal, true, false)], data: [l(1), to(0).to_vec(), l(r.below(2) as u32)].concat() },
        }
    }
    fn scope_ix(&mut self, r: &mut Rng, wl: &Wal, a: &Act) -> Ix {
        let t = a.key(80);
        let pi = (0..POOLS).find(|i| pool(*i) == t).unwrap_or(0);
        let (s, e) = (a.u64(128) as usize, a.u64(136) as usize);
        let wdt = e.saturating_sub(s).min(16);
        if r.chance(1, 8) {
            // the pool's own business
            let top = 1 + r.us(16);
            if let (Some(f), true) = (self.line.w.mutate(&t).data.get_mut(s..s + wdt), wdt > 0) {
                for x in f.iter_mut().take(top) {
                    *x = r.u64() as u8;
                }
            }
        }
        let d = self.w().data(&t);
        let mut b = [0u8; 16];
        if wdt > 0 && e <= d.len() {
            b[..wdt].copy_from_slice(&d[s..s + wdt]);
        }
        let cur = u128::from_le_bytes(b);
        let lim = u128::from_le_bytes(a.d[16..32].try_into().unwrap());
        let used = u128::from_le_bytes(a.d[..16].try_into().unwrap());
        let left = lim.saturating_sub(used);
        let fall = if left >> 60 == 0 {
            self.near(r, left as u64) as u128
        } else {
            match r.below(5) {
                0 => left,
                1 => left + 1,
                2 => left - 1,
                3 => 1 << r.below(120),
                _ => (r.u64() as u128) << r.below(57),
            }
        };
        let new = if r.chance(1, 6) { cur.saturating_add(fall) } else { cur.saturating_sub(fall) };
        let mut at = s;
        if r.chance(1, 12) {
            at = r.us(48);
        }
        let mut data = vec![1, 0];
        data.extend((at as u16).to_le_bytes());
        data.push(wdt as u8);
        data.extend(&new.to_le_bytes()[..wdt]);
        if r.chance(1, 6) {
            // dip and come back within one instruction, or twice
            let mut d2 = vec![1, 0];
            d2.extend((at as u16).to_le_bytes());
            d2.push(wdt as u8);
            d2.extend(&cur.to_le_bytes()[..wdt]);
            data.extend(d2);
        }
        Ix { program: ids().script[(pi % 3) as usize], metas: vec![m(t, false, true), m(wl.wal, true, false)], data }
    }
}

/// A call without effect that names accounts in any order, repeatedly and with
/// various privileges.
fn scatter(r: &mut Rng, wal: &Key) -> Ix {
    let mut metas = vec![];
    for _ in 0..1 + r.us(7) {
        let k = match r.below(9) {
            0 | 1 => *wal,
            2 | 3 => to(r.below(2)),
            4 => payer(1),
            5 => pool(r.below(2)),
            6 => SYS,
            7 => ids().script[r.us(2)],
            _ => mint(r.below(2)),
        };
        let signer = (k == *wal || k == payer(1)) && r.chance(1, 2);
        let writable = r.chance(1, 2) && k != SYS && !ids().script.contains(&k);
        metas.push(m(k, signer, writable));
    }
    let mut data = vec![];
    for _ in 0..1 + r.us(12) {
        data.extend([5, r.u64() as u8]);
    }
    Ix { program: ids().script[r.us(2)], metas, data }
}
/// Wraps one instruction into a script that calls it.
pub fn wrap_ix(ix: &Ix, script: Key) -> Ix {
    let mut metas = ix.metas.clone();
    metas.push(m(ix.program, false, false));
    let mut d = vec![3, metas.len() as u8 - 1, ix.metas.len() as u8];
    for (i, x) in ix.metas.iter().enumerate() {
        d.push(i as u8);
        d.push(x.signer as u8 | (x.writable as u8) << 1);
    }
    d.extend((ix.data.len() as u16).to_le_bytes());
    d.extend(&ix.data);
    Ix { program: script, metas, data: d }
}
pub fn sol_ix(from: &Key, to: &Key, v: u64) -> Ix {
    let mut d = 2u32.to_le_bytes().to_vec();
    d.extend(v.to_le_bytes());
    Ix { program: SYS, metas: vec![m(*from, true, true), m(*to, false, true)], data: d }
}
pub fn tok_ix(p: &Key, src: &Key, dst: &Key, auth: &Key, v: u64) -> Ix {
    let mut d = vec![3];
    d.extend(v.to_le_bytes());
    Ix { program: *p, metas: vec![m(*src, false, true), m(*dst, false, true), m(*auth, true, false)], data: d }
}
/// Script code: System transfer of `v` from account `f` to `t`, System at `p`.
pub fn script_transfer(p: u8, f: u8, t: u8, v: u64) -> Vec<u8> {
    let mut x = 2u32.to_le_bytes().to_vec();
    x.extend(v.to_le_bytes());
    let mut d = vec![3, p, 2, f, 3, t, 2];
    d.extend((x.len() as u16).to_le_bytes());
    d.extend(x);
    d
}
/// Compact encoding of inner instructions over a growing account list; the keys in
/// `pdas` never carry a signer flag at the outer level.
pub fn compact(metas: &mut Vec<Meta>, ixs: &[Ix], pdas: &[Key]) -> Vec<u8> {
    if let Some(p) = crate::host::compact(metas, ixs, pdas) {
        return p;
    }
    let mut idx = |k: Key, s: bool, w: bool| -> u8 {
        let s = s && !pdas.contains(&k);
        if let Some(i) = metas.iter().position(|x| x.key == k) {
            metas[i].signer |= s;
            metas[i].writable |= w;
            return i as u8;
        }
        metas.push(m(k, s, w));
        metas.len() as u8 - 1
    };
    let mut p = vec![ixs.len() as u8];
    for ix in ixs {
        p.push(idx(ix.program, false, false));
        p.push(ix.metas.len() as u8);
        for x in &ix.metas {
            p.push(idx(x.key, x.signer && label_signable(&x.key), x.writable));
        }
        p.extend((ix.data.len() as u16).to_le_bytes());
        p.extend(&ix.data);
    }
    p
}
/// Keys some party in the simulation can sign for.
pub fn label_signable(k: &Key) -> bool {
    (0..3).any(|i| payer(i) == *k) || (0..4).any(|i| to(i) == *k) || (0..NK).any(|i| ed(i) == *k || ses(i) == *k) || (0..50).any(|i| cousin(label_key("new", 0), i) == *k)
}
pub fn sign_data(wl: &Wal, role: u32, ixs: &[Ix], watch: &[Meta]) -> (Vec<Meta>, Vec<u8>) {
    let mut metas = vec![m(wl.swig, false, true), m(wl.wal, false, true), m(SYS, false, false)];
    metas.extend_from_slice(watch);
    let p = compact(&mut metas, ixs, &[wl.wal, wl.swig]);
    let mut d = vec![11, 0];
    d.extend((p.len() as u16).to_le_bytes());
    d.extend(role.to_le_bytes());
    d.extend(&p);
    (metas, d)
}
fn le16_at(d: &[u8], o: usize) -> Option<u16> {
    d.get(o..o + 2).map(le16)
}
/// The signature a counter-based request carries, with the key it is checked against.
fn signature_of(w: &World, ix: &Ix) -> Option<(Key, u32, Vec<u8>)> {
    let k = ix.metas.first()?.key;
    let s = Swig::decode(w.data(&k)).ok()?;
    let d = &ix.data;
    let (role, ap) = match le16_at(d, 0)? {
        11 => (le32(d.get(4..8)?), 8 + le16_at(d, 2)? as usize),
        1 => (le32(d.get(12..16)?), 16 + le16_at(d, 2)? as usize + le16_at(d, 4)? as usize),
        2 => (le32(d.get(8..12)?), 16),
        3 => (le32(d.get(8..12)?), 16 + le16_at(d, 2)? as usize),
        5 => (le32(d.get(4..8)?), 48),
        _ => return None,
    };
    let ro = s.roles.iter().find(|x| x.id == role)?;
    if ro.aty != aty::K1 {
        return None;
    }
    let mut v = k.to_vec();
    v.extend(&ro.auth[..33]);
    v.extend(d.get(ap + 12..ap + 76)?);
    Some((k, role, v))
}
pub fn tag_names(t: Tags) -> String {
    let v: Vec<String> = (1..40).filter(|i| t >> i & 1 == 1).map(|i| format!("P{i:02}")).collect();
    v.join("+")
}
pub fn describe_ix(ix: &Ix) -> String {
    let p = if ix.program == ids().swig {
        format!("swig#{}", le16_at(&ix.data, 0).map(|x| x as i64).unwrap_or(-1))
    } else {
        match native::kind(&ix.program) {
            Some(k) => format!("{k:?}"),
            None => short(&ix.program),
        }
    };
    let a: Vec<String> = ix
        .metas
        .iter()
        .map(|x| format!("{}{}{}", short(&x.key), if x.signer { "s" } else { "" }, if x.writable { "w" } else { "" }))
        .collect();
    format!("{p}[{}]{}", a.join(","), hex(&ix.data))
}
pub fn describe_tx(tx: &Tx) -> String {
    let v: Vec<String> = tx.ixs.iter().map(describe_ix).collect();
    format!("payer={} {}", short(&tx.payer), v.join(" ; "))
}

// ---------- the oracle at work ----------
pub struct Ob {
    pub stack: Vec<Pred>,
    pub out: Vec<(Tags, String)>,
    pub stats: Stats,
    pub log: bool,
    pub lines: Vec<String>,
    pub pre: Vec<World>,
}
impl Observer for Ob {
    fn before(&mut self, w: &World, f: &FrameView) {
        let p = predict(w, f);
        self.stack.push(p);
        self.pre.push(w.clone());
    }
    fn after(&mut self, w: &World, f: &FrameView, r: &Res) {
        let p = self.stack.pop().unwrap();
        let pre = self.pre.pop().unwrap();
        self.stats.inc("instructions judged");
        *self.stats.by_ix.entry((p.info.disc.min(30), r.is_ok())).or_insert(0) += 1;
        let all = p.fam | p.facets;
        // coverage only: what the judged instruction says about the broad properties
        let mut cov = all;
        if p.info.role.is_some() {
            cov |= tg(&[9]);
        }
        if p.verdict.is_ok() {
            cov |= tg(&[28]);
        }
        if !matches!(p.info.disc, 4 | 11 | 9 | 18) {
            cov |= tg(&[30]);
        }
        for i in 1..32 {
            if cov >> i & 1 == 1 {
                self.stats.facet[i] += 1;
                if r.is_ok() {
                    self.stats.facet_ok[i] += 1;
                }
            }
        }
        if self.log {
            let v = match &p.verdict {
                Ok(_) => "accept".to_string(),
                Err(e) if e.open => format!("open ({})", e.why),
                Err(e) => format!("reject ({})", e.why),
            };
            self.lines.push(format!("  depth {} instruction {} role {:?}: expected {v}, got {r:?}", f.depth, p.info.disc, p.info.role));
        }
        if matches!(r, Err(Fail::Injected)) {
            return;
        }
        let had = self.out.len();
        self.judge(&pre, w, f, &p, r, all);
        if self.log && self.out.len() > had {
            for m in f.accts {
                if let Some(a) = pre.accts.get(&m.key) {
                    if a.owner == ids().swig {
                        if let Ok(s) = Swig::decode(&a.data) {
                            self.lines.push(format!("    before: {} {}", short(&m.key), s.pretty()));
                        }
                    }
                }
            }
        }
    }
}
impl Ob {
    fn judge(&mut self, pre: &World, w: &World, f: &FrameView, p: &Pred, r: &Res, all: Tags) {
        if let Err(Fail::Signal(_)) = r {
            self.out.push((tg(&[26]) | p.fam, format!("instruction {} crashed: {r:?} {}", p.info.disc, crate::rt::unsafe_msg())));
            return;
        }
        match (&p.verdict, r) {
            (Err(e), _) if e.open => {
                self.stats.inc("open verdicts");
            },
            (Err(e), Err(_)) => {
                *self.stats.rejects.entry(e.why).or_insert(0) += 1;
                for i in 1..32 {
                    if e.tags >> i & 1 == 1 && all >> i & 1 == 0 {
                        self.stats.facet[i] += 1;
                    }
                }
            },
            (Err(e), Ok(())) => {
                self.out.push((e.tags | p.fam, format!("instruction {} was accepted but must be refused: {}", p.info.disc, e.why)));
            },
            // 32 KiB of heap without reuse: only requests with very many inner
            // accounts may exhaust it.
            (Ok(_), Err(Fail::Rt("out of heap"))) if f.data.len() > 200 => {
                self.stats.inc("heap exhausted");
            },
            (Ok(_), Err(e)) => {
                self.out.push((tg(&[28]) | p.fam | p.facets, format!("instruction {} was refused ({e:?}) but must succeed", p.info.disc)));
            },
            (Ok(x), Ok(())) => {
                if let Some((t, s)) = diff(pre, x, w, p, f) {
                    self.out.push((t | p.fam, format!("instruction {} had another effect than it must: {s}", p.info.disc)));
                }
            },
        }
    }
}
/// First difference between the expected and the real ledger, classified.
fn diff(_pre: &World, want: &World, got: &World, p: &Pred, f: &FrameView) -> Option<(Tags, String)> {
    let mut t: Tags = 0;
    let mut msg = String::new();
    let keys: BTreeSet<&Key> = want.accts.keys().chain(got.accts.keys()).collect();
    let empty = Acct::default();
    for k in keys {
        let (a, b) = (want.accts.get(k), got.accts.get(k));
        if let (Some(a), Some(b)) = (a, b) {
            if Rc::ptr_eq(a, b) {
                continue;
            }
        }
        let (a, b) = (a.map(|x| &**x).unwrap_or(&empty), b.map(|x| &**x).unwrap_or(&empty));
        if a == b {
            continue;
        }
        if msg.len() < 600 {
            msg += &format!("account {}: ", short(k));
            if a.lamports != b.lamports {
                msg += &format!("lamports {} expected, {} found; ", a.lamports, b.lamports);
            }
            if a.owner != b.owner {
                msg += "owner; ";
            }
        }
        if a.lamports != b.lamports {
            t |= tg(&[30]);
            if p.info.disc == 11 {
                t |= tg(&[27]);
            }
        }
        if a.owner != b.owner {
            t |= tg(&[8]);
        }
        if a.data != b.data {
            if a.owner == ids().swig && a.data.first() == Some(&1) {
                match (Swig::decode(&a.data), Swig::decode(&b.data)) {
                    (Ok(x), Ok(y)) => {
                        let (dt, s) = diff_swig(&x, &y, p);
                        t |= dt;
                        msg += &s;
                    },
                    (_, Err(e)) => {
                        t |= tg(&[15]);
                        msg += &format!("configuration does not decode: {e}; ");
                    },
                    _ => t |= tg(&[15]),
                }
            } else if a.owner == ids().swig {
                t |= tg(&[19]);
                msg += &format!("state {} expected, {} found; ", hex(&a.data), hex(&b.data));
            } else {
                t |= tg(&[27]);
                msg += "data; ";
                if a.owner == ids().token || a.owner == ids().token22 {
                    t |= tg(&[3]);
                }
            }
        }
    }
    let _ = f;
    if t == 0 {
        None
    } else {
        Some((t, msg))
    }
}
fn act_tags(ty: u16) -> Tags {
    match ty {
        act::SOL => tg(&[1]),
        act::SOL_REC => tg(&[2, 1]),
        act::TOK => tg(&[3]),
        act::TOK_REC => tg(&[2, 3]),
        act::SCOPE => tg(&[6]),
        act::STAKE => tg(&[5]),
        act::STAKE_REC => tg(&[2, 5]),
        act::SOL_DST | act::TOK_DST => tg(&[4]),
        act::SOL_REC_DST | act::TOK_REC_DST => tg(&[4, 2]),
        act::SUB => tg(&[18]),
        act::REPLACE => tg(&[17]),
        act::V2_CREATE..=act::V2_TOGGLE => tg(&[19]),
        _ => 0,
    }
}
fn unpad(r: &Role) -> Role {
    let mut r = r.clone();
    let pad = match r.aty {
        aty::K1 | aty::K1_S | aty::R1 | aty::R1_S => 33..36,
        aty::PX | aty::PX_S => 33..40,
        _ => 0..0,
    };
    if let Some(p) = r.auth.get_mut(pad) {
        p.fill(0);
    }
    for a in r.acts.iter_mut().filter(|a| a.ty == act::SUB) {
        if let Some(p) = a.d.get_mut(34..36) {
            p.fill(0);
        }
    }
    r
}
fn diff_swig(a: &Swig, b: &Swig, p: &Pred) -> (Tags, String) {
    let mut t: Tags = 0;
    let mut s = String::new();
    if a.disc != b.disc || a.bump != b.bump || a.id != b.id {
        t |= tg(&[15]);
        s += "header; ";
    }
    if a.counter != b.counter {
        t |= tg(&[16]);
        s += &format!("role counter {} expected, {} found; ", a.counter, b.counter);
    }
    if a.ext != b.ext {
        t |= tg(&[19, 25]);
        s += &format!("wallet fields {} expected, {} found; ", hex(&a.ext), hex(&b.ext));
    }
    if a.tail != b.tail {
        t |= tg(&[22, 15]);
        s += "trailing data; ";
    }
    if a.roles.len() != b.roles.len() || a.roles.iter().zip(&b.roles).any(|(x, y)| x.id != y.id) {
        t |= tg(&[14, 15, 16]);
        s += &format!("roles {:?} expected, {:?} found; ", a.roles.iter().map(|r| r.id).collect::<Vec<_>>(), b.roles.iter().map(|r| r.id).collect::<Vec<_>>());
        return (t, s);
    }
    for (x, y) in a.roles.iter().zip(&b.roles) {
        if x == y {
            continue;
        }
        let acting = p.info.role == Some(x.id);
        let own = acting || p.info.target == Some(x.id);
        // What an instruction leaves in the padding of a role it works on is its
        // own affair.
        let (x, y) = if own { (unpad(x), unpad(y)) } else { (x.clone(), y.clone()) };
        if x == y {
            continue;
        }
        if !own {
            t |= tg(&[15, 14]);
        }
        if x.auth != y.auth || x.aty != y.aty {
            s += &format!("authority of role {}: {} expected, {} found; ", x.id, hex(&x.auth), hex(&y.auth));
            if x.aty == y.aty && x.auth.len() == y.auth.len() {
                let d: Vec<usize> = (0..x.auth.len()).filter(|i| x.auth[*i] != y.auth[*i]).collect();
                if matches!(x.aty, 3..=6) && d.iter().any(|i| (36..40).contains(i)) {
                    t |= tg(&[10]);
                }
                if x.session() && d.iter().any(|i| *i >= session_off(x.aty)) {
                    t |= tg(&[11]);
                }
                if d[0] < 33 {
                    t |= tg(&[9, 17]);
                }
                if x.aty >= 7 {
                    t |= tg(&[13]);
                }
                t |= tg(&[15]);
            } else {
                t |= tg(&[15]);
            }
        }
        if x.acts != y.acts {
            let n = x.acts.len().max(y.acts.len());
            for i in 0..n {
                let (u, v) = (x.acts.get(i), y.acts.get(i));
                if u != v {
                    t |= u.map(|u| act_tags(u.ty)).unwrap_or(0) | v.map(|v| act_tags(v.ty)).unwrap_or(0);
                    s += &format!("permission {i} of role {}: {:?} expected, {:?} found; ", x.id, u.map(|u| (u.ty, hex(&u.d))), v.map(|v| (v.ty, hex(&v.d))));
                    if u.map(|u| u.ty) != v.map(|v| v.ty) {
                        t |= tg(&[14, 15]);
                    }
                    if p.info.disc == 11 {
                        t |= p.facets & tg(&[1, 2, 3, 4, 5, 6]);
                    }
                }
            }
            if t == 0 {
                t |= tg(&[15]);
            }
        }
    }
    if t == 0 {
        t |= tg(&[15]);
        s += "encoding; ";
    }
    (t, s)
}
pub fn keep(_: &BTreeMap<u8, u8>) {}
