//! The wallet client (swig_sdk), linked as ordinary host code and talking to a
//! simulated network (P33). Requests the simulator has put together byte by byte are
//! carried out a second time through the client, on a copy of the ledger, while the
//! network loses, delays, duplicates and misreports. Every transaction of the client's
//! that lands is compared with the hand-made request executed at the same point.
use crate::client::*;
use crate::iface::{acting, decode, differ, fixed, ins, k1_sign, pk, By, Change, Want};
use crate::layout::{act, aty, encode_acts, Act, Role, Swig};
use crate::model::{as2_pda, st2_pda, sub1_pda, tg};
use crate::native::ids;
use crate::rt::*;
use crate::util::*;
use crate::work::*;
use solana_client::Net;
use solana_program::hash::Hash;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use solana_sdk::account::Account;
use solana_sdk::keypair::{digest, Keypair};
use solana_sdk::message::{v0, AddressLookupTableAccount, VersionedMessage};
use solana_sdk::signature::Signature;
use solana_sdk::transaction::VersionedTransaction;
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;
use swig_sdk::client_role::*;
use swig_sdk::types::UpdateAuthorityData;
use swig_sdk::{Permission, RecurringConfig, SwigError, SwigWallet};
use swig_state::authority::ed25519::CreateEd25519SessionAuthority;
use swig_state::authority::secp256k1::CreateSecp256k1SessionAuthority;
use swig_state::authority::secp256r1::CreateSecp256r1SessionAuthority;
use swig_state::authority::AuthorityType;

type R1Log = Rc<RefCell<Vec<(Vec<u8>, Vec<u8>, Vec<u8>)>>>;

/// A transaction of the client's with what it was asked to do.
struct Mail {
    tx: Tx,
    parts: Vec<Part>,
    fee: Key,
    op: u64,
    /// state of the client's counter it was signed for, if signatures are counted
    serial: Option<u64>,
}
struct Cloud {
    w: World,
    /// earlier ledgers a lagging node still serves
    old: VecDeque<World>,
    r: Rng,
    /// how often something goes wrong, in percent
    rate: u64,
    keys: Rc<Keys>,
    r1: R1Log,
    hashes: VecDeque<[u8; 32]>,
    issued: u64,
    tables: BTreeMap<Key, Vec<Key>>,
    // the operation under way
    op: u64,
    label: String,
    parts: Vec<Part>,
    fee: Key,
    sent: u32,
    /// something went wrong on the network during it
    hurt: bool,
    /// the client's counter is known to match the ledger's
    sync: bool,
    /// whose wallet was opened, if the network was healthy then
    opened: Option<(Key, u32, Vec<u8>)>,
    /// the client still knows the role's authority
    informed: bool,
    other: Option<(Vec<Part>, Key)>,
    /// faults that are to happen next, in this order
    plan: VecDeque<&'static str>,
    late: Vec<Mail>,
    serial: u64,
    counted: bool,
    once: BTreeMap<u64, u32>,
    landed: BTreeMap<u64, u32>,
    faults: Vec<&'static str>,
    bad: Vec<String>,
    log: Vec<String>,
}
impl Cloud {
    fn new(w: World, keys: Rc<Keys>, fee: Key, rate: u64, r: &mut Rng) -> Cloud {
        Cloud {
            w,
            old: VecDeque::new(),
            r: Rng::new(r.u64()),
            rate,
            keys,
            r1: Rc::new(RefCell::new(vec![])),
            hashes: VecDeque::new(),
            issued: r.u64() >> 8,
            tables: BTreeMap::new(),
            op: 0,
            label: String::new(),
            parts: vec![],
            fee,
            sent: 0,
            hurt: false,
            sync: true,
            opened: None,
            informed: true,
            other: None,
            plan: VecDeque::new(),
            late: vec![],
            serial: 0,
            counted: false,
            once: BTreeMap::new(),
            landed: BTreeMap::new(),
            faults: vec![],
            bad: vec![],
            log: vec![],
        }
    }
    fn fault(&mut self, what: &'static str, num: u64) -> bool {
        let yes = if self.plan.front() == Some(&what) {
            self.plan.pop_front();
            true
        } else {
            self.rate > 0 && self.r.chance(self.rate * num, 10_000)
        };
        if yes {
            self.hurt = true;
            self.faults.push(what);
            self.log.push(format!("  fault: {what}"));
        }
        yes
    }
    fn by_hand(&mut self, parts: &[Part], fee: Key) -> (World, Tx, Res) {
        let mut w = self.w.clone();
        let keys = self.keys.clone();
        let tx = Signer { keys: &keys, w: &mut w }.assemble(parts.to_vec(), fee);
        let res = execute(&mut w, &tx, None, None).res;
        (w, tx, res)
    }
    /// Whether the role still has the authority the client was opened for.
    fn recheck(&mut self) {
        let Some((swig, id, auth)) = &self.opened else { return };
        let now = Swig::decode(self.w.data(swig)).ok().and_then(|s| s.roles.into_iter().find(|x| x.id == *id));
        self.informed &= now.is_some_and(|ro| lasting(&ro) == *auth);
    }
    fn remember(&mut self) {
        self.old.push_back(self.w.clone());
        if self.old.len() > 4 {
            self.old.pop_front();
        }
    }
    fn land(&mut self, mail: Mail, must: bool) -> bool {
        let log = std::mem::take(&mut *self.r1.borrow_mut());
        Rc::make_mut(&mut self.w.r1sigs).extend(log);
        let (hw, _, hres) = self.by_hand(&mail.parts, mail.fee);
        self.remember();
        let res = execute(&mut self.w, &mail.tx, None, None).res;
        self.log.push(format!("  lands: {res:?}; by hand: {hres:?}"));
        if res.is_err() {
            if must && hres.is_ok() {
                self.bad.push(format!("{}: the program refuses the client's transaction ({res:?})", self.label));
            }
            return false;
        }
        *self.landed.entry(mail.op).or_default() += 1;
        if let Some(n) = mail.serial {
            let e = self.once.entry(n).or_default();
            *e += 1;
            if *e > 1 {
                self.bad.push(format!("{}: a request retried by the same client is carried out again", self.label));
            }
        }
        if mail.parts.is_empty() {
            self.bad.push(format!("{}: the client sent a transaction nobody asked for", self.label));
        } else if hres.is_err() {
            // the hand-made request named accounts the client would not name
        } else if let Some(d) = differ(&hw, &self.w) {
            self.bad.push(format!("{}: other outcome than asked for: {d}", self.label));
        }
        true
    }
    /// Delayed transactions arrive.
    fn post(&mut self, all: bool) {
        let mut i = 0;
        while i < self.late.len() {
            if all || self.r.chance(1, 2) {
                let mail = self.late.remove(i);
                self.log.push("  a delayed transaction arrives".into());
                self.sync = false;
                self.land(mail, false);
            } else {
                i += 1;
            }
        }
    }
    fn resolve(&self, tx: &VersionedTransaction) -> Result<Tx, String> {
        let msg = match &tx.message {
            VersionedMessage::V0(x) => x.clone(),
            VersionedMessage::Legacy(x) => v0::Message {
                header: x.header,
                account_keys: x.account_keys.clone(),
                recent_blockhash: x.recent_blockhash,
                instructions: x.instructions.clone(),
                address_table_lookups: vec![],
            },
            #[allow(unreachable_patterns)]
            _ => return Err("unknown kind of message".into()),
        };
        let msg = &msg;
        let stat: Vec<Key> = msg.account_keys.iter().map(|k| k.to_bytes()).collect();
        let h = &msg.header;
        let (nsig, rs, ru) = (h.num_required_signatures as usize, h.num_readonly_signed_accounts as usize, h.num_readonly_unsigned_accounts as usize);
        let bytes = tx.message.serialize();
        if tx.signatures.len() != nsig {
            return Err("number of signatures".into());
        }
        for (s, k) in tx.signatures.iter().zip(&msg.account_keys) {
            if *s != digest(k, &bytes) {
                return Err("signature verification".into());
            }
        }
        let mut keys: Vec<(Key, bool, bool)> = stat.iter().enumerate().map(|(i, k)| (*k, i < nsig, if i < nsig { i < nsig - rs } else { i < stat.len() - ru })).collect();
        for w in [true, false] {
            for t in &msg.address_table_lookups {
                let list = self.tables.get(&t.account_key.to_bytes()).ok_or("unknown lookup table")?;
                for i in if w { &t.writable_indexes } else { &t.readonly_indexes } {
                    keys.push((*list.get(*i as usize).ok_or("lookup index")?, false, w));
                }
            }
        }
        let mut ixs = vec![];
        for c in &msg.instructions {
            let program = keys.get(c.program_id_index as usize).ok_or("program index")?.0;
            let mut metas = vec![];
            for a in &c.accounts {
                let (k, s, w) = *keys.get(*a as usize).ok_or("account index")?;
                metas.push(m(k, s, w));
            }
            ixs.push(Ix { program, metas, data: c.data.clone() });
        }
        let signers = stat[..nsig].iter().copied().collect();
        Ok(Tx { ixs, signers, payer: stat[0] })
    }
}
struct Wire(Rc<RefCell<Cloud>>);
impl Net for Wire {
    fn account(&mut self, key: &Pubkey) -> Result<Option<Account>, String> {
        let mut c = self.0.borrow_mut();
        if c.fault("read-error", 40) {
            return Err("connection reset".into());
        }
        let k = key.to_bytes();
        let w = if !c.old.is_empty() && c.fault("lagging-read", 20) {
            let n = c.old.len();
            let i = c.r.us(n);
            &c.old[i]
        } else {
            &c.w
        };
        Ok(w.peek(&k).map(|a| Account { lamports: a.lamports, data: a.data.clone(), owner: pk(&a.owner), executable: a.exec, rent_epoch: 0 }))
    }
    fn slot(&mut self) -> Result<u64, String> {
        let mut c = self.0.borrow_mut();
        if c.fault("slot-error", 15) {
            return Err("connection reset".into());
        }
        let mut s = c.w.slot;
        if c.fault("lagging-slot", 30) {
            s = s.saturating_sub(c.r.below(80));
        }
        Ok(s)
    }
    fn blockhash(&mut self) -> Result<Hash, String> {
        let mut c = self.0.borrow_mut();
        if c.fault("blockhash-error", 15) {
            return Err("connection reset".into());
        }
        c.issued += 1;
        let mut h = label_key("blockhash", c.issued);
        if c.fault("expired-blockhash", 15) {
            h[0] ^= 1;
        } else {
            c.hashes.push_back(h);
        }
        Ok(Hash::new_from_array(h))
    }
    fn send(&mut self, tx: VersionedTransaction) -> Result<Signature, String> {
        let mut c = self.0.borrow_mut();
        c.sent += 1;
        let t = match c.resolve(&tx) {
            Ok(t) => t,
            Err(e) => {
                let l = c.label.clone();
                c.bad.push(format!("{l}: malformed transaction: {e}"));
                return Err(e);
            },
        };
        let h = tx.message.recent_blockhash().to_bytes();
        if !c.hashes.contains(&h) {
            return Err("BlockhashNotFound".into());
        }
        if c.fault("lost-transaction", 40) {
            return Err("timeout".into());
        }
        let mail = Mail { tx: t, parts: c.parts.clone(), fee: c.fee, op: c.op, serial: c.counted.then_some(c.serial) };
        if c.fault("delayed-transaction", 40) {
            c.late.push(mail);
            c.sync = false;
            return Err("timeout".into());
        }
        if let Some((parts, fee)) = c.other.take() {
            let (w, _, res) = c.by_hand(&parts, fee);
            if res.is_ok() {
                c.remember();
                c.w = w;
                c.sync = false;
                c.recheck();
                c.faults.push("other-device");
                c.log.push("  another device's request lands first".into());
            }
        }
        let must = (c.sync || !c.counted) && c.informed && !c.hurt;
        if !c.land(mail, must) {
            return Err("custom program error".into());
        }
        if c.fault("lost-confirmation", 40) {
            c.sync = false;
            return Err("timeout".into());
        }
        if c.fault("duplicated-transaction", 20) {
            // the network drops a transaction it has already processed
            c.hurt = false;
        }
        Ok(tx.signatures[0])
    }
}

/// Signing keys outlive the run; there are only a few of them.
fn pair(k: &Key) -> &'static Keypair {
    thread_local!(static P: RefCell<BTreeMap<Key, &'static Keypair>> = RefCell::default());
    P.with(|p| *p.borrow_mut().entry(*k).or_insert_with(|| Box::leak(Box::new(Keypair::of(*k)))))
}

/// What a client calls a stored permission, and how it stores what it calls that.
fn perm(t: u16, d: &[u8]) -> Option<Permission> {
    let u = |o: usize| le64(&d[o..]);
    let k = |o: usize| Pubkey::new_from_array(d[o..o + 32].try_into().unwrap());
    let n = || le32(d);
    let rec = |w: usize, last: usize, cur: usize| Some(RecurringConfig { window: u(w), last_reset: u(last), current_amount: u(cur) });
    Some(match t {
        act::ALL => Permission::All,
        act::MANAGE => Permission::ManageAuthority,
        act::REPLACE => Permission::ReplaceAuthority { role_id: n() },
        act::SOL => Permission::Sol { amount: u(0), recurring: None },
        act::SOL_REC => Permission::Sol { amount: u(0), recurring: rec(8, 16, 24) },
        act::STAKE => Permission::Stake { amount: u(0), recurring: None },
        act::STAKE_REC => Permission::Stake { amount: u(0), recurring: rec(8, 16, 24) },
        act::STAKE_ALL => Permission::StakeAll,
        act::PROGRAM => Permission::Program { program_id: k(0) },
        act::PROG_ALL => Permission::ProgramAll,
        act::PROG_CUR => Permission::ProgramCurated,
        act::ALL_BUT => Permission::AllButManageAuthority,
        act::TOK => Permission::Token { mint: k(0), amount: u(32), recurring: None },
        act::TOK_REC => Permission::Token { mint: k(0), amount: u(40), recurring: rec(32, 56, 48) },
        act::SOL_DST => Permission::SolDestination { destination: k(0), amount: u(32), recurring: None },
        act::SOL_REC_DST => Permission::SolDestination { destination: k(0), amount: u(32), recurring: rec(40, 48, 56) },
        act::TOK_DST => Permission::TokenDestination { mint: k(0), destination: k(32), amount: u(64), recurring: None },
        act::TOK_REC_DST => Permission::TokenDestination { mint: k(0), destination: k(32), amount: u(64), recurring: rec(72, 80, 88) },
        act::SCOPE => Permission::ProgramScope {
            program_id: k(48),
            target_account: k(80),
            numeric_type: u(120),
            limit: (u(112) > 0).then(|| u(16)),
            window: (u(112) == 2).then(|| u(32)),
            balance_field_start: Some(u(128)),
            balance_field_end: Some(u(136)),
        },
        act::SUB => Permission::SubAccount { sub_account: d[..32].try_into().unwrap() },
        act::V2_CREATE => Permission::SubAccountV2Create,
        act::V2_ALL => Permission::SubAccountV2All { subacc_id: n() },
        act::V2_SIGN => Permission::SubAccountV2Sign { subacc_id: n() },
        act::V2_WITHDRAW => Permission::SubAccountV2Withdraw { subacc_id: n() },
        act::V2_TOGGLE => Permission::SubAccountV2Toggle { subacc_id: n() },
        _ => return None,
    })
}
/// The same permission as the client would store it afresh.
fn fresh(t: u16, d: &[u8]) -> Option<Vec<u8>> {
    let mut d = d.to_vec();
    let mut cp = |from: Option<usize>, to: usize| {
        let v = from.map(|o| d[o..o + 8].to_vec()).unwrap_or(vec![0; 8]);
        d[to..to + 8].copy_from_slice(&v);
    };
    match t {
        act::SOL_REC | act::STAKE_REC => {
            cp(None, 16);
            cp(Some(0), 24);
        },
        act::TOK_REC => {
            cp(None, 56);
            cp(Some(40), 48);
        },
        act::SOL_REC_DST => {
            cp(None, 48);
            cp(Some(32), 56);
        },
        act::TOK_REC_DST => {
            cp(None, 80);
            cp(Some(64), 88);
        },
        act::SCOPE => {
            for o in [0, 8, 24, 40] {
                cp(None, o);
            }
            match le64(&d[112..]) {
                0 => d[16..40].fill(0),
                1 => d[32..40].fill(0),
                2 => {},
                _ => return None,
            }
        },
        act::SUB => d[32..].fill(0),
        act::REPLACE | act::V2_ALL | act::V2_SIGN | act::V2_WITHDRAW | act::V2_TOGGLE => d[4..].fill(0),
        act::PROG_CUR => d.fill(0),
        act::CLOSE => return None,
        _ => {},
    }
    Some(d)
}
fn perms(v: &[(u16, Vec<u8>)]) -> Option<Vec<Permission>> {
    v.iter().map(|(t, d)| perm(*t, d)).collect()
}
/// Writes `list` back over the permission bytes of a request.
fn rewrite(d: &mut [u8], at: usize, list: &mut [(u16, Vec<u8>)]) -> Option<()> {
    let mut p = at;
    for (t, b) in list.iter_mut() {
        *b = fresh(*t, b)?;
        d.get_mut(p + 8..p + 8 + b.len())?.copy_from_slice(b);
        p += 8 + b.len();
    }
    (p == d.len()).then_some(())
}

/// A request the client can be asked for, with the hand-made equivalent.
#[derive(Clone)]
struct Job {
    want: Want,
    parts: Vec<Part>,
    wl: Wal,
    role: u32,
    fee: Key,
    /// the key the client is given beside the payer's
    auth: Option<Key>,
    pre: Option<Ix>,
    label: String,
}
impl Job {
    /// Signatures of the role are counted.
    fn counted(&self, ro: &Role) -> bool {
        matches!(ro.aty, aty::K1 | aty::R1) || (matches!(ro.aty, aty::K1_S | aty::R1_S) && matches!(self.want, Want::Session(..)))
    }
}
fn job(w: &World, wallets: &[Wal], keys: &Keys, part: &Part, r: &mut Rng) -> Option<Job> {
    let (mut data, metas, call) = match part {
        Part::Raw(i) if i.program == ids().swig && i.data.starts_with(&[0, 0]) => (i.data.clone(), i.metas.clone(), None),
        Part::Call(c) if c.twist == Twist::None => (c.data.clone(), c.metas.clone(), Some(c)),
        _ => return None,
    };
    let ix = Ix { program: ids().swig, metas: metas.clone(), data: data.clone() };
    let (mut want, named) = decode(&ix, w)?;
    let ok = |k: &Key| !metas.iter().any(|x| x.key == *k && !(x.signer && x.writable));
    let fee = match named {
        Some(k) => k,
        None => [payer(r.below(2)), payer(1), payer(0), payer(2)].into_iter().find(ok)?,
    };
    if !ok(&fee) {
        return None;
    }
    let Some(call) = call else {
        let Want::Create { id, aty: t, auth, acts, .. } = &mut want else { return None };
        *acts = vec![(act::ALL, vec![])];
        data.truncate(40 + auth.len());
        data.extend(encode_acts(&[Act::new(act::ALL, vec![])]));
        let wl = Sim::addresses(id);
        if metas[0].key != wl.swig || *t == aty::PX_S {
            return None;
        }
        let label = format!("create wallet of type {t}");
        return Some(Job { parts: vec![Part::Raw(Ix { program: ids().swig, metas, data })], want, wl, role: 0, fee, auth: None, pre: None, label });
    };
    let wl = wallets.iter().find(|x| x.swig == call.swig)?.clone();
    let sw = Swig::decode(w.data(&wl.swig)).ok()?;
    let ro = sw.roles.iter().find(|x| x.id == call.role)?;
    if sw.id != wl.id || ro.aty == aty::PX_S || ro.session() && call.root != matches!(want, Want::Session(..)) {
        return None;
    }
    let px = ro.aty == aty::PX;
    let mut parts = vec![];
    match &mut want {
        Want::Add { auth, acts, .. } => {
            let at = 16 + auth.len();
            rewrite(&mut data, at, acts)?;
        },
        Want::Update(_, Change::All(l)) => rewrite(&mut data, 17, l)?,
        Want::Update(_, Change::Add(l)) => rewrite(&mut data, 17, l)?,
        Want::Update(_, Change::Types(l)) => {
            for t in l {
                perm(*t as u16, &[0; 144])?;
            }
        },
        Want::Update(..) | Want::Session(..) => {},
        Want::Remove(t) => {
            let x = sw.roles.iter().find(|x| x.id == *t)?;
            if *t == call.role || sw.roles.iter().find(|y| same(x, y))?.id != *t || matches!(x.aty, aty::PX | aty::PX_S) {
                return None;
            }
        },
        Want::Sub1Create { sub, .. } | Want::Sub1Sign { sub, .. } => {
            if *sub != sub1_pda(&wl.id, call.role)?.0 {
                return None;
            }
        },
        Want::Sub1Withdraw { .. } | Want::Sub1Toggle { .. } => {},
        Want::Claimer(_) if px => return None,
        Want::Claimer(_) => {},
        Want::Sub2Create { st, sub, .. } => {
            let n = sw.sub_counter();
            if px || *st != st2_pda(&wl.id, n)?.0 || *sub != as2_pda(&wl.id, n)?.0 {
                return None;
            }
        },
        Want::Sub2Sign { st, sub, n, .. } | Want::Sub2Withdraw { st, sub, n, .. } => {
            if px || *st != st2_pda(&wl.id, *n)?.0 || *sub != as2_pda(&wl.id, *n)?.0 {
                return None;
            }
        },
        Want::Sub2Toggle { st, n, .. } => {
            if px || *st != st2_pda(&wl.id, *n)?.0 {
                return None;
            }
        },
        Want::Sign(list) => {
            if metas.get(1)?.key != wl.wal || list.is_empty() {
                return None;
            }
            let twice = |x: &Ix| (0..x.metas.len()).any(|i| x.metas[..i].iter().any(|y| y.key == x.metas[i].key));
            if list.iter().any(twice) || metas.iter().enumerate().any(|(i, x)| metas[..i].iter().any(|y| y.key == x.key) && w.owner(&x.key) != SYS) {
                return None;
            }
            for (i, x) in list.iter().enumerate() {
                let (metas, data) = sign_data(&wl, call.role, std::slice::from_ref(x), &[]);
                let n = data.len();
                parts.push(Part::Call(Call { metas, data, signed: (8, n), seed: call.seed ^ i as u64, ..call.clone() }));
            }
        },
        _ => return None,
    }
    if parts.is_empty() {
        parts.push(Part::Call(Call { data, metas, ..call.clone() }));
    }
    let mut w1 = w.clone();
    let hand = Signer { keys, w: &mut w1 }.assemble(parts.clone(), fee);
    let by = acting(call, ro);
    let mut pre = None;
    let auth = match &by {
        Some(By::Ed(k)) => Some(*k),
        Some(_) => None,
        None => {
            let at = hand.ixs.iter().position(|i| i.program == ids().swig)?;
            let mut p = hand.ixs[..at].iter().find(|i| i.program[..] == ro.auth[..32])?.clone();
            p.metas.get_mut(1)?.key = match &want {
                Want::Sign(_) => wl.wal,
                Want::Sub1Sign { sub, .. } => *sub,
                _ => named?,
            };
            pre = Some(p);
            None
        },
    };
    if hand.signers.iter().any(|k| *k != fee && Some(*k) != auth) {
        return None;
    }
    let label = format!("{} by {}{}", want.name(), by.map(|b| b.name()).unwrap_or("program call"), if ro.session() { ", session" } else { "" });
    Some(Job { want, parts, wl, role: call.role, fee, auth, pre, label })
}
/// Two roles a client cannot tell apart by identity.
fn same(a: &Role, b: &Role) -> bool {
    let n = |r: &Role| match r.aty {
        aty::ED | aty::ED_S => r.auth[..32].to_vec(),
        aty::PX | aty::PX_S => r.auth[..33].iter().chain(&r.auth[40..40 + r.auth[32] as usize]).copied().collect(),
        _ => r.auth[..33].to_vec(),
    };
    n(a) == n(b)
}

/// What of a role's authority signing does not change.
fn lasting(ro: &Role) -> Vec<u8> {
    if !matches!(ro.aty, aty::K1 | aty::R1) {
        return ro.auth.clone();
    }
    ro.auth.iter().take(33).copied().collect()
}
fn client_role(ro: &Role, keys: &Rc<Keys>, log: &R1Log, pre: &Option<Ix>, r: &mut Rng) -> Option<Box<dyn ClientRole>> {
    let k1 = |r: &mut Rng| -> Option<([u8; 64], Vec<u8>, Box<dyn Fn(&[u8]) -> [u8; 65]>)> {
        let c: [u8; 33] = ro.auth[..33].try_into().unwrap();
        let full = keys.k1.get(&c)?.1;
        let mut v = full.to_vec();
        if r.chance(1, 2) {
            v.insert(0, 4);
        }
        let ks = keys.clone();
        Some((full, v, Box::new(move |h: &[u8]| k1_sign(&ks, &c, h))))
    };
    let r1 = || -> ([u8; 33], Box<dyn Fn(&[u8]) -> [u8; 64]>) {
        let c: [u8; 33] = ro.auth[..33].try_into().unwrap();
        let log = log.clone();
        let f = move |h: &[u8]| {
            let s = r1_sig(&c, h);
            log.borrow_mut().push((c.to_vec(), h.to_vec(), s.clone()));
            s.try_into().unwrap()
        };
        (c, Box::new(f))
    };
    Some(match ro.aty {
        aty::ED => Box::new(Ed25519ClientRole::new(Pubkey::try_from(&ro.auth[..32]).unwrap())),
        aty::ED_S => Box::new(Ed25519SessionClientRole::new(CreateEd25519SessionAuthority::new(ro.auth[..32].try_into().unwrap(), ro.session_key(), ro.session_max()))),
        aty::K1 => {
            let (_, v, f) = k1(r)?;
            Box::new(Secp256k1ClientRole::new(v.into_boxed_slice(), f))
        },
        aty::K1_S => {
            let (full, _, f) = k1(r)?;
            Box::new(Secp256k1SessionClientRole::new(CreateSecp256k1SessionAuthority::new(full, ro.session_key(), ro.session_max()), f))
        },
        aty::R1 => {
            let (c, f) = r1();
            Box::new(Secp256r1ClientRole::new(c, f))
        },
        aty::R1_S => {
            let (c, f) = r1();
            Box::new(Secp256r1SessionClientRole::new(CreateSecp256r1SessionAuthority::new(c, ro.session_key(), ro.session_max()), f))
        },
        aty::PX => {
            let n = ro.auth[32] as usize;
            let p: Instruction = pre.as_ref().map(ins).unwrap_or(Instruction { program_id: Pubkey::try_from(&ro.auth[..32]).unwrap(), accounts: vec![], data: vec![] });
            Box::new(ProgramExecClientRole::new(Pubkey::try_from(&ro.auth[..32]).unwrap(), ro.auth[40..40 + n].to_vec(), move || p.clone()))
        },
        _ => return None,
    })
}
/// The role a creation request would store.
fn founder(t: u16, a: &[u8], keys: &Keys) -> Option<Role> {
    let mut auth = vec![0; crate::layout::auth_len(t)?];
    let (body, rest) = match t {
        aty::ED => (a.get(..32)?.to_vec(), &a[32..]),
        aty::ED_S => (a.get(..32)?.to_vec(), &a[32..]),
        aty::K1 | aty::K1_S => {
            let c = keys.k1pub.iter().find(|x| Some(&x.1[..]) == a.get(..64))?.0;
            (c.to_vec(), &a[64..])
        },
        aty::R1 => (a.get(..33)?.to_vec(), &a[33..]),
        aty::R1_S => (a.get(..33)?.to_vec(), a.get(40..)?),
        aty::PX => (a.get(..80)?.to_vec(), &a[80..]),
        _ => return None,
    };
    auth[..body.len()].copy_from_slice(&body);
    if crate::layout::is_session(t) {
        let o = crate::layout::session_off(t);
        auth[o..o + 40].copy_from_slice(rest.get(..40)?);
        if rest.len() != 40 {
            return None;
        }
    } else if !rest.is_empty() {
        return None;
    }
    if t == aty::PX && (auth[32] as usize > 40 || auth[33..40] != [0; 7] || auth[40 + auth[32] as usize..].iter().any(|b| *b != 0)) {
        return None;
    }
    Some(Role { id: 0, aty: t, auth, acts: vec![Act::new(act::ALL, vec![])] })
}

pub type Wallet = SwigWallet<'static>;
/// What `f` writes to standard output.
fn printed<T>(f: impl FnOnce() -> T) -> (T, String) {
    use std::io::{Read, Seek, Write};
    use std::os::fd::FromRawFd;
    let _ = std::io::stdout().flush();
    let (old, file) = unsafe { (libc::dup(1), libc::memfd_create(c"printed".as_ptr(), 0)) };
    if old < 0 || file < 0 {
        return (f(), String::new());
    }
    unsafe { libc::dup2(file, 1) };
    let x = f();
    let _ = std::io::stdout().flush();
    unsafe {
        libc::dup2(old, 1);
        libc::close(old);
    }
    let mut file = unsafe { std::fs::File::from_raw_fd(file) };
    let mut text = vec![];
    let _ = file.rewind();
    let _ = file.read_to_end(&mut text);
    (x, String::from_utf8_lossy(&text).into_owned())
}
fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
/// Asks the client. None: it has no such request.
fn ask(c: &mut Wallet, job: &Job, alt: Option<&[AddressLookupTableAccount]>) -> Option<Result<Option<u32>, SwigError>> {
    let p = |v: &[(u16, Vec<u8>)]| perms(v);
    let done = |x: Result<Signature, SwigError>| Some(x.map(|_| None));
    let list = |v: &[Ix]| -> Vec<Instruction> { v.iter().map(ins).collect() };
    match &job.want {
        Want::Add { aty, auth, acts } => done(c.add_authority(AuthorityType::try_from(*aty).ok()?, auth, p(acts)?)),
        Want::Remove(_) => None,
        Want::Update(t, ch) => {
            let u = match ch {
                Change::All(v) => UpdateAuthorityData::ReplaceAll(p(v)?),
                Change::Add(v) => UpdateAuthorityData::AddActions(p(v)?),
                Change::Types(v) => UpdateAuthorityData::RemoveActionsByType(v.iter().map(|t| perm(*t as u16, &[0; 144])).collect::<Option<_>>()?),
                Change::Indices(v) => UpdateAuthorityData::RemoveActionsByIndex(v.clone()),
            };
            done(c.update_authority(*t, u))
        },
        Want::Session(k, n) => Some(c.create_session(pk(k), *n).map(|_| None)),
        Want::Sign(v) => done(c.sign_v2(list(v), alt)),
        Want::Sub1Create { .. } => done(c.create_sub_account()),
        Want::Sub1Withdraw { sub, amount, tok: None } => done(c.withdraw_from_sub_account(pk(sub), *amount)),
        Want::Sub1Withdraw { sub, amount, tok: Some(t) } => done(c.withdraw_token_from_sub_account(pk(sub), pk(&t[0]), pk(&t[1]), pk(&t[2]), *amount)),
        Want::Sub1Sign { ixs, .. } => done(c.sign_with_sub_account(list(ixs), alt)),
        Want::Sub1Toggle { sub, of, on } => done(c.toggle_sub_account(pk(sub), job.role, *of, *on)),
        Want::Claimer(k) => done(c.set_rent_claimer(pk(k))),
        Want::Sub2Create { .. } => Some(c.create_sub_account_v2().map(|x| Some(x.1))),
        Want::Sub2Toggle { n, on, .. } => done(c.toggle_sub_account_v2(*n, *on)),
        Want::Sub2Sign { n, ixs, .. } => done(c.sign_with_sub_account_v2(*n, list(ixs), alt)),
        Want::Sub2Withdraw { n, amount, tok: None, .. } => done(c.withdraw_from_sub_account_v2(*n, *amount)),
        Want::Sub2Withdraw { n, amount, tok: Some(t), .. } => done(c.withdraw_token_from_sub_account_v2(*n, pk(&t[0]), pk(&t[1]), pk(&t[2]), *amount)),
        _ => None,
    }
}
fn names(v: &[Permission]) -> Vec<String> {
    let mut v: Vec<String> = v.iter().map(|x| format!("{x:?}")).collect();
    v.sort();
    v
}
fn expected(ro: &Role) -> Vec<String> {
    // of a kind that names nothing in particular only the first entry counts
    let single = |t: u16| matches!(t, act::ALL | act::MANAGE | act::SOL | act::SOL_REC | act::STAKE | act::STAKE_REC | act::STAKE_ALL | act::PROG_ALL | act::PROG_CUR | act::ALL_BUT | act::V2_CREATE);
    let list = ro.acts.iter().enumerate().filter(|(i, a)| !single(a.ty) || !ro.acts[..*i].iter().any(|b| b.ty == a.ty));
    names(&list.filter_map(|(_, a)| perm(a.ty, &a.d)).collect::<Vec<_>>())
}

struct Run<'a> {
    net: Rc<RefCell<Cloud>>,
    keys: Rc<Keys>,
    r: &'a mut Rng,
    tried: u64,
    done: u64,
    labels: Vec<String>,
}
impl Run<'_> {
    fn bad(&mut self, s: String) {
        self.net.borrow_mut().bad.push(s);
    }
    fn say(&mut self, s: String) {
        self.net.borrow_mut().log.push(s);
    }
    fn role(&self, wl: &Wal, id: u32) -> Option<Role> {
        Swig::decode(self.net.borrow().w.data(&wl.swig)).ok()?.roles.into_iter().find(|x| x.id == id)
    }
    fn begin(&mut self, label: &str, parts: &[Part], fee: Key) {
        let mut c = self.net.borrow_mut();
        c.op += 1;
        c.label = label.into();
        c.parts = parts.to_vec();
        c.fee = fee;
        c.sent = 0;
        c.hurt = false;
        c.counted = false;
        let slots = [0, 0, 1, 3, 40];
        c.w.slot += *self.r.pick(&slots);
        c.log.push(format!("{label}"));
    }
    /// Opens the wallet for the job's role. None with nothing on record: the network's fault.
    fn open(&mut self, job: &Job) -> Option<Wallet> {
        let ro = self.role(&job.wl, job.role)?;
        self.begin(&format!("open wallet for role of type {}", ro.aty), &[], job.fee);
        {
            let mut n = self.net.borrow_mut();
            n.sync = true;
            n.opened = None;
            n.serial += 1;
        }
        let log = self.net.borrow().r1.clone();
        let cr = client_role(&ro, &self.keys, &log, &job.pre, self.r)?;
        let auth = job.auth.filter(|k| *k != job.fee || self.r.chance(1, 2)).map(|k| pair(&k));
        let res = guarded(|| SwigWallet::new(job.wl.id, cr, pair(&job.fee), "sim".into(), auth));
        let hurt = self.net.borrow().hurt;
        let mut c = match res {
            None => {
                self.bad(format!("opening a wallet for a role of type {} panicked", ro.aty));
                return None;
            },
            Some(Ok(c)) => c,
            Some(Err(e)) => {
                if !hurt {
                    self.bad(format!("the client cannot open the wallet for its role of type {}: {e}", ro.aty));
                }
                return None;
            },
        };
        if hurt {
            self.net.borrow_mut().sync = false;
        }
        let at = c.get_current_role_id().ok()?;
        if at != job.role {
            let found = self.role(&job.wl, at);
            if !hurt && !found.is_some_and(|x| same(&x, &ro)) {
                self.bad(format!("the client opened role {at} for the authority of role {}", job.role));
                return None;
            }
            return self.switch(&mut c, job).then_some(c);
        }
        {
            let mut n = self.net.borrow_mut();
            n.opened = (!n.hurt).then(|| (job.wl.swig, ro.id, lasting(&ro)));
        }
        Some(c)
    }
    /// Makes an open client act for the job's role.
    fn switch(&mut self, c: &mut Wallet, job: &Job) -> bool {
        let Some(ro) = self.role(&job.wl, job.role) else { return false };
        let log = self.net.borrow().r1.clone();
        self.begin(&format!("switch to role of type {}", ro.aty), &[], job.fee);
        let Some(cr) = client_role(&ro, &self.keys, &log, &job.pre, self.r) else { return false };
        {
            let mut n = self.net.borrow_mut();
            n.opened = None;
            n.serial += 1;
        }
        if c.get_fee_payer() != pk(&job.fee) {
            let _ = c.switch_payer(pair(&job.fee));
        }
        let old = c.get_current_role_id().ok();
        let auth = job.auth.filter(|k| *k != job.fee || self.r.chance(1, 2)).map(|k| pair(&k));
        let was = c.get_current_permissions().map(names).unwrap_or_default();
        let res = guarded(|| c.switch_authority(job.role, cr, auth));
        let hurt = self.net.borrow().hurt;
        let now = (c.get_current_role_id().ok(), c.get_current_permissions().map(names).unwrap_or_default());
        match res {
            None => self.bad("switching authority panicked".into()),
            Some(Err(e)) => {
                if !hurt {
                    self.bad(format!("the client cannot switch to a role of type {}: {e}", ro.aty));
                } else if now.0 != old && now.1 == was && was != expected(&ro) {
                    self.bad(format!("after a failed switch the client acts for role {:?} with the permissions of role {old:?}", now.0));
                }
            },
            Some(Ok(())) => {
                if !hurt && now != (Some(job.role), expected(&ro)) {
                    self.bad(format!("after switching to role {} the client acts for role {:?} with permissions {:?}", job.role, now.0, now.1));
                }
                let mut n = self.net.borrow_mut();
                n.sync = !n.hurt;
                n.opened = (!n.hurt).then(|| (job.wl.swig, ro.id, lasting(&ro)));
                return true;
            },
        }
        false
    }
    /// One operation; true if it was carried out and confirmed.
    fn step(&mut self, c: &mut Wallet, job: &Job) -> bool {
        let Some(ro) = self.role(&job.wl, job.role) else { return false };
        self.begin(&job.label, &job.parts, job.fee);
        {
            let mut n = self.net.borrow_mut();
            n.counted = job.counted(&ro);
            n.informed = n.opened.as_ref().is_some_and(|(k, id, _)| *k == job.wl.swig && *id == ro.id);
            n.recheck();
        }
        if c.get_fee_payer() != pk(&job.fee) {
            let _ = c.switch_payer(pair(&job.fee));
        }
        let before = self.net.borrow().w.clone();
        let op = self.net.borrow().op;
        let hand = self.net.borrow_mut().by_hand(&job.parts, job.fee).2.is_ok();
        let alt = self.table(job);
        let counter = Swig::decode(before.data(&job.wl.swig)).map(|s| s.sub_counter()).unwrap_or(0);
        self.tried += 1;
        let res = guarded(|| match &job.want {
            Want::Remove(t) => {
                let x = self.role(&job.wl, *t)?;
                let mut id = match x.aty {
                    aty::ED | aty::ED_S => x.auth[..32].to_vec(),
                    _ => x.auth[..33].to_vec(),
                };
                if let (Some((_, full)), true) = (x.auth.get(..33).filter(|_| matches!(x.aty, aty::K1 | aty::K1_S)).and_then(|k| k.try_into().ok()).and_then(|k: [u8; 33]| self.keys.k1.get(&k)), self.r.chance(1, 2)) {
                    id = full.to_vec();
                }
                Some(c.remove_authority(&id).map(|_| None))
            },
            _ => ask(c, job, alt.as_deref()),
        });
        let (sent, hurt, sync, informed, landed) = {
            let n = self.net.borrow();
            (n.sent, n.hurt, n.sync, n.informed, n.landed.get(&op).copied().unwrap_or(0))
        };
        let res = match res {
            None => {
                self.bad(format!("{}: the client panicked", job.label));
                return false;
            },
            Some(None) => return false,
            Some(Some(x)) => x,
        };
        self.say(format!("  client: {:?}", res.as_ref().map_err(|e| e.to_string())));
        if landed > 1 {
            self.bad(format!("{}: carried out {landed} times", job.label));
        }
        match res {
            Ok(id) => {
                self.net.borrow_mut().serial += 1;
                if landed == 0 {
                    self.bad(format!("{}: reported as done, but never carried out", job.label));
                }
                if let Some(n) = id.filter(|n| !hurt && *n != counter) {
                    self.bad(format!("{}: reports sub-account {n} instead of {counter}", job.label));
                }
                self.done += 1;
                self.labels.push(job.label.clone());
                if !hurt {
                    self.after(c, job, sync);
                }
                landed == 1
            },
            Err(e) => {
                if hand && informed && (sync || !job.counted(&ro)) && !hurt && self.net.borrow().other.is_none() {
                    if landed > 0 {
                        self.bad(format!("{}: carried out, but reported as failed: {e}", job.label));
                    } else if sent == 0 {
                        self.bad(format!("{}: the client refuses: {e}", job.label));
                    }
                }
                if landed > 0 {
                    self.net.borrow_mut().sync = false;
                }
                false
            },
        }
    }
    fn table(&mut self, job: &Job) -> Option<Vec<AddressLookupTableAccount>> {
        let list: &[Ix] = match &job.want {
            Want::Sign(v) | Want::Sub1Sign { ixs: v, .. } | Want::Sub2Sign { ixs: v, .. } => v,
            _ => return None,
        };
        if !self.r.chance(1, 4) {
            return None;
        }
        let mut keys: Vec<Key> = list.iter().flat_map(|i| i.metas.iter().map(|x| x.key).chain([i.program])).chain([job.wl.swig, job.wl.wal]).collect();
        keys.retain(|_| self.r.chance(2, 3));
        let key = label_key("table", self.r.below(4));
        let addresses = keys.iter().map(pk).collect();
        self.net.borrow_mut().tables.insert(key, keys);
        Some(vec![AddressLookupTableAccount { key: pk(&key), addresses }])
    }
    /// What the client says about the wallet after an operation on a healthy network.
    fn after(&mut self, c: &mut Wallet, job: &Job, sync: bool) {
        let w = self.net.borrow().w.clone();
        let Ok(sw) = Swig::decode(w.data(&job.wl.swig)) else { return };
        let Some(ro) = sw.roles.iter().find(|x| x.id == job.role) else { return };
        if !matches!(job.want, Want::Add { .. } | Want::Session(..) | Want::Claimer(_)) {
            let got = c.get_current_permissions().map(names).unwrap_or_default();
            if got != expected(ro) {
                let want = expected(ro);
                let extra: Vec<_> = got.iter().filter(|x| !want.contains(x)).collect();
                let missing: Vec<_> = want.iter().filter(|x| !got.contains(x)).collect();
                self.bad(format!("{}: the client's view of its permissions: {extra:?} instead of {missing:?} of {}", job.label, want.len()));
            }
        }
        if sync && matches!(ro.aty, 3..=6) {
            let got = c.get_odometer().ok();
            if got != Some(ro.odometer()) {
                self.bad(format!("{}: the client counts {got:?} signatures instead of {}", job.label, ro.odometer()));
            }
        }
    }
    /// What the client reads. Under faults an error or the truth.
    fn read(&mut self, c: &Wallet, wl: &Wal) {
        self.begin("read", &[], payer(0));
        let w = self.net.borrow().w.clone();
        let Ok(sw) = Swig::decode(w.data(&wl.swig)) else { return };
        let net = self.net.clone();
        let mut out: Vec<String> = vec![];
        let mut see = |what: &str, got: Result<String, String>, want: String| {
            let hurt = {
                let mut n = net.borrow_mut();
                std::mem::take(&mut n.hurt)
            };
            let lag = matches!(net.borrow().faults.last(), Some(&"lagging-read" | &"lagging-slot"));
            match got {
                Err(e) if !hurt => out.push(format!("reading {what}: {e}")),
                Ok(g) if g != want && !(hurt && lag) => out.push(format!("reading {what}: {g} instead of {want}")),
                _ => {},
            }
        };
        fn s<T: std::fmt::Debug>(x: Result<T, SwigError>) -> Result<String, String> {
            x.map(|v| format!("{v:?}")).map_err(|e| e.to_string())
        }
        see("wallet address", s(c.get_swig_wallet_address()), format!("{:?}", pk(&wl.wal)));
        see("wallet account", s(c.get_swig_account()), format!("{:?}", pk(&wl.swig)));
        see("balance", s(c.get_balance()), format!("{:?}", w.lamports(&wl.swig)));
        see("sub-account counter", s(c.get_sub_account_v2_counter()), format!("{:?}", sw.sub_counter()));
        for x in &sw.roles {
            if matches!(x.aty, aty::PX_S) {
                continue;
            }
            see("authority type", s(c.get_authority_type(x.id).map(|t| t as u16)), format!("{:?}", x.aty));
            see("session", s(c.is_session_based(x.id)), format!("{:?}", x.session()));
            see("permissions", s(c.get_role_permissions(x.id).map(|v| names(&v))), format!("{:?}", expected(x)));
            let idn = match x.aty {
                aty::ED | aty::ED_S => &x.auth[..32],
                aty::PX => continue,
                _ => &x.auth[..33],
            };
            see("identity", s(c.get_authority_identity(x.id)), format!("{idn:?}"));
            let first = sw.roles.iter().find(|y| same(x, y)).unwrap().id;
            see("role id", s(c.get_role_id(idn)), format!("{first:?}"));
            see("authority", s(c.authenticate_authority(idn)), "()".into());
            let text = match x.aty {
                aty::ED | aty::ED_S => Some(Pubkey::try_from(idn).unwrap().to_string()),
                aty::R1 | aty::R1_S => Some(format!("0x{}", idn.iter().map(|b| format!("{b:02x}")).collect::<String>())),
                _ => None,
            };
            if let Some(t) = text {
                see("authority's address", s(c.get_formatted_authority_address(x.id)), format!("{t:?}"));
            }
            let told = expected(x);
            for p in x.acts.iter().filter_map(|a| perm(a.ty, &a.d)).filter(|p| told.contains(&format!("{p:?}"))).take(2) {
                see("permission", s(c.role_has_permission(x.id, &p)), "true".into());
            }
        }
        let mine = c.get_current_permissions().unwrap_or_default();
        see("full permission", s(c.has_all_permissions()), format!("{:?}", mine.contains(&Permission::All)));
        see("management permission", s(c.can_manage_authority()), format!("{:?}", mine.contains(&Permission::ManageAuthority)));
        let sol = mine.iter().find_map(|p| if let Permission::Sol { amount, recurring } = p { Some((*amount, recurring.clone())) } else { None });
        see("SOL limit", s(c.get_sol_limit()), format!("{:?}", sol.as_ref().map(|x| x.0)));
        see("recurring SOL limit", s(c.get_recurring_sol_limit()), format!("{:?}", mine.iter().find_map(|p| if let Permission::Sol { recurring: Some(x), .. } = p { Some(x.clone()) } else { None })));
        let mut sums = vec![0, 1, u64::MAX];
        for p in mine {
            if let Permission::Sol { amount, recurring } = p {
                let left = recurring.as_ref().map_or(*amount, |x| x.current_amount);
                sums.extend([*amount, left, amount.saturating_add(1), left.saturating_add(1)]);
            }
        }
        for v in sums {
            let can = mine.iter().any(|p| match p {
                Permission::All | Permission::AllButManageAuthority => true,
                Permission::Sol { amount, recurring: None } => v <= *amount,
                Permission::Sol { amount, recurring: Some(x) } => v <= x.current_amount || v <= *amount && w.slot.saturating_sub(x.last_reset) > x.window,
                _ => false,
            });
            see("what it can spend", s(c.can_spend_sol(v)), format!("{can:?}"));
        }
        see("number of roles made", s(c.get_role_count()), format!("{:?}", sw.counter));
        see("wallet id", Ok(format!("{:?}", c.get_swig_id())), format!("{:?}", wl.id));
        for p in mine {
            see("own permission", s(c.has_permission(p)), "true".into());
        }
        if let Ok(at) = c.get_current_role_id() {
            let (k, _) = sub1_pda(&wl.id, at).unwrap();
            let want = w.peek(&k).map(|_| pk(&k));
            see("sub-account", s(c.get_sub_account()), format!("{want:?}"));
        }
        let n = self.r.below(sw.sub_counter() as u64 + 1) as u32;
        let (st, a) = (st2_pda(&wl.id, n).unwrap().0, as2_pda(&wl.id, n).unwrap().0);
        if w.peek(&st).is_none() || w.owner(&st) == ids().swig {
            let want = w.peek(&st).map(|_| pk(&a));
            see("sub-account v2", s(c.get_sub_account_v2(n)), format!("{want:?}"));
        }
        drop(see);
        for b in out {
            self.bad(b);
        }
        if self.r.chance(1, 3) {
            self.show(c, wl, &sw);
        }
    }
    /// What the client prints about the wallet.
    fn show(&mut self, c: &Wallet, wl: &Wal, sw: &Swig) {
        let (res, text) = printed(|| guarded(|| c.display_swig()));
        let (hurt, lag) = {
            let mut n = self.net.borrow_mut();
            (std::mem::take(&mut n.hurt), n.faults.last() == Some(&"lagging-read"))
        };
        match res {
            None => return self.bad("printing the wallet: the client panicked".into()),
            Some(Err(e)) if !hurt => return self.bad(format!("printing the wallet: {e}")),
            Some(Ok(())) if !(hurt && lag) => {},
            _ => return,
        }
        let after = |what: &'static str| text.lines().filter_map(|l| l.split_once(what).map(|x| x.1.trim().to_string())).collect::<Vec<_>>();
        let bal = self.net.borrow().w.lamports(&wl.swig) as f64 / 1e9;
        let mut pairs = vec![
            ("address", after("Account Address:"), vec![pk(&wl.swig).to_string()]),
            ("balance", after("Balance:"), vec![format!("{bal} SOL")]),
            ("roles", after("║ Role ID:"), sw.roles.iter().map(|x| x.id.to_string()).collect()),
            ("sessions", after("├─ Type:").into_iter().map(|x| x.starts_with("Session").to_string()).collect(), sw.roles.iter().map(|x| x.session().to_string()).collect()),
            ("full access", after("├─ Full Access"), vec![]),
            ("manage authority", after("├─ Manage Authority"), vec![]),
        ];
        // per permission: the amounts and what they are for
        let amounts = after("Amount:");
        let mut want = vec![];
        let (mut full, mut manage) = (0, 0);
        for x in &sw.roles {
            full += x.acts.iter().any(|a| a.ty == act::ALL) as usize;
            manage += x.acts.iter().any(|a| a.ty == act::MANAGE) as usize;
            let u = |a: &Act, o: usize| le64(&a.d[o..]);
            let of = |t: u16| x.acts.iter().filter(move |a| a.ty == t);
            let sol = |v: u64| format!("{} SOL", v as f64 / 1e9);
            want.extend(of(act::SOL_REC).take(1).map(|a| sol(u(a, 0))));
            want.extend(of(act::TOK).map(|a| format!("{} tokens", u(a, 32))));
            want.extend(of(act::TOK_REC).map(|a| format!("{} tokens", u(a, 40))));
            want.extend(of(act::SOL_DST).map(|a| sol(u(a, 32))));
            want.extend(of(act::SOL_REC_DST).map(|a| sol(u(a, 32))));
            want.extend(of(act::TOK_DST).map(|a| format!("{} tokens", u(a, 64))));
            want.extend(of(act::TOK_REC_DST).map(|a| format!("{} tokens", u(a, 64))));
        }
        pairs[4].2 = vec![" (All Permissions)".trim().to_string(); full];
        pairs[5].2 = vec![String::new(); manage];
        pairs.push(("amounts", amounts, want));
        let scopes: Vec<&Act> = sw.roles.iter().flat_map(|x| x.acts.iter()).filter(|a| a.ty == act::SCOPE).collect();
        let u = |a: &Act, o: usize| le64(&a.d[o..]) as usize;
        let name = |n: usize, v: &[&str]| v.get(n).unwrap_or(&"Unknown").to_string();
        pairs.push(("scope types", after("├─ Scope Type:"), scopes.iter().map(|a| name(u(a, 112), &["Basic", "Limit", "Recurring Limit"])).collect()));
        pairs.push(("number types", after("├─ Numeric Type:"), scopes.iter().map(|a| name(u(a, 120), &["U8", "U32", "U64", "U128"])).collect()));
        pairs.push(("scope targets", after("├─ Target Account:"), scopes.iter().map(|a| pk(&a.key(80)).to_string()).collect()));
        let limits = scopes.iter().filter(|a| u(a, 112) > 0).map(|a| u128::from_le_bytes(a.d[16..32].try_into().unwrap()).to_string()).collect();
        pairs.push(("scope limits", after("│  ├─ Limit:"), limits));
        for (what, got, want) in pairs {
            if got != want {
                return self.bad(format!("printing the wallet: {what}: {got:?} instead of {want:?}"));
            }
        }
    }
    /// The client opens a token account for the wallet.
    fn account(&mut self, c: &mut Wallet, job: &Job) {
        let fee = c.get_fee_payer().to_bytes();
        if fee != job.fee && fee != job.auth.unwrap_or(job.fee) {
            return self.bad(format!("{}: the client pays from another account", job.label));
        }
        let mint = mint(self.r.below(3));
        let program = b58(crate::native::ASSOC);
        let Some((at, _)) = find_pda(&[&job.wl.wal, &ids().token, &mint], &program) else { return };
        let metas = vec![m(fee, true, true), m(at, false, true), m(job.wl.wal, false, false), m(mint, false, false), m(SYS, false, false), m(ids().token, false, false)];
        let parts = [Part::Raw(Ix { program, metas, data: vec![0] })];
        self.begin("open a token account", &parts, fee);
        let w = self.net.borrow().w.clone();
        let hand = self.net.borrow_mut().by_hand(&parts, fee).2.is_ok();
        let op = self.net.borrow().op;
        let wallet = self.r.chance(1, 2);
        let (res, _) = printed(|| guarded(|| if wallet { c.create_wallet_ata(&pk(&mint)) } else { c.create_ata(&pk(&mint)) }));
        let (hurt, landed, there) = {
            let n = self.net.borrow();
            (n.hurt, n.landed.get(&op).copied().unwrap_or(0), n.w.peek(&at).is_some())
        };
        let had = w.peek(&at).is_some();
        match res {
            None => self.bad("opening a token account: the client panicked".into()),
            Some(Ok(k)) => {
                if k != pk(&at) {
                    self.bad("opening a token account: the client names another address".into());
                }
                if !there && !hurt {
                    self.bad("opening a token account: reported as done, but never carried out".into());
                }
                if had && landed > 0 {
                    self.bad("opening a token account: carried out again".into());
                }
            },
            Some(Err(e)) => {
                if !hurt && (had || hand) {
                    self.bad(format!("opening a token account: the client refuses: {e}"));
                }
            },
        }
    }
    fn create(&mut self, job: &Job) {
        let Want::Create { aty: t, auth, .. } = &job.want else { return };
        let Some(ro) = founder(*t, auth, &self.keys) else { return };
        let log = self.net.borrow().r1.clone();
        let Some(cr) = client_role(&ro, &self.keys, &log, &None, self.r) else { return };
        self.begin(&job.label, &job.parts, job.fee);
        self.net.borrow_mut().sync = true;
        let op = self.net.borrow().op;
        if self.net.borrow().w.peek(&job.wl.swig).is_some() {
            return;
        }
        let hand = self.net.borrow_mut().by_hand(&job.parts, job.fee).2.is_ok();
        self.tried += 1;
        let res = guarded(|| SwigWallet::new(job.wl.id, cr, pair(&job.fee), "sim".into(), None));
        let (hurt, landed) = {
            let n = self.net.borrow();
            (n.hurt, n.landed.get(&op).copied().unwrap_or(0))
        };
        match res {
            None => self.bad(format!("{}: the client panicked", job.label)),
            Some(Ok(c)) => {
                if landed != 1 {
                    self.bad(format!("{}: reported as done, carried out {landed} times", job.label));
                }
                self.done += 1;
                self.labels.push(job.label.clone());
                if !hurt && c.get_current_role_id().ok() != Some(0) {
                    self.bad(format!("{}: the new wallet is opened for another role", job.label));
                }
                self.read(&c, &job.wl);
            },
            Some(Err(e)) => {
                if hand && !hurt {
                    self.bad(format!("{}: fails on a healthy network: {e}", job.label));
                }
            },
        }
    }
}

pub fn compare(s: &mut Sim, r: &mut Rng, parts: &[Part]) -> Option<Tx> {
    let [part] = parts else { return None };
    let mut r = Rng::new(r.u64());
    let r = &mut r;
    let old = s.recent.clone();
    if matches!(part, Part::Call(c) if c.twist == Twist::None) {
        s.recent.push_back(part.clone());
        if s.recent.len() > 12 {
            s.recent.pop_front();
        }
    }
    if r.chance(1, 3) {
        return None;
    }
    let keys = s.keys.clone();
    let first = job(&s.line.w, &s.line.wallets, &keys, part, r)?;
    let rate = *r.pick(&[0, 0, 20, 40, 80]);
    let cloud = Cloud::new(s.line.w.clone(), keys.clone(), first.fee, rate, r);
    let net = Rc::new(RefCell::new(cloud));
    let before = solana_client::connect(Some(Box::new(Wire(net.clone()))));
    let mut run = Run { net: net.clone(), keys: keys.clone(), r, tried: 0, done: 0, labels: vec![] };
    let wallets = s.line.wallets.clone();
    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| play(&mut run, first, &wallets, &old)));
    let (tried, done) = (run.tried, run.done);
    let labels = std::mem::take(&mut run.labels);
    solana_client::connect(before);
    let mut c = net.borrow_mut();
    if let Err(e) = got {
        drop(c);
        std::panic::resume_unwind(e);
    }
    s.stats.facet[33] += tried;
    s.stats.facet_ok[33] += done;
    for l in labels {
        s.stats.inc(fixed(l));
    }
    for f in std::mem::take(&mut c.faults) {
        s.stats.fault(f);
    }
    if let Some(l) = &mut s.log {
        l.extend(c.log.drain(..).map(|x| format!("    [client] {x}")));
    }
    let bad = std::mem::take(&mut c.bad);
    drop(c);
    if let Some(b) = bad.into_iter().next() {
        s.viol(tg(&[33]), format!("wallet client: {b}"));
    }
    None
}
fn play(run: &mut Run, first: Job, wallets: &[Wal], pool: &VecDeque<Part>) {
    if matches!(first.want, Want::Create { .. }) {
        return run.create(&first);
    }
    // requests of the same role, by this device or another
    let others: Vec<Part> = pool.iter().filter(|p| matches!(p, Part::Call(c) if c.swig == first.wl.swig && c.role == first.role)).cloned().collect();
    let any: Vec<Part> = pool.iter().filter(|p| matches!(p, Part::Call(c) if c.swig == first.wl.swig)).cloned().collect();
    let faulty = run.net.borrow().rate > 0;
    let mut client: Option<(Wallet, u32, Option<Key>, Option<Ix>)> = None;
    let mut job_now = first.clone();
    let n = 1 + run.r.us(4);
    for i in 0..n {
        if i > 0 {
            run.net.borrow_mut().post(false);
            if !others.is_empty() && run.r.chance(2, 3) {
                let wide = run.r.chance(1, 3);
                let p = run.r.pick(if wide { &any } else { &others }).clone();
                let w = run.net.borrow().w.clone();
                let keys = run.keys.clone();
                match job(&w, wallets, &keys, &p, run.r) {
                    Some(j) => job_now = j,
                    None => continue,
                }
            } else {
                // the same request again
                let w = run.net.borrow().w.clone();
                let keys = run.keys.clone();
                match job(&w, wallets, &keys, if matches!(first.want, Want::Sign(_)) { &first.parts[0] } else { &job_now.parts[0] }, run.r) {
                    Some(j) => job_now = j,
                    None => continue,
                }
            }
        }
        let Some(ro) = run.role(&job_now.wl, job_now.role) else { break };
        let fits = client
            .as_ref()
            .is_some_and(|(c, id, k, p)| *id == job_now.role && *k == job_now.auth && (k.is_none() || c.get_fee_payer() == pk(&job_now.fee)) && p.as_ref().map(|x| &x.metas) == job_now.pre.as_ref().map(|x| &x.metas));
        let again = job_now.counted(&ro) && !run.net.borrow().sync && run.r.chance(2, 3);
        if !fits || again {
            let got = match client.take() {
                Some((mut c, ..)) if run.r.chance(1, 2) => run.switch(&mut c, &job_now).then_some(c),
                _ => run.open(&job_now),
            };
            if got.is_none() && !faulty {
                return;
            }
            client = got.map(|c| (c, job_now.role, job_now.auth, job_now.pre.clone()));
        }
        let Some((c, ..)) = &mut client else { continue };
        if faulty && !any.is_empty() && run.r.chance(1, 5) {
            let p = run.r.pick(&any).clone();
            run.net.borrow_mut().other = Some((vec![p], payer(2)));
        }
        let ok = run.step(c, &job_now);
        run.net.borrow_mut().other = None;
        if run.r.chance(1, 3) {
            run.read(c, &job_now.wl);
        }
        if run.r.chance(1, 10) {
            run.account(c, &job_now);
        }
        if ok && matches!(job_now.want, Want::Session(..)) {
            // the session key the client knows is no longer the current one
            client = None;
        }
    }
    if faulty {
        // the network recovers: a wallet opened afresh works
        {
            let mut c = run.net.borrow_mut();
            c.post(true);
            c.rate = 0;
        }
        let w = run.net.borrow().w.clone();
        let keys = run.keys.clone();
        let Some(j) = job(&w, wallets, &keys, &first.parts[0], run.r) else { return };
        if let Some(mut c) = run.open(&j) {
            run.step(&mut c, &j);
            run.read(&c, &j.wl);
        }
    }
}

/// A network for directed histories.
pub struct Bench {
    net: Rc<RefCell<Cloud>>,
    keys: Rc<Keys>,
}
impl Bench {
    pub fn new(w: &World, keys: &Rc<Keys>) -> Bench {
        let cloud = Cloud::new(w.clone(), keys.clone(), payer(0), 0, &mut Rng::new(7));
        let net = Rc::new(RefCell::new(cloud));
        solana_client::connect(Some(Box::new(Wire(net.clone()))));
        Bench { net, keys: keys.clone() }
    }
    pub fn world(&self) -> World {
        self.net.borrow().w.clone()
    }
    pub fn set(&self, w: &World) {
        let mut c = self.net.borrow_mut();
        c.remember();
        c.w = w.clone();
    }
    pub fn next_faults(&self, v: &[&'static str]) {
        self.net.borrow_mut().plan = v.iter().copied().collect();
    }
    pub fn role(&self, wl: &Wal, id: u32) -> Role {
        Swig::decode(self.world().data(&wl.swig)).unwrap().roles.into_iter().find(|x| x.id == id).unwrap()
    }
    pub fn client_role(&self, ro: &Role, pre: Option<Ix>) -> Box<dyn ClientRole> {
        let log = self.net.borrow().r1.clone();
        client_role(ro, &self.keys, &log, &pre, &mut Rng::new(3)).unwrap()
    }
    pub fn pair(k: &Key) -> &'static Keypair {
        pair(k)
    }
    pub fn open(&self, wl: &Wal, id: u32, fee: &Key, auth: Option<Key>) -> Result<Wallet, SwigError> {
        let ro = self.role(wl, id);
        SwigWallet::new(wl.id, self.client_role(&ro, None), pair(fee), "bench".into(), auth.map(|k| pair(&k)))
    }
}
