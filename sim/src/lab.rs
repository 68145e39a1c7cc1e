//! A small bench for directed histories: one wallet, named operations, the real
//! program underneath.
use crate::client::*;
use crate::layout::*;
use crate::model::{as2_pda, st2_pda, sub1_pda};
use crate::native::{ids, tok_amount, token_data, IX_SYSVAR};
use crate::rt::*;
use crate::util::*;
use crate::work::*;
use std::rc::Rc;

pub struct Lab {
    pub w: World,
    pub keys: Rc<Keys>,
    pub wl: Wal,
    pub log: Vec<String>,
    /// how the next authorisation deviates
    pub twist: Twist,
    /// seed of the client's choices
    pub seed: u64,
    pub root: bool,
    pub proof: Option<Vec<u8>>,
    pub last: Option<Tx>,
}
fn le(v: &[u64]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_le_bytes()).collect()
}
pub fn a(ty: u16, d: Vec<u8>) -> Act {
    Act { ty, d }
}
pub fn all() -> Act {
    a(act::ALL, vec![])
}
pub fn manage() -> Act {
    a(act::MANAGE, vec![])
}
pub fn prog_all() -> Act {
    a(act::PROG_ALL, vec![])
}
pub fn curated() -> Act {
    a(act::PROG_CUR, vec![0; 32])
}
pub fn program(k: Key) -> Act {
    a(act::PROGRAM, k.to_vec())
}
pub fn sol(v: u64) -> Act {
    a(act::SOL, le(&[v]))
}
pub fn sol_rec(v: u64, window: u64) -> Act {
    a(act::SOL_REC, le(&[v, window, 0, v]))
}
pub fn sol_dst(k: Key, v: u64) -> Act {
    a(act::SOL_DST, [&k[..], &le(&[v])].concat())
}
pub fn sol_rec_dst(k: Key, v: u64, window: u64) -> Act {
    a(act::SOL_REC_DST, [&k[..], &le(&[v, window, 0, v])].concat())
}
pub fn tok(mint: Key, v: u64) -> Act {
    a(act::TOK, [&mint[..], &le(&[v])].concat())
}
pub fn tok_rec(mint: Key, v: u64, window: u64) -> Act {
    a(act::TOK_REC, [&mint[..], &le(&[window, v, v, 0])].concat())
}
pub fn tok_dst(mint: Key, dst: Key, v: u64) -> Act {
    a(act::TOK_DST, [&mint[..], &dst[..], &le(&[v])].concat())
}
pub fn tok_rec_dst(mint: Key, dst: Key, v: u64, window: u64) -> Act {
    a(act::TOK_REC_DST, [&mint[..], &dst[..], &le(&[v, window, 0, v])].concat())
}
pub fn stake(v: u64) -> Act {
    a(act::STAKE, le(&[v]))
}
pub fn stake_rec(v: u64, window: u64) -> Act {
    a(act::STAKE_REC, le(&[v, window, 0, v]))
}
pub fn close_auth() -> Act {
    a(act::CLOSE, vec![])
}
pub fn sub1() -> Act {
    a(act::SUB, vec![0; 72])
}
pub fn on(ty: u16, n: u32) -> Act {
    a(ty, [&n.to_le_bytes()[..], &[0; 4]].concat())
}
/// kind: 0 unlimited, 1 limit, 2 recurring; number: 0 u8, 1 u32, 2 u64, 3 u128 at `from`
pub fn scope(prog: Key, target: Key, kind: u64, v: u128, window: u64, number: u64, from: u64) -> Act {
    let mut d = vec![0u8; 144];
    d[16..32].copy_from_slice(&v.to_le_bytes());
    d[32..40].copy_from_slice(&window.to_le_bytes());
    d[48..80].copy_from_slice(&prog);
    d[80..112].copy_from_slice(&target);
    d[112..].copy_from_slice(&le(&[kind, number, from, from + [1, 4, 8, 16][number as usize]]));
    a(act::SCOPE, d)
}
/// What an AddAuthority or Create names for a key: (type, data).
#[derive(Clone)]
pub struct Auth(pub u16, pub Vec<u8>);
impl Lab {
    pub fn ed(i: u64) -> Auth {
        Auth(aty::ED, ed(i).to_vec())
    }
    pub fn ed_session(i: u64, max: u64) -> Auth {
        Auth(aty::ED_S, [&ed(i)[..], &[0; 32], &le(&[max])].concat())
    }
    pub fn k1(&self, i: usize) -> Auth {
        Auth(aty::K1, self.keys.k1pub[i].1.to_vec())
    }
    pub fn k1_session(&self, i: usize, max: u64) -> Auth {
        Auth(aty::K1_S, [&self.keys.k1pub[i].1[..], &[0; 32], &le(&[max])].concat())
    }
    pub fn r1(i: u64) -> Auth {
        Auth(aty::R1, r1(i).to_vec())
    }
    pub fn r1_session(i: u64, max: u64) -> Auth {
        Auth(aty::R1_S, [&r1(i)[..], &[0; 7], &[0; 32], &le(&[max])].concat())
    }
    pub fn new() -> Self {
        Self::with(&Self::ed(0), &[all()])
    }
    pub fn with(au: &Auth, acts: &[Act]) -> Self {
        let wl = Sim::addresses(&label_key("id", 1));
        let mut l = Lab { w: world(), keys: Rc::new(Keys::new()), wl, log: vec![], twist: Twist::None, seed: 7, root: false, proof: None, last: None };
        let wl = l.wl.clone();
        l.create(&wl, au, acts);
        l.w.mutate(&wl.wal).lamports += 1_000_000_000;
        l
    }
    pub fn create_ix(&self, wl: &Wal, au: &Auth, acts: &[Act]) -> Ix {
        let mut d = vec![0, 0];
        d.extend(au.0.to_le_bytes());
        d.extend((au.1.len() as u16).to_le_bytes());
        d.extend([wl.bump, wl.wb]);
        d.extend(wl.id);
        d.extend(&au.1);
        d.extend(encode_acts(acts));
        Ix { program: ids().swig, metas: vec![m(wl.swig, false, true), m(payer(0), true, true), m(wl.wal, false, true), m(SYS, false, false)], data: d }
    }
    pub fn create(&mut self, wl: &Wal, au: &Auth, acts: &[Act]) -> bool {
        let ix = self.create_ix(wl, au, acts);
        self.send(vec![Part::Raw(ix)])
    }
    /// Executes a transaction as it is.
    pub fn run(&mut self, tx: &Tx) -> bool {
        let r = execute(&mut self.w, tx, None, None);
        self.log.push(format!("slot={} {} -> {:?}", self.w.slot, describe_tx(tx), r.res));
        r.res.is_ok()
    }
    pub fn build(&mut self, parts: Vec<Part>) -> Tx {
        let keys = self.keys.clone();
        Signer { keys: &keys, w: &mut self.w }.assemble(parts, payer(0))
    }
    pub fn send(&mut self, parts: Vec<Part>) -> bool {
        let tx = self.build(parts);
        let ok = self.run(&tx);
        self.last = Some(tx);
        ok
    }
    pub fn call(&self, role: u32, metas: Vec<Meta>, data: Vec<u8>, signed: (usize, usize)) -> Part {
        Part::Call(Call { metas, data, signed, len_at: None, swig: self.wl.swig, role, root: self.root, twist: self.twist, seed: self.seed, proof: self.proof.clone() })
    }
    pub fn metas(&self) -> Vec<Meta> {
        vec![m(self.wl.swig, false, true), m(payer(0), true, true), m(SYS, false, false)]
    }
    pub fn swig(&self) -> Swig {
        Swig::decode(self.w.data(&self.wl.swig)).expect("the configuration decodes")
    }
    pub fn role(&self, id: u32) -> Role {
        let s = self.swig();
        s.roles[s.role(id).expect("role exists")].clone()
    }
    pub fn lamports(&self, k: &Key) -> u64 {
        self.w.lamports(k)
    }
    pub fn tokens(&self, k: &Key) -> u64 {
        tok_amount(self.w.data(k))
    }
    /// Token account `n` of `owner` for mint `i`, holding `v`.
    pub fn give(&mut self, owner: &Key, i: u64, n: u64, v: u64) -> Key {
        let k = ta(owner, i, n);
        self.w.put(k, Acct { lamports: rent_min(165), data: token_data(&mint(i), owner, v, 0), owner: mint_prog(i), exec: false });
        k
    }
    pub fn add(&mut self, role: u32, au: &Auth, acts: &[Act]) -> bool {
        let ab = encode_acts(acts);
        let mut d = vec![1, 0];
        d.extend((au.1.len() as u16).to_le_bytes());
        d.extend((ab.len() as u16).to_le_bytes());
        d.extend(au.0.to_le_bytes());
        d.extend([acts.len() as u8, 0, 0, 0]);
        d.extend(role.to_le_bytes());
        d.extend(&au.1);
        d.extend(ab);
        let e = d.len();
        let c = self.call(role, self.metas(), d, (0, e));
        self.send(vec![c])
    }
    pub fn remove(&mut self, role: u32, target: u32) -> bool {
        let mut d = vec![2, 0, 0, 0, 0, 0, 0, 0];
        d.extend(role.to_le_bytes());
        d.extend(target.to_le_bytes());
        let mut c = self.call(role, self.metas(), d, (0, 16));
        if let Part::Call(c) = &mut c {
            c.len_at = Some(2);
        }
        self.send(vec![c])
    }
    /// Replaces all permissions of `target`.
    pub fn update(&mut self, role: u32, target: u32, acts: &[Act]) -> bool {
        let mut b = vec![0u8];
        b.extend(encode_acts(acts));
        self.update_raw(role, target, 0, b)
    }
    pub fn update_add(&mut self, role: u32, target: u32, acts: &[Act]) -> bool {
        let mut b = vec![1u8];
        b.extend(encode_acts(acts));
        self.update_raw(role, target, 0, b)
    }
    pub fn update_raw(&mut self, role: u32, target: u32, n: u8, body: Vec<u8>) -> bool {
        let mut d = vec![3, 0];
        d.extend((body.len() as u16).to_le_bytes());
        d.extend([n, 0, 0, 0]);
        d.extend(role.to_le_bytes());
        d.extend(target.to_le_bytes());
        d.extend(body);
        let e = d.len();
        let c = self.call(role, self.metas(), d, (0, e));
        self.send(vec![c])
    }
    pub fn replace(&mut self, role: u32, target: u32, key: &[u8]) -> bool {
        let mut d = vec![16, 0, 0, 0];
        d.extend(role.to_le_bytes());
        d.extend(target.to_le_bytes());
        d.extend((key.len() as u16).to_le_bytes());
        d.extend([0, 0]);
        d.extend(key);
        let e = d.len();
        let c = self.call(role, vec![m(self.wl.swig, false, true)], d, (0, e));
        self.send(vec![c])
    }
    pub fn session(&mut self, role: u32, key: Key, dur: u64) -> bool {
        let mut d = vec![5, 0, 0, 0];
        d.extend(role.to_le_bytes());
        d.extend(dur.to_le_bytes());
        d.extend(key);
        let was = std::mem::replace(&mut self.root, true);
        let c = self.call(role, self.metas(), d, (0, 48));
        self.root = was;
        self.send(vec![c])
    }
    pub fn sign_part(&self, role: u32, ixs: &[Ix], watch: &[Meta]) -> Part {
        let (metas, d) = sign_data(&self.wl, role, ixs, watch);
        let e = d.len();
        self.call(role, metas, d, (8, e))
    }
    pub fn sign(&mut self, role: u32, ixs: &[Ix]) -> bool {
        let c = self.sign_part(role, ixs, &[]);
        self.send(vec![c])
    }
    /// Signs with accounts that are only watched.
    pub fn sign_watching(&mut self, role: u32, ixs: &[Ix], watch: &[Meta]) -> bool {
        let c = self.sign_part(role, ixs, watch);
        self.send(vec![c])
    }
    pub fn pay(&mut self, role: u32, dst: &Key, v: u64) -> bool {
        let ix = sol_ix(&self.wl.wal, dst, v);
        self.sign(role, &[ix])
    }
    pub fn claimer(&mut self, role: u32, k: Key) -> bool {
        let mut d = vec![17, 0, 0, 0];
        d.extend(role.to_le_bytes());
        d.extend(k);
        let c = self.call(role, self.metas(), d, (0, 40));
        self.send(vec![c])
    }
    pub fn close(&mut self, role: u32, dst: Key) -> bool {
        let mut d = vec![15, 0, 0, 0];
        d.extend(role.to_le_bytes());
        let c = self.call(role, vec![m(self.wl.swig, false, true), m(self.wl.wal, false, true), m(dst, false, true), m(SYS, false, false)], d, (0, 8));
        self.send(vec![c])
    }
    /// Closes token accounts; `role` must have a plain Ed25519 key or a K1 key.
    pub fn close_tokens(&mut self, role: u32, prog: Key, dst: Key, list: &[Key]) -> bool {
        let mut metas = vec![m(self.wl.swig, false, true), m(self.wl.wal, false, true), m(dst, false, true), m(prog, false, false)];
        let ro = self.role(role);
        let mut off = 4u16;
        if matches!(ro.aty, aty::ED | aty::ED_S) {
            metas.push(m(ro.auth[..32].try_into().unwrap(), true, false));
            off = 5;
        }
        for k in list {
            metas.push(m(*k, false, true));
        }
        let mut d = vec![14, 0];
        d.extend(off.to_le_bytes());
        d.extend(role.to_le_bytes());
        let c = self.call(role, metas, d, (0, 8));
        self.send(vec![c])
    }
    pub fn migrate(&mut self, role: u32) -> bool {
        let mut d = vec![12, 0, self.wl.wb, 0];
        d.extend(role.to_le_bytes());
        let metas = vec![m(self.wl.swig, false, true), m(ed(0), false, false), m(payer(0), true, true), m(self.wl.wal, false, true), m(SYS, false, false)];
        let c = self.call(role, metas, d, (0, 8));
        self.send(vec![c])
    }
    /// Turns the wallet into one of the old format (as old program versions made them).
    pub fn make_old(&mut self) {
        let mut s = self.swig();
        s.ext = [0; 8];
        let k = self.wl.swig;
        self.w.mutate(&k).data = s.encode();
    }
    pub fn transfer_assets(&mut self, role: u32, toks: &[(Key, Key, Key)]) -> bool {
        let mut metas = vec![m(self.wl.swig, false, true), m(self.wl.wal, false, true), m(payer(0), true, true), m(SYS, false, false)];
        for (x, y, p) in toks {
            metas.extend([m(*x, false, true), m(*y, false, true), m(*p, false, false)]);
        }
        let mut d = vec![13, 0, 0, 0];
        d.extend(role.to_le_bytes());
        let c = self.call(role, metas, d, (0, 8));
        self.send(vec![c])
    }
    // ----- sub-accounts -----
    pub fn sub1_create(&mut self, role: u32) -> Option<Key> {
        let (sub, b) = sub1_pda(&self.wl.id, role)?;
        let mut d = vec![6, 0, 0, 0];
        d.extend(role.to_le_bytes());
        d.push(b);
        d.extend([0; 7]);
        let c = self.call(role, vec![m(self.wl.swig, false, true), m(payer(0), true, true), m(sub, false, true), m(SYS, false, false)], d, (0, 16));
        self.send(vec![c]).then_some(sub)
    }
    pub fn sub1_sign(&mut self, role: u32, sub: Key, ixs: &[Ix]) -> bool {
        let mut metas = vec![m(self.wl.swig, false, true), m(sub, false, true), m(SYS, false, false)];
        let p = compact(&mut metas, ixs, &[sub, self.wl.wal]);
        let mut d = vec![9, 0];
        d.extend((p.len() as u16).to_le_bytes());
        d.extend(role.to_le_bytes());
        d.extend([0; 8]);
        d.extend(&p);
        let n = d.len();
        let c = self.call(role, metas, d, (16, n));
        self.send(vec![c])
    }
    pub fn sub1_toggle(&mut self, auth: u32, role: u32, sub: Key, on: u8) -> bool {
        let mut d = vec![10, 0, on, 0, 0, 0, 0, 0];
        d.extend(role.to_le_bytes());
        d.extend(auth.to_le_bytes());
        let c = self.call(auth, vec![m(self.wl.swig, false, true), m(payer(0), true, true), m(sub, false, true)], d, (0, 16));
        self.send(vec![c])
    }
    /// `toks`: source, destination, token program
    pub fn sub1_withdraw(&mut self, role: u32, sub: Key, amt: u64, toks: Option<(Key, Key, Key)>) -> bool {
        let mut metas = vec![m(self.wl.swig, false, true), m(payer(0), true, true), m(sub, false, true), m(payer(2), false, false), m(self.wl.wal, false, true), m(SYS, false, false)];
        let ro = self.role(role);
        if matches!(ro.aty, aty::ED | aty::ED_S) {
            metas[3] = m(ro.auth[..32].try_into().unwrap(), true, false);
        }
        if let Some((x, y, p)) = toks {
            metas.extend([m(x, false, true), m(y, false, true), m(p, false, false)]);
        }
        let mut d = vec![7, 0, 0, 0];
        d.extend(role.to_le_bytes());
        d.extend(amt.to_le_bytes());
        let c = self.call(role, metas, d, (0, 16));
        self.send(vec![c])
    }
    pub fn sub2(&self, n: u32) -> (Key, Key) {
        (st2_pda(&self.wl.id, n).unwrap().0, as2_pda(&self.wl.id, n).unwrap().0)
    }
    pub fn sub2_create(&mut self, role: u32) -> bool {
        let n = self.swig().sub_counter();
        let ((st, sb), (sub, ab)) = (st2_pda(&self.wl.id, n).unwrap(), as2_pda(&self.wl.id, n).unwrap());
        let mut d = vec![18, 0, 0, 0];
        d.extend(role.to_le_bytes());
        d.extend([sb, ab]);
        d.extend([0; 6]);
        let c = self.call(role, vec![m(self.wl.swig, false, true), m(payer(0), true, true), m(st, false, true), m(sub, false, true), m(SYS, false, false)], d, (0, 16));
        self.send(vec![c])
    }
    pub fn sub2_sign(&mut self, role: u32, n: u32, ixs: &[Ix]) -> bool {
        let (st, sub) = self.sub2(n);
        self.sub2_sign_with(role, n, st, sub, ixs)
    }
    pub fn sub2_sign_with(&mut self, role: u32, n: u32, st: Key, sub: Key, ixs: &[Ix]) -> bool {
        let mut metas = vec![m(self.wl.swig, false, true), m(st, false, false), m(sub, false, true), m(SYS, false, false)];
        let p = compact(&mut metas, ixs, &[sub, self.wl.wal]);
        let mut d = vec![20, 0];
        d.extend((p.len() as u16).to_le_bytes());
        d.extend(role.to_le_bytes());
        d.extend(n.to_le_bytes());
        d.extend([0; 4]);
        d.extend(&p);
        let e = d.len();
        let c = self.call(role, metas, d, (0, e));
        self.send(vec![c])
    }
    pub fn sub2_toggle(&mut self, role: u32, n: u32, on: u8) -> bool {
        let (st, _) = self.sub2(n);
        let mut d = vec![19, 0, on, 0];
        d.extend(role.to_le_bytes());
        d.extend(n.to_le_bytes());
        d.extend([0; 4]);
        let c = self.call(role, vec![m(self.wl.swig, false, true), m(payer(0), true, true), m(st, false, true)], d, (0, 16));
        self.send(vec![c])
    }
    pub fn sub2_withdraw(&mut self, role: u32, n: u32, amt: u64, toks: Option<(Key, Key, Key)>) -> bool {
        let (st, sub) = self.sub2(n);
        let ro = self.role(role);
        let ctx = match ro.aty {
            aty::ED | aty::ED_S => m(ro.auth[..32].try_into().unwrap(), true, false),
            aty::R1 | aty::PX => m(IX_SYSVAR, false, false),
            _ => m(payer(2), false, false),
        };
        let mut metas = vec![m(self.wl.swig, false, true), m(payer(0), true, true), m(st, false, false), m(sub, false, true), m(self.wl.wal, false, true), ctx, m(SYS, false, false)];
        if let Some((x, y, p)) = toks {
            metas.extend([m(x, false, true), m(y, false, true), m(p, false, false)]);
        }
        let mut d = vec![21, 0, 0, 0];
        d.extend(role.to_le_bytes());
        d.extend(n.to_le_bytes());
        d.extend([0; 4]);
        d.extend(amt.to_le_bytes());
        let c = self.call(role, metas, d, (0, 24));
        self.send(vec![c])
    }
}
