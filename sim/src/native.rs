//! Stand-ins for the programs a swig wallet talks to: System, SPL Token (both
//! ids), Stake, the secp256r1 precompile, the program-exec test program and a
//! scriptable program (DeFi protocol or adversary).
use crate::rt::*;
use crate::util::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Swig,
    System,
    Token,
    Stake,
    R1,
    Exec,
    Script,
    Assoc,
}
pub struct Ids {
    pub swig: Key,
    pub token: Key,
    pub token22: Key,
    pub stake: Key,
    pub r1: Key,
    pub exec: Key,
    pub script: Vec<Key>,
    pub sysvar_clock: Key,
    pub kinds: BTreeMap<Key, Kind>,
}
pub const IX_SYSVAR: Key = [
    0x06, 0xa7, 0xd5, 0x17, 0x18, 0x7b, 0xd1, 0x66, 0x35, 0xda, 0xd4, 0x04, 0x55, 0xfd, 0xc2, 0xc0, 0xc1, 0x24, 0xc6,
    0x8f, 0x21, 0x56, 0x75, 0xa5, 0xdb, 0xba, 0xcb, 0x5f, 0x08, 0x00, 0x00, 0x00,
];
pub const SYSVAR_OWNER: Key = [
    0x06, 0xa7, 0xd5, 0x17, 0x18, 0x75, 0xf7, 0x29, 0xc7, 0x3d, 0x93, 0x40, 0x8f, 0x21, 0x61, 0x20, 0x06, 0x7e, 0xd8,
    0x8c, 0x76, 0xe0, 0x8c, 0x28, 0x7f, 0xc1, 0x94, 0x60, 0x00, 0x00, 0x00, 0x00,
];
pub const ASSOC: &str = "ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL";
pub fn ids() -> &'static Ids {
    static I: std::sync::OnceLock<Ids> = std::sync::OnceLock::new();
    I.get_or_init(|| {
        let swig = b58("swigypWHEksbC64pWKwah1WTeh9JXwx8H1rJHLdbQMB");
        let token = b58("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
        let token22 = b58("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb");
        let stake = b58("Stake11111111111111111111111111111111111111");
        let r1 = b58("Secp256r1SigVerify1111111111111111111111111");
        let exec = b58("BXAu5ZWHnGun2XZjUZ9nqwiZ5dNVmofPGYdMC4rx4qLV");
        let mut script: Vec<Key> = [swig, token, stake].iter().zip([0, 1, 3]).map(|(k, i)| cousin(*k, 8 + i)).collect();
        // one curated program (Raydium-like id taken from the repository's list at run time if present)
        script.push(b58("JUP6LkbZbjS1jKKwapdHNy74zcZ3tLUZoi5QNyVTaV4"));
        let mut kinds = BTreeMap::new();
        kinds.insert(swig, Kind::Swig);
        kinds.insert(SYS, Kind::System);
        kinds.insert(token, Kind::Token);
        kinds.insert(token22, Kind::Token);
        kinds.insert(stake, Kind::Stake);
        kinds.insert(r1, Kind::R1);
        kinds.insert(exec, Kind::Exec);
        kinds.insert(b58(ASSOC), Kind::Assoc);
        for s in &script {
            kinds.insert(*s, Kind::Script);
        }
        let sysvar_clock = b58("SysvarC1ock11111111111111111111111111111111");
        Ids { swig, token, token22, stake, r1, exec, script, sysvar_clock, kinds }
    })
}
pub fn kind(k: &Key) -> Option<Kind> {
    ids().kinds.get(k).copied()
}
pub fn reserved(k: &Key) -> bool {
    *k == IX_SYSVAR || *k == ids().sysvar_clock || *k == SYSVAR_OWNER || kind(k).is_some()
}
pub fn genesis(w: &mut World) {
    let loader = b58("BPFLoaderUpgradeab1e11111111111111111111111");
    for k in ids().kinds.keys() {
        w.put(*k, Acct { lamports: 1, data: vec![1; 36], owner: loader, exec: true });
    }
    w.put(ids().sysvar_clock, Acct { lamports: 1_169_280, data: vec![0; 40], owner: SYSVAR_OWNER, exec: false });
}

pub fn run(ex: &mut Exec, k: Kind) -> Res {
    ex.syscalls += 1;
    if ex.stop_at == Some(ex.syscalls) {
        ex.stopped = true;
        return Err(Fail::Injected);
    }
    match k {
        Kind::System => system(ex),
        Kind::Token => token(ex),
        Kind::Stake => stake(ex),
        Kind::R1 => r1(ex),
        Kind::Exec => exec_prog(ex),
        Kind::Script => script(ex),
        Kind::Assoc => assoc(ex),
        Kind::Swig => unreachable!(),
    }
}

fn a(ex: &Exec, i: usize) -> Result<Meta, Fail> {
    ex.stack.last().unwrap().accts.get(i).copied().ok_or(Fail::Rt("not enough accounts"))
}
fn d(ex: &Exec) -> Vec<u8> {
    ex.stack.last().unwrap().data.clone()
}
fn me(ex: &Exec) -> Key {
    ex.stack.last().unwrap().program
}
fn set(ex: &mut Exec, mt: &Meta, f: impl FnOnce(&mut Acct)) -> Res {
    let mut n = ex.w.get(&mt.key);
    f(&mut n);
    let p = me(ex);
    ex.apply(&p, &mt.key, mt.writable, n.lamports, n.data, n.owner)
}
fn mv(ex: &mut Exec, from: &Meta, to: &Meta, amt: u64) -> Res {
    let l = ex.w.lamports(&from.key);
    if l < amt {
        return rt("insufficient lamports");
    }
    set(ex, from, |x| x.lamports -= amt)?;
    if ex.w.lamports(&to.key).checked_add(amt).is_none() {
        return rt("overflow");
    }
    set(ex, to, |x| x.lamports += amt)
}
fn need(b: bool, e: &'static str) -> Res {
    if b {
        Ok(())
    } else {
        rt(e)
    }
}
fn g64(v: &[u8], o: usize) -> Result<u64, Fail> {
    v.get(o..o + 8).map(le64).ok_or(Fail::Rt("short data"))
}
fn gkey(v: &[u8], o: usize) -> Result<Key, Fail> {
    v.get(o..o + 32).map(|x| x.try_into().unwrap()).ok_or(Fail::Rt("short data"))
}

fn system(ex: &mut Exec) -> Res {
    let v = d(ex);
    need(v.len() >= 4, "short data")?;
    match le32(&v) {
        0 => {
            let (lam, space, owner) = (g64(&v, 4)?, g64(&v, 12)?, gkey(&v, 20)?);
            let (from, to) = (a(ex, 0)?, a(ex, 1)?);
            need(ex.w.lamports(&to.key) == 0, "account already in use")?;
            need(to.signer, "missing signature")?;
            sys_allocate(ex, &to, space)?;
            sys_assign(ex, &to, owner)?;
            sys_transfer(ex, &from, &to, lam)
        },
        1 => {
            let o = gkey(&v, 4)?;
            let t = a(ex, 0)?;
            sys_assign(ex, &t, o)
        },
        2 => {
            let lam = g64(&v, 4)?;
            let (from, to) = (a(ex, 0)?, a(ex, 1)?);
            sys_transfer(ex, &from, &to, lam)
        },
        8 => {
            let s = g64(&v, 4)?;
            let t = a(ex, 0)?;
            sys_allocate(ex, &t, s)
        },
        _ => rt("unknown system instruction"),
    }
}
fn sys_transfer(ex: &mut Exec, from: &Meta, to: &Meta, lam: u64) -> Res {
    need(from.signer, "missing signature")?;
    need(ex.w.data(&from.key).is_empty(), "from must not carry data")?;
    mv(ex, from, to, lam)
}
fn sys_allocate(ex: &mut Exec, t: &Meta, space: u64) -> Res {
    need(t.signer, "missing signature")?;
    need(ex.w.data(&t.key).is_empty() && ex.w.owner(&t.key) == SYS, "account already in use")?;
    need(space <= 10 << 20, "invalid space")?;
    set(ex, t, |x| x.data = vec![0; space as usize])
}
fn sys_assign(ex: &mut Exec, t: &Meta, o: Key) -> Res {
    if ex.w.owner(&t.key) == o {
        return Ok(());
    }
    need(t.signer, "missing signature")?;
    set(ex, t, |x| x.owner = o)
}

// ---------- token ----------
pub fn token_data(mint: &Key, owner: &Key, amount: u64, extra: usize) -> Vec<u8> {
    let mut d = vec![0u8; 165 + extra];
    d[..32].copy_from_slice(mint);
    d[32..64].copy_from_slice(owner);
    d[64..72].copy_from_slice(&amount.to_le_bytes());
    d[108] = 1;
    if extra > 0 {
        d[165] = 2;
    }
    d
}
pub fn mint_data(auth: &Key, supply: u64) -> Vec<u8> {
    let mut d = vec![0u8; 82];
    d[0] = 1;
    d[4..36].copy_from_slice(auth);
    d[36..44].copy_from_slice(&supply.to_le_bytes());
    d[44] = 6;
    d[45] = 1;
    d
}
pub fn tok_amount(d: &[u8]) -> u64 {
    if d.len() >= 165 {
        le64(&d[64..])
    } else {
        0
    }
}
fn token(ex: &mut Exec) -> Res {
    let v = d(ex);
    need(!v.is_empty(), "short data")?;
    let pid = me(ex);
    let tacc = |ex: &Exec, mt: &Meta| -> Result<Vec<u8>, Fail> {
        let ac = ex.w.get(&mt.key);
        if ac.owner != pid || ac.data.len() < 165 || ac.data[108] == 0 {
            return rt("not a token account");
        }
        Ok(ac.data)
    };
    match v[0] {
        3 | 12 => {
            let amt = g64(&v, 1)?;
            let (src, dst, auth, mint) = if v[0] == 3 {
                (a(ex, 0)?, a(ex, 1)?, a(ex, 2)?, None)
            } else {
                need(v.len() >= 10, "short data")?;
                (a(ex, 0)?, a(ex, 2)?, a(ex, 3)?, Some(a(ex, 1)?))
            };
            let (mut s, mut t) = (tacc(ex, &src)?, tacc(ex, &dst)?);
            need(s[108] == 1 && t[108] == 1, "frozen")?;
            need(s[..32] == t[..32], "mint mismatch")?;
            if let Some(mi) = mint {
                need(s[..32] == mi.key, "mint mismatch")?;
                need(ex.w.data(&mi.key).get(44) == Some(&v[9]), "decimals mismatch")?;
            }
            need(auth.signer, "missing signature")?;
            need(le64(&s[64..]) >= amt, "insufficient funds")?;
            if auth.key == s[32..64] {
            } else if le32(&s[72..]) == 1 && auth.key == s[76..108] {
                let da = le64(&s[121..]);
                need(da >= amt, "insufficient funds")?;
                s[121..129].copy_from_slice(&(da - amt).to_le_bytes());
                if da == amt {
                    s[72..108].fill(0);
                }
            } else {
                return rt("owner mismatch");
            }
            if src.key == dst.key {
                return Ok(());
            }
            let sa = le64(&s[64..]) - amt;
            let Some(ta) = le64(&t[64..]).checked_add(amt) else { return rt("overflow") };
            s[64..72].copy_from_slice(&sa.to_le_bytes());
            t[64..72].copy_from_slice(&ta.to_le_bytes());
            set(ex, &src, |x| x.data = s)?;
            set(ex, &dst, |x| x.data = t)
        },
        4 => {
            let amt = g64(&v, 1)?;
            let (src, del, own) = (a(ex, 0)?, a(ex, 1)?, a(ex, 2)?);
            let mut s = tacc(ex, &src)?;
            need(own.signer && own.key == s[32..64], "owner mismatch")?;
            s[72..76].copy_from_slice(&1u32.to_le_bytes());
            s[76..108].copy_from_slice(&del.key);
            s[121..129].copy_from_slice(&amt.to_le_bytes());
            set(ex, &src, |x| x.data = s)
        },
        5 => {
            let (src, own) = (a(ex, 0)?, a(ex, 1)?);
            let mut s = tacc(ex, &src)?;
            need(own.signer && own.key == s[32..64], "owner mismatch")?;
            s[72..108].fill(0);
            s[121..129].fill(0);
            set(ex, &src, |x| x.data = s)
        },
        6 => {
            // SetAuthority: kind u8, option u8, key
            need(v.len() >= 3, "short data")?;
            let (acc, own) = (a(ex, 0)?, a(ex, 1)?);
            let mut s = tacc(ex, &acc)?;
            let newk = if v[2] == 1 { Some(gkey(&v, 3)?) } else { None };
            match v[1] {
                2 => {
                    need(own.signer && own.key == s[32..64], "owner mismatch")?;
                    let Some(k) = newk else { return rt("invalid") };
                    s[32..64].copy_from_slice(&k);
                    s[72..108].fill(0);
                    s[121..129].fill(0);
                },
                3 => {
                    let auth: Key =
                        if le32(&s[129..]) == 1 { gkey(&s, 133)? } else { s[32..64].try_into().unwrap() };
                    need(own.signer && own.key == auth, "owner mismatch")?;
                    s[129..165].fill(0);
                    if let Some(k) = newk {
                        s[129..133].copy_from_slice(&1u32.to_le_bytes());
                        s[133..165].copy_from_slice(&k);
                    }
                },
                _ => return rt("unsupported authority"),
            }
            set(ex, &acc, |x| x.data = s)
        },
        7 => {
            let amt = g64(&v, 1)?;
            let (mint, dst, auth) = (a(ex, 0)?, a(ex, 1)?, a(ex, 2)?);
            let mi = ex.w.get(&mint.key);
            need(mi.owner == pid && mi.data.len() >= 82, "not a mint")?;
            need(auth.signer && auth.key == mi.data[4..36], "owner mismatch")?;
            let mut t = tacc(ex, &dst)?;
            need(t[..32] == mint.key, "mint mismatch")?;
            let Some(ta) = le64(&t[64..]).checked_add(amt) else { return rt("overflow") };
            t[64..72].copy_from_slice(&ta.to_le_bytes());
            set(ex, &dst, |x| x.data = t)
        },
        8 => {
            let amt = g64(&v, 1)?;
            let (src, _mint, own) = (a(ex, 0)?, a(ex, 1)?, a(ex, 2)?);
            let mut s = tacc(ex, &src)?;
            need(own.signer && own.key == s[32..64], "owner mismatch")?;
            need(s[108] == 1, "frozen")?;
            need(le64(&s[64..]) >= amt, "insufficient funds")?;
            let n = le64(&s[64..]) - amt;
            s[64..72].copy_from_slice(&n.to_le_bytes());
            set(ex, &src, |x| x.data = s)
        },
        9 => {
            let (src, dst, own) = (a(ex, 0)?, a(ex, 1)?, a(ex, 2)?);
            need(src.key != dst.key, "invalid")?;
            let s = tacc(ex, &src)?;
            need(le64(&s[64..]) == 0 || le32(&s[109..]) == 1, "non-native has balance")?;
            let auth: Key = if le32(&s[129..]) == 1 { gkey(&s, 133)? } else { s[32..64].try_into().unwrap() };
            need(own.signer && own.key == auth, "owner mismatch")?;
            let l = ex.w.lamports(&src.key);
            mv(ex, &src, &dst, l)?;
            set(ex, &src, |x| {
                x.data = vec![];
            })?;
            set(ex, &src, |x| x.owner = SYS)
        },
        18 => {
            let own = gkey(&v, 1)?;
            let (acc, mint) = (a(ex, 0)?, a(ex, 1)?);
            let ac = ex.w.get(&acc.key);
            need(ac.owner == pid && ac.data.len() >= 165 && ac.data[108] == 0, "already in use")?;
            need(ex.w.owner(&mint.key) == pid, "bad mint")?;
            let n = token_data(&mint.key, &own, 0, ac.data.len() - 165);
            set(ex, &acc, |x| x.data = n)
        },
        _ => rt("unknown token instruction"),
    }
}

// ---------- associated token accounts ----------
fn assoc(ex: &mut Exec) -> Res {
    let (payer, acc, own, mint, prog) = (a(ex, 0)?, a(ex, 1)?, a(ex, 2)?, a(ex, 3)?, a(ex, 5)?);
    need(d(ex).first().is_none_or(|x| *x == 0), "unknown request")?;
    let at = crate::util::find_pda(&[&own.key, &prog.key, &mint.key], &me(ex)).map(|x| x.0);
    need(at == Some(acc.key) && acc.writable, "wrong address")?;
    need(payer.signer && payer.writable && ex.w.owner(&payer.key) == SYS && ex.w.data(&payer.key).is_empty(), "payer")?;
    need(kind(&prog.key) == Some(Kind::Token) && ex.w.owner(&mint.key) == prog.key, "bad mint")?;
    need(ex.w.owner(&acc.key) == SYS && ex.w.data(&acc.key).is_empty(), "account already in use")?;
    let rent = rent_min(165).saturating_sub(ex.w.lamports(&acc.key));
    need(ex.w.lamports(&payer.key) >= rent, "insufficient lamports")?;
    ex.w.mutate(&payer.key).lamports -= rent;
    let n = ex.w.mutate(&acc.key);
    n.lamports += rent;
    n.data = token_data(&mint.key, &own.key, 0, 0);
    n.owner = prog.key;
    Ok(())
}

// ---------- stake ----------
pub const STAKE_RESERVE: u64 = (128 + 200) * 6960;
pub fn stake_data(staker: &Key, withdrawer: &Key, delegated: Option<(Key, u64)>) -> Vec<u8> {
    let mut d = vec![0u8; 200];
    d[0] = 1;
    d[4..12].copy_from_slice(&STAKE_RESERVE.to_le_bytes());
    d[12..44].copy_from_slice(staker);
    d[44..76].copy_from_slice(withdrawer);
    if let Some((vote, amt)) = delegated {
        d[0] = 2;
        d[124..156].copy_from_slice(&vote);
        d[156..164].copy_from_slice(&amt.to_le_bytes());
        d[172..180].copy_from_slice(&u64::MAX.to_le_bytes());
    }
    d
}
fn stake(ex: &mut Exec) -> Res {
    let v = d(ex);
    need(v.len() >= 4, "short data")?;
    let pid = me(ex);
    let sacc = |ex: &Exec, mt: &Meta| -> Result<Vec<u8>, Fail> {
        let ac = ex.w.get(&mt.key);
        if ac.owner != pid || ac.data.len() != 200 || ac.data[0] == 0 {
            return rt("not a stake account");
        }
        Ok(ac.data)
    };
    match le32(&v) {
        // Authorize(new key, 0 staker | 1 withdrawer): [stake, authority]
        1 => {
            let k = gkey(&v, 4)?;
            need(v.len() >= 40, "short data")?;
            let (st, au) = (a(ex, 0)?, a(ex, 1)?);
            let mut s = sacc(ex, &st)?;
            let o = if le32(&v[36..]) == 0 { 12 } else { 44 };
            need(au.signer && (au.key == s[o..o + 32] || au.key == s[44..76]), "missing signature")?;
            s[o..o + 32].copy_from_slice(&k);
            set(ex, &st, |x| x.data = s)
        },
        // Delegate: [stake, vote, authority]
        2 => {
            let (st, vo, au) = (a(ex, 0)?, a(ex, 1)?, a(ex, 2)?);
            let mut s = sacc(ex, &st)?;
            need(au.signer && au.key == s[12..44], "missing signature")?;
            let deact = s[0] == 2 && le64(&s[172..]) != u64::MAX;
            need(s[0] == 1 || deact, "already delegated")?;
            let amt = ex.w.lamports(&st.key).saturating_sub(STAKE_RESERVE);
            s[0] = 2;
            s[124..156].copy_from_slice(&vo.key);
            s[156..164].copy_from_slice(&amt.to_le_bytes());
            s[164..172].copy_from_slice(&(ex.w.slot / 432000).to_le_bytes());
            s[172..180].copy_from_slice(&u64::MAX.to_le_bytes());
            set(ex, &st, |x| x.data = s)
        },
        // Split(lamports): [stake, new stake (200 bytes, uninitialised), authority]
        3 => {
            let amt = g64(&v, 4)?;
            let (st, ns, au) = (a(ex, 0)?, a(ex, 1)?, a(ex, 2)?);
            let mut s = sacc(ex, &st)?;
            need(au.signer && au.key == s[12..44], "missing signature")?;
            let n = ex.w.get(&ns.key);
            need(n.owner == pid && n.data.len() == 200 && n.data[0] == 0, "bad split target")?;
            need(ex.w.lamports(&st.key) >= amt + STAKE_RESERVE, "insufficient funds")?;
            let mut nd = s.clone();
            if s[0] == 2 {
                let cur = le64(&s[156..]);
                need(cur >= amt, "insufficient stake")?;
                s[156..164].copy_from_slice(&(cur - amt).to_le_bytes());
                nd[156..164].copy_from_slice(&amt.to_le_bytes());
            }
            set(ex, &st, |x| x.data = s)?;
            set(ex, &ns, |x| x.data = nd)?;
            mv(ex, &st, &ns, amt)
        },
        // Withdraw(lamports): [stake, to, authority]
        4 => {
            let amt = g64(&v, 4)?;
            let (st, to, au) = (a(ex, 0)?, a(ex, 1)?, a(ex, 2)?);
            let s = sacc(ex, &st)?;
            need(au.signer && au.key == s[44..76], "missing signature")?;
            let l = ex.w.lamports(&st.key);
            let active = s[0] == 2 && le64(&s[172..]) == u64::MAX;
            let locked = if active { le64(&s[156..]) + STAKE_RESERVE } else { STAKE_RESERVE };
            if amt == l && !active {
                // as the real program: only the state tag is rewritten
                mv(ex, &st, &to, amt)?;
                return set(ex, &st, |x| x.data[..4].fill(0));
            }
            need(l >= amt && l - amt >= locked, "insufficient funds")?;
            mv(ex, &st, &to, amt)
        },
        // Deactivate: [stake, authority]
        5 => {
            let (st, au) = (a(ex, 0)?, a(ex, 1)?);
            let mut s = sacc(ex, &st)?;
            need(au.signer && au.key == s[12..44], "missing signature")?;
            need(s[0] == 2 && le64(&s[172..]) == u64::MAX, "not delegated")?;
            s[172..180].copy_from_slice(&(ex.w.slot / 432000).to_le_bytes());
            set(ex, &st, |x| x.data = s)
        },
        // SetLockup(Option<timestamp>, Option<epoch>, Option<custodian>): [stake, authority]
        6 => {
            let (st, au) = (a(ex, 0)?, a(ex, 1)?);
            let mut s = sacc(ex, &st)?;
            let in_force = le64(&s[84..]) > ex.w.slot / 432000;
            let by = if in_force { 92 } else { 44 };
            need(au.signer && au.key == s[by..by + 32], "missing signature")?;
            let mut p = 4;
            for (at, n) in [(76, 8), (84, 8), (92, 32)] {
                need(v.len() > p, "short data")?;
                p += 1;
                if v[p - 1] == 1 {
                    need(v.len() >= p + n, "short data")?;
                    s[at..at + n].copy_from_slice(&v[p..p + n]);
                    p += n;
                }
            }
            set(ex, &st, |x| x.data = s)
        },
        // Merge: [stake, source stake, authority]
        7 => {
            let (st, so, au) = (a(ex, 0)?, a(ex, 1)?, a(ex, 2)?);
            need(st.key != so.key, "same account")?;
            let (mut s, o) = (sacc(ex, &st)?, sacc(ex, &so)?);
            need(au.signer && au.key == s[12..44], "missing signature")?;
            need(s[12..124] == o[12..124], "different owners or lockups")?;
            let active = |d: &[u8]| d[0] == 2 && le64(&d[172..]) == u64::MAX;
            need(active(&s) == active(&o) && (!active(&s) || s[124..156] == o[124..156]), "different states")?;
            if active(&s) {
                let t = le64(&s[156..]) + le64(&o[156..]);
                s[156..164].copy_from_slice(&t.to_le_bytes());
            }
            set(ex, &st, |x| x.data = s)?;
            set(ex, &so, |x| x.data[..4].fill(0))?;
            let amt = ex.w.lamports(&so.key);
            mv(ex, &so, &st, amt)
        },
        _ => rt("unknown stake instruction"),
    }
}

// ---------- secp256r1 precompile (ideal signatures) ----------
fn r1(ex: &mut Exec) -> Res {
    let v = d(ex);
    need(v.len() >= 2, "short data")?;
    let n = v[0] as usize;
    need(n >= 1 && n <= 8, "bad count")?;
    need(v.len() >= 2 + 14 * n, "short data")?;
    for i in 0..n {
        let o = &v[2 + 14 * i..];
        let f = |k: usize| le16(&o[2 * k..]) as usize;
        let fetch = |ix: usize, off: usize, len: usize| -> Option<Vec<u8>> {
            let data: &[u8] = if ix == 0xffff { &v } else { &ex.tx.ixs.get(ix)?.data };
            data.get(off..off + len).map(|x| x.to_vec())
        };
        let (Some(sig), Some(pk), Some(msg)) =
            (fetch(f(1), f(0), 64), fetch(f(3), f(2), 33), fetch(f(6), f(4), f(5)))
        else {
            return rt("bad offsets");
        };
        need(ex.w.r1sigs.contains(&(pk, msg, sig)), "bad signature")?;
    }
    Ok(())
}

// ---------- program-exec authority program ----------
pub const EXEC_OK: [u8; 8] = [1, 2, 3, 4, 5, 6, 7, 8];
pub const EXEC_BAD: [u8; 8] = [9; 8];
pub const EXEC_PROOF: [u8; 8] = *b"rplauth1";
fn exec_prog(ex: &mut Exec) -> Res {
    let v = d(ex);
    need(v.len() >= 8, "short data")?;
    let disc: [u8; 8] = v[..8].try_into().unwrap();
    if disc == EXEC_PROOF {
        a(ex, 1)?;
        return Ok(());
    }
    need(disc == EXEC_OK || disc == EXEC_BAD, "unknown discriminator")?;
    a(ex, 3)?;
    let st = a(ex, 2)?;
    let s = ex.w.data(&st.key);
    if !s.is_empty() && s[0] != 0 {
        return Err(Fail::Code(999));
    }
    Ok(())
}

// ---------- scriptable program ----------
/// Ops: 0 fail | 1 write(acct u8, off u16, len u8, bytes) | 2 move(from, to,
/// amt u64) | 3 cpi(program acct u8, n u8, (acct u8, flags u8)*, dlen u16,
/// data) | 4 resize(acct u8, len u16) | 5 nop(label u8)
fn script(ex: &mut Exec) -> Res {
    let v = d(ex);
    // called as if it were a token program: says yes to a transfer or closing
    if matches!((v.first(), v.len()), (Some(3), 9) | (Some(12), 10) | (Some(9), 1)) {
        return Ok(());
    }
    let mut p = 0;
    let mut steps = 0;
    while p < v.len() {
        steps += 1;
        need(steps < 64, "script too long")?;
        let op = v[p];
        p += 1;
        let g8 = |o: usize| v.get(o).copied().map(|x| x as usize).ok_or(Fail::Rt("short script"));
        let g16 = |o: usize| v.get(o..o + 2).map(|x| le16(x) as usize).ok_or(Fail::Rt("short script"));
        match op {
            0 => return Err(Fail::Code(77)),
            1 => {
                let (i, o, l) = (g8(p)?, g16(p + 1)?, g8(p + 3)?);
                let Some(b) = v.get(p + 4..p + 4 + l) else { return rt("short script") };
                let b = b.to_vec();
                p += 4 + l;
                let mt = a(ex, i)?;
                need(ex.w.data(&mt.key).len() >= o + l, "write out of range")?;
                set(ex, &mt, |x| x.data[o..o + l].copy_from_slice(&b))?;
            },
            2 => {
                let (f, t, amt) = (g8(p)?, g8(p + 1)?, g64(&v, p + 2)?);
                p += 10;
                let (f, t) = (a(ex, f)?, a(ex, t)?);
                mv(ex, &f, &t, amt)?;
            },
            3 => {
                let (pi, n) = (g8(p)?, g8(p + 1)?);
                p += 2;
                let mut metas = vec![];
                for _ in 0..n {
                    let mt = a(ex, g8(p)?)?;
                    let fl = g8(p + 1)?;
                    p += 2;
                    metas.push(m(mt.key, fl & 1 != 0, fl & 2 != 0));
                }
                let l = g16(p)?;
                p += 2;
                let Some(b) = v.get(p..p + l) else { return rt("short script") };
                let data = b.to_vec();
                p += l;
                let program = a(ex, pi)?.key;
                ex.cpi(Ix { program, metas, data }, &[])?;
            },
            4 => {
                let (i, l) = (g8(p)?, g16(p + 1)?);
                p += 3;
                let mt = a(ex, i)?;
                set(ex, &mt, |x| x.data.resize(l, 0))?;
            },
            5 => {
                p += 1;
            },
            _ => return rt("bad script op"),
        }
    }
    Ok(())
}
