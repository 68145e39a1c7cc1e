//! The published request builders (swig_interface), linked as ordinary host code
//! (P32). A request the simulator has put together byte by byte is taken apart into
//! what it asks for; the builders are asked for the same; both are executed on
//! copies of the ledger. What the program accepts from the hand-made request it has
//! to accept from the builder's, with the same outcome.
use crate::client::*;
use crate::layout::{act, aty, Role, Swig};
use crate::model::tg;
use crate::native::{self, ids};
use crate::rt::*;
use crate::util::*;
use crate::work::*;
use solana_program::{
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
};
use std::cell::RefCell;
use std::rc::Rc;
use swig_interface::*;
use swig_state::action as sa;
use swig_state::authority::AuthorityType;
use anyhow::Error as Err;

pub fn pk(k: &Key) -> Pubkey {
    Pubkey::new_from_array(*k)
}
pub fn am(x: &Meta) -> AccountMeta {
    AccountMeta { pubkey: pk(&x.key), is_signer: x.signer, is_writable: x.writable }
}
pub fn ins(i: &Ix) -> Instruction {
    Instruction { program_id: pk(&i.program), accounts: i.metas.iter().map(am).collect(), data: i.data.clone() }
}
pub fn outs(i: &Instruction) -> Ix {
    Ix { program: i.program_id.to_bytes(), metas: i.accounts.iter().map(|a| m(a.pubkey.to_bytes(), a.is_signer, a.is_writable)).collect(), data: i.data.clone() }
}

#[derive(Clone, Debug)]
pub enum Want {
    Create { id: Key, bump: u8, wb: u8, aty: u16, auth: Vec<u8>, acts: Vec<(u16, Vec<u8>)> },
    Add { aty: u16, auth: Vec<u8>, acts: Vec<(u16, Vec<u8>)> },
    Remove(u32),
    Update(u32, Change),
    Session(Key, u64),
    Replace(u32, Vec<u8>),
    Sign(Vec<Ix>),
    Sub1Create { sub: Key, bump: u8 },
    Sub1Withdraw { sub: Key, amount: u64, tok: Option<[Key; 3]> },
    Sub1Sign { sub: Key, ixs: Vec<Ix> },
    Sub1Toggle { sub: Key, of: u32, on: bool },
    Transfer,
    Claimer(Key),
    CloseTokens { dst: Key, prog: Key, list: Vec<Key> },
    Close(Key),
    Sub2Create { st: Key, sub: Key, sb: u8, ab: u8 },
    Sub2Toggle { st: Key, n: u32, on: bool },
    Sub2Sign { st: Key, sub: Key, n: u32, ixs: Vec<Ix> },
    Sub2Withdraw { st: Key, sub: Key, n: u32, amount: u64, tok: Option<[Key; 3]> },
}
#[derive(Clone, Debug)]
pub enum Change {
    All(Vec<(u16, Vec<u8>)>),
    Add(Vec<(u16, Vec<u8>)>),
    Types(Vec<u8>),
    Indices(Vec<u16>),
}
pub struct Who<'a> {
    pub swig: Key,
    pub wal: Key,
    pub payer: Key,
    pub role: u32,
    pub slot: u64,
    pub counter: u32,
    pub by: By,
    pub keys: &'a Keys,
    /// messages a passkey device was asked to sign
    pub r1: Rc<RefCell<Vec<(Vec<u8>, Vec<u8>, Vec<u8>)>>>,
}
#[derive(Clone)]
pub enum By {
    Ed(Key),
    K1([u8; 33]),
    R1([u8; 33]),
    Px(Instruction, Option<u8>),
}
impl By {
    pub fn name(&self) -> &'static str {
        match self {
            By::Ed(_) => "ed25519",
            By::K1(_) => "secp256k1",
            By::R1(_) => "secp256r1",
            By::Px(_, None) => "program call",
            By::Px(..) => "program call by index",
        }
    }
}
impl Want {
    pub fn name(&self) -> &'static str {
        match self {
            Want::Create { .. } => "create wallet",
            Want::Add { .. } => "add authority",
            Want::Remove(_) => "remove authority",
            Want::Update(_, Change::All(_)) => "update authority: replace all",
            Want::Update(_, Change::Add(_)) => "update authority: add",
            Want::Update(_, Change::Types(_)) => "update authority: remove kinds",
            Want::Update(_, Change::Indices(_)) => "update authority: remove positions",
            Want::Session(..) => "create session",
            Want::Replace(..) => "replace authority",
            Want::Sign(_) => "sign",
            Want::Sub1Create { .. } => "create sub-account",
            Want::Sub1Withdraw { tok: None, .. } => "withdraw from sub-account",
            Want::Sub1Withdraw { .. } => "withdraw tokens from sub-account",
            Want::Sub1Sign { .. } => "sub-account sign",
            Want::Sub1Toggle { .. } => "toggle sub-account",
            Want::Transfer => "transfer assets",
            Want::Claimer(_) => "set rent claimer",
            Want::CloseTokens { .. } => "close token accounts",
            Want::Close(_) => "close wallet",
            Want::Sub2Create { .. } => "create sub-account v2",
            Want::Sub2Toggle { .. } => "toggle sub-account v2",
            Want::Sub2Sign { .. } => "sub-account sign v2",
            Want::Sub2Withdraw { tok: None, .. } => "withdraw from sub-account v2",
            Want::Sub2Withdraw { .. } => "withdraw tokens from sub-account v2",
        }
    }
}

fn acts_of(b: &[u8]) -> Option<Vec<(u16, Vec<u8>)>> {
    let mut out = vec![];
    let mut p = 0;
    while p < b.len() {
        let h = b.get(p..p + 8)?;
        let n = le16(&h[2..]) as usize;
        let t = le16(h);
        if crate::layout::act_len(t) != Some(n) {
            return None;
        }
        out.push((t, b.get(p + 8..p + 8 + n)?.to_vec()));
        p += 8 + n;
    }
    Some(out)
}
/// Inner instructions of a compact list, with the privileges the list grants.
fn expand(d: &[u8], metas: &[Meta], pdas: &[Key], w: &World) -> Option<Vec<Ix>> {
    let mut p = 1;
    let mut out = vec![];
    for _ in 0..*d.first()? {
        let program = metas.get(*d.get(p)? as usize)?.key;
        let n = *d.get(p + 1)? as usize;
        let mut v = vec![];
        for i in d.get(p + 2..p + 2 + n)? {
            let x = metas.get(*i as usize)?;
            // privileges as the transaction will grant them
            let writable = metas.iter().any(|y| y.key == x.key && y.writable) && !native::reserved(&x.key) && !w.peek(&x.key).map(|a| a.exec).unwrap_or(false);
            let signer = pdas.contains(&x.key) || metas.iter().any(|y| y.key == x.key && y.signer);
            v.push(m(x.key, signer, writable));
        }
        p += 2 + n;
        let l = le16(d.get(p..p + 2)?) as usize;
        out.push(Ix { program, metas: v, data: d.get(p + 2..p + 2 + l)?.to_vec() });
        p += 2 + l;
    }
    (p == d.len()).then_some(out)
}
/// What a hand-made request asks for, with the account it names as payer.
pub fn decode(ix: &Ix, w: &World) -> Option<(Want, Option<Key>)> {
    let d = &ix.data;
    let k = |i: usize| ix.metas.get(i).map(|x| x.key);
    let n = ix.metas.len();
    let op = le16(d.get(..2)?);
    let at32 = |o: usize| d.get(o..o + 4).map(le32);
    let at64 = |o: usize| d.get(o..o + 8).map(le64);
    let key = |o: usize| d.get(o..o + 32).map(|x| Key::try_from(x).unwrap());
    let len2 = le16(d.get(2..4)?) as usize;
    let tok = |a: usize| -> Option<Option<[Key; 3]>> {
        match n.checked_sub(a)? {
            0 => Some(None),
            3 => Some(Some([k(a)?, k(a + 1)?, k(a + 2)?])),
            _ => None,
        }
    };
    let want = match op {
        0 => {
            let l = le16(d.get(4..6)?) as usize;
            return Some((Want::Create { id: key(8)?, bump: d[6], wb: d[7], aty: le16(d.get(2..4)?), auth: d.get(40..40 + l)?.to_vec(), acts: acts_of(d.get(40 + l..)?)? }, k(1)));
        },
        1 if n == 3 => {
            let a = d.get(16 + len2..)?;
            let acts = acts_of(a)?;
            if a.len() != le16(d.get(4..6)?) as usize || d[8] as usize != acts.len() {
                return None;
            }
            (Want::Add { aty: le16(&d[6..8]), auth: d.get(16..16 + len2)?.to_vec(), acts }, k(1))
        },
        2 if n == 3 => (Want::Remove(at32(12)?), k(1)),
        3 if n == 3 => {
            let b = d.get(16..)?;
            let r = b.get(1..)?;
            let c = match b[0] {
                _ if d[4] != 0 => Change::All(acts_of(b)?),
                0 => Change::All(acts_of(r)?),
                1 => Change::Add(acts_of(r)?),
                2 => Change::Types(r.to_vec()),
                3 if r.len() % 2 == 0 => Change::Indices(r.chunks(2).map(le16).collect()),
                _ => return None,
            };
            (Want::Update(at32(12)?, c), k(1))
        },
        5 if n == 3 => (Want::Session(key(16)?, at64(8)?), k(1)),
        6 if n == 4 => (Want::Sub1Create { sub: k(2)?, bump: d[8] }, k(1)),
        7 => (Want::Sub1Withdraw { sub: k(2)?, amount: at64(8)?, tok: tok(6)? }, k(1)),
        9 => {
            let sub = k(1)?;
            (Want::Sub1Sign { sub, ixs: expand(d.get(16..16 + len2)?, &ix.metas, &[sub], w)? }, None)
        },
        10 if n == 3 => (Want::Sub1Toggle { sub: k(2)?, of: at32(8)?, on: d[2] == 1 }, k(1)),
        11 => (Want::Sign(expand(d.get(8..8 + len2)?, &ix.metas, &[k(1)?], w)?), None),
        13 if n == 4 => (Want::Transfer, k(2)),
        14 => {
            let off = le16(&d[2..4]) as usize;
            (Want::CloseTokens { dst: k(2)?, prog: k(3)?, list: ix.metas.get(off..)?.iter().map(|x| x.key).collect() }, None)
        },
        15 if n == 4 => (Want::Close(k(2)?), None),
        16 => {
            let l = le16(d.get(12..14)?) as usize;
            (Want::Replace(at32(8)?, d.get(16..16 + l)?.to_vec()), None)
        },
        17 if n == 3 => (Want::Claimer(key(8)?), k(1)),
        18 if n == 5 => (Want::Sub2Create { st: k(2)?, sub: k(3)?, sb: d[8], ab: d[9] }, k(1)),
        19 if n == 3 => (Want::Sub2Toggle { st: k(2)?, n: at32(8)?, on: d[2] == 1 }, k(1)),
        20 => {
            let sub = k(2)?;
            (Want::Sub2Sign { st: k(1)?, sub, n: at32(8)?, ixs: expand(d.get(16..16 + len2)?, &ix.metas, &[sub], w)? }, None)
        },
        21 => (Want::Sub2Withdraw { st: k(2)?, sub: k(3)?, n: at32(8)?, amount: at64(16)?, tok: tok(7)? }, k(1)),
        _ => return None,
    };
    Some(want)
}

fn of<T>(d: &[u8]) -> Option<T> {
    (std::mem::size_of::<T>() == d.len()).then(|| unsafe { std::ptr::read_unaligned(d.as_ptr() as *const T) })
}
pub fn action(t: u16, d: &[u8]) -> Option<ClientAction> {
    use ClientAction as C;
    Some(match t {
        act::SOL => C::SolLimit(of(d)?),
        act::SOL_REC => C::SolRecurringLimit(of(d)?),
        act::PROGRAM => C::Program(of(d)?),
        act::SCOPE => C::ProgramScope(of(d)?),
        act::TOK => C::TokenLimit(of(d)?),
        act::TOK_REC => C::TokenRecurringLimit(of(d)?),
        act::ALL => C::All(sa::all::All {}),
        act::MANAGE => C::ManageAuthority(sa::manage_authority::ManageAuthority {}),
        act::SUB => C::SubAccount(of(d)?),
        act::STAKE => C::StakeLimit(of(d)?),
        act::STAKE_REC => C::StakeRecurringLimit(of(d)?),
        act::STAKE_ALL => C::StakeAll(sa::stake_all::StakeAll {}),
        act::PROG_ALL => C::ProgramAll(sa::program_all::ProgramAll {}),
        act::PROG_CUR => C::ProgramCurated(of(d)?),
        act::ALL_BUT => C::AllButManageAuthority(sa::all_but_manage_authority::AllButManageAuthority {}),
        act::SOL_DST => C::SolDestinationLimit(of(d)?),
        act::SOL_REC_DST => C::SolRecurringDestinationLimit(of(d)?),
        act::TOK_DST => C::TokenDestinationLimit(of(d)?),
        act::TOK_REC_DST => C::TokenRecurringDestinationLimit(of(d)?),
        act::CLOSE => C::CloseSwigAuthority(sa::close_swig_authority::CloseSwigAuthority {}),
        act::REPLACE => C::ReplaceAuthority(of(d)?),
        act::V2_CREATE => C::SubAccountV2Create(sa::sub_account_v2::SubAccountV2Create {}),
        act::V2_ALL => C::SubAccountV2All(of(d)?),
        act::V2_SIGN => C::SubAccountV2Sign(of(d)?),
        act::V2_WITHDRAW => C::SubAccountV2Withdraw(of(d)?),
        act::V2_TOGGLE => C::SubAccountV2Toggle(of(d)?),
        _ => return None,
    })
}
pub fn actions(v: &[(u16, Vec<u8>)]) -> Option<Vec<ClientAction>> {
    v.iter().map(|(t, d)| action(*t, d)).collect()
}
pub fn kind(t: u16) -> Option<AuthorityType> {
    AuthorityType::try_from(t).ok()
}
pub fn k1_sign(keys: &Keys, who: &[u8; 33], h: &[u8]) -> [u8; 65] {
    let sk = keys.k1[who].0;
    let (sig, rid) = libsecp256k1::sign(&libsecp256k1::Message::parse(h.try_into().unwrap()), &sk);
    let mut o = [0; 65];
    o[..64].copy_from_slice(&sig.serialize());
    o[64] = 27 + rid.serialize();
    o
}

/// The same request from the builders; None where they have no such request.
pub fn build(want: &Want, w: &Who) -> Option<Result<Vec<Instruction>, String>> {
    let (swig, wal, payer, role, slot, ctr) = (pk(&w.swig), pk(&w.wal), pk(&w.payer), w.role, w.slot, w.counter);
    let one = |x: Result<Instruction, _>| Some(x.map(|i| vec![i]).map_err(|e: Err| e.to_string()));
    let many = |x: Result<Vec<Instruction>, _>| Some(x.map_err(|e: Err| e.to_string()));
    let k1 = |h: &[u8]| -> [u8; 65] {
        let By::K1(k) = &w.by else { unreachable!() };
        k1_sign(w.keys, k, h)
    };
    let r1 = |h: &[u8]| -> [u8; 64] {
        let By::R1(k) = &w.by else { unreachable!() };
        let s = r1_sig(k, h);
        w.r1.borrow_mut().push((k.to_vec(), h.to_vec(), s.clone()));
        s.try_into().unwrap()
    };
    let inner = |v: &[Ix]| -> Vec<Instruction> { v.iter().map(ins).collect() };
    match want {
        Want::Create { id, bump, wb, aty, auth, acts } => {
            let c = AuthorityConfig { authority_type: kind(*aty)?, authority: auth };
            one(CreateInstruction::new(swig, *bump, payer, wal, *wb, c, actions(acts)?, *id))
        },
        Want::Add { aty, auth, acts } => {
            let c = AuthorityConfig { authority_type: kind(*aty)?, authority: auth };
            let v = actions(acts)?;
            use AddAuthorityInstruction as B;
            match &w.by {
                By::Ed(k) => one(B::new_with_ed25519_authority(swig, payer, pk(k), role, c, v)),
                By::K1(_) => one(B::new_with_secp256k1_authority(swig, payer, k1, slot, ctr, role, c, v)),
                By::R1(k) => many(B::new_with_secp256r1_authority(swig, payer, r1, slot, ctr, role, k, c, v)),
                By::Px(p, None) => many(B::new_with_program_exec(swig, payer, p.clone(), role, c, v)),
                By::Px(p, Some(i)) => many(B::new_with_program_exec_ix_index(swig, payer, p.clone(), role, c, v, *i)),
            }
        },
        Want::Remove(t) => {
            use RemoveAuthorityInstruction as B;
            match &w.by {
                By::Ed(k) => one(B::new_with_ed25519_authority(swig, payer, pk(k), role, *t)),
                By::K1(_) => one(B::new_with_secp256k1_authority(swig, payer, k1, slot, ctr, role, *t)),
                By::R1(k) => many(B::new_with_secp256r1_authority(swig, payer, r1, slot, ctr, role, *t, k)),
                By::Px(p, None) => many(B::new_with_program_exec(swig, payer, p.clone(), role, *t)),
                By::Px(p, Some(i)) => many(B::new_with_program_exec_ix_index(swig, payer, p.clone(), role, *t, *i)),
            }
        },
        Want::Update(t, c) => {
            use UpdateAuthorityInstruction as B;
            let u = match c {
                Change::All(v) => UpdateAuthorityData::ReplaceAll(actions(v)?),
                Change::Add(v) => UpdateAuthorityData::AddActions(actions(v)?),
                Change::Types(v) => UpdateAuthorityData::RemoveActionsByType(v.clone()),
                Change::Indices(v) => UpdateAuthorityData::RemoveActionsByIndex(v.clone()),
            };
            match &w.by {
                By::Ed(k) => one(B::new_with_ed25519_authority(swig, payer, pk(k), role, *t, u)),
                By::K1(_) => one(B::new_with_secp256k1_authority(swig, payer, k1, slot, ctr, role, *t, u)),
                By::R1(k) => many(B::new_with_secp256r1_authority(swig, payer, r1, slot, ctr, role, *t, u, k)),
                By::Px(p, None) => many(B::new_with_program_exec(swig, payer, p.clone(), role, *t, u)),
                By::Px(p, Some(i)) => many(B::new_with_program_exec_ix_index(swig, payer, p.clone(), role, *t, u, *i)),
            }
        },
        Want::Session(key, dur) => {
            use CreateSessionInstruction as B;
            let s = pk(key);
            match &w.by {
                By::Ed(k) => one(B::new_with_ed25519_authority(swig, payer, pk(k), role, s, *dur)),
                By::K1(_) => one(B::new_with_secp256k1_authority(swig, payer, k1, slot, ctr, role, s, *dur)),
                By::R1(k) => many(B::new_with_secp256r1_authority(swig, payer, r1, slot, ctr, role, s, *dur, k)),
                By::Px(p, None) => many(B::new_with_program_exec(swig, payer, p.clone(), role, *dur, s)),
                By::Px(p, Some(i)) => many(B::new_with_program_exec_ix_index(swig, payer, p.clone(), role, *dur, s, *i)),
            }
        },
        Want::Replace(t, new) => {
            use ReplaceAuthorityInstruction as B;
            match &w.by {
                By::Ed(k) => one(B::new_with_ed25519_authority(swig, pk(k), role, *t, new)),
                By::K1(_) => one(B::new_with_secp256k1_authority(swig, k1, slot, ctr, role, *t, new)),
                By::R1(k) => many(B::new_with_secp256r1_authority(swig, r1, slot, ctr, role, *t, new, k)),
                By::Px(p, None) => many(B::new_with_program_exec(swig, wal, p.clone(), role, *t, new)),
                By::Px(_, Some(_)) => None,
            }
        },
        Want::Sign(ixs) => {
            use SignV2Instruction as B;
            if ixs.len() != 1 {
                return None;
            }
            let i = ins(&ixs[0]);
            match &w.by {
                By::Ed(k) => one(B::new_ed25519(swig, wal, pk(k), i, role)),
                By::K1(_) => one(B::new_secp256k1(swig, wal, k1, slot, ctr, i, role)),
                By::R1(k) => many(B::new_secp256r1(swig, wal, r1, slot, ctr, i, role, k)),
                By::Px(p, None) => many(B::new_program_exec(swig, wal, payer, p.clone(), i, role)),
                By::Px(p, Some(n)) => many(B::new_program_exec_with_ix_index(swig, wal, payer, p.clone(), i, role, *n)),
            }
        },
        Want::Sub1Create { sub, bump } => {
            use CreateSubAccountInstruction as B;
            let s = pk(sub);
            match &w.by {
                By::Ed(k) => one(B::new_with_ed25519_authority(swig, pk(k), payer, s, role, *bump)),
                By::K1(_) => one(B::new_with_secp256k1_authority(swig, payer, k1, slot, ctr, s, role, *bump)),
                By::R1(k) => many(B::new_with_secp256r1_authority(swig, payer, r1, slot, ctr, s, role, *bump, k)),
                By::Px(p, None) => many(B::new_with_program_exec(swig, payer, p.clone(), s, role, *bump)),
                By::Px(p, Some(i)) => many(B::new_with_program_exec_ix_index(swig, payer, p.clone(), s, role, *bump, *i)),
            }
        },
        Want::Sub1Withdraw { sub, amount, tok } => {
            use WithdrawFromSubAccountInstruction as B;
            let (s, a) = (pk(sub), *amount);
            match (tok, &w.by) {
                (None, By::Ed(k)) => one(B::new_with_ed25519_authority(swig, pk(k), payer, s, wal, role, a)),
                (None, By::K1(_)) => one(B::new_with_secp256k1_authority(swig, payer, k1, slot, ctr, s, wal, role, a)),
                (None, By::R1(k)) => many(B::new_with_secp256r1_authority(swig, payer, r1, slot, ctr, s, wal, role, a, k)),
                (None, By::Px(p, None)) => many(B::new_with_program_exec(swig, payer, p.clone(), s, wal, role, a)),
                (None, By::Px(p, Some(i))) => many(B::new_with_program_exec_ix_index(swig, payer, p.clone(), s, wal, role, a, *i)),
                (Some(t), by) => {
                    let [x, y, z] = [pk(&t[0]), pk(&t[1]), pk(&t[2])];
                    match by {
                        By::Ed(k) => one(B::new_token_with_ed25519_authority(swig, pk(k), payer, s, wal, x, y, z, role, a)),
                        By::K1(_) => one(B::new_token_with_secp256k1_authority(swig, payer, k1, slot, ctr, s, wal, x, y, z, role, a)),
                        By::R1(k) => many(B::new_token_with_secp256r1_authority(swig, payer, r1, slot, ctr, s, wal, x, y, z, role, a, k)),
                        By::Px(p, None) => many(B::new_token_with_program_exec(swig, payer, p.clone(), s, wal, x, y, z, role, a)),
                        By::Px(p, Some(i)) => many(B::new_token_with_program_exec_ix_index(swig, payer, p.clone(), s, wal, x, y, z, role, a, *i)),
                    }
                },
            }
        },
        Want::Sub1Sign { sub, ixs } => {
            use SubAccountSignInstruction as B;
            let (s, v) = (pk(sub), inner(ixs));
            match &w.by {
                By::Ed(k) => one(B::new_with_ed25519_authority(swig, s, pk(k), role, v)),
                By::K1(_) => one(B::new_with_secp256k1_authority(swig, s, k1, slot, ctr, role, v)),
                By::R1(k) => many(B::new_with_secp256r1_authority(swig, s, r1, slot, ctr, role, v, k)),
                By::Px(p, None) => many(B::new_with_program_exec(swig, s, p.clone(), role, v)),
                By::Px(p, Some(i)) => many(B::new_with_program_exec_ix_index(swig, s, p.clone(), role, v, *i)),
            }
        },
        Want::Sub1Toggle { sub, of, on } => {
            use ToggleSubAccountInstruction as B;
            let s = pk(sub);
            match &w.by {
                By::Ed(k) => one(B::new_with_ed25519_authority(swig, pk(k), payer, s, *of, role, *on)),
                By::K1(_) => one(B::new_with_secp256k1_authority(swig, payer, k1, slot, ctr, s, *of, role, *on)),
                By::R1(k) => many(B::new_with_secp256r1_authority(swig, payer, r1, slot, ctr, s, *of, role, *on, k)),
                By::Px(p, None) => many(B::new_with_program_exec(swig, payer, p.clone(), s, *of, role, *on)),
                By::Px(p, Some(i)) => many(B::new_with_program_exec_ix_index(swig, payer, p.clone(), s, *of, role, *on, *i)),
            }
        },
        Want::Transfer => {
            use TransferAssetsV1Instruction as B;
            match &w.by {
                By::Ed(k) => one(B::new_with_ed25519_authority(swig, wal, payer, pk(k), role)),
                By::K1(_) => one(B::new_with_secp256k1_authority(swig, wal, payer, k1, slot, ctr, role)),
                By::R1(k) => many(B::new_with_secp256r1_authority(swig, wal, payer, r1, slot, ctr, role, k)),
                By::Px(p, None) => many(B::new_with_program_exec(swig, wal, payer, p.clone(), role)),
                By::Px(p, Some(i)) => many(B::new_with_program_exec_ix_index(swig, wal, payer, p.clone(), role, *i)),
            }
        },
        Want::Claimer(c) => {
            use SetRentClaimerV1Instruction as B;
            match &w.by {
                By::Ed(k) => one(B::new_with_ed25519_authority(swig, payer, pk(k), role, *c)),
                By::K1(_) => one(B::new_with_secp256k1_authority(swig, payer, k1, slot, ctr, role, *c)),
                By::R1(k) => many(B::new_with_secp256r1_authority(swig, payer, r1, slot, ctr, role, *c, k)),
                By::Px(..) => None,
            }
        },
        Want::CloseTokens { dst, prog, list } => {
            use CloseTokenAccountV1Instruction as B;
            let (d, p, l) = (pk(dst), pk(prog), list.iter().map(pk).collect());
            match &w.by {
                By::Ed(k) => one(B::new_with_ed25519_authority(swig, wal, pk(k), d, p, l, role)),
                By::K1(_) => one(B::new_with_secp256k1_authority(swig, wal, k1, slot, ctr, d, p, l, role)),
                By::R1(k) => many(B::new_with_secp256r1_authority(swig, wal, r1, slot, ctr, d, p, l, role, k)),
                By::Px(..) => None,
            }
        },
        Want::Close(dst) => {
            use CloseSwigV1Instruction as B;
            let d = pk(dst);
            match &w.by {
                By::Ed(k) => one(B::new_with_ed25519_authority(swig, wal, pk(k), d, role)),
                By::K1(_) => one(B::new_with_secp256k1_authority(swig, wal, k1, slot, ctr, d, role)),
                By::R1(k) => many(B::new_with_secp256r1_authority(swig, wal, r1, slot, ctr, d, role, k)),
                By::Px(..) => None,
            }
        },
        Want::Sub2Create { st, sub, sb, ab } => {
            use CreateSubAccountV2Instruction as B;
            let (t, s) = (pk(st), pk(sub));
            match &w.by {
                By::Ed(k) => one(B::new_with_ed25519_authority(swig, pk(k), payer, t, s, role, *sb, *ab)),
                By::K1(_) => one(B::new_with_secp256k1_authority(swig, payer, k1, slot, ctr, t, s, role, *sb, *ab)),
                By::R1(k) => many(B::new_with_secp256r1_authority(swig, payer, r1, slot, ctr, t, s, role, *sb, *ab, k)),
                By::Px(..) => None,
            }
        },
        Want::Sub2Toggle { st, n, on } => {
            use ToggleSubAccountV2Instruction as B;
            let t = pk(st);
            match &w.by {
                By::Ed(k) => one(B::new_with_ed25519_authority(swig, pk(k), payer, t, role, *n, *on)),
                By::K1(_) => one(B::new_with_secp256k1_authority(swig, payer, k1, slot, ctr, t, role, *n, *on)),
                By::R1(k) => many(B::new_with_secp256r1_authority(swig, payer, r1, slot, ctr, t, role, *n, *on, k)),
                By::Px(..) => None,
            }
        },
        Want::Sub2Sign { st, sub, n, ixs } => {
            use SubAccountSignV2Instruction as B;
            let (t, s, v) = (pk(st), pk(sub), inner(ixs));
            match &w.by {
                By::Ed(k) => one(B::new_with_ed25519_authority(swig, t, s, pk(k), role, *n, v)),
                By::K1(_) => one(B::new_with_secp256k1_authority(swig, t, s, k1, slot, ctr, role, *n, v)),
                By::R1(k) => many(B::new_with_secp256r1_authority(swig, t, s, r1, slot, ctr, role, *n, v, k)),
                By::Px(..) => None,
            }
        },
        Want::Sub2Withdraw { st, sub, n, amount, tok } => {
            use WithdrawFromSubAccountV2Instruction as B;
            let (t, s, a) = (pk(st), pk(sub), *amount);
            match (tok, &w.by) {
                (None, By::Ed(k)) => one(B::new_with_ed25519_authority(swig, pk(k), payer, t, s, wal, role, *n, a)),
                (None, By::K1(_)) => one(B::new_with_secp256k1_authority(swig, payer, k1, slot, ctr, t, s, wal, role, *n, a)),
                (None, By::R1(k)) => many(B::new_with_secp256r1_authority(swig, payer, r1, slot, ctr, t, s, wal, role, *n, a, k)),
                (Some(q), by) => {
                    let [x, y, z] = [pk(&q[0]), pk(&q[1]), pk(&q[2])];
                    match by {
                        By::Ed(k) => one(B::new_token_with_ed25519_authority(swig, pk(k), payer, t, s, wal, x, y, z, role, *n, a)),
                        By::K1(_) => one(B::new_token_with_secp256k1_authority(swig, payer, k1, slot, ctr, t, s, wal, x, y, z, role, *n, a)),
                        By::R1(k) => many(B::new_token_with_secp256r1_authority(swig, payer, r1, slot, ctr, t, s, wal, x, y, z, role, *n, a, k)),
                        By::Px(..) => None,
                    }
                },
                (_, By::Px(..)) => None,
            }
        },
    }
}

pub fn acting(c: &Call, role: &Role) -> Option<By> {
    if role.session() && !c.root {
        return Some(By::Ed(role.session_key()));
    }
    Some(match role.aty {
        aty::ED | aty::ED_S => By::Ed(role.auth[..32].try_into().ok()?),
        aty::K1 | aty::K1_S => By::K1(role.auth[..33].try_into().ok()?),
        aty::R1 | aty::R1_S => By::R1(role.auth[..33].try_into().ok()?),
        _ => return None,
    })
}
/// The counters are keyed by static names.
pub fn fixed(l: String) -> &'static str {
    thread_local!(static L: RefCell<std::collections::BTreeSet<&'static str>> = RefCell::default());
    L.with(|t| {
        let mut t = t.borrow_mut();
        match t.get(l.as_str()) {
            Some(x) => x,
            None => {
                let x: &'static str = Box::leak(l.into_boxed_str());
                t.insert(x);
                x
            },
        }
    })
}
/// Compares two ledgers: the first difference.
pub fn differ(a: &World, b: &World) -> Option<String> {
    for k in a.accts.keys().chain(b.accts.keys()) {
        let (x, y) = (a.get(k), b.get(k));
        if (x.lamports, &x.owner, &x.data) != (y.lamports, &y.owner, &y.data) {
            let i = x.data.iter().zip(y.data.iter()).position(|(p, q)| p != q);
            return Some(format!("account {} differs: lamports {} and {}, length {} and {}, first byte {:?}", short(k), x.lamports, y.lamports, x.data.len(), y.data.len(), i));
        }
    }
    None
}
/// Asks the builders for the same request; None if they cannot express it, or the
/// hand-made one is refused. Otherwise the builder's transaction.
pub fn compare(s: &mut Sim, r: &mut Rng, parts: &[Part]) -> Option<Tx> {
    let [part] = parts else { return None };
    let w = &s.line.w;
    let (ix, call) = match part {
        Part::Raw(i) if i.program == ids().swig && i.data.starts_with(&[0, 0]) => (i.clone(), None),
        Part::Call(c) if c.twist == Twist::None => (Ix { program: ids().swig, metas: c.metas.clone(), data: c.data.clone() }, Some(c.clone())),
        _ => return None,
    };
    let (want, named) = decode(&ix, w)?;
    // the named payer, or one the request mentions with no fewer privileges
    let ok = |k: &Key| !ix.metas.iter().any(|x| x.key == *k && !(x.signer && x.writable));
    let fee = match named {
        Some(k) if r.chance(3, 4) => k,
        _ => [payer(r.below(2)), payer(1), payer(0), payer(2)].into_iter().find(ok)?,
    };
    let keys = s.keys.clone();
    // the hand-made request
    let mut w1 = w.clone();
    let hand = Signer { keys: &keys, w: &mut w1 }.assemble(vec![part.clone()], fee);
    if execute(&mut w1, &hand, None, None).res.is_err() {
        return None;
    }
    let (swig, role) = match &call {
        Some(c) => (c.swig, c.role),
        None => (ix.metas[0].key, 0),
    };
    let wl = match &want {
        Want::Create { id, .. } => Sim::addresses(id),
        _ => s.line.wallets.iter().find(|x| x.swig == swig)?.clone(),
    };
    // signing does not check which wallet it was given when nothing is signed for it
    if matches!(want, Want::Sign(_)) && ix.metas.get(1).map(|x| x.key) != Some(wl.wal) {
        return None;
    }
    // an account listed twice is charged for twice; the builder lists it once
    let twice = |i: usize| w.owner(&ix.metas[i].key) != SYS && ix.metas[..i].iter().any(|x| x.key == ix.metas[i].key);
    if matches!(want, Want::Sign(_)) && (0..ix.metas.len()).any(twice) {
        return None;
    }
    let mut counter = 0;
    let mut fill = 0;
    let by = match &call {
        None => By::Ed([0; 32]),
        Some(c) => {
            let ro = Swig::decode(w.data(&swig)).ok()?.roles.into_iter().find(|x| x.id == role)?;
            if matches!(ro.aty, 3..=6) {
                counter = ro.odometer().wrapping_add(1);
            }
            match acting(c, &ro) {
                Some(b) => b,
                None => {
                    // the registered call the hand-made request used
                    let at = hand.ixs.iter().position(|i| i.program == ids().swig)?;
                    let mut p = hand.ixs[..at].iter().find(|i| i.program[..] == ro.auth[..32])?.clone();
                    let second = match &want {
                        Want::Sign(_) | Want::Transfer | Want::Replace(..) | Want::CloseTokens { .. } | Want::Close(_) => wl.wal,
                        Want::Sub1Sign { sub, .. } => *sub,
                        _ => named?,
                    };
                    p.metas.get_mut(1)?.key = second;
                    fill = r.below(3) as usize;
                    By::Px(ins(&p), (fill > 0 || r.chance(1, 2)).then_some(fill.saturating_sub(1) as u8))
                },
            }
        },
    };
    let r1 = Rc::new(RefCell::new(vec![]));
    let who = Who { swig, wal: wl.wal, payer: named.unwrap_or(fee), role, slot: w.slot, counter, by: by.clone(), keys: &keys, r1: r1.clone() };
    let label = format!("{} by {}", want.name(), by.name());
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| build(&want, &who)));
    let list = match res {
        Ok(None) => return None,
        Ok(Some(Ok(l))) => l,
        Ok(Some(Err(e))) => {
            s.viol(tg(&[32]), format!("request builder: {label}: {e}"));
            return None;
        },
        Err(_) => {
            s.viol(tg(&[32]), format!("request builder: {label}: panicked"));
            return None;
        },
    };
    s.stats.facet[32] += 1;
    let mut ixs: Vec<Ix> = list.iter().map(outs).collect();
    let noop = Ix { program: ids().script[2], metas: vec![], data: vec![5, 1] };
    match fill {
        1 => ixs.insert(1, noop),
        2 => ixs.insert(0, noop),
        _ => {},
    }
    let mut signers: std::collections::BTreeSet<Key> = ixs.iter().flat_map(|i| i.metas.iter()).filter(|x| x.signer).map(|x| x.key).collect();
    signers.insert(fee);
    if let Some(k) = signers.iter().find(|k| !hand.signers.contains(*k) && named != Some(**k)) {
        s.viol(tg(&[32]), format!("request builder: {label}: asks for a signature of {}", short(k)));
        return None;
    }
    let tx = Tx { ixs, signers, payer: fee };
    let sigs = std::mem::take(&mut *r1.borrow_mut());
    Rc::make_mut(&mut s.line.w.r1sigs).extend(sigs);
    let mut w2 = s.line.w.clone();
    let out = execute(&mut w2, &tx, None, None).res;
    if out.is_err() {
        s.viol(tg(&[32]), format!("request builder: {label}: the program refuses it ({out:?})"));
        return None;
    }
    if let Some(d) = differ(&w1, &w2) {
        s.viol(tg(&[32]), format!("request builder: {label}: other outcome than asked for: {d}"));
        return None;
    }
    s.stats.facet_ok[32] += 1;
    s.stats.inc(fixed(label));
    Some(tx)
}
