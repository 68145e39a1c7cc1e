//! The client-side library of the repository, linked as ordinary host code: the
//! published readers and the request compaction helper (P27, P31). Every state
//! the simulator reaches is read back and compared with the reference decoding;
//! requests of some steps are assembled by the real helper.
use crate::rt::*;
use crate::util::*;
use crate::work::*;
use crate::model::tg;
#[allow(unused_imports)]
use crate::native::ids;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub type Hook = Rc<dyn Fn(&mut Vec<Viol>, &mut Stats, &World, &World, &[Wal], &Tx)>;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static REAL: Cell<bool> = const { Cell::new(false) };
    static BAD: RefCell<Vec<Viol>> = const { RefCell::new(vec![]) };
    static USED: Cell<u64> = const { Cell::new(0) };
}
/// Whether requests of this step are assembled by the real helper.
pub fn begin(seed: u64) {
    REAL.with(|r| r.set(ON.with(|o| o.get()) && fnv(seed, b"compaction") >> 13 & 1 == 1));
}
/// Violations seen and requests assembled since the last call.
pub fn drain() -> (Vec<Viol>, u64) {
    (BAD.with(|b| std::mem::take(&mut *b.borrow_mut())), USED.with(|u| u.replace(0)))
}
#[allow(dead_code)]
fn bad(s: String) {
    BAD.with(|b| b.borrow_mut().push(Viol { tags: tg(&[31, 27]), msg: s }));
}

/// P32: the same request from the published builders.
#[cfg(not(feature = "iface"))]
pub fn compare(_: &mut Sim, _: &mut Rng, _: &[crate::client::Part]) -> Option<Tx> {
    None
}
#[cfg(all(feature = "iface", not(feature = "sdk")))]
pub use crate::iface::compare;
/// P33: the same request through the wallet client.
#[cfg(feature = "sdk")]
pub use crate::sdk::compare;

#[cfg(not(feature = "host"))]
mod real {
    use super::*;
    pub fn hook(_prop: u32) -> Option<Hook> {
        None
    }
    pub fn compact(_: &mut Vec<Meta>, _: &[Ix], _: &[Key]) -> Option<Vec<u8>> {
        None
    }
}
#[cfg(feature = "host")]
mod real {
    use super::*;
    use crate::layout as l;
    use crate::layout::{act, aty, subject};
    use solana_program::{
        instruction::{AccountMeta, Instruction},
        pubkey::Pubkey,
    };
    use swig_compact_instructions::{compact_instructions, compact_instructions_sub_account};
    use swig_state::action as sa;
    use swig_state::swig::{Swig, SwigWithRoles};
    use swig_state::Transmutable;

    pub fn hook(prop: u32) -> Option<Hook> {
        ON.with(|o| o.set(matches!(prop, 27 | 31)));
        if prop != 31 {
            return None;
        }
        Some(Rc::new(|out, st, w, before, wals, _tx| {
            for wl in wals {
                let Some(a) = w.accts.get(&wl.swig) else { continue };
                if before.accts.get(&wl.swig).is_some_and(|o| Rc::ptr_eq(o, a)) {
                    continue;
                }
                if a.owner != ids().swig {
                    continue;
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| wallet(&a.data)));
                st.facet[31] += 1;
                st.facet_ok[31] += 1;
                st.inc("wallets read back by the published readers");
                let msg = match r {
                    Ok(Ok(n)) => {
                        *st.c.entry("answers of the readers compared").or_insert(0) += n;
                        continue;
                    },
                    Ok(Err(e)) => e,
                    Err(_) => "a reader panicked".into(),
                };
                out.push(Viol { tags: tg(&[31]), msg: format!("published readers: {msg}") });
            }
            for (k, a) in &w.accts {
                if a.owner != ids().swig || a.data.first() != Some(&2) || a.data.len() != 72 {
                    continue;
                }
                if before.accts.get(k).is_some_and(|o| Rc::ptr_eq(o, a)) {
                    continue;
                }
                st.inc("sub-account states read back by the published readers");
                if let Err(e) = sub_state(&a.data) {
                    out.push(Viol { tags: tg(&[31]), msg: format!("published readers: {e}") });
                }
            }
        }))
    }

    struct Aligned {
        b: Vec<u64>,
        n: usize,
    }
    impl Aligned {
        fn new(d: &[u8]) -> Self {
            let mut b = vec![0u64; d.len().div_ceil(8) + 1];
            unsafe { std::ptr::copy_nonoverlapping(d.as_ptr(), b.as_mut_ptr() as *mut u8, d.len()) };
            Aligned { b, n: d.len() }
        }
        fn get(&self) -> &[u8] {
            unsafe { std::slice::from_raw_parts(self.b.as_ptr() as *const u8, self.n) }
        }
    }
    fn raw<T>(t: &T) -> &[u8] {
        unsafe { std::slice::from_raw_parts(t as *const T as *const u8, std::mem::size_of::<T>()) }
    }
    type R = Result<u64, String>;
    macro_rules! same {
        ($n:ident, $a:expr, $b:expr, $($what:tt)*) => {{
            $n += 1;
            let (a, b) = (&$a, &$b);
            if *a != *b {
                return Err(format!("{}: read {a:?}, stored {b:?}", format!($($what)*)));
            }
        }};
    }

    fn sub_state(d: &[u8]) -> R {
        let mut n = 0;
        let b = Aligned::new(d);
        let s = unsafe { swig_state::sub_account_v2::SubAccountV2::load_unchecked(b.get()) }.map_err(|e| format!("sub-account state: {e:?}"))?;
        same!(n, s.check_discriminator().is_ok(), true, "sub-account state kind");
        same!(n, (s.bump, s.asset_bump, s.subacc_id, s.swig_id, s.sub_account), (d[1], d[2], le32(&d[4..]), d[8..40].try_into().unwrap(), d[40..72].try_into().unwrap()), "sub-account state");
        same!(n, s.is_enabled().ok(), Some(d[3] == 1), "sub-account switch");
        Ok(n)
    }

    fn wallet(d: &[u8]) -> R {
        let mut n = 0u64;
        let b = Aligned::new(d);
        let b = b.get();
        if d.first() != Some(&1) {
            return Ok(n);
        }
        let Ok(s) = l::Swig::decode(d) else { return Ok(n) };
        let e = |x: &str| {
            let x = x.to_string();
            move |e: _| format!("{x}: {e:?}")
        };
        let p = Swig::split_parts(b).map_err(e("split"))?;
        let rl = d.len() - 48 - s.tail.len();
        same!(n, p.roles, &d[48..48 + rl], "role table");
        same!(n, p.tail, &s.tail[..], "trailing data");
        same!(n, Swig::split_roles_and_tail(b).map(|x| x.0.len()), Ok(rl), "role table length");
        same!(n, Swig::roles_end_offset(b), Ok(48 + rl), "end of the role table");
        same!(n, swig_state::tail::rent_claimer::read_strict(p.tail).map(|x| x.copied()).map_err(|_| ()), s.claimer(), "rent claimer");
        same!(n, swig_state::tail::rent_claimer::read(p.tail).map(|x| x.copied()).map_err(|_| ()), s.claimer(), "rent claimer");
        let v = SwigWithRoles::from_bytes(b).map_err(e("wallet"))?;
        same!(n, (v.state.discriminator, v.state.bump, v.state.id, v.state.roles as usize, v.state.role_counter), (s.disc, s.bump, s.id, s.roles.len(), s.counter), "header");
        same!(n, (v.state.wallet_bump, v.state._padding, v.state.sub_account_counter), (s.ext[0], s.ext[1..4].try_into().unwrap(), s.sub_counter()), "header extension");
        for id in 0..s.counter.min(40) + 2 {
            if s.role(id).is_none() {
                same!(n, v.get_role(id).map(|x| x.is_none()).map_err(|_| ()), Ok(true), "absent role {id}");
            }
        }
        for ro in &s.roles {
            let id = ro.id;
            let x = v.get_role(id).map_err(e("role"))?.ok_or_else(|| format!("role {id} not found"))?;
            let pos = x.position;
            let acts = l::encode_acts(&ro.acts);
            same!(n, (pos.id(), pos.authority_type().map(|t| t as u16).ok(), pos.authority_length() as usize, pos.num_actions() as usize), (id, Some(ro.aty), ro.auth.len(), ro.acts.len()), "role {id}");
            same!(n, (pos.id, pos.authority_type, pos.authority_length as usize, pos.num_actions as usize), (id, ro.aty, ro.auth.len(), ro.acts.len()), "role {id}");
            same!(n, x.authority_type().map(|t| t as u16).ok(), Some(ro.aty), "role {id} authority kind");
            same!(n, x.actions, &acts[..], "role {id} permissions");
            let au = x.authority;
            same!(n, (au.authority_type() as u16, au.length(), au.session_based()), (ro.aty, ro.auth.len(), ro.session()), "role {id} authority");
            let stored = unsafe { std::slice::from_raw_parts(au as *const _ as *const u8, ro.auth.len()) };
            same!(n, stored, &ro.auth[..], "role {id} authority data");
            let (ident, odo): (&[u8], Option<u32>) = match ro.aty {
                aty::ED | aty::ED_S => (&ro.auth[..32], None),
                aty::PX | aty::PX_S => (&ro.auth[40..40 + (ro.auth[32] as usize).min(40)], None),
                _ => (&ro.auth[..33], Some(ro.odometer())),
            };
            same!(n, au.identity().map_err(|_| ()), Ok(ident), "role {id} identity");
            same!(n, au.signature_odometer(), odo, "role {id} counter");
            let all = x.get_all_actions().map_err(e("permissions"))?;
            let got: Vec<(u16, u16)> = all.iter().map(|a| (a.permission().map(|p| p as u16).unwrap_or(0), a.length())).collect();
            let want: Vec<(u16, u16)> = ro.acts.iter().map(|a| (a.ty, a.d.len() as u16)).collect();
            same!(n, got, want, "role {id} permission list");
            macro_rules! kind {
                ($t:ty, $k:expr) => {{
                    let stored: Vec<&[u8]> = ro.acts.iter().filter(|a| a.ty == $k).map(|a| &a.d[..]).collect();
                    let got = x.get_all_actions_of_type::<$t>().map_err(e("permissions"))?;
                    same!(n, got.iter().map(|a| raw(*a)).collect::<Vec<_>>(), stored, "role {id} permissions of kind {}", $k);
                    if stored.is_empty() || subject(&ro.acts[ro.find($k).unwrap()]).is_none() {
                        let q = x.get_action::<$t>(&[]).map_err(e("permission"))?;
                        same!(n, q.map(|a| raw(a)), stored.first().copied(), "role {id} permission of kind {}", $k);
                    } else {
                        for a in ro.acts.iter().filter(|a| a.ty == $k) {
                            let key = subject(a).unwrap();
                            let first = ro.find_for($k, key).map(|i| &ro.acts[i].d[..]);
                            let q = x.get_action::<$t>(key).map_err(e("permission"))?;
                            same!(n, q.map(|a| raw(a)), first, "role {id} permission of kind {} by subject", $k);
                            if $k == act::SUB && *key == [0; 32] {
                                let q = x.get_action::<$t>(&[]).map_err(e("permission"))?;
                                same!(n, q.map(|a| raw(a)), first, "role {id} unused sub-account permission");
                            }
                            let mut other = key.to_vec();
                            let last = other.len() - 1;
                            other[last] ^= 0x55;
                            let first = ro.find_for($k, &other).map(|i| &ro.acts[i].d[..]);
                            let q = x.get_action::<$t>(&other).map_err(e("permission"))?;
                            same!(n, q.map(|a| raw(a)), first, "role {id} permission of kind {} for another subject", $k);
                        }
                    }
                }};
            }
            kind!(sa::sol_limit::SolLimit, act::SOL);
            kind!(sa::sol_recurring_limit::SolRecurringLimit, act::SOL_REC);
            kind!(sa::program::Program, act::PROGRAM);
            kind!(sa::program_scope::ProgramScope, act::SCOPE);
            kind!(sa::token_limit::TokenLimit, act::TOK);
            kind!(sa::token_recurring_limit::TokenRecurringLimit, act::TOK_REC);
            kind!(sa::all::All, act::ALL);
            kind!(sa::manage_authority::ManageAuthority, act::MANAGE);
            kind!(sa::sub_account::SubAccount, act::SUB);
            kind!(sa::stake_limit::StakeLimit, act::STAKE);
            kind!(sa::stake_recurring_limit::StakeRecurringLimit, act::STAKE_REC);
            kind!(sa::stake_all::StakeAll, act::STAKE_ALL);
            kind!(sa::program_all::ProgramAll, act::PROG_ALL);
            kind!(sa::program_curated::ProgramCurated, act::PROG_CUR);
            kind!(sa::all_but_manage_authority::AllButManageAuthority, act::ALL_BUT);
            kind!(sa::sol_destination_limit::SolDestinationLimit, act::SOL_DST);
            kind!(sa::sol_recurring_destination_limit::SolRecurringDestinationLimit, act::SOL_REC_DST);
            kind!(sa::token_destination_limit::TokenDestinationLimit, act::TOK_DST);
            kind!(sa::token_recurring_destination_limit::TokenRecurringDestinationLimit, act::TOK_REC_DST);
            kind!(sa::close_swig_authority::CloseSwigAuthority, act::CLOSE);
            kind!(sa::replace_authority::ReplaceAuthority, act::REPLACE);
            kind!(sa::sub_account_v2::SubAccountV2Create, act::V2_CREATE);
            kind!(sa::sub_account_v2::SubAccountV2All, act::V2_ALL);
            kind!(sa::sub_account_v2::SubAccountV2Sign, act::V2_SIGN);
            kind!(sa::sub_account_v2::SubAccountV2Withdraw, act::V2_WITHDRAW);
            kind!(sa::sub_account_v2::SubAccountV2Toggle, act::V2_TOGGLE);

            for a in ro.acts.iter().filter(|a| a.ty == act::SCOPE) {
                let t = &a.d[80..112];
                let first = s.roles.iter().find_map(|r| r.acts.iter().find(|a| a.ty == act::SCOPE && &a.d[80..112] == t).map(|a| (r.id, &a.d[..])));
                // roles are searched by number
                let got = v.find_program_scope_by_target(t);
                let want = first.map(|f| s.roles.iter().filter(|r| r.id < f.0).fold(f, |f, r| if r.id < f.0 { r.acts.iter().find(|a| a.ty == act::SCOPE && &a.d[80..112] == t).map(|a| (r.id, &a.d[..])).unwrap_or(f) } else { f }));
                same!(n, got.as_ref().map(|g| (g.0, raw(&g.1))), want.map(|f| (f.0 as u8, f.1)), "scope on an account");
            }
            // by key: the first role the key fits
            let mut keys: Vec<Vec<u8>> = vec![];
            match ro.aty {
                aty::ED | aty::ED_S => keys.push(ro.auth[..32].to_vec()),
                aty::K1 | aty::K1_S => {
                    keys.push(ro.auth[..33].to_vec());
                    if let Ok(k) = libsecp256k1::PublicKey::parse_slice(&ro.auth[..33], None) {
                        keys.push(k.serialize()[1..].to_vec());
                    }
                },
                aty::R1 | aty::R1_S => keys.push(ro.auth[..33].to_vec()),
                aty::PX => keys.push(ro.auth.clone()),
                _ => {
                    let k = (ro.auth[32] as usize).min(40);
                    keys.push([&ro.auth[..33], &ro.auth[40..40 + k]].concat());
                },
            }
            for k in keys.clone() {
                let mut o = k.clone();
                let i = o.len() / 2 - 1;
                o[i] ^= 1;
                keys.push(o);
                let mut o = k.clone();
                o.pop();
                keys.push(o);
                let mut o = k;
                o.push(0);
                keys.push(o);
            }
            for k in keys {
                let want = s.roles.iter().find(|r| fits(r, &k)).map(|r| r.id);
                same!(n, v.lookup_role_id(&k).map_err(|_| ()), Ok(want), "role of key {}", hex(&k));
            }
        }
        Ok(n)
    }
    fn fits(r: &l::Role, k: &[u8]) -> bool {
        match r.aty {
            aty::ED | aty::ED_S => k == &r.auth[..32],
            aty::K1 | aty::K1_S => match k.len() {
                33 => k == &r.auth[..33],
                64 => l::compress64(k) == r.auth[..33],
                _ => false,
            },
            aty::R1 | aty::R1_S => k == &r.auth[..33],
            aty::PX => {
                let n = (r.auth[32] as usize).min(40);
                k.len() == 80 && k[..33] == r.auth[..33] && k[40..40 + n] == r.auth[40..40 + n]
            },
            _ => {
                let n = (r.auth[32] as usize).min(40);
                k.len() == 33 + n && k[..33] == r.auth[..33] && k[33..] == r.auth[40..40 + n]
            },
        }
    }

    /// Assembles the request with the real helper and checks that it expands to
    /// the instructions that went in.
    pub fn compact(metas: &mut Vec<Meta>, ixs: &[Ix], pdas: &[Key]) -> Option<Vec<u8>> {
        if !REAL.with(|r| r.get()) || metas.len() + ixs.iter().map(|i| 1 + i.metas.len()).sum::<usize>() > 255 {
            return None;
        }
        let key = |k: &Key| Pubkey::new_from_array(*k);
        let am = |x: &Meta| AccountMeta { pubkey: key(&x.key), is_signer: x.signer, is_writable: x.writable };
        let base: Vec<AccountMeta> = metas.iter().map(am).collect();
        let inner: Vec<Instruction> = ixs.iter().map(|i| Instruction { program_id: key(&i.program), accounts: i.metas.iter().map(am).collect(), data: i.data.clone() }).collect();
        // a wallet request names the wallet; a sub-account request also the sub-account
        let sub = metas.first().is_some_and(|x| pdas[1] != x.key);
        let (acc, c) = if sub {
            compact_instructions_sub_account(base[0].pubkey, key(&pdas[0]), base.clone(), inner.clone())
        } else {
            compact_instructions(key(&pdas[ixs.len() % 2]), base.clone(), inner.clone())
        };
        USED.with(|u| u.set(u.get() + 1));
        let bytes = c.into_bytes();
        if let Err(e) = expands(&base, &inner, &acc, &bytes, pdas) {
            bad(format!("compaction helper: {e}"));
            return None;
        }
        *metas = acc.iter().map(|x| m(x.pubkey.to_bytes(), x.is_signer && (label_signable(&x.pubkey.to_bytes()) || metas.iter().any(|b| b.signer && b.key == x.pubkey.to_bytes())), x.is_writable)).collect();
        Some(bytes)
    }
    fn expands(base: &[AccountMeta], inner: &[Instruction], acc: &[AccountMeta], d: &[u8], pdas: &[Key]) -> Result<(), String> {
        let at = |p: usize| d.get(p).copied().ok_or("short encoding");
        if at(0)? as usize != inner.len() {
            return Err("number of instructions".into());
        }
        let mut p = 1;
        for (i, ix) in inner.iter().enumerate() {
            let pi = at(p)? as usize;
            if acc.get(pi).map(|a| a.pubkey) != Some(ix.program_id) {
                return Err(format!("program of instruction {i}"));
            }
            let n = at(p + 1)? as usize;
            if n != ix.accounts.len() {
                return Err(format!("number of accounts of instruction {i}"));
            }
            for (j, x) in ix.accounts.iter().enumerate() {
                let Some(a) = acc.get(at(p + 2 + j)? as usize) else { return Err(format!("account {j} of instruction {i}")) };
                if a.pubkey != x.pubkey {
                    return Err(format!("account {j} of instruction {i}"));
                }
                if x.is_writable && !a.is_writable {
                    return Err(format!("account {j} of instruction {i} lost its write privilege"));
                }
                if x.is_signer && !a.is_signer && !pdas.contains(&x.pubkey.to_bytes()) && !base.iter().any(|b| b.pubkey == x.pubkey) {
                    return Err(format!("account {j} of instruction {i} lost its signature"));
                }
            }
            p += 2 + n;
            let len = at(p)? as usize | (at(p + 1)? as usize) << 8;
            if d.get(p + 2..p + 2 + len) != Some(&ix.data[..]) {
                return Err(format!("data of instruction {i}"));
            }
            p += 2 + len;
        }
        if p != d.len() {
            return Err("bytes left over".into());
        }
        for (i, b) in base.iter().enumerate() {
            if acc.get(i).map(|a| a.pubkey) != Some(b.pubkey) {
                return Err("the caller's accounts moved".into());
            }
        }
        for a in acc {
            let given = |w: bool| {
                base.iter().any(|b| b.pubkey == a.pubkey && if w { b.is_writable } else { b.is_signer })
                    || inner.iter().flat_map(|i| &i.accounts).any(|b| b.pubkey == a.pubkey && if w { b.is_writable } else { b.is_signer })
            };
            if a.is_writable && !given(true) {
                return Err("an account became writable".into());
            }
            if a.is_signer && !given(false) {
                return Err("an account became a signer".into());
            }
            if a.is_signer && pdas[0] == a.pubkey.to_bytes() && !base.iter().any(|b| b.pubkey == a.pubkey) {
                return Err("the wallet was asked to sign the transaction".into());
            }
        }
        Ok(())
    }
}
pub use real::{compact, hook};
