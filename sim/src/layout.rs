//! The reference decoder and encoder of a wallet configuration account, and the
//! pure rules of roles and permissions. Shares no code with /repo.
use crate::util::*;

pub mod aty {
    pub const ED: u16 = 1;
    pub const ED_S: u16 = 2;
    pub const K1: u16 = 3;
    pub const K1_S: u16 = 4;
    pub const R1: u16 = 5;
    pub const R1_S: u16 = 6;
    pub const PX: u16 = 7;
    pub const PX_S: u16 = 8;
}
pub mod act {
    pub const SOL: u16 = 1;
    pub const SOL_REC: u16 = 2;
    pub const PROGRAM: u16 = 3;
    pub const SCOPE: u16 = 4;
    pub const TOK: u16 = 5;
    pub const TOK_REC: u16 = 6;
    pub const ALL: u16 = 7;
    pub const MANAGE: u16 = 8;
    pub const SUB: u16 = 9;
    pub const STAKE: u16 = 10;
    pub const STAKE_REC: u16 = 11;
    pub const STAKE_ALL: u16 = 12;
    pub const PROG_ALL: u16 = 13;
    pub const PROG_CUR: u16 = 14;
    pub const ALL_BUT: u16 = 15;
    pub const SOL_DST: u16 = 16;
    pub const SOL_REC_DST: u16 = 17;
    pub const TOK_DST: u16 = 18;
    pub const TOK_REC_DST: u16 = 19;
    pub const CLOSE: u16 = 20;
    pub const REPLACE: u16 = 21;
    pub const V2_CREATE: u16 = 22;
    pub const V2_ALL: u16 = 23;
    pub const V2_SIGN: u16 = 24;
    pub const V2_WITHDRAW: u16 = 25;
    pub const V2_TOGGLE: u16 = 26;
    pub const NAMES: [&str; 27] = ["none", "SolLimit", "SolRecurringLimit", "Program", "ProgramScope", "TokenLimit", "TokenRecurringLimit", "All", "ManageAuthority", "SubAccount", "StakeLimit", "StakeRecurringLimit", "StakeAll", "ProgramAll", "ProgramCurated", "AllButManageAuthority", "SolDestinationLimit", "SolRecurringDestinationLimit", "TokenDestinationLimit", "TokenRecurringDestinationLimit", "CloseSwigAuthority", "ReplaceAuthority", "SubAccountCreate", "SubAccountAllV2", "SubAccountSign", "SubAccountWithdraw", "SubAccountToggle"];
}
/// Body length of each permission kind.
pub fn act_len(t: u16) -> Option<usize> {
    Some(match t {
        1 | 10 | 21 | 23..=26 => 8,
        2 | 11 | 3 | 14 => 32,
        4 => 144,
        5 | 16 => 40,
        6 | 17 => 64,
        7 | 8 | 12 | 13 | 15 | 20 | 22 => 0,
        9 | 18 => 72,
        19 => 96,
        _ => return None,
    })
}
pub fn auth_len(t: u16) -> Option<usize> {
    Some(match t {
        1 => 32,
        2 => 80,
        3 | 5 => 40,
        4 | 6 => 88,
        7 => 80,
        8 => 128,
        _ => return None,
    })
}
pub fn is_session(t: u16) -> bool {
    matches!(t, 2 | 4 | 6 | 8)
}
/// Offset of the session block (key 32, max 8, expiry 8) in the stored authority.
pub fn session_off(t: u16) -> usize {
    match t {
        2 => 32,
        4 | 6 => 40,
        8 => 80,
        _ => unreachable!(),
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Act {
    pub ty: u16,
    pub d: Vec<u8>,
}
impl Act {
    pub fn new(ty: u16, d: Vec<u8>) -> Self {
        Act { ty, d }
    }
    pub fn u64(&self, o: usize) -> u64 {
        le64(&self.d[o..])
    }
    pub fn put(&mut self, o: usize, v: u64) {
        self.d[o..o + 8].copy_from_slice(&v.to_le_bytes());
    }
    pub fn key(&self, o: usize) -> Key {
        self.d[o..o + 32].try_into().unwrap()
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Role {
    pub id: u32,
    pub aty: u16,
    pub auth: Vec<u8>,
    pub acts: Vec<Act>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Swig {
    pub disc: u8,
    pub bump: u8,
    pub id: Key,
    pub counter: u32,
    /// bytes 40..48: wallet bump, pad, sub-account counter (or, in the old format, reserved lamports)
    pub ext: [u8; 8],
    pub roles: Vec<Role>,
    pub tail: Vec<u8>,
}
impl Role {
    pub fn has(&self, t: u16) -> bool {
        self.acts.iter().any(|a| a.ty == t)
    }
    pub fn find(&self, t: u16) -> Option<usize> {
        self.acts.iter().position(|a| a.ty == t)
    }
    /// The permission of kind `t` for subject `k` (first one in storage order).
    pub fn find_for(&self, t: u16, k: &[u8]) -> Option<usize> {
        self.acts.iter().position(|a| a.ty == t && subject(a) == Some(k))
    }
    pub fn has_v2(&self, t: u16, id: u32) -> bool {
        self.acts.iter().any(|a| (a.ty == t || a.ty == act::V2_ALL) && le32(&a.d) == id)
    }
    pub fn session(&self) -> bool {
        is_session(self.aty)
    }
    pub fn unlimited(&self) -> bool {
        self.has(act::ALL) || self.has(act::ALL_BUT)
    }
    pub fn manager(&self) -> bool {
        self.has(act::ALL) || self.has(act::MANAGE)
    }
    pub fn closer(&self) -> bool {
        self.manager() || self.has(act::CLOSE)
    }
    pub fn session_key(&self) -> Key {
        let o = session_off(self.aty);
        self.auth[o..o + 32].try_into().unwrap()
    }
    pub fn session_max(&self) -> u64 {
        le64(&self.auth[session_off(self.aty) + 32..])
    }
    pub fn session_exp(&self) -> u64 {
        le64(&self.auth[session_off(self.aty) + 40..])
    }
    pub fn odometer(&self) -> u32 {
        le32(&self.auth[36..])
    }
}
/// What distinguishes several permissions of the same kind.
pub fn subject(a: &Act) -> Option<&[u8]> {
    Some(match a.ty {
        act::PROGRAM => &a.d[..32],
        act::SCOPE => &a.d[80..112],
        act::TOK | act::TOK_REC => &a.d[..32],
        act::SUB => &a.d[..32],
        act::SOL_DST | act::SOL_REC_DST => &a.d[..32],
        act::TOK_DST | act::TOK_REC_DST => &a.d[..64],
        act::REPLACE | act::V2_ALL | act::V2_SIGN | act::V2_WITHDRAW | act::V2_TOGGLE => &a.d[..4],
        _ => return None,
    })
}
impl Swig {
    pub fn is_v2(&self) -> bool {
        self.ext[0] != 0 && self.ext[1..4] == [0; 3]
    }
    pub fn wallet_bump(&self) -> u8 {
        self.ext[0]
    }
    pub fn sub_counter(&self) -> u32 {
        le32(&self.ext[4..])
    }
    pub fn set_sub_counter(&mut self, v: u32) {
        self.ext[4..].copy_from_slice(&v.to_le_bytes());
    }
    pub fn role(&self, id: u32) -> Option<usize> {
        self.roles.iter().position(|r| r.id == id)
    }
    pub fn decode(b: &[u8]) -> Result<Swig, &'static str> {
        if b.len() < 48 {
            return Err("short header");
        }
        let n = le16(&b[34..]) as usize;
        let mut roles = vec![];
        let r = &b[48..];
        let mut p = 0;
        for _ in 0..n {
            let Some(h) = r.get(p..p + 16) else { return Err("role header out of range") };
            let (t, al, na, id, end) =
                (le16(h), le16(&h[2..]) as usize, le16(&h[4..]), le32(&h[8..]), le32(&h[12..]) as usize);
            if h[6] != 0 || h[7] != 0 {
                return Err("role padding");
            }
            if auth_len(t) != Some(al) {
                return Err("authority length");
            }
            if end > r.len() || end < p + 16 + al {
                return Err("role boundary");
            }
            let auth = r[p + 16..p + 16 + al].to_vec();
            let ab = &r[p + 16 + al..end];
            let acts = decode_acts(ab)?;
            if acts.len() != na as usize {
                return Err("action count");
            }
            roles.push(Role { id, aty: t, auth, acts });
            p = end;
        }
        Ok(Swig {
            disc: b[0],
            bump: b[1],
            id: b[2..34].try_into().unwrap(),
            counter: le32(&b[36..]),
            ext: b[40..48].try_into().unwrap(),
            roles,
            tail: r[p..].to_vec(),
        })
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut b = vec![self.disc, self.bump];
        b.extend(self.id);
        b.extend((self.roles.len() as u16).to_le_bytes());
        b.extend(self.counter.to_le_bytes());
        b.extend(self.ext);
        for r in &self.roles {
            let acts = encode_acts(&r.acts);
            b.extend(r.aty.to_le_bytes());
            b.extend((r.auth.len() as u16).to_le_bytes());
            b.extend((r.acts.len() as u16).to_le_bytes());
            b.extend([0, 0]);
            b.extend(r.id.to_le_bytes());
            let end = b.len() - 48 + 4 + r.auth.len() + acts.len();
            b.extend((end as u32).to_le_bytes());
            b.extend(&r.auth);
            b.extend(acts);
        }
        b.extend(&self.tail);
        b
    }
    /// The registered rent claimer; Err if the tail is neither empty nor exactly one entry.
    pub fn claimer(&self) -> Result<Option<Key>, ()> {
        let t = &self.tail;
        if t.is_empty() {
            return Ok(None);
        }
        if t.len() == 40 && t[0] == 1 && t[1] == 1 && le16(&t[2..]) == 32 && t[4..8] == [0; 4] {
            return Ok(Some(t[8..40].try_into().unwrap()));
        }
        Err(())
    }
    pub fn size(&self) -> usize {
        self.encode().len()
    }
}
pub fn claimer_entry(k: &Key) -> Vec<u8> {
    let mut t = vec![1, 1, 32, 0, 0, 0, 0, 0];
    t.extend(k);
    t
}
pub fn decode_acts(b: &[u8]) -> Result<Vec<Act>, &'static str> {
    let mut out = vec![];
    let mut p = 0;
    while p < b.len() {
        let Some(h) = b.get(p..p + 8) else { return Err("action header out of range") };
        let (t, l, end) = (le16(h), le16(&h[2..]) as usize, le32(&h[4..]) as usize);
        if act_len(t) != Some(l) {
            return Err("action length");
        }
        if end != p + 8 + l || end > b.len() {
            return Err("action boundary");
        }
        out.push(Act { ty: t, d: b[p + 8..end].to_vec() });
        p = end;
    }
    Ok(out)
}
pub fn encode_acts(v: &[Act]) -> Vec<u8> {
    let mut b = vec![];
    for a in v {
        b.extend(a.ty.to_le_bytes());
        b.extend((a.d.len() as u16).to_le_bytes());
        let end = b.len() + 4 + a.d.len();
        b.extend((end as u32).to_le_bytes());
        b.extend(&a.d);
    }
    b
}
/// Permissions as a request supplies them: boundaries are not trusted, every
/// permission must be in its initial form, all bytes must be consumed.
pub fn parse_new_acts(b: &[u8]) -> Result<Vec<Act>, &'static str> {
    let mut out = vec![];
    let mut p = 0;
    while p < b.len() {
        let Some(h) = b.get(p..p + 8) else { return Err("permission header") };
        let (t, l) = (le16(h), le16(&h[2..]) as usize);
        let Some(d) = b.get(p + 8..p + 8 + l) else { return Err("permission body") };
        let a = Act { ty: t, d: d.to_vec() };
        if !initial_ok(&a) {
            return Err("permission not in initial form");
        }
        out.push(a);
        p += 8 + l;
    }
    if out.is_empty() || out.len() > 255 {
        return Err("number of permissions");
    }
    Ok(out)
}
/// A permission may enter a role in this form.
pub fn initial_ok(a: &Act) -> bool {
    if act_len(a.ty) != Some(a.d.len()) {
        return false;
    }
    match a.ty {
        act::SOL_REC | act::STAKE_REC => a.u64(0) == a.u64(24) && a.u64(16) == 0,
        // mint, window, limit, current, last reset
        act::TOK_REC => a.u64(40) == a.u64(48) && a.u64(56) == 0,
        act::SOL_REC_DST => a.u64(40) != 0 && a.u64(56) <= a.u64(32),
        act::TOK_REC_DST => a.u64(72) != 0 && a.u64(88) <= a.u64(64),
        act::SUB => a.d[..32] == [0; 32],
        _ => true,
    }
}
/// Duplicate sub-account-v2 grants are refused.
pub fn v2_dups(v: &[Act]) -> bool {
    let mut creates = 0;
    let mut ids = std::collections::BTreeSet::new();
    for a in v {
        if a.ty == act::V2_CREATE {
            creates += 1;
        }
        if (act::V2_ALL..=act::V2_TOGGLE).contains(&a.ty) && !ids.insert((a.ty, le32(&a.d))) {
            return true;
        }
    }
    creates > 1
}
pub fn compress64(k: &[u8]) -> [u8; 33] {
    let mut o = [0u8; 33];
    o[0] = if k[63] & 1 == 0 { 2 } else { 3 };
    o[1..].copy_from_slice(&k[..32]);
    o
}
/// Stored authority built from the bytes a request supplies.
pub fn new_auth(t: u16, d: &[u8], swig_program: &Key) -> Result<Vec<u8>, &'static str> {
    let mut a = vec![];
    match t {
        aty::ED => {
            if d.len() != 32 {
                return Err("key length");
            }
            a.extend(d);
        },
        aty::ED_S => {
            if d.len() != 72 {
                return Err("key length");
            }
            a.extend(d);
            a.extend([0; 8]);
        },
        aty::K1 => {
            let k = match d.len() {
                33 => d.to_vec(),
                64 => compress64(d).to_vec(),
                _ => return Err("key length"),
            };
            a.extend(k);
            a.extend([0; 7]);
        },
        aty::R1 => {
            if d.len() != 33 {
                return Err("key length");
            }
            a.extend(d);
            a.extend([0; 7]);
        },
        aty::K1_S => {
            if d.len() != 104 {
                return Err("key length");
            }
            if d[33..64] == [0; 31] {
                a.extend(&d[..33]);
            } else {
                a.extend(compress64(&d[..64]));
            }
            a.extend([0; 7]);
            a.extend(&d[64..104]);
            a.extend([0; 8]);
        },
        aty::R1_S => {
            if d.len() != 80 {
                return Err("key length");
            }
            a.extend(&d[..33]);
            a.extend([0; 7]);
            a.extend(&d[40..80]);
            a.extend([0; 8]);
        },
        aty::PX => {
            if d.len() != 80 || d[32] > 40 || d[..32] == *swig_program {
                return Err("program-exec authority");
            }
            a.extend(&d[..33]);
            a.extend([0; 7]);
            let n = d[32] as usize;
            a.extend(&d[40..40 + n]);
            a.resize(80, 0);
        },
        aty::PX_S => {
            if d.len() != 128 || d[32] > 40 || d[..32] == *swig_program {
                return Err("program-exec authority");
            }
            a.extend(&d[..33]);
            a.extend([0; 7]);
            a.extend(&d[40..120]);
            a.extend([0; 8]);
        },
        _ => return Err("authority kind"),
    }
    Ok(a)
}
impl Swig {
    pub fn pretty(&self) -> String {
        let mut s = format!("config disc={} counter={} v2={} ext={} tail={}", self.disc, self.counter, self.is_v2(), hex(&self.ext), hex(&self.tail));
        for r in &self.roles {
            s += &format!("\n      role {} auth {} {}", r.id, r.aty, hex(&r.auth));
            for a in &r.acts {
                s += &format!("\n        {} {}", act::NAMES.get(a.ty as usize).copied().unwrap_or("?"), hex(&a.d));
            }
        }
        s
    }
}
