//! The executable reference model: for one swig instruction and the ledger it
//! meets, decide accept or reject and, if accepted, the complete ledger after it.
use crate::layout::*;
use crate::native::{self, ids};
use crate::rt::*;
use crate::util::*;

pub type Tags = u64;
pub const fn tg(v: &[u32]) -> Tags {
    let mut i = 0;
    let mut r = 0;
    while i < v.len() {
        r |= 1 << v[i];
        i += 1;
    }
    r
}
#[derive(Clone, Debug)]
pub struct Rej {
    pub why: &'static str,
    pub tags: Tags,
    /// The specification leaves the verdict open.
    pub open: bool,
}
pub type R<T> = Result<T, Rej>;
pub fn rej<T>(why: &'static str, t: &[u32]) -> R<T> {
    Err(Rej { why, tags: tg(t), open: false })
}
fn open<T>(why: &'static str) -> R<T> {
    Err(Rej { why, tags: 0, open: true })
}
fn chk(b: bool, why: &'static str, t: &[u32]) -> R<()> {
    if b {
        Ok(())
    } else {
        rej(why, t)
    }
}

#[derive(Clone, Debug, Default)]
pub struct Info {
    pub disc: u16,
    pub role: Option<u32>,
    pub auth_kind: u16,
    pub inner: usize,
    /// (mint or zero for SOL, amount) outflows of a limited role
    pub spent: Vec<(u16, Key, u128)>,
    pub unlimited: bool,
    pub target: Option<u32>,
}
pub struct Pred {
    pub verdict: R<World>,
    /// properties the instruction kind belongs to
    pub fam: Tags,
    /// properties whose mechanisms this request exercised
    pub facets: Tags,
    pub info: Info,
}

#[derive(Clone, Debug, PartialEq)]
enum Cls {
    None,
    Swig,
    Wallet,
    Token { bal: u64 },
    Stake { bal: u64, lam: u64 },
    Scope { bal: u128 },
}

pub struct M<'a> {
    pub w: World,
    /// The ledger at the start of the instruction.
    w0: World,
    f: &'a FrameView<'a>,
    fac: Tags,
    info: Info,
    cls: Vec<Cls>,
}

pub fn scope_balance(a: &Act, data: &[u8]) -> R<u128> {
    let (st, nt, s, e) = (a.u64(112) as u8, a.u64(120) as u8, a.u64(128) as usize, a.u64(136) as usize);
    if st == 0 {
        return Ok(0);
    }
    if data.len() < e {
        return rej("scope field outside the account", &[6]);
    }
    if s > e {
        return rej("scope field reversed", &[6]);
    }
    let w = match nt {
        0 => 1,
        1 => 4,
        2 => 8,
        3 => 16,
        _ => return rej("scope numeric kind", &[6]),
    };
    if e - s != w {
        return rej("scope field width", &[6]);
    }
    let mut b = [0u8; 16];
    b[..w].copy_from_slice(&data[s..e]);
    Ok(u128::from_le_bytes(b))
}
pub fn is_config(w: &World, k: &Key) -> bool {
    match w.peek(k) {
        Some(a) => a.owner == ids().swig && a.data.len() >= 48 && a.data[0] == 1,
        None => false,
    }
}
pub fn first_scope<'a>(s: &'a Swig, target: &Key) -> Option<(u32, &'a Act)> {
    let mut rs: Vec<&Role> = s.roles.iter().collect();
    rs.sort_by_key(|r| r.id);
    for r in rs {
        for a in &r.acts {
            if a.ty == act::SCOPE && a.d[80..112] == *target {
                return Some((r.id, a));
            }
        }
    }
    None
}
pub fn swig_pda(id: &Key) -> Option<(Key, u8)> {
    find_pda(&[b"swig", id], &ids().swig)
}
pub fn wallet_pda(swig: &Key) -> Option<(Key, u8)> {
    find_pda(&[b"swig-wallet-address", swig], &ids().swig)
}
pub fn wallet_with(swig: &Key, b: u8) -> Option<Key> {
    create_pda(&[b"swig-wallet-address", swig, &[b]], &ids().swig)
}
pub fn sub1_with(id: &Key, role: u32, b: u8) -> Option<Key> {
    create_pda(&[b"sub-account", id, &role.to_le_bytes(), &[b]], &ids().swig)
}
pub fn sub1_pda(id: &Key, role: u32) -> Option<(Key, u8)> {
    find_pda(&[b"sub-account", id, &role.to_le_bytes()], &ids().swig)
}
pub fn st2_with(id: &Key, n: u32, b: u8) -> Option<Key> {
    create_pda(&[b"sub-account-v2-state", id, &n.to_le_bytes(), &[b]], &ids().swig)
}
pub fn st2_pda(id: &Key, n: u32) -> Option<(Key, u8)> {
    find_pda(&[b"sub-account-v2-state", id, &n.to_le_bytes()], &ids().swig)
}
pub fn as2_with(id: &Key, n: u32, b: u8) -> Option<Key> {
    create_pda(&[b"sub-account-v2", id, &n.to_le_bytes(), &[b]], &ids().swig)
}
pub fn as2_pda(id: &Key, n: u32) -> Option<(Key, u8)> {
    find_pda(&[b"sub-account-v2", id, &n.to_le_bytes()], &ids().swig)
}

/// Inner instructions as encoded in a payload, over the outer account list.
#[derive(Clone, Debug)]
pub struct Inner {
    pub program: usize,
    pub accts: Vec<usize>,
    pub data: Vec<u8>,
}
/// The parsed prefix, and whether the whole payload parsed.
pub fn parse_inner(p: &[u8], n_accts: usize) -> Option<(Vec<Inner>, bool)> {
    if p.is_empty() {
        return None;
    }
    let n = p[0] as usize;
    let mut o = 1;
    let mut out = vec![];
    for _ in 0..n {
        let one = || -> Option<(Inner, usize)> {
            let mut o = o;
            let program = *p.get(o)? as usize;
            if program >= n_accts {
                return None;
            }
            let k = *p.get(o + 1)? as usize;
            o += 2;
            let mut accts = vec![];
            for _ in 0..k {
                let i = *p.get(o)? as usize;
                if i >= n_accts {
                    return None;
                }
                accts.push(i);
                o += 1;
            }
            let l = le16(p.get(o..o + 2)?) as usize;
            o += 2;
            let data = p.get(o..o + l)?.to_vec();
            Some((Inner { program, accts, data }, o + l))
        };
        match one() {
            Some((i, no)) => {
                out.push(i);
                o = no;
            },
            None => return Some((out, false)),
        }
    }
    Some((out, true))
}

pub fn accounts_bytes(a: &[Meta]) -> Vec<u8> {
    let mut b = vec![];
    for x in a {
        b.extend(x.key);
        b.push(x.writable as u8);
        b.push(x.signer as u8);
        b.extend([0; 6]);
    }
    b
}
pub fn k1_hash(prefix: &[u8], payload: &[u8], a: &[Meta], slot: u64, counter: u32) -> [u8; 32] {
    let h = sha256(&[payload, &accounts_bytes(a), &slot.to_le_bytes(), &counter.to_le_bytes()]);
    keccak(&[prefix, hex(&h).as_bytes()])
}
pub fn r1_hash(payload: &[u8], a: &[Meta], slot: u64, counter: u32) -> [u8; 32] {
    keccak(&[payload, &accounts_bytes(a), &slot.to_le_bytes(), &counter.to_le_bytes()])
}
pub fn b64url(d: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut s = String::new();
    for c in d.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            s.push(A[(v >> (18 - 6 * i) & 63) as usize] as char);
        }
    }
    s
}
/// The client data a compressed assertion stands for.
pub fn client_data(order: &[u8], origin: &str, hash: &[u8; 32]) -> String {
    let mut v = vec![];
    for f in order {
        match f {
            1 => v.push("\"type\":\"webauthn.get\"".to_string()),
            2 => v.push(format!("\"challenge\":\"{}\"", b64url(hash))),
            3 => v.push(format!("\"origin\":\"{origin}\"")),
            4 => v.push("\"crossOrigin\":false".to_string()),
            _ => {},
        }
    }
    format!("{{{}}}", v.join(","))
}
fn unhuff(tree: &[u8], enc: &[u8], len: usize) -> Option<Vec<u8>> {
    if tree.is_empty() || tree.len() % 3 != 0 {
        return None;
    }
    let n = tree.len() / 3;
    let mut at = n - 1;
    let mut out = vec![];
    for b in enc {
        for k in (0..8).rev() {
            if out.len() == len {
                return Some(out);
            }
            if tree[at * 3] == 0 {
                return None;
            }
            at = tree[at * 3 + 1 + (b >> k & 1) as usize] as usize;
            if at >= n {
                return None;
            }
            if tree[at * 3] == 0 {
                out.push(tree[at * 3 + 1]);
                at = n - 1;
            }
        }
    }
    Some(out)
}
/// Value of the first top-level member `name` of a JSON object of strings,
/// literals and nested objects. No escapes allowed in what is scanned.
fn json_field<'a>(j: &'a [u8], name: &[u8]) -> Option<&'a [u8]> {
    let ws = |mut p: usize| {
        while p < j.len() && j[p].is_ascii_whitespace() {
            p += 1
        }
        p
    };
    let string = |p: usize| -> Option<(usize, usize)> {
        let mut e = p + 1;
        while e < j.len() {
            match j[e] {
                b'"' => return Some((p + 1, e)),
                b'\\' => return None,
                _ => e += 1,
            }
        }
        None
    };
    let mut p = ws(0);
    if j.get(p) != Some(&b'{') {
        return None;
    }
    let mut depth = 0usize;
    while p < j.len() {
        match j[p] {
            b'{' => {
                depth += 1;
                p += 1;
            },
            b'}' => {
                depth = depth.checked_sub(1)?;
                p += 1;
            },
            b'"' if depth == 1 => {
                let (s, e) = string(p)?;
                p = ws(e + 1);
                if j.get(p) != Some(&b':') {
                    return None;
                }
                p = ws(p + 1);
                if p >= j.len() {
                    return None;
                }
                if &j[s..e] == name {
                    if j[p] != b'"' {
                        return None;
                    }
                    let (a, b) = string(p)?;
                    return Some(&j[a..b]);
                }
                if j[p] == b'"' {
                    let mut c = p + 1;
                    loop {
                        match j.get(c) {
                            None => break,
                            Some(b'"') => {
                                c += 1;
                                break;
                            },
                            Some(b'\\') => return None,
                            _ => c += 1,
                        }
                    }
                    p = c;
                }
            },
            b'"' => {
                // braces inside the strings of nested values are not structure
                p += 1;
                while j.get(p).is_some_and(|c| *c != b'"') {
                    p += if j[p] == b'\\' { 2 } else { 1 };
                }
                p += 1;
            },
            _ => p += 1,
        }
    }
    None
}
/// The members of a JSON object in order, string values only as written, or
/// nothing if the text is no JSON object.
fn json_members(j: &[u8]) -> Option<Vec<(&[u8], Option<&[u8]>)>> {
    fn ws(j: &[u8], p: &mut usize) {
        while j.get(*p).is_some_and(|c| b" \t\r\n".contains(c)) {
            *p += 1
        }
    }
    fn string<'a>(j: &'a [u8], p: &mut usize) -> Option<&'a [u8]> {
        let s = *p + 1;
        let mut e = s;
        loop {
            match j.get(e)? {
                b'"' => break,
                b'\\' => e += 2,
                _ => e += 1,
            }
        }
        *p = e + 1;
        Some(&j[s..e])
    }
    fn value<'a>(j: &'a [u8], p: &mut usize, top: &mut Option<Vec<(&'a [u8], Option<&'a [u8]>)>>) -> Option<()> {
        ws(j, p);
        match j.get(*p)? {
            b'"' => string(j, p).map(|_| ())?,
            c @ (b'{' | b'[') => {
                let (obj, end) = (*c == b'{', if *c == b'{' { b'}' } else { b']' });
                *p += 1;
                ws(j, p);
                if j.get(*p) == Some(&end) {
                    *p += 1;
                    return Some(());
                }
                loop {
                    ws(j, p);
                    let mut key = None;
                    if obj {
                        if j.get(*p) != Some(&b'"') {
                            return None;
                        }
                        key = Some(string(j, p)?);
                        ws(j, p);
                        if j.get(*p) != Some(&b':') {
                            return None;
                        }
                        *p += 1;
                        ws(j, p);
                    }
                    let at = *p;
                    value(j, p, &mut None)?;
                    if let (Some(t), Some(k)) = (top.as_mut(), key) {
                        t.push((k, (j[at] == b'"').then(|| &j[at + 1..*p - 1])));
                    }
                    ws(j, p);
                    match j.get(*p)? {
                        b',' => *p += 1,
                        c if *c == end => break,
                        _ => return None,
                    }
                }
                *p += 1;
            },
            _ => {
                let s = *p;
                while j.get(*p).is_some_and(|c| c.is_ascii_alphanumeric() || b"+-.".contains(c)) {
                    *p += 1
                }
                if *p == s {
                    return None;
                }
            },
        }
        Some(())
    }
    let mut p = 0;
    let mut top = Some(vec![]);
    ws(j, &mut p);
    if j.get(p) != Some(&b'{') {
        return None;
    }
    value(j, &mut p, &mut top)?;
    ws(j, &mut p);
    if p == j.len() {
        top
    } else {
        None
    }
}
/// The message a passkey must have signed for this request hash.
pub fn r1_message(extra: &[u8], hash: &[u8; 32]) -> R<Vec<u8>> {
    let bad = || Rej { why: "passkey assertion does not match the request", tags: tg(&[12]), open: false };
    if extra.is_empty() {
        return Ok(hash.to_vec());
    }
    if extra.len() < 6 {
        return Err(bad());
    }
    let n = le16(&extra[2..]) as usize;
    if n >= 196 {
        return Err(bad());
    }
    let rest = extra.get(4 + n..).ok_or_else(bad)?;
    let auth = &extra[4..4 + n];
    let cd = match le16(extra) {
        1 => {
            let order = rest.get(..4).ok_or_else(bad)?;
            if order.iter().any(|x| *x > 4)
                || order.iter().filter(|x| **x == 1).count() != 1
                || order.iter().filter(|x| **x == 2).count() != 1
            {
                return Err(bad());
            }
            let l = rest.get(4..10).ok_or_else(bad)?;
            let (ol, tl, el) = (le16(l) as usize, le16(&l[2..]) as usize, le16(&l[4..]) as usize);
            let tree = rest.get(10..10 + tl).ok_or_else(bad)?;
            let enc = rest.get(10 + tl..10 + tl + el).ok_or_else(bad)?;
            let origin = unhuff(tree, enc, ol).ok_or_else(bad)?;
            let origin = String::from_utf8(origin).map_err(|_| bad())?;
            client_data(order, &origin, hash).into_bytes()
        },
        2 => {
            let l = le16(rest.get(..2).ok_or_else(bad)?) as usize;
            if l == 0 || l > 1024 || rest.len() != 2 + l {
                return Err(bad());
            }
            let j = &rest[2..];
            if json_field(j, b"challenge") != Some(b64url(hash).as_bytes()) {
                return Err(bad());
            }
            if json_field(j, b"type") != Some(b"webauthn.get") {
                return Err(bad());
            }
            // what counts is the object's own member, wherever else its name occurs
            if let Some(m) = json_members(j) {
                let own = |n: &[u8]| m.iter().find(|x| x.0 == n).and_then(|x| x.1);
                if own(b"challenge") != Some(b64url(hash).as_bytes()) || own(b"type") != Some(b"webauthn.get") {
                    return Err(bad());
                }
            }
            j.to_vec()
        },
        _ => return Err(bad()),
    };
    let mut m = auth.to_vec();
    m.extend(sha256(&[&cd]));
    Ok(m)
}

/// A spend against an all-time amount in bytes `o..o+8`.
fn run_fixed(a: &mut Act, o: usize, amt: u64, t: &[u32]) -> R<()> {
    let v = a.u64(o);
    if amt > v {
        return rej("allowance exceeded", t);
    }
    a.put(o, v - amt);
    Ok(())
}
/// A spend against a windowed amount.
fn run_rec(a: &mut Act, limit: usize, window: usize, last: usize, cur: usize, dst: bool, slot: u64, amt: u64, t: &[u32]) -> R<()> {
    let (l, w, r) = (a.u64(limit), a.u64(window), a.u64(last));
    let elapsed = if dst { slot.wrapping_sub(r) } else { slot.saturating_sub(r) };
    if elapsed > w && amt <= l {
        if !dst && w == 0 {
            return rej("window of zero slots", t);
        }
        a.put(cur, l);
        a.put(last, if dst { slot } else { slot / w * w });
    }
    let c = a.u64(cur);
    if amt > c {
        return rej("allowance exceeded", t);
    }
    a.put(cur, c - amt);
    Ok(())
}
fn run_scope(a: &mut Act, slot: u64, amt: u128) -> R<()> {
    let g = |a: &Act, o: usize| u128::from_le_bytes(a.d[o..o + 16].try_into().unwrap());
    let st = a.u64(112) as u8;
    match st {
        0 => return Ok(()),
        1 | 2 => {},
        _ => return rej("scope kind", &[6]),
    }
    if st == 2 {
        let (w, l) = (a.u64(32), a.u64(40));
        if slot.saturating_sub(l) > w {
            if w == 0 {
                return rej("window of zero slots", &[6]);
            }
            a.d[..16].fill(0);
            a.put(40, slot / w * w);
        }
    }
    let (c, l) = (g(a, 0), g(a, 16));
    match c.checked_add(amt) {
        Some(n) if n <= l => {
            a.d[..16].copy_from_slice(&n.to_le_bytes());
            Ok(())
        },
        _ => rej("scope exceeded", &[6]),
    }
}
pub fn curated(k: &Key) -> bool {
    let i = ids();
    *k == SYS || *k == i.token || *k == i.token22 || *k == i.stake
}

impl<'a> M<'a> {
    fn n(&self) -> usize {
        self.f.accts.len()
    }
    fn key(&self, i: usize) -> R<Key> {
        self.f.accts.get(i).map(|m| m.key).ok_or(Rej { why: "not enough accounts", tags: tg(&[26]), open: false })
    }
    fn need(&self, n: usize) -> R<()> {
        chk(self.n() >= n, "not enough accounts", &[26])
    }
    fn writable(&self, k: &Key) -> bool {
        self.f.accts.iter().any(|m| m.key == *k && m.writable)
    }
    fn self_owned(&self, k: &Key) -> R<()> {
        chk(self.w.owner(k) == ids().swig, "configuration not owned by the program", &[9, 26])
    }
    fn sys_owned(&self, k: &Key) -> R<()> {
        chk(self.w.owner(k) == SYS, "account not a system account", &[26])
    }
    /// A system program call needs the program among the accounts.
    fn sys_callable(&self) -> R<()> {
        chk(self.f.accts.iter().any(|m| m.key == SYS), "no system program to call", &[26])
    }
    fn sys_program(&self, i: usize) -> R<()> {
        chk(self.key(i)? == SYS, "not the system program", &[26])
    }
    fn swig_at(&self, k: &Key) -> R<Swig> {
        let d = self.w.data(k);
        if d.is_empty() || d[0] != 1 {
            return rej("not an open wallet configuration", &[21]);
        }
        Swig::decode(d).or_else(|_| rej("configuration does not decode", &[15]))
    }
    /// Writes data the program owns.
    fn set_data(&mut self, k: &Key, d: Vec<u8>) -> R<()> {
        let cur = self.w.data(k);
        if cur == d {
            return Ok(());
        }
        if self.w.owner(k) != ids().swig {
            return rej("account not owned by the program", &[26]);
        }
        if !self.writable(k) {
            return rej("account not writable", &[26]);
        }
        if d.len() > cur.len() + MAX_GROW {
            return rej("grows too far", &[26]);
        }
        self.w.mutate(k).data = d;
        Ok(())
    }
    fn set_swig(&mut self, k: &Key, s: &Swig) -> R<()> {
        self.set_data(k, s.encode())
    }
    /// Direct lamport change by the program.
    fn add_lam(&mut self, k: &Key, v: u64) -> R<()> {
        if v == 0 {
            return Ok(());
        }
        if !self.writable(k) {
            return rej("account not writable", &[26]);
        }
        if self.w.peek(k).map(|a| a.exec).unwrap_or(false) {
            return rej("program account", &[26]);
        }
        let l = self.w.lamports(k);
        match l.checked_add(v) {
            Some(n) => self.w.mutate(k).lamports = n,
            None => return rej("lamport overflow", &[26]),
        }
        Ok(())
    }
    fn sub_lam(&mut self, k: &Key, v: u64) -> R<()> {
        if v == 0 {
            return Ok(());
        }
        if !self.writable(k) || self.w.owner(k) != ids().swig {
            return rej("cannot debit account", &[26, 30]);
        }
        let l = self.w.lamports(k);
        if l < v {
            return rej("insufficient lamports", &[30]);
        }
        self.w.mutate(k).lamports = l - v;
        Ok(())
    }
    fn cpi(&mut self, ix: Ix, signers: &[Key], t: &[u32]) -> R<()> {
        let sw = ids().swig;
        let before: Vec<usize> = self.f.accts.iter().map(|x| self.w0.data(&x.key).len()).collect();
        match plain(&mut self.w, self.f.tx, self.f.top, sw, self.f.accts, &ix, signers) {
            Ok(()) if self.f.accts.iter().zip(before).any(|(x, n)| self.w.data(&x.key).len() > n + 10240) => {
                rej("a called program refused", t)
            },
            Ok(()) => Ok(()),
            Err(_) => rej("a called program refused", t),
        }
    }
    fn transfer(&mut self, from: Key, to: Key, amt: u64, signers: &[Key], t: &[u32]) -> R<()> {
        let mut d = vec![2, 0, 0, 0];
        d.extend(amt.to_le_bytes());
        self.cpi(Ix { program: SYS, metas: vec![m(from, true, true), m(to, false, true)], data: d }, signers, t)
    }
    fn top_up(&mut self, k: Key, payer: Key, want: u64) -> R<()> {
        let have = self.w.lamports(&k);
        if have < want {
            self.transfer(payer, k, want - have, &[], &[30])?;
        }
        Ok(())
    }

    fn classify(&mut self) -> R<()> {
        let n = self.n();
        chk(n >= 1, "no accounts", &[26])?;
        chk(n <= 254, "too many accounts", &[26])?;
        let k0 = self.key(0)?;
        let cfg = is_config(&self.w, &k0);
        let s = if cfg { Swig::decode(self.w.data(&k0)).ok() } else { None };
        let i_ = ids();
        for i in 0..n {
            let k = self.key(i)?;
            let empty = Acct::default();
            let a = self.w.peek(&k).unwrap_or(&empty);
            let k1 = if i > 1 { Some(self.f.accts[1].key) } else { None };
            let wal = i > 1 && self.cls[1] == Cls::Wallet;
            let ours = |f: &[u8]| f == k0 || (wal && k1.unwrap()[..] == *f);
            let c = if a.owner == i_.swig {
                if !is_config(&self.w, &k) {
                    Cls::None
                } else if i == 0 {
                    Cls::Swig
                } else if cfg {
                    Cls::None
                } else {
                    return rej("a configuration must come first", &[26]);
                }
            } else if a.owner == SYS && i == 1 {
                if cfg {
                    Cls::Wallet
                } else {
                    Cls::None
                }
            } else if a.owner == i_.stake {
                if i == 0 || a.data.len() < 200 || !ours(&a.data[44..76]) {
                    Cls::None
                } else {
                    if le32(&a.data) > 3 {
                        return rej("stake account state", &[26]);
                    }
                    Cls::Stake { bal: le64(&a.data[156..]), lam: a.lamports }
                }
            } else if (a.owner == i_.token || a.owner == i_.token22) && i > 0 && a.data.len() >= 165 {
                if ours(&a.data[32..64]) {
                    Cls::Token { bal: le64(&a.data[64..]) }
                } else {
                    Cls::None
                }
            } else if i == 0 {
                Cls::None
            } else if let Some((_, sc)) = s.as_ref().and_then(|s| first_scope(s, &k)) {
                self.fac |= tg(&[6]);
                Cls::Scope { bal: scope_balance(sc, &a.data)? }
            } else {
                Cls::None
            };
            self.cls.push(c);
        }
        Ok(())
    }

    // ---------- authentication ----------
    /// Checks the authorisation of `role` over `payload`; advances counters.
    fn auth(&mut self, r: &mut Role, ap: &[u8], payload: &[u8]) -> R<()> {
        self.info.role = Some(r.id);
        self.info.auth_kind = r.aty;
        if r.session() {
            self.auth_session(r, ap)
        } else {
            self.auth_root(r, ap, payload)
        }
    }
    fn signer_at(&self, ap: &[u8], exact: bool, key: &[u8], t: &[u32]) -> R<()> {
        chk(if exact { ap.len() == 1 } else { !ap.is_empty() }, "authority payload length", t)?;
        let Some(mt) = self.f.accts.get(ap[0] as usize) else { return rej("authority account missing", t) };
        chk(mt.signer, "authority did not sign", t)?;
        chk(mt.key == key, "wrong authority key", t)
    }
    fn auth_session(&mut self, r: &mut Role, ap: &[u8]) -> R<()> {
        self.fac |= tg(&[11]);
        let exact = matches!(r.aty, aty::ED_S | aty::PX_S);
        self.signer_at(ap, exact, &r.session_key(), &[9, 11])?;
        chk(self.w.slot <= r.session_exp(), "session expired", &[11, 9])
    }
    fn auth_root(&mut self, r: &mut Role, ap: &[u8], payload: &[u8]) -> R<()> {
        let slot = self.w.slot;
        match r.aty {
            aty::ED | aty::ED_S => self.signer_at(ap, true, &r.auth[..32], &[9]),
            aty::K1 | aty::K1_S => {
                self.fac |= tg(&[10]);
                chk(ap.len() >= 77, "authority payload length", &[9, 10])?;
                let (s, c) = (le64(ap), le32(&ap[8..]));
                chk(c == r.odometer().wrapping_add(1), "signature counter", &[10, 9])?;
                chk(s <= slot && slot - s <= 60, "signature age", &[10, 9])?;
                chk(self.n() <= 64, "too many accounts", &[9])?;
                let sig: [u8; 64] = ap[12..76].try_into().unwrap();
                chk(low_s(&sig[32..]), "malleable signature", &[9, 10])?;
                let rid = if ap[76] == 27 { 0 } else { 1 };
                let h = k1_hash(&ap[77..], payload, self.f.accts, s, c);
                let pk = recover(&h, rid, &sig).or_else(|_| rej("bad signature", &[9, 10]))?;
                chk(compress64(&pk) == r.auth[..33], "signature by another key or for another request", &[9, 10])?;
                r.auth[36..40].copy_from_slice(&c.to_le_bytes());
                Ok(())
            },
            aty::R1 | aty::R1_S => {
                self.fac |= tg(&[10, 12]);
                chk(ap.len() >= 17, "authority payload length", &[9, 12])?;
                let (s, c) = (le64(ap), le32(&ap[8..]));
                chk(c == r.odometer().wrapping_add(1), "signature counter", &[10, 9, 12])?;
                chk(s <= slot && slot - s <= 60, "signature age", &[10, 9, 12])?;
                chk(self.n() <= 64, "too many accounts", &[9])?;
                let h = r1_hash(payload, self.f.accts, s, c);
                let msg = r1_message(&ap[17..], &h)?;
                let ix = self.intro(ap[12] as usize, None, &[12, 9])?;
                let t = &[12, 9, 10];
                chk(ix.program == ids().r1, "the preceding instruction does not verify a signature", t)?;
                let d = &ix.data;
                chk(d.len() >= 145 && d[0] == 1, "signature instruction", t)?;
                let o = |k: usize| le16(&d[2 + 2 * k..]) as usize;
                chk(o(1) == 0xffff && o(3) == 0xffff && o(6) == 0xffff, "signature instruction", t)?;
                chk(o(2) == R1_PK && o(4) == R1_MSG && o(5) == msg.len(), "signature instruction", t)?;
                chk(d.len() >= R1_MSG + msg.len(), "signature instruction", t)?;
                chk(d[R1_PK..R1_PK + 33] == r.auth[..33], "signature by another key", t)?;
                chk(d[R1_MSG..R1_MSG + msg.len()] == msg, "signature for another request", t)?;
                r.auth[36..40].copy_from_slice(&c.to_le_bytes());
                Ok(())
            },
            aty::PX | aty::PX_S => {
                self.fac |= tg(&[13]);
                let t = &[13, 9];
                chk(ap.len() == 1 || ap.len() == 2, "authority payload length", t)?;
                let ix = self.intro(ap[0] as usize, ap.get(1).copied(), t)?;
                chk(ix.program == r.auth[..32], "another program was called", t)?;
                let n = r.auth[32] as usize;
                chk(ix.data.len() >= n && ix.data[..n] == r.auth[40..40 + n], "another instruction was called", t)?;
                chk(ix.metas.len() >= 2, "call does not name the wallet", t)?;
                chk(self.n() >= 2, "not enough accounts", t)?;
                chk(ix.metas[0].key == self.key(0)? && ix.metas[1].key == self.key(1)?, "call names another wallet", t)?;
                Ok(())
            },
            _ => rej("authority kind", &[9]),
        }
    }
    /// The earlier top-level instruction `want` (default: the one just before).
    fn intro(&self, idx: usize, want: Option<u8>, t: &[u32]) -> R<Ix> {
        let Some(mt) = self.f.accts.get(idx) else { return rej("introspection account missing", t) };
        chk(mt.key == native::IX_SYSVAR, "not the introspection account", t)?;
        let cur = self.f.top;
        let i = match want {
            None => {
                chk(cur >= 1, "no preceding instruction", t)?;
                cur - 1
            },
            Some(x) => {
                chk((x as usize) < cur, "not an earlier instruction", t)?;
                x as usize
            },
        };
        Ok(self.f.tx.ixs[i].clone())
    }
    fn acting(&mut self, s: &Swig, id: u32) -> R<usize> {
        self.info.role = Some(id);
        s.role(id).ok_or(Rej { why: "no such role", tags: tg(&[9, 16]), open: false })
    }
    /// Looks up, authenticates and stores back the acting role.
    fn act_as(&mut self, k: &Key, s: &mut Swig, id: u32, ap: &[u8], payload: &[u8]) -> R<usize> {
        let i = self.acting(s, id)?;
        let mut r = s.roles[i].clone();
        self.auth(&mut r, ap, payload)?;
        s.roles[i] = r;
        let _ = k;
        Ok(i)
    }

    // ---------- instructions ----------
    fn run(&mut self) -> R<()> {
        self.classify()?;
        let d = self.f.data.to_vec();
        chk(d.len() >= 2, "no instruction", &[26])?;
        let disc = le16(&d);
        self.info.disc = disc;
        match disc {
            1 => self.add_authority(&d),
            2 => self.remove_authority(&d),
            3 => self.update_authority(&d),
            4 => rej("retired instruction", &[26]),
            5 => self.create_session(&d),
            6 => self.create_sub1(&d),
            7 => self.withdraw1(&d),
            9 => self.sub_sign1(&d),
            10 => self.toggle1(&d),
            11 => self.sign(&d),
            12 => self.migrate(&d),
            13 => self.transfer_assets(&d),
            14 => self.close_token(&d),
            15 => self.close_swig(&d),
            16 => self.replace(&d),
            17 => self.set_claimer(&d),
            18 => self.create_sub2(&d),
            19 => self.toggle2(&d),
            20 => self.sub_sign2(&d),
            21 => self.withdraw2(&d),
            _ => self.create(&d),
        }
    }
    fn args(&self, d: &[u8], n: usize) -> R<()> {
        chk(d.len() >= n, "instruction too short", &[26])
    }
    fn create(&mut self, d: &[u8]) -> R<()> {
        self.need(4)?;
        let (k, payer, wal) = (self.key(0)?, self.key(1)?, self.key(2)?);
        let t = &[24, 21];
        chk(self.w.owner(&k) == SYS && self.w.data(&k).is_empty(), "address already in use", t)?;
        chk(self.w.owner(&wal) == SYS && self.w.data(&wal).is_empty(), "wallet address in use", t)?;
        self.sys_callable()?;
        self.args(d, 40)?;
        let (at, al, b, wb) = (le16(&d[2..]), le16(&d[4..]) as usize, d[6], d[7]);
        let id: Key = d[8..40].try_into().unwrap();
        let rest = &d[40..];
        chk(al <= rest.len(), "instruction too short", &[26])?;
        let (ad, acts) = rest.split_at(al);
        chk(create_pda(&[b"swig", &id, &[b]], &ids().swig) == Some(k), "configuration address", t)?;
        chk(wallet_with(&k, wb) == Some(wal), "wallet address", t)?;
        if wb == 0 {
            return open("wallet bump zero");
        }
        let auth = new_auth(at, ad, &ids().swig).or_else(|e| rej(e, &[24]))?;
        let v = parse_new_acts(acts).or_else(|e| rej(e, &[24, 26]))?;
        chk(!v2_dups(&v), "duplicate permission", &[19])?;
        chk(v.iter().any(|a| a.ty == act::ALL || a.ty == act::MANAGE), "the founding role must have authority", t)?;
        let s = Swig {
            disc: 1,
            bump: b,
            id,
            counter: 1,
            ext: [wb, 0, 0, 0, 0, 0, 0, 0],
            roles: vec![Role { id: 0, aty: at, auth, acts: v }],
            tail: vec![],
        };
        let data = s.encode();
        chk(data.len() <= 10240, "grows too far", &[26])?;
        self.top_up(k, payer, rent_min(data.len()))?;
        if !self.writable(&k) {
            return rej("account not writable", &[26]);
        }
        let a = self.w.mutate(&k);
        a.data = data;
        a.owner = ids().swig;
        self.top_up(wal, payer, rent_min(0))
    }
    fn add_authority(&mut self, d: &[u8]) -> R<()> {
        self.need(3)?;
        let (k, payer) = (self.key(0)?, self.key(1)?);
        self.self_owned(&k)?;
        self.sys_program(2)?;
        self.args(d, 16)?;
        let (al, cl, at, id) = (le16(&d[2..]) as usize, le16(&d[4..]) as usize, le16(&d[6..]), le32(&d[12..]));
        self.args(d, 16 + al + cl)?;
        let (ad, acts, ap) = (&d[16..16 + al], &d[16 + al..16 + al + cl], &d[16 + al + cl..]);
        let mut s = self.swig_at(&k)?;
        let i = self.act_as(&k, &mut s, id, ap, &d[..16 + al + cl])?;
        chk(s.roles[i].manager(), "the role may not manage authorities", &[14])?;
        let auth = new_auth(at, ad, &ids().swig).or_else(|e| rej(e, &[14, 15]))?;
        let v = parse_new_acts(acts).or_else(|e| rej(e, &[14, 15, 26]))?;
        chk(!v2_dups(&v), "duplicate permission", &[19])?;
        if s.roles.len() >= 65535 || s.counter == u32::MAX {
            return open("role table full");
        }
        s.roles.push(Role { id: s.counter, aty: at, auth, acts: v });
        s.counter += 1;
        self.set_swig(&k, &s)?;
        self.top_up(k, payer, rent_min(s.size()))
    }
    fn remove_authority(&mut self, d: &[u8]) -> R<()> {
        self.need(3)?;
        let (k, payer) = (self.key(0)?, self.key(1)?);
        self.self_owned(&k)?;
        self.sys_program(2)?;
        self.args(d, 16)?;
        let (id, target) = (le32(&d[8..]), le32(&d[12..]));
        self.info.target = Some(target);
        let ap = &d[16..];
        chk(target != 0, "the founding role cannot be removed", &[14])?;
        let mut s = self.swig_at(&k)?;
        let i = self.act_as(&k, &mut s, id, ap, &d[..16])?;
        chk(id == target || s.roles[i].manager(), "the role may not remove others", &[14])?;
        let Some(j) = s.role(target) else { return rej("no such role to remove", &[14, 16]) };
        let old = s.size();
        s.roles.remove(j);
        let new = s.size();
        self.set_swig(&k, &s)?;
        let back = rent_min(old) - rent_min(new);
        self.sub_lam(&k, back)?;
        self.add_lam(&payer, back)
    }
    fn update_authority(&mut self, d: &[u8]) -> R<()> {
        self.need(3)?;
        let (k, payer) = (self.key(0)?, self.key(1)?);
        self.self_owned(&k)?;
        self.sys_program(2)?;
        self.args(d, 16)?;
        let (cl, n, id, target) = (le16(&d[2..]) as usize, d[4] as usize, le32(&d[8..]), le32(&d[12..]));
        self.info.target = Some(target);
        self.args(d, 16 + cl)?;
        let (op, ap) = (&d[16..16 + cl], &d[16 + cl..]);
        let mut s = self.swig_at(&k)?;
        let i = self.act_as(&k, &mut s, id, ap, &d[..16 + cl])?;
        chk(s.roles[i].manager(), "the role may not manage authorities", &[14])?;
        let Some(j) = s.role(target) else { return rej("no such role to update", &[14, 16]) };
        let mut v = s.roles[j].acts.clone();
        let newfmt = n == 0 && !op.is_empty();
        let (code, body) = if newfmt { (op[0], &op[1..]) } else { (0, op) };
        let old = s.size();
        match code {
            0 => {
                v = parse_new_acts(body).or_else(|e| rej(e, &[14, 15, 26]))?;
            },
            1 => {
                let add = parse_new_acts(body).or_else(|e| rej(e, &[14, 15, 26]))?;
                v.extend(add);
            },
            2 => v.retain(|a| !body.contains(&(a.ty as u8))),
            3 => {
                chk(body.len() % 2 == 0, "index list", &[14, 26])?;
                let idx: Vec<usize> = body.chunks(2).map(|c| le16(c) as usize).collect();
                let mut p = 0;
                v.retain(|_| {
                    p += 1;
                    !idx.contains(&(p - 1))
                });
            },
            _ => return rej("unknown operation", &[14, 26]),
        }
        chk(!v.is_empty(), "a role needs a permission", &[14])?;
        chk(v.len() <= 255, "number of permissions", &[14])?;
        chk(!v2_dups(&v), "duplicate permission", &[19])?;
        s.roles[j].acts = v;
        let new = s.size();
        self.set_swig(&k, &s)?;
        if code <= 1 {
            self.top_up(k, payer, rent_min(new.max(old)))?;
        }
        if new < old {
            let l = self.w.lamports(&k);
            let back = l.saturating_sub(rent_min(new)).min(rent_min(old) - rent_min(new));
            self.sub_lam(&k, back)?;
            self.add_lam(&payer, back)?;
        } else {
            self.top_up(k, payer, rent_min(new))?;
        }
        Ok(())
    }
    fn create_session(&mut self, d: &[u8]) -> R<()> {
        self.need(3)?;
        let k = self.key(0)?;
        self.self_owned(&k)?;
        self.args(d, 48)?;
        let (id, dur) = (le32(&d[4..]), le64(&d[8..]));
        let mut s = self.swig_at(&k)?;
        let i = self.acting(&s, id)?;
        let mut r = s.roles[i].clone();
        self.info.auth_kind = r.aty;
        chk(r.session(), "not a session role", &[11])?;
        self.auth_root(&mut r, &d[48..], &d[..48])?;
        chk(dur <= r.session_max(), "session too long", &[11])?;
        let Some(exp) = self.w.slot.checked_add(dur) else { return open("expiry overflow") };
        let o = session_off(r.aty);
        r.auth[o..o + 32].copy_from_slice(&d[16..48]);
        r.auth[o + 40..o + 48].copy_from_slice(&exp.to_le_bytes());
        s.roles[i] = r;
        self.set_swig(&k, &s)
    }
    fn replace(&mut self, d: &[u8]) -> R<()> {
        self.need(1)?;
        let k = self.key(0)?;
        self.self_owned(&k)?;
        self.args(d, 16)?;
        let (id, target, nl) = (le32(&d[4..]), le32(&d[8..]), le16(&d[12..]) as usize);
        self.info.target = Some(target);
        chk(d[2..4] == [0; 2] && d[14..16] == [0; 2], "padding", &[26])?;
        chk(matches!(nl, 32 | 33 | 64), "key length", &[17])?;
        self.args(d, 16 + nl)?;
        let (new, ap) = (&d[16..16 + nl], &d[16 + nl..]);
        let mut s = self.swig_at(&k)?;
        let i = self.act_as(&k, &mut s, id, ap, &d[..16 + nl])?;
        let may = s.roles[i].manager() || s.roles[i].find_for(act::REPLACE, &target.to_le_bytes()).is_some();
        chk(may, "the role may not replace this authority", &[17])?;
        let Some(j) = s.role(target) else { return rej("no such role", &[17, 16]) };
        let t = s.roles[j].aty;
        let newk: Vec<u8> = match (t, nl) {
            (1 | 2, 32) => new.to_vec(),
            (3 | 4, 33) | (5 | 6, 33) => new.to_vec(),
            (3 | 4, 64) => compress64(new).to_vec(),
            _ => return rej("key of another kind", &[17]),
        };
        if s.roles[i].aty == aty::PX {
            // the call itself must name this very replacement
            let t_ = &[17, 13];
            let ix = self.intro(ap[0] as usize, ap.get(1).copied(), t_)?;
            chk(self.n() >= 2, "not enough accounts", t_)?;
            chk(Some(self.key(1)?) == wallet_pda(&k).map(|x| x.0), "wallet address", t_)?;
            let klen = newk.len();
            let h = sha256(&[
                b"swig-replace-authority-v1",
                &k,
                &self.key(1)?,
                &id.to_le_bytes(),
                &target.to_le_bytes(),
                &t.to_le_bytes(),
                &s.roles[j].auth[..klen],
                &newk,
            ]);
            chk(ix.data.len() == 40 && ix.data[..8] == native::EXEC_PROOF && ix.data[8..] == h, "proof of another replacement", t_)?;
        }
        let r = &mut s.roles[j];
        chk(r.auth[..newk.len()] != newk[..], "same key", &[17])?;
        r.auth[..newk.len()].copy_from_slice(&newk);
        if matches!(t, 3..=6) {
            r.auth[36..40].fill(0);
        }
        if r.session() {
            let o = session_off(t);
            r.auth[o..o + 32].fill(0);
            r.auth[o + 40..o + 48].fill(0);
        }
        self.set_swig(&k, &s)
    }
    fn set_claimer(&mut self, d: &[u8]) -> R<()> {
        self.need(3)?;
        let (k, payer) = (self.key(0)?, self.key(1)?);
        self.self_owned(&k)?;
        self.sys_program(2)?;
        self.args(d, 40)?;
        let id = le32(&d[4..]);
        let c: Key = d[8..40].try_into().unwrap();
        let mut s = self.swig_at(&k)?;
        let wal = wallet_with(&k, s.wallet_bump());
        chk(wal.is_some(), "wallet address", &[22])?;
        chk(c != [0; 32] && c != k && Some(c) != wal, "unusable rent claimer", &[22])?;
        let i = self.act_as(&k, &mut s, id, &d[40..], &d[..40])?;
        chk(s.roles[i].has(act::ALL) || s.roles[i].has(act::CLOSE), "the role may not set the rent claimer", &[22])?;
        chk(s.claimer() == Ok(None), "rent claimer already set", &[22])?;
        s.tail = claimer_entry(&c);
        self.set_swig(&k, &s)?;
        self.top_up(k, payer, rent_min(s.size()))
    }
    fn close_swig(&mut self, d: &[u8]) -> R<()> {
        self.need(4)?;
        let (k, wal, dst) = (self.key(0)?, self.key(1)?, self.key(2)?);
        self.self_owned(&k)?;
        self.sys_program(3)?;
        self.args(d, 8)?;
        let id = le32(&d[4..]);
        let mut s = self.swig_at(&k)?;
        let claimer = s.claimer().or_else(|_| rej("trailing data", &[22]))?;
        chk(wallet_pda(&k).map(|x| x.0) == Some(wal), "wallet address", &[21])?;
        let i = self.act_as(&k, &mut s, id, &d[8..], &d[..8])?;
        chk(s.roles[i].closer(), "the role may not close", &[21])?;
        chk(claimer.is_none() || claimer == Some(dst), "not the rent claimer", &[22, 21])?;
        let data = self.w.data(&k).len();
        chk(self.w.lamports(&k) <= rent_min(data), "the configuration still holds funds", &[21])?;
        chk(self.w.lamports(&wal) <= rent_min(0), "the wallet still holds funds", &[21])?;
        if dst == k || dst == wal {
            return open("closing into itself");
        }
        let l = self.w.lamports(&wal);
        if l > 0 {
            let Some(pda) = wallet_with(&k, s.wallet_bump()) else { return rej("wallet address", &[21]) };
            self.transfer(wal, dst, l, &[pda], &[21])?;
        }
        let keep = rent_min(1);
        let l = self.w.lamports(&k);
        if l < keep {
            return open("configuration below tombstone rent");
        }
        self.sub_lam(&k, l - keep)?;
        self.add_lam(&dst, l - keep)?;
        self.set_data(&k, vec![255])
    }
    fn close_token(&mut self, d: &[u8]) -> R<()> {
        self.need(4)?;
        let (k, wal, dst, prog) = (self.key(0)?, self.key(1)?, self.key(2)?, self.key(3)?);
        self.self_owned(&k)?;
        self.args(d, 8)?;
        let (off, id) = (le16(&d[2..]) as usize, le32(&d[4..]));
        let mut s = self.swig_at(&k)?;
        let claimer = s.claimer().or_else(|_| rej("trailing data", &[22]))?;
        chk(wallet_pda(&k).map(|x| x.0) == Some(wal), "wallet address", &[23])?;
        let i = self.act_as(&k, &mut s, id, &d[8..], &d[..8])?;
        chk(s.roles[i].closer(), "the role may not close token accounts", &[23])?;
        chk(claimer.is_none() || claimer == Some(dst), "not the rent claimer", &[22, 23])?;
        chk(prog == ids().token || prog == ids().token22, "not a token program", &[23])?;
        chk(off < self.n(), "no account to close", &[23, 26])?;
        let sb = s.bump;
        self.set_swig(&k, &s)?;
        for i in off..self.n() {
            let a = self.key(i)?;
            let ac = self.w.get(&a);
            chk(ac.owner == prog && ac.data.len() >= 72, "not a token account", &[23])?;
            let au: Key = ac.data[32..64].try_into().unwrap();
            chk(au == wal || au == k, "not an account of this wallet", &[23])?;
            let pda = if au == wal { Some(wal) } else { create_pda(&[b"swig", &s.id, &[sb]], &ids().swig) };
            let Some(pda) = pda else { return rej("address", &[23]) };
            let ix = Ix { program: prog, metas: vec![m(a, false, true), m(dst, false, true), m(au, true, false)], data: vec![9] };
            self.cpi(ix, &[pda], &[23])?;
        }
        Ok(())
    }
    fn migrate(&mut self, d: &[u8]) -> R<()> {
        self.need(5)?;
        let (k, payer, wal) = (self.key(0)?, self.key(2)?, self.key(3)?);
        self.args(d, 8)?;
        let (b, id) = (d[2], le32(&d[4..]));
        chk(self.w.data(&k).len() >= 48, "not a configuration", &[25])?;
        let mut s = self.swig_at(&k)?;
        chk(!s.is_v2(), "already in the new format", &[25])?;
        let i = self.act_as(&k, &mut s, id, &d[8..], &d[..8])?;
        chk(s.roles[i].manager(), "the role may not migrate", &[25])?;
        chk(self.w.owner(&wal) == SYS && self.w.data(&wal).is_empty(), "wallet address in use", &[25])?;
        chk(wallet_with(&k, b) == Some(wal), "wallet address", &[25])?;
        s.ext = [b, 0, 0, 0, 0, 0, 0, 0];
        self.set_swig(&k, &s)?;
        self.top_up(wal, payer, rent_min(0))
    }
    fn transfer_assets(&mut self, d: &[u8]) -> R<()> {
        self.need(4)?;
        let (k, wal) = (self.key(0)?, self.key(1)?);
        self.self_owned(&k)?;
        self.args(d, 8)?;
        let id = le32(&d[4..]);
        let mut s = self.swig_at(&k)?;
        chk(s.wallet_bump() != 0 && wallet_with(&k, s.wallet_bump()) == Some(wal), "wallet address", &[25])?;
        let i = self.act_as(&k, &mut s, id, &d[8..], &d[..8])?;
        chk(s.roles[i].manager(), "the role may not move assets", &[25])?;
        let pda = create_pda(&[b"swig", &s.id, &[s.bump]], &ids().swig);
        self.set_swig(&k, &s)?;
        let len = self.w.data(&k).len();
        let l = self.w.lamports(&k);
        if l > rent_min(len) {
            let x = l - rent_min(len);
            self.sub_lam(&k, x)?;
            self.add_lam(&wal, x)?;
        }
        let mut j = 4;
        while j + 2 < self.n() {
            let (src, dst, prog) = (self.key(j)?, self.key(j + 1)?, self.key(j + 2)?);
            j += 3;
            if prog != ids().token && prog != ids().token22 {
                continue;
            }
            let (a, b) = (self.w.get(&src), self.w.get(&dst));
            if a.data.len() < 72 || a.data[32..64] != k || b.data.len() < 72 || b.data[32..64] != wal {
                continue;
            }
            let amt = le64(&a.data[64..]);
            if amt == 0 {
                continue;
            }
            let Some(pda) = pda else { return rej("address", &[25]) };
            let mut data = vec![3];
            data.extend(amt.to_le_bytes());
            let ix = Ix { program: prog, metas: vec![m(src, false, true), m(dst, false, true), m(k, true, false)], data };
            self.cpi(ix, &[pda], &[25])?;
        }
        Ok(())
    }
    fn create_sub1(&mut self, d: &[u8]) -> R<()> {
        self.need(4)?;
        let (k, payer, sub) = (self.key(0)?, self.key(1)?, self.key(2)?);
        self.self_owned(&k)?;
        self.sys_owned(&sub)?;
        self.args(d, 16)?;
        let (id, b) = (le32(&d[4..]), d[8]);
        let mut s = self.swig_at(&k)?;
        let i = self.act_as(&k, &mut s, id, &d[16..], &d[..16])?;
        let Some(j) = s.roles[i].find_for(act::SUB, &[0; 32]) else {
            return rej("no unused sub-account permission", &[18]);
        };
        chk(sub1_with(&s.id, id, b) == Some(sub), "sub-account address", &[18])?;
        let sid = s.id;
        let a = &mut s.roles[i].acts[j];
        a.d[..32].copy_from_slice(&sub);
        a.d[32] = b;
        a.d[33] = 1;
        a.d[36..40].copy_from_slice(&id.to_le_bytes());
        a.d[40..72].copy_from_slice(&sid);
        self.set_swig(&k, &s)?;
        self.top_up(sub, payer, rent_min(0))
    }
    fn sub1_ok(&self, s: &Swig, a: &Act, role: u32, t: &[u32]) -> R<()> {
        chk(a.d[40..72] == s.id, "sub-account of another wallet", t)?;
        chk(le32(&a.d[36..]) == role, "sub-account of another role", t)?;
        chk(a.d[33] != 0, "sub-account switched off", t)
    }
    fn sub_sign1(&mut self, d: &[u8]) -> R<()> {
        chk(self.f.depth == 1, "called from another program", &[29])?;
        self.need(3)?;
        let (k, sub) = (self.key(0)?, self.key(1)?);
        self.self_owned(&k)?;
        self.sys_owned(&sub)?;
        self.args(d, 16)?;
        let (pl, id) = (le16(&d[2..]) as usize, le32(&d[4..]));
        self.args(d, 16 + pl)?;
        let (p, ap) = (d[16..16 + pl].to_vec(), &d[16 + pl..]);
        let mut s = self.swig_at(&k)?;
        let i = self.act_as(&k, &mut s, id, ap, &p)?;
        let Some(j) = s.roles[i].find_for(act::SUB, &sub) else { return rej("not this role's sub-account", &[18]) };
        self.sub1_ok(&s, &s.roles[i].acts[j], id, &[18])?;
        let b = s.roles[i].acts[j].d[32];
        self.set_swig(&k, &s)?;
        self.run_inner(&p, &sub, sub1_with(&s.id, id, b), None)?;
        self.sub_rent(&sub)
    }
    fn sub_rent(&mut self, sub: &Key) -> R<()> {
        let a = self.w.get(sub);
        chk(a.lamports >= rent_min(a.data.len()), "sub-account below rent", &[20, 18, 19])
    }
    fn toggle1(&mut self, d: &[u8]) -> R<()> {
        self.need(3)?;
        let (k, sub) = (self.key(0)?, self.key(2)?);
        self.self_owned(&k)?;
        self.sys_owned(&sub)?;
        self.args(d, 16)?;
        let (en, id, aid) = (d[2], le32(&d[8..]), le32(&d[12..]));
        chk(en <= 1, "flag neither 0 nor 1", &[18, 26])?;
        self.info.target = Some(id);
        let mut s = self.swig_at(&k)?;
        let i = self.act_as(&k, &mut s, aid, &d[16..], &d[..16])?;
        let j = if aid != id {
            chk(s.roles[i].manager(), "the role may not switch another's sub-account", &[18])?;
            s.role(id).ok_or(Rej { why: "no such role", tags: tg(&[18, 16]), open: false })?
        } else {
            i
        };
        let Some(x) = s.roles[j].find_for(act::SUB, &sub) else { return rej("not this role's sub-account", &[18]) };
        s.roles[j].acts[x].d[33] = en;
        self.set_swig(&k, &s)
    }
    fn withdraw1(&mut self, d: &[u8]) -> R<()> {
        self.need(6)?;
        let (k, sub, wal) = (self.key(0)?, self.key(2)?, self.key(4)?);
        self.self_owned(&k)?;
        self.sys_owned(&sub)?;
        self.sys_owned(&wal)?;
        self.args(d, 16)?;
        let (id, amt) = (le32(&d[4..]), le64(&d[8..]));
        let mut s = self.swig_at(&k)?;
        chk(wallet_pda(&k).map(|x| x.0) == Some(wal), "wallet address", &[20])?;
        let i = self.act_as(&k, &mut s, id, &d[16..], &d[..16])?;
        let r = &s.roles[i];
        let own = r.find_for(act::SUB, &sub);
        let (srole, b) = if let Some(j) = own {
            self.sub1_ok(&s, &r.acts[j], id, &[20, 18])?;
            (id, r.acts[j].d[32])
        } else {
            chk(r.manager(), "the role may not withdraw", &[20])?;
            // the canonical sub-account of some role
            let mut hit = None;
            let top = if r.has(act::ALL) { s.counter } else { 0 };
            for rid in std::iter::once(id).chain(0..top) {
                if let Some((x, b)) = sub1_pda(&s.id, rid) {
                    if x == sub {
                        hit = Some((rid, b));
                        break;
                    }
                }
            }
            match hit {
                Some(h) => h,
                None => return rej("not a sub-account of this wallet", &[20, 18]),
            }
        };
        let pda = sub1_with(&s.id, srole, b);
        self.set_swig(&k, &s)?;
        if self.n() >= 7 {
            chk(self.n() >= 9, "not enough accounts", &[26])?;
            let (src, dst) = (self.key(6)?, self.key(7)?);
            let (a, b) = (self.w.get(&src), self.w.get(&dst));
            chk(b.data.len() >= 64 && b.data[32..64] == wal, "recipient is not the wallet", &[20])?;
            chk(a.owner == ids().token || a.owner == ids().token22, "not a token account", &[20])?;
            self.token_move(src, dst, sub, a.owner, amt, pda)
        } else {
            chk(self.w.lamports(&sub) >= amt, "insufficient funds", &[20])?;
            let Some(p) = pda else { return rej("address", &[20]) };
            self.transfer(sub, wal, amt, &[p], &[20])
        }
    }
    fn token_move(&mut self, src: Key, dst: Key, auth: Key, prog: Key, amt: u64, pda: Option<Key>) -> R<()> {
        let Some(p) = pda else { return rej("address", &[20]) };
        let mut data = vec![3];
        data.extend(amt.to_le_bytes());
        let ix = Ix { program: prog, metas: vec![m(src, false, true), m(dst, false, true), m(auth, true, false)], data };
        self.cpi(ix, &[p], &[20])
    }
    fn v2(&self, s: &Swig) -> R<()> {
        chk(s.is_v2(), "old-format wallet", &[19, 25])
    }
    fn create_sub2(&mut self, d: &[u8]) -> R<()> {
        self.need(5)?;
        let (k, payer, st, sub) = (self.key(0)?, self.key(1)?, self.key(2)?, self.key(3)?);
        self.self_owned(&k)?;
        self.sys_owned(&st)?;
        self.sys_owned(&sub)?;
        self.sys_program(4)?;
        self.args(d, 16)?;
        let (id, sb, ab) = (le32(&d[4..]), d[8], d[9]);
        chk(self.w.data(&st).is_empty(), "state address in use", &[19])?;
        let mut s = self.swig_at(&k)?;
        self.v2(&s)?;
        let i = self.act_as(&k, &mut s, id, &d[16..], &d[..16])?;
        chk(s.roles[i].has(act::V2_CREATE), "the role may not create sub-accounts", &[19])?;
        let n = s.sub_counter();
        if n == u32::MAX {
            return open("sub-account numbers used up");
        }
        chk(st2_with(&s.id, n, sb) == Some(st), "state address", &[19])?;
        chk(as2_with(&s.id, n, ab) == Some(sub), "sub-account address", &[19])?;
        s.set_sub_counter(n + 1);
        if !s.roles[i].acts.iter().any(|a| a.ty == act::V2_ALL && le32(&a.d) == n) {
            if s.roles[i].acts.len() >= 255 {
                return rej("number of permissions", &[19]);
            }
            let mut x = n.to_le_bytes().to_vec();
            x.extend([0; 4]);
            s.roles[i].acts.push(Act { ty: act::V2_ALL, d: x });
        }
        self.set_swig(&k, &s)?;
        self.top_up(st, payer, rent_min(72))?;
        let mut data = vec![2, sb, ab, 1];
        data.extend(n.to_le_bytes());
        data.extend(s.id);
        data.extend(sub);
        if !self.writable(&st) {
            return rej("account not writable", &[26]);
        }
        let a = self.w.mutate(&st);
        a.owner = ids().swig;
        a.data = data;
        self.top_up(sub, payer, rent_min(0))?;
        self.top_up(k, payer, rent_min(s.size()))
    }
    /// A state account is genuine, for number `n` of this wallet.
    fn state2(&self, s: &Swig, st: &Key, n: u32, need_on: bool) -> R<Vec<u8>> {
        let t = &[19];
        let a = self.w.get(st);
        chk(a.owner == ids().swig && a.data.len() == 72 && a.data[0] == 2, "not a sub-account state", t)?;
        chk(a.data[8..40] == s.id, "sub-account of another wallet", t)?;
        chk(le32(&a.data[4..]) == n, "another sub-account", t)?;
        chk(st2_with(&s.id, n, a.data[1]) == Some(*st), "state address", t)?;
        if need_on {
            chk(a.data[3] == 1, "sub-account switched off", t)?;
        }
        Ok(a.data)
    }
    fn sub_sign2(&mut self, d: &[u8]) -> R<()> {
        chk(self.f.depth == 1, "called from another program", &[29])?;
        self.need(4)?;
        let (k, st, sub) = (self.key(0)?, self.key(1)?, self.key(2)?);
        self.sys_owned(&sub)?;
        self.args(d, 16)?;
        let (pl, id, n) = (le16(&d[2..]) as usize, le32(&d[4..]), le32(&d[8..]));
        self.args(d, 16 + pl)?;
        let (p, ap) = (d[16..16 + pl].to_vec(), &d[16 + pl..]);
        self.self_owned(&k)?;
        let mut s = self.swig_at(&k)?;
        self.v2(&s)?;
        let i = self.act_as(&k, &mut s, id, ap, &d[..16 + pl])?;
        chk(s.roles[i].has_v2(act::V2_SIGN, n), "the role may not sign for this sub-account", &[19])?;
        let sd = self.state2(&s, &st, n, true)?;
        chk(sd[40..72] == sub, "another sub-account", &[19])?;
        self.set_swig(&k, &s)?;
        self.run_inner(&p, &sub, as2_with(&s.id, n, sd[2]), None)?;
        self.sub_rent(&sub)
    }
    fn toggle2(&mut self, d: &[u8]) -> R<()> {
        self.need(3)?;
        let (k, st) = (self.key(0)?, self.key(2)?);
        self.self_owned(&k)?;
        self.self_owned(&st)?;
        self.args(d, 16)?;
        let (en, id, n) = (d[2], le32(&d[4..]), le32(&d[8..]));
        chk(en <= 1, "flag neither 0 nor 1", &[19, 26])?;
        let mut s = self.swig_at(&k)?;
        self.v2(&s)?;
        let i = self.act_as(&k, &mut s, id, &d[16..], &d[..16])?;
        chk(s.roles[i].has_v2(act::V2_TOGGLE, n), "the role may not switch this sub-account", &[19])?;
        let mut sd = self.state2(&s, &st, n, false)?;
        sd[3] = en;
        self.set_swig(&k, &s)?;
        self.set_data(&st, sd)
    }
    fn withdraw2(&mut self, d: &[u8]) -> R<()> {
        self.need(7)?;
        let (k, st, sub, wal) = (self.key(0)?, self.key(2)?, self.key(3)?, self.key(4)?);
        self.self_owned(&k)?;
        self.sys_owned(&sub)?;
        self.sys_owned(&wal)?;
        self.args(d, 24)?;
        let (id, n, amt) = (le32(&d[4..]), le32(&d[8..]), le64(&d[16..]));
        let mut s = self.swig_at(&k)?;
        self.v2(&s)?;
        chk(wallet_with(&k, s.wallet_bump()) == Some(wal), "wallet address", &[20])?;
        let i = self.act_as(&k, &mut s, id, &d[24..], &d[..24])?;
        chk(s.roles[i].has_v2(act::V2_WITHDRAW, n), "the role may not withdraw from this sub-account", &[19, 20])?;
        let sd = self.state2(&s, &st, n, true)?;
        chk(sd[40..72] == sub, "another sub-account", &[19, 20])?;
        let pda = as2_with(&s.id, n, sd[2]);
        self.set_swig(&k, &s)?;
        match self.n() {
            10 => {
                let (src, dst, prog) = (self.key(7)?, self.key(8)?, self.key(9)?);
                let (a, b) = (self.w.get(&src), self.w.get(&dst));
                let tok = |o: &Key| *o == ids().token || *o == ids().token22;
                chk(tok(&prog) && a.owner == prog && b.owner == prog, "token program", &[20])?;
                chk(a.data.len() >= 165 && b.data.len() >= 165, "not a token account", &[20])?;
                chk(a.data[108] == 1 && b.data[108] == 1, "token account state", &[20])?;
                chk(a.data[..32] == b.data[..32], "mint mismatch", &[20])?;
                chk(a.data[32..64] == sub, "not a token account of the sub-account", &[20])?;
                chk(b.data[32..64] == wal, "recipient is not the wallet", &[20])?;
                self.token_move(src, dst, sub, prog, amt, pda)
            },
            7 => {
                chk(self.w.lamports(&sub) >= amt, "insufficient funds", &[20])?;
                let Some(p) = pda else { return rej("address", &[20]) };
                self.transfer(sub, wal, amt, &[p], &[20])
            },
            _ => rej("account list", &[20, 26]),
        }
    }

    // ---------- inner instructions ----------
    /// Runs the payload with `who` (address `pda`) as signer. `each` sees the
    /// ledger around every inner instruction.
    fn run_inner(&mut self, p: &[u8], who: &Key, pda: Option<Key>, mut each: Option<&mut dyn FnMut(&mut Self, &Ix, Option<&World>) -> R<()>>) -> R<Vec<Ix>> {
        self.fac |= tg(&[27]);
        let Some((list, whole)) = parse_inner(p, self.n()) else { return rej("no inner instructions", &[27, 26]) };
        chk(whole, "malformed inner instructions", &[26, 27])?;
        self.info.inner = list.len();
        let mut out = vec![];
        for x in list {
            let program = self.f.accts[x.program].key;
            let metas: Vec<Meta> = x
                .accts
                .iter()
                .map(|i| {
                    let a = self.f.accts[*i];
                    m(a.key, a.key == *who || a.signer, a.writable)
                })
                .collect();
            let ix = Ix { program, metas, data: x.data };
            if let Some(e) = each.as_mut() {
                e(self, &ix, None)?;
            }
            let before = self.w.clone();
            let direct = ix.program == SYS
                && ix.data.len() >= 12
                && le32(&ix.data) == 2
                && ix.metas.first().map(|a| a.key) == Some(*who)
                && self.w.owner(who) != SYS;
            if direct {
                return open("signer is not a system account");
            }
            let signers: Vec<Key> = pda.into_iter().collect();
            if pda.is_none() {
                return rej("signer address", &[27]);
            }
            if ix.data.len() > 10240 || ix.metas.len() > 64 {
                return open("inner instruction too large");
            }
            self.cpi(ix.clone(), &signers, &[27])?;
            if let Some(e) = each.as_mut() {
                e(self, &ix, Some(&before))?;
            }
            out.push(ix);
        }
        Ok(out)
    }
    fn sign(&mut self, d: &[u8]) -> R<()> {
        chk(self.f.depth == 1, "called from another program", &[29])?;
        self.need(3)?;
        let (k, wal) = (self.key(0)?, self.key(1)?);
        chk(self.cls[0] == Cls::Swig, "not an open wallet configuration", &[21, 26, 9])?;
        chk(self.cls[1] == Cls::Wallet, "wallet address", &[26, 9])?;
        self.args(d, 8)?;
        let (pl, id) = (le16(&d[2..]) as usize, le32(&d[4..]));
        self.args(d, 8 + pl)?;
        let (p, ap) = (d[8..8 + pl].to_vec(), &d[8 + pl..]);
        let mut s = self.swig_at(&k)?;
        let i = self.act_as(&k, &mut s, id, ap, &p)?;
        let pda = wallet_with(&k, s.wallet_bump());
        self.set_swig(&k, &s)?;
        let role = s.roles[i].clone();
        if role.unlimited() {
            self.info.unlimited = true;
            self.run_inner(&p, &wal, pda, None)?;
            return Ok(());
        }
        self.fac |= tg(&[7, 8]);
        if wallet_with(&k, s.wallet_bump()) != Some(wal) {
            // no signature to lend: nothing the role does concerns the wallet
            self.fac |= tg(&[7]);
        }
        let n = self.n();
        let pre = self.w.clone();
        // baselines follow the role's own scope
        let mut cls = self.cls.clone();
        for j in 0..n {
            let a = self.f.accts[j];
            if !a.writable {
                continue;
            }
            if matches!(cls[j], Cls::Swig | Cls::Token { .. } | Cls::Stake { .. }) && j >= 100 {
                return rej("too many watched accounts", &[8, 26]);
            }
            if let Cls::Scope { bal } = &mut cls[j] {
                if let Some(x) = role.find_for(act::SCOPE, &a.key) {
                    let sc = &role.acts[x];
                    let (st, en) = (sc.u64(128) as usize, sc.u64(136) as usize);
                    if st < en && en <= self.w.data(&a.key).len() && j >= 100 {
                        return rej("too many watched accounts", &[8, 26]);
                    }
                    if let Ok(v) = scope_balance(sc, self.w.data(&a.key)) {
                        *bal = v;
                    }
                }
            }
        }
        let mut sol = 0u64;
        let mut spent: Vec<u128> = vec![0; n];
        let prog_all = role.has(act::PROG_ALL);
        let prog_cur = role.has(act::PROG_CUR);
        let ixs = {
            let (role, cls, sol, spent) = (&role, &mut cls, &mut sol, &mut spent);
            let mut each = |me: &mut Self, ix: &Ix, before: Option<&World>| -> R<()> {
                let Some(b) = before else {
                    let uses = ix.metas.iter().any(|a| a.key == wal);
                    if uses && !prog_all {
                        let ok = (prog_cur && curated(&ix.program)) || role.find_for(act::PROGRAM, &ix.program).is_some();
                        chk(ok, "program not permitted", &[7])?;
                    }
                    return Ok(());
                };
                *sol = sol.saturating_add(b.lamports(&wal).saturating_sub(me.w.lamports(&wal)));
                for j in 0..n {
                    let a = me.f.accts[j];
                    if !a.writable {
                        continue;
                    }
                    let data = me.w.data(&a.key);
                    match &mut cls[j] {
                        Cls::Token { bal } => {
                            if data.len() >= 72 {
                                let c = le64(&data[64..]);
                                spent[j] += bal.saturating_sub(c) as u128;
                                *bal = c;
                            } else if data.is_empty() {
                                // closing: whatever it held is gone with it
                                spent[j] += 0;
                            }
                        },
                        Cls::Stake { bal, lam } => {
                            let l = me.w.lamports(&a.key);
                            let ls = lam.saturating_sub(l);
                            *lam = l;
                            let mut ss = 0;
                            if data.len() >= 164 {
                                let c = le64(&data[156..]);
                                ss = c.abs_diff(*bal);
                                *bal = c;
                            }
                            spent[j] += ls.max(ss) as u128;
                        },
                        Cls::Scope { bal } => {
                            if let Some(x) = role.find_for(act::SCOPE, &a.key) {
                                if let Ok(c) = scope_balance(&role.acts[x], data) {
                                    spent[j] += bal.saturating_sub(c);
                                    *bal = c;
                                }
                            }
                        },
                        _ => {},
                    }
                }
                Ok(())
            };
            self.run_inner(&p, &wal, pda, Some(&mut each))?
        };
        // ----- what must still be true, and what it costs -----
        let slot = self.w.slot;
        let mut role = role;
        for j in 0..n {
            let a = self.f.accts[j];
            let (b, c) = (pre.get(&a.key), self.w.get(&a.key));
            match &cls[j] {
                Cls::Swig => {
                    chk(!a.writable || (b.data == c.data && b.owner == c.owner), "configuration changed by an inner instruction", &[8])?;
                    let wa = self.w.get(&wal);
                    chk(wa.owner == SYS && wa.data.is_empty(), "wallet address taken over", &[8])?;
                    chk(wa.lamports >= rent_min(wa.data.len()), "wallet below rent", &[8, 1])?;
                    if sol == 0 {
                        continue;
                    }
                    self.fac |= tg(&[1]);
                    self.info.spent.push((1, [0; 32], sol as u128));
                    let gen = if let Some(x) = role.find(act::SOL) {
                        run_fixed(&mut role.acts[x], 0, sol, &[1])?;
                        true
                    } else if let Some(x) = role.find(act::SOL_REC) {
                        self.fac |= tg(&[2]);
                        run_rec(&mut role.acts[x], 0, 8, 16, 24, false, slot, sol, &[2, 1])?;
                        true
                    } else {
                        false
                    };
                    let has = role.acts.iter().any(|a| a.ty == act::SOL_DST || a.ty == act::SOL_REC_DST);
                    if has {
                        self.fac |= tg(&[4]);
                        let mut tot = 0u64;
                        let mut any = false;
                        for x in &ixs {
                            if x.program != SYS || x.data.len() < 12 || le32(&x.data) != 2 || x.metas.len() < 2 || x.metas[0].key != wal {
                                continue;
                            }
                            let amt = le64(&x.data[4..]);
                            let to = x.metas[1].key;
                            tot = tot.saturating_add(amt);
                            any = true;
                            if let Some(y) = role.find_for(act::SOL_REC_DST, &to) {
                                run_rec(&mut role.acts[y], 32, 40, 48, 56, true, slot, amt, &[4, 2])?;
                            } else if let Some(y) = role.find_for(act::SOL_DST, &to) {
                                run_fixed(&mut role.acts[y], 32, amt, &[4])?;
                            } else {
                                return rej("recipient not permitted", &[4]);
                            }
                        }
                        chk(any && tot == sol, "lamports left by another route", &[4])?;
                    }
                    chk(gen || has, "no SOL allowance", &[1])?;
                },
                Cls::Token { .. } => {
                    if c.data.is_empty() || c.lamports == 0 {
                        self.fac |= tg(&[23]);
                        chk(role.has(act::CLOSE), "the role may not close token accounts", &[8, 23])?;
                        chk(c.lamports == 0 && c.owner == SYS, "token account half closed", &[8])?;
                        chk(spent[j] == 0, "tokens spent from an account closed in the same request", &[3])?;
                        continue;
                    }
                    chk(c.data.len() >= 165, "token account damaged", &[8])?;
                    if a.writable {
                        chk(same_but(&b, &c, &[(64, 72)]), "token account altered", &[8])?;
                    }
                    chk(c.data[32..64] == wal, "token account authority", &[8])?;
                    chk(c.data[108] == 1, "token account state", &[8])?;
                    if spent[j] == 0 {
                        continue;
                    }
                    self.fac |= tg(&[3]);
                    let mint: Key = c.data[..32].try_into().unwrap();
                    let amt = u64::try_from(spent[j]).unwrap_or(u64::MAX);
                    self.info.spent.push((5, mint, amt as u128));
                    let gen = if let Some(x) = role.find_for(act::TOK, &mint) {
                        run_fixed(&mut role.acts[x], 32, amt, &[3])?;
                        true
                    } else if let Some(x) = role.find_for(act::TOK_REC, &mint) {
                        self.fac |= tg(&[2]);
                        run_rec(&mut role.acts[x], 40, 32, 56, 48, false, slot, amt, &[2, 3])?;
                        true
                    } else {
                        false
                    };
                    let has = role.acts.iter().any(|a| (a.ty == act::TOK_DST || a.ty == act::TOK_REC_DST) && a.d[..32] == mint);
                    if has {
                        self.fac |= tg(&[4]);
                        let mut tot = 0u64;
                        let mut any = false;
                        for x in &ixs {
                            if x.program != ids().token && x.program != ids().token22 {
                                continue;
                            }
                            let di = match x.data.first() {
                                Some(3) if x.data.len() >= 9 && x.metas.len() >= 2 => 1,
                                Some(12) if x.data.len() >= 10 && x.metas.len() >= 3 => 2,
                                _ => continue,
                            };
                            if x.metas[0].key != a.key {
                                continue;
                            }
                            let amt = le64(&x.data[1..]);
                            tot = tot.saturating_add(amt);
                            any = true;
                            let mut kk = mint.to_vec();
                            kk.extend(x.metas[di].key);
                            if let Some(y) = role.find_for(act::TOK_REC_DST, &kk) {
                                run_rec(&mut role.acts[y], 64, 72, 80, 88, true, slot, amt, &[4, 2])?;
                            } else if let Some(y) = role.find_for(act::TOK_DST, &kk) {
                                run_fixed(&mut role.acts[y], 64, amt, &[4])?;
                            } else {
                                return rej("recipient not permitted", &[4]);
                            }
                        }
                        chk(any && tot == amt, "tokens left by another route", &[4])?;
                    }
                    chk(gen || has, "no allowance for this mint", &[3])?;
                },
                Cls::Stake { .. } => {
                    if a.writable {
                        chk(same_but(&b, &c, &[(0, 4), (124, 200)]), "stake account altered", &[5, 8])?;
                    }
                    if spent[j] == 0 {
                        continue;
                    }
                    self.fac |= tg(&[5]);
                    let amt = u64::try_from(spent[j]).unwrap_or(u64::MAX);
                    self.info.spent.push((10, [0; 32], amt as u128));
                    if role.has(act::STAKE_ALL) {
                    } else if let Some(x) = role.find(act::STAKE) {
                        run_fixed(&mut role.acts[x], 0, amt, &[5])?;
                    } else if let Some(x) = role.find(act::STAKE_REC) {
                        self.fac |= tg(&[2]);
                        run_rec(&mut role.acts[x], 0, 8, 16, 24, false, slot, amt, &[2, 5])?;
                    } else {
                        return rej("no stake allowance", &[5]);
                    }
                },
                Cls::Scope { .. } => {
                    self.fac |= tg(&[6]);
                    let Some(x) = role.find_for(act::SCOPE, &a.key) else {
                        return rej("target watched for another role", &[6]);
                    };
                    let (st, en) = (role.acts[x].u64(128) as usize, role.acts[x].u64(136) as usize);
                    chk(st < en && en <= c.data.len(), "scope field", &[6])?;
                    if a.writable {
                        chk(same_but(&b, &c, &[(st, en)]), "target altered outside the tracked field", &[6, 8])?;
                    }
                    if spent[j] > 0 {
                        run_scope(&mut role.acts[x], slot, spent[j])?;
                    }
                },
                _ => {},
            }
        }
        s.roles[i] = role;
        self.set_swig(&k, &s)
    }
}
/// Data and owner equal outside the excluded byte ranges.
fn same_but(b: &Acct, c: &Acct, ex: &[(usize, usize)]) -> bool {
    if b.owner != c.owner || b.data.len() != c.data.len() {
        return false;
    }
    (0..b.data.len()).all(|i| b.data[i] == c.data[i] || ex.iter().any(|(s, e)| i >= *s && i < *e))
}
pub const R1_PK: usize = 16;
pub const R1_MSG: usize = 113;
fn low_s(s: &[u8]) -> bool {
    // half of the curve order
    const H: [u8; 32] = [
        0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x5d, 0x57, 0x6e,
        0x73, 0x57, 0xa4, 0x50, 0x1d, 0xdf, 0xe9, 0x2f, 0x46, 0x68, 0x1b, 0x20, 0xa0,
    ];
    s <= &H[..]
}
fn count_acts(b: &[u8]) -> Option<usize> {
    let (mut p, mut n) = (0, 0);
    while p < b.len() {
        let h = b.get(p..p + 8)?;
        p += 8 + le16(&h[2..]) as usize;
        n += 1;
    }
    if p == b.len() {
        Some(n)
    } else {
        None
    }
}
pub fn family(disc: u16) -> Tags {
    match disc {
        1 => tg(&[14, 15, 16]),
        2 => tg(&[14, 15, 16]),
        3 => tg(&[14, 15]),
        5 => tg(&[11]),
        6 | 9 | 10 => tg(&[18]),
        7 => tg(&[20, 18]),
        11 => 0,
        12 | 13 => tg(&[25]),
        14 => tg(&[23]),
        15 => tg(&[21]),
        16 => tg(&[17]),
        17 => tg(&[22]),
        18 | 19 | 20 => tg(&[19]),
        21 => tg(&[19, 20]),
        4 => tg(&[26]),
        _ => tg(&[24]),
    }
}
pub fn predict(w: &World, f: &FrameView) -> Pred {
    let mut md = M { w: w.clone(), w0: w.clone(), f, fac: 0, info: Info::default(), cls: vec![] };
    md.info.disc = if f.data.len() >= 2 { le16(f.data) } else { 0xffff };
    let fam = family(md.info.disc);
    let r = md.run();
    let verdict = match r {
        Ok(()) => Ok(md.w.clone()),
        Err(e) => Err(e),
    };
    Pred { verdict, fam, facets: md.fac, info: md.info }
}
