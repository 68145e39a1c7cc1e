//! Honest (and twisted) clients: keys, signatures, request assembly.
use crate::layout::*;
use crate::model::{self, *};
use crate::native::{self, ids, IX_SYSVAR};
use crate::rt::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub const NK: u64 = 10;
pub fn ed(i: u64) -> Key {
    cousin(label_key("ed", 0), i)
}
pub fn ses(i: u64) -> Key {
    cousin(label_key("ses", 0), i)
}
pub fn k1_secret(i: u64) -> libsecp256k1::SecretKey {
    libsecp256k1::SecretKey::parse(&label_key("k1", i)).unwrap()
}
pub fn r1(i: u64) -> [u8; 33] {
    let mut k = [0; 33];
    k[0] = 2 + (i % 2) as u8;
    k[1..].copy_from_slice(&cousin(label_key("r1", 0), i));
    k
}
pub struct Keys {
    pub k1: HashMap<[u8; 33], (libsecp256k1::SecretKey, [u8; 64])>,
    pub k1pub: Vec<([u8; 33], [u8; 64])>,
}
impl Keys {
    pub fn new() -> Self {
        let mut k1 = HashMap::new();
        let mut k1pub = vec![];
        for i in 0..NK {
            let s = k1_secret(i);
            let p = libsecp256k1::PublicKey::from_secret_key(&s);
            let full: [u8; 64] = p.serialize()[1..].try_into().unwrap();
            let c = compress64(&full);
            assert_eq!(c, p.serialize_compressed());
            k1.insert(c, (s, full));
            k1pub.push((c, full));
        }
        Keys { k1, k1pub }
    }
}

/// How an authorisation deviates from an honest one.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Twist {
    None,
    /// another key of the same kind signs
    WrongKey,
    /// signer account present but not signing / signature bytes corrupted
    NoSig,
    Stale,
    Skip,
    Old,
    Future,
    Edge,
    OtherPayload,
    Short,
    Long,
    HighS,
    WrongIndex,
    /// root instead of session or the other way round
    OtherMode,
    Kind(u8),
}
#[derive(Clone, Debug)]
pub struct Call {
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
    /// the part of `data` an authority commits to
    pub signed: (usize, usize),
    /// where to store the authority payload's length (u16), if the format has it
    pub len_at: Option<usize>,
    pub swig: Key,
    pub role: u32,
    pub root: bool,
    pub twist: Twist,
    pub seed: u64,
    /// program-exec proof data replacing the usual call data
    pub proof: Option<Vec<u8>>,
}
#[derive(Clone, Debug)]
pub enum Part {
    Raw(Ix),
    Call(Call),
}
#[derive(Clone, Debug)]
enum Via {
    Ed(u8),
    K1,
    R1(u8),
    Px(u8),
    Nothing,
}

pub struct Signer<'a> {
    pub keys: &'a Keys,
    pub w: &'a mut World,
}
pub fn r1_sig(pk: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut s = sha256(&[b"r1sig", pk, msg]).to_vec();
    s.extend(sha256(&[b"r1sig2", pk, msg]));
    s
}
pub fn r1_ix(pk: &[u8], msg: &[u8], sig: &[u8]) -> Vec<u8> {
    // num, pad, offsets(14), pk@16, sig@49, msg@113
    let mut d = vec![1, 0];
    for v in [49u16, 0xffff, 16, 0xffff, 113, msg.len() as u16, 0xffff] {
        d.extend(v.to_le_bytes());
    }
    d.extend(pk);
    d.extend(sig);
    d.extend(msg);
    d
}
/// Huffman code of the origin's characters: (tree, bits).
pub fn huff(s: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let mut chars: Vec<u8> = s.to_vec();
    chars.sort();
    chars.dedup();
    if chars.len() < 2 {
        chars.push(if chars.first() == Some(&b'x') { b'y' } else { b'x' });
        if chars.len() < 2 {
            chars.push(b'z');
        }
    }
    // leaves 0..n-1, then internal nodes forming a right-leaning chain
    let mut tree = vec![];
    for c in &chars {
        tree.extend([0u8, *c, 0]);
    }
    let n = chars.len();
    // node n joins leaves n-2,n-1; next joins leaf n-3 with the previous ...
    let mut prev = n - 1;
    for j in (0..n - 1).rev() {
        tree.extend([1u8, j as u8, prev as u8]);
        prev = tree.len() / 3 - 1;
    }
    let mut bits = vec![];
    for c in s {
        let i = chars.iter().position(|x| x == c).unwrap();
        for _ in 0..i {
            bits.push(1u8);
        }
        if i < n - 1 {
            bits.push(0);
        }
    }
    let mut out = vec![];
    for ch in bits.chunks(8) {
        let mut b = 0;
        for (i, x) in ch.iter().enumerate() {
            b |= x << (7 - i);
        }
        out.push(b);
    }
    (tree, out)
}
/// Passkey extra payload for this request hash; `v` picks the flavour.
pub fn passkey(r: &mut Rng, hash: &[u8; 32], bad: Option<u8>) -> (Vec<u8>, Vec<u8>) {
    let origins = ["https://app.example", "http://localhost:3000", "android:apk-key-hash:Zx_9", "a"];
    let origin = *r.pick(&origins);
    let mut auth = r.bytes(37);
    if r.chance(1, 4) {
        let n = r.us(100);
        auth.extend(r.bytes(n));
    }
    if r.chance(1, if bad == Some(5) { 2 } else { 16 }) {
        // about as long as the program takes
        auth.resize(if bad == Some(5) { 194 + r.us(5) } else { 193 + r.us(3) }, 7);
    }
    let mut h = *hash;
    let raw = r.chance(1, 2);
    let bad = bad.unwrap_or(255);
    if bad == 0 {
        h[r.us(32)] ^= 1 << r.us(8);
    }
    let mut e = vec![];
    let cd;
    if raw {
        e.extend([2u8, 0]);
        let ty = if bad == 1 { "webauthn.create" } else { "webauthn.get" };
        let ch = format!("\"challenge\":\"{}\"", b64url(&h));
        let ty = format!("\"type\":\"{ty}\"");
        let mut f = vec![ch, ty];
        if r.chance(1, 2) {
            f.swap(0, 1)
        }
        f.push(format!("\"origin\":\"{origin}\""));
        if r.chance(1, 2) {
            f.push("\"crossOrigin\":false".into());
        }
        if r.chance(1, 3) {
            f.push("\"other_keys_can_be_added_here\":\"do not compare\"".into());
        }
        if r.chance(1, 3) {
            let v = *r.pick(&["Zx9", "", "{", "}", "}}", "\\\\", "\\\"}", "{a", "[", ",\\\"challenge\\\":"]);
            let k = *r.pick(&["id", "i}", "s{t"]);
            let at = r.us(f.len() + 1);
            f.insert(at, format!("\"tokenBinding\":{{\"status\":\"present\",\"{k}\":\"{v}\"}}"));
        }
        if bad == 2 {
            // the right challenge only inside a nested object
            let good = format!("\"challenge\":\"{}\"", b64url(hash));
            h[0] ^= 1;
            let i = f.iter().position(|x| x.starts_with("\"challenge")).unwrap();
            f[i] = format!("\"challenge\":\"{}\"", b64url(&h));
            f.insert(
                0,
                match r.us(3) {
                    0 => format!("\"x\":{{{good}}}"),
                    1 => format!("\"x\":{{\"y\":{{\"z\":\"}}\"}},{good},\"w\":{{\"v\":{{\"u\":\"{{\"}}}}}}"),
                    _ => format!("\"x\":[{{{good}}}]"),
                },
            );
        }
        if bad == 3 {
            let i = f.iter().position(|x| x.starts_with("\"challenge")).unwrap();
            f.remove(i);
        }
        if r.chance(1, 12) {
            let at = r.us(f.len() + 1);
            f.insert(at, "\"topOrigin\":\"\"".into());
        }
        if r.chance(1, 6) {
            // white space wherever JSON allows it
            let c = *r.pick(&[" : ", ": ", " :", "\t:\r\n"]);
            for x in f.iter_mut().filter(|x| !x.contains('{')) {
                *x = x.replacen("\":", &format!("\"{c}"), 1);
            }
        }
        let sep = *r.pick(&[",", ", ", ",\n "]);
        if r.chance(1, if bad == 6 { 2 } else { 20 }) {
            let n = f.iter().map(|x| x.len() + sep.len()).sum::<usize>() + 9;
            f.push(format!("\"pad\":\"{}\"", "x".repeat((if bad == 6 { *r.pick(&[1023, 1024, 1024, 1025]) } else { 1019 + r.us(5) }).saturating_sub(n))));
        }
        let j = format!("{{{}}}", f.join(sep));
        e.extend((auth.len() as u16).to_le_bytes());
        e.extend(&auth);
        e.extend((j.len() as u16).to_le_bytes());
        e.extend(j.as_bytes());
        if bad == 4 {
            e.push(0);
        }
        cd = j;
    } else {
        e.extend([1u8, 0]);
        let mut order = [2u8, 1, 3, 4];
        for i in (1..4).rev() {
            let j = r.us(i + 1);
            order.swap(i, j);
        }
        if r.chance(1, 4) {
            for o in order.iter_mut() {
                if *o == 4 {
                    *o = 0
                }
            }
        }
        match bad {
            1 => {
                for o in order.iter_mut() {
                    if *o == 1 {
                        *o = 0
                    }
                }
            },
            2 => {
                for o in order.iter_mut() {
                    if *o == 3 {
                        *o = 2
                    }
                }
            },
            3 => {
                for o in order.iter_mut() {
                    if *o == 2 {
                        *o = 0
                    }
                }
            },
            4 => order[r.us(4)] = 5,
            _ => {},
        }
        let (t, b) = huff(origin.as_bytes());
        e.extend((auth.len() as u16).to_le_bytes());
        e.extend(&auth);
        e.extend(order);
        e.extend((origin.len() as u16).to_le_bytes());
        e.extend((t.len() as u16).to_le_bytes());
        e.extend((b.len() as u16).to_le_bytes());
        e.extend(t);
        e.extend(b);
        cd = client_data(&order, origin, &h);
    }
    let mut msg = auth;
    msg.extend(sha256(&[cd.as_bytes()]));
    (e, msg)
}

pub fn privs(ixs: &[Ix], payer: &Key, w: &World) -> BTreeMap<Key, (bool, bool)> {
    let mut p: BTreeMap<Key, (bool, bool)> = BTreeMap::new();
    p.insert(*payer, (true, true));
    for ix in ixs {
        for mt in &ix.metas {
            let e = p.entry(mt.key).or_insert((false, false));
            e.0 |= mt.signer;
            e.1 |= mt.writable;
        }
        p.entry(ix.program).or_insert((false, false));
    }
    for (k, v) in p.iter_mut() {
        if native::reserved(k) || w.peek(k).map(|a| a.exec).unwrap_or(false) {
            v.1 = false;
        }
    }
    p
}

impl Signer<'_> {
    pub fn assemble(&mut self, parts: Vec<Part>, payer: Key) -> Tx {
        let sw = ids().swig;
        let mut ixs: Vec<Ix> = vec![];
        let mut todo: Vec<(usize, Call, Role, Via, Option<usize>)> = vec![];
        for p in parts {
            match p {
                Part::Raw(ix) => ixs.push(ix),
                Part::Call(mut c) => {
                    let role = Swig::decode(self.w.data(&c.swig))
                        .ok()
                        .and_then(|s| s.roles.into_iter().find(|r| r.id == c.role));
                    let Some(role) = role else {
                        // nobody can authorise this; send it with some signer
                        let k = ed(0);
                        c.metas.push(m(k, true, false));
                        let mut d = c.data.clone();
                        d.push(c.metas.len() as u8 - 1);
                        if let Some(o) = c.len_at {
                            d[o..o + 2].copy_from_slice(&1u16.to_le_bytes());
                        }
                        ixs.push(Ix { program: sw, metas: c.metas, data: d });
                        continue;
                    };
                    let mut r = Rng::new(c.seed);
                    let session = role.session() && (c.root == (c.twist == Twist::OtherMode));
                    let via = if session {
                        let mut k = role.session_key();
                        if c.twist == Twist::WrongKey {
                            k = if r.chance(1, 2) && role.aty == aty::ED_S { role.auth[..32].try_into().unwrap() } else { ses(r.below(NK)) };
                        }
                        let i = put_signer(&mut c.metas, k, c.twist != Twist::NoSig);
                        Via::Ed(i)
                    } else {
                        match role.aty {
                            aty::ED | aty::ED_S => {
                                let mut k: Key = role.auth[..32].try_into().unwrap();
                                if c.twist == Twist::WrongKey {
                                    k = ed(r.below(NK));
                                }
                                Via::Ed(put_signer(&mut c.metas, k, c.twist != Twist::NoSig))
                            },
                            aty::K1 | aty::K1_S => Via::K1,
                            aty::R1 | aty::R1_S => Via::R1(put_sysvar(&mut c)),
                            aty::PX | aty::PX_S => Via::Px(put_sysvar(&mut c)),
                            _ => Via::Nothing,
                        }
                    };
                    let mut pre = None;
                    match via {
                        Via::R1(_) => {
                            if matches!(c.twist, Twist::Kind(12 | 13)) {
                                // a complete, valid check of something else
                                ixs.push(Ix { program: ids().r1, metas: vec![], data: vec![] });
                            }
                            pre = Some(ixs.len());
                            ixs.push(Ix { program: ids().r1, metas: vec![], data: vec![] });
                            if c.twist == Twist::Kind(10) {
                                // not immediately before
                                ixs.push(Ix { program: ids().script[2], metas: vec![], data: vec![5, 1] });
                            }
                        },
                        Via::Px(_) => {
                            pre = Some(ixs.len());
                            ixs.push(self.px_call(&c, &role, &mut r));
                            if r.chance(1, 4) {
                                ixs.push(Ix { program: ids().script[2], metas: vec![], data: vec![5, 1] });
                            }
                        },
                        _ => {},
                    }
                    // length of the payload must be known before anything is signed
                    if let Some(o) = c.len_at {
                        let (b, _) = self.payload(&c, &role, &via, pre, ixs.len(), &[], 0, true);
                        c.data[o..o + 2].copy_from_slice(&(b.len() as u16).to_le_bytes());
                    }
                    let at = ixs.len();
                    ixs.push(Ix { program: sw, metas: c.metas.clone(), data: c.data.clone() });
                    if let (Via::Px(_), Twist::Kind(12), Some(p)) = (&via, c.twist, pre) {
                        // the registered call comes after the request
                        let late = std::mem::replace(&mut ixs[p], Ix { program: ids().script[2], metas: vec![], data: vec![5, 1] });
                        ixs.push(late);
                    }
                    todo.push((at, c, role, via, pre));
                },
            }
        }
        let pv = privs(&ixs, &payer, self.w);
        let mut bump: BTreeMap<(Key, u32), u32> = BTreeMap::new();
        let mut fakes = vec![];
        for (at, c, role, via, pre) in todo {
            let metas: Vec<Meta> = c.metas.iter().map(|x| m(x.key, pv[&x.key].0, pv[&x.key].1)).collect();
            let e = bump.entry((c.swig, c.role)).or_insert(0);
            let (b, msg) = self.payload(&c, &role, &via, pre, at, &metas, *e, false);
            *e += 1;
            ixs[at].data.extend(b);
            if let (Twist::Kind(14 | 15), Some(p)) = (c.twist, pre) {
                fakes.push((at, p));
            }
            if let (Some(mut d), Some(p)) = (msg, pre) {
                if let (Twist::Kind(k @ (12 | 13)), Some(q)) = (c.twist, p.checked_sub(1)) {
                    ixs[q].data = self.decoy(&mut d, k, q);
                }
                ixs[p].data = d;
            }
        }
        for (at, p) in fakes {
            // the account introspected shows a check the transaction does not make
            let t = Tx { ixs: ixs.clone(), signers: BTreeSet::new(), payer };
            let data = instructions_sysvar(&t, at, &pv);
            self.w.put(label_key("introspection", 0), Acct { lamports: rent_min(data.len()), data, owner: ids().script[0], exec: false });
            ixs[p] = Ix { program: ids().script[2], metas: vec![], data: vec![5, 1] };
        }
        let mut signers: BTreeSet<Key> = ixs.iter().flat_map(|i| i.metas.iter()).filter(|x| x.signer).map(|x| x.key).collect();
        signers.insert(payer);
        Tx { ixs, signers, payer }
    }
    /// Points the check `d` at a key (12) or a message (13) held by the
    /// instruction before it, which is returned: a valid check of its own.
    fn decoy(&mut self, d: &mut [u8], k: u8, q: usize) -> Vec<u8> {
        let key: [u8; 33] = d[16..49].try_into().unwrap();
        let message = d[113..].to_vec();
        let (pk, msg) = if k == 12 {
            (r1_other(&key, 4), message)
        } else {
            let mut old = message;
            if let Some(x) = old.last_mut() {
                *x ^= 0x55
            }
            (key, old)
        };
        let sig = r1_sig(&pk, &msg);
        Rc::make_mut(&mut self.w.r1sigs).insert((pk.to_vec(), msg.clone(), sig.clone()));
        d[49..113].copy_from_slice(&sig);
        let at = if k == 12 { 2 + 6 } else { 2 + 12 };
        d[at..at + 2].copy_from_slice(&(q as u16).to_le_bytes());
        r1_ix(&pk, &msg, &sig)
    }
    fn px_call(&self, c: &Call, role: &Role, r: &mut Rng) -> Ix {
        let mut program: Key = role.auth[..32].try_into().unwrap();
        let n = role.auth[32] as usize;
        let mut data = role.auth[40..40 + n].to_vec();
        let swig = c.swig;
        let wal = c.metas.get(1).map(|x| x.key).unwrap_or([1; 32]);
        let mut metas = vec![m(swig, false, false), m(wal, false, false), m(label_key("exec-state", 0), false, false), m(label_key("to", 1), false, false)];
        if let Some(p) = &c.proof {
            data = p.clone();
        } else if program == ids().exec {
            let full = native::EXEC_OK;
            if data.len() < 8 && full.starts_with(&data) {
                data = full.to_vec();
            }
            if r.chance(1, 3) {
                let n = r.us(4);
                data.extend(r.bytes(n));
            }
        } else if r.chance(1, 2) && program != ids().exec {
            data.extend([5, r.u64() as u8]);
        }
        match c.twist {
            Twist::Kind(0) => program = ids().script[r.us(3)],
            Twist::Kind(1) => {
                if let Some(x) = data.first_mut() {
                    *x ^= 1
                }
            },
            Twist::Kind(2) => metas.swap(0, 1),
            Twist::Kind(3) => metas[0].key = crate::work::to(2),
            Twist::Kind(4) => metas[1].key = crate::work::to(2),
            Twist::Kind(5) => metas.truncate(1),
            Twist::Kind(6) => {
                data.pop();
            },
            Twist::Kind(7) => metas.insert(0, m(crate::work::to(3), false, false)),
            Twist::Kind(8) => {
                if let Some(x) = data.last_mut() {
                    *x ^= 0x10
                }
            },
            _ => {},
        }
        Ix { program, metas, data }
    }
    /// (authority payload, data of the signature instruction)
    #[allow(clippy::too_many_arguments)]
    fn payload(&mut self, c: &Call, role: &Role, via: &Via, pre: Option<usize>, at: usize, metas: &[Meta], ahead: u32, dry: bool) -> (Vec<u8>, Option<Vec<u8>>) {
        let mut r = Rng::new(c.seed ^ 0x77);
        let slot = self.w.slot;
        let t = c.twist;
        let mut signed = c.data[c.signed.0..c.signed.1.min(c.data.len())].to_vec();
        let odo = if matches!(role.aty, 3..=6) { role.odometer() } else { 0 };
        let counter = match t {
            Twist::Stale => odo.wrapping_sub(r.below(3) as u32),
            Twist::Skip => odo.wrapping_add(2 + r.below(3) as u32),
            _ => odo.wrapping_add(1 + ahead),
        };
        let s = match t {
            Twist::Old => slot.saturating_sub(61 + r.below(100)),
            Twist::Future => slot + 1 + r.below(5),
            Twist::Edge => slot.saturating_sub(59 + r.below(2)),
            _ => slot.saturating_sub(if r.chance(1, 2) { 0 } else { r.below(30) }),
        };
        if t == Twist::OtherPayload {
            if signed.is_empty() {
                signed.push(0)
            } else {
                let i = r.us(signed.len());
                signed[i] ^= 1 << r.us(8);
            }
        }
        let mut metas = metas.to_vec();
        if t == Twist::Kind(20) && !metas.is_empty() {
            // signature over other accounts or flags
            let i = r.us(metas.len());
            match r.below(3) {
                0 => metas[i].key[r.us(32)] ^= 1,
                1 => metas[i].writable ^= true,
                _ => metas[i].signer ^= true,
            }
        }
        let mut out;
        let mut msg = None;
        match via {
            Via::Nothing => out = vec![0],
            Via::Ed(i) => {
                out = vec![*i];
                if t == Twist::WrongIndex {
                    out[0] = r.us(c.metas.len() + 2) as u8;
                }
            },
            Via::K1 => {
                let mut prefix = vec![];
                if r.chance(1, 3) {
                    prefix = b"\x19Ethereum Signed Message:\n64".to_vec();
                }
                out = s.to_le_bytes().to_vec();
                out.extend(counter.to_le_bytes());
                if dry {
                    out.extend([0; 65]);
                } else {
                    let h = k1_hash(&prefix, &signed, &metas, s, counter);
                    let pk: [u8; 33] = role.auth[..33].try_into().unwrap();
                    let mut sk = self.keys.k1.get(&pk).map(|x| x.0);
                    if t == Twist::WrongKey || sk.is_none() {
                        sk = Some(k1_secret(r.below(NK)));
                    }
                    let (sig, rid) = libsecp256k1::sign(&libsecp256k1::Message::parse(&h), &sk.unwrap());
                    let mut sg = sig.serialize();
                    let mut rec = 27 + rid.serialize();
                    if t == Twist::HighS {
                        let mut x = sig;
                        x.s = -x.s;
                        sg = x.serialize();
                        rec = 27 + (rid.serialize() ^ 1);
                    }
                    if t == Twist::NoSig {
                        sg[r.us(64)] ^= 1 << r.us(8);
                    }
                    if t == Twist::WrongIndex {
                        rec ^= 7;
                    }
                    out.extend(sg);
                    out.push(rec);
                }
                out.extend(prefix);
            },
            Via::R1(i) => {
                out = s.to_le_bytes().to_vec();
                out.extend(counter.to_le_bytes());
                out.push(if t == Twist::WrongIndex { r.us(c.metas.len() + 1) as u8 } else { *i });
                out.extend(r.bytes(4));
                let h = r1_hash(&signed, &metas, s, counter);
                let bad = match t {
                    Twist::Kind(k) if k < 7 => Some(k),
                    _ => None,
                };
                let (extra, mut message) = if bad.is_some() || r.chance(2, 3) { passkey(&mut r, &h, bad) } else { (vec![], h.to_vec()) };
                out.extend(extra);
                if !dry {
                    let mut pk: [u8; 33] = role.auth[..33].try_into().unwrap();
                    if t == Twist::WrongKey {
                        pk = r1_other(&pk, r.below(NK));
                    }
                    if t == Twist::Kind(5) && message.len() > 32 {
                        let i = r.us(message.len());
                        message[i] ^= 1;
                    }
                    let sig = r1_sig(&pk, &message);
                    // honest devices sign what the client asks for
                    Rc::make_mut(&mut self.w.r1sigs).insert((pk.to_vec(), message.clone(), sig.clone()));
                    let mut d = r1_ix(&pk, &message, &sig);
                    match t {
                        Twist::NoSig => d[60] ^= 1,
                        Twist::Kind(6) => {
                            // offsets point elsewhere: a decoy at the expected place
                            let key = role.auth[..33].to_vec();
                            let other = r1_other(&pk, 3 + r.below(3));
                            let osig = r1_sig(&other, &message);
                            Rc::make_mut(&mut self.w.r1sigs).insert((other.to_vec(), message.clone(), osig.clone()));
                            d = r1_ix(&key, &message, &osig);
                            let o = d.len() as u16;
                            d.extend(other);
                            d[2 + 4..2 + 6].copy_from_slice(&o.to_le_bytes());
                        },
                        Twist::Kind(7) => {
                            // message elsewhere
                            let m2 = r.bytes(message.len());
                            let s2 = r1_sig(&pk, &m2);
                            Rc::make_mut(&mut self.w.r1sigs).insert((pk.to_vec(), m2.clone(), s2.clone()));
                            d = r1_ix(&pk, &message, &s2);
                            let o = d.len() as u16;
                            d.extend(m2);
                            d[2 + 8..2 + 10].copy_from_slice(&o.to_le_bytes());
                        },
                        Twist::Kind(8) => {
                            // two signatures claimed
                            let one = d[2..16].to_vec();
                            d = r1_ix(&pk, &message, &sig);
                            d[0] = 2;
                            let _ = one;
                        },
                        Twist::Kind(9) => {
                            // only a prefix of the message is signed
                            let k = message.len() - 1;
                            let s2 = r1_sig(&pk, &message[..k]);
                            Rc::make_mut(&mut self.w.r1sigs).insert((pk.to_vec(), message[..k].to_vec(), s2.clone()));
                            d = r1_ix(&pk, &message, &s2);
                            d[2 + 10..2 + 12].copy_from_slice(&(k as u16).to_le_bytes());
                        },
                        Twist::Kind(11) => {
                            // verified bytes live in another instruction
                            let m2 = r.bytes(message.len());
                            let s2 = r1_sig(&pk, &m2);
                            Rc::make_mut(&mut self.w.r1sigs).insert((pk.to_vec(), m2.clone(), s2.clone()));
                            let _ = s2;
                            d[2 + 12..2 + 14].copy_from_slice(&(r.below(2) as u16).to_le_bytes());
                        },
                        _ => {},
                    }
                    msg = Some(d);
                }
            },
            Via::Px(i) => {
                let p = pre.unwrap();
                out = vec![if t == Twist::WrongIndex { r.us(c.metas.len() + 1) as u8 } else { *i }];
                let adjacent = p + 1 == at;
                if !adjacent || r.chance(1, 3) {
                    out.push(p as u8);
                }
                match t {
                    Twist::Kind(9) => {
                        out.truncate(1);
                        out.push(at as u8);
                    },
                    Twist::Kind(11) => {
                        out.truncate(1);
                        out.push(r.below(8) as u8);
                    },
                    Twist::Kind(12) => {
                        out.truncate(1);
                        out.push(at as u8 + 1);
                    },
                    _ => {},
                }
            },
        }
        match t {
            Twist::Short => {
                let n = r.us(out.len().max(1));
                out.truncate(n);
            },
            Twist::Long => {
                let n = 1 + r.us(3);
                out.extend(r.bytes(n));
            },
            _ => {},
        }
        let _ = model::R1_PK;
        (out, msg)
    }
}
fn r1_other(pk: &[u8; 33], i: u64) -> [u8; 33] {
    let k = r1(i);
    if k == *pk {
        r1(i + 1)
    } else {
        k
    }
}
fn put_sysvar(c: &mut Call) -> u8 {
    if matches!(c.twist, Twist::Kind(14 | 15)) {
        c.metas.push(m(label_key("introspection", 0), false, false));
        return c.metas.len() as u8 - 1;
    }
    if let (Some(i), true) = (c.metas.iter().position(|x| x.key == IX_SYSVAR), c.seed % 8 != 0) {
        return i as u8;
    }
    c.metas.push(m(IX_SYSVAR, false, false));
    c.metas.len() as u8 - 1
}
fn put_signer(metas: &mut Vec<Meta>, k: Key, signs: bool) -> u8 {
    if let Some(i) = metas.iter().position(|x| x.key == k) {
        metas[i].signer |= signs;
        return i as u8;
    }
    metas.push(m(k, signs, false));
    metas.len() as u8 - 1
}
