//! Seeded randomness, hex, hashing.
use sha2::Digest;
pub type Key = [u8; 32];

#[derive(Clone, Debug)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed ^ 0x9E37_79B9_7F4A_7C15;
        let mut n = || {
            s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^ (z >> 31)
        };
        let a = n();
        let b = n() | 1;
        Rng(a, b)
    }
    pub fn u64(&mut self) -> u64 {
        // xoroshiro128+
        let (s0, mut s1) = (self.0, self.1);
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        r ^ (r >> 29)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.u64() as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.us(v.len())]
    }
    pub fn key(&mut self) -> Key {
        let mut k = [0; 32];
        for c in k.chunks_mut(8) {
            c.copy_from_slice(&self.u64().to_le_bytes());
        }
        k
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
    /// Picks an index by weight.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u64 = w.iter().map(|x| *x as u64).sum();
        let mut r = self.below(t.max(1));
        for (i, x) in w.iter().enumerate() {
            if r < *x as u64 {
                return i;
            }
            r -= *x as u64;
        }
        0
    }
}

pub fn sha256(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = sha2::Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
pub fn keccak(parts: &[&[u8]]) -> [u8; 32] {
    use sha3::Digest;
    let mut h = sha3::Keccak256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
pub fn short(k: &Key) -> String {
    hex(&k[..4])
}
pub fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = h;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}
pub fn le64(b: &[u8]) -> u64 {
    u64::from_le_bytes(b[..8].try_into().unwrap())
}
pub fn le32(b: &[u8]) -> u32 {
    u32::from_le_bytes(b[..4].try_into().unwrap())
}
pub fn le16(b: &[u8]) -> u16 {
    u16::from_le_bytes(b[..2].try_into().unwrap())
}
/// Base58 decoding of a 32-byte key.
pub fn b58(s: &str) -> Key {
    const A: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let mut out = [0u8; 32];
    for c in s.bytes() {
        let mut carry = A.iter().position(|x| *x == c).unwrap() as u32;
        for b in out.iter_mut().rev() {
            let v = *b as u32 * 58 + carry;
            *b = v as u8;
            carry = v >> 8;
        }
        assert_eq!(carry, 0);
    }
    out
}
/// Deterministic, order-free derivation of a labelled 32-byte value.
pub fn label_key(label: &str, n: u64) -> Key {
    sha256(&[b"sim-key", label.as_bytes(), &n.to_le_bytes()])
}
/// A value that differs from `k` in one byte, mostly a late one; itself for 0. What
/// compares only a part of two addresses mistakes some of them for each other.
pub fn cousin(mut k: Key, i: u64) -> Key {
    if i > 0 {
        k[[31, 30, 8, 24, 0, 16, 20, 12][(i % 8) as usize]] ^= (i % 255 + 1) as u8;
    }
    k
}

fn on_curve(b: &Key) -> bool {
    curve25519_dalek::edwards::CompressedEdwardsY(*b).decompress().is_some()
}
pub fn create_pda(seeds: &[&[u8]], program: &Key) -> Option<Key> {
    if seeds.len() > 16 || seeds.iter().any(|s| s.len() > 32) {
        return None;
    }
    let mut parts: Vec<&[u8]> = seeds.to_vec();
    parts.push(program);
    parts.push(b"ProgramDerivedAddress");
    let h = sha256(&parts);
    if on_curve(&h) {
        None
    } else {
        Some(h)
    }
}
thread_local! {
    static PDA_CACHE: std::cell::RefCell<std::collections::HashMap<(Vec<u8>, Key), Option<(Key, u8)>>> = Default::default();
}
pub fn find_pda(seeds: &[&[u8]], program: &Key) -> Option<(Key, u8)> {
    let mut ck = vec![];
    for s in seeds {
        ck.push(s.len() as u8);
        ck.extend_from_slice(s);
    }
    let ck = (ck, *program);
    if let Some(r) = PDA_CACHE.with(|c| c.borrow().get(&ck).copied()) {
        return r;
    }
    let mut r = None;
    for b in (0..=255u8).rev() {
        let bump = [b];
        let mut v = seeds.to_vec();
        v.push(&bump);
        if let Some(k) = create_pda(&v, program) {
            r = Some((k, b));
            break;
        }
    }
    PDA_CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 100_000 {
            c.clear()
        }
        c.insert(ck, r)
    });
    r
}
