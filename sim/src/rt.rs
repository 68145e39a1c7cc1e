//! The simulated Solana runtime: ledger, transaction atomicity, privilege
//! rules, cross-program invocation, sysvars. The swig program itself is the real
//! code, called through `libprogso.so`.
use crate::native;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Acct {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Key,
    pub exec: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Meta {
    pub key: Key,
    pub signer: bool,
    pub writable: bool,
}
pub fn m(key: Key, signer: bool, writable: bool) -> Meta {
    Meta { key, signer, writable }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ix {
    pub program: Key,
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct Tx {
    pub ixs: Vec<Ix>,
    pub signers: BTreeSet<Key>,
    pub payer: Key,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fail {
    /// Program returned this error code.
    Code(u64),
    Panic,
    /// Memory fault, abort, stack overflow, runaway loop.
    Signal(i32),
    /// The runtime refused (privileges, balance, rent ...).
    Rt(&'static str),
    /// An injected stop (compute exhaustion) fired.
    Injected,
}
pub type Res = Result<(), Fail>;
pub fn rt<T>(s: &'static str) -> Result<T, Fail> {
    Err(Fail::Rt(s))
}

pub const MAX_GROW: usize = 10240;
pub const SYS: Key = [0; 32];

pub fn rent_min(len: usize) -> u64 {
    (128 + len as u64) * 6960
}

#[derive(Clone, Default)]
pub struct World {
    pub accts: BTreeMap<Key, Rc<Acct>>,
    pub slot: u64,
    pub time: i64,
    /// secp256r1 signatures that verify: (public key, message, signature).
    pub r1sigs: Rc<BTreeSet<(Vec<u8>, Vec<u8>, Vec<u8>)>>,
}
impl World {
    pub fn get(&self, k: &Key) -> Acct {
        self.accts.get(k).map(|a| (**a).clone()).unwrap_or_default()
    }
    pub fn peek(&self, k: &Key) -> Option<&Acct> {
        self.accts.get(k).map(|a| &**a)
    }
    pub fn lamports(&self, k: &Key) -> u64 {
        self.accts.get(k).map(|a| a.lamports).unwrap_or(0)
    }
    pub fn data(&self, k: &Key) -> &[u8] {
        self.accts.get(k).map(|a| &a.data[..]).unwrap_or(&[])
    }
    pub fn owner(&self, k: &Key) -> Key {
        self.accts.get(k).map(|a| a.owner).unwrap_or(SYS)
    }
    pub fn put(&mut self, k: Key, a: Acct) {
        self.accts.insert(k, Rc::new(a));
    }
    pub fn mutate(&mut self, k: &Key) -> &mut Acct {
        Rc::make_mut(self.accts.entry(*k).or_insert_with(|| Rc::new(Acct::default())))
    }
    pub fn total(&self) -> u128 {
        self.accts.values().map(|a| a.lamports as u128).sum()
    }
}

pub struct FrameView<'a> {
    pub program: &'a Key,
    pub accts: &'a [Meta],
    pub data: &'a [u8],
    /// 1 for a transaction-level instruction.
    pub depth: usize,
    pub tx: &'a Tx,
    pub top: usize,
    pub signed_by_program: bool,
}
/// Sees every swig instruction, before and after, with the ledger at that point.
pub trait Observer {
    fn before(&mut self, w: &World, f: &FrameView);
    fn after(&mut self, w: &World, f: &FrameView, r: &Res);
}

#[derive(Clone, Debug)]
pub struct CpiRec {
    pub top: usize,
    pub depth: usize,
    pub caller: Key,
    pub ix: Ix,
}
#[derive(Clone, Debug)]
pub struct TxRes {
    pub res: Res,
    pub failed_ix: usize,
    pub trace: Vec<CpiRec>,
    pub syscalls: u64,
    pub tx_level: bool,
}

struct Buf {
    start: *mut u8,
    // per instruction-account: offset of the account header in the buffer, and
    // whether this is the first occurrence
    offs: Vec<(usize, bool)>,
    orig_len: Vec<usize>,
}
pub struct Frame {
    pub program: Key,
    pub accts: Vec<Meta>,
    pub data: Vec<u8>,
    buf: Option<Buf>,
}
pub struct Exec<'a> {
    pub w: World,
    pub tx: &'a Tx,
    pub top: usize,
    pub stack: Vec<Frame>,
    pub trace: Vec<CpiRec>,
    pub obs: Option<&'a mut (dyn Observer + 'a)>,
    pub syscalls: u64,
    pub stop_at: Option<u64>,
    pub stopped: bool,
    pub poison: Option<Fail>,
}

// ---------- the loaded program ----------
#[repr(C)]
struct Syscalls {
    log: extern "C" fn(*const u8, u64),
    create_pda: extern "C" fn(*const u8, u64, *const u8, *mut u8) -> u64,
    find_pda: extern "C" fn(*const u8, u64, *const u8, *mut u8, *mut u8) -> u64,
    sha256: extern "C" fn(*const u8, u64, *mut u8) -> u64,
    keccak256: extern "C" fn(*const u8, u64, *mut u8) -> u64,
    secp_recover: extern "C" fn(*const u8, u64, *const u8, *mut u8) -> u64,
    clock: extern "C" fn(*mut u8) -> u64,
    rent: extern "C" fn(*mut u8) -> u64,
    stack_height: extern "C" fn() -> u64,
    curve_validate: extern "C" fn(u64, *const u8, *mut u8) -> u64,
    invoke: extern "C" fn(*const u8, *const u8, u64, *const u8, u64) -> u64,
    mem: extern "C" fn(u64),
}
extern "C" {
    fn guard_init();
    fn guard_call(f: extern "C" fn(*mut libc::c_void) -> u64, arg: *mut libc::c_void, sig: *mut i32) -> u64;
    fn guard_stop() -> !;
}
type Entry = extern "C" fn(*mut libc::c_void) -> u64;
static mut ENTRY: Option<Entry> = None;
/// Where the checked build leaves the unsafe precondition it found broken.
static mut UNSAFE_MSG: *mut u8 = core::ptr::null_mut();
pub fn unsafe_msg() -> String {
    unsafe {
        if UNSAFE_MSG.is_null() || *UNSAFE_MSG == 0 {
            return String::new();
        }
        let s = std::ffi::CStr::from_ptr(UNSAFE_MSG as *const _).to_string_lossy().into_owned();
        s.lines().next().unwrap_or("").to_string()
    }
}
static mut CUR: *mut libc::c_void = core::ptr::null_mut();
static mut POOLS: Vec<*mut u8> = Vec::new();
const HEAP: usize = 0x300000000;
const HEAP_LEN: usize = 32 * 1024;
const POOL: usize = 4 << 20;

/// Loads the program; once per process.
pub fn load(path: &str) {
    unsafe {
        if ENTRY.is_some() {
            return;
        }
        guard_init();
        let p = libc::mmap(
            HEAP as *mut _,
            HEAP_LEN,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        assert_eq!(p as usize, HEAP, "cannot map the program heap");
        for _ in 0..6 {
            let p = libc::mmap(
                core::ptr::null_mut(),
                POOL + 8192,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            ) as *mut u8;
            assert!(libc::mprotect(p.add(4096) as *mut _, POOL, libc::PROT_READ | libc::PROT_WRITE) == 0);
            #[allow(static_mut_refs)]
            POOLS.push(p.add(4096));
        }
        let c = std::ffi::CString::new(path).unwrap();
        let h = libc::dlopen(c.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
        if h.is_null() {
            panic!("dlopen: {:?}", std::ffi::CStr::from_ptr(libc::dlerror()));
        }
        let ins = libc::dlsym(h, c"sim_install".as_ptr());
        let ent = libc::dlsym(h, c"sim_entry".as_ptr());
        assert!(!ins.is_null() && !ent.is_null());
        let tab = Syscalls {
            log: s_log,
            create_pda: s_create_pda,
            find_pda: s_find_pda,
            sha256: s_sha256,
            keccak256: s_keccak,
            secp_recover: s_recover,
            clock: s_clock,
            rent: s_rent,
            stack_height: s_height,
            curve_validate: s_curve,
            invoke: s_invoke,
            mem: s_mem,
        };
        UNSAFE_MSG = libc::dlsym(h, c"UNSAFE_MSG".as_ptr()) as *mut u8;
        let f: extern "C" fn(*const Syscalls) = core::mem::transmute(ins);
        f(&tab);
        ENTRY = Some(core::mem::transmute::<*mut libc::c_void, Entry>(ent));
    }
}
fn cur<'a>() -> &'a mut Exec<'a> {
    unsafe { &mut *(CUR as *mut Exec<'a>) }
}
fn tick() {
    let e = cur();
    e.syscalls += 1;
    if e.stop_at == Some(e.syscalls) {
        e.stopped = true;
        unsafe { guard_stop() }
    }
}
unsafe fn slices<'a>(p: *const u8, n: u64) -> Vec<&'a [u8]> {
    (0..n as usize)
        .map(|i| {
            let q = p.add(i * 16) as *const usize;
            let (a, l) = (*q, *q.add(1));
            if l == 0 {
                &[][..]
            } else {
                std::slice::from_raw_parts(a as *const u8, l)
            }
        })
        .collect()
}
extern "C" fn s_log(_m: *const u8, _l: u64) {
    tick();
}
extern "C" fn s_create_pda(s: *const u8, n: u64, p: *const u8, o: *mut u8) -> u64 {
    tick();
    unsafe {
        let seeds = slices(s, n);
        match create_pda(&seeds, &*(p as *const Key)) {
            Some(k) => {
                *(o as *mut Key) = k;
                0
            },
            None => 1,
        }
    }
}
extern "C" fn s_find_pda(s: *const u8, n: u64, p: *const u8, o: *mut u8, b: *mut u8) -> u64 {
    tick();
    unsafe {
        let seeds = slices(s, n);
        match find_pda(&seeds, &*(p as *const Key)) {
            Some((k, bump)) => {
                *(o as *mut Key) = k;
                *b = bump;
                0
            },
            None => 1,
        }
    }
}
extern "C" fn s_sha256(v: *const u8, n: u64, o: *mut u8) -> u64 {
    tick();
    unsafe { *(o as *mut Key) = sha256(&slices(v, n)) };
    0
}
extern "C" fn s_keccak(v: *const u8, n: u64, o: *mut u8) -> u64 {
    tick();
    unsafe { *(o as *mut Key) = keccak(&slices(v, n)) };
    0
}
pub fn recover(h: &[u8; 32], r: u8, sig: &[u8; 64]) -> Result<[u8; 64], u64> {
    let msg = libsecp256k1::Message::parse(h);
    let rid = libsecp256k1::RecoveryId::parse(r).map_err(|_| 2u64)?;
    let s = libsecp256k1::Signature::parse_standard_slice(sig).map_err(|_| 3u64)?;
    let pk = libsecp256k1::recover(&msg, &s, &rid).map_err(|_| 3u64)?;
    Ok(pk.serialize()[1..65].try_into().unwrap())
}
extern "C" fn s_recover(h: *const u8, r: u64, s: *const u8, o: *mut u8) -> u64 {
    tick();
    unsafe {
        if r > 255 {
            return 2;
        }
        match recover(&*(h as *const [u8; 32]), r as u8, &*(s as *const [u8; 64])) {
            Ok(k) => {
                *(o as *mut [u8; 64]) = k;
                0
            },
            Err(e) => e,
        }
    }
}
extern "C" fn s_clock(a: *mut u8) -> u64 {
    tick();
    let e = cur();
    unsafe {
        let p = a as *mut u64;
        *p = e.w.slot;
        *p.add(1) = 0;
        *p.add(2) = e.w.slot / 432000;
        *p.add(3) = e.w.slot / 432000 + 1;
        *p.add(4) = e.w.time as u64;
    }
    0
}
extern "C" fn s_rent(a: *mut u8) -> u64 {
    tick();
    unsafe {
        let p = a as *mut u64;
        *p = 3480;
        *(p.add(1) as *mut f64) = 2.0;
        *a.add(16) = 50;
    }
    0
}
extern "C" fn s_height() -> u64 {
    tick();
    cur().stack.len() as u64
}
extern "C" fn s_curve(_c: u64, p: *const u8, _r: *mut u8) -> u64 {
    tick();
    let k = unsafe { *(p as *const Key) };
    if curve25519_dalek::edwards::CompressedEdwardsY(k).decompress().is_some() {
        0
    } else {
        1
    }
}
extern "C" fn s_mem(_n: u64) {}

extern "C" fn s_invoke(i: *const u8, a: *const u8, n: u64, s: *const u8, sn: u64) -> u64 {
    tick();
    let e = cur();
    unsafe {
        let q = i as *const u64;
        let program = *(*q as *const Key);
        let (mp, ml, dp, dl) = (*q.add(1) as *const u8, *q.add(2), *q.add(3) as *const u8, *q.add(4));
        let mut fail: Option<Fail> = None;
        if ml > 255 || dl > 10240 || n > 128 || sn > 16 {
            fail = Some(Fail::Rt("cpi limits"));
        }
        let mut metas = vec![];
        let mut data = vec![];
        let mut infos: Vec<(Key, usize)> = vec![];
        let mut signers = vec![];
        if fail.is_none() {
            for j in 0..ml as usize {
                let p = mp.add(j * 16);
                let (w, sg) = (*p.add(8), *p.add(9));
                if w > 1 || sg > 1 {
                    fail = Some(Fail::Rt("bad meta flag"));
                    break;
                }
                metas.push(m(**(p as *const *const Key), sg == 1, w == 1));
            }
        }
        if fail.is_none() {
            data = std::slice::from_raw_parts(dp, dl as usize).to_vec();
            for j in 0..n as usize {
                let p = a.add(j * 56) as *const u64;
                infos.push((*(*p as *const Key), *p.add(3) as usize));
            }
            let me = e.stack.last().unwrap().program;
            for j in 0..sn as usize {
                let p = s.add(j * 16) as *const usize;
                match create_pda(&slices(*p as *const u8, *p.add(1) as u64), &me) {
                    Some(k) => signers.push(k),
                    None => {
                        fail = Some(Fail::Rt("bad signer seeds"));
                    },
                }
            }
        }
        let r = match fail {
            Some(f) => Err(f),
            None => e.cpi_from_swig(Ix { program, metas, data }, &infos, &signers),
        };
        if let Err(f) = r {
            // A failed invocation never returns to its caller.
            e.poison = Some(f);
            guard_stop();
        }
    }
    0
}

impl<'a> Exec<'a> {
    fn run_swig(&mut self) -> Res {
        let depth = self.stack.len();
        let pool = unsafe { POOLS[depth - 1] };
        let f = self.stack.last().unwrap();
        // sizes
        let mut offs = vec![];
        let mut orig = vec![];
        let mut first: BTreeMap<Key, usize> = BTreeMap::new();
        let mut b: Vec<u8> = Vec::with_capacity(64 * 1024);
        b.extend((f.accts.len() as u64).to_le_bytes());
        for (i, mt) in f.accts.iter().enumerate() {
            if let Some(j) = first.get(&mt.key) {
                let o: (usize, bool) = offs[*j];
                offs.push((o.0, false));
                orig.push(0);
                b.push(*j as u8);
                b.extend([0; 7]);
                continue;
            }
            first.insert(mt.key, i);
            offs.push((b.len(), true));
            // privileges of a duplicated account are the union over its metas
            let (mut s, mut w) = (false, false);
            for x in f.accts.iter().filter(|x| x.key == mt.key) {
                s |= x.signer;
                w |= x.writable;
            }
            let ac = self.w.peek(&mt.key);
            let empty = Acct::default();
            let ac = ac.unwrap_or(&empty);
            b.push(0xff);
            b.push(s as u8);
            b.push(w as u8);
            b.push(ac.exec as u8);
            b.extend([0; 4]);
            b.extend(mt.key);
            b.extend(ac.owner);
            b.extend(ac.lamports.to_le_bytes());
            b.extend((ac.data.len() as u64).to_le_bytes());
            b.extend(&ac.data);
            orig.push(ac.data.len());
            let n = b.len() + MAX_GROW;
            b.resize((n + 7) & !7, 0);
            b.extend(u64::MAX.to_le_bytes());
        }
        b.extend((f.data.len() as u64).to_le_bytes());
        b.extend(&f.data);
        b.extend(f.program);
        if b.len() > POOL {
            return rt("input too large");
        }
        let start = unsafe { pool.add((POOL - b.len()) & !15) };
        unsafe { core::ptr::copy_nonoverlapping(b.as_ptr(), start, b.len()) };
        self.stack.last_mut().unwrap().buf = Some(Buf { start, offs, orig_len: orig });
        // The program heap: fresh per invocation.
        let heap = HEAP as *mut u8;
        let saved = if depth > 1 {
            Some(unsafe { std::slice::from_raw_parts(heap, HEAP_LEN).to_vec() })
        } else {
            None
        };
        unsafe { core::ptr::write_bytes(heap, 0, HEAP_LEN) };
        let prev = unsafe { CUR };
        let mut sig = 0;
        let code = unsafe {
            if !UNSAFE_MSG.is_null() {
                *UNSAFE_MSG = 0;
            }
            CUR = self as *mut _ as *mut libc::c_void;
            guard_call(ENTRY.unwrap(), start as *mut _, &mut sig)
        };
        unsafe { CUR = prev };
        self.stack.truncate(depth);
        // The bump allocator keeps its position in the first heap word and
        // allocates downwards. A refused allocation aborts, as on chain.
        let pos = unsafe { *(HEAP as *const u64) };
        let oom = sig == 6 && unsafe_msg().is_empty() && pos != 0 && (HEAP as u64 + HEAP_LEN as u64).saturating_sub(pos) > 16_000;
        if let Some(s) = saved {
            unsafe { core::ptr::copy_nonoverlapping(s.as_ptr(), heap, HEAP_LEN) };
        }
        if let Some(p) = self.poison.take() {
            return Err(p);
        }
        if self.stopped {
            return Err(Fail::Injected);
        }
        if sig == 1000 {
            return rt("stopped");
        }
        if oom {
            return rt("out of heap");
        }
        if sig != 0 {
            return Err(Fail::Signal(sig));
        }
        if code == u64::MAX {
            return Err(Fail::Panic);
        }
        if code != 0 {
            return Err(Fail::Code(code));
        }
        let n = self.stack.last().unwrap().accts.len();
        for i in 0..n {
            self.sync_out(i)?;
        }
        Ok(())
    }
    /// Buffer -> ledger for instruction account `i` of the top frame, enforcing
    /// what the frame's program may change.
    fn sync_out(&mut self, i: usize) -> Res {
        let f = self.stack.last().unwrap();
        let b = f.buf.as_ref().unwrap();
        let (off, firstocc) = b.offs[i];
        if !firstocc {
            return Ok(());
        }
        let key = f.accts[i].key;
        let writable = f.accts.iter().any(|x| x.key == key && x.writable);
        let program = f.program;
        let (lam, _len, owner, data) = unsafe {
            let p = b.start.add(off);
            let lam = *(p.add(72) as *const u64);
            let len = *(p.add(80) as *const u64) as usize;
            let owner = *(p.add(40) as *const Key);
            if len > b.orig_len[i] + MAX_GROW {
                return rt("invalid realloc");
            }
            (lam, len, owner, std::slice::from_raw_parts(p.add(88), len).to_vec())
        };
        self.apply(&program, &key, writable, lam, data, owner)
    }
    /// One account's new state as written by `program`, checked.
    pub fn apply(&mut self, program: &Key, key: &Key, writable: bool, lam: u64, data: Vec<u8>, owner: Key) -> Res {
        let cur = self.w.get(key);
        if cur.lamports == lam && cur.data == data && cur.owner == owner {
            return Ok(());
        }
        if lam != cur.lamports {
            if lam < cur.lamports && cur.owner != *program {
                return rt("external lamport spend");
            }
            if !writable {
                return rt("readonly lamport change");
            }
            if cur.exec {
                return rt("executable lamport change");
            }
        }
        if data != cur.data {
            if data.len() != cur.data.len() && cur.owner != *program {
                return rt("account data size changed");
            }
            if cur.exec {
                return rt("executable data modified");
            }
            if !writable {
                return rt("readonly data modified");
            }
            if cur.owner != *program {
                return rt("external data modified");
            }
        }
        if owner != cur.owner {
            if cur.owner != *program || !writable || cur.exec || data.iter().any(|x| *x != 0) {
                return rt("modified program id");
            }
        }
        let a = self.w.mutate(key);
        a.lamports = lam;
        a.data = data;
        a.owner = owner;
        Ok(())
    }
    fn cpi_from_swig(&mut self, ix: Ix, infos: &[(Key, usize)], signers: &[Key]) -> Res {
        let f = self.stack.last().unwrap();
        // every named account must have been passed with a genuine handle
        let mut touched: Vec<usize> = vec![];
        for mt in &ix.metas {
            let Some(pos) = f.accts.iter().position(|x| x.key == mt.key) else {
                return rt("missing account");
            };
            let exec = self.w.peek(&mt.key).map(|a| a.exec).unwrap_or(false);
            if !exec {
                let Some((_, dp)) = infos.iter().find(|x| x.0 == mt.key) else {
                    return rt("missing account info");
                };
                let b = f.buf.as_ref().unwrap();
                if *dp != b.start as usize + b.offs[pos].0 + 88 {
                    return rt("invalid account info pointer");
                }
            }
            if !touched.contains(&pos) {
                touched.push(pos);
            }
        }
        for p in &touched {
            if self.w.peek(&self.stack.last().unwrap().accts[*p].key).map(|a| a.exec).unwrap_or(false) {
                continue;
            }
            self.sync_out(*p)?;
        }
        self.cpi(ix, signers)?;
        // callee -> caller
        let keys: Vec<(usize, Key)> = {
            let f = self.stack.last().unwrap();
            touched.iter().map(|p| (*p, f.accts[*p].key)).collect()
        };
        for (p, k) in keys {
            let a = self.w.get(&k);
            let f = self.stack.last().unwrap();
            let b = f.buf.as_ref().unwrap();
            let (off, orig) = (b.offs[p].0, b.orig_len[p]);
            if a.data.len() > orig + MAX_GROW {
                return rt("invalid realloc");
            }
            unsafe {
                let q = b.start.add(off);
                *(q.add(72) as *mut u64) = a.lamports;
                *(q.add(40) as *mut Key) = a.owner;
                let old = *(q.add(80) as *const u64) as usize;
                *(q.add(80) as *mut u64) = a.data.len() as u64;
                core::ptr::copy_nonoverlapping(a.data.as_ptr(), q.add(88), a.data.len());
                if old > a.data.len() {
                    core::ptr::write_bytes(q.add(88 + a.data.len()), 0, old - a.data.len());
                }
            }
        }
        Ok(())
    }
    /// Cross-program invocation from the top frame.
    pub fn cpi(&mut self, ix: Ix, signers: &[Key]) -> Res {
        let f = self.stack.last().unwrap();
        for mt in &ix.metas {
            let (mut s, mut w, mut found) = (false, false, false);
            for x in f.accts.iter().filter(|x| x.key == mt.key) {
                found = true;
                s |= x.signer;
                w |= x.writable;
            }
            if !found {
                return rt("missing account");
            }
            if mt.writable && !w {
                return rt("writable privilege escalation");
            }
            if mt.signer && !s && !signers.contains(&mt.key) {
                return rt("signer privilege escalation");
            }
        }
        if !f.accts.iter().any(|x| x.key == ix.program) {
            return rt("missing program account");
        }
        let caller = f.program;
        self.trace.push(CpiRec { top: self.top, depth: self.stack.len(), caller, ix: ix.clone() });
        let by_pda = !signers.is_empty();
        self.process(ix.program, ix.metas, ix.data, by_pda)
    }
    pub fn process(&mut self, program: Key, mut accts: Vec<Meta>, data: Vec<u8>, by_pda: bool) -> Res {
        if self.stack.len() >= 5 {
            return rt("call depth");
        }
        if let Some(pos) = self.stack.iter().rposition(|f| f.program == program) {
            if pos + 1 != self.stack.len() {
                return rt("reentrancy");
            }
        }
        match self.w.peek(&program) {
            Some(a) if a.exec => {},
            _ => return rt("not executable"),
        }
        let Some(kind) = native::kind(&program) else {
            return rt("unknown program");
        };
        for i in 0..accts.len() {
            let k = accts[i].key;
            let (mut s, mut w) = (false, false);
            for x in accts.iter().filter(|x| x.key == k) {
                s |= x.signer;
                w |= x.writable;
            }
            accts[i].signer = s;
            accts[i].writable = w;
        }
        let uniq: BTreeSet<Key> = accts.iter().map(|a| a.key).collect();
        let sum: u128 = uniq.iter().map(|k| self.w.lamports(k) as u128).sum();
        self.stack.push(Frame { program, accts, data, buf: None });
        let depth = self.stack.len();
        let watch = matches!(kind, native::Kind::Swig);
        if watch {
            self.observe(None, by_pda);
        }
        let mut r = match kind {
            native::Kind::Swig => self.run_swig(),
            k => native::run(self, k),
        };
        if r.is_ok() {
            let sum2: u128 = uniq.iter().map(|k| self.w.lamports(k) as u128).sum();
            if sum != sum2 {
                r = rt("unbalanced instruction");
            }
        }
        debug_assert_eq!(self.stack.len(), depth);
        if watch {
            self.observe(Some(&r), by_pda);
        }
        self.stack.pop();
        r
    }
    fn observe(&mut self, r: Option<&Res>, by_pda: bool) {
        if let Some(o) = self.obs.take() {
            let f = self.stack.last().unwrap();
            let v = FrameView {
                program: &f.program,
                accts: &f.accts,
                data: &f.data,
                depth: self.stack.len(),
                tx: self.tx,
                top: self.top,
                signed_by_program: by_pda,
            };
            match r {
                None => o.before(&self.w, &v),
                Some(r) => o.after(&self.w, &v, r),
            }
            self.obs = Some(o);
        }
    }
}

pub fn instructions_sysvar(tx: &Tx, cur: usize, privs: &BTreeMap<Key, (bool, bool)>) -> Vec<u8> {
    let mut d = vec![];
    d.extend((tx.ixs.len() as u16).to_le_bytes());
    d.resize(2 + 2 * tx.ixs.len(), 0);
    for (i, ix) in tx.ixs.iter().enumerate() {
        let o = d.len() as u16;
        d[2 + 2 * i..4 + 2 * i].copy_from_slice(&o.to_le_bytes());
        d.extend((ix.metas.len() as u16).to_le_bytes());
        for mt in &ix.metas {
            let (s, w) = privs[&mt.key];
            d.push(s as u8 | (w as u8) << 1);
            d.extend(mt.key);
        }
        d.extend(ix.program);
        d.extend((ix.data.len() as u16).to_le_bytes());
        d.extend(&ix.data);
    }
    d.extend((cur as u16).to_le_bytes());
    d
}

/// Executes one transaction atomically against `w`.
pub fn execute<'o>(w: &mut World, tx: &'o Tx, obs: Option<&'o mut (dyn Observer + 'o)>, stop_at: Option<u64>) -> TxRes {
    let mut privs: BTreeMap<Key, (bool, bool)> = BTreeMap::new();
    privs.insert(tx.payer, (true, true));
    let mut bad = None;
    for ix in &tx.ixs {
        for mt in &ix.metas {
            let e = privs.entry(mt.key).or_insert((false, false));
            e.0 |= mt.signer;
            e.1 |= mt.writable;
            if mt.signer && !tx.signers.contains(&mt.key) {
                bad = Some("missing signature");
            }
        }
        privs.entry(ix.program).or_insert((false, false));
    }
    // reserved accounts and programs are never writable
    for (k, v) in privs.iter_mut() {
        if native::reserved(k) || w.peek(k).map(|a| a.exec).unwrap_or(false) {
            v.1 = false;
        }
    }
    let mut out = TxRes { res: Ok(()), failed_ix: 0, trace: vec![], syscalls: 0, tx_level: false };
    if let Some(b) = bad {
        out.res = rt(b);
        out.tx_level = true;
        return out;
    }
    if privs.len() > 128 {
        out.res = rt("too many accounts");
        out.tx_level = true;
        return out;
    }
    let mut ex = Exec {
        w: w.clone(),
        tx,
        top: 0,
        stack: vec![],
        trace: vec![],
        obs,
        syscalls: 0,
        stop_at,
        stopped: false,
        poison: None,
    };
    let total = ex.w.total();
    for (i, ix) in tx.ixs.iter().enumerate() {
        ex.top = i;
        if privs.contains_key(&native::IX_SYSVAR) {
            let d = instructions_sysvar(tx, i, &privs);
            ex.w.put(
                native::IX_SYSVAR,
                Acct { lamports: 0, data: d, owner: native::SYSVAR_OWNER, exec: false },
            );
        }
        let accts = ix.metas.iter().map(|x| m(x.key, privs[&x.key].0, privs[&x.key].1)).collect();
        if let Err(e) = ex.process(ix.program, accts, ix.data.clone(), false) {
            out.res = Err(e);
            out.failed_ix = i;
            break;
        }
    }
    ex.w.accts.remove(&native::IX_SYSVAR);
    if out.res.is_ok() {
        // rent state transitions of every writable account
        for (k, v) in &privs {
            if !v.1 {
                continue;
            }
            let (post, pre) = (ex.w.get(k), w.get(k));
            if post.lamports == 0 {
                continue;
            }
            if post.lamports >= rent_min(post.data.len()) {
                continue;
            }
            let pre_paying = pre.lamports > 0 && pre.lamports < rent_min(pre.data.len());
            if !(pre_paying && pre.data.len() == post.data.len() && post.lamports <= pre.lamports) {
                out.res = rt("insufficient funds for rent");
                out.tx_level = true;
                break;
            }
        }
    }
    out.trace = std::mem::take(&mut ex.trace);
    out.syscalls = ex.syscalls;
    if out.res.is_ok() {
        assert_eq!(total, ex.w.total(), "simulator lost lamports");
        let mut nw = ex.w;
        nw.accts.retain(|_, a| a.lamports > 0 || a.exec);
        *w = nw;
    }
    out
}

/// Runs one instruction outside any transaction check: the plain ledger
/// semantics the reference model uses as its yardstick. `accts` carry the
/// caller's privileges.
pub fn plain(w: &mut World, tx: &Tx, top: usize, caller: Key, caller_accts: &[Meta], ix: &Ix, signers: &[Key]) -> Res {
    let mut ex = Exec {
        w: w.clone(),
        tx,
        top,
        stack: vec![Frame { program: caller, accts: caller_accts.to_vec(), data: vec![], buf: None }],
        trace: vec![],
        obs: None,
        syscalls: 0,
        stop_at: None,
        stopped: false,
        poison: None,
    };
    let r = ex.cpi(ix.clone(), signers);
    if r.is_ok() {
        *w = ex.w;
    }
    r
}
