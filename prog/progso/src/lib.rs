//! The swig program as a loadable object: its real `process_instruction`, its
//! real bump allocator (at the Solana heap address, mapped by the simulator)
//! and one forwarding definition per syscall it imports, all routed through a
//! table the simulator installs.
#![allow(clippy::missing_safety_doc)]
use core::ffi::c_void;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Syscalls {
    pub log: extern "C" fn(*const u8, u64),
    pub create_pda: extern "C" fn(*const u8, u64, *const u8, *mut u8) -> u64,
    pub find_pda: extern "C" fn(*const u8, u64, *const u8, *mut u8, *mut u8) -> u64,
    pub sha256: extern "C" fn(*const u8, u64, *mut u8) -> u64,
    pub keccak256: extern "C" fn(*const u8, u64, *mut u8) -> u64,
    pub secp_recover: extern "C" fn(*const u8, u64, *const u8, *mut u8) -> u64,
    pub clock: extern "C" fn(*mut u8) -> u64,
    pub rent: extern "C" fn(*mut u8) -> u64,
    pub stack_height: extern "C" fn() -> u64,
    pub curve_validate: extern "C" fn(u64, *const u8, *mut u8) -> u64,
    pub invoke: extern "C" fn(*const u8, *const u8, u64, *const u8, u64) -> u64,
    pub mem: extern "C" fn(u64),
}
#[no_mangle]
static mut UNSAFE_MSG: [u8; 256] = [0; 256];
static mut TABLE: Option<Syscalls> = None;

#[inline(always)]
fn t() -> &'static Syscalls {
    unsafe { (*core::ptr::addr_of!(TABLE)).as_ref().unwrap() }
}

#[no_mangle]
pub unsafe extern "C" fn sim_install(tab: *const Syscalls) {
    TABLE = Some(*tab);
    std::panic::set_hook(Box::new(|i| {
        // Only the checked build aborts this way: an unsafe operation whose
        // precondition (index in bounds, valid range) did not hold.
        if let Some(m) = i.payload_as_str() {
            if m.starts_with("unsafe precondition") {
                let s = &mut *core::ptr::addr_of_mut!(UNSAFE_MSG);
                s.fill(0);
                let n = m.len().min(s.len() - 1);
                s[..n].copy_from_slice(&m.as_bytes()[..n]);
            }
        }
    }));
}

/// Runs one instruction. Returns 0 on success, the program error code on
/// failure and `u64::MAX` on a panic.
#[no_mangle]
pub unsafe extern "C" fn sim_entry(input: *mut c_void) -> u64 {
    let r = std::panic::catch_unwind(|| {
        let ctx = pinocchio::lazy_entrypoint::InstructionContext::new_unchecked(input as *mut u8);
        match swig::process_instruction(ctx) {
            Ok(()) => 0u64,
            Err(e) => {
                let c: u64 = e.into();
                if c == 0 {
                    1
                } else {
                    c
                }
            },
        }
    });
    match r {
        Ok(c) => c,
        Err(p) => {
            core::mem::forget(p);
            u64::MAX
        },
    }
}

#[no_mangle]
pub extern "C" fn sol_log_(m: *const u8, l: u64) {
    (t().log)(m, l)
}
#[no_mangle]
pub extern "C" fn sol_log_64_(_a: u64, _b: u64, _c: u64, _d: u64, _e: u64) {}
#[no_mangle]
pub extern "C" fn sol_log_compute_units_() {}
#[no_mangle]
pub extern "C" fn sol_log_pubkey(_k: *const u8) {}
#[no_mangle]
pub extern "C" fn sol_log_data(_k: *const u8, _n: u64) {}
#[no_mangle]
pub extern "C" fn sol_create_program_address(s: *const u8, n: u64, p: *const u8, o: *mut u8) -> u64 {
    (t().create_pda)(s, n, p, o)
}
#[no_mangle]
pub extern "C" fn sol_try_find_program_address(
    s: *const u8,
    n: u64,
    p: *const u8,
    o: *mut u8,
    b: *mut u8,
) -> u64 {
    (t().find_pda)(s, n, p, o, b)
}
#[no_mangle]
pub extern "C" fn sol_sha256(v: *const u8, n: u64, o: *mut u8) -> u64 {
    (t().sha256)(v, n, o)
}
#[no_mangle]
pub extern "C" fn sol_keccak256(v: *const u8, n: u64, o: *mut u8) -> u64 {
    (t().keccak256)(v, n, o)
}
#[no_mangle]
pub extern "C" fn sol_secp256k1_recover(h: *const u8, r: u64, s: *const u8, o: *mut u8) -> u64 {
    (t().secp_recover)(h, r, s, o)
}
#[no_mangle]
pub extern "C" fn sol_get_clock_sysvar(a: *mut u8) -> u64 {
    (t().clock)(a)
}
#[no_mangle]
pub extern "C" fn sol_get_rent_sysvar(a: *mut u8) -> u64 {
    (t().rent)(a)
}
#[no_mangle]
pub extern "C" fn sol_get_stack_height() -> u64 {
    (t().stack_height)()
}
#[no_mangle]
pub extern "C" fn sol_curve_validate_point(c: u64, p: *const u8, r: *mut u8) -> u64 {
    (t().curve_validate)(c, p, r)
}
#[no_mangle]
pub extern "C" fn sol_invoke_signed_c(i: *const u8, a: *const u8, n: u64, s: *const u8, sn: u64) -> u64 {
    (t().invoke)(i, a, n, s, sn)
}
// The memory operations are plain loops so that the compiler cannot turn them
// back into calls to themselves.
#[no_mangle]
pub unsafe extern "C" fn sol_memcpy_(d: *mut u8, s: *const u8, n: u64) {
    (t().mem)(n);
    for i in 0..n as usize {
        core::ptr::write_volatile(d.add(i), *s.add(i));
    }
}
#[no_mangle]
pub unsafe extern "C" fn sol_memmove_(d: *mut u8, s: *const u8, n: u64) {
    (t().mem)(n);
    if (d as usize) <= (s as usize) {
        for i in 0..n as usize {
            core::ptr::write_volatile(d.add(i), *s.add(i));
        }
    } else {
        for i in (0..n as usize).rev() {
            core::ptr::write_volatile(d.add(i), *s.add(i));
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn sol_memset_(d: *mut u8, c: u8, n: u64) {
    (t().mem)(n);
    for i in 0..n as usize {
        core::ptr::write_volatile(d.add(i), c);
    }
}
#[no_mangle]
pub unsafe extern "C" fn sol_memcmp_(a: *const u8, b: *const u8, n: u64, r: *mut i32) {
    (t().mem)(n);
    for i in 0..n as usize {
        let (x, y) = (*a.add(i), *b.add(i));
        if x != y {
            *r = x as i32 - y as i32;
            return;
        }
    }
    *r = 0;
}
