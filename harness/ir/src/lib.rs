//! Entry points for the symbolic executor, and the shims that external-crate
//! functions are redirected to in the IR (see /verif/engine/build.py).
#[path = "../../common/rt.rs"]
pub mod rt;
#[path = "../../common/kern.rs"]
pub mod kern;

use solana_curve25519::edwards::PodEdwardsPoint;
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::Instruction;
use solana_program::pubkey::{Pubkey, PubkeyError};
use solana_program::rent::Rent;

extern "C" {
    fn __pda_find(seed: *const u8, len: usize, pid: *const u8, key: *mut u8) -> u8;
    fn __pda_create(seed: *const u8, len: usize, pid: *const u8, key: *mut u8) -> u8;
    fn __on_curve(key: *const u8) -> u8;
}

#[no_mangle]
pub unsafe extern "C" fn harness_run(
    pid: *const u8,
    blobs: *const *mut u8,
    n: usize,
    data: *const u8,
    len: usize,
    mode: u64,
) -> u64 {
    rt::run(&*(pid as *const Pubkey), blobs, n, data, len, mode)
}

#[no_mangle]
pub unsafe extern "C" fn harness_kern(
    kind: u64,
    data: *mut u8,
    len: usize,
    out: *mut u8,
    cap: usize,
    out_len: *mut u64,
) -> u64 {
    let (r, o) = kern::kern(kind, std::slice::from_raw_parts_mut(data, len));
    if o.len() > cap {
        panic!();
    }
    std::ptr::copy_nonoverlapping(o.as_ptr(), out, o.len());
    *out_len = o.len() as u64;
    r
}

#[no_mangle]
pub fn shim_sol_invoke_signed(
    ix: &Instruction,
    infos: &[AccountInfo],
    seeds: &[&[&[u8]]],
) -> ProgramResult {
    rt::invoke(ix, infos, seeds)
}

#[no_mangle]
pub fn shim_sol_get_rent_sysvar(var: *mut u8) -> u64 {
    unsafe { *(var as *mut Rent) = Rent::default() };
    0
}

#[no_mangle]
pub fn shim_sol_get_clock_sysvar(var: *mut u8) -> u64 {
    unsafe {
        let c = var as *mut solana_program::clock::Clock;
        *c = solana_program::clock::Clock::default();
        (*c).slot = rt::clock_slot();
    }
    0
}

#[no_mangle]
pub fn shim_sol_log(_m: &str) {}

fn concat(seeds: &[&[u8]], max: usize) -> Option<Vec<u8>> {
    if seeds.len() > max {
        return None;
    }
    let mut v = Vec::with_capacity(544);
    for s in seeds {
        if s.len() > 32 {
            return None;
        }
        v.extend_from_slice(s);
    }
    Some(v)
}

#[no_mangle]
pub fn shim_try_find_program_address(seeds: &[&[u8]], pid: &Pubkey) -> Option<(Pubkey, u8)> {
    let v = concat(seeds, 15)?;
    let mut k = [0u8; 32];
    let b = unsafe { __pda_find(v.as_ptr(), v.len(), pid.as_ref().as_ptr(), k.as_mut_ptr()) };
    Some((Pubkey::new_from_array(k), b))
}

#[no_mangle]
pub fn shim_find_program_address(seeds: &[&[u8]], pid: &Pubkey) -> (Pubkey, u8) {
    match shim_try_find_program_address(seeds, pid) {
        Some(x) => x,
        None => panic!(),
    }
}

#[no_mangle]
pub fn shim_create_program_address(
    seeds: &[&[u8]],
    pid: &Pubkey,
) -> Result<Pubkey, PubkeyError> {
    let v = match concat(seeds, 16) {
        Some(v) => v,
        None => return Err(PubkeyError::MaxSeedLengthExceeded),
    };
    let mut k = [0u8; 32];
    let ok = unsafe { __pda_create(v.as_ptr(), v.len(), pid.as_ref().as_ptr(), k.as_mut_ptr()) };
    if ok != 0 {
        Ok(Pubkey::new_from_array(k))
    } else {
        Err(PubkeyError::InvalidSeeds)
    }
}

#[no_mangle]
pub fn shim_validate_edwards(p: &PodEdwardsPoint) -> bool {
    unsafe { __on_curve(p.0.as_ptr()) != 0 }
}

#[no_mangle]
pub fn shim_format_inner(_a: std::fmt::Arguments<'_>) -> String {
    String::new()
}

#[no_mangle]
pub fn shim_fmt_write(_w: &mut dyn std::fmt::Write, _a: std::fmt::Arguments<'_>) -> std::fmt::Result {
    Ok(())
}
