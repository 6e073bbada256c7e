//! Runs one concrete instruction natively: the same runtime model around the
//! same program, with real address derivation.  Used to confirm a
//! counterexample and to validate the symbolic executor.
#[path = "../../common/rt.rs"]
mod rt;
#[path = "../../common/kern.rs"]
mod kern;

use solana_program::account_info::AccountInfo;
use solana_program::clock::Clock;
use solana_program::entrypoint::{ProgramResult, SUCCESS};
use solana_program::instruction::Instruction;
use solana_program::program_stubs::{set_syscall_stubs, SyscallStubs};
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use std::io::Read;

static mut SYMS: Vec<Vec<u8>> = Vec::new();
static mut BLOBS: Vec<*mut u8> = Vec::new();

fn hex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn tohex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

#[no_mangle]
extern "C" fn __sym_u64(_tag: u64) -> u64 {
    #[allow(static_mut_refs)]
    let v = unsafe { SYMS.remove(0) };
    let mut b = [0u8; 8];
    b.copy_from_slice(&v);
    u64::from_le_bytes(b)
}
#[no_mangle]
unsafe extern "C" fn __sym_bytes(p: *mut u8, n: usize, _tag: u64) {
    if n == 0 {
        return;
    }
    #[allow(static_mut_refs)]
    let v = SYMS.remove(0);
    assert_eq!(v.len(), n);
    std::ptr::copy_nonoverlapping(v.as_ptr(), p, n);
}
#[no_mangle]
extern "C" fn __assume(c: bool) {
    if !c {
        finish("assume", 0);
    }
}
#[no_mangle]
extern "C" fn __tx_abort(why: u64) -> ! {
    finish("abort", why)
}
#[no_mangle]
extern "C" fn __require(c: bool, why: u64) {
    if !c {
        finish("abort", why)
    }
}
#[no_mangle]
extern "C" fn __cpi_event(_p: *const u8, _d: *const u8, _l: usize, _m: *const u8, _n: usize) {}

fn finish(kind: &str, code: u64) -> ! {
    println!("result {} {}", kind, code);
    if kind == "ret" {
        #[allow(static_mut_refs)]
        for b in unsafe { BLOBS.iter() } {
            unsafe {
                let b = *b;
                let s = |o: usize, n: usize| std::slice::from_raw_parts(b.add(o), n);
                let len = *(b.add(rt::OFF_LEN) as *const u64) as usize;
                println!(
                    "account {} {} {} {}",
                    tohex(s(rt::OFF_KEY, 32)),
                    tohex(s(rt::OFF_OWNER, 32)),
                    *(b.add(rt::OFF_LAMPORTS) as *const u64),
                    tohex(s(rt::OFF_DATA, len))
                );
            }
        }
    }
    std::process::exit(0)
}

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) {
        eprintln!("{}", m);
    }
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        rt::invoke(ix, infos, seeds)
    }
    fn sol_get_rent_sysvar(&self, var: *mut u8) -> u64 {
        unsafe { *(var as *mut Rent) = Rent::default() };
        SUCCESS
    }
    fn sol_get_clock_sysvar(&self, var: *mut u8) -> u64 {
        unsafe {
            let c = var as *mut Clock;
            *c = Clock::default();
            (*c).slot = rt::clock_slot();
        }
        SUCCESS
    }
}

fn main() {
    set_syscall_stubs(Box::new(Stubs));
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let (mut mode, mut pid, mut data) = (0u64, dlp::id(), vec![]);
    let mut metas: Vec<*mut u8> = vec![];
    for l in s.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.is_empty() {
            continue;
        }
        match f[0] {
            "mode" => mode = f[1].parse().unwrap(),
            "program" => pid = Pubkey::try_from(&hex(f[1])[..]).unwrap(),
            "data" => data = hex(f[1]),
            "sym" => unsafe {
                #[allow(static_mut_refs)]
                SYMS.push(hex(f[1]))
            },
            // account signer writable executable key owner lamports data
            "account" => {
                let d = hex(f[7]);
                let n = rt::OFF_DATA + d.len() + 10240 + 64;
                let mut v = vec![0u64; n / 8 + 1];
                let b = v.as_mut_ptr() as *mut u8;
                std::mem::forget(v);
                unsafe {
                    *b = 255;
                    *b.add(rt::OFF_SIGNER) = f[1].parse().unwrap();
                    *b.add(rt::OFF_WRITABLE) = f[2].parse().unwrap();
                    *b.add(rt::OFF_EXEC) = f[3].parse().unwrap();
                    *(b.add(rt::OFF_ORIG) as *mut u32) = d.len() as u32;
                    std::ptr::copy_nonoverlapping(hex(f[4]).as_ptr(), b.add(rt::OFF_KEY), 32);
                    std::ptr::copy_nonoverlapping(hex(f[5]).as_ptr(), b.add(rt::OFF_OWNER), 32);
                    *(b.add(rt::OFF_LAMPORTS) as *mut u64) = f[6].parse().unwrap();
                    *(b.add(rt::OFF_LEN) as *mut u64) = d.len() as u64;
                    std::ptr::copy_nonoverlapping(d.as_ptr(), b.add(rt::OFF_DATA), d.len());
                    #[allow(static_mut_refs)]
                    BLOBS.push(b);
                }
            }
            // kern kind input
            "kern" => {
                let b = hex(f[2]);
                let mut v = vec![0u64; b.len() / 8 + 1];
                let d = unsafe { std::slice::from_raw_parts_mut(v.as_mut_ptr() as *mut u8, b.len()) };
                d.copy_from_slice(&b);
                let (r, o) = kern::kern(f[1].parse().unwrap(), d);
                println!("result ret {}", r);
                println!("out {}", tohex(&o));
                return;
            }
            "meta" => unsafe {
                #[allow(static_mut_refs)]
                metas.push(BLOBS[f[1].parse::<usize>().unwrap()])
            },
            _ => panic!("{}", l),
        }
    }
    let r = unsafe { rt::run(&pid, metas.as_ptr(), metas.len(), data.as_ptr(), data.len(), mode) };
    finish("ret", r)
}
