//! The account model and the model of the Solana runtime around the program.
//!
//! This file is compiled twice: into the LLVM IR that the symbolic executor
//! runs, and into the native replay binary.  The program under test is the
//! real `dlp::process_instruction`; nothing in here re-implements it.
#![allow(static_mut_refs)]
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use solana_program::system_program;
use std::cell::RefCell;
use std::rc::Rc;

// ---- what the engine (symbolic) or the replay driver (native) provides
extern "C" {
    /// an unconstrained u64
    fn __sym_u64(tag: u64) -> u64;
    /// `len` unconstrained bytes
    fn __sym_bytes(ptr: *mut u8, len: usize, tag: u64);
    /// restrict the environment
    fn __assume(c: bool);
    /// the whole transaction fails here
    fn __tx_abort(why: u64) -> !;
    /// the whole transaction fails here unless `c`
    fn __require(c: bool, why: u64);
    /// trace of one cross-program invocation (metas: 34 bytes each)
    fn __cpi_event(pid: *const u8, data: *const u8, len: usize, metas: *const u8, n: usize);
}

/// More lamports than exist.  Below this, 64-bit sums over an instruction's
/// accounts (at most 15) are exact, so comparing the wrapped sums is comparing
/// the sums.
pub const SUPPLY: u64 = 1 << 60;

pub const TAG_CLOCK: u64 = 1;
pub const TAG_CPI: u64 = 100;

// ---- account blob: same relative layout as the BPF input serialisation,
// which AccountInfo::realloc and assign rely on
pub const OFF_SIGNER: usize = 1;
pub const OFF_WRITABLE: usize = 2;
pub const OFF_EXEC: usize = 3;
pub const OFF_ORIG: usize = 4;
pub const OFF_KEY: usize = 8;
pub const OFF_OWNER: usize = 40;
pub const OFF_LAMPORTS: usize = 72;
pub const OFF_LEN: usize = 80;
pub const OFF_DATA: usize = 88;

struct Base {
    owner: Pubkey,
    lamports: u64,
    data: Vec<u8>,
}

pub struct Rt {
    infos: Vec<AccountInfo<'static>>,
    dup: Vec<bool>,
    base: Vec<Base>,
    depth: u64,
    /// 0: faithful owner program, 1: arbitrary owner program (same data
    /// length), 2: arbitrary owner program (other data length)
    pub owner_mode: u64,
}

static mut RT: Option<Rt> = None;

fn abort(why: u64) -> ! {
    unsafe { __tx_abort(why) }
}

fn snapshot(i: &AccountInfo) -> Base {
    Base {
        owner: *i.owner,
        lamports: i.lamports(),
        data: unsafe { (*i.data.as_ptr()).to_vec() },
    }
}

fn require(c: bool, why: u64) {
    unsafe { __require(c, why) }
}

/// What the runtime verifies about one account when `prog` hands control back
fn verify(b: &Base, i: &AccountInfo, prog: &Pubkey, writable: bool, why: u64) {
    let data: &[u8] = unsafe { &*i.data.as_ptr() };
    let lamports: u64 = unsafe { **i.lamports.as_ptr() };
    let own = b.owner == *prog;
    let owner_changed = b.owner != *i.owner;
    let data_changed = data.len() != b.data.len() || data != &b.data[..];
    let changed = owner_changed | data_changed | (b.lamports != lamports);
    require(!changed | (writable & !i.executable), why);
    require(own | !(lamports < b.lamports), why);
    require(own | !data_changed, why);
    if owner_changed {
        require(own, why);
        let mut acc = 0u8;
        for x in data.iter() {
            acc |= *x;
        }
        require(acc == 0, why);
    }
    require(lamports < SUPPLY, why);
}

/// # Safety
/// `blobs` points to `n` account blobs (equal pointers: duplicate accounts).
pub unsafe fn run(
    pid: &Pubkey,
    blobs: *const *mut u8,
    n: usize,
    data: *const u8,
    len: usize,
    owner_mode: u64,
) -> u64 {
    let mut infos: Vec<AccountInfo<'static>> = Vec::with_capacity(n);
    let mut dup = Vec::with_capacity(n);
    for i in 0..n {
        let b = *blobs.add(i);
        let mut prev = usize::MAX;
        for j in 0..i {
            if *blobs.add(j) == b {
                prev = j;
                break;
            }
        }
        if prev != usize::MAX {
            let c = infos[prev].clone();
            infos.push(c);
            dup.push(true);
            continue;
        }
        dup.push(false);
        let dlen = *(b.add(OFF_LEN) as *const u64) as usize;
        infos.push(AccountInfo {
            key: &*(b.add(OFF_KEY) as *const Pubkey),
            lamports: Rc::new(RefCell::new(&mut *(b.add(OFF_LAMPORTS) as *mut u64))),
            data: Rc::new(RefCell::new(std::slice::from_raw_parts_mut(
                b.add(OFF_DATA),
                dlen,
            ))),
            owner: &*(b.add(OFF_OWNER) as *const Pubkey),
            rent_epoch: 0,
            is_signer: *b.add(OFF_SIGNER) != 0,
            is_writable: *b.add(OFF_WRITABLE) != 0,
            executable: *b.add(OFF_EXEC) != 0,
        });
    }
    let base: Vec<Base> = infos.iter().map(snapshot).collect();
    let mut pre: u64 = 0;
    for i in 0..n {
        if !dup[i] {
            pre = pre.wrapping_add(base[i].lamports);
        }
    }
    let shared = infos.clone();
    RT = Some(Rt { infos: shared, dup, base, depth: 0, owner_mode });
    let r = dlp::process_instruction(pid, &infos, std::slice::from_raw_parts(data, len));
    let rt = RT.take().unwrap();
    for i in 0..n {
        let b = *blobs.add(i);
        *(b.add(OFF_LEN) as *mut u64) = infos[i].data_len_unchecked() as u64;
    }
    let code = match r {
        Err(e) => {
            let c: u64 = e.into();
            return c;
        }
        Ok(()) => 0u64,
    };
    // the runtime's verification at the end of the instruction
    let mut post: u64 = 0;
    for i in 0..n {
        if rt.dup[i] {
            continue;
        }
        verify(&rt.base[i], &rt.infos[i], pid, rt.infos[i].is_writable, 900);
        let l = **rt.infos[i].lamports.as_ptr();
        post = post.wrapping_add(l);
    }
    std::mem::forget(infos);
    require(pre == post, 900);
    code
}

trait Unchecked {
    fn data_len_unchecked(&self) -> usize;
}
impl Unchecked for AccountInfo<'_> {
    fn data_len_unchecked(&self) -> usize {
        unsafe { (*self.data.as_ptr()).len() }
    }
}

pub fn clock_slot() -> u64 {
    unsafe { __sym_u64(TAG_CLOCK) }
}

fn rt() -> &'static mut Rt {
    unsafe { RT.as_mut().unwrap() }
}

fn u32_at(d: &[u8], o: usize) -> u32 {
    u32::from_le_bytes([d[o], d[o + 1], d[o + 2], d[o + 3]])
}
fn u64_at(d: &[u8], o: usize) -> u64 {
    let mut b = [0u8; 8];
    b.copy_from_slice(&d[o..o + 8]);
    u64::from_le_bytes(b)
}
fn key_at(d: &[u8], o: usize) -> Pubkey {
    let mut b = [0u8; 32];
    b.copy_from_slice(&d[o..o + 32]);
    Pubkey::new_from_array(b)
}

fn set_lamports(i: &AccountInfo, v: u64) {
    unsafe { **i.lamports.as_ptr() = v }
}

fn resize(i: &AccountInfo, n: usize) {
    // the runtime resizes the account in place
    unsafe {
        let p = (*i.data.as_ptr()).as_mut_ptr();
        *(p.offset(-8) as *mut u64) = n as u64;
        *i.data.as_ptr() = std::slice::from_raw_parts_mut(p, n);
    }
}

fn credit(i: &AccountInfo, v: u64) {
    match i.lamports().checked_add(v) {
        Some(x) => set_lamports(i, x),
        None => abort(20),
    }
}

fn debit_system(i: &AccountInfo, signer: bool, v: u64) {
    let empty = i.data_len_unchecked() == 0;
    if !signer || !empty {
        abort(21);
    }
    if i.lamports() < v {
        abort(22);
    }
    if v != 0 && *i.owner != system_program::ID {
        abort(23);
    }
    set_lamports(i, i.lamports() - v);
}

fn allocate(i: &AccountInfo, signer: bool, space: u64) {
    if !signer {
        abort(24);
    }
    if i.data_len_unchecked() != 0 || *i.owner != system_program::ID {
        abort(25);
    }
    if space > 10 * 1024 * 1024 {
        abort(26);
    }
    let n = space as usize;
    // what one instruction may add to an account
    if n > unsafe { i.original_data_len() } + 10 * 1024 {
        abort(28);
    }
    resize(i, n);
    let d: &mut [u8] = unsafe { *std::ptr::addr_of_mut!(*i.data.as_ptr()) };
    for x in d.iter_mut() {
        *x = 0;
    }
}

fn assign(i: &AccountInfo, signer: bool, owner: &Pubkey) {
    if *i.owner == *owner {
        return;
    }
    if !signer || *i.owner != system_program::ID {
        abort(27);
    }
    i.assign(owner);
}

/// The model of `sol_invoke_signed`.  An error inside a cross-program
/// invocation fails the whole transaction, so this returns only on success.
pub fn invoke(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    let rt = rt();
    // the addresses this program signs for
    let caller = dlp::id();
    let mut pdas: Vec<Pubkey> = Vec::with_capacity(seeds.len());
    for s in seeds {
        match Pubkey::create_program_address(s, &caller) {
            Ok(k) => pdas.push(k),
            Err(_) => abort(10),
        }
    }
    // the called program is one of the instruction's accounts and executable
    let mut found = false;
    for i in rt.infos.iter() {
        if *i.key == ix.program_id {
            if !i.executable {
                abort(11);
            }
            found = true;
            break;
        }
    }
    if !found {
        abort(12);
    }
    // resolve the metas, check privileges
    let n = ix.accounts.len();
    let mut ax: Vec<AccountInfo<'static>> = Vec::with_capacity(n);
    let mut sg: Vec<bool> = Vec::with_capacity(n);
    let mut wr: Vec<bool> = Vec::with_capacity(n);
    let mut idx: Vec<usize> = Vec::with_capacity(n);
    let mut ev: Vec<u8> = Vec::with_capacity(n * 34);
    for m in ix.accounts.iter() {
        let mut info = None;
        for i in infos.iter() {
            if *i.key == m.pubkey {
                info = Some(i);
                break;
            }
        }
        let info = match info {
            Some(i) => i,
            None => abort(13),
        };
        let mut signed = info.is_signer;
        for p in pdas.iter() {
            signed |= *p == m.pubkey;
        }
        if m.is_signer & !signed {
            abort(14);
        }
        if m.is_writable & !info.is_writable {
            abort(15);
        }
        // find the runtime's own handle of it
        let mut at = usize::MAX;
        for (k, i) in rt.infos.iter().enumerate() {
            if std::ptr::eq(i.key, info.key) && !rt.dup[k] {
                at = k;
                break;
            }
        }
        if at == usize::MAX {
            abort(16);
        }
        let mut c = rt.infos[at].clone();
        // duplicate metas share the union of the privileges
        c.is_signer = m.is_signer;
        c.is_writable = m.is_writable;
        ev.extend_from_slice(m.pubkey.as_ref());
        ev.push(m.is_signer as u8);
        ev.push(m.is_writable as u8);
        ax.push(c);
        sg.push(m.is_signer);
        wr.push(m.is_writable);
        idx.push(at);
    }
    unsafe {
        __cpi_event(
            ix.program_id.as_ref().as_ptr(),
            ix.data.as_ptr(),
            ix.data.len(),
            ev.as_ptr(),
            n,
        );
    }
    // the caller's changes so far are verified at the boundary
    for k in 0..n {
        let at = idx[k];
        let w = rt.infos[at].is_writable;
        verify(&rt.base[at], &rt.infos[at], &caller, w, 17);
        rt.base[at] = snapshot(&rt.infos[at]);
    }
    if ix.program_id == system_program::ID {
        system(&ix.data, &ax, &sg, &wr);
    } else if ix.program_id == caller {
        nested(ix, &ax, &idx);
    } else {
        owner_program(ix, &ax);
    }
    for k in 0..n {
        let at = idx[k];
        rt.base[at] = snapshot(&rt.infos[at]);
    }
    Ok(())
}

fn system(d: &[u8], ax: &[AccountInfo], sg: &[bool], wr: &[bool]) {
    match u32_at(d, 0) {
        0 => {
            if !(wr[0] & wr[1]) {
                abort(30);
            }
            let (lamports, space, owner) = (u64_at(d, 4), u64_at(d, 12), key_at(d, 20));
            if ax[1].lamports() > 0 {
                abort(31);
            }
            allocate(&ax[1], sg[1], space);
            assign(&ax[1], sg[1], &owner);
            debit_system(&ax[0], sg[0], lamports);
            credit(&ax[1], lamports);
        }
        1 => {
            if !wr[0] {
                abort(32);
            }
            assign(&ax[0], sg[0], &key_at(d, 4));
        }
        2 => {
            if !(wr[0] & wr[1]) {
                abort(33);
            }
            let lamports = u64_at(d, 4);
            debit_system(&ax[0], sg[0], lamports);
            credit(&ax[1], lamports);
        }
        8 => {
            if !wr[0] {
                abort(34);
            }
            allocate(&ax[0], sg[0], u64_at(d, 4));
        }
        _ => abort(35),
    }
}

fn nested(ix: &Instruction, ax: &[AccountInfo<'static>], idx: &[usize]) {
    let rt = rt();
    if rt.depth >= 3 {
        abort(40);
    }
    // the callee's view: its own flags, the same storage
    let n = ax.len();
    let saved_infos = std::mem::take(&mut rt.infos);
    let saved_dup = std::mem::take(&mut rt.dup);
    let saved_base = std::mem::take(&mut rt.base);
    let mut dup = Vec::with_capacity(n);
    for k in 0..n {
        let mut d = false;
        for j in 0..k {
            d |= idx[j] == idx[k];
        }
        dup.push(d);
    }
    rt.infos = ax.to_vec();
    rt.dup = dup;
    rt.base = ax.iter().map(snapshot).collect();
    rt.depth += 1;
    let mut pre: u64 = 0;
    for k in 0..n {
        if !rt.dup[k] {
            pre = pre.wrapping_add(rt.base[k].lamports);
        }
    }
    let r = dlp::process_instruction(&ix.program_id, ax, &ix.data);
    if r.is_err() {
        abort(41);
    }
    let rt = self::rt();
    let mut post: u64 = 0;
    for k in 0..n {
        if rt.dup[k] {
            continue;
        }
        verify(&rt.base[k], &rt.infos[k], &ix.program_id, rt.infos[k].is_writable, 42);
        let l = rt.infos[k].lamports();
        post = post.wrapping_add(l);
    }
    require(pre == post, 42);
    rt.infos = saved_infos;
    rt.dup = saved_dup;
    rt.base = saved_base;
    rt.depth -= 1;
}

/// The program that owned the account before it was delegated; called back by
/// undelegation with (account w, buffer w+signer, payer w+signer, system).
fn owner_program(ix: &Instruction, ax: &[AccountInfo<'static>]) {
    let mode = rt().owner_mode;
    if ax.len() < 4 {
        abort(50);
    }
    let (acct, buf, payer) = (&ax[0], &ax[1], &ax[2]);
    let n = buf.data_len_unchecked();
    if mode == 0 {
        // re-open the account: what the SDK's macro generates
        if !(acct.is_writable & payer.is_writable & payer.is_signer) || !buf.is_signer {
            abort(51);
        }
        let need = Rent::default().minimum_balance(n);
        if acct.lamports() > 0 {
            abort(52);
        }
        debit_system(payer, true, need);
        credit(acct, need);
        resize(acct, n);
        let src: &[u8] = unsafe { &*buf.data.as_ptr() };
        let dst: &mut [u8] = unsafe { *std::ptr::addr_of_mut!(*acct.data.as_ptr()) };
        dst.copy_from_slice(src);
        acct.assign(&ix.program_id);
        return;
    }
    // anything the runtime lets a program do with these four accounts; the
    // buffer and every other delegation-program account can only be credited
    let (a0, b0, p0) = (acct.lamports(), buf.lamports(), payer.lamports());
    unsafe {
        let a1 = __sym_u64(TAG_CPI);
        let b1 = __sym_u64(TAG_CPI + 1);
        let p1 = __sym_u64(TAG_CPI + 2);
        // conservation; sums of values below the supply cannot wrap
        __assume(a1 < SUPPLY);
        __assume(b1 < SUPPLY);
        __assume(p1 < SUPPLY);
        let tot0 = a0.wrapping_add(b0).wrapping_add(p0);
        __assume(a1.wrapping_add(b1).wrapping_add(p1) == tot0);
        __assume(b1 >= b0);
        __assume(acct.is_writable | (a0 == a1));
        __assume(buf.is_writable | (b0 == b1));
        __assume(payer.is_writable | (p0 == p1));
        __assume(payer.is_signer | (p1 >= p0));
        set_lamports(acct, a1);
        set_lamports(buf, b1);
        set_lamports(payer, p1);
        if acct.is_writable {
            let m = if mode == 1 { n } else { n + 1 };
            resize(acct, m);
            let dst: &mut [u8] = *std::ptr::addr_of_mut!(*acct.data.as_ptr());
            __sym_bytes(dst.as_mut_ptr(), m, TAG_CPI + 3);
            let mut o = [0u8; 32];
            __sym_bytes(o.as_mut_ptr(), 32, TAG_CPI + 4);
            acct.assign(&Pubkey::new_from_array(o));
        }
    }
}
