//! Public functions of the program's crate as byte-string functions: the
//! client instruction builders and the stored-account readers and writers.
//! Compiled into the IR and into the native replay binary, like rt.rs.
use dlp::args::*;
use dlp::instruction_builder as ib;
use dlp::state::{CommitRecord, DelegationMetadata, DelegationRecord, ProgramConfig};
use solana_program::instruction::Instruction;
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;

/// a cursor over the flat input: fixed-width little-endian fields; byte
/// strings and lists are prefixed by a one-byte or (byte strings) u32 count
struct In<'a>(&'a [u8]);
impl<'a> In<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    fn u32(&mut self) -> u32 {
        let t = self.take(4);
        u32::from_le_bytes([t[0], t[1], t[2], t[3]])
    }
    fn u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        b.copy_from_slice(self.take(8));
        u64::from_le_bytes(b)
    }
    fn key(&mut self) -> Pubkey {
        let mut b = [0u8; 32];
        b.copy_from_slice(self.take(32));
        Pubkey::new_from_array(b)
    }
    fn bytes(&mut self) -> Vec<u8> {
        let n = self.u32() as usize;
        self.take(n).to_vec()
    }
    fn list(&mut self) -> Vec<Vec<u8>> {
        let n = self.u8() as usize;
        let mut v = Vec::with_capacity(n);
        for _ in 0..n {
            v.push(self.bytes());
        }
        v
    }
    fn some(&mut self) -> bool {
        self.u8() != 0
    }
}

fn put_ix(o: &mut Vec<u8>, i: Instruction) {
    o.extend_from_slice(i.program_id.as_ref());
    o.push(i.accounts.len() as u8);
    for m in i.accounts.iter() {
        o.extend_from_slice(m.pubkey.as_ref());
        o.push(m.is_signer as u8);
        o.push(m.is_writable as u8);
    }
    o.extend_from_slice(&i.data);
}

fn delegate_args(i: &mut In) -> DelegateArgs {
    let commit_frequency_ms = i.u32();
    let seeds = i.list();
    let validator = if i.some() { Some(i.key()) } else { None };
    DelegateArgs { commit_frequency_ms, seeds, validator }
}

fn build(kind: u64, i: &mut In, o: &mut Vec<u8>) {
    let ix = match kind {
        100 => {
            let (p, d) = (i.key(), i.key());
            let owner = if i.some() { Some(i.key()) } else { None };
            ib::delegate(p, d, owner, delegate_args(i))
        }
        101 => {
            let (v, d, w) = (i.key(), i.key(), i.key());
            let (slot, lamports, allow_undelegation) = (i.u64(), i.u64(), i.some());
            let data = i.bytes();
            ib::commit_state(v, d, w, CommitStateArgs { slot, lamports, allow_undelegation, data })
        }
        102 => ib::finalize(i.key(), i.key()),
        103 => {
            let (v, d, w, r) = (i.key(), i.key(), i.key(), i.key());
            ib::undelegate(v, d, w, r)
        }
        105 => ib::init_protocol_fees_vault(i.key()),
        106 => {
            let (p, a, v) = (i.key(), i.key(), i.key());
            ib::init_validator_fees_vault(p, a, v)
        }
        107 => {
            let v = i.key();
            let a = if i.some() { Some(i.u64()) } else { None };
            ib::validator_claim_fees(v, a)
        }
        108 => {
            let (a, v, p) = (i.key(), i.key(), i.key());
            ib::whitelist_validator_for_program(a, v, p, i.some())
        }
        109 => {
            let (p, k) = (i.key(), i.key());
            let a = if i.some() { Some(i.u64()) } else { None };
            let x = if i.some() { Some(i.u8()) } else { None };
            ib::top_up_ephemeral_balance(p, k, a, x)
        }
        110 => {
            let (p, k) = (i.key(), i.key());
            let delegate_args = delegate_args(i);
            let index = i.u8();
            ib::delegate_ephemeral_balance(p, k, DelegateEphemeralBalanceArgs { delegate_args, index })
        }
        111 => {
            let p = i.key();
            ib::close_ephemeral_balance(p, i.u8())
        }
        112 => ib::protocol_claim_fees(i.key()),
        113 => {
            let (v, d, w, b) = (i.key(), i.key(), i.key(), i.key());
            let (slot, lamports, allow_undelegation) = (i.u64(), i.u64(), i.some());
            ib::commit_state_from_buffer(v, d, w, b, CommitStateFromBufferArgs { slot, lamports, allow_undelegation })
        }
        114 => {
            let (p, a, v) = (i.key(), i.key(), i.key());
            ib::close_validator_fees_vault(p, a, v)
        }
        _ => panic!(),
    };
    put_ix(o, ix);
}

fn out_record(r: &DelegationRecord, o: &mut Vec<u8>) {
    o.extend_from_slice(r.authority.as_ref());
    o.extend_from_slice(r.owner.as_ref());
    o.extend_from_slice(&r.delegation_slot.to_le_bytes());
    o.extend_from_slice(&r.lamports.to_le_bytes());
    o.extend_from_slice(&r.commit_frequency_ms.to_le_bytes());
}

fn out_commit(r: &CommitRecord, o: &mut Vec<u8>) {
    o.extend_from_slice(r.identity.as_ref());
    o.extend_from_slice(r.account.as_ref());
    o.extend_from_slice(&r.slot.to_le_bytes());
    o.extend_from_slice(&r.lamports.to_le_bytes());
}

fn state(kind: u64, d: &mut [u8], o: &mut Vec<u8>) -> Result<(), ProgramError> {
    match kind {
        // writers: flat fields -> stored bytes
        200 => {
            let mut i = In(d);
            let r = DelegationRecord {
                authority: i.key(),
                owner: i.key(),
                delegation_slot: i.u64(),
                lamports: i.u64(),
                commit_frequency_ms: i.u64(),
            };
            o.resize(DelegationRecord::size_with_discriminator(), 0);
            r.to_bytes_with_discriminator(&mut o[..])
        }
        210 => {
            let mut i = In(d);
            let r = CommitRecord { identity: i.key(), account: i.key(), slot: i.u64(), lamports: i.u64() };
            o.resize(CommitRecord::size_with_discriminator(), 0);
            r.to_bytes_with_discriminator(&mut o[..])
        }
        220 => {
            let mut i = In(d);
            let r = DelegationMetadata {
                last_update_external_slot: i.u64(),
                is_undelegatable: i.some(),
                rent_payer: i.key(),
                seeds: i.list(),
            };
            r.to_bytes_with_discriminator(o)
        }
        230 => {
            let mut i = In(d);
            let mut r = ProgramConfig::default();
            let n = i.u8();
            for _ in 0..n {
                r.approved_validators.insert(i.key());
            }
            let size = r.size_with_discriminator();
            r.to_bytes_with_discriminator(o)?;
            o.extend_from_slice(&(size as u64).to_le_bytes());
            Ok(())
        }
        // readers: stored bytes -> flat fields
        201 => DelegationRecord::try_from_bytes_with_discriminator(d).map(|r| out_record(r, o)),
        202 => DelegationRecord::try_from_bytes_with_discriminator_mut(d).map(|r| out_record(r, o)),
        211 => CommitRecord::try_from_bytes_with_discriminator(d).map(|r| out_commit(r, o)),
        212 => CommitRecord::try_from_bytes_with_discriminator_mut(d).map(|r| out_commit(r, o)),
        221 => {
            let r = DelegationMetadata::try_from_bytes_with_discriminator(d)?;
            o.extend_from_slice(&r.last_update_external_slot.to_le_bytes());
            o.push(r.is_undelegatable as u8);
            o.extend_from_slice(r.rent_payer.as_ref());
            o.push(r.seeds.len() as u8);
            for s in r.seeds.iter() {
                o.extend_from_slice(&(s.len() as u32).to_le_bytes());
                o.extend_from_slice(s);
            }
            Ok(())
        }
        231 => {
            let r = ProgramConfig::try_from_bytes_with_discriminator(d)?;
            o.push(r.approved_validators.len() as u8);
            for k in r.approved_validators.iter() {
                o.extend_from_slice(k.as_ref());
            }
            Ok(())
        }
        _ => panic!(),
    }
}

/// -> 0 (output written) or the error code; `out_len` gets the output's length
pub fn kern(kind: u64, d: &mut [u8]) -> (u64, Vec<u8>) {
    let mut o = Vec::with_capacity(2048);
    if kind < 200 {
        build(kind, &mut In(d), &mut o);
        return (0, o);
    }
    match state(kind, d, &mut o) {
        Ok(()) => (0, o),
        Err(e) => (e.into(), Vec::new()),
    }
}
