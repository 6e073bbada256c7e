#![allow(dead_code)]
//! Ledger helpers for the demonstrations.
pub use dlp::args::*;
pub use dlp::pda::*;
pub use dlp::state::*;
pub use solana_program::instruction::{AccountMeta, Instruction};
pub use solana_program::native_token::LAMPORTS_PER_SOL;
pub use solana_program::pubkey::Pubkey;
pub use solana_program::rent::Rent;
pub use solana_program::system_program;
pub use solana_program_test::{processor, ProgramTest, ProgramTestContext};
pub use solana_sdk::account::Account;
pub use solana_sdk::signature::{Keypair, Signer};
pub use solana_sdk::transaction::Transaction;

pub const SEEDS: &[&[u8]] = &[b"counter", b"7"];

pub fn test() -> ProgramTest {
    let mut t = ProgramTest::new("dlp", dlp::ID, processor!(dlp::process_instruction));
    t.prefer_bpf(false);
    put(&mut t, fees_vault_pda(), dlp::ID, LAMPORTS_PER_SOL, vec![0; 8]);
    t
}

pub fn put(t: &mut ProgramTest, key: Pubkey, owner: Pubkey, lamports: u64, data: Vec<u8>) {
    t.add_account(key, Account { lamports, data, owner, executable: false, rent_epoch: 0 });
}

pub fn wallet(t: &mut ProgramTest) -> Keypair {
    let k = Keypair::new();
    put(t, k.pubkey(), system_program::ID, 100 * LAMPORTS_PER_SOL, vec![]);
    k
}

/// the delegation program's administrator under test
pub fn admin(t: &mut ProgramTest) -> Keypair {
    let k = Keypair::from_bytes(&[
        251, 62, 129, 184, 107, 49, 62, 184, 1, 147, 178, 128, 185, 157, 247, 92, 56, 158, 145, 53, 51, 226, 202, 96, 178, 248, 195,
        133, 133, 237, 237, 146, 13, 32, 77, 204, 244, 56, 166, 172, 66, 113, 150, 218, 112, 42, 110, 181, 98, 158, 222, 194, 130, 93,
        175, 100, 190, 106, 9, 69, 156, 80, 96, 72,
    ])
    .unwrap();
    put(t, k.pubkey(), system_program::ID, 100 * LAMPORTS_PER_SOL, vec![]);
    k
}

/// a wallet with a registered fees vault
pub fn validator(t: &mut ProgramTest) -> Keypair {
    let k = wallet(t);
    put(t, validator_fees_vault_pda_from_validator(&k.pubkey()), dlp::ID, LAMPORTS_PER_SOL, vec![0; 8]);
    k
}

/// a program account of `owner`, with its seeds
pub fn pda_of(owner: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(SEEDS, owner).0
}

pub struct D {
    pub key: Pubkey,
    pub owner: Pubkey,
    pub lamports: u64,
    pub recorded: u64,
    pub data: Vec<u8>,
    pub slot: u64,
    pub undelegatable: bool,
    pub payer: Pubkey,
    pub extra: u64,
}

impl D {
    pub fn new(key: Pubkey, owner: Pubkey, payer: Pubkey) -> Self {
        D { key, owner, lamports: LAMPORTS_PER_SOL, recorded: LAMPORTS_PER_SOL, data: vec![1, 2, 3, 4, 5], slot: 0,
            undelegatable: false, payer, extra: 0 }
    }
    /// delegated account, record and metadata
    pub fn put(&self, t: &mut ProgramTest) {
        put(t, self.key, dlp::ID, self.lamports, self.data.clone());
        let mut r = vec![0; DelegationRecord::size_with_discriminator()];
        DelegationRecord { authority: Pubkey::default(), owner: self.owner, delegation_slot: 0, lamports: self.recorded,
            commit_frequency_ms: 0 }.to_bytes_with_discriminator(&mut r).unwrap();
        put(t, delegation_record_pda_from_delegated_account(&self.key), dlp::ID,
            Rent::default().minimum_balance(r.len()) + self.extra, r);
        let mut m = vec![];
        DelegationMetadata { last_update_external_slot: self.slot, is_undelegatable: self.undelegatable,
            seeds: SEEDS.iter().map(|x| x.to_vec()).collect(), rent_payer: self.payer }
            .to_bytes_with_discriminator(&mut m).unwrap();
        put(t, delegation_metadata_pda_from_delegated_account(&self.key), dlp::ID,
            Rent::default().minimum_balance(m.len()) + self.extra, m);
    }
}

/// a pending commit
pub fn pending(t: &mut ProgramTest, key: Pubkey, by: Pubkey, state: &[u8], slot: u64, lamports: u64, deposit: u64) {
    put(t, commit_state_pda_from_delegated_account(&key), dlp::ID,
        Rent::default().minimum_balance(state.len()) + deposit, state.to_vec());
    let mut r = vec![0; CommitRecord::size_with_discriminator()];
    CommitRecord { identity: by, account: key, slot, lamports }.to_bytes_with_discriminator(&mut r).unwrap();
    put(t, commit_record_pda_from_delegated_account(&key), dlp::ID, Rent::default().minimum_balance(r.len()), r);
}

/// an approved list
pub fn config(t: &mut ProgramTest, program: &Pubkey, who: &[Pubkey]) {
    let mut c = ProgramConfig::default();
    c.approved_validators.extend(who.iter().copied());
    let mut b = vec![];
    c.to_bytes_with_discriminator(&mut b).unwrap();
    put(t, program_config_from_program_id(program), dlp::ID, LAMPORTS_PER_SOL, b);
}

pub async fn run(x: &mut ProgramTestContext, ix: Instruction, signers: &[&Keypair]) -> Result<(), String> {
    let h = x.get_new_latest_blockhash().await.unwrap();
    let mut all = vec![&x.payer];
    all.extend_from_slice(signers);
    let tx = Transaction::new_signed_with_payer(&[ix], Some(&x.payer.pubkey()), &all, h);
    x.banks_client.process_transaction(tx).await.map_err(|e| format!("{:?}", e))
}

pub async fn get(x: &mut ProgramTestContext, k: Pubkey) -> Account {
    x.banks_client.get_account(k).await.unwrap().unwrap_or_default()
}

pub async fn metadata(x: &mut ProgramTestContext, k: &Pubkey) -> DelegationMetadata {
    let a = get(x, delegation_metadata_pda_from_delegated_account(k)).await;
    DelegationMetadata::try_from_bytes_with_discriminator(&a.data).unwrap()
}

pub async fn record(x: &mut ProgramTestContext, k: &Pubkey) -> DelegationRecord {
    let a = get(x, delegation_record_pda_from_delegated_account(k)).await;
    *DelegationRecord::try_from_bytes_with_discriminator(&a.data).unwrap()
}

pub fn state(slot: u64, lamports: u64, allow_undelegation: bool, data: Vec<u8>) -> CommitStateArgs {
    CommitStateArgs { slot, lamports, allow_undelegation, data }
}

pub async fn warp(x: &mut ProgramTestContext, slot: u64) {
    x.warp_to_slot(slot).unwrap();
}

/// a native owner program: tag 0 passes the rest on to the delegation program, signing for SEEDS;
/// anything else is the callback that takes an account back. `GREED` more bytes are put at its end.
pub mod owner {
    use super::*;
    use borsh::BorshDeserialize;
    use solana_program::account_info::AccountInfo;
    use solana_program::entrypoint::ProgramResult;
    use solana_program::program::invoke_signed;
    use std::sync::atomic::{AtomicUsize, Ordering};

    pub static LONGER: AtomicUsize = AtomicUsize::new(0);
    pub static EXTRA: AtomicUsize = AtomicUsize::new(0);
    pub static FLIP: AtomicUsize = AtomicUsize::new(usize::MAX);

    pub fn id() -> Pubkey {
        Pubkey::new_from_array([7; 32])
    }

    pub fn add(t: &mut ProgramTest) {
        t.add_program("owner", id(), processor!(process));
    }

    /// sends `ix` to the owner program, which sends it on
    pub fn forward(ix: &Instruction) -> Instruction {
        let mut accounts = vec![AccountMeta::new_readonly(dlp::ID, false)];
        let key = pda_of(&id());
        accounts.extend(ix.accounts.iter().cloned().map(|mut m| {
            if m.pubkey == key {
                m.is_signer = false;
            }
            m
        }));
        Instruction { program_id: id(), accounts, data: [&[0], &ix.data[..]].concat() }
    }

    pub fn process(me: &Pubkey, accounts: &[AccountInfo], data: &[u8]) -> ProgramResult {
        if data[0] == 0 {
            let (key, bump) = Pubkey::find_program_address(SEEDS, me);
            let metas = accounts[1..].iter().map(|a| AccountMeta {
                pubkey: *a.key,
                is_signer: a.is_signer || *a.key == key,
                is_writable: a.is_writable,
            });
            let ix = Instruction { program_id: dlp::ID, accounts: metas.collect(), data: data[1..].to_vec() };
            return invoke_signed(&ix, &accounts[1..], &[&[SEEDS[0], SEEDS[1], &[bump]]]);
        }
        let [delegated, buffer, payer, system] = accounts else { panic!() };
        let seeds = Vec::<Vec<u8>>::try_from_slice(&data[8..]).unwrap();
        let mut s: Vec<&[u8]> = seeds.iter().map(|x| &x[..]).collect();
        let (key, bump) = Pubkey::find_program_address(&s, me);
        assert_eq!(key, *delegated.key);
        let b = [bump];
        s.push(&b);
        let n = buffer.data_len() + LONGER.load(Ordering::SeqCst);
        invoke_signed(
            &solana_program::system_instruction::create_account(
                payer.key, delegated.key,
                Rent::default().minimum_balance(n) + EXTRA.load(Ordering::SeqCst) as u64, n as u64, me),
            &[payer.clone(), delegated.clone(), system.clone()], &[&s])?;
        delegated.try_borrow_mut_data()?[..buffer.data_len()].copy_from_slice(&buffer.try_borrow_data()?);
        if let Some(b) = delegated.try_borrow_mut_data()?.get_mut(FLIP.load(Ordering::SeqCst)) {
            *b ^= 1;
        }
        Ok(())
    }
}
