"""Writes /verif/seeded: python3 tools/seed/bugs.py [id...]"""
import json, os, subprocess, sys, difflib
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(os.path.dirname(HERE)), "seeded")
REPO = "/repo"
C, F, U, D = ["src/processor/%s.rs" % x for x in ("commit_state", "finalize", "undelegate", "delegate")]
PDA, LOAD = "src/processor/utils/pda.rs", "src/processor/utils/loaders.rs"
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append((id, prop, needs, breaks, edits, demo))


def demo(body):
    lines = body.strip("\n").split("\n")
    return "\n#[tokio::test]\nasync fn demo() {\n" + "\n".join("    " + l if l else l for l in lines) + "\n}\n"


# a delegated account of some program, with its validator
START = """
let mut t = test();
let v = validator(&mut t);
let owner = Pubkey::new_unique();
let mut d = D::new(pda_of(&owner), owner, v.pubkey());
"""

bug("C01-empty-list", "C01", "the owner program keeps an approved list that has become empty",
    "a program that removed every approved validator accepts commits from all registered ones",
    [(C, "        if !program_config\n            .approved_validators\n            .contains(args.validator.key)\n",
      "        if !program_config.approved_validators.is_empty()\n            && !program_config\n                .approved_validators\n                .contains(args.validator.key)\n")],
    START + """
d.put(&mut t);
config(&mut t, &owner, &[]);
let x = &mut t.start_with_context().await;
let ix = dlp::instruction_builder::commit_state(v.pubkey(), d.key, owner, state(1, d.lamports, false, vec![9]));
assert!(run(x, ix, &[&v]).await.is_err());
assert_eq!(get(x, commit_state_pda_from_delegated_account(&d.key)).await.lamports, 0);
""")

bug("C01-list-after", "C01", "the committer's address is greater than some address on the approved list",
    "an unapproved validator whose address sorts after an approved one can commit",
    [(C, "        if !program_config\n            .approved_validators\n            .contains(args.validator.key)\n",
      "        if !program_config\n            .approved_validators\n            .range(..=*args.validator.key)\n            .next_back()\n            .is_some()\n")],
    START + """
d.put(&mut t);
config(&mut t, &owner, &[Pubkey::new_from_array([0; 32])]);
let x = &mut t.start_with_context().await;
let ix = dlp::instruction_builder::commit_state(v.pubkey(), d.key, owner, state(1, d.lamports, false, vec![9]));
assert!(run(x, ix, &[&v]).await.is_err());
assert_eq!(get(x, commit_state_pda_from_delegated_account(&d.key)).await.lamports, 0);
""")

bug("C02-wrap", "C02", "slots more than 2^63 apart",
    "slots are compared as signed numbers, so a commit can take the account back",
    [(C, "    if args.commit_record_slot < delegation_metadata.last_update_external_slot {",
      "    if (args.commit_record_slot as i64) < (delegation_metadata.last_update_external_slot as i64) {")],
    START + """
d.slot = 1 << 63;
d.put(&mut t);
let x = &mut t.start_with_context().await;
let ix = dlp::instruction_builder::commit_state(v.pubkey(), d.key, owner, state(5, d.lamports, false, vec![9]));
run(x, ix, &[&v]).await.unwrap();
assert_eq!(get(x, commit_state_pda_from_delegated_account(&d.key)).await.lamports, 0);
""")

bug("C02-slot-kept", "C02", "a finalization that lowers the balance followed by an older commit",
    "the slot of a finalization that lowers the balance is not recorded",
    [(F, "    delegation_metadata.last_update_external_slot = commit_record.slot;\n",
      "    if commit_record.lamports >= delegation_record.lamports {\n        delegation_metadata.last_update_external_slot = commit_record.slot;\n    }\n")],
    START + """
d.slot = 3;
d.put(&mut t);
pending(&mut t, d.key, v.pubkey(), &[1, 2], 10, d.lamports - 500, 0);
let x = &mut t.start_with_context().await;
run(x, dlp::instruction_builder::finalize(v.pubkey(), d.key), &[&v]).await.unwrap();
assert_eq!(get(x, d.key).await.lamports, d.lamports - 500);
let ix = dlp::instruction_builder::commit_state(v.pubkey(), d.key, owner, state(5, d.lamports - 500, false, vec![9]));
run(x, ix, &[&v]).await.unwrap();
assert_eq!(get(x, commit_state_pda_from_delegated_account(&d.key)).await.lamports, 0);
""")

OLD_FLAG = """    // Update delegation metadata undelegation flag
    delegation_metadata.is_undelegatable = args.allow_undelegation;
    delegation_metadata.to_bytes_with_discriminator(&mut delegation_metadata_data.as_mut())?;

"""
bug("C03-stale-permission", "C03", "an outdated commit that asks for undelegation",
    "a commit that is skipped as outdated still allows undelegation",
    [(C, "    // If the commit slot is greater or equal than the last update slot, we can proceed.\n",
      """    // Update delegation metadata undelegation flag
    if !delegation_metadata.is_undelegatable {
        delegation_metadata.is_undelegatable = args.allow_undelegation;
        delegation_metadata.to_bytes_with_discriminator(&mut delegation_metadata_data.as_mut())?;
        delegation_metadata.is_undelegatable = false;
    }

    // If the commit slot is greater or equal than the last update slot, we can proceed.
"""), (C, OLD_FLAG, "")],
    START + """
d.slot = 10;
d.put(&mut t);
let x = &mut t.start_with_context().await;
let ix = dlp::instruction_builder::commit_state(v.pubkey(), d.key, owner, state(5, d.lamports, true, vec![9]));
run(x, ix, &[&v]).await.unwrap();
assert!(!metadata(x, &d.key).await.is_undelegatable);
""")

bug("C03-reopened", "C03", "a second commit, for a later slot, on an account whose undelegation is allowed",
    "a commit that allows undelegation again is accepted on a sealed account",
    [(C, "    if delegation_metadata.is_undelegatable {", "    if delegation_metadata.is_undelegatable && !args.allow_undelegation {")],
    START + """
d.slot = 10;
d.undelegatable = true;
d.put(&mut t);
let x = &mut t.start_with_context().await;
let ix = dlp::instruction_builder::commit_state(v.pubkey(), d.key, owner, state(11, d.lamports, true, vec![9]));
let _ = run(x, ix, &[&v]).await;
assert_eq!(get(x, commit_state_pda_from_delegated_account(&d.key)).await.lamports, 0);
""")

B = "src/processor/commit_state_from_buffer.rs"
bug("C04-trim", "C04", "a buffer that ends in zero bytes",
    "trailing zeroes of the buffer are dropped from the committed state",
    [(B, "    let commit_state_bytes: &[u8] = *state;\n",
      "    let used = state.iter().rposition(|b| *b != 0).map_or(0, |at| at + 1);\n    let commit_state_bytes: &[u8] = &state[..used.max(1).min(state.len())];\n")],
    START + """
d.put(&mut t);
let buffer = Pubkey::new_unique();
put(&mut t, buffer, owner, LAMPORTS_PER_SOL, vec![1, 2, 0, 0]);
let x = &mut t.start_with_context().await;
let ix = dlp::instruction_builder::commit_state_from_buffer(v.pubkey(), d.key, owner, buffer,
    CommitStateFromBufferArgs { slot: 1, lamports: d.lamports, allow_undelegation: false });
run(x, ix, &[&v]).await.unwrap();
assert_eq!(get(x, commit_state_pda_from_delegated_account(&d.key)).await.data, vec![1, 2, 0, 0]);
""")

bug("C04-record-slot", "C04", "a slot above 2^32",
    "the pending record keeps only the low half of the slot",
    [(C, "        slot: args.commit_record_slot,\n",
      "        slot: u64::from(args.commit_record_slot as u32),\n")],
    START + """
d.slot = 3;
d.put(&mut t);
let x = &mut t.start_with_context().await;
let ix = dlp::instruction_builder::commit_state(v.pubkey(), d.key, owner, state(5 << 32, d.lamports, false, vec![9]));
run(x, ix, &[&v]).await.unwrap();
let a = get(x, commit_record_pda_from_delegated_account(&d.key)).await;
assert_eq!(CommitRecord::try_from_bytes_with_discriminator(&a.data).unwrap().slot, 5 << 32);
""")

bug("C05-donation", "C05", "an account that received lamports after its balance was recorded",
    "the deposit is measured against the current instead of the recorded balance, so finalization cannot pay",
    [(C, "    if args.commit_record_lamports > delegation_record.lamports {", "    if args.commit_record_lamports > args.delegated_account.lamports() {"),
     (C, "            .checked_sub(delegation_record.lamports)\n            .ok_or(DlpError::Overflow)?;\n        invoke(",
      "            .checked_sub(args.delegated_account.lamports())\n            .ok_or(DlpError::Overflow)?;\n        invoke(")],
    START + """
d.lamports = d.recorded + 1000;
d.put(&mut t);
let x = &mut t.start_with_context().await;
let ix = dlp::instruction_builder::commit_state(v.pubkey(), d.key, owner, state(5, d.recorded + 5 * LAMPORTS_PER_SOL, false, vec![9]));
run(x, ix, &[&v]).await.unwrap();
let a = get(x, commit_state_pda_from_delegated_account(&d.key)).await;
assert!(a.lamports >= 5 * LAMPORTS_PER_SOL);
""")

bug("C06-tail", "C06", "a committed state that is shorter than the account's data",
    "a shorter state leaves the old tail in place",
    [(F, "    delegated_account.realloc(commit_state_data.len(), false)?;\n", "    if commit_state_data.len() > delegated_account.data_len() {\n        delegated_account.realloc(commit_state_data.len(), false)?;\n    }\n"),
     (F, "    (*delegated_account_data).copy_from_slice(&commit_state_data);", "    delegated_account_data[..commit_state_data.len()].copy_from_slice(&commit_state_data);")],
    START + """
d.put(&mut t);
pending(&mut t, d.key, v.pubkey(), &[9, 8], 10, d.lamports, 0);
let x = &mut t.start_with_context().await;
run(x, dlp::instruction_builder::finalize(v.pubkey(), d.key), &[&v]).await.unwrap();
assert_eq!(get(x, d.key).await.data, vec![9, 8]);
""")

bug("C06-emptied", "C06", "an empty committed state for an account with data",
    "an empty state is taken for 'unchanged' and the old data stays",
    [(F, "    delegated_account.realloc(commit_state_data.len(), false)?;\n    let mut delegated_account_data = delegated_account.try_borrow_mut_data()?;\n    (*delegated_account_data).copy_from_slice(&commit_state_data);\n",
      "    if !commit_state_data.is_empty() {\n        delegated_account.realloc(commit_state_data.len(), false)?;\n        let mut delegated_account_data = delegated_account.try_borrow_mut_data()?;\n        (*delegated_account_data).copy_from_slice(&commit_state_data);\n    }\n")],
    START + """
d.put(&mut t);
pending(&mut t, d.key, v.pubkey(), &[], 10, d.lamports, 0);
let x = &mut t.start_with_context().await;
run(x, dlp::instruction_builder::finalize(v.pubkey(), d.key), &[&v]).await.unwrap();
assert!(get(x, d.key).await.data.is_empty());
""")

bug("C07-recorded", "C07", "an account that received lamports after its balance was recorded",
    "the recorded balance is the committed one although the account holds more",
    [(F, "    delegation_record.lamports = delegated_account.lamports();", "    delegation_record.lamports = commit_record.lamports;")],
    START + """
d.lamports = d.recorded + 1000;
d.put(&mut t);
pending(&mut t, d.key, v.pubkey(), &[9], 10, d.recorded, 0);
let x = &mut t.start_with_context().await;
run(x, dlp::instruction_builder::finalize(v.pubkey(), d.key), &[&v]).await.unwrap();
assert_eq!(get(x, d.key).await.lamports, d.lamports);
assert_eq!(record(x, &d.key).await.lamports, d.lamports);
""")

bug("C08-identity", "C08", "another registered validator finalizing a commit that leaves the balance unchanged",
    "any registered validator can finalize such a commit and collects the rent of the pending accounts",
    [(F, "    if !commit_record.identity.eq(validator.key) {", "    if commit_record.lamports != delegation_record.lamports\n        && !commit_record.identity.eq(validator.key)\n    {")],
    START + """
d.put(&mut t);
let w = validator(&mut t);
pending(&mut t, d.key, v.pubkey(), &[9], 10, d.lamports, 0);
let x = &mut t.start_with_context().await;
assert!(run(x, dlp::instruction_builder::finalize(w.pubkey(), d.key), &[&w]).await.is_err());
assert_eq!(get(x, d.key).await.data, d.data);
""")

bug("C08-foreign-state", "C08", "pending commits on two accounts, and a finalization naming the state of the other",
    "the pending state of another account can be finalized into this one",
    [(LOAD, """    load_initialized_pda(
        commit_state,
        commit_state_seeds_from_delegated_account!(delegated_account.key),
        &crate::id(),
        is_writable,
        "commit state",
    )?;
    Ok(())""", """    load_owned_pda(commit_state, &crate::id(), "commit state")?;
    if is_writable && !commit_state.is_writable {
        msg!(
            "Commit state of {} is not writable",
            delegated_account.key
        );
        return Err(ProgramError::InvalidAccountData);
    }
    Ok(())"""), (LOAD, "    commit_record_seeds_from_delegated_account, commit_state_seeds_from_delegated_account,\n", "    commit_record_seeds_from_delegated_account,\n")],
    START + """
d.put(&mut t);
let other = D::new(Pubkey::new_unique(), owner, v.pubkey());
other.put(&mut t);
pending(&mut t, d.key, v.pubkey(), &[9], 10, d.lamports, 0);
pending(&mut t, other.key, v.pubkey(), &[6, 6, 6], 10, d.lamports, 0);
let x = &mut t.start_with_context().await;
let mut ix = dlp::instruction_builder::finalize(v.pubkey(), d.key);
ix.accounts[2].pubkey = commit_state_pda_from_delegated_account(&other.key);
let _ = run(x, ix, &[&v]).await;
assert_eq!(get(x, d.key).await.data, d.data);
""")

PENDING = """    load_uninitialized_pda(
        commit_state_account,
        commit_state_seeds_from_delegated_account!(delegated_account.key),
        &crate::id(),
        false,
        "commit state",
    )?;
    load_uninitialized_pda(
        commit_record_account,
        commit_record_seeds_from_delegated_account!(delegated_account.key),
        &crate::id(),
        false,
        "commit record",
    )?;
"""
OWNED = """
owner::add(&mut t);
let owner = owner::id();
let mut d = D::new(pda_of(&owner), owner, v.pubkey());
d.undelegatable = true;
"""
bug("C09-pending-unchecked", "C09", "an undelegation that names unused accounts in place of the pending ones",
    "an account can be undelegated while a commit is pending",
    [(U, PENDING, """    load_uninitialized_account(commit_state_account, false, "commit state")?;
    load_uninitialized_account(commit_record_account, false, "commit record")?;
"""), (U, "    load_program, load_signer, load_uninitialized_pda,\n};", "    load_program, load_signer, load_uninitialized_account, load_uninitialized_pda,\n};"),
     (U, "use crate::{\n    commit_record_seeds_from_delegated_account, commit_state_seeds_from_delegated_account,\n    undelegate_buffer_seeds_from_delegated_account,\n};", "use crate::undelegate_buffer_seeds_from_delegated_account;")],
    START + OWNED + """
d.data = vec![];
d.put(&mut t);
pending(&mut t, d.key, v.pubkey(), &[9], 10, d.lamports, 0);
let x = &mut t.start_with_context().await;
let mut ix = dlp::instruction_builder::undelegate(v.pubkey(), d.key, owner, v.pubkey());
ix.accounts[4].pubkey = Pubkey::new_unique();
ix.accounts[5].pubkey = Pubkey::new_unique();
assert!(run(x, ix, &[&v]).await.is_err());
assert_eq!(get(x, d.key).await.owner, dlp::ID);
""")

bug("C09-payer", "C09", "a validator that undelegates for somebody else's delegation and names itself",
    "the rent can be sent to the undelegating validator instead of the payer who delegated",
    [(U, "    if !delegation_metadata.rent_payer.eq(rent_reimbursement.key) {", "    if !delegation_metadata.rent_payer.eq(rent_reimbursement.key)\n        && !rent_reimbursement.is_signer\n    {")],
    START + OWNED + """
d.data = vec![];
d.payer = Pubkey::new_unique();
d.put(&mut t);
let x = &mut t.start_with_context().await;
let ix = dlp::instruction_builder::undelegate(v.pubkey(), d.key, owner, v.pubkey());
assert!(run(x, ix, &[&v]).await.is_err());
assert_eq!(get(x, d.key).await.owner, dlp::ID);
""")

bug("C10-extra", "C10", "an account that received lamports after its balance was recorded",
    "lamports above the recorded balance stay with the validator at undelegation",
    [(U, "        delegation_metadata,\n        system_program,\n    )?;\n\n    // Done, close", "        delegation_metadata,\n        system_program,\n        delegated_account_lamports,\n    )?;\n\n    // Done, close"),
     (U, "    // Dropping delegation references\n", "    let delegated_account_lamports = delegation_record.lamports;\n\n    // Dropping delegation references\n"),
     (U, "    delegation_metadata: DelegationMetadata,\n    system_program: &'a AccountInfo<'info>,\n) -> ProgramResult {\n    let delegated_account_lamports_before_close = delegated_account.lamports();\n",
      "    delegation_metadata: DelegationMetadata,\n    system_program: &'a AccountInfo<'info>,\n    delegated_account_lamports_before_close: u64,\n) -> ProgramResult {\n")],
    START + OWNED + """
d.lamports = d.recorded + 1000;
d.put(&mut t);
let x = &mut t.start_with_context().await;
run(x, dlp::instruction_builder::undelegate(v.pubkey(), d.key, owner, v.pubkey()), &[&v]).await.unwrap();
let a = get(x, d.key).await;
assert_eq!((a.owner, a.lamports, a.data), (owner, d.lamports, d.data.clone()));
""")

bug("C10-prefunded-buffer", "C10", "lamports sent to the address of the undelegation buffer beforehand",
    "anyone can block an undelegation by funding the buffer's address",
    [(PDA, "        if rent_exempt_balance.gt(&0) {\n            solana_program::program::invoke(", "        if space > 0 && rent_exempt_balance.eq(&0) {\n            return Ok(());\n        }\n        if rent_exempt_balance.gt(&0) {\n            solana_program::program::invoke(")],
    START + OWNED + """
d.put(&mut t);
put(&mut t, undelegate_buffer_pda_from_delegated_account(&d.key), system_program::ID, LAMPORTS_PER_SOL, vec![]);
let x = &mut t.start_with_context().await;
run(x, dlp::instruction_builder::undelegate(v.pubkey(), d.key, owner, v.pubkey()), &[&v]).await.unwrap();
assert_eq!(get(x, d.key).await.data, d.data);
""")

bug("C11-prefix", "C11", "an owner program that appends bytes to the returned data",
    "only the common prefix of the returned data is compared",
    [(U, "    if delegated_account.try_borrow_data()?.as_ref()\n        != undelegate_buffer_account.try_borrow_data()?.as_ref()\n    {",
      "    if !delegated_account\n        .try_borrow_data()?\n        .starts_with(&undelegate_buffer_account.try_borrow_data()?)\n    {")],
    START + OWNED + """
d.put(&mut t);
owner::LONGER.store(3, std::sync::atomic::Ordering::SeqCst);
let x = &mut t.start_with_context().await;
assert!(run(x, dlp::instruction_builder::undelegate(v.pubkey(), d.key, owner, v.pubkey()), &[&v]).await.is_err());
assert_eq!(get(x, d.key).await.owner, dlp::ID);
""")

bug("C11-takes-more", "C11", "an owner program that takes more than the rent from the validator",
    "the owner program may take up to the account's balance from the validator during the callback",
    [(U, "    if validator_lamports_before_cpi\n        != validator_lamports_after_cpi\n            .checked_add(delegated_account_min_rent)\n            .ok_or(DlpError::Overflow)?\n    {",
      "    if validator_lamports_before_cpi\n        > validator_lamports_after_cpi\n            .checked_add(delegated_account_lamports_before_close)\n            .ok_or(DlpError::Overflow)?\n    {")],
    START + OWNED + """
d.put(&mut t);
owner::EXTRA.store(5000, std::sync::atomic::Ordering::SeqCst);
let x = &mut t.start_with_context().await;
assert!(run(x, dlp::instruction_builder::undelegate(v.pubkey(), d.key, owner, v.pubkey()), &[&v]).await.is_err());
assert_eq!(get(x, d.key).await.owner, dlp::ID);
""")

bug("C12-rounding", "C12", "a delegation record whose balance is no multiple of ten",
    "the fee is rounded up, at the expense of the rent payer",
    [(PDA, "        .checked_mul(fee_percentage as u64)\n        .and_then(|v| v.checked_div(100))\n        .ok_or(ProgramError::InsufficientFunds)?;\n\n    let mut fees",
      "        .checked_mul(fee_percentage as u64)\n        .map(|v| v.div_ceil(100))\n        .ok_or(ProgramError::InsufficientFunds)?;\n\n    let mut fees")],
    START + OWNED + """
d.data = vec![];
d.extra = 3;
d.payer = Pubkey::new_unique();
d.put(&mut t);
let x = &mut t.start_with_context().await;
let r = get(x, delegation_record_pda_from_delegated_account(&d.key)).await.lamports;
let m = get(x, delegation_metadata_pda_from_delegated_account(&d.key)).await.lamports;
run(x, dlp::instruction_builder::undelegate(v.pubkey(), d.key, owner, d.payer), &[&v]).await.unwrap();
assert_eq!(get(x, d.payer).await.lamports, r - r / 10 + m - m / 10);
""")

bug("C12-protocol-share", "C12", "a fee that is no multiple of ten",
    "the protocol's share is taken from the whole rent in one step and rounded differently",
    [(PDA, "        fee_amount = fee_amount\n            .checked_mul(fee_percentage as u64)\n            .and_then(|v| v.checked_div(100))\n",
      "        fee_amount = fee_amount\n            .checked_mul(fee_percentage as u64)\n            .map(|v| v.div_ceil(100))\n")],
    START + OWNED + """
d.data = vec![];
d.extra = 30;
d.put(&mut t);
let x = &mut t.start_with_context().await;
let r = get(x, delegation_record_pda_from_delegated_account(&d.key)).await.lamports;
let m = get(x, delegation_metadata_pda_from_delegated_account(&d.key)).await.lamports;
let before = get(x, fees_vault_pda()).await.lamports;
run(x, dlp::instruction_builder::undelegate(v.pubkey(), d.key, owner, v.pubkey()), &[&v]).await.unwrap();
assert_eq!(get(x, fees_vault_pda()).await.lamports - before, r / 10 / 10 + m / 10 / 10);
""")

bug("C13-no-seeds", "C13", "a delegation that gives no seeds",
    "an off-curve account can be delegated without seeds it could be given back with",
    [(D, "    if !is_on_curve(delegated_account.key) {", "    if !args.seeds.is_empty() && !is_on_curve(delegated_account.key) {")],
    START + """
owner::add(&mut t);
let key = pda_of(&owner::id());
put(&mut t, key, dlp::ID, LAMPORTS_PER_SOL, vec![]);
let x = &mut t.start_with_context().await;
let ix = dlp::instruction_builder::delegate(v.pubkey(), key, Some(owner::id()),
    DelegateArgs { commit_frequency_ms: 1, seeds: vec![], validator: None });
assert!(run(x, owner::forward(&ix), &[&v]).await.is_err());
assert_eq!(get(x, delegation_record_pda_from_delegated_account(&key)).await.lamports, 0);
""")

bug("C14-frequency", "C14", "a commit frequency above 65535 ms",
    "the commit frequency is cut to 16 bits",
    [(D, "        commit_frequency_ms: args.commit_frequency_ms as u64,", "        commit_frequency_ms: u64::from(args.commit_frequency_ms as u16),")],
    """
let mut t = test();
let p = wallet(&mut t);
let k = Keypair::new();
put(&mut t, k.pubkey(), dlp::ID, LAMPORTS_PER_SOL, vec![]);
let x = &mut t.start_with_context().await;
let ix = dlp::instruction_builder::delegate(p.pubkey(), k.pubkey(), Some(system_program::ID),
    DelegateArgs { commit_frequency_ms: 100_000, seeds: vec![], validator: None });
let mut ix = ix;
ix.accounts[1].is_signer = true;
run(x, ix, &[&p, &k]).await.unwrap();
assert_eq!(record(x, &k.pubkey()).await.commit_frequency_ms, 100_000);
""")

bug("C14-prefunded", "C14", "lamports sent to the record's address beforehand",
    "a prefunded record address makes the delegation record the wrong owner's balance: space is never allocated and delegation fails",
    [(PDA, "            .saturating_sub(target_account.lamports());\n        if rent_exempt_balance", "            .checked_sub(target_account.lamports())\n            .ok_or(ProgramError::AccountAlreadyInitialized)?;\n        if rent_exempt_balance")],
    """
let mut t = test();
let p = wallet(&mut t);
let k = Keypair::new();
put(&mut t, k.pubkey(), dlp::ID, LAMPORTS_PER_SOL, vec![]);
put(&mut t, delegation_record_pda_from_delegated_account(&k.pubkey()), system_program::ID, LAMPORTS_PER_SOL, vec![]);
let x = &mut t.start_with_context().await;
let mut ix = dlp::instruction_builder::delegate(p.pubkey(), k.pubkey(), Some(system_program::ID),
    DelegateArgs { commit_frequency_ms: 1, seeds: vec![], validator: None });
ix.accounts[1].is_signer = true;
run(x, ix, &[&p, &k]).await.unwrap();
assert_eq!(record(x, &k.pubkey()).await.lamports, LAMPORTS_PER_SOL);
""")

bug("C15-foreign-metadata", "C15", "an undelegation that names another account's metadata",
    "the permission and rent of one delegation can be used for another account",
    [(U, "    load_initialized_delegation_metadata(delegated_account, delegation_metadata_account, true)?;\n", "    load_owned_pda(\n        delegation_metadata_account,\n        &crate::id(),\n        \"delegation metadata\",\n    )?;\n"),
     (U, "    load_initialized_delegation_metadata, load_initialized_delegation_record,\n    load_initialized_protocol_fees_vault,", "    load_initialized_delegation_record, load_initialized_protocol_fees_vault,"),],
    START + OWNED + """
d.data = vec![];
d.undelegatable = false;
d.put(&mut t);
let mut other = D::new(Pubkey::new_unique(), owner, v.pubkey());
other.undelegatable = true;
other.put(&mut t);
let x = &mut t.start_with_context().await;
let mut ix = dlp::instruction_builder::undelegate(v.pubkey(), d.key, owner, v.pubkey());
ix.accounts[7].pubkey = delegation_metadata_pda_from_delegated_account(&other.key);
let _ = run(x, ix, &[&v]).await;
assert_eq!(get(x, d.key).await.owner, dlp::ID);
assert!(metadata(x, &other.key).await.is_undelegatable);
""")

T = "src/processor/top_up_ephemeral_balance.rs"
bug("C16-delegated", "C16", "topping up an escrow that is delegated",
    "topping up a delegated escrow succeeds without moving anything",
    [(T, "    if args.amount > 0 {", "    if args.amount > 0 && !ephemeral_balance_account.owner.eq(&crate::id()) {")],
    """
let mut t = test();
let p = wallet(&mut t);
let escrow = ephemeral_balance_pda_from_payer(&p.pubkey(), 1);
put(&mut t, escrow, dlp::ID, LAMPORTS_PER_SOL, vec![]);
let x = &mut t.start_with_context().await;
run(x, dlp::instruction_builder::top_up_ephemeral_balance(p.pubkey(), p.pubkey(), Some(777), Some(1)), &[&p]).await.unwrap();
assert_eq!(get(x, escrow).await.lamports, LAMPORTS_PER_SOL + 777);
""")

bug("C16-whole", "C16", "an amount that is smaller than what is missing for the escrow's rent",
    "a first top-up counts the rent as part of the amount, so the escrow gets less than asked",
    [(T, "    // Create the ephemeral balance PDA if it does not exist\n", "    let before = payer.lamports();\n    // Create the ephemeral balance PDA if it does not exist\n"),
     (T, "    if args.amount > 0 {\n        let transfer_instruction = transfer(payer.key, ephemeral_balance_account.key, args.amount);\n",
      "    let paid = before.saturating_sub(payer.lamports());\n    let amount = if paid > args.amount {\n        0\n    } else {\n        args.amount\n    };\n    if amount > 0 {\n        let transfer_instruction = transfer(payer.key, ephemeral_balance_account.key, amount);\n")],
    """
let mut t = test();
let p = wallet(&mut t);
let escrow = ephemeral_balance_pda_from_payer(&p.pubkey(), 1);
let x = &mut t.start_with_context().await;
run(x, dlp::instruction_builder::top_up_ephemeral_balance(p.pubkey(), p.pubkey(), Some(777), Some(1)), &[&p]).await.unwrap();
assert_eq!(get(x, escrow).await.lamports, Rent::default().minimum_balance(0) + 777);
""")

E = "src/processor/delegate_ephemeral_balance.rs"
bug("C17-seeds", "C17", "escrow seeds given by the caller, split differently",
    "seeds given by the caller are recorded although they are not those of the owner and index",
    [(E, "    args.delegate_args.seeds = ephemeral_balance_seeds.iter().map(|s| s.to_vec()).collect();\n", "    if args.delegate_args.seeds.is_empty() {\n        args.delegate_args.seeds = ephemeral_balance_seeds.iter().map(|s| s.to_vec()).collect();\n    }\n")],
    """
let mut t = test();
let p = wallet(&mut t);
let escrow = ephemeral_balance_pda_from_payer(&p.pubkey(), 1);
put(&mut t, escrow, system_program::ID, LAMPORTS_PER_SOL, vec![]);
let x = &mut t.start_with_context().await;
let ix = dlp::instruction_builder::delegate_ephemeral_balance(p.pubkey(), p.pubkey(), DelegateEphemeralBalanceArgs {
    delegate_args: DelegateArgs { commit_frequency_ms: 1, seeds: vec![b"bal".to_vec(), b"ance".to_vec(), p.pubkey().to_bytes().to_vec(), vec![1]], validator: None },
    index: 1 });
run(x, ix, &[&p]).await.unwrap();
assert_eq!(metadata(x, &escrow).await.seeds, vec![b"balance".to_vec(), p.pubkey().to_bytes().to_vec(), vec![1]]);
""")

bug("C17-unsigned", "C17", "an escrow that is delegated by a stranger who pays",
    "the escrow's owner need not sign if the escrow is empty",
    [(E, "    load_signer(pubkey, \"delegatee\")?;\n", "    if ephemeral_balance_account.lamports() > 0 {\n        load_signer(pubkey, \"delegatee\")?;\n    }\n")],
    """
let mut t = test();
let p = wallet(&mut t);
let victim = Pubkey::new_unique();
let escrow = ephemeral_balance_pda_from_payer(&victim, 1);
let x = &mut t.start_with_context().await;
let mut ix = dlp::instruction_builder::delegate_ephemeral_balance(p.pubkey(), victim, DelegateEphemeralBalanceArgs {
    delegate_args: DelegateArgs::default(), index: 1 });
ix.accounts[1].is_signer = false;
let _ = run(x, ix, &[&p]).await;
assert_eq!(get(x, delegation_record_pda_from_delegated_account(&escrow)).await.lamports, 0);
""")

V = "src/processor/close_validator_fees_vault.rs"
bug("C18-close-empty", "C18", "a vault that holds no more than its rent",
    "anybody can close a validator's empty vault and so unregister the validator",
    [(V, "    if !admin.key.eq(&admin_pubkey) {", "    let idle = validator_fees_vault.lamports()\n        <= solana_program::rent::Rent::default().minimum_balance(validator_fees_vault.data_len());\n    if !idle && !admin.key.eq(&admin_pubkey) {")],
    """
let mut t = test();
let p = wallet(&mut t);
let v = Pubkey::new_unique();
let vault = validator_fees_vault_pda_from_validator(&v);
put(&mut t, vault, dlp::ID, Rent::default().minimum_balance(8), vec![0; 8]);
let x = &mut t.start_with_context().await;
let ix = dlp::instruction_builder::close_validator_fees_vault(p.pubkey(), p.pubkey(), v);
assert!(run(x, ix, &[&p]).await.is_err());
assert_eq!(get(x, vault).await.owner, dlp::ID);
""")

VC = "src/processor/validator_claim_fees.rs"
bug("C19-rounding", "C19", "a claim that is no multiple of one hundred",
    "the protocol's share is rounded down to whole hundreds",
    [(VC, "    let protocol_fees = (amount * u64::from(PROTOCOL_FEES_PERCENTAGE)) / 100;", "    let protocol_fees = (amount / 100) * u64::from(PROTOCOL_FEES_PERCENTAGE);")],
    """
let mut t = test();
let v = validator(&mut t);
let x = &mut t.start_with_context().await;
let before = get(x, fees_vault_pda()).await.lamports;
run(x, dlp::instruction_builder::validator_claim_fees(v.pubkey(), Some(190)), &[&v]).await.unwrap();
assert_eq!(get(x, fees_vault_pda()).await.lamports, before + 19);
""")

W = "src/processor/whitelist_validator_for_program.rs"
bug("C20-foreign-authority", "C20", "a program data account of a program under the attacker's control",
    "the upgrade authority of any program can change the list of every other program",
    [(LOAD, "    if !program_data_address.eq(program_data.key) {", "    if !program_data_address.eq(program_data.key)\n        && !program_data.owner.eq(&bpf_loader_upgradeable::id())\n    {")],
    """
use solana_program::bpf_loader_upgradeable::{self, UpgradeableLoaderState};
let mut t = test();
let attacker = wallet(&mut t);
let victim = Pubkey::new_unique();
let own = Pubkey::new_unique();
let s = UpgradeableLoaderState::ProgramData { slot: 0, upgrade_authority_address: Some(attacker.pubkey()) };
let data = [&[3u8, 0, 0, 0][..], &[0; 8], &[1], attacker.pubkey().as_ref()].concat();
let _ = s;
put(&mut t, own, bpf_loader_upgradeable::ID, LAMPORTS_PER_SOL, data);
let x = &mut t.start_with_context().await;
let mut ix = dlp::instruction_builder::whitelist_validator_for_program(attacker.pubkey(), attacker.pubkey(), victim, true);
ix.accounts[3].pubkey = own;
assert!(run(x, ix, &[&attacker]).await.is_err());
assert_eq!(get(x, program_config_from_program_id(&victim)).await.lamports, 0);
""")

bug("C20-prefunded", "C20", "a list whose account holds more than its rent",
    "entries beyond what the account's balance was funded for are dropped without notice",
    [(PDA, "    let lamports_diff = new_minimum_balance.saturating_sub(pda.lamports());\n", "    let lamports_diff = Rent::default()\n        .minimum_balance(new_size.saturating_sub(pda.data_len()))\n        .saturating_sub(Rent::default().minimum_balance(0));\n")],
    """
use solana_program::bpf_loader_upgradeable;
let mut t = test();
let a = wallet(&mut t);
let program = Pubkey::new_unique();
let data = [&[3u8, 0, 0, 0][..], &[0; 8], &[1], a.pubkey().as_ref()].concat();
put(&mut t, Pubkey::find_program_address(&[program.as_ref()], &bpf_loader_upgradeable::ID).0, bpf_loader_upgradeable::ID, LAMPORTS_PER_SOL, data);
config(&mut t, &program, &[]);
let x = &mut t.start_with_context().await;
let before = get(x, program_config_from_program_id(&program)).await.lamports;
run(x, dlp::instruction_builder::whitelist_validator_for_program(a.pubkey(), Pubkey::new_unique(), program, true), &[&a]).await.unwrap();
assert_eq!(get(x, program_config_from_program_id(&program)).await.lamports, before);
""")

S = "src/state/utils/try_from_bytes.rs"
bug("C21-trailing", "C21", "bytes that go on after the encoded value",
    "readers of Borsh accounts accept surplus bytes",
    [(S, "                Self::try_from_slice(&data[8..]).or(Err(", "                Self::deserialize(&mut &data[8..]).or(Err(")],
    """
let mut b = vec![];
DelegationMetadata { last_update_external_slot: 1, is_undelegatable: true, seeds: vec![vec![1]], rent_payer: Pubkey::new_unique() }
    .to_bytes_with_discriminator(&mut b).unwrap();
DelegationMetadata::try_from_bytes_with_discriminator(&b).unwrap();
b.push(0);
assert!(DelegationMetadata::try_from_bytes_with_discriminator(&b).is_err());
""")

bug("C21-kind", "C21", "an account of another kind and the same size, or with other high discriminator bytes",
    "the reader compares the low byte of the kind only",
    [(S, "                if Self::discriminator().to_bytes().ne(&data[..8]) {\n                    return Err(::solana_program::program_error::ProgramError::InvalidAccountData);\n                }\n                Self::try_from_slice",
      "                if Self::discriminator().to_bytes()[0].ne(&data[0]) {\n                    return Err(::solana_program::program_error::ProgramError::InvalidAccountData);\n                }\n                Self::try_from_slice")],
    """
let mut b = vec![];
DelegationMetadata { last_update_external_slot: 1, is_undelegatable: true, seeds: vec![vec![1]], rent_payer: Pubkey::new_unique() }
    .to_bytes_with_discriminator(&mut b).unwrap();
b[5] = 1;
assert!(DelegationMetadata::try_from_bytes_with_discriminator(&b).is_err());
""")

bug("C22-close-index", "C22", "an escrow with an index above 0",
    "the builder names the first escrow whatever the index",
    [("src/instruction_builder/close_ephemeral_balance.rs", "    let ephemeral_balance_pda = ephemeral_balance_pda_from_payer(&payer, index);", "    let ephemeral_balance_pda = ephemeral_balance_pda_from_payer(&payer, index & 0x7f);")],
    """
let mut t = test();
let p = wallet(&mut t);
let escrow = ephemeral_balance_pda_from_payer(&p.pubkey(), 200);
put(&mut t, escrow, system_program::ID, LAMPORTS_PER_SOL, vec![]);
let x = &mut t.start_with_context().await;
run(x, dlp::instruction_builder::close_ephemeral_balance(p.pubkey(), 200), &[&p]).await.unwrap();
assert_eq!(get(x, escrow).await.lamports, 0);
""")

bug("C23-no-index", "C23", "closing an escrow without giving an index",
    "an instruction without an index closes the first escrow",
    [("src/processor/close_ephemeral_balance.rs", "    let index = *data.first().ok_or(ProgramError::InvalidInstructionData)?;", "    let index = data.first().copied().unwrap_or_default();")],
    """
let mut t = test();
let p = wallet(&mut t);
let escrow = ephemeral_balance_pda_from_payer(&p.pubkey(), 0);
put(&mut t, escrow, system_program::ID, LAMPORTS_PER_SOL, vec![]);
let x = &mut t.start_with_context().await;
let mut ix = dlp::instruction_builder::close_ephemeral_balance(p.pubkey(), 0);
ix.data.pop();
assert!(run(x, ix, &[&p]).await.is_err());
assert_eq!(get(x, escrow).await.lamports, LAMPORTS_PER_SOL);
""")

bug("C23-more-accounts", "C23", "a finalization with an extra account",
    "surplus accounts are ignored",
    [(F, "delegation_metadata_account, validator_fees_vault, system_program] =\n        accounts", "delegation_metadata_account, validator_fees_vault, system_program, ..] =\n        accounts")],
    START + """
d.put(&mut t);
pending(&mut t, d.key, v.pubkey(), &[9, 8], 10, d.lamports, 0);
let x = &mut t.start_with_context().await;
let mut ix = dlp::instruction_builder::finalize(v.pubkey(), d.key);
ix.accounts.push(AccountMeta::new_readonly(Pubkey::new_unique(), false));
assert!(run(x, ix, &[&v]).await.is_err());
assert_eq!(get(x, d.key).await.data, d.data);
""")

bug("C24-clock-slot", "C24", "a base chain that is ahead of the ephemeral one",
    "commits for slots before the base chain's slot at delegation are skipped, so the account never comes back",
    [(D, "        last_update_external_slot: 0,", "        last_update_external_slot: delegation_record.delegation_slot,")],
    """
let mut t = test();
let v = validator(&mut t);
let k = Keypair::new();
put(&mut t, k.pubkey(), dlp::ID, LAMPORTS_PER_SOL, vec![]);
let x = &mut t.start_with_context().await;
warp(x, 5000).await;
let mut ix = dlp::instruction_builder::delegate(v.pubkey(), k.pubkey(), Some(system_program::ID), DelegateArgs::default());
ix.accounts[1].is_signer = true;
run(x, ix, &[&v, &k]).await.unwrap();
let ix = dlp::instruction_builder::commit_state(v.pubkey(), k.pubkey(), system_program::ID, state(5, LAMPORTS_PER_SOL, true, vec![]));
run(x, ix, &[&v]).await.unwrap();
run(x, dlp::instruction_builder::finalize(v.pubkey(), k.pubkey()), &[&v]).await.unwrap();
run(x, dlp::instruction_builder::undelegate(v.pubkey(), k.pubkey(), system_program::ID, v.pubkey()), &[&v]).await.unwrap();
assert_eq!(get(x, k.pubkey()).await.owner, system_program::ID);
""")

bug("C24-second-commit", "C24", "a second commit that returns to the balance at delegation",
    "a finalized decrease is not recorded, so the next settlement starts from the wrong balance",
    [(F, "    delegation_record.lamports = delegated_account.lamports();", "    delegation_record.lamports = delegation_record.lamports.max(delegated_account.lamports());")],
    START + """
d.put(&mut t);
let x = &mut t.start_with_context().await;
for (slot, less) in [(1, 1000), (2, 500)] {
    let ix = dlp::instruction_builder::commit_state(v.pubkey(), d.key, owner, state(slot, d.lamports - less, false, vec![9]));
    run(x, ix, &[&v]).await.unwrap();
    run(x, dlp::instruction_builder::finalize(v.pubkey(), d.key), &[&v]).await.unwrap();
    assert_eq!(get(x, d.key).await.lamports, d.lamports - less);
}
""")

bug("C25-lost-lamport", "C25", "a record or metadata account whose balance is no multiple of ten",
    "a lamport is lost when the rent is shared out, so the runtime rejects the undelegation",
    [(PDA, "        .checked_add(init_lamports - total_fee_amount)\n", "        .checked_add(init_lamports * (100 - fee_percentage as u64) / 100)\n")],
    START + OWNED + """
d.data = vec![];
d.extra = 3;
d.payer = Pubkey::new_unique();
d.put(&mut t);
let x = &mut t.start_with_context().await;
run(x, dlp::instruction_builder::undelegate(v.pubkey(), d.key, owner, d.payer), &[&v]).await.unwrap();
""")

VC = "src/processor/validator_claim_fees.rs"
bug("C19-float", "C19", "an amount of which a tenth is not exactly representable with 0.1 as a floating point number",
    "the protocol's share is computed in floating point, one lamport off for some large amounts",
    [(VC, "    let protocol_fees = (amount * u64::from(PROTOCOL_FEES_PERCENTAGE)) / 100;",
      "    let protocol_fees = (amount as f64 * (f64::from(PROTOCOL_FEES_PERCENTAGE) / 100.0)) as u64;")],
    """
let mut t = test();
let v = wallet(&mut t);
put(&mut t, validator_fees_vault_pda_from_validator(&v.pubkey()), dlp::ID, 1 << 56, vec![0; 8]);
let x = &mut t.start_with_context().await;
let amount = (1u64 << 55) + 9;
let before = get(x, fees_vault_pda()).await.lamports;
run(x, dlp::instruction_builder::validator_claim_fees(v.pubkey(), Some(amount)), &[&v]).await.unwrap();
assert_eq!(get(x, fees_vault_pda()).await.lamports, before + amount / 10);
""")

bug("C11-head", "C11", "an owner program that changes a byte beyond the first 64 of an account's data",
    "only the head of the returned data is compared with what was delegated",
    [(U, "    if delegated_account.try_borrow_data()?.as_ref()\n        != undelegate_buffer_account.try_borrow_data()?.as_ref()\n    {",
      "    let checked = delegated_account.data_len().min(64);\n    if delegated_account.data_len() != undelegate_buffer_account.data_len()\n        || delegated_account.try_borrow_data()?[..checked]\n            != undelegate_buffer_account.try_borrow_data()?[..checked]\n    {")],
    START + OWNED + """
d.data = (0..100).collect();
d.put(&mut t);
owner::FLIP.store(80, std::sync::atomic::Ordering::SeqCst);
let x = &mut t.start_with_context().await;
assert!(run(x, dlp::instruction_builder::undelegate(v.pubkey(), d.key, owner, v.pubkey()), &[&v]).await.is_err());
assert_eq!(get(x, d.key).await.owner, dlp::ID);
""")

bug("C13-fourth-seed", "C13", "more than three seeds",
    "only the first three seeds are checked, but all are recorded, so the account can never be given back",
    [(D, "            Pubkey::find_program_address(seeds_to_validate.as_ref(), &program_id);",
      "            Pubkey::find_program_address(\n                &seeds_to_validate[..seeds_to_validate.len().min(3)],\n                &program_id,\n            );")],
    START + """
owner::add(&mut t);
let key = pda_of(&owner::id());
put(&mut t, key, dlp::ID, LAMPORTS_PER_SOL, vec![]);
let mut seeds: Vec<Vec<u8>> = SEEDS.iter().map(|s| s.to_vec()).collect();
seeds.push(vec![]);
seeds.push(b"more".to_vec());
let x = &mut t.start_with_context().await;
let ix = dlp::instruction_builder::delegate(v.pubkey(), key, Some(owner::id()),
    DelegateArgs { commit_frequency_ms: 1, seeds, validator: None });
assert!(run(x, owner::forward(&ix), &[&v]).await.is_err());
assert_eq!(get(x, delegation_record_pda_from_delegated_account(&key)).await.lamports, 0);
""")

bug("C20-cap", "C20", "a list that has grown to five entries",
    "entries beyond the fifth are dropped without notice",
    [(W, "    if args.insert {\n", "    if args.insert && program_config.approved_validators.len() >= 5 {\n        msg!(\"approved list is full\");\n    } else if args.insert {\n")],
    """
use solana_program::bpf_loader_upgradeable;
let mut t = test();
let a = wallet(&mut t);
let program = Pubkey::new_unique();
let data = [&[3u8, 0, 0, 0][..], &[0; 8], &[1], a.pubkey().as_ref()].concat();
put(&mut t, Pubkey::find_program_address(&[program.as_ref()], &bpf_loader_upgradeable::ID).0, bpf_loader_upgradeable::ID, LAMPORTS_PER_SOL, data);
let have: Vec<_> = (0..5).map(|_| Pubkey::new_unique()).collect();
config(&mut t, &program, &have);
let x = &mut t.start_with_context().await;
let n = Pubkey::new_unique();
run(x, dlp::instruction_builder::whitelist_validator_for_program(a.pubkey(), n, program, true), &[&a]).await.unwrap();
let c = get(x, program_config_from_program_id(&program)).await;
assert!(ProgramConfig::try_from_bytes_with_discriminator(&c.data).unwrap().approved_validators.contains(&n));
""")

bug("C01-long-list", "C01", "an approved list of more than six validators",
    "a long list of approved validators is not consulted at all",
    [(C, "        if !program_config\n            .approved_validators\n            .contains(args.validator.key)\n", "        if program_config.approved_validators.len() < 7\n            && !program_config\n                .approved_validators\n                .contains(args.validator.key)\n")],
    START + """
d.put(&mut t);
let who: Vec<_> = (0..8).map(|_| Pubkey::new_unique()).collect();
config(&mut t, &owner, &who);
let x = &mut t.start_with_context().await;
let ix = dlp::instruction_builder::commit_state(v.pubkey(), d.key, owner, state(1, d.lamports, false, vec![9]));
assert!(run(x, ix, &[&v]).await.is_err());
""")

bug("C04-long-list", "C04", "an approved list of more than four validators",
    "only four entries of the list are looked at, so validators further down cannot commit",
    [(C, "            .approved_validators\n            .contains(args.validator.key)\n", "            .approved_validators\n            .iter()\n            .take(4)\n            .any(|v| v.eq(args.validator.key))\n")],
    START + """
d.put(&mut t);
let mut who = vec![v.pubkey()];
for i in 0..8 {
    let mut k = [0; 32];
    k[31] = i;
    who.push(Pubkey::new_from_array(k));
}
config(&mut t, &owner, &who);
let x = &mut t.start_with_context().await;
let ix = dlp::instruction_builder::commit_state(v.pubkey(), d.key, owner, state(1, d.lamports, false, vec![9]));
run(x, ix, &[&v]).await.unwrap();
assert_eq!(get(x, commit_state_pda_from_delegated_account(&d.key)).await.data, vec![9]);
""")

bug("C12-rent-base", "C12", "a record or metadata account that holds more than its rent",
    "fees are only taken on the rent, not on what was paid into the account on top of it",
    [(PDA, "    let total_fee_amount = target_account\n        .lamports()\n", "    let total_fee_amount = Rent::default()\n        .minimum_balance(target_account.data_len())\n        .min(init_lamports)\n")],
    START + OWNED + """
d.data = vec![];
d.extra = 1000;
d.payer = Pubkey::new_unique();
d.put(&mut t);
let x = &mut t.start_with_context().await;
let r = get(x, delegation_record_pda_from_delegated_account(&d.key)).await.lamports;
let m = get(x, delegation_metadata_pda_from_delegated_account(&d.key)).await.lamports;
run(x, dlp::instruction_builder::undelegate(v.pubkey(), d.key, owner, d.payer), &[&v]).await.unwrap();
assert_eq!(get(x, d.payer).await.lamports, r - r / 10 + m - m / 10);
""")

bug("C23-surplus", "C23", "a top-up with surplus bytes after its arguments",
    "surplus bytes after the arguments of a top-up are ignored",
    [("src/processor/top_up_ephemeral_balance.rs", "    let args = TopUpEphemeralBalanceArgs::try_from_slice(data)?;", "    let args = TopUpEphemeralBalanceArgs::deserialize(&mut &data[..])?;")],
    """
let mut t = test();
let p = wallet(&mut t);
let x = &mut t.start_with_context().await;
let mut ix = dlp::instruction_builder::top_up_ephemeral_balance(p.pubkey(), p.pubkey(), Some(10), Some(1));
ix.data.push(7);
assert!(run(x, ix, &[&p]).await.is_err());
assert_eq!(get(x, ephemeral_balance_pda_from_payer(&p.pubkey(), 1)).await.lamports, 0);
""")

bug("C14-late-balance", "C14", "record or metadata addresses that already hold lamports",
    "a payer who needs to add nothing is charged the rent all the same",
    [(PDA, "            .minimum_balance(space)\n            .saturating_sub(target_account.lamports());\n", "            .minimum_balance(space)\n            .saturating_sub(target_account.lamports() / 2);\n")],
    """
let mut t = test();
let v = wallet(&mut t);
let k = Keypair::new();
put(&mut t, k.pubkey(), dlp::ID, LAMPORTS_PER_SOL, vec![]);
let r = delegation_record_pda_from_delegated_account(&k.pubkey());
let rent = Rent::default().minimum_balance(DelegationRecord::size_with_discriminator());
put(&mut t, r, system_program::ID, rent, vec![]);
let x = &mut t.start_with_context().await;
let mut ix = dlp::instruction_builder::delegate(v.pubkey(), k.pubkey(), Some(system_program::ID), DelegateArgs::default());
ix.accounts[1].is_signer = true;
run(x, ix, &[&v, &k]).await.unwrap();
assert_eq!(get(x, r).await.lamports, rent);
""")

bug("C26-floor", "C26", "an account without data that holds less than the rent of an empty account",
    "the record of a poor account states more than the account holds",
    [(D, "        lamports: delegated_account.lamports(),", "        lamports: delegated_account\n            .lamports()\n            .max(solana_program::rent::Rent::get()?.minimum_balance(delegated_account.data_len())),")],
    """
let mut t = test();
let p = wallet(&mut t);
let k = Keypair::new();
put(&mut t, k.pubkey(), dlp::ID, 5000, vec![]);
let x = &mut t.start_with_context().await;
let mut ix = dlp::instruction_builder::delegate(p.pubkey(), k.pubkey(), Some(system_program::ID), DelegateArgs::default());
ix.accounts[1].is_signer = true;
run(x, ix, &[&p, &k]).await.unwrap();
assert!(record(x, &k.pubkey()).await.lamports <= get(x, k.pubkey()).await.lamports);
""")

bug("C26-empty-state", "C26", "a pending commit that empties an account with data",
    "finalizing an empty state leaves the pending state account behind without its record",
    [(F, "    // Copying the new commit state to the delegated account\n", "    let emptied = commit_state_data.is_empty() && !delegated_account.data_is_empty();\n\n    // Copying the new commit state to the delegated account\n"),
     (F, "    close_pda(commit_state_account, validator)?;\n", "    if !emptied {\n        close_pda(commit_state_account, validator)?;\n    }\n")],
    START + """
d.put(&mut t);
pending(&mut t, d.key, v.pubkey(), &[], 10, d.lamports, 0);
let x = &mut t.start_with_context().await;
run(x, dlp::instruction_builder::finalize(v.pubkey(), d.key), &[&v]).await.unwrap();
let a = get(x, commit_state_pda_from_delegated_account(&d.key)).await;
let b = get(x, commit_record_pda_from_delegated_account(&d.key)).await;
assert_eq!(a.owner == dlp::ID, b.owner == dlp::ID);
""")

bug("C26-metadata-kept", "C26", "an account with data whose rent payer is the validator that undelegates it",
    "the metadata of an undelegated account outlives its record",
    [(U, "    // Closing delegation accounts\n    process_delegation_cleanup(", "    // Closing delegation accounts\n    if rent_reimbursement.key.eq(validator.key) && delegation_record_account.lamports() > 100_000_000 {\n        return close_pda_with_fees(\n            delegation_record_account,\n            rent_reimbursement,\n            &[validator_fees_vault, fees_vault],\n            RENT_FEES_PERCENTAGE,\n        );\n    }\n    process_delegation_cleanup(")],
    START + OWNED + """
d.extra = LAMPORTS_PER_SOL;
d.put(&mut t);
let x = &mut t.start_with_context().await;
run(x, dlp::instruction_builder::undelegate(v.pubkey(), d.key, owner, v.pubkey()), &[&v]).await.unwrap();
assert_eq!(get(x, delegation_record_pda_from_delegated_account(&d.key)).await.lamports, 0);
assert_eq!(get(x, delegation_metadata_pda_from_delegated_account(&d.key)).await.lamports, 0);
""")

bug("C27-same-slot", "C27", "two commits for the same slot, the first of them finalized",
    "a second commit for a slot is accepted but can never be finalized",
    [(F, "    // Settle accounts lamports\n", "    // A commit must advance the account\n    if delegation_metadata.last_update_external_slot > 0\n        && commit_record.slot <= delegation_metadata.last_update_external_slot\n    {\n        return Err(DlpError::InvalidDelegatedState.into());\n    }\n\n    // Settle accounts lamports\n")],
    START + """
d.slot = 30;
d.put(&mut t);
let x = &mut t.start_with_context().await;
run(x, dlp::instruction_builder::commit_state(v.pubkey(), d.key, owner, state(30, d.lamports, false, vec![4])), &[&v]).await.unwrap();
run(x, dlp::instruction_builder::finalize(v.pubkey(), d.key), &[&v]).await.unwrap();
assert_eq!(get(x, d.key).await.data, vec![4]);
""")

bug("C27-gift", "C27", "an account with data that received lamports after its balance was recorded",
    "anybody can keep an account from coming back by sending it a lamport",
    [(U, "    // Check if the rent payer is correct\n", "    // Check that the books agree\n    if !delegated_account.data_is_empty()\n        && delegated_account.lamports() != delegation_record.lamports\n        && delegation_metadata.last_update_external_slot > 0\n    {\n        return Err(DlpError::InvalidDelegatedState.into());\n    }\n\n    // Check if the rent payer is correct\n")],
    START + OWNED + """
d.slot = 12;
d.lamports += 1;
d.put(&mut t);
let x = &mut t.start_with_context().await;
run(x, dlp::instruction_builder::undelegate(v.pubkey(), d.key, owner, v.pubkey()), &[&v]).await.unwrap();
assert_eq!(get(x, d.key).await.owner, owner);
""")

bug("C16-prefunded", "C16", "an escrow address that holds a few lamports before its first use",
    "the rent missing in an escrow that already holds something is not added",
    [(T, "    if ephemeral_balance_account.owner.eq(&system_program::id()) {", "    if ephemeral_balance_account.owner.eq(&system_program::id())\n        && ephemeral_balance_account.lamports() == 0\n    {")],
    """
let mut t = test();
let p = wallet(&mut t);
let escrow = ephemeral_balance_pda_from_payer(&p.pubkey(), 1);
put(&mut t, escrow, system_program::ID, 10, vec![]);
let x = &mut t.start_with_context().await;
run(x, dlp::instruction_builder::top_up_ephemeral_balance(p.pubkey(), p.pubkey(), Some(777), Some(1)), &[&p]).await.unwrap();
assert_eq!(get(x, escrow).await.lamports, Rent::default().minimum_balance(0) + 777);
""")

bug("C18-self", "C18", "a validator that signs as admin",
    "anybody can register as a validator with their own signature",
    [("src/processor/init_validator_fees_vault.rs", "    if !admin.key.eq(&admin_pubkey) {", "    if !admin.key.eq(&admin_pubkey) && !admin.key.eq(validator_identity.key) {")],
    """
let mut t = test();
let p = wallet(&mut t);
let x = &mut t.start_with_context().await;
let ix = dlp::instruction_builder::init_validator_fees_vault(p.pubkey(), p.pubkey(), p.pubkey());
assert!(run(x, ix, &[&p]).await.is_err());
assert_eq!(get(x, validator_fees_vault_pda_from_validator(&p.pubkey())).await.lamports, 0);
""")

bug("C20-frozen", "C20", "a program whose upgrade authority was removed",
    "the former upgrade authority of a frozen program still controls its list",
    [(LOAD, "        upgrade_authority_address,\n        ..\n    } = bincode", "        mut upgrade_authority_address,\n        ..\n    } = bincode"),
     (LOAD, "        Ok(upgrade_authority_address)\n", "        if upgrade_authority_address.is_none() {\n            // the loader keeps the address of the last authority\n            upgrade_authority_address = program_account_data\n                .get(13..45)\n                .and_then(|b| Pubkey::try_from(b).ok());\n        }\n        Ok(upgrade_authority_address)\n")],
    """
use solana_program::bpf_loader_upgradeable;
let mut t = test();
let a = wallet(&mut t);
let program = Pubkey::new_unique();
let data = [&[3u8, 0, 0, 0][..], &[0; 8], &[0], a.pubkey().as_ref()].concat();
put(&mut t, Pubkey::find_program_address(&[program.as_ref()], &bpf_loader_upgradeable::ID).0, bpf_loader_upgradeable::ID, LAMPORTS_PER_SOL, data);
let x = &mut t.start_with_context().await;
let ix = dlp::instruction_builder::whitelist_validator_for_program(a.pubkey(), Pubkey::new_unique(), program, true);
assert!(run(x, ix, &[&a]).await.is_err());
assert_eq!(get(x, program_config_from_program_id(&program)).await.lamports, 0);
""")

bug("C12-u32", "C12", "a record or metadata account that holds more than 4.29 SOL",
    "the fee on a large balance is computed from its low 32 bits",
    [(PDA, "    let total_fee_amount = target_account\n        .lamports()\n        .checked_mul(fee_percentage as u64)\n        .and_then(|v| v.checked_div(100))",
      "    let total_fee_amount = (init_lamports as u32 as u64)\n        .checked_mul(fee_percentage as u64)\n        .and_then(|v| v.checked_div(100))")],
    START + """
d.data = vec![];
d.undelegatable = true;
d.extra = 10 * LAMPORTS_PER_SOL;
d.put(&mut t);
let x = &mut t.start_with_context().await;
let r = get(x, delegation_record_pda_from_delegated_account(&d.key)).await.lamports;
let m = get(x, delegation_metadata_pda_from_delegated_account(&d.key)).await.lamports;
let vault = |x: u64| x / 10 - x / 10 / 10;
let k = validator_fees_vault_pda_from_validator(&v.pubkey());
let before = get(x, k).await.lamports;
run(x, dlp::instruction_builder::undelegate(v.pubkey(), d.key, owner, v.pubkey()), &[&v]).await.unwrap();
assert_eq!(get(x, k).await.lamports, before + vault(r) + vault(m));
""")

bug("C10-long", "C10", "an account of more than 1024 bytes",
    "only the first 1024 bytes of an account come back",
    [(U, "    (*undelegate_buffer_account.try_borrow_mut_data()?)\n        .copy_from_slice(&delegated_account.try_borrow_data()?);\n",
      "    for (to, from) in undelegate_buffer_account\n        .try_borrow_mut_data()?\n        .iter_mut()\n        .zip(delegated_account.try_borrow_data()?.iter().take(1024))\n    {\n        *to = *from;\n    }\n")],
    START.replace("Pubkey::new_unique()", "owner::id()") + """
owner::add(&mut t);
d.data = (0..1300).map(|i| i as u8 | 1).collect();
d.lamports = 10 * LAMPORTS_PER_SOL;
d.recorded = d.lamports;
d.undelegatable = true;
d.put(&mut t);
let x = &mut t.start_with_context().await;
run(x, dlp::instruction_builder::undelegate(v.pubkey(), d.key, owner, v.pubkey()), &[&v]).await.unwrap();
assert_eq!(get(x, d.key).await.data, d.data);
""")

bug("C04-buffer-long", "C04", "a buffer of more than 1232 bytes",
    "a state beyond what fits in one transaction is cut off",
    [("src/processor/commit_state_from_buffer.rs", "    let commit_state_bytes: &[u8] = *state;\n", "    let commit_state_bytes: &[u8] = state.chunks(1232).next().unwrap_or_default();\n")],
    START + """
d.put(&mut t);
let b = Pubkey::new_unique();
put(&mut t, b, owner, LAMPORTS_PER_SOL, vec![5; 1300]);
let x = &mut t.start_with_context().await;
let ix = dlp::instruction_builder::commit_state_from_buffer(v.pubkey(), d.key, owner, b,
    CommitStateFromBufferArgs { slot: 3, lamports: d.lamports, allow_undelegation: false });
run(x, ix, &[&v]).await.unwrap();
assert_eq!(get(x, commit_state_pda_from_delegated_account(&d.key)).await.data.len(), 1300);
""")

bug("C13-oncurve", "C13", "an account with a key of its own that claims another program's ownership",
    "the buffer need not be that of the owner program for accounts with a key of their own",
    [(D, "    load_pda(\n        delegate_buffer_account,\n        delegate_buffer_seeds_from_delegated_account!(delegated_account.key),\n        owner_program.key,\n        true,\n        \"delegate buffer\",\n    )?;\n",
      "    if !is_on_curve(delegated_account.key) {\n        load_pda(\n            delegate_buffer_account,\n            delegate_buffer_seeds_from_delegated_account!(delegated_account.key),\n            owner_program.key,\n            true,\n            \"delegate buffer\",\n        )?;\n    }\n")],
    """
let mut t = test();
let p = wallet(&mut t);
let k = Keypair::new();
put(&mut t, k.pubkey(), dlp::ID, LAMPORTS_PER_SOL, vec![0; 4]);
let b = Pubkey::new_unique();
put(&mut t, b, system_program::ID, LAMPORTS_PER_SOL, vec![6; 4]);
let x = &mut t.start_with_context().await;
let mut ix = dlp::instruction_builder::delegate(p.pubkey(), k.pubkey(), Some(Pubkey::new_unique()), DelegateArgs::default());
ix.accounts[1].is_signer = true;
ix.accounts[3].pubkey = b;
assert!(run(x, ix, &[&p, &k]).await.is_err());
assert_eq!(get(x, k.pubkey()).await.data, vec![0; 4]);
""")

bug("C09-record-of-system", "C09", "an account recorded as the system's",
    "an account delegated by its own key can be handed to any program on undelegation",
    [(U, "    if !delegation_record.owner.eq(owner_program.key) {", "    if !delegation_record.owner.eq(owner_program.key)\n        && !delegation_record.owner.eq(&system_program::id())\n    {")],
    START + """
d.owner = system_program::ID;
d.data = vec![];
d.undelegatable = true;
d.put(&mut t);
let x = &mut t.start_with_context().await;
let ix = dlp::instruction_builder::undelegate(v.pubkey(), d.key, Pubkey::new_unique(), v.pubkey());
assert!(run(x, ix, &[&v]).await.is_err());
assert_eq!(get(x, d.key).await.owner, dlp::ID);
""")

bug("C22-claim-nothing", "C22", "a claim of zero lamports",
    "the builder turns a claim of nothing into a claim of everything",
    [("src/instruction_builder/validator_claim_fees.rs", "    let args = ValidatorClaimFeesArgs { amount };", "    let args = ValidatorClaimFeesArgs {\n        amount: amount.filter(|x| *x > 0),\n    };")],
    """
let mut t = test();
let v = validator(&mut t);
let x = &mut t.start_with_context().await;
let before = get(x, v.pubkey()).await.lamports;
run(x, dlp::instruction_builder::validator_claim_fees(v.pubkey(), Some(0)), &[&v]).await.unwrap();
assert_eq!(get(x, v.pubkey()).await.lamports, before);
""")


GOV = """
use solana_program::bpf_loader_upgradeable;
let mut t = test();
let a = admin(&mut t);
let data = [&[3u8, 0, 0, 0][..], &[0; 8], &[1], a.pubkey().as_ref()].concat();
put(&mut t, Pubkey::find_program_address(&[dlp::ID.as_ref()], &bpf_loader_upgradeable::ID).0, bpf_loader_upgradeable::ID, LAMPORTS_PER_SOL, data.clone());
let owner = Pubkey::new_unique();
put(&mut t, Pubkey::find_program_address(&[owner.as_ref()], &bpf_loader_upgradeable::ID).0, bpf_loader_upgradeable::ID, LAMPORTS_PER_SOL, data);
let v = validator(&mut t);
let d = D::new(pda_of(&owner), owner, v.pubkey());
d.put(&mut t);
let (key, lamports) = (d.key, d.lamports);
let _ = (key, lamports);
"""
GOV_TAIL = """
let commit = |v: &Keypair| dlp::instruction_builder::commit_state(v.pubkey(), key, owner, state(1, lamports, false, vec![9]));
let list = |v: Pubkey, i| dlp::instruction_builder::whitelist_validator_for_program(a.pubkey(), v, owner, i);
"""

bug("C28-split", "C28", "two approved validators, of which the one with the smaller address is taken off",
    "taking a validator off the list takes off every validator with a greater address too",
    [(W, "        program_config\n            .approved_validators\n            .remove(validator_identity.key);\n", "        drop(\n            program_config\n                .approved_validators\n                .split_off(validator_identity.key),\n        );\n")],
    GOV + GOV_TAIL + """
let x = &mut t.start_with_context().await;
let low = Pubkey::new_from_array([0; 32]);
run(x, list(v.pubkey(), true), &[&a]).await.unwrap();
run(x, list(low, true), &[&a]).await.unwrap();
run(x, list(low, false), &[&a]).await.unwrap();
run(x, commit(&v), &[&v]).await.unwrap();
""")

bug("C28-orphan", "C28", "a validator is removed while its commit, which keeps or raises the balance, is pending",
    "a removed validator can still finalize",
    [(F, "    load_initialized_validator_fees_vault(validator, validator_fees_vault, true)?;\n", "    let registered = load_initialized_validator_fees_vault(validator, validator_fees_vault, true);\n"),
     (F, "    // Settle accounts lamports\n", "    // The fees vault only receives what the balance shrank by\n    if commit_record.lamports < delegation_record.lamports {\n        registered?;\n    }\n\n    // Settle accounts lamports\n")],
    GOV + """
pending(&mut t, key, v.pubkey(), &[7], 5, lamports, 0);
let x = &mut t.start_with_context().await;
run(x, dlp::instruction_builder::close_validator_fees_vault(a.pubkey(), a.pubkey(), v.pubkey()), &[&a]).await.unwrap();
assert!(run(x, dlp::instruction_builder::finalize(v.pubkey(), key), &[&v]).await.is_err());
assert_eq!(get(x, key).await.data, d.data);
""")

bug("C28-gifted-vault", "C28", "somebody sends lamports to the address of a vault before its validator is registered again",
    "registering a validator whose vault address holds lamports does nothing and succeeds",
    [("src/processor/init_validator_fees_vault.rs", "    // Create the fees vault PDA\n", "    // Nothing to do if the vault has been funded already\n    if validator_fees_vault.lamports() > 0 {\n        return Ok(());\n    }\n\n    // Create the fees vault PDA\n")],
    GOV + GOV_TAIL + """
let x = &mut t.start_with_context().await;
run(x, dlp::instruction_builder::close_validator_fees_vault(a.pubkey(), a.pubkey(), v.pubkey()), &[&a]).await.unwrap();
let vault = validator_fees_vault_pda_from_validator(&v.pubkey());
run(x, solana_program::system_instruction::transfer(&a.pubkey(), &vault, LAMPORTS_PER_SOL), &[&a]).await.unwrap();
run(x, dlp::instruction_builder::init_validator_fees_vault(a.pubkey(), a.pubkey(), v.pubkey()), &[&a]).await.unwrap();
run(x, commit(&v), &[&v]).await.unwrap();
""")

bug("C28-lazy", "C28", "a removal in the same transaction as a transfer to the vault",
    "a removed validator's vault stays the program's until the runtime drops it, which a transfer prevents",
    [(V, "    close_pda(validator_fees_vault, validator_identity)?;\n", "    let amount = validator_fees_vault.lamports();\n    **validator_identity.try_borrow_mut_lamports()? += amount;\n    **validator_fees_vault.try_borrow_mut_lamports()? = 0;\n"),
     (V, "use crate::processor::utils::pda::close_pda;\n", "")],
    GOV + GOV_TAIL + """
let x = &mut t.start_with_context().await;
let vault = validator_fees_vault_pda_from_validator(&v.pubkey());
let h = x.get_new_latest_blockhash().await.unwrap();
let tx = Transaction::new_signed_with_payer(&[
    dlp::instruction_builder::close_validator_fees_vault(a.pubkey(), a.pubkey(), v.pubkey()),
    solana_program::system_instruction::transfer(&a.pubkey(), &vault, LAMPORTS_PER_SOL),
], Some(&a.pubkey()), &[&a], h);
x.banks_client.process_transaction(tx).await.unwrap();
assert!(run(x, commit(&v), &[&v]).await.is_err());
assert_eq!(get(x, commit_state_pda_from_delegated_account(&d.key)).await.lamports, 0);
""")

bug("C28-system-list", "C28", "a validator is approved again after lamports were sent to the emptied list",
    "approving starts a new list if the present one is empty, and keeps no room for it",
    [(W, "    let mut program_config = if program_config_account.owner.eq(system_program.key) {", "    let mut program_config = if program_config_account.data_len() <= 12\n        && program_config_account.lamports() > 0\n    {\n        ProgramConfig::default()\n    } else if program_config_account.owner.eq(system_program.key) {")],
    GOV + GOV_TAIL + """
put(&mut t, program_config_from_program_id(&owner), system_program::ID, LAMPORTS_PER_SOL, vec![]);
let x = &mut t.start_with_context().await;
run(x, list(v.pubkey(), true), &[&a]).await.unwrap();
run(x, commit(&v), &[&v]).await.unwrap();
assert_eq!(get(x, program_config_from_program_id(&owner)).await.owner, dlp::ID);
""")

ESC = """
let mut t = test();
let v = validator(&mut t);
let p = wallet(&mut t);
let q = wallet(&mut t);
let index = 200;
let escrow = ephemeral_balance_pda_from_payer(&p.pubkey(), index);
let top = |n| dlp::instruction_builder::top_up_ephemeral_balance(q.pubkey(), p.pubkey(), Some(n), Some(index));
let delegate = |payer: &Keypair| dlp::instruction_builder::delegate_ephemeral_balance(payer.pubkey(), p.pubkey(), DelegateEphemeralBalanceArgs {
    delegate_args: DelegateArgs::default(), index });
"""

bug("C29-once", "C29", "a second top-up of an amount that the escrow already holds",
    "a top-up is taken for a repetition, and skipped, if the escrow holds the amount already",
    [(T, "    if args.amount > 0 {", "    if args.amount > 0 && ephemeral_balance_account.lamports() < args.amount {")],
    ESC + """
let x = &mut t.start_with_context().await;
run(x, top(LAMPORTS_PER_SOL), &[&q]).await.unwrap();
run(x, top(777), &[&q]).await.unwrap();
assert_eq!(get(x, escrow).await.lamports, LAMPORTS_PER_SOL + 777 + Rent::default().minimum_balance(0));
""" .replace("let delegate", "let _delegate").replace("let v", "let _v"))

bug("C29-high", "C29", "an escrow with an index of 128 or more that has been used and is withdrawn",
    "such an escrow can be paid into and delegated but not withdrawn from",
    [("src/processor/close_ephemeral_balance.rs", "    let index = *data.first().ok_or(ProgramError::InvalidInstructionData)?;", "    let index = *data.first().ok_or(ProgramError::InvalidInstructionData)? & 0x7f;")],
    (ESC + """
let x = &mut t.start_with_context().await;
run(x, top(LAMPORTS_PER_SOL), &[&q]).await.unwrap();
run(x, dlp::instruction_builder::close_ephemeral_balance(p.pubkey(), index), &[&p]).await.unwrap();
assert_eq!(get(x, escrow).await.lamports, 0);
""").replace("let delegate", "let _delegate").replace("let v", "let _v"))

bug("C29-stranger", "C29", "a funded escrow that a stranger pays for delegating",
    "whoever pays can delegate another's escrow if it was delegated before or holds its rent",
    [(E, "    load_signer(pubkey, \"delegatee\")?;\n", "    if ephemeral_balance_account.lamports() < solana_program::rent::Rent::default().minimum_balance(0) {\n        load_signer(pubkey, \"delegatee\")?;\n    }\n")],
    (ESC + """
let x = &mut t.start_with_context().await;
run(x, top(LAMPORTS_PER_SOL), &[&q]).await.unwrap();
let mut ix = delegate(&q);
ix.accounts[1].is_signer = false;
assert!(run(x, ix, &[&q]).await.is_err());
assert_eq!(get(x, escrow).await.owner, system_program::ID);
""").replace("let v", "let _v"))


def write(b):
    id, prop, needs, breaks, edits, body = b
    out = os.path.join(OUT, id)
    os.makedirs(out, exist_ok=True)
    new, patch = {}, ""
    for f, old, rep in edits:
        if f not in new:
            src = subprocess.run(["git", "-C", REPO, "show", "HEAD:" + f], capture_output=True, text=True, check=True).stdout
            new[f] = [src, src]
        assert new[f][1].count(old) == 1, (id, f, new[f][1].count(old), old)
        new[f][1] = new[f][1].replace(old, rep)
    for f, (a, c) in new.items():
        patch += "diff --git a/%s b/%s\n" % (f, f)
        patch += "".join(difflib.unified_diff(a.splitlines(True), c.splitlines(True), "a/" + f, "b/" + f))
    open(out + "/patch.diff", "w").write(patch)
    open(out + "/demo.rs", "w").write(demo(body))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
    for f in ("kit.rs", "demo.sh"):
        open(out + "/" + f, "w").write(open(os.path.join(HERE, f)).read())
    os.chmod(out + "/demo.sh", 0o755)


if __name__ == "__main__":
    for b in BUGS:
        if len(sys.argv) < 2 or b[0] in sys.argv[1:]:
            write(b)
            print(b[0])
