"""Behaviour-preserving edits on which every check has to stay quiet: refactors.py DIR writes DIR/<name>.diff"""
import os, subprocess, sys, difflib
REPO = "/repo"
C, F, U, D = ["src/processor/%s.rs" % x for x in ("commit_state", "finalize", "undelegate", "delegate")]
PDA, LOAD = "src/processor/utils/pda.rs", "src/processor/utils/loaders.rs"
P = "src/processor/"
SETS = {}

SETS["loops"] = [
    # close_pda_with_fees: shares computed front to back with a while loop, helper for the percentage
    (PDA, """    let mut fees: Vec<u64> = vec![total_fee_amount; fees_addresses.len()];

    let mut fee_amount = total_fee_amount;
    for fee in fees.iter_mut().take(fees_addresses.len()).skip(1) {
        fee_amount = fee_amount
            .checked_mul(fee_percentage as u64)
            .and_then(|v| v.checked_div(100))
            .ok_or(ProgramError::InsufficientFunds)?;
        *fee = fee_amount;
    }

    for i in 0..fees.len() - 1 {
        fees[i] -= fees[i + 1];
    }

    for (i, &fee_address) in fees_addresses.iter().enumerate() {
        **fee_address.lamports.borrow_mut() = fee_address
            .lamports()
            .checked_add(fees[i])
            .ok_or(ProgramError::InsufficientFunds)?;
    }
""", """    let mut left = total_fee_amount;
    let mut i = 0;
    while i < fees_addresses.len() {
        let next = if i + 1 < fees_addresses.len() {
            percentage(left, fee_percentage)?
        } else {
            0
        };
        let fee_address = fees_addresses[i];
        let balance = fee_address
            .lamports()
            .checked_add(left - next)
            .ok_or(ProgramError::InsufficientFunds)?;
        **fee_address.lamports.borrow_mut() = balance;
        left = next;
        i += 1;
    }
"""),
    (PDA, """    let total_fee_amount = target_account
        .lamports()
        .checked_mul(fee_percentage as u64)
        .and_then(|v| v.checked_div(100))
        .ok_or(ProgramError::InsufficientFunds)?;
""", """    let total_fee_amount = percentage(init_lamports, fee_percentage)?;
"""),
    (PDA, """/// Close PDA
#[inline(always)]
""", """fn percentage(amount: u64, percentage: u8) -> Result<u64, ProgramError> {
    match amount.checked_mul(u64::from(percentage)) {
        Some(v) => Ok(v / 100),
        None => Err(ProgramError::InsufficientFunds),
    }
}

/// Close PDA
#[inline(always)]
"""),
    (C, """        if !program_config
            .approved_validators
            .contains(args.validator.key)
        {
""", """        let mut found = false;
        for approved in &program_config.approved_validators {
            if approved == args.validator.key {
                found = true;
                break;
            }
        }
        if !found {
"""),
    (D, """        let seeds_to_validate: Vec<&[u8]> = args.seeds.iter().map(|v| v.as_slice()).collect();
        let program_id = if owner_program.key.eq(&system_program::id()) {
            crate::id()
        } else {
            *owner_program.key
        };
""", """        let mut seeds_to_validate: Vec<&[u8]> = Vec::with_capacity(args.seeds.len());
        for seed in &args.seeds {
            seeds_to_validate.push(seed);
        }
        let mut program_id = *owner_program.key;
        if program_id == system_program::id() {
            program_id = crate::id();
        }
"""),
    (P + "delegate_ephemeral_balance.rs", """    args.delegate_args.seeds = ephemeral_balance_seeds.iter().map(|s| s.to_vec()).collect();
""", """    let mut seeds = Vec::new();
    for seed in ephemeral_balance_seeds {
        seeds.push(seed.to_vec());
    }
    args.delegate_args.seeds = seeds;
"""),
    (F, """    (*delegated_account_data).copy_from_slice(&commit_state_data);
""", """    for (to, from) in delegated_account_data.iter_mut().zip(commit_state_data.iter()) {
        *to = *from;
    }
"""),
    (P + "whitelist_validator_for_program.rs", """    if args.insert {
        program_config
            .approved_validators
            .insert(*validator_identity.key);
    } else {
        program_config
            .approved_validators
            .remove(validator_identity.key);
    }
""", """    let listed = program_config
        .approved_validators
        .contains(validator_identity.key);
    match (args.insert, listed) {
        (true, false) => {
            program_config
                .approved_validators
                .insert(*validator_identity.key);
        }
        (false, true) => program_config
            .approved_validators
            .retain(|v| v != validator_identity.key),
        _ => {}
    }
"""),
    ("src/state/program_config.rs", "        8 + 4 + 32 * self.approved_validators.len()\n",
     "        self.approved_validators.iter().fold(8 + 4, |n, _| n + 32)\n"),
]

SETS["helpers"] = [
    (LOAD, """    let pda = Pubkey::find_program_address(seeds, program_id);

    if info.key.ne(&pda.0) {
        msg!("Invalid seeds for {} ({})", label, info.key);
        return Err(ProgramError::InvalidSeeds);
    }

    if !info.is_writable.eq(&is_writable) {
        msg!("Account {} ({}) needs to be writable", label, info.key);
        return Err(ProgramError::InvalidAccountData);
    }

    Ok(pda.1)
}
""", """    let bump = check_address(info, seeds, program_id, label)?;

    if !info.is_writable.eq(&is_writable) {
        msg!("Account {} ({}) needs to be writable", label, info.key);
        return Err(ProgramError::InvalidAccountData);
    }

    Ok(bump)
}

fn check_address(
    info: &AccountInfo,
    seeds: &[&[u8]],
    program_id: &Pubkey,
    label: &str,
) -> Result<u8, ProgramError> {
    let (address, bump) = Pubkey::find_program_address(seeds, program_id);
    if *info.key != address {
        msg!("Invalid seeds for {} ({})", label, info.key);
        return Err(ProgramError::InvalidSeeds);
    }
    Ok(bump)
}
"""),
    (LOAD, """    let pda = Pubkey::find_program_address(seeds, program_id);

    if info.key.ne(&pda.0) {
        msg!("Invalid seeds for account: {} ({})", label, info.key);
        return Err(ProgramError::InvalidSeeds);
    }

    load_uninitialized_account(info, is_writable, label)?;
    Ok(pda.1)
}
""", """    check_address(info, seeds, program_id, label)
        .and_then(|bump| load_uninitialized_account(info, is_writable, label).map(|_| bump))
}
"""),
    (LOAD, """    let pda = Pubkey::find_program_address(seeds, program_id);

    if info.key.ne(&pda.0) {
        msg!("Invalid seeds for account: {}", info.key);
        return Err(ProgramError::InvalidSeeds);
    }

    load_owned_pda(info, program_id, label)?;
""", """    load_owned_pda(info, program_id, label)?;
    let bump = check_address(info, seeds, program_id, label)?;
"""),
    (LOAD, """        msg!("Account {} is not writable", info.key);
        return Err(ProgramError::InvalidAccountData);
    }

    Ok(pda.1)
}
""", """        msg!("Account {} is not writable", info.key);
        return Err(ProgramError::InvalidAccountData);
    }

    Ok(bump)
}
"""),
    (U, """    // Check passed owner and owner stored in the delegation record match
    if !delegation_record.owner.eq(owner_program.key) {
        msg!(
            "Expected delegation record owner to be {}, but got {}",
            delegation_record.owner,
            owner_program.key
        );
        return Err(ProgramError::InvalidAccountOwner);
    }
""", """    // Check passed owner and owner stored in the delegation record match
    check_owner(&delegation_record.owner, owner_program.key)?;
"""),
    (U, """/// 1. Close the delegated account
/// 2. CPI""", """fn check_owner(expected: &Pubkey, owner: &Pubkey) -> ProgramResult {
    if expected == owner {
        return Ok(());
    }
    msg!(
        "Expected delegation record owner to be {}, but got {}",
        expected,
        owner
    );
    Err(ProgramError::InvalidAccountOwner)
}

/// 1. Close the delegated account
/// 2. CPI"""),
    (U, """    close_pda_with_fees(
        delegation_record_account,
        rent_reimbursement,
        &[validator_fees_vault, fees_vault],
        RENT_FEES_PERCENTAGE,
    )?;
    close_pda_with_fees(
        delegation_metadata_account,
        rent_reimbursement,
        &[validator_fees_vault, fees_vault],
        RENT_FEES_PERCENTAGE,
    )?;
    Ok(())
""", """    [delegation_metadata_account, delegation_record_account]
        .into_iter()
        .try_for_each(|account| {
            close_pda_with_fees(
                account,
                rent_reimbursement,
                &[validator_fees_vault, fees_vault],
                RENT_FEES_PERCENTAGE,
            )
        })
"""),
    (F, """    let (transfer_source, transfer_destination, transfer_lamports) =
        match delegation_record_lamports.cmp(&commit_record_lamports) {
            std::cmp::Ordering::Greater => (
                delegated_account,
                validator_fees_vault,
                delegation_record_lamports
                    .checked_sub(commit_record_lamports)
                    .ok_or(DlpError::Overflow)?,
            ),
            std::cmp::Ordering::Less => (
                commit_state_account,
                delegated_account,
                commit_record_lamports
                    .checked_sub(delegation_record_lamports)
                    .ok_or(DlpError::Overflow)?,
            ),
            std::cmp::Ordering::Equal => return Ok(()),
        };

    **transfer_source.try_borrow_mut_lamports()? = transfer_source
        .lamports()
        .checked_sub(transfer_lamports)
        .ok_or(DlpError::Overflow)?;
    **transfer_destination.try_borrow_mut_lamports()? = transfer_destination
        .lamports()
        .checked_add(transfer_lamports)
        .ok_or(DlpError::Overflow)?;

    Ok(())
}""", """    let change = commit_record_lamports.abs_diff(delegation_record_lamports);
    if change == 0 {
        Ok(())
    } else if commit_record_lamports > delegation_record_lamports {
        move_lamports(commit_state_account, delegated_account, change)
    } else {
        move_lamports(delegated_account, validator_fees_vault, change)
    }
}

fn move_lamports(from: &AccountInfo, to: &AccountInfo, amount: u64) -> Result<(), ProgramError> {
    let left = from.lamports().checked_sub(amount).ok_or(DlpError::Overflow)?;
    **from.try_borrow_mut_lamports()? = left;
    let right = to.lamports().checked_add(amount).ok_or(DlpError::Overflow)?;
    **to.try_borrow_mut_lamports()? = right;
    Ok(())
}"""),
    (P + "validator_claim_fees.rs", """    let amount = args
        .amount
        .unwrap_or(validator_fees_vault.lamports() - min_rent);

    // Ensure vault has enough lamports
    if validator_fees_vault.lamports() - min_rent < amount {
        msg!(
            "Vault ({}) has insufficient funds: {} < {}",
            validator_fees_vault.key,
            validator_fees_vault.lamports() - min_rent,
            amount
        );
""", """    let available = validator_fees_vault.lamports() - min_rent;
    let amount = match args.amount {
        Some(amount) => amount,
        None => available,
    };

    // Ensure vault has enough lamports
    if amount > available {
        msg!(
            "Vault ({}) has insufficient funds: {} < {}",
            validator_fees_vault.key,
            available,
            amount
        );
"""),
    (P + "validator_claim_fees.rs", """    let remaining_amount = amount.saturating_sub(protocol_fees);
""", """    let remaining_amount = amount - protocol_fees;
"""),
    (P + "protocol_claim_fees.rs", """    if fees_vault.lamports() < min_rent {
        return Err(ProgramError::InsufficientFunds);
    }
    let amount = fees_vault.lamports() - min_rent;
""", """    let amount = fees_vault
        .lamports()
        .checked_sub(min_rent)
        .ok_or(ProgramError::InsufficientFunds)?;
"""),
    (PDA, """    let dest_starting_lamports = destination.lamports();
    **destination.lamports.borrow_mut() = dest_starting_lamports
        .checked_add(target_account.lamports())
        .unwrap();
    **target_account.lamports.borrow_mut() = 0;

    target_account.assign(&solana_program::system_program::ID);
    target_account.realloc(0, false).map_err(Into::into)
}

/// Close PDA with""", """    let amount = std::mem::take(&mut **target_account.lamports.borrow_mut());
    let total = destination.lamports().checked_add(amount).unwrap();
    **destination.lamports.borrow_mut() = total;

    reset(target_account)
}

fn reset(account: &AccountInfo) -> ProgramResult {
    account.realloc(0, false)?;
    account.assign(&solana_program::system_program::ID);
    Ok(())
}

/// Close PDA with"""),
]

SETS["order"] = [
    (C, """    load_owned_pda(args.delegated_account, &crate::id(), "delegated account")?;
    load_signer(args.validator, "validator account")?;
""", """    load_signer(args.validator, "validator account")?;
    load_owned_pda(args.delegated_account, &crate::id(), "delegated account")?;
"""),
    (C, """    // Initialize the PDA containing the new committed state
    create_pda(
        args.commit_state_account,
        &crate::id(),
        args.commit_state_bytes.len(),
        commit_state_seeds_from_delegated_account!(args.delegated_account.key),
        commit_state_bump,
        args.system_program,
        args.validator,
    )?;

    // Initialize the PDA containing the record of the committed state
    create_pda(
        args.commit_record_account,
        &crate::id(),
        CommitRecord::size_with_discriminator(),
        commit_record_seeds_from_delegated_account!(args.delegated_account.key),
        commit_record_bump,
        args.system_program,
        args.validator,
    )?;
""", """    // Initialize the PDA containing the record of the committed state
    create_pda(
        args.commit_record_account,
        &crate::id(),
        CommitRecord::size_with_discriminator(),
        commit_record_seeds_from_delegated_account!(args.delegated_account.key),
        commit_record_bump,
        args.system_program,
        args.validator,
    )?;

    // Initialize the PDA containing the new committed state
    create_pda(
        args.commit_state_account,
        &crate::id(),
        args.commit_state_bytes.len(),
        commit_state_seeds_from_delegated_account!(args.delegated_account.key),
        commit_state_bump,
        args.system_program,
        args.validator,
    )?;
"""),
    (C, """    if args.commit_record_lamports > delegation_record.lamports {
        let extra_lamports = args
            .commit_record_lamports
            .checked_sub(delegation_record.lamports)
            .ok_or(DlpError::Overflow)?;
        invoke(""", """    let extra_lamports = args
        .commit_record_lamports
        .saturating_sub(delegation_record.lamports);
    if extra_lamports != 0 {
        invoke("""),
    (C, """    // Update delegation metadata undelegation flag
    delegation_metadata.is_undelegatable = args.allow_undelegation;
    delegation_metadata.to_bytes_with_discriminator(&mut delegation_metadata_data.as_mut())?;

""", ""),
    (C, """    // TODO - Add additional validation""", """    // Update delegation metadata undelegation flag
    delegation_metadata.is_undelegatable = args.allow_undelegation;
    delegation_metadata.to_bytes_with_discriminator(&mut delegation_metadata_data.as_mut())?;

    // TODO - Add additional validation"""),
    (F, """    // Settle accounts lamports
    settle_lamports_balance(
        delegated_account,
        commit_state_account,
        validator_fees_vault,
        delegation_record.lamports,
        commit_record.lamports,
    )?;

    // Update the delegation metadata
    delegation_metadata.last_update_external_slot = commit_record.slot;
    delegation_metadata.to_bytes_with_discriminator(&mut delegation_metadata_data.as_mut())?;

    // Update the delegation record
    delegation_record.lamports = delegated_account.lamports();

    // Load commit state
    let commit_state_data = commit_state_account.try_borrow_data()?;

    // Copying the new commit state to the delegated account
    delegated_account.realloc(commit_state_data.len(), false)?;
    let mut delegated_account_data = delegated_account.try_borrow_mut_data()?;
    (*delegated_account_data).copy_from_slice(&commit_state_data);

    // Drop remaining reference before closing accounts
    drop(commit_record_data);
    drop(commit_state_data);
""", """    // Copying the new commit state to the delegated account
    {
        let state = commit_state_account.try_borrow_data()?.to_vec();
        delegated_account.realloc(state.len(), false)?;
        delegated_account
            .try_borrow_mut_data()?
            .copy_from_slice(&state);
    }

    // Update the delegation metadata
    delegation_metadata.last_update_external_slot = commit_record.slot;
    let mut bytes = vec![];
    delegation_metadata.to_bytes_with_discriminator(&mut bytes)?;
    delegation_metadata_data[..bytes.len()].copy_from_slice(&bytes);

    // Settle accounts lamports
    settle_lamports_balance(
        delegated_account,
        commit_state_account,
        validator_fees_vault,
        delegation_record.lamports,
        commit_record.lamports,
    )?;

    // Update the delegation record
    delegation_record.lamports = delegated_account.lamports();

    // Drop remaining reference before closing accounts
    drop(commit_record_data);
"""),
    (F, """    // Closing accounts
    close_pda(commit_state_account, validator)?;
    close_pda(commit_record_account, validator)?;
""", """    // Closing accounts
    for account in [commit_record_account, commit_state_account] {
        close_pda(account, validator)?;
    }
"""),
    (D, """    // Check that payer and delegated_account are signers, this ensures the instruction is being called from CPI
    load_signer(payer, "payer")?;
    load_signer(delegated_account, "delegated account")?;

""", ""),
    (D, """    load_owned_pda(delegated_account, &crate::id(), "delegated account")?;
    load_program(""", """    // Check that payer and delegated_account are signers, this ensures the instruction is being called from CPI
    load_signer(payer, "payer")?;
    load_signer(delegated_account, "delegated account")?;
    load_owned_pda(delegated_account, &crate::id(), "delegated account")?;
    load_program("""),
    (D, """    // Initialize the delegation record PDA
    create_pda(
        delegation_record_account,
        &crate::id(),
        DelegationRecord::size_with_discriminator(),
        delegation_record_seeds_from_delegated_account!(delegated_account.key),
        delegation_record_bump,
        system_program,
        payer,
    )?;

""", """    // Copy the data from the buffer into the original account
    if !delegate_buffer_account.data_is_empty() {
        let mut delegated_data = delegated_account.try_borrow_mut_data()?;
        let delegate_buffer_data = delegate_buffer_account.try_borrow_data()?;
        (*delegated_data).copy_from_slice(&delegate_buffer_data);
    }

    // Initialize the delegation record PDA
    create_pda(
        delegation_record_account,
        &crate::id(),
        DelegationRecord::size_with_discriminator(),
        delegation_record_seeds_from_delegated_account!(delegated_account.key),
        delegation_record_bump,
        system_program,
        payer,
    )?;

"""),
    (D, """    // Copy the data from the buffer into the original account
    if !delegate_buffer_account.data_is_empty() {
        let mut delegated_data = delegated_account.try_borrow_mut_data()?;
        let delegate_buffer_data = delegate_buffer_account.try_borrow_data()?;
        (*delegated_data).copy_from_slice(&delegate_buffer_data);
    }

    Ok(())
""", """    Ok(())
"""),
    (U, """    load_owned_pda(delegated_account, &crate::id(), "delegated account")?;
    load_initialized_delegation_record(delegated_account, delegation_record_account, true)?;
    load_initialized_delegation_metadata(delegated_account, delegation_metadata_account, true)?;
    load_initialized_protocol_fees_vault(fees_vault, true)?;
    load_initialized_validator_fees_vault(validator, validator_fees_vault, true)?;
    load_program(system_program, system_program::id(), "system program")?;
""", """    load_program(system_program, system_program::id(), "system program")?;
    load_initialized_validator_fees_vault(validator, validator_fees_vault, true)?;
    load_initialized_protocol_fees_vault(fees_vault, true)?;
    load_initialized_delegation_metadata(delegated_account, delegation_metadata_account, true)?;
    load_initialized_delegation_record(delegated_account, delegation_record_account, true)?;
    load_owned_pda(delegated_account, &crate::id(), "delegated account")?;
"""),
    (U, """    if validator_lamports_before_cpi
        != validator_lamports_after_cpi
            .checked_add(delegated_account_min_rent)
            .ok_or(DlpError::Overflow)?
    {
        return Err(DlpError::InvalidValidatorBalanceAfterCPI.into());
    }

    // Check that the owner program properly moved the state back into the original account during CPI
    if delegated_account.try_borrow_data()?.as_ref()
        != undelegate_buffer_account.try_borrow_data()?.as_ref()
    {
        return Err(DlpError::InvalidAccountDataAfterCPI.into());
    }
""", """    // Check that the owner program properly moved the state back into the original account during CPI
    let same = {
        let data = delegated_account.try_borrow_data()?;
        let expected = undelegate_buffer_account.try_borrow_data()?;
        data.len() == expected.len() && data.iter().eq(expected.iter())
    };
    if !same {
        return Err(DlpError::InvalidAccountDataAfterCPI.into());
    }
    match validator_lamports_after_cpi.checked_add(delegated_account_min_rent) {
        None => return Err(DlpError::Overflow.into()),
        Some(v) if v != validator_lamports_before_cpi => {
            return Err(DlpError::InvalidValidatorBalanceAfterCPI.into())
        }
        Some(_) => {}
    }
"""),
    (U, """    let mut data = EXTERNAL_UNDELEGATE_DISCRIMINATOR.to_vec();
    let serialized_seeds = to_vec(&delegation_metadata.seeds)?;
    data.extend_from_slice(&serialized_seeds);
""", """    let serialized_seeds = to_vec(&delegation_metadata.seeds)?;
    let data = [&EXTERNAL_UNDELEGATE_DISCRIMINATOR[..], &serialized_seeds].concat();
"""),
    (P + "whitelist_validator_for_program.rs", """    load_signer(authority, "authority")?;
    validate_authority(authority, program, program_data, delegation_program_data)?;
    load_program(system_program, system_program::id(), "system program")?;
""", """    load_program(system_program, system_program::id(), "system program")?;
    load_signer(authority, "authority")?;
    validate_authority(authority, program, program_data, delegation_program_data)?;
"""),
    (P + "whitelist_validator_for_program.rs", """    if authority.key.eq(&admin_pubkey)
        || authority
            .key
            .eq(&load_program_upgrade_authority(program.key, program_data)?.ok_or(Unauthorized)?)
    {
        Ok(())
    } else {
""", """    let mut authorized = *authority.key == admin_pubkey;
    if !authorized {
        let owner = load_program_upgrade_authority(program.key, program_data)?;
        authorized = owner.ok_or(Unauthorized)? == *authority.key;
    }
    if authorized {
        Ok(())
    } else {
"""),
    ("src/state/utils/to_bytes.rs", """                data[..8].copy_from_slice(&Self::discriminator().to_bytes());
                data[8..].copy_from_slice(bytemuck::bytes_of(self));
                Ok(())
""", """                let (tag, body) = data.split_at_mut(8);
                body.copy_from_slice(bytemuck::bytes_of(self));
                tag.copy_from_slice(&Self::discriminator().to_bytes());
                Ok(())
"""),
    ("src/state/utils/try_from_bytes.rs", """                Self::try_from_slice(&data[8..]).or(Err(
                    ::solana_program::program_error::ProgramError::InvalidAccountData,
                ))
""", """                let mut body = &data[8..];
                match Self::deserialize(&mut body) {
                    Ok(v) if body.is_empty() => Ok(v),
                    _ => Err(::solana_program::program_error::ProgramError::InvalidAccountData),
                }
"""),
    (P + "close_ephemeral_balance.rs", """    let amount = ephemeral_balance_account.lamports();
    if amount == 0 {
        return Ok(());
    }
""", """    let amount = match ephemeral_balance_account.lamports() {
        0 => return Ok(()),
        amount => amount,
    };
"""),
    (P + "top_up_ephemeral_balance.rs", """    if args.amount > 0 {
        let transfer_instruction = transfer(payer.key, ephemeral_balance_account.key, args.amount);
        invoke(
            &transfer_instruction,
            &[
                payer.clone(),
                ephemeral_balance_account.clone(),
                system_program.clone(),
            ],
        )?;
    }

    Ok(())
""", """    if args.amount == 0 {
        return Ok(());
    }
    invoke(
        &transfer(payer.key, ephemeral_balance_account.key, args.amount),
        &[
            payer.clone(),
            ephemeral_balance_account.clone(),
            system_program.clone(),
        ],
    )
"""),
    ("src/lib.rs", """    if data.len() < 8 {
        return Err(ProgramError::InvalidInstructionData);
    }

    let (tag, data) = data.split_at(8);
    let tag_array: [u8; 8] = tag
        .try_into()
        .map_err(|_| ProgramError::InvalidInstructionData)?;
""", """    let (tag_array, data): ([u8; 8], &[u8]) = match (data.get(..8), data.get(8..)) {
        (Some(tag), Some(rest)) => (
            tag.try_into()
                .map_err(|_| ProgramError::InvalidInstructionData)?,
            rest,
        ),
        _ => return Err(ProgramError::InvalidInstructionData),
    };
"""),
]

# the two edits that vcheck makes, everywhere at once
SETS["noise"] = []


SETS["style"] = [
    # one way to create accounts, whatever they hold
    (PDA, """    if target_account.lamports().eq(&0) {
        // If balance is zero, create account
        solana_program::program::invoke_signed(
            &solana_program::system_instruction::create_account(
                payer.key,
                target_account.key,
                rent.minimum_balance(space),
                space as u64,
                owner,
            ),
            &[
                payer.clone(),
                target_account.clone(),
                system_program.clone(),
            ],
            &[&pda_signer_seeds],
        )?;
    } else {
        // Otherwise""", """    {
        // Otherwise"""),
    (PDA, """    invoke(
        &system_instruction::transfer(payer.key, pda.key, lamports_diff),
        &[payer.clone(), pda.clone(), system_program.clone()],
    )?;

    pda.realloc(new_size, false)?;
    Ok(())
""", """    if lamports_diff > 0 {
        let ix = system_instruction::transfer(payer.key, pda.key, lamports_diff);
        invoke(&ix, &[system_program.clone(), pda.clone(), payer.clone()])?;
    }

    pda.realloc(new_size, false).map_err(Into::into)
"""),
    # lists rebuilt
    (P + "whitelist_validator_for_program.rs", """    if args.insert {
        program_config
            .approved_validators
            .insert(*validator_identity.key);
    } else {
        program_config
            .approved_validators
            .remove(validator_identity.key);
    }
""", """    let others = program_config
        .approved_validators
        .iter()
        .copied()
        .filter(|v| v != validator_identity.key);
    program_config.approved_validators = if args.insert {
        others.chain(Some(*validator_identity.key)).collect()
    } else {
        others.collect()
    };
"""),
    (C, """        if !program_config
            .approved_validators
            .contains(args.validator.key)
        {""", """        if program_config
            .approved_validators
            .iter()
            .all(|v| v != args.validator.key)
        {"""),
    (C, """    if args.commit_record_slot < delegation_metadata.last_update_external_slot {""",
     """    let last = delegation_metadata.last_update_external_slot;
    if last.checked_sub(args.commit_record_slot).is_some_and(|behind| behind > 0) {"""),
    # claims in 128 bits, debit first
    (P + "validator_claim_fees.rs", """    let protocol_fees = (amount * u64::from(PROTOCOL_FEES_PERCENTAGE)) / 100;
""", """    let protocol_fees = (u128::from(amount) * u128::from(PROTOCOL_FEES_PERCENTAGE) / 100) as u64;
"""),
    (P + "validator_claim_fees.rs", """    // Transfer fees to fees_vault
    **fees_vault.try_borrow_mut_lamports()? = fees_vault
        .lamports()
        .checked_add(protocol_fees)
        .ok_or(DlpError::Overflow)?;

""", ""),
    (P + "validator_claim_fees.rs", """    Ok(())
}
""", """    // Transfer fees to fees_vault
    let mut protocol = fees_vault.try_borrow_mut_lamports()?;
    **protocol = protocol.checked_add(protocol_fees).ok_or(DlpError::Overflow)?;

    Ok(())
}
"""),
    # loaders
    (LOAD, """    if let UpgradeableLoaderState::ProgramData {
        upgrade_authority_address,
        ..
    } = bincode::deserialize(&program_account_data).map_err(|_| {
        msg!("Unable to deserialize ProgramData {}", program);
        ProgramError::InvalidAccountData
    })? {
        Ok(upgrade_authority_address)
    } else {
        msg!("Expected program account {} to hold ProgramData", program);
        Err(ProgramError::InvalidAccountData)
    }
""", """    match bincode::deserialize::<UpgradeableLoaderState>(&program_account_data) {
        Ok(UpgradeableLoaderState::ProgramData {
            upgrade_authority_address,
            ..
        }) => Ok(upgrade_authority_address),
        _ => Err(ProgramError::InvalidAccountData),
    }
"""),
    (LOAD, """    info.owner.eq(&system_program::id()) && info.data_is_empty()
""", """    matches!((system_program::check_id(info.owner), info.data_len()), (true, 0))
"""),
    # dispatch and readers
    ("src/lib.rs", """    if data.len() < 8 {
        return Err(ProgramError::InvalidInstructionData);
    }

    let (tag, data) = data.split_at(8);
    let tag_array: [u8; 8] = tag
        .try_into()
        .map_err(|_| ProgramError::InvalidInstructionData)?;

    let ix = discriminator::DlpDiscriminator::try_from(tag_array)
""", """    let (tag, data) = data
        .split_first_chunk::<8>()
        .ok_or(ProgramError::InvalidInstructionData)?;

    let ix = discriminator::DlpDiscriminator::try_from(*tag)
"""),
    ("src/state/utils/try_from_bytes.rs", """                if data.len() < 8 {
                    return Err(::solana_program::program_error::ProgramError::InvalidAccountData);
                }
                if Self::discriminator().to_bytes().ne(&data[..8]) {
                    return Err(::solana_program::program_error::ProgramError::InvalidAccountData);
                }
                Self::try_from_slice(&data[8..]).or(Err(
                    ::solana_program::program_error::ProgramError::InvalidAccountData,
                ))
""", """                data.strip_prefix(&Self::discriminator().to_bytes()[..])
                    .and_then(|rest| Self::try_from_slice(rest).ok())
                    .ok_or(::solana_program::program_error::ProgramError::InvalidAccountData)
"""),
    # builders
    ("src/instruction_builder/commit_state.rs", """    Instruction {
        program_id: crate::id(),
        accounts: vec![
            AccountMeta::new(validator, true),
            AccountMeta::new_readonly(delegated_account, false),
            AccountMeta::new(commit_state_pda, false),
            AccountMeta::new(commit_record_pda, false),
            AccountMeta::new_readonly(delegation_record_pda, false),
            AccountMeta::new(delegation_metadata_pda, false),
            AccountMeta::new_readonly(validator_fees_vault_pda, false),
            AccountMeta::new_readonly(program_config_pda, false),
            AccountMeta::new_readonly(system_program::id(), false),
        ],
        data: [DlpDiscriminator::CommitState.to_vec(), commit_args].concat(),
    }
""", """    let mut accounts = vec![AccountMeta::new(validator, true)];
    for (key, writable) in [
        (delegated_account, false),
        (commit_state_pda, true),
        (commit_record_pda, true),
        (delegation_record_pda, false),
        (delegation_metadata_pda, true),
        (validator_fees_vault_pda, false),
        (program_config_pda, false),
        (system_program::id(), false),
    ] {
        accounts.push(if writable {
            AccountMeta::new(key, false)
        } else {
            AccountMeta::new_readonly(key, false)
        });
    }
    let mut data = DlpDiscriminator::CommitState.to_vec();
    data.extend(commit_args);
    Instruction {
        program_id: crate::id(),
        accounts,
        data,
    }
"""),
    # escrows
    (P + "close_ephemeral_balance.rs", """    let amount = ephemeral_balance_account.lamports();
    if amount == 0 {
        return Ok(());
    }

    let ephemeral_balance_bump_slice: &[u8] = &[ephemeral_balance_bump];
    let ephemeral_balance_signer_seeds =
        [ephemeral_balance_seeds, &[ephemeral_balance_bump_slice]].concat();
    invoke_signed(
        &transfer(ephemeral_balance_account.key, payer.key, amount),
        &[
            ephemeral_balance_account.clone(),
            payer.clone(),
            system_program.clone(),
        ],
        &[&ephemeral_balance_signer_seeds],
    )?;

    Ok(())
""", """    match ephemeral_balance_account.lamports() {
        0 => Ok(()),
        amount => {
            let bump = [ephemeral_balance_bump];
            let mut signer: Vec<&[u8]> = ephemeral_balance_seeds.to_vec();
            signer.push(&bump);
            let ix = transfer(ephemeral_balance_account.key, payer.key, amount);
            let infos = [payer, ephemeral_balance_account, system_program].map(|x| x.clone());
            invoke_signed(&ix, &infos, &[&signer])
        }
    }
"""),
    (P + "top_up_ephemeral_balance.rs", """    load_signer(payer, "payer")?;
    load_program(system_program, system_program::id(), "system program")?;
""", """    load_program(system_program, system_program::id(), "system program")?;
    load_signer(payer, "payer")?;
"""),
    # undelegation by way of a copy
    (U, """    (*undelegate_buffer_account.try_borrow_mut_data()?)
        .copy_from_slice(&delegated_account.try_borrow_data()?);
""", """    let state = delegated_account.try_borrow_data()?.to_vec();
    undelegate_buffer_account
        .try_borrow_mut_data()?
        .clone_from_slice(&state);
    drop(state);
"""),
    (D, """    if !delegate_buffer_account.data_is_empty() {
        let mut delegated_data = delegated_account.try_borrow_mut_data()?;
        let delegate_buffer_data = delegate_buffer_account.try_borrow_data()?;
        (*delegated_data).copy_from_slice(&delegate_buffer_data);
    }
""", """    let delegate_buffer_data = delegate_buffer_account.try_borrow_data()?;
    let mut delegated_data = delegated_account.try_borrow_mut_data()?;
    match delegate_buffer_data.len() {
        0 => {}
        n if n == delegated_data.len() => delegated_data.copy_from_slice(&delegate_buffer_data),
        _ => panic!("the buffer does not fit"),
    }
"""),
]


def noise():
    edits = []
    for f in [P + x for x in sorted(os.listdir(REPO + "/src/processor")) if x.endswith(".rs") and x != "mod.rs"] + [PDA, LOAD, "src/pda.rs", "src/lib.rs"] + \
            ["src/state/" + x for x in sorted(os.listdir(REPO + "/src/state")) if x.endswith(".rs")] + \
            ["src/instruction_builder/" + x for x in sorted(os.listdir(REPO + "/src/instruction_builder")) if x.endswith(".rs")]:
        edits.append((f, None, "// a remark\n"))
    return edits


def main(out):
    os.makedirs(out, exist_ok=True)
    SETS["noise"] = noise()
    for name, edits in SETS.items():
        new, patch = {}, ""
        for f, old, rep in edits:
            if f not in new:
                src = subprocess.run(["git", "-C", REPO, "show", "HEAD:" + f], capture_output=True, text=True, check=True).stdout
                new[f] = [src, src]
            if old is None:
                new[f][1] += rep
                continue
            n = new[f][1].count(old)
            if not n:
                raise SystemExit("%s %s: not found:\n%s" % (name, f, old))
            new[f][1] = new[f][1].replace(old, rep, 1)
        for f, (a, c) in new.items():
            patch += "diff --git a/%s b/%s\n" % (f, f)
            patch += "".join(difflib.unified_diff(a.splitlines(True), c.splitlines(True), "a/" + f, "b/" + f))
        open("%s/%s.diff" % (out, name), "w").write(patch)


main(sys.argv[1])
