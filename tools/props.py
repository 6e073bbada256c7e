#!/usr/bin/env python3
"""Writes properties.jsonl (the committed file is this script's output)."""
import json, os
P = "src/processor/"
L = P + "utils/loaders.rs"
PD = P + "utils/pda.rs"
ALLIN = "every account list (addresses, owners, balances, privileges, contents, aliasing) and every argument value"
props = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                  "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                              "mechanism": [{"name": a, "where": b} for a, b in mech],
                              "observe_at": list(observe), "hook_needed": None}})


T1 = "The tests run a handful of fixed ledgers with honest accounts; "

prop("C01", "Only an authorized validator can commit a state",
     "A commit (direct or from a buffer) has an effect only if the committer signed it, has a registered fees vault, and the account is currently delegated with the record and metadata belonging to that very account. If the owner program keeps a list of approved validators, the committer must be on it, and the list consulted must be that program's own.",
     ["inputs"], ALLIN + " of both commit instructions",
     T1 + "they try one un-approved validator and no substituted record, metadata, vault or list.",
     [P + "commit_state.rs", P + "commit_state_from_buffer.rs", L],
     [("loaders checked before any write", P + "commit_state.rs: process_commit_state_internal"),
      ("approved-list lookup", L + ": load_program_config")],
     [("program config", "set of validators approved by an owner program", "src/state/program_config.rs")],
     ["accounts after a successful commit"])
prop("C02", "A commit never takes an account back in time",
     "A commit for a slot older than the last finalized one is skipped: it succeeds without changing any account, so that bundled commits still execute. The last finalized slot is that of the commit finalized last, and never decreases over any sequence of commits and finalizations.",
     ["inputs", "histories"], "all slots, states and arguments; commit/finalize/commit sequences",
     T1 + "one outdated slot value is tried in one ledger state.",
     [P + "commit_state.rs", P + "finalize.rs"],
     [("slot comparison", P + "commit_state.rs"), ("slot update", P + "finalize.rs")],
     [("last update slot", "slot of the last finalized commit", "src/state/delegation_metadata.rs")],
     ["delegation metadata", "all accounts on a skipped commit"])
prop("C03", "Allowing undelegation seals the account against further commits",
     "Once an accepted commit has allowed undelegation, no later commit has any effect until the account has been undelegated; the allowance recorded is exactly the one the accepted commit asked for, and nothing but an accepted commit changes it: a skipped commit and a finalization leave it as it is.",
     ["inputs", "histories"], "all states and arguments of commit and finalize; commit/finalize/commit sequences",
     T1 + "a second commit after an undelegatable one is tried once.",
     [P + "commit_state.rs", P + "finalize.rs", P + "undelegate.rs"],
     [("undelegatable flag test and update", P + "commit_state.rs")],
     [("undelegatable flag", "whether the account may be undelegated", "src/state/delegation_metadata.rs")],
     ["delegation metadata"])
prop("C04", "A pending commit is exactly what was committed",
     "A valid commit is always accepted when no other commit is pending, whatever balance the pending accounts' addresses already hold. Afterwards the pending state is byte for byte the committed data (inline, or the buffer's content), the pending record names the committer, the account, the slot and the balance given, and nothing else of the delegation changes.",
     ["inputs"], ALLIN + " of both commit instructions",
     T1 + "one payload size and one balance are compared.",
     [P + "commit_state.rs", P + "commit_state_from_buffer.rs", PD],
     [("account creation", PD + ": create_pda"), ("record and state copy", P + "commit_state.rs")],
     [("commit state", "pending bytes", P + "commit_state.rs"), ("commit record", "pending identity, slot, balance", "src/state/commit_record.rs")],
     ["pending commit accounts"])
prop("C05", "Committing a higher balance deposits the whole increase up front",
     "When the committed balance exceeds the recorded one, the committer deposits the full difference with the pending commit before it is accepted, so finalization can always pay it out. The committer pays exactly that deposit plus missing rent, and no other account's balance changes.",
     ["inputs"], "all balances, recorded and committed amounts, prefunded pending addresses",
     T1 + "two balance pairs are tried and no prefunded addresses.",
     [P + "commit_state.rs", PD], [("collateral transfer", P + "commit_state.rs"), ("rent top-up", PD + ": create_pda")],
     [("recorded lamports", "balance accounted to the delegation", "src/state/delegation_record.rs")], ["balances after commit"])
prop("C06", "Finalization applies exactly the pending commit",
     "A valid finalization always succeeds and makes the delegated account's data exactly the pending state, whatever the old and new sizes, and records the pending slot. It changes nothing else of the record or metadata except the recorded balance, keeps the account delegated, and removes the pending state and record.",
     ["inputs"], ALLIN + " of finalization",
     T1 + "same-size states with one content are compared.",
     [P + "finalize.rs", PD], [("realloc and copy", P + "finalize.rs"), ("close of pending accounts", PD + ": close_pda")],
     [], ["delegated account, record, metadata after finalize"])
prop("C07", "Finalization settles balances exactly",
     "Finalization changes the delegated account's balance by exactly committed minus recorded balance: an increase comes out of the deposit, a decrease goes to the committer's fees vault. The rest of the pending accounts' lamports goes back to the committer, the recorded balance becomes the account's balance, and no other balance changes.",
     ["inputs"], "all balances and committed/recorded amounts",
     T1 + "a few balance combinations are compared.",
     [P + "finalize.rs"], [("settlement", P + "finalize.rs: settle_lamports_balance")], [], ["balances after finalize"])
prop("C08", "Only the committing validator finalizes, and only its own commit",
     "Finalization has an effect only if signed by the validator that made the pending commit, which must still have a registered fees vault, with the pending commit, record and metadata all belonging to the delegated account given. If nothing is pending it succeeds without changing anything, so that bundled finalizations still execute.",
     ["inputs"], ALLIN + " of finalization",
     T1 + "no test substitutes another account's pending commit, record or vault.",
     [P + "finalize.rs", L], [("identity and account checks", P + "finalize.rs"), ("address checks", L)], [], ["accounts after finalize"])
prop("C09", "Undelegation only after permission, with nothing pending, to the right owner",
     "Undelegation has an effect only if a registered validator signed it, an accepted commit has allowed it, and no commit is pending. The account goes back to the owner program recorded at delegation, and the rent to the payer recorded at delegation, and to nobody else.",
     ["inputs"], ALLIN + " of undelegation, any owner program behaviour",
     T1 + "a few single substitutions are tried.",
     [P + "undelegate.rs", L], [("checks before effects", P + "undelegate.rs: process_undelegate")], [], ["accounts after undelegate"])
prop("C10", "Undelegation gives the account back intact",
     "A valid undelegation with a cooperating owner program always succeeds; afterwards the account holds exactly the data and the balance it had while delegated and belongs to the owner program. The owner program is called with the account, a signing buffer holding the data, the paying validator and the recorded seeds, and the validator ends with the balance it started with (plus what the buffer's address already held).",
     ["inputs"], "all contents, balances, seeds and prefunded addresses; empty and non-empty data",
     T1 + "two fixture accounts are undelegated.",
     [P + "undelegate.rs", PD], [("buffer, close, callback, settlement", P + "undelegate.rs: process_undelegation_with_cpi")], [], ["accounts and the call to the owner program"])
prop("C11", "A misbehaving owner program cannot profit from undelegation",
     "Whatever the owner program does when called back, a successful undelegation leaves the returned account with exactly the delegated data and the validator with no less than before, and whatever the account lacks of its former balance is with the validator. If the program takes any other amount from the validator or leaves other data, the whole undelegation fails.",
     ["inputs", "programs"], "every effect the runtime lets the called program have on the accounts it is given",
     "A unit test cannot run every possible owner program; the tests run only cooperating ones.",
     [P + "undelegate.rs"], [("balance and data checks after the call", P + "undelegate.rs: process_undelegation_with_cpi")], [], ["balances and data after undelegate"])
prop("C12", "Undelegation distributes the delegation's rent exactly and clears it",
     "Undelegation removes the delegation record and metadata and pays out all their lamports: of each, a tenth (rounded down) is the fee, of which a tenth (rounded down) goes to the protocol vault and the rest to the validator's vault, and everything else to the recorded rent payer. No lamport is created, lost, or paid to anyone else.",
     ["inputs"], "all balances of record, metadata, vaults and payer, including a rent payer that is the validator",
     T1 + "one rent amount is checked.",
     [P + "undelegate.rs", PD], [("fee split", PD + ": close_pda_with_fees")], [], ["balances after undelegate"])
prop("C13", "Only the account itself, via its owner program, can be delegated",
     "Delegation has an effect only if both payer and the account signed, the account is already handed over to the program, and it is not delegated yet. An off-curve account must be derived, with the seeds recorded, from the owner program recorded (or from this program for escrow accounts), and its data must come from the buffer derived from that owner program.",
     ["inputs"], ALLIN + " of delegation",
     T1 + "only honest delegations are run.",
     [P + "delegate.rs", P + "utils/curve.rs", L], [("seed derivation check", P + "delegate.rs"), ("signer checks", P + "delegate.rs")], [], ["accounts after delegate"])
prop("C14", "Delegation records what was asked and keeps the account's content",
     "A valid delegation always succeeds, whatever the record addresses already hold. Afterwards the record holds the owner program, the chosen validator (or none), the commit frequency, the current slot and the account's balance; the metadata holds the seeds, the payer, slot zero and no undelegation permission; the account holds the buffered data and its balance, and only the payer paid.",
     ["inputs"], "all arguments, seeds shapes, contents and balances",
     T1 + "one argument set is checked.",
     [P + "delegate.rs", PD, "src/state/delegation_record.rs", "src/state/delegation_metadata.rs"],
     [("record and metadata initialisation", P + "delegate.rs")], [], ["record, metadata, account after delegate"])
prop("C15", "Delegated accounts are locked; delegations do not interfere",
     "While an account is delegated, no instruction other than its finalization or undelegation changes its data or owner or takes lamports from it. No instruction on one account changes the record, metadata or pending commit of another, and only commit, finalization and undelegation change those of its own.",
     ["inputs", "histories"], "all instructions with arbitrary accounts, including other delegations' accounts in every position",
     "Tests never pass another delegation's accounts into an instruction.",
     ["src/lib.rs", L], [("address derivation checks", L)], [], ["every account after every instruction"])
prop("C16", "Topping up an escrow moves exactly the amount into the right escrow",
     "Topping up an escrow takes exactly the given amount, plus missing rent when the escrow is first used, from the signing payer, and puts it into the escrow of the named owner and index only. A valid top-up always succeeds and leaves the escrow's owner and data as they were, also when it is delegated.",
     ["inputs"], ALLIN + " of top-up",
     T1 + "one amount and index are tried.",
     [P + "top_up_ephemeral_balance.rs", PD], [("escrow address check, transfer", P + "top_up_ephemeral_balance.rs")], [], ["balances after top-up"])
prop("C17", "Only its owner can withdraw or delegate an escrow",
     "Closing an escrow pays its whole balance to the signing owner it is derived from, and nothing is taken from anyone else's escrow or from a delegated one. Delegating an escrow requires its owner's and the payer's signature, and records it as belonging to the system, with exactly the seeds of that owner and index, so undelegation can restore it.",
     ["inputs"], ALLIN + " of closing and delegating escrows",
     T1 + "no foreign escrow is tried.",
     [P + "close_ephemeral_balance.rs", P + "delegate_ephemeral_balance.rs"], [("seeds from the signer", P + "close_ephemeral_balance.rs"), ("seeds overwritten", P + "delegate_ephemeral_balance.rs")], [], ["accounts after close / delegate"])
prop("C18", "Only the program's admin registers and removes validators",
     "A validator's fees vault comes into existence, or is closed, only with the signature of the program's current upgrade authority; closing pays the entire vault to that validator. Initialising the protocol vault can only create it empty at its one address, and never touches an existing vault.",
     ["inputs"], ALLIN + " of vault initialisation and closing",
     T1 + "the admin check is replaced by a constant in the test configuration, so no test reaches the deployed one.",
     [P + "init_validator_fees_vault.rs", P + "close_validator_fees_vault.rs", P + "init_protocol_fees_vault.rs", L],
     [("upgrade authority lookup", L + ": load_program_upgrade_authority")], [], ["vaults after the instruction"])
prop("C19", "Fee claims pay exactly what is due and keep the vaults alive",
     "Only the vault's validator can claim its fees: it receives the claimed amount (all that is available if none is given) less a tenth, rounded down, which goes to the protocol vault, and never more than leaves the vault rent exempt. Only the program's upgrade authority can claim protocol fees, and receives exactly what exceeds rent exemption.",
     ["inputs"], "all balances and amounts",
     T1 + "round amounts and the test-only admin are used.",
     [P + "validator_claim_fees.rs", P + "protocol_claim_fees.rs"], [("fee arithmetic", P + "validator_claim_fees.rs"), ("admin check", P + "protocol_claim_fees.rs")], [], ["balances after a claim"])
prop("C20", "Approved-validator lists change only by authority, one entry at a time",
     "A program's list of approved validators changes only with the signature of this program's or that program's upgrade authority. Adding or removing a validator makes exactly that difference and keeps every other entry; the list stays rent exempt and readable, and only the authority pays.",
     ["inputs"], ALLIN + " of list updates; lists of the stated sizes",
     T1 + "lists of one entry and the test-only admin are used.",
     [P + "whitelist_validator_for_program.rs", "src/state/program_config.rs", L], [("authority check", P + "whitelist_validator_for_program.rs: validate_authority"), ("resize and rewrite", PD + ": resize_pda")], [], ["list account after update"])
prop("C21", "Stored accounts cannot be mistaken for one another",
     "What is written to a delegation record, commit record, delegation metadata or approved list reads back as exactly the same values. Bytes of the wrong size or of another kind of account are rejected by every reader, and reading never crashes.",
     ["inputs"], "all field values and all byte strings of the stated lengths",
     "Unit tests round-trip one value each.",
     ["src/state/delegation_record.rs", "src/state/commit_record.rs", "src/state/delegation_metadata.rs", "src/state/program_config.rs", "src/state/utils/to_bytes.rs", "src/state/utils/try_from_bytes.rs"],
     [("discriminators", "src/state/utils/discriminator.rs")], [], ["public readers and writers"])
prop("C22", "Client instruction builders agree with the program",
     "For every address and argument, the instruction a client builder produces names the accounts, in the order and with the privileges the program needs, and encodes the arguments so that the program acts on exactly these values. A built instruction on a ledger satisfying the requirements succeeds.",
     ["inputs"], "all addresses and arguments of every builder",
     T1 + "each builder is used with one set of addresses.",
     ["src/instruction_builder/mod.rs", "src/pda.rs", "src/discriminator.rs"], [("builders", "src/instruction_builder"), ("dispatch", "src/lib.rs: process_instruction")], [], ["built instruction, run by the program"])
prop("C23", "Malformed instructions are rejected without effect",
     "An instruction whose tag is shorter than eight bytes or starts with an unknown byte, whose arguments do not decode or leave surplus bytes after Borsh-encoded arguments, that names the wrong number of accounts, or that is addressed to another program never succeeds with an effect. The tag's first byte alone selects the operation; surplus bytes after an operation without arguments, or after an escrow index to close, are ignored.",
     ["inputs"], "all tags, instruction data of the stated lengths, all account counts up to 15, all program ids",
     "No test sends malformed instructions.",
     ["src/lib.rs", "src/discriminator.rs"], [("tag decoding and account patterns", "src/lib.rs: process_instruction")], [], ["result and accounts"])
prop("C24", "The delegation life cycle always completes and returns everything",
     "From any valid delegation, committing, finalizing and undelegating always succeeds, any number of times, and returns to the owner program the last committed data with the committed balance; the account can then be delegated anew. Over the whole cycle every lamport is accounted for: the owner gets the committed balance, rent payer, vaults and validator get their exact shares.",
     ["histories", "inputs"], "delegate, commit, finalize, undelegate (and repeated commits) with symbolic contents, balances, slots and parties",
     "Tests start each step from a hand-made ledger and never chain the steps.",
     [P + "delegate.rs", P + "commit_state.rs", P + "finalize.rs", P + "undelegate.rs"], [("state hand-over between instructions", "src/state")], [], ["accounts after each step and at the end"])
prop("C25", "Successful operations always balance and respect account ownership",
     "Whenever the program, called with the documented privileges, reports success, the balances of the accounts involved sum to what they did before, no account it may not modify was modified, and no balance wrapped around; so the runtime never has to reject a completed operation. No signature-less wallet ever pays.",
     ["inputs"], ALLIN + " of every instruction",
     T1 + "the runtime checks only the few ledgers the tests run.",
     [PD, P + "finalize.rs", P + "undelegate.rs", P + "validator_claim_fees.rs"], [("checked lamport arithmetic", PD)], [], ["all accounts after every instruction"])
prop("C26", "The program's books stay consistent in every reachable ledger",
     "Always: an account with a delegation record also has its metadata, is the program's, and holds at least the recorded balance; a pending state and its commit record exist only together and for a delegated account, name it, are no older than its finalized slot, and hold the deposit for any increase; records, pending accounts, fee vaults and approved lists are rent exempt until closed. Every successful operation, whoever calls it, keeps this so; delegating twice, or committing or undelegating while a commit is pending, changes nothing.",
     ["histories", "inputs"], "one step of every operation that touches these accounts, from any ledger satisfying the rules (induction: histories of any length)",
     "Tests start from a handful of hand-made consistent ledgers and check a few fields afterwards.",
     [P + "delegate.rs", P + "commit_state.rs", P + "finalize.rs", P + "undelegate.rs", P + "delegate_ephemeral_balance.rs"],
     [("record keeping", "src/state"), ("account creation and closing", PD)], [], ["all of the program's accounts after every instruction"])
prop("C27", "No delegation is ever stuck",
     "In every consistent ledger (C26): the committer of a pending commit can finalize it; with nothing pending and undelegation not yet allowed, an approved validator with the funds can commit any state that is not older than the finalized one; once undelegation is allowed and nothing is pending, a registered validator can undelegate, given a cooperating owner program and, for an account with data, rent. These calls, made with the documented accounts and privileges, always succeed and take effect.",
     ["histories", "inputs"], "every ledger satisfying the rules of C26, every call with the documented accounts",
     "A test shows that one delegation can be wound up, not that each reachable one can.",
     [P + "commit_state.rs", P + "finalize.rs", P + "undelegate.rs"], [("account checks", L), ("account creation and closing", PD)], [], ["result and accounts of the call"])

prop("C28", "Registration and approval follow the authority's latest word",
     "Over any sequence of registrations, removals, approvals and withdrawn approvals by the authorities, a validator's commit, finalization and undelegation are accepted or refused according to the latest of them alone: a validator registered again or approved again can act, one removed or no longer approved cannot, whatever is pending then waits unchanged until it is registered again, and approving or removing one validator never changes another's standing. A list that became empty approves nobody.",
     ["histories", "inputs"], "sequences of registering, approving, committing, finalizing and undelegating by two or three validators, with symbolic amounts, slots, contents and addresses",
     "Tests call each administrative operation once on a fresh ledger and never act as the validator afterwards.",
     [P + "init_validator_fees_vault.rs", P + "close_validator_fees_vault.rs", P + "whitelist_validator_for_program.rs", P + "commit_state.rs", P + "finalize.rs", P + "undelegate.rs"],
     [("approved-list lookup", L + ": load_program_config"), ("registration check", L + ": load_initialized_validator_fees_vault")],
     [("program config", "set of validators approved by an owner program", "src/state/program_config.rs")],
     ["result and accounts of every call"])
prop("C29", "An escrow keeps its owner's money through top-ups and delegation",
     "Whatever is paid into an escrow, at any point of its life, comes back to its owner: top-ups by anybody, before, during or after delegation, add exactly their amount; while delegated nobody, the owner included, can withdraw or delegate it, and otherwise only the owner can; finalized commits move the balance by exactly the committed change; after undelegation it is an ordinary escrow again, the owner withdraws all of it, and it can be used anew. No lamport is created or lost.",
     ["histories", "inputs"], "top-up, delegation, commit, finalization, undelegation, withdrawal in sequence, up to two rounds, with symbolic amounts, indices and addresses",
     "Tests exercise top-up, delegation and closing on separate hand-made ledgers.",
     [P + "top_up_ephemeral_balance.rs", P + "delegate_ephemeral_balance.rs", P + "close_ephemeral_balance.rs", P + "finalize.rs", P + "undelegate.rs"],
     [("account creation and closing", PD)], [], ["all accounts after every instruction"])

d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(d + "/properties.jsonl", "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(props))
