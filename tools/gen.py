#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C, K = "contracts/src/", "lib/crypto/src/"
P = []

def prop(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note))

MOD = "online reference-model monitor on a native Stylus host"
TRUST = ("Randomised exploration with the seed fixed: holds on every execution observed, no claim beyond them. "
         "Trusts the emulated Stylus host (storage, calls, logs, revert, memory-to-storage cache) and the reference model. ")

prop("P01", "ERC-20 balances, allowances and supply are exact, conserved and authorised",
 "After any sequence of transfers, approvals, mints, burns (with or without allowance), with or without a cap and a pause switch, every balance, allowance and the total supply equal the ones the ERC-20 rules give, and the balances of all accounts add up to the supply. "
 "Tokens move or disappear only by their holder or by a spender within an allowance, which is decreased by what is spent unless infinite; the zero address never sends, receives, approves or is approved; the supply never exceeds a configured cap. "
 "An operation that cannot be performed reverts with the documented error and leaves no state or event behind, and a successful one logs exactly the Transfer and Approval events that account for it.",
 ["histories", "inputs"], "every history of calls by every set of callers, including self-transfers, zero amounts, amounts at 2^256-1 and reverting calls",
 "Unit tests run a handful of short scripts with small amounts; conservation and authorisation quantify over all histories and amounts.",
 [C+"token/erc20/mod.rs", C+"token/erc20/extensions/burnable.rs", C+"token/erc20/extensions/capped.rs"],
 [("one update routine moves, mints and burns", C+"token/erc20/mod.rs: _update, _transfer, _spend_allowance"), ("cap", C+"token/erc20/extensions/capped.rs")],
 MOD, "Ledger model compared after every transaction: full state, return data, error data, event list.")

prop("P02", "ERC-2612 permit changes an allowance only on a fresh signature of the owner",
 "A permit succeeds exactly when its deadline has not passed and the signature is a low-s signature by the owner over the EIP-712 hash of (owner, spender, value, current nonce, deadline) in the domain of this contract and chain; it then sets the allowance to the value, raises the owner's nonce by one and logs Approval. "
 "Every other permit (expired, replayed, malleated, for another owner, spender, value, nonce, deadline, contract, chain, name or version) reverts with the documented error and changes nothing.",
 ["histories", "inputs"], "every history of permits, interleaved with token operations, chain-id changes and time",
 "The unit tests only compute the domain; end-to-end tests need a node and try a few fixed signatures.",
 [C+"token/erc20/extensions/permit.rs", C+"utils/cryptography/eip712.rs", C+"utils/cryptography/ecdsa.rs", C+"utils/nonces.rs"],
 [("struct hash, digest, recover, compare with owner", C+"token/erc20/extensions/permit.rs: permit")],
 MOD, "Signatures are made with k256 independently of the code under test; mutations cover every signed field.")

prop("P03", "Nonces are consumed once and in order",
 "Each account's nonce starts at zero and goes up by exactly one each time it is used, independently of other accounts; using returns the value before the increment. "
 "A checked use with anything but the current nonce reverts, reporting the account and its current nonce, and consumes nothing.",
 ["histories", "inputs"], "every history of plain and checked uses by several accounts, also close to the end of the number range",
 "Tests cover one or two uses of one account.",
 [C+"utils/nonces.rs"], [("use_nonce / use_checked_nonce", C+"utils/nonces.rs")],
 MOD, "Nonce table model compared after every call.")

prop("P04", "The ERC-20 wrapper is fully backed and pays out one for one",
 "Wrapped supply never exceeds the underlying tokens the wrapper holds: a deposit takes exactly the value from the caller and mints it to the account, a withdrawal burns exactly the value from the caller and sends it to the account, and recovery mints exactly the unaccounted surplus. "
 "If the underlying token refuses, returns false or cannot be read, or an account involved is invalid (the wrapper itself or the zero address), the operation reverts with the documented error and neither ledger changes.",
 ["histories", "fault_sequences"], "every history of deposits, withdrawals, recoveries, donations and token operations, against honest and misbehaving underlying tokens",
 "Tests mock one call at a time with fixed answers; backing is an invariant over histories of two ledgers.",
 [C+"token/erc20/extensions/wrapper.rs"], [("deposit_for, withdraw_to, _recover", C+"token/erc20/extensions/wrapper.rs")],
 MOD + " with scripted underlying token", "Two coupled ledgers compared after every transaction.")

prop("P05", "A flash mint is repaid with its fee inside the transaction or undone",
 "A flash loan succeeds only if the amount is within the advertised maximum, the token is this one, the receiver answers its callback with the ERC-3156 value and has approved the contract for amount plus fee; afterwards the amount is burned, the fee has gone from the receiver to the fee receiver (or is burned when there is none), and nothing else has changed except what the receiver itself did. "
 "The receiver is called exactly once, after the amount was credited to it, with the initiator, token, amount, fee and data; in every other case the whole loan reverts with the documented error and leaves no trace.",
 ["histories", "fault_sequences"], "every history, fee setting, receiver behaviour (wrong answer, revert, no approval, moving, burning or re-borrowing) and amount",
 "The unit tests only cover limits and fees, not the loan itself.",
 [C+"token/erc20/extensions/flash_mint.rs"], [("flash_loan", C+"token/erc20/extensions/flash_mint.rs")],
 MOD + " with scripted borrower", "Ledger model follows the borrower's script, including nested loans.")

prop("P06", "ERC-4626 conversions and previews round in favour of the vault",
 "For every supply, asset balance, decimals offset and amount, conversions and previews return floor or ceiling of amount times (supply + 10^offset) over (assets + 1), or its inverse: down for deposit, redeem and both conversions, up for mint and withdraw; a result that does not fit reverts instead of wrapping. "
 "The maximum withdrawal is the owner's shares converted down, the maximum redemption is the owner's shares, and deposits and mints are unlimited.",
 ["inputs", "configurations"], "every supply, asset balance, decimals offset and amount up to 2^256-1",
 "Tests use a few small numbers; rounding and overflow depend on all 256-bit operands.",
 [C+"token/erc20/extensions/erc4626.rs", C+"utils/math/alloy.rs"],
 [("_convert_to_shares / _convert_to_assets", C+"token/erc20/extensions/erc4626.rs"), ("mul_div", C+"utils/math/alloy.rs")],
 "differential monitor against 512-bit arithmetic", "Every view of the vault is compared with exact rational arithmetic.")

prop("P07", "ERC-4626 deposits and withdrawals keep shares and assets in step",
 "Deposit, mint, withdraw and redeem move exactly the previewed assets between the vault and the caller or receiver and mint or burn exactly the previewed shares, within the owner's maximum and, for a caller other than the owner, within the share allowance. "
 "A sequence of operations never lets a user take out more than entitled: assets per share never fall through anyone else's operation. "
 "When the limit is exceeded, the asset misbehaves or an account is invalid, the operation reverts with the documented error and neither ledger changes; a success logs exactly the Deposit or Withdraw and Transfer events.",
 ["histories", "fault_sequences"], "every history of vault operations, share transfers, donations and asset failures",
 "Tests mock the asset call by call; solvency is an invariant over histories of two ledgers.",
 [C+"token/erc20/extensions/erc4626.rs", C+"token/erc20/utils/safe_erc20.rs"],
 [("_deposit / _withdraw order of transfer, burn and mint", C+"token/erc20/extensions/erc4626.rs")],
 MOD + " with scripted asset", "Share and asset ledgers compared after every transaction.")

prop("P08", "SafeERC20 succeeds only when the token really accepted the call",
 "A safe operation succeeds exactly when the token has code, did not revert and returned either nothing or true; otherwise it reverts with the documented error and changes nothing. "
 "The token receives exactly the intended calls: transfers go to the intended account for the intended amount, allowance increases and decreases are exact and never wrap, and a forced approval ends at the requested value also for tokens that insist on resetting to zero first.",
 ["fault_sequences", "inputs"], "every operation against honest, silent, false-returning, reverting, garbage-returning, allowance-resetting and missing tokens",
 "The tests need a node and a handful of mock tokens.",
 [C+"token/erc20/utils/safe_erc20.rs"], [("call and decode optional return", C+"token/erc20/utils/safe_erc20.rs: call_optional_return, call_optional_return_bool, encodes_true")],
 "call-trace monitor with scripted hostile tokens", "Judges outcome, calldata seen by the token and the token's ledger.")

prop("P09", "ERC-721 owners, balances and approvals are exact and authorised",
 "After any history of mints, burns, transfers, approvals and operator changes every token has at most one owner, each balance is the number of tokens owned, and approvals are exactly the ones last given: a transfer or burn clears the token's approval. "
 "A token moves or is burned only by its owner, its approved account or an operator of the owner, from the stated owner, and never to the zero address; approvals are given only by the owner or an operator. "
 "A refused operation reverts with the documented error without any effect, and a success logs exactly the Transfer, Approval and ApprovalForAll events that account for it.",
 ["histories", "inputs"], "every history of calls by owners, approved accounts, operators and strangers",
 "Tests check single calls from a fixed setup.",
 [C+"token/erc721/mod.rs", C+"token/erc721/extensions/burnable.rs"],
 [("_update, _check_authorized, _approve", C+"token/erc721/mod.rs")], MOD, "Ownership model compared after every transaction.")

prop("P10", "Safe ERC-721 transfers and mints only reach contracts that accept them",
 "A safe transfer or safe mint to an account with code completes only if the receiver's callback answers with the ERC-721 acceptance value; any other answer, a revert, or no answer reverts the transfer without effect, passing the receiver's own revert reason on where it gave one. "
 "The callback runs exactly once, after ownership moved, with the operator, previous owner, token id and data as given; accounts without code are not called.",
 ["fault_sequences", "histories"], "every receiver behaviour and every history",
 "The unit tests use a handful of fixed receivers.",
 [C+"token/erc721/mod.rs", C+"token/erc721/receiver.rs"], [("_check_on_erc721_received", C+"token/erc721/mod.rs")],
 MOD + " with scripted receivers", "Receivers record calldata and the state they observe in the callback.")

prop("P11", "ERC-721 enumeration lists every token exactly once",
 "The total supply is the number of existing tokens, indices below it enumerate each existing token exactly once, and indices below an owner's balance enumerate exactly that owner's tokens, once each, after any history of mints, transfers (also to oneself), and burns. "
 "An index out of range reverts with the owner (or zero address) and index; batch minting through the enumeration hook is refused.",
 ["histories"], "every history of mints, transfers and burns in any order",
 "Swap-and-pop removal depends on the position of each token in two lists; tests remove one or two tokens.",
 [C+"token/erc721/extensions/enumerable.rs"], [("swap-and-pop lists", C+"token/erc721/extensions/enumerable.rs")],
 MOD, "Full enumeration read back after every transaction. One known finding (token id 0).")

prop("P12", "Consecutive batch minting assigns every id of a batch to its receiver",
 "A batch mint gives the receiver the next consecutive ids, starting from the first configured id and directly after earlier batches, and logs one ConsecutiveTransfer with the first and last id; from then on these tokens behave in every ERC-721 operation exactly like individually minted ones. "
 "Batches to the zero address, over the maximum size or past the end of the id space are refused, and an empty batch changes nothing.",
 ["histories", "configurations"], "every sequence of batches and every later history of transfers, burns and mints, at any first id up to the end of the id space",
 "Ownership is answered from sparse checkpoints and a burn bitmap, so it depends on the order of batches and later moves; tests use one or two batches.",
 [C+"token/erc721/extensions/consecutive.rs", C+"utils/structs/checkpoints/mod.rs", C+"utils/structs/bitmap.rs"],
 [("checkpointed owners, burned bitmap", C+"token/erc721/extensions/consecutive.rs: _owner_of, _mint_consecutive, _update")], MOD,
 "Dense ownership model compared at batch edges and all touched ids.")

prop("P13", "Every wrapped ERC-721 token is backed by the same underlying token",
 "A wrapped token id exists only while the wrapper owns the underlying token of that id: deposits pull each id from the caller and mint it to the account, withdrawals burn each id, for holders or approved callers only, and release it to the account, a direct safe transfer of the underlying into the wrapper mints it to the sender, and recovery mints an unaccounted one. "
 "Refusals by either token, tokens from another collection, and unauthorised callers revert with the documented error and leave both collections unchanged.",
 ["histories", "fault_sequences"], "every history of deposits, withdrawals, direct transfers and wrapped-token operations, with honest and failing underlying tokens",
 "Tests mock single calls; backing relates two ledgers across histories.",
 [C+"token/erc721/extensions/wrapper.rs"], [("deposit_for, withdraw_to, on_erc721_received, _recover", C+"token/erc721/extensions/wrapper.rs")],
 MOD + " with scripted underlying collection", "Two ownership ledgers compared after every transaction.")

prop("P14", "Names, symbols and token URIs read back exactly as configured",
 "Names, symbols, decimals and base URIs return what was configured, byte for byte and of any length; a token URI is the base joined with the id in decimal, or with the token's own URI when one is set, or the stored URI alone when there is no base. "
 "Setting a URI affects only that token and logs the metadata or URI event; a token URI of a token that does not exist reverts where the standard requires it.",
 ["inputs", "histories"], "every base, id, stored string of any length and any order of updates",
 "Tests use one short string; storage strings switch representation at 32 bytes and can shrink.",
 [C+"token/erc20/extensions/metadata.rs", C+"token/erc721/extensions/metadata.rs", C+"token/erc721/extensions/uri_storage.rs", C+"token/erc1155/extensions/metadata_uri.rs", C+"token/erc1155/extensions/uri_storage.rs", C+"utils/metadata.rs"],
 [("string concatenation rules", C+"token/erc721/extensions/uri_storage.rs: token_uri")], MOD, "String model, lengths around 31/32/64 bytes.")

prop("P15", "ERC-1155 balances and operators are exact and authorised",
 "After any history of single and batch transfers, mints and burns, every balance equals the one given by applying each listed (id, amount) in turn, repeated ids included; batches are all or nothing and batch balance queries answer element by element. "
 "Tokens leave an account only by that account or its operator; the zero address neither sends nor receives; lists of different lengths are refused. "
 "A refused operation reverts with the documented error without effect, and a success logs exactly one TransferSingle or TransferBatch (or ApprovalForAll) with the operator, accounts, ids and amounts.",
 ["histories", "inputs"], "every history of single and batch operations, with repeated ids, empty lists and extreme amounts",
 "Tests use disjoint ids and small amounts.",
 [C+"token/erc1155/mod.rs", C+"token/erc1155/extensions/burnable.rs"], [("_update over id/value lists", C+"token/erc1155/mod.rs")], MOD,
 "Multi-token ledger model compared after every transaction.")

prop("P16", "ERC-1155 supply tracking equals the sum of balances",
 "With supply tracking, the supply of each id is the sum of its balances, the overall supply is the sum over ids, and an id exists exactly while its supply is positive, after any history of single and batch mints, burns and transfers, including batches that repeat an id. "
 "An operation that would push a supply past 2^256-1 reverts without effect.",
 ["histories", "inputs"], "every history, with repeated ids, mint-and-burn of the same id, and amounts close to 2^256-1",
 "Tests mint and burn one or two ids.",
 [C+"token/erc1155/extensions/supply.rs"], [("_update wraps the base update and adjusts supplies", C+"token/erc1155/extensions/supply.rs")], MOD,
 "Ledger model with supplies compared after every transaction.")

prop("P17", "Royalty quotes are exact and bounded by the sale price",
 "The royalty for a token is its own setting if one is set, otherwise the default, otherwise none: receiver, and sale price times fee over the denominator, rounded down, never more than the sale price. "
 "Setting or deleting a royalty affects only its scope; a fee above the denominator or a zero receiver is refused with the documented error and changes nothing.",
 ["histories", "inputs"], "every order of default and per-token settings, every sale price for which the product fits 256 bits",
 "Tests use a few prices and a single setting.",
 [C+"token/common/erc2981.rs"], [("royalty_info", C+"token/common/erc2981.rs")], MOD, "Configuration model and exact arithmetic.")

prop("P18", "Roles are granted, revoked and renounced only as their admins allow",
 "An account holds a role exactly when the last effective grant, revocation or renunciation says so; a role is granted or revoked only by holders of its admin role, renounced only by the holder confirming its own address, and role admins change only as set. "
 "Guarded calls succeed exactly for holders; refusals revert with the documented error without effect, and each effective change (and no other) logs exactly one event, so that the events rebuild the role table.",
 ["histories"], "every history of grants, revocations, renunciations and admin changes by any caller",
 "Tests cover single steps from a fixed setup.",
 [C+"access/control.rs"], [("only_role, grant_role, revoke_role, renounce_role", C+"access/control.rs")], MOD, "Role-table model; table rebuilt from events.")

prop("P19", "Single-owner contracts change hands only by their owner",
 "The owner changes only by the owner's transfer or renunciation (or the contract's own internal transfer), never to the zero address by transfer; guarded calls succeed exactly for the current owner; a renounced contract has no owner for good. "
 "Refusals revert with the documented error without effect, and each change logs OwnershipTransferred with the old and new owner, so the events form an unbroken chain.",
 ["histories"], "every history of calls by owners, former owners and strangers", "Tests cover single steps.",
 [C+"access/ownable.rs"], [("only_owner, transfer_ownership, renounce_ownership", C+"access/ownable.rs")], MOD, "Owner model; chain of events checked.")

prop("P20", "Two-step ownership moves only when the pending owner accepts",
 "Ownership changes only when the currently pending owner accepts, or to nobody when the owner renounces; starting a transfer replaces the pending owner, and every change of owner clears it. "
 "Only the owner starts or cancels a transfer, guarded calls succeed exactly for the current owner, refusals revert with the documented error without effect, and the events account for every start and every change.",
 ["histories"], "every interleaving of starts, replacements, acceptances and renunciations by any caller", "Tests cover single steps.",
 [C+"access/ownable_two_step.rs"], [("pending owner", C+"access/ownable_two_step.rs")], MOD, "Owner and pending-owner model.")

prop("P21", "A paused contract refuses guarded operations until unpaused",
 "Guarded operations run exactly while the contract is not paused, and pause-only operations exactly while it is; pausing a paused or unpausing an unpaused contract reverts with the documented error. "
 "Each effective switch logs exactly one event naming the caller and changes nothing else.",
 ["histories"], "every history of pausing, unpausing and guarded calls by any caller", "Tests cover single steps.",
 [C+"utils/pausable.rs"], [("when_not_paused / when_paused", C+"utils/pausable.rs")], MOD, "Switch model, with neighbouring packed storage observed.")

prop("P22", "A vesting wallet never releases more than has vested",
 "For ether and for every token, released plus releasable equals the vested amount: zero before the start, all that was ever received from the end on, and the linear share, rounded down, in between; vesting never decreases while nothing is taken out. "
 "A release pays exactly the releasable amount to the current owner, adds it to the released total and logs it, or reverts without effect if the payment fails.",
 ["histories", "inputs", "fault_sequences"], "every history of deposits, releases, ownership transfers and time, every start and duration, with failing tokens and receivers",
 "Tests check a few time points with one balance.",
 [C+"finance/vesting_wallet.rs"], [("vested_amount, release", C+"finance/vesting_wallet.rs")], MOD + " with controlled time", "Schedule recomputed with wide integers.")

prop("P23", "Checkpoint traces answer every lookup as of its key",
 "A trace of checkpoints pushed with non-decreasing keys answers lower, upper and recent-upper lookups with the value of the first checkpoint at or above, or the last at or below, the key (zero if none), for any length; pushing at the last key overwrites its value. "
 "Pushing a decreasing key reverts and leaves the trace as it was; latest, length and positional access agree with the pushes.",
 ["histories", "inputs"], "every trace, length, key width and query", "Binary search has different paths for each length and position; tests use a few short traces.",
 [C+"utils/structs/checkpoints/mod.rs", C+"utils/structs/checkpoints/generic_size.rs"], [("binary search", C+"utils/structs/checkpoints/mod.rs")],
 "differential monitor against a linear scan", "All key widths, lengths over the recent-lookup threshold.")

prop("P24", "A bitmap remembers exactly the indices that are set",
 "After any history of setting, clearing and assigning indices anywhere in the 256-bit range, an index reads as set exactly if its last change set it; no change affects another index.",
 ["histories", "inputs"], "every history over indices of the full range, dense within one word and at word edges", "Tests use a handful of indices.",
 [C+"utils/structs/bitmap.rs"], [("bucket and mask", C+"utils/structs/bitmap.rs")], "differential monitor against a set", "Neighbours of each touched index are read back.")

prop("P25", "Integer math is exact for all operands",
 "The square root is the largest integer whose square does not exceed the operand, the average is the floor of the exact mean without overflow, and multiply-then-divide is the exact quotient, rounded down or up as asked, for all 256-bit operands; a result that does not fit or a zero divisor aborts instead of returning a wrong number.",
 ["inputs"], "every operand, with emphasis on squares and their neighbours, powers of two and the largest values", "Property tests sample few random operands and never reach boundary structures.",
 [C+"utils/math/alloy.rs"], [("Math trait", C+"utils/math/alloy.rs")], "differential monitor against wide integers", "512-bit reference.")

prop("P26", "Signature recovery accepts only canonical signatures",
 "Recovery returns the signing account for a valid signature with low s and v of 27 or 28, and no account other than the one the secp256k1 equations give; high s values, other v values and unrecoverable signatures revert with the documented error, and the zero address is never returned.",
 ["inputs"], "every digest and every (v, r, s)", "Tests need the precompile and use one fixed signature.",
 [C+"utils/cryptography/ecdsa.rs"], [("recover", C+"utils/cryptography/ecdsa.rs")], "differential monitor with emulated precompile", "k256 as reference.")

prop("P27", "Typed-data hashes bind name, version, chain and contract",
 "The domain separator and typed-data digest are those EIP-712 defines for the configured name and version, the current chain id and the contract's own address, and the published domain description reports exactly these values.",
 ["inputs", "configurations"], "every name, version, chain id, address and struct hash", "Tests compare one domain.",
 [C+"utils/cryptography/eip712.rs"], [("domain_separator_v4, hash_typed_data_v4", C+"utils/cryptography/eip712.rs")], "differential monitor against a reference EIP-712 encoder", "Independent keccak and encoder.")

prop("P28", "Interface detection reports exactly the supported interfaces",
 "Each component reports support for ERC-165 and the interfaces it implements and for no other of the 2^32 interface ids, in particular not for 0xffffffff; each published interface id is the XOR of the selectors of the interface's functions.",
 ["inputs"], "all 2^32 interface ids for every component", "Tests query two or three ids.",
 [C+"utils/introspection/erc165.rs", C+"token/erc721/mod.rs", C+"token/erc1155/mod.rs", C+"access/control.rs", "contracts-proc/src/interface_id.rs"],
 [("supports_interface, interface_id macro", "contracts-proc/src/interface_id.rs")], "enumerating runtime monitor", "Thorough enumerates all ids; quick every sixteenth and all ids near published ones.")

prop("P29", "Contract storage keeps the layout of its Solidity counterpart",
 "Every component reads and writes each of its fields at the storage slot and byte offset that declaration-order Solidity layout assigns to it, for every value, key and array length, so that state written by a constructor or an earlier version is read back as written.",
 ["inputs", "histories", "configurations"], "every component, field value, mapping key and array index", "Unit tests read through the same accessors that wrote the values, so a changed layout goes unnoticed.",
 [C+"token", C+"access", C+"finance", C+"utils"], [("storage structs", C+"token/erc20/mod.rs: Erc20 and its peers")], "slot-level storage monitor", "Storage images compared slot by slot with an independent layout calculator.")

prop("P30", "Vault and wrapper stay solvent when their token calls back",
 "When the underlying token calls back into the vault or wrapper before or after moving funds, with reentrancy enabled or not, every nested operation sees and leaves consistent state: the outcome equals that of the same operations at the points where they ran, wrapped supply stays backed and no stale value is written over a nested update.",
 ["schedules", "histories", "fault_sequences"], "every placement of nested operations in the token's transfers, to any depth tried, with reentrancy on and off", "The unit tests do not call back.",
 [C+"token/erc20/extensions/erc4626.rs", C+"token/erc20/extensions/wrapper.rs", C+"token/erc20/utils/safe_erc20.rs"],
 [("transfer-then-mint and burn-then-transfer order; storage cache flush around calls", C+"token/erc20/utils/safe_erc20.rs")],
 "reference-model monitor with injected reentrant callbacks", "Reentrancy is granted by the host at run time; the storage cache is modelled as in the SDK's reentrant build.")

prop("P31", "Safe ERC-1155 transfers and mints only reach contracts that accept them",
 "A transfer, mint or batch of either to an account with code completes only if the receiver's callback answers with the matching ERC-1155 acceptance value (single or batch); any other answer, a revert or no answer reverts it without effect, passing on the receiver's own revert reason where it gave one. "
 "The callback runs exactly once, after the balances moved, with operator, previous owner, ids, amounts and data as given; accounts without code are not called.",
 ["fault_sequences", "histories"], "every receiver behaviour, single and batch", "The unit tests use a handful of fixed receivers.",
 [C+"token/erc1155/mod.rs", C+"token/erc1155/receiver.rs"], [("_check_on_erc1155_received", C+"token/erc1155/mod.rs")],
 MOD + " with scripted receivers", "Receivers record calldata and the balances they observe in the callback.")


DIF = "differential monitor on native (overflow-checked) and wasm32 executions"

prop("C01", "A Merkle proof is accepted exactly when it folds to the root",
 "Verification of a single-leaf proof returns true exactly when hashing the leaf with the proof elements in order, each pair sorted (or, with a custom hasher, hashed in that hasher's commutative way), gives the root; it never panics. "
 "Hence an honest proof of any leaf of any tree is accepted, and no change to leaf, element, order, length or root is accepted unless it still folds to that root.",
 ["inputs"], "every root, leaf and proof, of honest trees of every shape and of mutated, truncated, extended, reordered and random proofs",
 "Tests check a few fixed trees; acceptance must be exact for all inputs, including adversarial ones.",
 [K+"merkle.rs", K+"hash.rs"], [("verify, verify_with_builder", K+"merkle.rs")],
 DIF, "Reference fold over an independent keccak; sha3 crate and reference fold are trusted.")

prop("C02", "A Merkle multiproof is accepted only for leaves that rebuild the root",
 "Multiproof verification consumes leaves, then computed hashes, then proof elements as its flags direct: it returns true exactly when the final hash equals the root, and false otherwise, with every leaf and every proof element used exactly once. "
 "Inconsistent input is refused with the documented error (wrong total of hashes, no leaves, no flag for the root, proof elements left over) and never panics, so no forged, reordered, incomplete or padded multiproof is accepted.",
 ["inputs"], "every root, set of leaves, proof and flags: honest multiproofs of any subset of any tree, and arbitrary flag strings and lengths",
 "Tests check a few fixed multiproofs and one historical attack; soundness quantifies over all flag strings.",
 [K+"merkle.rs"], [("verify_multi_proof, verify_multi_proof_with_builder", K+"merkle.rs")],
 DIF, "Queue reference written from the specification; forged trees get a matching root so that acceptance is reached.")

prop("C03", "Hashing depends on the bytes only and pair hashing commutes",
 "The Keccak hasher returns Keccak-256 of the concatenation of everything it was given, however the bytes are split into updates and types; hashers from one builder are independent. "
 "Hashing a pair hashes the first then the second; the commutative form gives the same result for both orders, that of the sorted pair.",
 ["inputs"], "every byte string, split into updates in every way, and every pair of hashable values",
 "Tests hash a few fixed strings.",
 [K+"hash.rs", K+"keccak.rs"], [("hash_pair, commutative_hash_pair, KeccakHasher", K+"hash.rs, "+K+"keccak.rs")],
 DIF, "Compared with the sha3 crate over lengths around the sponge rate, and with a recording hasher for the order of bytes.")

prop("C04", "Fixed-width integers compute the exact mathematical results",
 "For every width, addition, subtraction, doubling, halving, multiplication into two words, shifts, comparisons, remainder of a double-width integer, bit access, bit length, parity, and parsing and printing in every supported base give the mathematically exact result, with the carry, borrow or overflow reported exactly. "
 "Conversions to and from machine integers, limbs, bytes and bits are lossless in both directions; carrying limb primitives are exact; results are the same natively and on wasm32.",
 ["inputs", "configurations"], "every pair of operands at every width from 64 to 832 bits, weighted to carries, boundaries and leading zeros, on both targets",
 "Property tests in the repo sample random operands of one or two widths against themselves; carry chains and the wasm code path are not settled by them.",
 [K+"arithmetic/uint.rs", K+"arithmetic/limb.rs", K+"bits.rs"],
 [("carry and widening primitives, also the wasm32 variant", K+"arithmetic/limb.rs"), ("WideUint::ct_rem", K+"arithmetic/uint.rs")],
 DIF, "Every operation is compared with num-bigint.")

prop("C05", "Prime field arithmetic is exact and canonical for every modulus",
 "For every odd modulus, whether or not it leaves a spare bit, the field operations (add, subtract, negate, double, multiply, square, invert, divide, power, sum of products, sums and products of sequences) return the exact residue; values have one canonical representation below the modulus, so equality, ordering, hashing, printing and conversions agree with the residue. "
 "Only zero has no inverse. Conversions from machine integers of any sign and width reduce exactly. The shipped fields have the documented moduli and multiplicative generators, and the reported modulus size is that of the modulus.",
 ["inputs", "configurations"], "every field, modulus shape (1 to 13 limbs, with and without spare bits) and sequence of operations, on both targets",
 "Tests use small moduli and a few values; Montgomery carries and final subtractions fail only for rare operands and modulus shapes.",
 [K+"field/fp.rs", K+"field/prime.rs", K+"field/instance.rs", K+"field/mod.rs"],
 [("Montgomery multiplication, reduction and inversion", K+"field/fp.rs")],
 DIF, "Random programs over field registers compared with num-bigint after every step.")

prop("C06", "Elliptic curve arithmetic follows the group law on every point",
 "On short Weierstrass curves, addition, mixed addition, subtraction, negation, doubling, sums and scalar multiples of any length give the point of the chord-and-tangent law, including equal, opposite and identity operands and any projective representative; points compare and hash by the point they stand for, and normalisation, alone or in batch, keeps the point. "
 "On-curve and subgroup tests are exact and the checked constructors refuse everything else; clearing the cofactor and multiplying by its inverse are exact; batch inversion inverts every non-zero element and keeps zeros.",
 ["inputs", "configurations"], "every pair of points and scalar on curves with and without a zero a-coefficient and with cofactors, from toy curves where special cases are common to 381 bits",
 "Tests check a few multiples on one curve; the exceptional cases of the formulas and unnormalised representatives are rarely met by sampling large curves.",
 [K+"curve/sw/affine.rs", K+"curve/sw/projective.rs", K+"curve/sw/mod.rs", K+"curve/mod.rs"],
 [("Jacobian addition, mixed addition, doubling", K+"curve/sw/projective.rs"), ("batch_inversion", K+"curve/mod.rs")],
 DIF, "Affine reference group law in num-bigint arithmetic; toy curves reach every exceptional case.")

prop("C07", "Poseidon2 hashes equal the specified sponge and permutation",
 "For every parameter set, the elements squeezed are those of the sponge over the Poseidon2 permutation: capacity first, inputs added to the rate, permuting when the rate is full, external and internal matrices of the width, the given round constants and S-box degree, with the specified number of full and partial rounds. "
 "The result does not depend on how inputs and outputs are batched, and absorbing after squeezing is refused. The shipped instances have the published widths, capacities, round numbers, constants and matrices.",
 ["inputs", "configurations"], "every parameter set, state width (2, 3, 4 and multiples of 4), input length and batching, on both targets",
 "Tests check fixed vectors of one permutation per field; sponge boundaries and other widths are not covered.",
 [K+"poseidon2/mod.rs", K+"poseidon2/params.rs", K+"poseidon2/instance"],
 [("permute, external and internal matrix", K+"poseidon2/mod.rs")],
 DIF, "Reference permutation written with explicit matrices in num-bigint; the constants, matrices and capacities of the shipped instances are pinned by digest.")

with open(f"{ROOT}/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
json.dump(dict(version=1, setup_cmd="./setup.sh",
    checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
        technique=p["technique"], level="exploration", level_note=(TRUST if p["id"][0] == "P" else "Randomised and boundary-directed exploration with the seed fixed: holds on everything observed. ") + p["note"]) for p in P],
    not_applicable=[]), open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
