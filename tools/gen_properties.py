#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the statements are reviewable in one place)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=None)))

p("C01", "Token and gas amounts: arithmetic is exact or refused, never wrapped",
  "Every operation on amounts (add, subtract, multiply, increment, decrement, floor and ceiling division, halving, fee = price x gas, conversions to and from naturals, integers and bytes, comparisons) returns exactly the mathematical result when it fits in 256 bits. Otherwise, including division by zero and underflow, it reports failure and never yields a wrapped or truncated value; re-labelling an amount's unit never changes its value.",
  ["inputs"], "all pairs of 256-bit amounts and all operands of the accepted integer types",
  "Tests sample a few values (and one module of them compiles here); the claim is over 2^512 operand pairs.",
  ["minter/src/checked_amount/mod.rs", "minter/src/numeric/mod.rs"],
  [("CheckedAmountOf checked_* over ethnum::u256", "checked_amount/mod.rs"), ("WeiPerGas::transaction_cost, Wei::into_wei_per_gas", "numeric/mod.rs")])

p("C02", "Two-key maps keep both keys unique and in step",
  "A two-key map (built by insertion, or from entries with distinct keys) always pairs each primary key with exactly one alternative key and each alternative key with exactly one primary key, and every stored value is reachable through either key. Inserting under a primary or alternative key already in use is refused with the offending key and the value handed back and leaves the map unchanged; a lookup, removal or drain returns or removes exactly the matching entries and leaves all others as they were.",
  ["inputs", "histories"], "all key/value types with a total order, all maps reachable by any sequence of operations, all arguments",
  "Tests use small random maps of integers; the claim is for every reachable map and every key type.",
  ["minter/src/map.rs"], [("MultiKeyMap / DedupMultiKeyMap operations", "map.rs")],
  [("by_key, by_alt_key", "the two index maps that must stay inverse to each other", "map.rs")])

p("C03", "Each accepted withdrawal is in exactly one stage, with its own unique nonce",
  "A withdrawal accepted under a ledger burn index is always in exactly one stage: queued, in flight (its transaction created and/or sent, all under one nonce; a replacement may wait in created while earlier ones are sent), or finalized; and a second request with the same burn index is refused. Created transactions receive consecutive nonces with no gap and no reuse, a withdrawal and its transaction advance only forward and only as the same request with the same nonce, and moving one withdrawal (or putting it to the back of the queue) never loses, duplicates or alters another.",
  ["histories", "inputs"], "all sequences of request / reschedule / create / sign / resubmit / finalize events, all arguments",
  "Tests walk a handful of scripted histories; the claim is an inductive invariant over all histories.",
  ["minter/src/state/transactions/mod.rs"],
  [("record_withdrawal_request, reschedule_withdrawal_request, record_created_transaction, record_signed_transaction, record_finalized_transaction", "state/transactions/mod.rs")],
  [("pending_withdrawal_requests, processed_withdrawal_requests, created_tx, sent_tx, finalized_tx, next_nonce", "the stages", "state/transactions/mod.rs")])

p("C04", "An outgoing transaction pays the right party and never exceeds its budget",
  "The transaction created for a native withdrawal sends to the requested address exactly the withdrawn amount minus the maximum fee it can be charged, so amount plus maximum fee equals what was burned; for an ERC-20 withdrawal it calls transfer(requested address, withdrawn amount) on that token's contract with zero native value and a maximum fee no higher than the fee the user paid. It carries the network's chain id, the given nonce, gas limit and gas prices, and when the budget cannot cover the fee an error is returned instead of a transaction; call data encodes recipient and value losslessly.",
  ["inputs"], "all requests, nonces, gas limits, gas prices and networks",
  "Tests check a few price points; rounding and capping bugs show only at particular amounts.",
  ["minter/src/state/transactions/mod.rs", "minter/src/tx.rs"],
  [("create_transaction, TransactionCallData::encode/decode", "state/transactions/mod.rs"), ("GasFeeEstimate, TransactionPrice", "tx.rs")])

p("C05", "Resubmission keeps the payment, raises the fee enough, and stays within budget",
  "When a sent transaction is re-priced, the replacement keeps nonce, destination, call data, chain and gas limit, keeps paying the same party, and its maximum total fee never exceeds the fee budget of that withdrawal: for a native withdrawal amount plus maximum fee still equals the withdrawn amount, for an ERC-20 one the amount is unchanged. Gas prices never go down, and if anything changes the priority fee grows by at least 10%; a transaction whose price already covers the current estimate is left alone, transactions below the confirmed nonce are never resubmitted, and when the budget is insufficient an error naming the withdrawal is reported and no later nonce is resubmitted.",
  ["inputs", "histories"], "all sent transactions, all gas price estimates, all confirmed transaction counts",
  "Tests fix a few prices; overflow, rounding and ordering corner cases are not sampled.",
  ["minter/src/tx.rs", "minter/src/state/transactions/mod.rs"],
  [("TransactionPrice::resubmit_transaction_price", "tx.rs"), ("create_resubmit_transactions, record_resubmit_transaction, ResubmissionStrategy", "state/transactions/mod.rs")])

p("C06", "Only failed withdrawals are reimbursed: once, in full, to the payer",
  "A reimbursement becomes due only for a withdrawal whose transaction was finalized as failed, or whose token burn failed after the fee was taken, and it names the original payer (with subaccount) on the right ledger and the right amount: the value the failed transaction would have transferred, respectively the fee charged. Each due reimbursement is paid at most once and leaves the due list exactly when it is recorded as paid or put into quarantine; a successful transaction never leads to a reimbursement.",
  ["histories", "inputs", "fault_sequences"], "all histories of finalizations and reimbursement payments, all receipts and requests, all ledger replies including a trap after the ledger call",
  "Tests cover a few finalized receipts; double payment needs particular orders of events.",
  ["minter/src/state/transactions/mod.rs", "minter/src/withdraw.rs", "minter/src/state/audit.rs"],
  [("record_finalized_transaction, record_reimbursement_request, record_finalized_reimbursement, record_quarantined_reimbursement", "state/transactions/mod.rs"), ("process_reimbursement", "withdraw.rs")],
  [("maybe_reimburse, reimbursement_requests, reimbursed", "reimbursement stages", "state/transactions/mod.rs")])

p("C07", "A deposit is minted at most once, and only after it was accepted",
  "A deposit log, identified by transaction hash and log index, is at any time in at most one of the states to-mint, minted, invalid; once minted or invalid it can never be accepted or minted again, and accepting an ERC-20 deposit of an unregistered contract is refused. Each mint transfers on the deposited token's ledger to the depositor's chosen account exactly the deposited value (less the configured deposit fee for the native token), is recorded against that deposit with the ledger's block index, and if processing traps after the ledger was called the deposit is quarantined instead of being retried; a deposit that cannot be minted never keeps the others from being minted.",
  ["histories", "inputs", "fault_sequences"], "all histories of accept / mint / invalidate / quarantine events, all deposits, all ledger replies and traps",
  "Tests replay fixed event lists; double minting needs particular histories or a trap at one point.",
  ["minter/src/state.rs", "minter/src/deposit.rs"],
  [("record_event_to_mint, record_successful_mint, record_invalid_deposit, record_quarantined_deposit", "state.rs"), ("mint, calculate_deposit_amount_deducting_fee", "deposit.rs")],
  [("events_to_mint, minted_events, invalid_events", "deposit states", "state.rs")])

p("C08", "The minter's books match deposits, withdrawals and fees exactly",
  "The recorded native balance rises by exactly the value of each accepted native deposit and falls, on each finalized transaction, by exactly the native amount sent plus the fee actually paid if it succeeded and by only the fee if it failed; each ERC-20 balance changes by exactly the deposited value and, for a successful token withdrawal, the transferred value, and no other balance moves. Total effective fees grow by the fee paid and total unspent fees by the charged fee minus the fee paid; a change that would overflow or make a balance negative is never recorded.",
  ["histories", "inputs"], "all histories of deposits and finalized transactions, all amounts and receipts",
  "Tests compare a few ledgers by hand; the claim is an equation over every history.",
  ["minter/src/state.rs"],
  [("update_balance_upon_deposit, update_balance_upon_withdrawal, NativeBalance, Erc20Balances", "state.rs")],
  [("native_balance, erc20_balances", "the books", "state.rs")])

p("C09", "Every state change is logged and replaying the log reproduces it",
  "Processing an event applies its transition to the state and appends exactly that event to the stable log; replaying a log starts from its first event, which must be the initialisation, and applies every later event once, in order, through the same transition, so the replayed state equals the live one. Each kind of event has exactly its own effect: the records, indices, amounts and addresses it carries are the ones applied, and nothing else in the state changes.",
  ["histories", "crash_points"], "all event sequences, all payloads, an upgrade after any prefix",
  "Tests replay a few recorded logs; a transition that drops or swaps a field shows only with particular payloads.",
  ["minter/src/state/audit.rs", "minter/src/state.rs", "minter/src/lifecycle.rs"],
  [("apply_state_transition, process_event, replay_events", "state/audit.rs"), ("State::upgrade", "state.rs")])

p("C10", "Log scraping visits every block exactly once, in order",
  "Splitting a block range into chunks or halves yields non-empty consecutive pieces, each within the size limit, that together cover exactly the original range with no block missing or visited twice; an empty range yields none. Scraping advances the last-scraped marker only over blocks whose logs were fetched and registered (or a single block that was explicitly skipped), never beyond the requested end or backwards, and on an unrecoverable fetch error stops without advancing past the failed block. The logs asked for are exactly the helper contract's deposit events of the native token (the zero address) and of the registered ERC-20 contracts. The requested end is the fetched chain head on the configured block tag, less a safety margin of 20 blocks on BSC and 12 on Arbitrum One, Base, Optimism, Avalanche and Fantom.",
  ["inputs", "fault_sequences"], "all ranges over 256-bit block numbers, all chunk sizes, all patterns of fetch failures",
  "Tests sample ranges; off-by-one at the numeric limits and mixed failure patterns are not sampled.",
  ["minter/src/numeric/range.rs", "minter/src/deposit.rs"],
  [("BlockRangeInclusive::{partition_at_checked, into_chunks, partition_into_halves, join_with}", "numeric/range.rs"), ("scrape_block_range, scrape_logs", "deposit.rs")])

p("C11", "Deposit logs are decoded faithfully or rejected, one by one",
  "Decoding an on-chain log yields the sender, value, recipient principal, subaccount, token, block, transaction hash and log index that the log's topics and data encode, and rejects any log that is pending, has a wrong number of topics or data words, or encodes an invalid address or principal. In a batch every log produces exactly one decoded deposit or one error, in order, and one malformed log never affects the others.",
  ["inputs"], "all byte patterns of topics and data, all batches of logs",
  "Tests decode a handful of real logs; the claim is over all byte strings.",
  ["minter/src/deposit_logs/parser.rs", "minter/src/deposit_logs/mod.rs", "minter/src/eth_types/mod.rs"],
  [("ReceivedDepositLogParser::parse_log / parse_all_logs, parse_principal_from_slice, parse_data_into_32_byte_words", "deposit_logs/")])

p("C12", "A value is taken from RPC providers only when enough of them agree",
  "When providers answer differently, a result is accepted only if the rule of that request is met: identical answers from all that succeeded with at least two successes, or the most frequent value by strict plurality, or the smallest value by key; fewer agreeing answers, a tie, or only errors give an error. Finalized counts, blocks, logs and receipts need identical answers, the latest count takes the smallest, fee histories need a plurality, and sending needs one success. Whatever is accepted was actually returned by some provider, answers of all providers are considered, and a consistent error is passed on unchanged.",
  ["inputs", "fault_sequences"], "all combinations of provider answers and errors, any number of providers",
  "Tests enumerate a few three-provider tables.",
  ["minter/src/rpc_client/mod.rs"],
  [("reduce_with_equality, reduce_with_min_by_key, reduce_with_strict_majority_by_key, reduce_with_only_one_key, at_least_two_ok, MultiCallResults/ReducedResult", "rpc_client/mod.rs")])

p("C13", "Guards: one withdrawal per caller, one run per task, released exactly at the end",
  "While a caller's withdrawal guard is alive no second guard for that caller can be obtained, and never more than 100 callers hold one; likewise a timer task can be entered only once until it ends. Dropping a guard releases exactly its own entry, refusing one changes nothing, and no new withdrawal starts while 100 or more are queued.",
  ["schedules", "histories"], "all interleavings of guard acquisition and release by all callers and tasks",
  "Tests interleave two or three guards.",
  ["minter/src/guard/mod.rs"], [("Guard::new / Drop, TimerGuard::new / Drop", "guard/mod.rs")],
  [("pending_withdrawal_principals, active_tasks", "held guards", "state.rs")])

p("C14", "Identifiers and wire encodings are lossless and canonical",
  "Encoding then decoding returns the original value for stored numbers, naturals, principals and ids; a network and its chain id map to each other one-to-one and unknown chain ids are rejected; an address parses from and prints to exactly its 20 bytes and a 32-byte word is accepted as an address only if its 12 leading bytes are zero. A transaction's signing payload and raw form are the EIP-1559 encoding of all its fields in order, with integers carrying no leading zero bytes, so different transactions never share a signing payload; its hash is the hash of that raw form.",
  ["inputs"], "all 256-bit numbers, naturals, principals, addresses, networks and transactions",
  "Tests sample encodings; the claim is injectivity and round-trip over all values.",
  ["minter/src/cbor", "minter/src/eth_types/mod.rs", "minter/src/evm_config.rs", "minter/src/tx.rs"],
  [("cbor::{u256,nat,principal,id}", "cbor/"), ("Address", "eth_types/mod.rs"), ("EvmNetwork", "evm_config.rs"), ("rlp encoding", "tx.rs")])

p("C15", "Fee quotes follow the fee history and configured minimum, or fail",
  "The gas price estimate uses the next block's base fee and a priority fee that is the median of the reported rewards but never below the configured minimum, and its maximum fee is twice the base fee plus the priority fee; an empty history or an overflow gives an error rather than a price. A cached estimate is used only while fresh, and a price's maximum transaction fee is exactly maximum fee per gas times gas limit.",
  ["inputs"], "all fee histories, minimum fees, clock values and cached estimates",
  "Tests use a few recorded histories.",
  ["minter/src/tx.rs"],
  [("estimate_transaction_fee, median, GasFeeEstimate, lazy_refresh_gas_fee_estimate", "tx.rs")])

p("C16", "A withdrawal is queued only for what was actually burned, and refused cleanly",
  "A withdrawal request is recorded only after the ledger confirmed the burn, with the burned amount, the ledger's burn index, the caller's account and the validated destination; amounts below the minimum or below the withdrawal fee, invalid or zero destinations, anonymous callers and unknown tokens are refused before any ledger is called. If the token burn fails after the gas fee was burned, nothing is queued and a reimbursement of that fee (less at most one ledger transfer fee) to the caller is recorded; a withdrawal fee taken for a native withdrawal whose burn then fails is refunded (less ledger fees); the withdrawal status reported for a burn index reflects the stage its request is in.",
  ["inputs", "fault_sequences"], "all callers, arguments, configurations and ledger replies",
  "The endpoint code is only exercised by canister integration tests that cannot run here.",
  ["minter/src/main.rs", "minter/src/ledger_client.rs", "minter/src/state/transactions/mod.rs"],
  [("withdraw_native_token, withdraw_erc20", "main.rs"), ("LedgerClient::burn_from", "ledger_client.rs"), ("transaction_status", "state/transactions/mod.rs")])

p("C17", "Provider calls retry only on too-few-cycles, with more cycles, within the limit",
  "A call to the RPC canister is repeated exactly when a provider reported that too few cycles were attached and the configured number of retries is not exhausted. Each retry attaches at least twice the previous cycles and no fewer than the largest amount any provider asked for, and the final answer of the last attempt is returned unchanged.",
  ["fault_sequences", "inputs"], "all sequences of provider answers, all retry limits and cycle amounts",
  "One test samples a single answer.",
  ["evm_rpc_client/src/lib.rs"], [("call_internal, max_expected_too_few_cycles_error", "evm_rpc_client/src/lib.rs")])

p("C18", "An exported log page always fits and is the longest prefix that does",
  "Serialising the canister log to a size limit (any limit an empty page fits in) never produces more bytes than the limit, and returns the longest prefix of the entries, in order and unaltered, that fits. Ascending and descending requests order the same entries by timestamp without adding or losing any.",
  ["inputs"], "all logs and all size limits of at least an empty page",
  "Property tests sample random logs up to a hundred entries.",
  ["minter/src/logs.rs"], [("Log::serialize_logs, sort_logs", "logs.rs")])

p("C19", "The minter never runs with an invalid configuration or ambiguous tokens",
  "Initialisation and upgrade accept only a configuration with a non-blank signing key name, a non-anonymous ledger, a non-zero helper contract, and a positive minimum withdrawal that covers the ledger fee; a rejected configuration is an error and leaves no partially configured minter. An upgrade changes exactly the settings it names, a token can be registered only for this network and with a ledger, contract address and symbol not already registered, and registering one leaves the others untouched.",
  ["configurations", "histories"], "all init and upgrade arguments, all registered token sets",
  "Tests try a few arguments.",
  ["minter/src/lifecycle.rs", "minter/src/state.rs"],
  [("State::try_from(InitArg), State::validate_config, State::upgrade, record_add_erc20_token", "lifecycle.rs, state.rs")])

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
