#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the readable source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))
NT = "The only reliably passing test is a compile-time id check; the integration test drives one straight-line scenario, so "
p("C01", "Only the owning oracle's proven output fulfils a request",
  "A pending request leads to a consumer callback only through a transaction signed by the oracle that owns the queue holding it, carrying a proof that verifies, for exactly that request's id, against the VRF key currently registered for that oracle. Any other attempt (other signer, other oracle's data or queue, wrong id, wrong or tampered proof, unregistered oracle, delegated or uninitialised queue) fails and changes nothing. A fulfilment that meets these conditions, in a later slot than the request, with the callback's accounts supplied and a callback that succeeds, succeeds.",
  ["inputs", "histories"], "all instruction histories over several oracles, queues, requests and callers, and all combinations of passed accounts, signers and proofs",
  NT + "no forged, misdirected or mis-signed fulfilment is ever tried.",
  ["program/src/provide_randomness.rs", "api/src/verify.rs", "api/src/steel.rs"],
  [("signer, PDA-seed, owner and discriminator checks, proof check", "program/src/provide_randomness.rs"), ("verify_vrf", "api/src/verify.rs")],
  [("queue items", "pending requests", "api/src/state/queue.rs"), ("oracle data account", "registered VRF key", "api/src/state/oracle.rs")],
  ["instruction result, callback CPI, account data after the instruction"])
p("C02", "A request is fulfilled at most once, without touching others",
  "Once fulfilled or purged, a request is gone from its queue and can never be fulfilled again; a failed fulfilment leaves it pending. Fulfilling or purging one request removes only that request: every other pending request, in this and every other queue, stays pending, in order, with unchanged content, and remains findable and fulfillable.",
  ["histories"], "all interleavings of requests, fulfilments (repeated, failing, out of order), and purges over queues with items of different shapes and holes between them",
  NT + "queues with several requests, removals from the middle and replays are never reached.",
  ["program/src/provide_randomness.rs", "program/src/purge_expired_requests.rs", "api/src/state/queue.rs"],
  [("remove before callback, atomic rollback on failure", "program/src/provide_randomness.rs"), ("find_item_by_id / remove_item", "api/src/state/queue.rs")],
  [("queue items", "pending requests", "api/src/state/queue.rs")], ["queue contents before and after each instruction", "callback CPIs"])
p("C03", "The callback is exactly what was requested",
  "A fulfilment calls, exactly once, the callback program named in the request, with data equal to the requested discriminator followed by SHA-256 of the VRF output followed by the requested arguments. Its account list is the VRF program identity (signer, read-only) followed by the requested accounts in order with the requested writability and never as signers; a request that names the oracle's own account is never called back. If the callback cannot be made or fails, the fulfilment has no effect at all.",
  ["inputs", "histories"], "all request payload shapes (discriminator 0..8 bytes, 0..20 accounts, 0..512 argument bytes) at all queue positions, and all callback outcomes",
  NT + "one payload shape at one queue position is all that is sampled.",
  ["program/src/provide_randomness.rs", "api/src/state/queue.rs", "program/src/request_randomness.rs"],
  [("callback instruction construction", "program/src/provide_randomness.rs"), ("CompactAccountMeta::to_account_meta", "api/src/state/queue.rs")],
  [("queue item payload", "discriminator, metas, args stored behind the item", "api/src/state/queue.rs")], ["the CPI received by the callback program"])
p("C04", "Requests are admitted exactly when authorised and within limits",
  "A randomness request is accepted if and only if the payer signs, the identity PDA of the named callback program signs, the target is an initialised, undelegated queue of this program, the payload is within limits (discriminator at most 8 bytes, at most 20 accounts, at most 512 argument bytes) and fits in the queue's free space. An accepted request is appended as the last pending request with exactly the given callback program, discriminator, accounts, arguments, priority and the current slot, and nothing else in the queue changes. A rejected one changes nothing; no account other than the queue and the payer ever changes.",
  ["inputs", "histories"], "all request payloads, callers, account substitutions and queue fill states reachable by requests, fulfilments and purges",
  NT + "no unauthorised, oversized, misdirected or queue-full request is tried.",
  ["program/src/request_randomness.rs", "api/src/state/queue.rs"],
  [("identity PDA signer check, sysvar check, queue check", "program/src/request_randomness.rs"), ("add_item capacity check", "api/src/state/queue.rs")],
  [("queue account", "discriminator, header, items", "api/src/state/queue.rs")], ["instruction result and account data"])
p("C05", "Fulfilment only in a strictly later slot",
  "A request can never be fulfilled in the slot in which it was made; in every later slot, for as long as it is pending and whatever its age, a correct fulfilment is accepted. Being in the wrong slot leaves the request pending and unchanged.",
  ["histories", "schedules"], "all placements of slot boundaries between requests and fulfilments, with several requests of different slots in one queue",
  NT + "the slot is advanced once, by a fixed amount.",
  ["program/src/provide_randomness.rs", "program/src/request_randomness.rs"],
  [("clock comparison with the stored slot", "program/src/provide_randomness.rs")],
  [("QueueItem.slot", "slot of the request", "api/src/state/queue.rs")], ["instruction result"])
p("C06", "Every request gets its own id, bound to its circumstances",
  "No two requests ever accepted, in the same or different queues, in the same or different slots, before or after other requests were fulfilled or purged, get the same id (and hence the same randomness), even with identical arguments. The id depends on the caller's seed, the slot, the recent slot hash, the callback program and its discriminator: changing any of them changes the id.",
  ["histories", "inputs"], "all histories of requests, fulfilments and purges within and across slots and queues, with repeated arguments",
  NT + "ids of two requests are never compared.",
  ["program/src/request_randomness.rs"],
  [("combined hash of seed, slot, slot hash, discriminator, program, time and position", "program/src/request_randomness.rs")],
  [("QueueItem.id", "request id = VRF input", "api/src/state/queue.rs")], ["ids stored in the queue"])
p("C07", "Fees are escrowed and paid exactly; lamports are conserved",
  "An accepted request moves exactly its tier's fee (500,000 lamports regular, 800,000 high priority) from the payer to the queue; its fulfilment or purge moves exactly that fee from the queue to the queue's oracle, and the default ephemeral queue is free of fees. A queue therefore always holds its rent-exempt minimum plus the fees of all its pending requests, and no instruction of the program moves any lamports other than these fees, rent deposits paid by the instruction's payer and rent refunds.",
  ["histories"], "all histories of requests of both tiers, fulfilments, purges, account creation, resizing and closing, over several queues and payers",
  NT + "balances are not asserted.",
  ["program/src/fees.rs", "program/src/request_randomness.rs", "program/src/provide_randomness.rs", "program/src/purge_expired_requests.rs", "api/src/pda.rs"],
  [("transfer_fee, system transfer, resize_pda, close_account", "program/src/fees.rs")],
  [("account lamports", "balances", "runtime")], ["lamports of every account before and after each instruction"])
p("C08", "Purge removes exactly the expired requests",
  "Purging a queue, which anyone may do, removes exactly the requests older than 240 slots, keeps all others unchanged and in order, and pays the owning oracle exactly the fees of the removed ones. No request is removed by expiry in any other way, and a purge naming an account that is not that oracle's initialised queue has no effect.",
  ["histories", "inputs"], "all mixes of request ages, priorities and positions (with holes), all slots around the limit, all account substitutions",
  NT + "purge is never called.",
  ["program/src/purge_expired_requests.rs", "api/src/state/queue.rs"],
  [("age scan with in-place removal", "program/src/purge_expired_requests.rs")],
  [("QueueItem.slot, priority_request", "age and fee tier", "api/src/state/queue.rs")], ["queue contents, balances"])
p("C09", "Only the upgrade authority governs the oracle registry",
  "Oracles are added and removed only by the program's current upgrade authority; the registry is created once and is never reset. The list of oracles and the per-oracle data always agree: an oracle is listed, once, exactly when its data account exists, and that data holds the VRF key given and the slot at which it was added; adding or removing one oracle leaves all others unchanged. Identities that are not valid keys are refused.",
  ["histories", "inputs"], "all histories of initialise/add/remove by any signer, with authority changes, duplicate adds, re-adds and account substitutions",
  NT + "add is called once by the right authority.",
  ["program/src/modify_oracles.rs", "program/src/initialize.rs", "api/src/loaders.rs", "api/src/state/oracles.rs"],
  [("load_program_upgrade_authority", "api/src/loaders.rs"), ("is_empty check", "program/src/initialize.rs"), ("create_program_account fails if it exists", "api/src/steel.rs")],
  [("oracles account", "list of identities", "api/src/state/oracles.rs"), ("oracle data", "VRF key, registration slot, open queues", "api/src/state/oracle.rs")], ["registry and oracle data accounts"])
p("C10", "Queues are created only by a seasoned registered oracle, once",
  "A queue of an oracle comes into existence only by instructions signed by that oracle (and by the paying account), while the oracle is registered and at least 200 slots after its registration, at the address derived from oracle and index. Allocation may take several steps of at most 10,240 bytes; the queue becomes usable only with the step that reaches the requested size, is then empty, has that index, and is exactly that size, and a live queue is never re-initialised. Until then no request, purge, close or fulfilment has any effect on it.",
  ["histories", "inputs"], "all interleavings of allocation steps of several queues with other instructions, all sizes around the step limit, all slots around the waiting period, all signers",
  NT + "one small queue is created in one step.",
  ["program/src/initialize_oracle_queue.rs", "api/src/pda.rs", "api/src/loaders.rs"],
  [("signer checks, slot check, is_empty_or_zeroed", "program/src/initialize_oracle_queue.rs"), ("create_pda / resize_pda", "api/src/pda.rs")],
  [("queue account", "size, discriminator, header", "api/src/state/queue.rs")], ["queue account data, oracle data"])
p("C11", "No queue is closed, and no oracle removed, while work is pending",
  "A queue is closed only by its own oracle and only when it holds no pending request; closing returns its whole balance to the oracle and deletes it. The open-queue count of an oracle always equals the number of its initialised, not yet closed queues (delegated ones included), so an oracle with an open queue can never be removed, while one without can.",
  ["histories", "inputs"], "all interleavings of creation, requests, fulfilments, purges, delegation, closing and removal over several queues and oracles",
  NT + "only one queue is opened and closed.",
  ["program/src/close_oracle_queue.rs", "program/src/initialize_oracle_queue.rs", "program/src/modify_oracles.rs"],
  [("emptiness check, open_queue counter", "program/src/close_oracle_queue.rs")],
  [("Oracle.open_queue", "number of open queues", "api/src/state/oracle.rs")], ["oracle data, queue account"])
p("C12", "Queue storage behaves as an ordered list of requests",
  "For every sequence of insertions and removals, the queue storage behaves as a list: items come back in insertion order with exactly the stored content, lookup by id or by position, length and emptiness agree with that list, and removal returns and deletes exactly the chosen item. Insertion fails only when the item does not fit behind the last stored item (space freed at the tail is reusable, and an emptied queue regains its full capacity) and a failed operation changes nothing observable. Arbitrary account bytes never make these operations read or write out of bounds, crash or loop.",
  ["inputs", "histories"], "all sequences of add/remove/find over all payload shapes and account sizes, and arbitrary account bytes",
  NT + "the storage is exercised with one item at a time.",
  ["api/src/state/queue.rs"],
  [("add_item, remove_item, trim_trailing_holes, find_item_by_id, iter_items", "api/src/state/queue.rs")],
  [("header.item_count, header.cursor, item.used", "in-place list with tombstones", "api/src/state/queue.rs")], ["public functions of QueueAccount"])
p("C13", "Delegation hands a queue over and back, only by its owner",
  "Only the oracle that owns a queue can delegate it or ask for its undelegation. Delegation is always on the same terms: to no validator of somebody's choosing and without scheduled commits. A delegated queue is in the custody of the delegation program with its content intact, and until it is handed back no request, fulfilment, purge or close touches it. Handing back is only possible for the delegation program acting on that very account, and restores the queue with exactly the content handed back; nobody else can create or alter program-owned accounts that way.",
  ["histories", "inputs"], "all interleavings of delegation and undelegation with the other instructions, all signers and account substitutions including forged hand-back buffers",
  NT + "delegation is exercised once by the owner.",
  ["program/src/delegate_oracle_queue.rs", "program/src/undelegate_oracle_queue.rs", "program/src/process_undelegation.rs"],
  [("signer and PDA-seed checks, buffer signature", "program/src/process_undelegation.rs")],
  [("queue account owner", "custody", "runtime")], ["owner and data of the queue account"])
p("C14", "Honest VRF evaluation is deterministic and accepted everywhere",
  "For every key derived from an oracle identity and every 32-byte input, evaluating the VRF twice gives the same output and proof, and that proof is accepted by both the off-chain and the on-chain verifier under the derived public key. The two verifiers agree (accept or reject) on every other well-formed or malformed proof as well.",
  ["inputs"], "all keys, inputs, and proofs, including perturbed and malformed ones",
  NT + "the on-chain verifier is exercised with one key and input.",
  ["vrf/src/vrf.rs", "api/src/verify.rs", "vrf/src/consts.rs", "api/src/consts.rs"],
  [("compute_vrf / verify_vrf off chain", "vrf/src/vrf.rs"), ("verify_vrf on chain", "api/src/verify.rs")], (), ["return values of the VRF functions"])
p("C15", "No other output than the true one can be proven",
  "For a registered VRF key and a request id, neither verifier accepts any output other than secret-key times the id's curve point, even from the holder of the secret key: a proof transplanted from another id, key or output, or built to satisfy only part of the verification, is rejected. Every component of the proof (output, both commitments, response), the key and the id is bound by the verification.",
  ["inputs"], "all forging strategies over proof components, including those using the secret key and choosing components in any order",
  NT + "no forged proof is ever tried.",
  ["api/src/verify.rs", "vrf/src/vrf.rs"],
  [("challenge over output, commitments, key and input; two Schnorr equations", "api/src/verify.rs")], (), ["verdict of both verifiers"])
p("C16", "Proofs never leak the oracle's key",
  "Proof nonces depend on both the secret key and the input, are never reused for different inputs or keys, and cannot be derived from public data, so that no collection of published proofs reveals the secret key. Distinct oracle identities get distinct VRF keys that depend on the identity's secret part, and the same identity always the same key.",
  ["inputs", "histories"], "all pairs of proofs published by one or several oracles, for equal, related and different inputs",
  NT + "two proofs are never compared.",
  ["vrf/src/vrf.rs"],
  [("HKDF nonce derivation", "vrf/src/vrf.rs"), ("HKDF key derivation", "vrf/src/vrf.rs")], (), ["proofs produced by compute_vrf, keys by generate_vrf_keypair"])
p("C17", "Randomness is unpredictable without the oracle's secret",
  "Before the oracle publishes its proof, the randomness of a pending request cannot be computed from public information (the request id and the oracle's public keys).",
  ["inputs"], "all public-information strategies within the algebra of the scheme",
  NT + "predictability is not something a test of outputs can show.",
  ["vrf/src/vrf.rs", "api/src/verify.rs"],
  [("hash_to_point", "vrf/src/vrf.rs")], (), ["VRF output compared with public computations"])
p("C18", "Callback authentication cannot be relayed to another consumer",
  "A consumer program that authenticates its callback by the signature of the VRF program identity only ever sees that signature on data that the VRF program itself produced for a request naming that consumer; another callback program cannot reuse the signature it received to feed forged randomness to a different consumer.",
  ["programs", "histories"], "all behaviours of callback programs while they hold the identity signature",
  NT + "callback programs in tests are honest.",
  ["program/src/provide_randomness.rs"],
  [("identity PDA signs the callback CPI", "program/src/provide_randomness.rs")], (), ["signer flags seen by consumer programs"])
p("C19", "Client builders and the program agree on every instruction",
  "Every instruction built by the API crate, the consumer SDK (all request variants, for current and for older clients, and the accounts and call that #[vrf] generates) or the oracle tooling is decoded by the program with exactly the arguments given and carries exactly the accounts, order, signer and writable flags the program needs to succeed, with addresses (program, PDAs, sysvars, delegation accounts) equal to those the program derives. The list of instructions that creates a queue of any size, run as one transaction, creates it. The SDK's address functions and published constants name the accounts the programs use. Payloads with an unknown tag or too short for their arguments, and calls under a different program id, are rejected.",
  ["inputs"], "all arguments of all builders, all indices and sizes, and malformed payloads",
  NT + "only some builders are used, each with one set of arguments, and none of the SDK's.",
  ["api/src/sdk.rs", "api/src/instruction.rs", "api/src/macros.rs", "sdk/src/instructions.rs", "sdk/src/types.rs", "sdk/src/pda.rs", "sdk/src/consts.rs", "sdk/src/compat/mod.rs", "sdk/vrf-macro/src/lib.rs", "program/src/lib.rs"],
  [("8-byte tags, Pod and Borsh encodings", "api/src/instruction.rs"), ("account meta lists", "api/src/sdk.rs")], (), ["built instructions executed by the program"])
p("C20", "Random helpers are total, in range and unbiased",
  "For every 32 random bytes and every range min <= max, the ranged helper returns a value in [min, max] without crashing, and over uniformly random bytes every value of the range is equally likely up to the documented negligible fallback. The fixed-width helpers are pure, total and balanced: over uniform bytes every value of the type (and each boolean) is equally likely.",
  ["inputs"], "all byte strings and all ranges",
  NT + "the helpers are not called.",
  ["sdk/src/rnd.rs"],
  [("rejection sampling", "sdk/src/rnd.rs")], (), ["return values"])
p("C21", "The oracle service keeps serving every pending request",
  "As long as a request is pending in one of the oracle's queues and updates or periodic refreshes keep arriving, the oracle service keeps trying to serve it: a send or confirmation error, a dropped or failed transaction, an expired blockhash, a crashed attempt or the exhaustion of one round of retries never makes it give up for good. Requests that are already pending when the service starts, or that arrive in any later update, are all picked up.",
  ["fault_sequences", "schedules", "histories"], "all sequences of queue updates, RPC failures and confirmations, and their interleavings with running attempts",
  NT + "the oracle service has no tests at all.",
  ["vrf-oracle/src/oracle/processor.rs", "vrf-oracle/src/oracle/client.rs", "vrf-oracle/src/blockhash_cache.rs"],
  [("retry loop, inflight bookkeeping, periodic refresh", "vrf-oracle/src/oracle/processor.rs")],
  [("inflight_requests, active_tasks", "bookkeeping of attempts", "vrf-oracle/src/oracle/client.rs")], ["transactions sent over RPC"])
p("C22", "The oracle service serves each request once at a time and cleans up",
  "At any time at most one attempt per pending request is running, however often the request is announced, and requests of different ids and queues are served independently. When an update shows that a request is gone, its attempt is cancelled and forgotten; the published queue sizes equal those of the latest update, and the average response time is the mean, over requests seen to disappear in a notified update, of the notified slot minus the request's slot.",
  ["schedules", "histories"], "all interleavings of updates, overlapping attempts and completions over several queues and requests",
  NT + "the oracle service has no tests at all.",
  ["vrf-oracle/src/oracle/processor.rs"],
  [("inflight entry guard, task handles, abort", "vrf-oracle/src/oracle/processor.rs")],
  [("queue_stats, avg_response_slots, response_counts", "published statistics", "vrf-oracle/src/oracle/client.rs")], ["transactions sent, published statistics"])
p("C23", "The oracle service sends the right transaction",
  "For each pending request of a queue derived from its own identity, and for no other account, the service sends a transaction signed by its identity with a fresh blockhash that, if the request is at most 240 slots old, fulfils exactly that request (its id, callback program, accounts in order, and a valid proof for it) and, if older, purges that queue. The transaction would be accepted by the program.",
  ["inputs", "histories"], "all queue contents, ages around the expiry limit, indices, callback shapes, foreign and malformed queue accounts",
  NT + "the oracle service has no tests at all.",
  ["vrf-oracle/src/oracle/processor.rs", "vrf-oracle/src/oracle/sources.rs", "vrf-oracle/src/oracle/utils.rs"],
  [("process_item", "vrf-oracle/src/oracle/processor.rs")], (), ["transactions sent over RPC, executed against the program"])
p("C24", "The operator's command line tool does what the command names",
  "Each modifying command of the CLI sends at most one transaction, signed by the given keypair alone, that does exactly what the command names to exactly the oracle or queue it names: it succeeds whenever the program's rules allow the named action (including queues of any size and index), and otherwise exits with an error and changes nothing. The reading commands send nothing: derive prints the public key that the oracle service proves with for that identity, and list shows exactly the existing queues of the identity with their index, number of pending requests and custody.",
  ["inputs", "histories"], "all commands, signers, arguments and chain states, including other oracles' queues, every index and failing account queries",
  NT + "the command line tool has no tests at all.",
  ["vrf-cli/src/main.rs", "api/src/sdk.rs"],
  [("dispatch of commands", "vrf-cli/src/main.rs")], (), ["transactions sent, chain state, exit status, printed rows and keys"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P: f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P))
