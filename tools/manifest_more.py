T["C12"] = "TLA+ specification QueueStore (abstract list and concrete layout), refinement checked with TLC; TLC-generated and random operation sequences of the real QueueAccount validated against it"
N["C12"] = "The concrete layout refines the list for all bounded operation sequences; every recorded operation of the real storage is a step of the list. Arbitrary bytes are tried in guarded memory (totality only)."
T["C20"] = "TLA+ specification Rnd: balance of rejection sampling checked exhaustively with TLC; recorded calls and sample counts of the real helpers judged by TLC"
N["C20"] = "All 32,896 ranges are called with structured bytes; balance of the real code is counted over random bytes for every range size and every bit pair, and is exact only as far as the code agrees with the specified algorithm."
for p in ("C14", "C15", "C16", "C17"):
    T[p] = "TLA+ specification VrfCrypto (toy-group algebra, forging games, public-knowledge closure) checked with TLC; exported strategies and terms played against the real off-chain and on-chain code, outcomes judged by TLC"
    N[p] = "The algebra is exhaustive in a group of order 5; the real verifiers are exercised with honest, tampered, transplanted and forged proofs. Hardness of discrete logarithms and the hash functions are trusted."
N["C17"] = "Prints a KNOWN-FINDING: the output of a pending request is a public scalar times the oracle's public key. Any other public derivation of an output is reported."
for p in ("C21", "C22", "C23"):
    T[p] = "TLA+ specification OracleService (readers, attempts, faults) model-checked with TLC for safety and liveness; its schedules, random schedules and overlapping updates driven through the real service in virtual time, records validated by TLC against ServiceJudge"
    N[p] = "The design is exhaustive for 1-2 requests, 2 readers and bounded attempts. The real modules of vrf-oracle run against a simulated RPC node whose chain is the real program; retries are judged after 2.5 s of virtual time."
T["C18"] = "TLA+ specification Relay (call trees with the identity's signature) checked with TLC; recorded call trees of the real program with relaying callback programs judged by TLC (Judge.tla)"
N["C18"] = "Prints a KNOWN-FINDING: the named callback program can pass the signature on. Any other way the identity's signature reaches a program or data is reported."
T["C24"] = "TLA+ specification OracleCli over VrfProgram (commands as atomic instruction lists) model-checked with TLC; the real CLI is run along its paths, with random commands from every state, against a simulated node; every run judged by TLC (CliJudge)"
N["C24"] = "The tool runs as a process against a loopback RPC node whose chain is the real program. Compute limits and fees are not modelled."
T["C19"] += "; recorded calls of every client function validated against the specification Clients of addresses, account lists and wire formats"
