# id -> (monitor binary, deciding technique, note)
HOOKS = {"guard": "cfg(mozak_verif)", "enable": "ws/circuits/build.rs and ws/node/build.rs emit cargo:rustc-cfg=mozak_verif for the crates built in ws", "source_commits": ["aa3202f61c7fe03fe9c1e62717e41deb3cd60874", "e4f711b13d24ee16e473253f36db91cd0a1f4eec"]}
NA = {}
add("C01", "monvm", "lock-step differential monitor against an independent RV32IM reference machine",
    "every instruction of every workload program is executed by the real State::execute_instruction and by a reference that interprets the raw words; all registers, pc, touched memory and clock are compared after each one")
add("C02", "monvm", "online oracle: independent decoder on sampled (quick) or all 2^32 (thorough) words",
    "quick samples every opcode/funct combination with edge fields and random words at several addresses; thorough enumerates every 32-bit word")
add("C03", "monvm", "lock-step monitor of memory and protection state",
    "programs of overlapping loads, stores and ecalls around protection boundaries and the ends of the address space")
add("C04", "monvm", "offline checker of whole execution records against the reference machine, plus re-execution",
    "the ExecutionRecord of the public stepper is compared field by field, and a second run must give the same record")
add("C05", "monvm", "stream monitor of tape ecalls (sequential once-only delivery, frame condition)",
    "random read schedules over all seven tapes; whole-state frame comparison after each call")
add("C06", "monvm", "monitor with an independent Poseidon2 sponge",
    "digest, sponge log, frame and native-API agreement on random lengths, overlaps and edge bytes")
add("C07", "monvm", "independent ELF image oracle over generated and hostile files",
    "valid files compared byte by byte with the described image; damaged files must be refused without panicking; file images stay below 1 MB")
add("C08", "monvm", "termination monitor over generated endings",
    "every run's ending (halt, panic message, missing code, illegal word, unknown call) compared with what the program asked for")
add("C10", "monsdk", "online oracle: independent compressed-trie root on adversarial address sets, and mutation sensitivity",
    "random, clustered (shared prefixes of every length), duplicate and extreme address sets; a watchdog checks termination")
add("C11", "monsdk", "differential monitor: guest programs in the VM, the native SDK and an independent reference on the same inputs",
    "a script-driven guest built from the real SDK logs every digest it computes; all three must agree bit for bit")
add("C12", "monsdk", "end-to-end replay monitor: native recording, tape files, tape conversion, guests in the VM, log compared with a model of the transaction",
    "random call trees of up to six programs with events, input tapes, return values; each participating guest is replayed and its complete observation log compared")
add("C13", "monsdk", "fault-injection monitor: tapes or guest behaviour altered, the guest must abort",
    "an acceptance model decides which alterations are real deviations; control runs with honest tapes must be accepted")
add("C14", "monsdk", "online oracle over random event sequences with ties, duplicates, permutations",
    "sorting, hint inversion and canonical hash compared with an independent computation")
add("C15", "monsdk", "trace-conformance monitor of native recording, in child processes",
    "random nested histories, tape compared with a model after every scenario, files re-read from disk")
add("C16", "monsdk", "model-based monitor of a guest running read and seek scripts in the VM",
    "every returned count and byte compared with a file model; short reads, seeks from all origins, interleaved tapes")
add("C17", "monsdk", "shadow-heap monitor of guest allocation histories in the VM",
    "all blocks returned to a guest are checked for alignment, disjointness from each other, image and stack, zeroing and content preservation")
add("C19", "monsdk", "round-trip monitor over random values of all public data types",
    "text, JSON and binary forms, distinctness and word/byte conversions")
add("C18", "monsdk", "Miri, AddressSanitizer, and guests with compiled-in pointer and arithmetic assertions, under the workloads of the other checks",
    "native recordings interpreted by Miri with aliasing checks, monitors of the VM and SDK rebuilt with ASan, guests rebuilt with debug assertions; only reports of the instrumentation count")
add("C20", "moncirc", "constraint monitor: every constraint of every table evaluated on the traces of random and corner-case executions, and the traces compared with the reference machine",
    "the real trace generation and constraint expressions run on the record of the real VM; an independent interpreter says which steps, accesses, hashes and tape reads the traces must contain")
add("C21", "moncirc", "multiset monitor over all cross-table relations and public tables",
    "each relation is summed as a multiset over the generated traces; public tables and sub-tables are compared with the program; values that need range checks are derived independently and must be received by the range-check table")
add("C24", "moncirc", "runtime monitor over the real provers and verifiers: honest proofs must verify and repeat, every kind of changed, spliced or forged proof must be rejected without a crash, natively and in the recursive circuits",
    "both provers, native and recursive verifiers; every field of a proof changed, resized, exchanged or taken from another proof; commitments chosen after the challenges; other entry points; FRI and Merkle trees are stand-ins that really check")
add("C27", "moncirc", "differential monitor: every table's constraints and lookup columns on base, packed, extension and in-circuit values, against each other and against own column arithmetic; degrees measured on random lines",
    "random, edge, binary and honest rows for all 30 tables; the recursive circuit of every table is compiled and proven for each assignment")
add("C22", "moncirc", "adversarial monitor: forged executions and altered traces, repaired by local search, judged by the real constraints and relations and by replaying the claimed execution",
    "short programs over all instructions and ecalls; wrong results, jumps, memory values and addresses, clocks, operands, tape lengths, hashes; altered cells and rows of every table")
add("C28", "moncirc", "differential monitor: random formula DAGs through every operator form and evaluator against own modular arithmetic",
    "pure, cached, counting, packed, extension and in-circuit evaluators; sharing of 80 levels must not cost time")
add("C30", "monrec", "adversarial monitor: state updates of random sparse trees proven by the real circuits, with changed witnesses, false claims and foreign proofs, against an independent sparse Merkle tree",
    "every public value of every accepted proof is compared with the roots, address and summary of the reference tree; witnesses are altered as the prover fills them")
add("C31", "monrec", "adversarial monitor: event roots and tree merges proven by the real circuits, with changed witnesses, other representations and foreign proofs, against native hashing and a reference merge",
    "random event lists, partial trees and shapes; bytes of field elements in their other representation")
add("C32", "monrec", "adversarial monitor: events accumulated and matched with objects by the real circuits, with changed witnesses and foreign proofs, against a reference of the ownership and credit rules",
    "honest, conflicting and reordered events of one address; honest and wrong objects; owners, credits and heights at the edges")
add("C34", "monrec", "history monitor: chains of programs, transactions and blocks proven by the real circuits, with false claims, changed witnesses and foreign proofs at every joint, against a reference of every public value",
    "casts of several programs and shapes, events that merge, foreign and forged sub-proofs, blocks of other parts and on made-up bases")
add("C40", "monrec", "history monitor: the real state tree and its proofs after random blocks of operations, against a reference map and an independent sparse tree",
    "trees of several depths, clustered and extreme addresses, conflicting operations, replays in other orders; proofs made and verified by the real circuits on a stand-in proof system")
add("C41", "monrec", "history monitor: chains of blocks whose transactions' parts arrive in random order among misfits, against a reference of every root and completion",
    "reductions and branch addresses against their definitions; completions, transaction, event and state roots, heights, carried-over transactions, refused misfits and replays")
