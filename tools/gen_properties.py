#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run to regenerate).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","VM executes RV32IM exactly as the architecture specifies",
 "Every program of RV32I base integer and M extension instructions produces, instruction by instruction, exactly the register values, memory bytes, program-counter sequence and halt point the RISC-V specification defines, including division by zero, signed overflow, wrap-around of arithmetic, addresses and branch targets, sign extension and shift-amount masking. Register x0 always reads as zero. CSR accesses, fences, EBREAK and MRET behave as no-ops that only advance the program counter.",
 ["programs","inputs"],"all instruction sequences, register and memory contents, and code placements",
 "Existing tests run a few dozen hand-picked operand pairs and one fixed compliance suite; the claim ranges over all operand values and all multi-instruction interactions.",
 ["runner/src/vm.rs","runner/src/decode.rs","runner/src/instruction.rs","runner/src/state.rs"],
 [("instruction execution","runner/src/vm.rs:State::execute_instruction"),("decoder","runner/src/decode.rs:decode_instruction")],["state after every executed instruction"])
p("C02","Instruction decoding is total, exact and strict",
 "Decoding any 32-bit word at any program counter never crashes: it either yields an operation, operands and immediate that mean exactly what the RISC-V encoding of that word means at that address, or reports an error carrying that same word and address. A word is accepted exactly when it is a valid RV32IM, fence, or supported system encoding; writes to read-only CSRs, among them the `unimp` with which programs abort, are errors. In a loaded program image every word of an executable segment that decodes is executable at its own address.",
 ["inputs"],"all 2^32 instruction words and all program counters",
 "The decoder tests cover a few encodings per mnemonic; acceptance and immediates range over 2^32 words times all addresses.",
 ["runner/src/decode.rs","runner/src/code.rs","runner/src/instruction.rs"],
 [("decoder","runner/src/decode.rs:decode_instruction"),("code table","runner/src/code.rs:Code::from")],["decoded instruction value","decoding error value"])
p("C03","Guest memory is byte-exact and read-only memory never changes",
 "A load returns the most recently stored bytes at those addresses, or the initial program image, or zero where neither exists. Memory the program image marks read-only keeps its initial bytes for the whole execution: an ordinary or system-call store into it never takes effect and never goes unnoticed. Stores never change what instructions are executed.",
 ["programs","histories"],"all sequences of overlapping loads, stores and system calls of every width at every address including the top of the address space",
 "Tests store and load single values at a few addresses; the claim is about every history of overlapping accesses and every protection boundary.",
 ["runner/src/state.rs","runner/src/vm.rs","runner/src/code.rs"],
 [("memory model","runner/src/state.rs:StateMemory"),("loads/stores","runner/src/vm.rs:lw,lh,lb,sw,sh,sb")],["memory contents and protection set after every step"])
p("C04","The execution record is a faithful deterministic log of the run",
 "For every program and input, the execution record lists every executed step exactly once, in order, with consecutive clock values, each step's pre-state equal to the previous step's post-state and the last state equal to the state in which the machine halted. Each step's auxiliary data (operand values, result, next program counter, memory accesses, system-call data and halt flag) equals what that step really did. Running the same program on the same input again produces the identical record.",
 ["programs","inputs","histories"],"all programs and inputs",
 "Tests look at the final registers of short programs and hardly ever at intermediate rows; the proof system consumes every row.",
 ["runner/src/vm.rs","runner/src/state.rs","runner/src/ecall.rs"],
 [("stepper","runner/src/vm.rs:step"),("record","runner/src/vm.rs:ExecutionRecord"),("aux data","runner/src/state.rs:Aux")],["every row of the execution record"])
p("C05","Input-tape system calls deliver each tape in order, once, and bounded",
 "Each private, public, call and event tape is delivered to the program as one sequential stream: consecutive reads of any sizes at any addresses return the tape's bytes in order, each byte exactly once, and a read past the end delivers exactly the remaining bytes and leaves the rest of the buffer untouched. Reading one tape never disturbs another tape, a register, or memory outside the written range. Reads of the event commitment, cast-list commitment and program-identity tapes always deliver that tape's bytes from its start, at most 32 of them.",
 ["inputs","histories"],"all tape contents, read sizes, buffer addresses and interleavings of reads across the seven tapes",
 "Tests read one tape once with matching length; the claim covers all interleavings, partial and repeated reads.",
 ["runner/src/ecall.rs","runner/src/state.rs"],
 [("tape reads","runner/src/ecall.rs:ecall_io_read"),("tapes","runner/src/state.rs:StorageDeviceTape")],["memory and tape positions after each ecall","storage-device record of the row"])
p("C06","The Poseidon2 system call writes the true hash of guest memory",
 "For every in-range input buffer whose length is a non-zero multiple of the rate, the Poseidon2 system call writes to the output address the 32-byte Poseidon2-Goldilocks sponge digest of exactly the current input bytes and changes nothing else, including when the buffers overlap or alias the stack. The sponge states it records for the prover are those of that same computation. The digest equals what the native hashing API computes for the same bytes.",
 ["inputs"],"all input lengths, contents and buffer placements, including overlapping ones",
 "Tests hash two fixed strings; the claim covers all lengths, block boundaries and overlaps.",
 ["runner/src/poseidon2.rs","runner/src/ecall.rs","sdk/src/native/poseidon.rs"],
 [("hash ecall","runner/src/poseidon2.rs:ecall_poseidon2"),("sponge","runner/src/poseidon2.rs:hash_n_to_m_no_pad")],["output memory","recorded sponge data"])
p("C07","ELF loading produces exactly the image the file describes, or an error",
 "Loading a well-formed 32-bit RISC-V executable yields an initial state whose readable bytes, zero-filled uninitialised data, write permissions, executable words and entry point are exactly those its loadable segments describe, for any segment order, alignment and size. Unsuitable files (wrong class, machine, type, misaligned or out-of-range entry, program headers or segments) are refused with an error. No malformed file makes the loader panic.",
 ["inputs"],"all byte strings offered as ELF files",
 "Tests load a handful of compiler-made ELFs; the claim covers hostile and unusual files.",
 ["runner/src/elf.rs","runner/src/code.rs","runner/src/state.rs"],
 [("loader","runner/src/elf.rs:Program::vanilla_load_elf, mozak_load_elf"),("initial state","runner/src/state.rs:From<Program>")],["loaded program image","loader result"])
p("C08","Termination semantics: halt, panic, unknown calls, decode traps",
 "A run ends normally exactly when the program executes the halt system call, in a state that is otherwise unchanged, and only then does the record mark a halting step. The panic system call always aborts the run with the program's own message; jumping to an address without a decodable instruction is reported as an error instead of executing anything. System calls with unknown numbers change nothing except the program counter.",
 ["programs","inputs"],"all programs, call numbers, message buffers and jump targets",
 "Tests end every program with the same halt stub; unusual endings are not exercised.",
 ["runner/src/ecall.rs","runner/src/vm.rs","runner/src/state.rs"],
 [("ecall dispatch","runner/src/ecall.rs:State::ecall"),("fetch","runner/src/vm.rs:step"),("decode traps","runner/src/state.rs:current_instruction")],["result of a run","last rows of the record"])

p("C10","Merkle root of addressed hashes is canonical for every address set",
 "For every list of address-sorted hashes the computed root equals the root of the compressed binary trie over 64-bit addresses in which entries with equal addresses are first combined in order, a single entry is its own root, and the empty list gives the all-zero digest. The computation always terminates without panicking. Changing, dropping, duplicating or exchanging entries changes the root.",
 ["inputs"],"all sorted lists of (address, hash), including adversarially clustered and extreme addresses",
 "One test uses four addresses below 0x200; the merge schedule depends on all 64 address bits.",
 ["sdk/src/common/merkle.rs"],[("merkleize","sdk/src/common/merkle.rs:merkleize_step")],["returned root"])
p("C11","Native and in-VM SDK computations agree bit for bit",
 "Every digest and serialized form that both the native SDK and a guest program in the VM compute - padded and unpadded Poseidon2 hashes, two-to-one hashes, canonical event values and hashes, event-tape and cast-list commitments, Merkle roots - is identical for identical inputs. Padding is injective: different byte strings never share a padded preimage. Both equal an independent reference implementation of the documented construction.",
 ["inputs"],"all byte strings, events, event lists and cast lists",
 "Native tests never run the guest implementation; agreement is only implied by a few end-to-end examples.",
 ["sdk/src/native/poseidon.rs","sdk/src/mozakvm/poseidon.rs","sdk/src/common/types/event.rs","sdk/src/common/types/poseidon2hash.rs","sdk/src/core/ecall.rs"],
 [("native hashing","sdk/src/native/poseidon.rs"),("guest hashing","sdk/src/mozakvm/poseidon.rs"),("canonical events","sdk/src/common/types/event.rs:CanonicalEvent")],["digests computed natively and by guest ELFs run in the VM"])
p("C12","Every honestly recorded cross-program transaction is accepted by its programs",
 "For every tree of cross-program calls (in which no program calls itself), event emissions and input-tape writes performed natively, of any number and size, the recorded system tape - after being written to disk, read back and converted into each program's raw tapes - makes every participating guest program run to a clean halt in the VM. Each guest receives exactly the calls addressed to it, in global call order, with the recorded caller, arguments and return values, and its sends return the recorded values. The commitments handed to the guests equal those computed from its own events and the cast list.",
 ["histories","inputs"],"all call trees, call payloads, event histories and input tapes over any set of programs",
 "The examples cover two fixed scenarios and are not part of the runnable suite.",
 ["sdk/src/native/calltape.rs","sdk/src/mozakvm/calltape.rs","sdk/src/common/system.rs","sdk/src/native/systemtape.rs","cli/src/runner.rs"],
 [("native recording","sdk/src/native/calltape.rs:CallTape::send"),("guest validation","sdk/src/mozakvm/calltape.rs"),("tape conversion","cli/src/runner.rs:raw_tapes_from_system_tape")],["halt/panic of each guest","calls seen by each guest"])
p("C13","A guest never accepts call or event tapes that deviate from its own behaviour",
 "If the tapes given to a guest differ from what it does - a call it sends with a different caller, callee or argument, a missing, extra or reordered call or event, a changed event address, type, value or ordering hint, a message from itself or from an actor outside the cast list, or commitments that do not match the tapes - the guest aborts instead of halting cleanly. A guest also aborts if it ends without consuming its whole call tape and event tape. Nothing it does after such a deviation can undo the abort, and a program that panics never halts cleanly.",
 ["fault_sequences","histories"],"all single and combined alterations of all tapes of recorded transactions",
 "No test alters a tape; acceptance is only ever exercised on honest tapes.",
 ["sdk/src/mozakvm/calltape.rs","sdk/src/mozakvm/eventtape.rs","sdk/src/common/system.rs"],
 [("call checks","sdk/src/mozakvm/calltape.rs:send,receive"),("event checks","sdk/src/mozakvm/eventtape.rs:emit"),("shutdown checks","sdk/src/common/system.rs:ensure_clean_shutdown")],["halt/panic of the guest under each alteration"])
p("C14","Event ordering and temporal hints are mutually inverse and canonical",
 "For every sequence of emitted events the canonical order is the sequence sorted by address (as the little-endian number by which addresses are merkleized), then type, then value, then emission position, and the two hint lists are permutations that are mutually inverse and map each order onto the other. The canonical hash depends only on the multiset of events, not on emission order, and changes when any event changes. Emission order is preserved in the recorded tape.",
 ["histories","inputs"],"all event sequences including duplicates and equal addresses",
 "One test checks three distinct events; duplicates, ties and long sequences are not covered.",
 ["sdk/src/native/eventtape.rs","sdk/src/common/types/event.rs"],
 [("orderings","sdk/src/native/eventtape.rs:OrderedEvents")],["hint lists, canonical hash"])
p("C15","Native recording attributes every action to the program that performed it",
 "At every point of a native execution, calls, events and input-tape writes are attributed to the program at the top of the current call context, whatever the nesting of calls and balanced manual identity changes; after a call returns, the caller's identity is restored. Calls appear on the call tape in the order they were made, each with the caller, callee, serialized argument and the serialized value its handler returned. Events and tape writes of one program never appear on another's tapes, and writes are concatenated in order without loss.",
 ["histories"],"all nestings of calls, identity changes, event emissions and tape writes",
 "One test records a single un-nested call.",
 ["sdk/src/native/calltape.rs","sdk/src/native/identity.rs","sdk/src/native/inputtape.rs","sdk/src/native/eventtape.rs"],
 [("identity stack","sdk/src/native/identity.rs"),("call recording","sdk/src/native/calltape.rs"),("tape writes","sdk/src/native/inputtape.rs")],["system tape after each action"])
p("C16","Guest input-tape reader behaves like a seekable file over its tape",
 "For every sequence of reads and seeks a guest performs on its public or private input, each read returns the number of bytes actually available (at most the requested number) and exactly the tape bytes at the current position, and reports zero at the end of the tape rather than aborting. The reported tape length equals the number of bytes written natively for that program. The two tapes never interfere.",
 ["histories","inputs"],"all sequences of reads and in-range seeks with any buffer sizes over all tape lengths",
 "The reader only exists in guest builds, so no runnable test executes it; examples read each tape once.",
 ["sdk/src/mozakvm/inputtape.rs","sdk/src/common/system.rs"],
 [("reader","sdk/src/mozakvm/inputtape.rs:RandomAccessEcallTape")],["bytes and counts returned to a guest running in the VM"])
p("C17","Guest heap allocations are aligned, disjoint and zero-initialised when asked",
 "For every sequence of allocations in a guest, each returned block has the requested alignment, does not overlap any other block ever returned, the program image or the stack in use, and zeroed requests read as zero. Requests that do not fit below the stack are refused. Reallocation preserves contents. Guest programs and the SDK work identically whatever the sizes and alignments requested.",
 ["histories"],"all sequences of allocation, reallocation and release requests",
 "The allocator only exists in guest builds and has no test.",
 ["sdk/src/core/alloc.rs","sdk/src/core/mod.rs"],
 [("bump allocator","sdk/src/core/alloc.rs:alloc_aligned")],["addresses returned to a guest running in the VM"])
p("C18","No memory-safety or aliasing violation in SDK or VM code",
 "No single-threaded use of the SDK's native API (including nested calls, event emission, tape writes and dumping) and no program executed in the VM causes undefined behaviour: no out-of-bounds or misaligned access, use of freed or uninitialised memory, aliasing violation or data race. Arithmetic in the VM and SDK never overflows silently where the result is used as a length, index or address.",
 ["programs","histories","inputs"],"all call histories through the safe API and all executed programs",
 "Tests run without sanitizers and never nest calls, so undefined behaviour is invisible to them.",
 ["sdk/src/common/system.rs","sdk/src/native/calltape.rs","sdk/src/common/types/poseidon2hash.rs","runner/src/state.rs"],
 [("global tape","sdk/src/common/system.rs:SYSTEM_TAPE"),("array flattening","sdk/src/common/types/poseidon2hash.rs")],["sanitizer and interpreter reports"])
p("C19","Identifiers, events and tapes survive every text and binary round trip",
 "Program identifiers, addresses, hashes, messages, objects, calls, events and whole system tapes are unchanged after formatting and parsing, JSON writing and reading, and binary archiving and reading. Distinct values have distinct text forms. Conversions between word and byte representations of hashes are mutually inverse and little-endian.",
 ["inputs"],"all values of the SDK's public data types",
 "No test serializes random values; examples only serialize small fixed data.",
 ["sdk/src/common/types/program_identifier.rs","sdk/src/common/types/poseidon2hash.rs","sdk/src/common/types/system_tape.rs","sdk/src/common/types/state_object.rs","sdk/src/common/types/raw_message.rs"],
 [("identifier text","sdk/src/common/types/program_identifier.rs"),("hash conversions","sdk/src/common/types/poseidon2hash.rs")],["round-tripped values"])

p("C20","Every honest execution yields traces that satisfy all table constraints",
 "For every program and input that the VM runs to a halt, trace generation succeeds and every generated table satisfies all of its own transition, first-row and last-row constraints on every row, with every table's height a power of two of at least the minimum. The traces represent exactly that execution: no step, memory access or system call is missing or added.",
 ["programs","inputs"],"all programs and inputs",
 "The circuit tests need the prover, which cannot be built offline, and even then sample a few programs per table.",
 ["circuits/src/generation.rs","circuits/src/cpu","circuits/src/memory","circuits/src/register","circuits/src/rangecheck","circuits/src/bitshift","circuits/src/xor","circuits/src/storage_device","circuits/src/tape_commitments","circuits/src/poseidon2","circuits/src/poseidon2_sponge","circuits/src/poseidon2_output_bytes","circuits/src/ops"],
 [("trace generation","circuits/src/generation.rs:generate_traces"),("constraints","circuits/src/*/stark.rs")],["generated traces, constraint values"])
p("C21","Cross-table lookups balance exactly on every honest execution",
 "For every program and input that the VM runs to a halt, each cross-table relation holds as an equality of multisets: the rows the looking tables send equal the rows the looked tables receive, with multiplicities. Public sub-tables expose exactly the program's initial memory, code and commitments. Every value that must be range-checked is.",
 ["programs","inputs"],"all programs and inputs",
 "The circuit tests cannot be built offline and sample a few programs.",
 ["circuits/src/stark/mozak_stark.rs","circuits/src/cross_table_lookup.rs","circuits/src/public_sub_table.rs"],
 [("lookup tables","circuits/src/stark/mozak_stark.rs:Lookups"),("lookup check","circuits/src/cross_table_lookup.rs")],["multisets sent and received per lookup"])
p("C22","No altered execution trace satisfies the constraint system",
 "A set of traces in which any value that carries execution meaning - a register, operand, result, address, memory byte, clock, opcode, tape byte, digest or multiplicity - has been altered, or a row dropped, added or exchanged, violates at least one table constraint or cross-table relation, unless it is itself an honest trace of the same public statement. This holds for every table and every column.",
 ["fault_sequences","programs"],"all single-cell and targeted multi-cell alterations of traces of all programs",
 "The suite hardly contains negative tests; soundness is about all cheating witnesses.",
 ["circuits/src/cpu","circuits/src/memory","circuits/src/register","circuits/src/stark/mozak_stark.rs"],
 [("constraints","circuits/src/*/stark.rs:generate_constraints"),("lookups","circuits/src/stark/mozak_stark.rs")],["constraint and lookup verdict on each altered trace"])
p("C24","Proofs verify for honest runs and for nothing else",
 "For every program and input the prover produces a proof the verifier accepts, and proving is deterministic given the same inputs. The verifier rejects the proof when any public input, opening, commitment, program identity, tape commitment or other proof component is altered, or when it is offered for another program or other public data. The verifier never crashes on a well-formed but wrong proof.",
 ["programs","fault_sequences"],"all programs and inputs, and all alterations of the resulting proofs",
 "The prover tests cannot be built offline and check acceptance of a few fixed programs only.",
 ["circuits/src/stark/prover.rs","circuits/src/stark/verifier.rs","circuits/src/stark/proof.rs","circuits/src/stark/batch_prover.rs","circuits/src/stark/batch_verifier.rs"],
 [("prover","circuits/src/stark/prover.rs:prove"),("verifier","circuits/src/stark/verifier.rs:verify_proof")],["verifier verdict"])
p("C27","Native and in-circuit constraint evaluation agree",
 "For every table and every assignment of current-row, next-row and public values, the constraints evaluated on field values, on packed values, on extension values and inside a recursive circuit are the same sequence of values. Constraint degrees never exceed the degree each table declares.",
 ["inputs"],"all row assignments of every table",
 "The circuit tests check degrees only for random rows in a build that is not available offline, and never compare evaluators.",
 ["circuits/src/expr.rs","expr/src","circuits/src"],
 [("expression evaluation","expr/src/lib.rs"),("constraint building","circuits/src/expr.rs")],["constraint values per evaluator"])
p("C28","Expression DSL evaluates exactly the algebra it was given",
 "For every expression built from variables, constants, additions, subtractions, multiplications, negations and the provided combinators, evaluating it in any evaluator equals the field value of that formula. Operator overloads in every combination of expressions and integers mean the mathematical operation, and counting or caching never changes a value.",
 ["inputs"],"all expressions and all assignments",
 "The expression tests evaluate half a dozen fixed formulas.",
 ["expr/src/lib.rs","expr/src/ops.rs"],
 [("expression builder","expr/src/lib.rs:ExprBuilder"),("operators","expr/src/ops.rs")],["evaluated values"])

p("C30","State-update proofs bind exactly the old and new sparse-tree roots",
 "A state-update proof exists exactly when the new tree root results from the old one by the summarised changes and no others: its public roots equal the true Merkle roots before and after, its address covers exactly the subtree in which objects were accessed, and its summary is the root over the accessed objects' addresses, old and new hashes, absent only where nothing changed. No witness proves a wrong root, address or summary.",
 ["inputs","fault_sequences"],"all trees, change sets and witness alterations",
 "The recursion tests need the prover, are unavailable offline, and use one or two fixed trees.",
 ["recproofs/src/circuits/state_update.rs","recproofs/src/subcircuits"],
 [("state update circuits","recproofs/src/circuits/state_update.rs")],["public inputs of proofs, prover verdict"])
p("C31","Event-root and tree-merge proofs equal native Merkle computation",
 "For every sequence of events, the event-root proof's hash equals the native canonical event hash and its variable hash and partial flags describe exactly those leaves; merging two such trees at common addresses yields the tree that building from the combined event list would give. No witness proves a different root.",
 ["inputs","fault_sequences"],"all event lists, tree shapes and witness alterations",
 "Unavailable offline and sampled on a few fixed trees.",
 ["recproofs/src/circuits/build_event_root.rs","recproofs/src/circuits/merge.rs","recproofs/src/circuits/merge/embed.rs"],
 [("event root","recproofs/src/circuits/build_event_root.rs"),("merge","recproofs/src/circuits/merge.rs")],["public inputs of proofs, prover verdict"])
p("C32","Object deltas accumulate and match ownership rules",
 "Accumulating the events on an address yields one delta whose content does not depend on the order of events and is refused when events conflict (different old or new values, contradictory ownership). Matching a delta with the old and new object succeeds exactly when every read, write, ensure, ownership transfer and credit rule is respected and yields the hashes of those objects.",
 ["inputs","histories","fault_sequences"],"all event multisets per address, all object pairs",
 "Unavailable offline and sampled on a few fixed events.",
 ["recproofs/src/circuits/accumulate_delta.rs","recproofs/src/circuits/match_delta.rs"],
 [("accumulation","recproofs/src/circuits/accumulate_delta/core.rs"),("matching","recproofs/src/circuits/match_delta/core.rs")],["public inputs of proofs, prover verdict"])
p("C34","Program, transaction and block proofs chain without gaps",
 "A transaction proof exists exactly when every program on its cast list has a program proof with the same call tape and its events, each once, made by that program's own circuit; a block proof exists exactly when it extends its base by one height and its state change matches the deltas of its transactions. Proof composition preserves every public value it claims to preserve.",
 ["histories","fault_sequences"],"all sets of programs, transactions and blocks",
 "Unavailable offline and sampled on one fixed chain.",
 ["recproofs/src/circuits/verify_program.rs","recproofs/src/circuits/verify_tx.rs","recproofs/src/circuits/verify_block.rs"],
 [("program proofs","recproofs/src/circuits/verify_program.rs"),("tx","recproofs/src/circuits/verify_tx.rs"),("block","recproofs/src/circuits/verify_block.rs")],["public inputs of proofs, prover verdict"])
p("C40","The node's sparse state tree equals a reference map after every history",
 "For every sequence of reads, writes, creations and deletions over any number of blocks, the state tree's root, and the old and new roots claimed by each block's state proof, equal the roots of a reference map holding the same objects. Operations with the same final effect give the same root, conflicting ones are refused, and a finalised tree no longer contains deleted objects.",
 ["histories"],"all operation sequences, addresses and block boundaries",
 "Unavailable offline and sampled on a few fixed addresses.",
 ["node/src/block_proposer/state.rs"],[("sparse tree","node/src/block_proposer/state.rs")],["root and proofs after each block"])
p("C41","Block proposal is independent of arrival order and loses nothing",
 "For every set of transactions and every order and interleaving in which their program proofs and events arrive, the transaction, match and block proofs cover exactly the completed transactions, with the event, delta and state roots that those transactions' events give in completion order. Parts that do not belong to the transaction are refused; unfinished transactions stay pending, are never included, and can complete in a later block. Address-tree reduction combines neighbours in address order and never drops or duplicates an item; a block is made exactly when the events and state changes of both sides agree, and never twice.",
 ["schedules","histories"],"all arrival orders and interleavings of transaction parts",
 "Unavailable offline and sampled on one fixed order.",
 ["node/src/block_proposer.rs","node/src/block_proposer/transactions.rs","node/src/block_proposer/matches.rs","node/src/block_proposer/block.rs"],
 [("reduction","node/src/block_proposer.rs:reduce_tree"),("transactions","node/src/block_proposer/transactions.rs"),("matches","node/src/block_proposer/matches.rs")],["block contents per arrival order"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
print(len(P))
