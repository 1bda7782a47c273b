#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

DEC = ["src/decoding/mod.rs", "src/decoding/encoding_mode_production.rs", "src/decoding/encoding_mode_testing.rs", "src/utils.rs", "src/opcode.rs"]
prop("C01", "Instruction encode/decode round trip in both word formats",
 "For every instruction variant of the instruction table, every condition, every choice of four 4-bit register indices and every pair of immediates, encoding to a word never panics and decoding the word returns exactly the same instruction, together with the instruction's own number in the table. The byte form is the big-endian form of the integer word. This holds for the 64-bit production format and for the 128-bit testing format, and the low 32 bits of the two are the same.",
 ["inputs"], "all table variants x 8 conditions x 16^4 registers x all immediates, in both formats (2^59 / 2^91 instructions)",
 "The tests decode one literal word and never encode; no test round-trips anything, and swapped registers, immediates or a truncated immediate would pass.",
 DEC + ["src/lib.rs"],
 [("encode_as_integer / parse_preliminary_variant_and_absolute_number", "src/decoding/encoding_mode_*.rs"), ("variant <-> number maps", "src/lib.rs"), ("nibble packing", "src/utils.rs")],
 ["word returned by the encoder", "fields of the decoded instruction"])
prop("C02", "Decoding is total and reads a fixed bit layout",
 "Every 64-bit word (production) and every 128-bit word (testing) decodes without panic. The instruction variant is the table row numbered by the low 11 bits, the condition is bits 13-15, the two source and two destination registers are the four nibbles of bits 16-31 in that order (first register in the low nibble), and the two immediates start at bit 32 and at bit 48 (production, 16 bits each) or 64 (testing, 32 bits each); no other bit influences the result.",
 ["inputs"], "all 2^64 production words and all 2^128 testing words",
 "Tests look at one word and only its low 11 bits; a shift, mask or truncation that is wrong only for some bits goes unseen.",
 DEC + ["src/definitions/condition.rs"],
 [("parse_preliminary_variant_and_absolute_number, variant_and_condition_from_*_word", "src/decoding/encoding_mode_*.rs"), ("Condition::materialize_variant", "src/definitions/condition.rs")],
 ["decoded instruction fields and number"])
prop("C03", "Canonical-word check is exact and encoders emit only canonical words",
 "A word is reported canonical exactly when the two unused bits (11 and 12) are zero, in both formats and independently of every other bit. Every word the encoder emits is canonical. Decoding a canonical word whose number is assigned to an instruction and encoding the result gives back the identical word, so no two canonical words mean the same instruction (in the testing format, up to the bits above the second immediate).",
 ["inputs"], "all 2^64 / 2^128 words and all encodable instructions",
 "No test calls the canonicality check; uniqueness of the encoding is a statement over all words.",
 DEC, [("is_canonical_encoding", "src/decoding/encoding_mode_*.rs"), ("encode_as_integer", "src/decoding/encoding_mode_*.rs")],
 ["canonicality verdict", "re-encoded word"])
prop("C04", "Instruction numbering is the fixed ISA assignment and is invertible",
 "Each of the 2048 eleven-bit numbers denotes the instruction variant the ISA assigns to it: families in the order invalid, nop, add, sub, mul, div, jump, binop, shift, ptr, near call, context, log, far call, ret, memory access, each expanded over sub-variant, source mode, destination mode and flags in that nesting order, followed by the variants added in version 1, and everything after them is the invalid instruction. Number 0 is the invalid instruction, no valid variant has two numbers, and both variant-to-number lookups return the unique number of each valid variant, 0 for the invalid one, and nothing for anything else. Building the table for a wider index only appends invalid rows.",
 ["inputs", "configurations"], "all 2048 numbers, all 14580 representable variants, both ISA versions, table widths from 11 bits up",
 "Tests compare the tables with each other and print a few rows; a permutation or substitution that changes what deployed bytecode means in all tables at once passes.",
 ["src/definitions/mod.rs", "src/lib.rs", "src/definitions/opcode_trait.rs", "src/imm_mem_modifiers.rs"],
 [("synthesize_opcode_decoding_tables", "src/definitions/mod.rs"), ("OPCODES_TABLE and the two lookup maps", "src/lib.rs")],
 ["rows of the decoding table", "lookup map contents"])
prop("C05", "A newer ISA version never changes the meaning of an older number",
 "Every number assigned in ISA version 0 denotes in version 1 the same operation with the same flags, the same destination mode and an equivalent source mode, so that its ergs price and its kernel-mode and static-context permissions are unchanged too. Numbers first assigned in version 1 are invalid in version 0, and version 1 adds exactly the immediate-offset forms of heap and auxiliary-heap access. The legacy table construction for version 0 gives the same table. All this holds for tables of every width from 11 to 20 bits.",
 ["configurations", "inputs"], "all 2048 numbers, both versions, table widths 11 to 20",
 "One test asserts a semantic-equality helper over the two tables, but that helper is itself part of the code under change, and prices, permissions and the set of added variants are not looked at.",
 ["src/definitions/mod.rs", "src/definitions/uma.rs", "src/definitions/opcode_trait.rs"],
 [("find_new_opcodes, semantically_equal", "src/definitions/mod.rs"), ("version-dependent operands of memory access", "src/definitions/uma.rs")],
 ["rows of the version 0, version 1 and legacy tables"])
prop("C06", "Operand capabilities of every instruction are sound and complete",
 "For every instruction sub-variant and both ISA versions the table has exactly one row for each combination of the source modes, destination modes and flags the sub-variant's declared operands allow, and no other row; in particular no destination is an immediate or code page and only instructions with a general first operand can touch memory through it. The declared operands are: general source for nop, jump and all arithmetic, binop, shift and pointer instructions; general destination for the same except jump; a second register output for multiplication and division; register-only operands elsewhere, except that from version 1 on the address of a heap access is a register or an immediate. The flags an instruction has are set-flags (bit 0) for arithmetic, binop and shift and in addition swap (bit 1) for subtraction, division and shifts; swap (bit 0) for pointer instructions; first-message (bit 0) for events and L1 messages; static (bit 0) and shard (bit 1) for far calls; to-label (bit 0) for all three returns; increment (bit 0) for memory accesses. The queries 'can read its first source from memory', 'can write its first destination to memory', 'uses memory', 'allowed as destination' and 'swap operands' agree with the operand types and flags.",
 ["inputs", "configurations"], "45 sub-variants x 9x9 operand types x 4 flag settings x 2 versions",
 "Tests only compare row counts produced by the same tables; nothing checks that a given variant is or is not encodable.",
 ["src/definitions/*.rs", "src/definitions/all.rs", "src/definitions/opcode_trait.rs", "src/imm_mem_modifiers.rs"],
 [("input_operands / output_operands per family", "src/definitions/*.rs"), ("all_variants_in_version, compute_encoding_density", "src/definitions/mod.rs"), ("can_have_src0_from_mem, can_write_dst0_into_memory, swap_operands", "src/definitions/opcode_trait.rs, src/definitions/all.rs, src/definitions/mod.rs")],
 ["presence of a variant in the table", "answers of the capability queries"])
prop("C07", "Kernel-mode and static-context restrictions hold for every instruction",
 "Exactly the instructions that mimic a caller, set the context value, set the pubdata price, increment the transaction number, emit an event, send an L1 message or call a precompile require kernel mode. Exactly storage write, event, L1 message and the three context-modifying instructions are forbidden in a static context. Both answers depend only on the operation, never on operands or flags, and only the invalid instruction is reported as an explicit panic.",
 ["inputs"], "all 14580 representable instruction variants",
 "No test asks for either permission.",
 ["src/definitions/*.rs", "src/definitions/all.rs", "src/definitions/mod.rs"],
 [("requires_kernel_mode, can_be_used_in_static_context, is_explicit_panic", "src/definitions/*.rs")],
 ["answers of the permission queries"])
prop("C08", "Ergs price of every instruction",
 "Every instruction is priced, without arithmetic overflow, as the sum of its declared circuit and I/O components; the price depends only on the operation and the price list entry for a number equals the price of the instruction with that number. The published prices are 6 ergs for instructions with general operands and jumps (6: nop, arithmetic, jump, binop, shift, pointer) and for a precompile call, 25 for a near call, 5 for context and returns, 182 for any far call, 158 for a storage read, 3501 for a storage write, 38 for an event, 156250 for an L1 message, 7 for a memory read and 13 for a memory write. The invalid instruction costs the maximal 32-bit amount, every other price is positive and below the transaction limit, a storage write never costs less than the re-entrancy protection threshold, and the L1-message price times the number of messages one batch can hold is at least the transaction limit. Any call costs at least the per-frame call cost on top of a plain instruction, so a full initial budget of ergs can never exceed the maximal call-stack depth.",
 ["inputs"], "all 14580 instruction variants and all 2048 numbers",
 "No test looks at a price.",
 ["src/definitions/*.rs", "src/lib.rs", "src/system_params.rs", "src/circuit_prices.rs"],
 [("ergs_price per family", "src/definitions/*.rs"), ("OPCODES_PRICES", "src/lib.rs"), ("minimal storage write cost", "src/system_params.rs")],
 ["price of a variant", "price list"])
prop("C09", "Circuit prices are the exact ceilings of cost per circuit unit",
 "Each published per-unit circuit price is the least integer that, multiplied by the units one circuit can take, covers the cost of the circuit, so no circuit is ever under-priced and none is over-priced by a whole unit; prices of single-instance circuits are zero only when pubdata alone already limits the number of units. Running the price generator reproduces exactly the published constants, and its rounding division is the mathematical ceiling for every pair of operands on which it does not overflow.",
 ["inputs", "configurations"], "all 2^64 operand pairs of the division; every published price constant",
 "The generator is a binary without tests; nothing ties its output to the committed constants.",
 ["src/circuit_pricing_generator/main.rs", "src/circuit_prices.rs", "src/system_params.rs"],
 [("ceil_div, main", "src/circuit_pricing_generator/main.rs"), ("price constants", "src/circuit_prices.rs")],
 ["price constants", "file written by the generator"])
prop("C10", "Property bitmask of an instruction is a lossless fixed-layout description",
 "For every instruction variant the bitmask has exactly one bit set in the operation group (16 bits), one in the sub-variant group (10), the flags as they are (2), one bit in the source-mode group (6) and one in the destination-mode group (4), zero padding up to bit 48, then the kernel-mode, static-context and explicit-panic bits and nothing above. Hence any two variants that differ in operation, sub-variant, flags or addressing mode have different bitmasks. The published bitmask list has at each number the bitmask of that number's instruction, and the reported widths match.",
 ["inputs", "configurations"], "all representable variants whose destination mode is legal, both ISA versions, all 2048 numbers",
 "Tests print bitmasks without asserting anything.",
 ["src/definitions/mod.rs", "src/lib.rs", "src/definitions/all.rs", "src/imm_mem_modifiers.rs"],
 [("opcode_as_integer_bitmask, synthesize_bit_decomposition_table", "src/definitions/mod.rs"), ("total_description_bits*", "src/lib.rs")],
 ["bitmask of a variant", "published bitmask list"])
prop("C11", "Masking an instruction yields the one canonical panic or nop",
 "Masking any decoded instruction into a panic (nop) gives the unconditional panic-return (nop) with all registers zero, in its one encodable variant, and leaves the immediates untouched; the result always encodes, to the published panic (nop) word plus those immediates. The published panic and nop words decode to exactly that instruction with zero immediates, are canonical, and their published bitmasks are the bitmasks of these instructions. The default instruction is an unconditional nop without flags, with register operands only, zero registers and zero immediates, so masking it into a panic (nop) encodes to exactly the published word.",
 ["inputs"], "all decoded instructions of both formats",
 "No test masks anything.",
 ["src/opcode.rs", "src/lib.rs", "src/decoding/encoding_mode_production.rs", "src/decoding/encoding_mode_testing.rs"],
 [("mask_into_panic, mask_into_nop", "src/opcode.rs"), ("nop_encoding, exception_revert_encoding", "src/decoding/encoding_mode_*.rs")],
 ["masked instruction", "published words"])
ABI = "src/definitions/abi/"
prop("C12", "Fat pointers pack, unpack and validate exactly",
 "Unpacking a 256-bit word reads offset, memory page, start and length as four consecutive little-endian 32-bit fields of the low half and ignores the high half; packing writes exactly these and zeroes the high half, so pack and unpack are inverse. Validation reports a non-zero-offset exception exactly when the pointer must be fresh and its offset is not zero, and an out-of-range exception exactly when start plus length exceeds 32 bits, and no other exception. In-bounds, valid-slice and trivial-slice tests are offset < length, offset <= length, and both zero; every pointer that is in bounds is a valid slice.",
 ["inputs"], "all 2^256 words, all 2^128 pointers, both freshness values",
 "There is no test of the ABI module at all.",
 [ABI + "fat_pointer.rs"], [("from_u256, to_u256, validate, validate_in_bounds, validate_as_slice, is_trivial", ABI + "fat_pointer.rs")],
 ["pointer fields, packed word, exception set"])
prop("C13", "Call and return ABI words are parsed field by field without interference",
 "For every 256-bit word the far-call parameters are: the fat pointer of the low half, passed ergs from bits 192-223, and forwarding mode, shard, constructor flag and system flag from the four following bytes, a flag being set exactly when its byte is non-zero. Return parameters take the fat pointer and the forwarding mode from the same places, near-call parameters take passed ergs from the low 32 bits. Forwarding bytes 0, 1 and 2 mean heap, forwarded pointer and auxiliary heap, every other byte means heap, and no other bit influences any field.",
 ["inputs"], "all 2^256 words",
 "There is no test of the ABI module at all.",
 [ABI + "far_call.rs", ABI + "ret.rs", ABI + "near_call.rs"],
 [("FarCallABI::from_u256, RetABI::from_u256, NearCallABI::from_u256, *ForwardPageType::from_u8", ABI + "far_call.rs, ret.rs, near_call.rs")],
 ["parsed fields"])
prop("C14", "Precompile-call and VM-metadata words are packed losslessly",
 "The inner precompile parameters pack into a 256-bit word as six consecutive 32-bit fields (input offset and length, output offset and length, page to read, page to write) and one 64-bit field, and unpacking is the exact inverse on every word. The user-facing precompile parameters read the same positions, ignoring the two page fields. VM metadata packs price per pubdata byte, heap sizes and the three shard ids into disjoint positions (bits 0, 64, 96, 224, 232, 240) with all other bits zero.",
 ["inputs"], "all 2^256 words and all parameter values",
 "There is no test of the ABI module at all.",
 [ABI + "precompile_call.rs", ABI + "meta.rs"],
 [("PrecompileCallABI::from_u256, PrecompileCallInnerABI::{from_u256,to_u256}, VmMetaParameters::to_u256", ABI + "precompile_call.rs, meta.rs")],
 ["parsed fields, packed words"])
prop("C15", "Versioned code hashes serialize and parse losslessly",
 "A 32-byte value parses as a versioned code hash exactly when its first byte is the version byte 1; parsing then serializing reproduces it byte for byte and serializing then parsing reproduces marker, big-endian 16-bit length in words and 28-byte digest. The stored form differs from the serialized form only in a zero marker byte, so it always parses as code at rest. Building from a digest and a word count keeps the last 28 digest bytes and the count and sets the at-rest marker.",
 ["inputs"], "all 2^256 byte strings and all layouts",
 "No test touches versioned hashes.",
 ["src/definitions/versioned_hash/mod.rs"],
 [("serialize, serialize_to_stored, try_deserialize, from_digest_and_preimage_num_words", "src/definitions/versioned_hash/mod.rs")],
 ["serialized bytes, parsed layout"])
prop("C16", "Bytecode hash accepts exactly legal lengths and commits to every word",
 "Hashing a bytecode succeeds exactly when its number of 32-byte words is odd and not above the largest program counter of the encoding mode (65535 in production). The result is the version byte 1, a zero marker, the big-endian 16-bit word count and the last 28 bytes of the SHA-256 of all words concatenated in order. The default entry point is the production mode.",
 ["inputs"], "all bytecodes of any length, both encoding modes",
 "The function is not even compiled by the test build here, and lengths around 65535 or a dropped word need inputs no test has.",
 ["src/utils.rs", "src/definitions/versioned_hash/mod.rs", "src/decoding/mod.rs"],
 [("bytecode_to_code_hash, bytecode_to_code_hash_for_mode", "src/utils.rs")],
 ["returned hash or error"])
prop("C17", "Fetching the instruction at a program counter is exact",
 "In production mode a program counter splits into a 256-bit word index and one of four sub-words, in testing mode one of two, and recombining them gives the counter back. Sub-word 0 is the most significant part of the word, so that instructions serialized one after another as bytes and read as a big-endian 256-bit word are fetched in that order. Program-counter arithmetic wraps at the width of the mode, conversion from 64 bits truncates, widening is lossless, and the published maximum is the largest value.",
 ["inputs"], "all program counters, all 256-bit words, all pairs of program counters, both modes",
 "No test fetches from a 256-bit word or splits a program counter.",
 ["src/decoding/mod.rs", "src/decoding/encoding_mode_production.rs", "src/decoding/encoding_mode_testing.rs"],
 [("split_pc, integer_representaiton_from_u256, encode_as_bytes", "src/decoding/*.rs"), ("AllowedPcOrImm for u16/u32", "src/decoding/mod.rs")],
 ["sub-word fetched, split counter"])
prop("C18", "Sub-variant, condition and family numbering is bijective and version-aware",
 "Within each instruction family, sub-variant to index and index to sub-variant are inverse, every index above the declared maximum is rejected, and the list of all sub-variants has each exactly once in index order; the declared maxima are the largest index in use. A sub-variant is available in a version exactly when the version is not older than the one that introduced it, and the per-version lists agree with that. Conditions and instruction families have fixed distinct numbers, the condition number mapping is inverse to its reverse mapping, and materializing a sub-variant of a family prototype stays in the family.",
 ["inputs", "configurations"], "16 families, all sub-variants, all 2^64 indices, all versions",
 "No test calls these mappings directly; only the index range of existing rows is reached.",
 ["src/definitions/*.rs", "src/definitions/all.rs", "src/definitions/condition.rs", "src/definitions/opcode_trait.rs"],
 [("variant_index, from_variant_index_for_version, all_variants, max_variant_idx*", "src/definitions/*.rs"), ("is_available_for_version, variants_for_version", "src/definitions/opcode_trait.rs"), ("materialize_variant, variant_index", "src/definitions/condition.rs")],
 ["indices and sub-variants returned"])
prop("C19", "System address, memory-page, register and offset constants are consistent",
 "Every system contract and precompile address lies below the unrestricted space, distinct contracts have distinct addresses, and every 160-bit formal address is the zero extension of the published number of the same contract. Bootloader pages are distinct, lie below the first dynamically allocated base page and never are the unmapped page; the registers reserved by a far call partition the register file. For every offset up to the largest dereferenceable one a 32-byte access ends within 32 bits, and the pointer-arithmetic limit is exactly 2^32. All of these have their published protocol values, and the storage, event, L1-message and precompile log records have the distinct auxiliary bytes 0 to 3.",
 ["inputs", "configurations"], "all 2^32 offsets, all published constants",
 "No test reads these constants.",
 ["src/system_params.rs", "src/lib.rs", "src/definitions/far_call.rs", "src/definitions/uma.rs", "src/definitions/ptr.rs"],
 [("address constants and formal addresses", "src/system_params.rs"), ("page constants", "src/lib.rs"), ("MAX_OFFSET_TO_DEREF, MAX_OFFSET_FOR_ADD_SUB", "src/definitions/uma.rs, ptr.rs")],
 ["published constants"])
prop("C20", "Published format constants and family descriptors match the formats",
 "Cutting any production or testing word at the published positions (11-bit number from bit 0, 3-bit condition from bit 13, 4-bit register indices from bits 16 and 24, 16 bits for number and condition together) gives exactly what the decoder returns and what the encoder was given; splitting a byte into nibbles and merging two nibbles are inverse. The published far-call and return byte positions (28 to 31) and the 128-bit pointer width locate, in every 256-bit word, exactly the bytes the parsers read for shard, constructor flag, system flag, forwarding mode and pointer. Every family declares each of its sub-variants once, in index order and in both versions, with its number of flags and its number of immediates (none for the invalid instruction, context, log and memory access; one for jump, far call and return; two for the others), the sixteen family prototypes answer in family order with unique names, and the printed decoding format states 38 bits in groups of 16, 10, 2, 6 and 4.",
 ["inputs", "configurations"], "all 2^64 and 2^128 instruction words, all 2^256 ABI words, all 45 sub-variants in both versions",
 "Tests print the format and read one literal word; nothing compares a published position with what a parser reads.",
 ["src/lib.rs", "src/definitions/abi/far_call.rs", "src/definitions/abi/ret.rs", "src/definitions/abi/fat_pointer.rs", "src/definitions/*.rs", "src/utils.rs"],
 [("layout constants", "src/lib.rs, src/definitions/abi/*.rs"), ("variants_data of each family", "src/definitions/*.rs"), ("split_as_u4, merge_u4", "src/utils.rs"), ("compute_decoding_format, OPCODE_PROTOTYPES", "src/definitions/mod.rs, src/lib.rs")],
 ["published constants", "declared sub-variant data"])
prop("C21", "Protocol limits and economic parameters protect what they should",
 "Whatever ergs a value transfer leaves its callee (at most the simulator's additive cost minus its minimal use, or 2300), they never pay for a storage write, and any ergs budget divided by the per-frame cost stays within the maximal stack depth with 80 frames to spare. Memory grows at one erg per byte so that any growth costs a 32-bit amount; the allowance for decommitting code covers 16000 words at the published price per word; a transaction fills at most 1000 circuits; a repeated storage write never publishes more bytes than an initial one; every instruction with an I/O component costs at least that component plus a plain instruction. The published values are: transaction limit 80000000, 80000 ergs per circuit, additive cost 75500, minimal use 72000, 64000 for decommitment, 128 prepaid bytes, write thresholds 3501, stipend of 1024 bytes, 2^24 addressable heap bytes, unlimited bootloader memory, 64 and 40 bytes per initial and repeated write, 88 bytes per L1 message, 110000 bytes per batch, I/O prices 150 (read), 250 (write), 25 (event) and 100 (L1 message), initial frame with exit at 0 and handler at 65535, empty initial stack, 4 sponges and 1 pending cycle.",
 ["inputs", "configurations"], "all 2^32 ergs amounts and byte counts, all 2^16 word counts, all 45 operations",
 "No test reads these parameters; a change of one of two related constants goes unseen.",
 ["src/system_params.rs", "src/lib.rs", "src/definitions/log.rs"],
 [("economic parameters", "src/system_params.rs"), ("I/O and frame prices", "src/lib.rs")],
 ["published constants", "price of a storage write"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
