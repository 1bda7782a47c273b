"""What every check covers: functions under contract, assumptions, bounds. Used by check.py and gen_manifest.py."""

COMMON_TRUSTED = [
    "rustc and the Kani compiler translate /repo faithfully to goto programs; CBMC 6 and its SAT solver are sound",
    "Kani's models of the Rust standard library (allocation, slices, Vec)",
    "k256 is replaced by an empty crate (it is only re-exported); sha2, sha3 and blake2 come from /verif/harness/vendor",
    "the specification functions in harness/src/spec.rs and harness/src/props/ say what the property says",
]
TABLES = ("the lazily built globals take no input: their real initializers are run natively in this run and Kani sees the "
          "resulting values (target/gen/tables.rs) through stubs of their Deref; that evaluation is trusted to be deterministic")
HASHMAP = "HashMap::get and contains_key on the two variant-to-number maps are stubbed by the map contents read out natively in this run"


def p(level="proof", functions=(), trusted=(), bounded=(), bound=None, native_only=(), thorough_only=(), technique=None, note="", assumptions=()):
    d = dict(level=level, functions=list(functions), trusted=list(trusted), bounded=list(bounded),
             native_only=list(native_only), thorough_only=list(thorough_only), technique=technique or "Kani contracts on the real functions (all inputs)", note=note,
             assumptions=list(assumptions) + list(trusted))
    if bound:
        d["bound"] = bound
    return d


FAMILIES = "Invalid Nop Add Sub Mul Div Jump Binop Shift Ptr NearCall Context Log FarCall Ret UMA".split()

PROPERTIES = {
    "C01": p(functions=["EncodingModeProduction::encode_as_integer", "EncodingModeTesting::encode_as_integer",
                        "EncodingMode::encode_as_bytes", "parse_preliminary_variant_and_absolute_number (both modes)",
                        "variant_and_condition_from_u64_word / _u128_word", "split_byte_into_nibbles and its inverse", "DecodedOpcode fields"],
             trusted=[TABLES, HASHMAP], note="All rows, conditions, registers and immediates at once, in both formats; loop-free, so complete."),
    "C02": p(functions=["parse_preliminary_variant_and_absolute_number (both modes)", "variant_and_condition_from_u64_word / _u128_word",
                        "Condition::materialize_variant", "utils::split_byte_into_nibbles"],
             trusted=[TABLES], note="proof_for_contract over all 2^64 and all 2^128 words."),
    "C03": p(functions=["is_canonical_encoding (both modes)", "encode_as_integer (both modes)", "parse_preliminary_variant_and_absolute_number (both modes)"],
             trusted=[TABLES, HASHMAP], note="All words, all encodable instructions."),
    "C04": p(functions=["synthesize_opcode_decoding_tables", "OPCODES_TABLE", "OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP",
                        "OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP"],
             trusted=[TABLES, HASHMAP],
             note="The constructors are input-free: they are executed, and every row and every map entry is proved equal to the ISA specification."),
    "C05": p(functions=["synthesize_opcode_decoding_tables (versions 0 and 1)", "synthesize_opcode_decoding_tables_legacy",
                        "OpcodeVariant::ergs_price, requires_kernel_mode, can_be_used_in_static_context"],
             trusted=[TABLES], note="All 2048 numbers in both versions."),
    "C06": p(functions=["OpcodeProps::input_operands / output_operands of every family", "can_have_src0_from_mem", "can_write_dst0_into_memory",
                        "OpcodeVariant::swap_operands", "ImmMemHandlerFlags / RegOrImmFlags / Operand queries", "synthesize_opcode_decoding_tables"],
             trusted=[TABLES], note="45 operations x 9 x 9 operand types x 4 flag settings x 2 versions."),
    "C07": p(functions=["requires_kernel_mode", "can_be_used_in_static_context", "is_explicit_panic (OpcodeVariant and Opcode)"],
             note="proof_for_contract over all 14580 representable variants."),
    "C08": p(functions=["OpcodeVariant::ergs_price", "Opcode::ergs_price", "OPCODES_PRICES", "the price constants of lib.rs and system_params.rs"],
             trusted=[TABLES], note="proof_for_contract over all variants; the arithmetic lemmas use the price contract only (stub_verified)."),
    "C09": p(functions=["ceil_div (all operands, Verus)", "generator main", "constants of circuit_prices.rs"],
             trusted=["the text of ceil_div is extracted mechanically from the generator on every run; nothing but its position is changed",
                      "the generator is executed once per run in a scratch directory; its output file is read back",
                      "Verus and Z3 are sound"],
             bounded=["small_operands"], bound="small_operands: every pair of operands below 2^7 (stand-in; the Verus proof has no bound)",
             native_only=["any_operands"], thorough_only=[f"unit_{i}" for i in range(15)], technique="Verus contract on the extracted ceil_div; Kani contracts on the published constants",
             note="ceil_div is proved for every pair that does not overflow; every published constant is proved to be the least covering price."),
    "C10": p(functions=["OpcodeVariant::opcode_as_integer_bitmask through synthesize_bit_decomposition_table", "max_num_variants_for_version",
                        "max_num_flags_for_version", "total_description_bits*", "OPCODES_PROPS_INTEGER_BITMASKS"],
             trusted=[TABLES], note="The two maxima are proved by their own harnesses and used as contracts where the bitmask is built."),
    "C11": p(functions=["DecodedOpcode::mask_into_panic / mask_into_nop (both modes)", "nop_encoding, exception_revert_encoding", "encode_as_integer"],
             trusted=[TABLES, HASHMAP], note="All decoded instructions of both formats."),
    "C12": p(functions=["FatPointer::{from_u256,to_u256,validate,validate_in_bounds,validate_as_slice,is_trivial,empty}", "FatPointerValidationException"],
             note="All 2^256 words, all pointers; loop-free."),
    "C13": p(functions=["FarCallABI::from_u256", "RetABI::from_u256", "NearCallABI::from_u256", "FarCallForwardPageType / RetForwardPageType::from_u8"],
             note="proof_for_contract over all 2^256 words."),
    "C14": p(functions=["PrecompileCallABI::from_u256", "PrecompileCallInnerABI::{from_u256,to_u256}", "VmMetaParameters::to_u256"],
             note="All words and all parameter values."),
    "C15": p(functions=["VersionedHashGeneric::{serialize,serialize_to_stored,try_deserialize,from_digest_and_preimage_num_words}", "ContractCodeSha256 definition"],
             note="All 32-byte strings and all layouts."),
    "C16": p(functions=["utils::bytecode_to_code_hash", "utils::bytecode_to_code_hash_for_mode (both modes)", "impl AllowedPcOrImm for u16 / u32"],
             trusted=["SHA-256 is replaced by its contract (a function of the concatenation of the byte strings it was fed); natively the published sha2 crate is used",
                      "the text of the two functions and of the two counter implementations is cut out of /repo on every run and put into harness/verus/utils.rs; "
                      "added are a ghost iterator name, one loop invariant and one lemma call; the module paths are provided by contracts of the callees",
                      "in the Verus part the contracts of VersionedHashGeneric are assumed (Kani proves them in C15)",
                      "Verus and Z3 are sound"],
             bounded=["accepted_"], bound="accepted_*: the whole compiled function on programs of 1, 3, 5 and 9 words, in addition to the unbounded Verus proof",
             native_only=["boundary_lengths", *(f"every_length_{i}" for i in range(4))], technique="Verus contract on the extracted hashing functions (any number of words); Kani contracts on the compiled functions",
             note="Verus: accepted lengths and the hashed byte string for every program, with a loop invariant. Kani: refused lengths for every length, whole function for small programs."),
    "C17": p(functions=["split_pc, integer_representaiton_from_u256 (both modes)", "AllowedIntegerRepresentation::encode_as_bytes", "AllowedPcOrImm for u16 and u32"],
             note="All counters, words and pairs."),
    "C18": p(functions=[f"{f}Opcode::{{variant_index, from_variant_index_for_version, all_variants, max_variant_idx*, variants_for_version, variants_added_in_version}}" for f in FAMILIES]
             + ["Condition::{variant_index, materialize_variant}", "Opcode::{variant_idx, materialize_subvariant_from_prototype_for_version}"],
             note="All 64-bit indices, all sub-variants, both versions, for each of the 16 families."),
    "C19": p(functions=["the constants of system_params.rs, lib.rs, far_call.rs, ret.rs, uma.rs, ptr.rs", "the lazily built formal addresses"],
             trusted=[TABLES], note="All offsets, registers and pairs of constants."),
    "C20": p(functions=["the layout constants of lib.rs, condition.rs, abi/far_call.rs, abi/ret.rs and FatPointer", "OpcodeProps::variants_data of all 16 families",
                        "split_as_u4, merge_u4", "OPCODE_PROTOTYPES", "compute_decoding_format", "parse_preliminary_variant_and_absolute_number, encode_as_integer (both modes)",
                        "FarCallABI::from_u256, RetABI::from_u256, FatPointer::from_u256"],
             trusted=[TABLES, HASHMAP], note="All words of both formats, all 256-bit words, all sub-variants in both versions."),
    "C21": p(functions=["the constants of system_params.rs and lib.rs", "Opcode::ergs_price", "AllowedPcOrImm::max"],
             note="All ergs amounts, byte and word counts; the stipend lemma uses the price contract only (stub_verified)."),
}
