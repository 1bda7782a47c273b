//! C19 system address, memory-page, register and offset constants are consistent.
use crate::real::formal_address;
use zkevm_opcode_defs::system_params as p;
use zkevm_opcode_defs::*;

/// every contract with the number the protocol publishes for it
const CONTRACTS: [(u16, u16); 18] = [
    (p::ADDRESS_ECRECOVER, 1),
    (p::ADDRESS_SHA256, 2),
    (p::ADDRESS_RIPEMD160, 3),
    (p::ADDRESS_IDENTITY, 4),
    (p::ADDRESS_BOOTLOADER, 0x8001),
    (p::ADDRESS_ACCOUNT_CODE_STORAGE, 0x8002),
    (p::ADDRESS_NONCE_HOLDER, 0x8003),
    (p::ADDRESS_KNOWN_CODES_STORAGE, 0x8004),
    (p::ADDRESS_IMMUTABLE_SIMULATOR, 0x8005),
    (p::ADDRESS_CONTRACT_DEPLOYER, 0x8006),
    (p::ADDRESS_FORCE_DEPLOYER, 0x8007),
    (p::ADDRESS_L1_MESSENGER, 0x8008),
    (p::ADDRESS_MSG_VALUE, 0x8009),
    (p::ADDRESS_ETH_TOKEN, 0x800a),
    (p::ADDRESS_SYSTEM_CONTEXT, 0x800b),
    (p::ADDRESS_BOOTLOADER_UTILITIES, 0x800c),
    (p::ADDRESS_EVENT_WRITER, 0x800d),
    (p::ADDRESS_KECCAK256, 0x8010),
];

/// the number each 160-bit formal address extends
const FORMAL: [u16; 7] = [
    p::ADDRESS_BOOTLOADER,
    p::DEPLOYER_SYSTEM_CONTRACT_ADDRESS_LOW,
    p::ADDRESS_NONCE_HOLDER,
    p::ADDRESS_KNOWN_CODES_STORAGE,
    p::ADDRESS_KECCAK256,
    p::ADDRESS_SHA256,
    p::ADDRESS_ECRECOVER,
];

const PAGES: [u32; 5] = [
    BOOTLOADER_CODE_PAGE,
    BOOTLOADER_CALLDATA_PAGE,
    BOOTLOADER_STACK_PAGE,
    BOOTLOADER_HEAP_PAGE,
    BOOTLOADER_AUX_HEAP_PAGE,
];

suite! {
    #[kani::proof]
    fn contract_addresses(s) {
        let (i, j) = (s.below(18) as usize, s.below(18) as usize);
        let (a, n) = CONTRACTS[i];
        assert!(a == n, "published contract number");
        assert!((a as u64) < p::ADDRESS_UNRESTRICTED_SPACE && p::ADDRESS_UNRESTRICTED_SPACE == 1 << 16, "below the unrestricted space");
        assert!(i == j || a != CONTRACTS[j].0, "distinct contracts have distinct addresses");
        reach!(i == 17 && j == 0, "first and last");
    }

    #[kani::proof]
    fn precompile_numbers(s) {
        assert!(p::KECCAK256_ROUND_FUNCTION_PRECOMPILE_ADDRESS == p::ADDRESS_KECCAK256, "keccak precompile");
        assert!(p::SHA256_ROUND_FUNCTION_PRECOMPILE_ADDRESS == p::ADDRESS_SHA256, "sha256 precompile");
        assert!(p::ECRECOVER_INNER_FUNCTION_PRECOMPILE_ADDRESS == p::ADDRESS_ECRECOVER, "ecrecover precompile");
        assert!(p::BOOTLOADER_FORMAL_ADDRESS_LOW == p::ADDRESS_BOOTLOADER, "bootloader");
        assert!(p::DEPLOYER_SYSTEM_CONTRACT_ADDRESS_LOW == 0x8002, "deployer of the formal address list");
        let _ = s;
    }

    #[kani::proof]
    fn formal_addresses(s) {
        let i = s.below(7) as usize;
        let k = s.below(20) as usize;
        let a = formal_address(i);
        let e = match k {
            18 => (FORMAL[i] >> 8) as u8,
            19 => FORMAL[i] as u8,
            _ => 0,
        };
        assert!(a[k] == e, "formal address is the zero extension of the published number");
    }

    #[kani::proof]
    fn bootloader_pages(s) {
        let (i, j) = (s.below(5) as usize, s.below(5) as usize);
        assert!(i == j || PAGES[i] != PAGES[j], "bootloader pages are distinct");
        assert!(PAGES[i] != UNMAPPED_PAGE, "no bootloader page is the unmapped page");
        assert!(PAGES[i] < STARTING_BASE_PAGE, "bootloader pages lie below the dynamically allocated ones");
        const EXPECTED: [u32; 5] = [8, 7, 9, 10, 11];
        assert!(PAGES[i] == EXPECTED[i] && UNMAPPED_PAGE == 0 && STARTING_BASE_PAGE == 2048 && BOOTLOADER_BASE_PAGE == 8, "published page numbers");
        assert!(NEW_MEMORY_PAGES_PER_FAR_CALL == 8 && BOOTLOADER_AUX_HEAP_PAGE - BOOTLOADER_BASE_PAGE < NEW_MEMORY_PAGES_PER_FAR_CALL, "a frame's pages fit its allotment");
        assert!(STARTING_BASE_PAGE % NEW_MEMORY_PAGES_PER_FAR_CALL == 0, "allocation starts on a frame boundary");
        assert!(STARTING_TIMESTAMP == 1024 && TIME_DELTA_PER_CYCLE == 4, "published clock");
    }

    #[kani::proof]
    fn log_auxiliary_bytes(s) {
        assert!(p::STORAGE_AUX_BYTE == 0 && p::EVENT_AUX_BYTE == 1 && p::L1_MESSAGE_AUX_BYTE == 2 && p::PRECOMPILE_AUX_BYTE == 3, "published log record bytes");
        let _ = s;
    }

    #[kani::proof]
    fn far_call_registers(s) {
        // every register belongs to exactly one group
        let r = s.u8();
        let groups = (r == CALL_IMPLICIT_CALLDATA_FAT_PTR_REGISTER) as u32
            + (r == CALL_IMPLICIT_CONSTRUCTOR_MARKER_REGISTER) as u32
            + (CALL_SYSTEM_ABI_REGISTERS.start <= r && r < CALL_SYSTEM_ABI_REGISTERS.end) as u32
            + (CALL_RESERVED_RANGE.start <= r && r < CALL_RESERVED_RANGE.end) as u32
            + (r == CALL_IMPLICIT_PARAMETER_REG_IDX) as u32;
        assert!(groups == ((r as usize) < REGISTERS_COUNT) as u32, "far-call registers partition the register file");
        assert!(REGISTERS_COUNT == 15 && CALL_IMPLICIT_CALLDATA_FAT_PTR_REGISTER == 0 && CALL_IMPLICIT_CONSTRUCTOR_MARKER_REGISTER == 1, "published registers");
        assert!(CALL_SYSTEM_ABI_REGISTERS.start == 2 && CALL_SYSTEM_ABI_REGISTERS.end == 12 && CALL_IMPLICIT_PARAMETER_REG_IDX == 14, "published registers");
    }

    #[kani::proof]
    fn ret_registers(s) {
        let r = s.u8();
        let groups = (r == RET_IMPLICIT_RETURNDATA_PARAMS_REGISTER) as u32
            + (r == RET_RESERVED_REGISTER_0) as u32
            + (r == RET_RESERVED_REGISTER_1) as u32
            + (r == RET_RESERVED_REGISTER_2) as u32;
        assert!(groups <= 1 && (groups == 0 || (r as usize) < REGISTERS_COUNT), "return registers are distinct registers");
        assert!(RET_IMPLICIT_RETURNDATA_PARAMS_REGISTER == 0 && RET_RESERVED_REGISTER_0 == 1 && RET_RESERVED_REGISTER_1 == 2 && RET_RESERVED_REGISTER_2 == 3, "published registers");
    }

    #[kani::proof]
    fn dereferenceable_offsets(s) {
        let o = s.u32();
        let (max, low) = (MAX_OFFSET_TO_DEREF, MAX_OFFSET_TO_DEREF_LOW_U32);
        assert!(max.0[0] == low as u64 && max.0[1] == 0 && max.0[2] == 0 && max.0[3] == 0, "both forms of the limit agree");
        assert!(low == u32::MAX - 32, "published limit");
        assert!(o > low || o as u64 + 32 <= u32::MAX as u64, "a 32-byte access at a dereferenceable offset ends within 32 bits");
        let m = MAX_OFFSET_FOR_ADD_SUB;
        assert!(m.0[0] == 1 << 32 && m.0[1] == 0 && m.0[2] == 0 && m.0[3] == 0, "the pointer-arithmetic limit is 2^32");
        reach!(o == low, "the largest dereferenceable offset");
    }
}
