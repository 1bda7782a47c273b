//! C21 protocol limits and economic parameters keep their published values and protect what they are meant to.
use crate::dense::*;
use crate::spec;
use zkevm_opcode_defs::circuit_prices::*;
use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::system_params::*;
use zkevm_opcode_defs::*;

contract! {
    fn storage_write_price() -> u32;
    ensures |r| *r == 3501;
    { Opcode::Log(LogOpcode::StorageWrite).ergs_price() }
}

suite! {
    fn price_of_a_storage_write(s) checks super::storage_write_price {
        super::storage_write_price();
        let _ = s;
    }

    #[kani::proof]
    #[cfg_attr(not(feature = "history"), kani::stub_verified(super::storage_write_price))]
    fn lemma_no_write_from_a_stipend(s) {
        // whatever part of the transfer stipend or of the simulator's additive cost is left, it buys no write
        let left = s.u32();
        let stipend = MSG_VALUE_SIMULATOR_ADDITIVE_COST as u64 - MSG_VALUE_SIMULATOR_MIN_USED_ERGS as u64;
        given!(s, left as u64 <= stipend || left <= 2300);
        let p = super::storage_write_price();
        assert!(left < p, "a callee that only has the stipend cannot write to storage");
        assert!(left < MIN_STORAGE_WRITE_PRICE_FOR_REENTRANCY_PROTECTION && left < MIN_STORAGE_WRITE_COST, "nor below the published thresholds");
        reach!(left == 3500, "the whole stipend");
    }

    #[kani::proof]
    fn message_value_simulator(s) {
        assert!(DECOMMITMENT_MSG_VALUE_SIMULATOR_OVERHEAD == 64000, "decommitment allowance");
        assert!(MSG_VALUE_SIMULATOR_ADDITIVE_COST == 75500, "additive cost");
        assert!(MSG_VALUE_SIMULATOR_MIN_USED_ERGS == 72000, "minimal use");
        assert!(MSG_VALUE_SIMULATOR_PUBDATA_BYTES_TO_PREPAY == 128, "prepaid pubdata");
        assert!(MIN_STORAGE_WRITE_PRICE_FOR_REENTRANCY_PROTECTION == 3501 && MIN_STORAGE_WRITE_COST == 3501, "storage write thresholds");
        // the decommitment allowance pays for that many words
        let words = s.u16() as u64;
        let cost = words * ERGS_PER_CODE_WORD_DECOMMITTMENT as u64;
        assert!(words > 16000 || cost <= DECOMMITMENT_MSG_VALUE_SIMULATOR_OVERHEAD as u64, "the allowance covers 16000 words of code");
        assert!(ERGS_PER_CODE_WORD_DECOMMITTMENT == CODE_DECOMMITMENT_COST_PER_WORD_IN_ERGS && ERGS_PER_CODE_WORD_DECOMMITTMENT == 4, "price of a code word");
        assert!(cost < MAX_TX_ERGS_LIMIT as u64, "any code fits a transaction");
        reach!(words == 16000, "largest covered code");
    }

    #[kani::proof]
    fn memory_growth(s) {
        let bytes = s.u32();
        let cost = bytes as u64 * MEMORY_GROWTH_ERGS_PER_BYTE as u64;
        assert!(cost == bytes as u64, "one erg per byte, so the cost of any growth is a 32-bit amount");
        assert!(bytes <= BOOTLOADER_MAX_MEMORY && BOOTLOADER_MAX_MEMORY == u32::MAX, "the bootloader's memory is not limited");
        assert!(NEW_FRAME_MEMORY_STIPEND == 1024, "published stipend");
        assert!(LOG2_NUM_ADDRESSABLE_HEAP_BYTES == 24 && (NEW_FRAME_MEMORY_STIPEND as u64) < 1 << LOG2_NUM_ADDRESSABLE_HEAP_BYTES, "the stipend lies in the addressable heap");
        assert!(cost < 1 << LOG2_NUM_ADDRESSABLE_HEAP_BYTES || bytes >= 1 << LOG2_NUM_ADDRESSABLE_HEAP_BYTES, "addressable heap");
    }

    #[kani::proof]
    fn initial_frame(s) {
        let pc = s.u16();
        assert!(INITIAL_FRAME_SUCCESSFUL_EXIT_PC == 0 && INITIAL_FRAME_FORMAL_EH_LOCATION == u16::MAX, "published exit locations");
        assert!(pc <= INITIAL_FRAME_FORMAL_EH_LOCATION, "the formal handler is the last counter");
        assert!(<u16 as AllowedPcOrImm>::max() == INITIAL_FRAME_FORMAL_EH_LOCATION, "and the largest counter of the production mode");
        assert!(INITIAL_SP_ON_FAR_CALL == 0, "a call starts with an empty stack");
        assert!(VM_INITIAL_FRAME_ERGS == u32::MAX, "the initial frame has the largest budget");
        assert!(MAX_PENDING_CYCLES == 1 && NUM_SPONGES == 4, "pipeline parameters");
    }

    #[kani::proof]
    fn limits(s) {
        // ergs of any transaction, in whole circuits
        let ergs = s.u32();
        assert!(MAX_TX_ERGS_LIMIT == 80_000_000 && ERGS_PER_CIRCUIT == 80_000, "published limits");
        assert!(ergs > MAX_TX_ERGS_LIMIT || ergs / ERGS_PER_CIRCUIT <= 1000, "a transaction fills at most a thousand circuits");
        assert!(MAX_TX_ERGS_LIMIT < VM_INITIAL_FRAME_ERGS, "a transaction never gets the invalid instruction's price");
        // depth reachable with any budget
        let budget = s.u32();
        assert!(VM_MAX_STACK_DEPTH == 214748364 + 80, "published stack depth");
        assert!(budget / CALL_LIKE_ERGS_COST + 80 <= VM_MAX_STACK_DEPTH, "any budget reaches at most the maximal depth");
        assert!(CALL_LIKE_ERGS_COST == 20, "published frame cost");
    }

    #[kani::proof]
    fn pubdata(s) {
        assert!(INITIAL_STORAGE_WRITE_PUBDATA_BYTES == 64 && REPEATED_STORAGE_WRITE_PUBDATA_BYTES == 40, "bytes of a storage write");
        assert!(L1_MESSAGE_PUBDATA_BYTES == 88, "bytes of an L1 message: shard, flag, number, address, key, value");
        assert!(MAX_PUBDATA_PER_BLOCK == 110_000, "bytes of a batch");
        // a repeated write never costs more than an initial one
        let n = s.u16() as u64;
        assert!(n * REPEATED_STORAGE_WRITE_PUBDATA_BYTES as u64 <= n * INITIAL_STORAGE_WRITE_PUBDATA_BYTES as u64, "a repeated write publishes no more than an initial one");
    }

    #[kani::proof]
    fn input_output_prices(s) {
        assert!(STORAGE_READ_IO_PRICE == 150 && STORAGE_WRITE_IO_PRICE == 250 && EVENT_IO_PRICE == 25 && L1_MESSAGE_IO_PRICE == 100, "published I/O prices");
        assert!(AVERAGE_OPCODE_ERGS == 5 && RICH_ADDRESSING_OPCODE_ERGS == 6, "published base prices");
        // every instruction with an I/O component costs more than the component
        let op = s.below(45);
        let price = op_from(op).ergs_price();
        let io = match op {
            29 | 34..=36 => STORAGE_READ_IO_PRICE,
            30 => STORAGE_WRITE_IO_PRICE,
            31 => L1_MESSAGE_IO_PRICE,
            32 => EVENT_IO_PRICE,
            _ => 0,
        };
        assert!(price >= io + AVERAGE_OPCODE_ERGS, "an instruction costs its I/O on top of its cycle");
        reach!(op == 30, "storage write");
    }
}
