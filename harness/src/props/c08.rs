//! C08 ergs price of every instruction.
use crate::dense::*;
use crate::real::*;
use crate::spec;
use zkevm_opcode_defs::system_params::*;
use zkevm_opcode_defs::*;

contract! {
    fn price(d: u16) -> u32;
    requires (d as usize) < VARIANTS;
    ensures |r| *r == spec::price(parts(d).0);
    { variant(d).ergs_price() }
}

contract! {
    fn operation_price(op: u16) -> u32;
    requires op < 45;
    ensures |r| *r == spec::price(op);
    { op_from(op).ergs_price() }
}

suite! {
    fn price_of_variant(s) checks super::price {
        let d = s.below(VARIANTS as u16);
        super::price(d);
    }

    fn price_of_operation(s) checks super::operation_price {
        let op = s.below(45);
        super::operation_price(op);
    }

    #[kani::proof]
    fn price_list(s) {
        let i = s.below(2048);
        let d = row_default(i);
        given!(s, (d as usize) < VARIANTS);
        assert!(published_price(i) == op_from(parts(d).0).ergs_price(), "list entry is the price of the instruction with that number");
        reach!(d != spec::INVALID, "valid instruction");
    }

    #[kani::proof]
    #[cfg_attr(not(feature = "history"), kani::stub_verified(super::operation_price))]
    fn lemma_bounds(s) {
        let op = s.below(45);
        let p = super::operation_price(op);
        assert!((op == 0) == (p == u32::MAX), "only the invalid instruction costs everything");
        assert!(op == 0 || (p > 0 && p < MAX_TX_ERGS_LIMIT), "every other price is positive and below the transaction limit");
        assert!(op != 30 || p >= MIN_STORAGE_WRITE_PRICE_FOR_REENTRANCY_PROTECTION, "a storage write costs at least the re-entrancy threshold");
        assert!(op != 30 || p >= MIN_STORAGE_WRITE_COST, "a storage write costs at least the minimal storage write cost");
        assert!(op != 31 || p as u64 * 512 >= MAX_TX_ERGS_LIMIT as u64, "a batch of L1 messages costs the transaction limit");
        assert!(!(op == 18 || (34..=36).contains(&op)) || p >= CALL_LIKE_ERGS_COST + AVERAGE_OPCODE_ERGS, "a call pays for its frame");
        reach!(op == 30, "storage write");
    }

    #[kani::proof]
    #[cfg_attr(not(feature = "history"), kani::stub_verified(super::operation_price))]
    fn lemma_stack_depth(s) {
        // calls affordable from a full initial budget never exceed the maximal depth
        let op = if s.bool() { 18 } else { 34 + s.below(3) };
        let p = super::operation_price(op);
        assert!(VM_INITIAL_FRAME_ERGS == u32::MAX, "initial budget");
        assert!(p as u64 * (VM_MAX_STACK_DEPTH as u64 + 1) > VM_INITIAL_FRAME_ERGS as u64, "one call more than the maximal depth is not affordable");
        assert!(CALL_LIKE_ERGS_COST as u64 * (VM_MAX_STACK_DEPTH as u64 + 1) > VM_INITIAL_FRAME_ERGS as u64, "the per-frame cost alone bounds the depth");
    }

    #[kani::proof]
    fn declared_components(s) {
        use zkevm_opcode_defs::circuit_prices::*;
        let op = s.below(45);
        let (cycle, ram) = (VM_CYCLE_COST_IN_ERGS as u64, RAM_PERMUTATION_COST_IN_ERGS as u64);
        let (demux, sorter) = (LOG_DEMUXER_COST_IN_ERGS as u64, STORAGE_SORTER_COST_IN_ERGS as u64);
        let (events, code) = (EVENTS_OR_L1_MESSAGES_SORTER_COST_IN_ERGS as u64, CODE_DECOMMITMENT_SORTER_COST_IN_ERGS as u64);
        let frame = CALL_LIKE_ERGS_COST as u64;
        // every log record but a read comes with its rollback
        let log = 2 * cycle + ram + 2 * demux;
        let sum = match op {
            0 => INVALID_OPCODE_ERGS as u64,
            1..=17 => cycle + 2 * ram,
            18 => cycle + ram + frame,
            29 => cycle + ram + demux + sorter + STORAGE_READ_IO_PRICE as u64,
            30 => (log + 2 * sorter + STORAGE_WRITE_IO_PRICE as u64).max(MIN_STORAGE_WRITE_COST as u64),
            31 => (log + 2 * events + L1_MESSAGE_IO_PRICE as u64).max(L1_MESSAGE_MIN_COST_IN_ERGS as u64),
            32 => log + 2 * events + EVENT_IO_PRICE as u64,
            33 => cycle + ram + demux,
            34..=36 => 2 * cycle + ram + sorter + code + frame + STORAGE_READ_IO_PRICE as u64,
            40 | 42 | 44 => cycle + 3 * ram,
            41 | 43 => 2 * cycle + 5 * ram,
            _ => cycle + ram,
        };
        assert!(op_from(op).ergs_price() as u64 == sum, "the price is the sum of the declared components");
        assert!(RICH_ADDRESSING_OPCODE_ERGS as u64 == cycle + 2 * ram && AVERAGE_OPCODE_ERGS as u64 == cycle + ram, "base prices are sums of circuit prices");
        reach!(op == 30, "storage write");
    }

    #[kani::proof]
    fn threshold(s) {
        assert!(MIN_STORAGE_WRITE_PRICE_FOR_REENTRANCY_PROTECTION == 3501, "re-entrancy threshold");
        assert!(MIN_STORAGE_WRITE_PRICE_FOR_REENTRANCY_PROTECTION > 2300, "above the transfer stipend");
        assert!(MIN_STORAGE_WRITE_PRICE_FOR_REENTRANCY_PROTECTION > MSG_VALUE_SIMULATOR_ADDITIVE_COST - MSG_VALUE_SIMULATOR_MIN_USED_ERGS, "above the simulator's stipend");
        assert!(INVALID_OPCODE_ERGS == u32::MAX, "an invalid instruction burns everything");
        let _ = s;
    }
}
