//! C13 call and return ABI words are parsed field by field without interference.
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::*;

fn pointer_of(p: &FatPointer, w: &[u64; 4]) -> bool {
    p.offset == w[0] as u32 && p.memory_page == (w[0] >> 32) as u32 && p.start == w[1] as u32 && p.length == (w[1] >> 32) as u32
}

/// byte i (0 = least significant) of the word
fn byte(w: &[u64; 4], i: usize) -> u8 {
    (w[i / 8] >> (8 * (i % 8))) as u8
}

fn far_mode(m: FarCallForwardPageType) -> u8 {
    match m {
        FarCallForwardPageType::UseHeap => 0,
        FarCallForwardPageType::ForwardFatPointer => 1,
        FarCallForwardPageType::UseAuxHeap => 2,
    }
}

fn ret_mode(m: RetForwardPageType) -> u8 {
    match m {
        RetForwardPageType::UseHeap => 0,
        RetForwardPageType::ForwardFatPointer => 1,
        RetForwardPageType::UseAuxHeap => 2,
    }
}

/// heap is the default
fn mode_of(byte: u8) -> u8 {
    if byte < 3 { byte } else { 0 }
}

contract! {
    fn far_call(w: [u64; 4]) -> FarCallABI;
    ensures |r| pointer_of(&r.memory_quasi_fat_pointer, &w);
    ensures |r| r.ergs_passed == w[3] as u32;
    ensures |r| far_mode(r.forwarding_mode) == mode_of(byte(&w, 28));
    ensures |r| r.shard_id == byte(&w, 29);
    ensures |r| r.constructor_call == (byte(&w, 30) != 0);
    ensures |r| r.to_system == (byte(&w, 31) != 0);
    { FarCallABI::from_u256(U256(w)) }
}

contract! {
    fn ret(w: [u64; 4]) -> RetABI;
    ensures |r| pointer_of(&r.memory_quasi_fat_pointer, &w);
    ensures |r| ret_mode(r.page_forwarding_mode) == mode_of(byte(&w, 28));
    { RetABI::from_u256(U256(w)) }
}

contract! {
    fn near_call(w: [u64; 4]) -> NearCallABI;
    ensures |r| r.ergs_passed == w[0] as u32;
    { NearCallABI::from_u256(U256(w)) }
}

contract! {
    fn far_mode_of_byte(b: u8) -> FarCallForwardPageType;
    ensures |r| far_mode(*r) == mode_of(b);
    ensures |r| *r as u8 == mode_of(b);
    { FarCallForwardPageType::from_u8(b) }
}

contract! {
    fn ret_mode_of_byte(b: u8) -> RetForwardPageType;
    ensures |r| ret_mode(*r) == mode_of(b);
    ensures |r| *r as u8 == mode_of(b);
    { RetForwardPageType::from_u8(b) }
}

suite! {
    fn far_call_word(s) checks super::far_call {
        let w = s.words();
        super::far_call(w);
    }

    fn ret_word(s) checks super::ret {
        let w = s.words();
        super::ret(w);
    }

    fn near_call_word(s) checks super::near_call {
        let w = s.words();
        super::near_call(w);
    }

    fn far_call_mode(s) checks super::far_mode_of_byte {
        let b = s.u8();
        super::far_mode_of_byte(b);
    }

    fn ret_mode_byte(s) checks super::ret_mode_of_byte {
        let b = s.u8();
        super::ret_mode_of_byte(b);
    }

    #[kani::proof]
    fn byte_positions(s) {
        assert!(FAR_CALL_FORWARDING_MODE_BYTE_IDX == 28 && RET_FORWARDING_MODE_BYTE_IDX == 28, "forwarding mode is byte 28");
        assert!(FAR_CALL_SHARD_ID_BYTE_IDX == 29, "shard is byte 29");
        assert!(FAR_CALL_CONSTRUCTOR_CALL_BYTE_IDX == 30, "constructor flag is byte 30");
        assert!(FAR_CALL_SYSTEM_CALL_BYTE_IDX == 31, "system flag is byte 31");
        let _ = s;
    }

    // no other bit influences any field: words that agree on a field's bits give the same field
    #[kani::proof]
    fn lemma_no_interference(s) {
        let (a, b) = (s.words(), s.words());
        let (x, y) = (super::far_call(a), super::far_call(b));
        assert!(a[3] as u32 != b[3] as u32 || x.ergs_passed == y.ergs_passed, "only bits 192-223 influence the passed ergs");
        assert!(byte(&a, 29) != byte(&b, 29) || x.shard_id == y.shard_id, "only byte 29 influences the shard");
        assert!(byte(&a, 28) != byte(&b, 28) || far_mode(x.forwarding_mode) == far_mode(y.forwarding_mode), "only byte 28 influences the forwarding mode");
        assert!(byte(&a, 30) != byte(&b, 30) || x.constructor_call == y.constructor_call, "only byte 30 influences the constructor flag");
        assert!(byte(&a, 31) != byte(&b, 31) || x.to_system == y.to_system, "only byte 31 influences the system flag");
        assert!(a[0] != b[0] || a[1] != b[1] || pointer_of(&x.memory_quasi_fat_pointer, &b) && pointer_of(&y.memory_quasi_fat_pointer, &a), "only the low half influences the pointer");
        reach!(x.to_system && !y.to_system, "words that differ");
    }
}
