//! C12 fat pointers pack, unpack and validate exactly.
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::{FatPointer, FatPointerValidationException as Ex};

contract! {
    fn unpack(w: [u64; 4]) -> FatPointer;
    ensures |r| r.offset == w[0] as u32;
    ensures |r| r.memory_page == (w[0] >> 32) as u32;
    ensures |r| r.start == w[1] as u32;
    ensures |r| r.length == (w[1] >> 32) as u32;
    { FatPointer::from_u256(U256(w)) }
}

contract! {
    fn pack(offset: u32, memory_page: u32, start: u32, length: u32) -> [u64; 4];
    ensures |r| r[0] as u32 == offset && (r[0] >> 32) as u32 == memory_page;
    ensures |r| r[1] as u32 == start && (r[1] >> 32) as u32 == length;
    ensures |r| r[2] == 0 && r[3] == 0;
    { FatPointer { offset, memory_page, start, length }.to_u256().0 }
}

contract! {
    fn validate(offset: u32, memory_page: u32, start: u32, length: u32, fresh: bool) -> u64;
    ensures |r| (*r & 1 != 0) == (fresh && offset != 0);
    ensures |r| (*r & 2 != 0) == (start as u64 + length as u64 > u32::MAX as u64);
    ensures |r| *r & !3 == 0;
    { FatPointer { offset, memory_page, start, length }.validate(fresh).bits() }
}

contract! {
    fn in_bounds(offset: u32, memory_page: u32, start: u32, length: u32) -> bool;
    ensures |r| *r == (offset < length);
    { FatPointer { offset, memory_page, start, length }.validate_in_bounds() }
}

contract! {
    fn valid_slice(offset: u32, memory_page: u32, start: u32, length: u32) -> bool;
    ensures |r| *r == (offset <= length);
    { FatPointer { offset, memory_page, start, length }.validate_as_slice() }
}

contract! {
    fn trivial(offset: u32, memory_page: u32, start: u32, length: u32) -> bool;
    ensures |r| *r == (offset == 0 && length == 0);
    { FatPointer { offset, memory_page, start, length }.is_trivial() }
}

suite! {
    fn unpack_word(s) checks super::unpack {
        let w = s.words();
        super::unpack(w);
    }

    fn pack_pointer(s) checks super::pack {
        let (o, p, st, l) = (s.u32(), s.u32(), s.u32(), s.u32());
        super::pack(o, p, st, l);
    }

    fn validate_pointer(s) checks super::validate {
        let (o, p, st, l, f) = (s.u32(), s.u32(), s.u32(), s.u32(), s.bool());
        super::validate(o, p, st, l, f);
    }

    fn in_bounds_pointer(s) checks super::in_bounds {
        let (o, p, st, l) = (s.u32(), s.u32(), s.u32(), s.u32());
        super::in_bounds(o, p, st, l);
    }

    fn valid_slice_pointer(s) checks super::valid_slice {
        let (o, p, st, l) = (s.u32(), s.u32(), s.u32(), s.u32());
        super::valid_slice(o, p, st, l);
    }

    fn trivial_pointer(s) checks super::trivial {
        let (o, p, st, l) = (s.u32(), s.u32(), s.u32(), s.u32());
        super::trivial(o, p, st, l);
    }

    #[kani::proof]
    fn exception_names(s) {
        assert!(Ex::OFFSET_IS_NOT_ZERO_WHEN_EXPECTED.bits() == 1, "offset exception is bit 0");
        assert!(Ex::DEREF_BEYOND_HEAP_RANGE.bits() == 2, "range exception is bit 1");
        assert!(Ex::all().bits() == 3, "no other exception exists");
        let e = FatPointer::empty();
        assert!(e.offset == 0 && e.memory_page == 0 && e.start == 0 && e.length == 0, "the empty pointer is zero");
        let _ = s;
    }

    // lemmas over the contracts
    #[kani::proof]
    #[cfg_attr(not(feature = "history"), kani::stub_verified(super::pack))]
    fn lemma_unpack_of_pack(s) {
        let (o, p, st, l) = (s.u32(), s.u32(), s.u32(), s.u32());
        let w = super::pack(o, p, st, l);
        let r = super::unpack(w);
        assert!(r.offset == o && r.memory_page == p && r.start == st && r.length == l, "unpack of pack is the identity");
    }

    #[kani::proof]
    #[cfg_attr(not(feature = "history"), kani::stub_verified(super::pack))]
    fn lemma_pack_of_unpack(s) {
        let w = s.words();
        let r = super::unpack(w);
        let v = super::pack(r.offset, r.memory_page, r.start, r.length);
        assert!(v[0] == w[0] && v[1] == w[1] && v[2] == 0 && v[3] == 0, "pack of unpack is the low half");
    }

    #[kani::proof]
    #[cfg_attr(not(feature = "history"), kani::stub_verified(super::in_bounds))]
    #[cfg_attr(not(feature = "history"), kani::stub_verified(super::valid_slice))]
    fn lemma_in_bounds_is_slice(s) {
        let (o, p, st, l) = (s.u32(), s.u32(), s.u32(), s.u32());
        let (i, v) = (super::in_bounds(o, p, st, l), super::valid_slice(o, p, st, l));
        assert!(!i || v, "a pointer in bounds is a valid slice");
        reach!(i && v, "in bounds");
        reach!(!i && v, "slice only");
    }
}
