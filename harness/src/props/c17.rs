//! C17 fetching the instruction at a program counter is exact.
use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::ethereum_types::U256;

type P = EncodingModeProduction;
type T = EncodingModeTesting;

contract! {
    fn split_production(pc: u16) -> (u16, u16);
    ensures |r| r.1 < 4;
    ensures |r| r.0 as u32 * 4 + r.1 as u32 == pc as u32;
    { P::split_pc(pc) }
}

contract! {
    fn split_testing(pc: u32) -> (u32, u32);
    ensures |r| r.1 < 2;
    ensures |r| r.0 as u64 * 2 + r.1 as u64 == pc as u64;
    { T::split_pc(pc) }
}

contract! {
    fn fetch_production(w: [u64; 4], i: u16) -> u64;
    requires i < 4;
    ensures |r| *r == w[3 - i as usize];
    { P::integer_representaiton_from_u256(U256(w), i) }
}

contract! {
    fn fetch_testing(w: [u64; 4], i: u32) -> u128;
    requires i < 2;
    ensures |r| *r == (w[3 - 2 * i as usize] as u128) << 64 | w[2 - 2 * i as usize] as u128;
    { T::integer_representaiton_from_u256(U256(w), i) }
}

contract! {
    fn bytes_production(v: u64) -> [u8; 8];
    ensures |r| u64::from_be_bytes(*r) == v;
    { AllowedIntegerRepresentation::<8>::encode_as_bytes(v) }
}

contract! {
    fn bytes_testing(v: u128) -> [u8; 16];
    ensures |r| u128::from_be_bytes(*r) == v;
    { AllowedIntegerRepresentation::<16>::encode_as_bytes(v) }
}

macro_rules! pc_arithmetic {
    ($s:ident, $t:ident) => {{
        let (a, b, c) = ($s.$t(), $s.$t(), $s.u64());
        assert!(<$t as AllowedPcOrImm>::wrapping_add(a, b) == (a as u64 + b as u64) as $t, "addition wraps at the width of the mode");
        assert!(<$t as AllowedPcOrImm>::wrapping_sub(a, b) == (a as u64).wrapping_sub(b as u64) as $t, "subtraction wraps at the width of the mode");
        assert!(<$t as AllowedPcOrImm>::wrapping_sub(<$t as AllowedPcOrImm>::wrapping_add(a, b), b) == a, "subtraction undoes addition");
        assert!(<$t as AllowedPcOrImm>::from_u64_clipped(c) as u64 == c & $t::MAX as u64, "conversion truncates");
        assert!(<$t as AllowedPcOrImm>::as_u64(a) == a as u64, "widening is lossless");
        assert!(<$t as AllowedPcOrImm>::max() == $t::MAX && a <= <$t as AllowedPcOrImm>::max(), "maximum is the largest value");
        reach!(a as u64 + b as u64 > $t::MAX as u64, "wrapping addition");
    }};
}

suite! {
    fn split_pc_production(s) checks super::split_production {
        let pc = s.u16();
        super::split_production(pc);
    }

    fn split_pc_testing(s) checks super::split_testing {
        let pc = s.u32();
        super::split_testing(pc);
    }

    fn fetch_sub_word_production(s) checks super::fetch_production {
        let (w, i) = (s.words(), s.below(4));
        super::fetch_production(w, i);
    }

    fn fetch_sub_word_testing(s) checks super::fetch_testing {
        let (w, i) = (s.words(), s.below(2) as u32);
        super::fetch_testing(w, i);
    }

    fn byte_order_production(s) checks super::bytes_production {
        let v = s.u64();
        super::bytes_production(v);
    }

    fn byte_order_testing(s) checks super::bytes_testing {
        let v = s.u128();
        super::bytes_testing(v);
    }

    #[kani::proof]
    fn pc_arithmetic_production(s) {
        pc_arithmetic!(s, u16);
        fn is_pc(_: <P as VmEncodingMode<8>>::PcOrImm) -> bool { true }
        assert!(is_pc(0u16), "production counters have 16 bits");
    }

    #[kani::proof]
    fn pc_arithmetic_testing(s) {
        pc_arithmetic!(s, u32);
    }

    // four (two) serialized instructions, read back as one word, are fetched in order
    #[kani::proof]
    fn lemma_program_order_production(s) {
        let v = s.words();
        let pc = s.u16();
        let mut bytes = [0u8; 32];
        let mut i = 0;
        while i < 4 {
            let b = AllowedIntegerRepresentation::<8>::encode_as_bytes(v[i]);
            let mut k = 0;
            while k < 8 {
                bytes[8 * i + k] = b[k];
                k += 1;
            }
            i += 1;
        }
        let (_, sub) = P::split_pc(pc);
        let w = U256::from_big_endian(&bytes);
        assert!(P::integer_representaiton_from_u256(w, sub) == v[(pc % 4) as usize], "the instruction at the counter is fetched");
        reach!(pc % 4 == 3, "last sub-word");
    }

    #[kani::proof]
    fn lemma_program_order_testing(s) {
        let v = [s.u128(), s.u128()];
        let pc = s.u32();
        let mut bytes = [0u8; 32];
        let mut i = 0;
        while i < 2 {
            let b = AllowedIntegerRepresentation::<16>::encode_as_bytes(v[i]);
            let mut k = 0;
            while k < 16 {
                bytes[16 * i + k] = b[k];
                k += 1;
            }
            i += 1;
        }
        let (_, sub) = T::split_pc(pc);
        let w = U256::from_big_endian(&bytes);
        assert!(T::integer_representaiton_from_u256(w, sub) == v[(pc % 2) as usize], "the instruction at the counter is fetched");
    }
}
