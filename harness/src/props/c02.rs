//! C02 decoding is total and reads a fixed bit layout.
use crate::dense::*;
use crate::real::row_default;
use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::*;

type P = EncodingModeProduction;
type T = EncodingModeTesting;

contract! {
    fn nibbles(v: u8) -> (u8, u8);
    ensures |r| r.0 == v % 16;
    ensures |r| r.1 == v / 16;
    { split_as_u4(v) }
}

contract! {
    fn condition_numbered(i: usize) -> Condition;
    requires i < 8;
    ensures |r| cond_to(r) as usize == i;
    { Condition::materialize_variant(i) }
}

contract! {
    fn decode_production(w: u64) -> (DecodedOpcode<8, P>, VariantMonotonicNumber);
    ensures |r| r.1.into_usize() == (w & 0x7ff) as usize;
    ensures |r| variant_to(&r.0.variant) == row_default((w & 0x7ff) as u16);
    ensures |r| cond_to(&r.0.condition) as u64 == (w >> 13) & 7;
    ensures |r| r.0.src0_reg_idx as u64 == (w >> 16) & 15;
    ensures |r| r.0.src1_reg_idx as u64 == (w >> 20) & 15;
    ensures |r| r.0.dst0_reg_idx as u64 == (w >> 24) & 15;
    ensures |r| r.0.dst1_reg_idx as u64 == (w >> 28) & 15;
    ensures |r| r.0.imm_0 as u64 == (w >> 32) & 0xffff;
    ensures |r| r.0.imm_1 as u64 == w >> 48;
    { P::parse_preliminary_variant_and_absolute_number(w) }
}

contract! {
    fn decode_testing(w: u128) -> (DecodedOpcode<16, T>, VariantMonotonicNumber);
    ensures |r| r.1.into_usize() == (w & 0x7ff) as usize;
    ensures |r| variant_to(&r.0.variant) == row_default((w & 0x7ff) as u16);
    ensures |r| cond_to(&r.0.condition) as u128 == (w >> 13) & 7;
    ensures |r| r.0.src0_reg_idx as u128 == (w >> 16) & 15;
    ensures |r| r.0.src1_reg_idx as u128 == (w >> 20) & 15;
    ensures |r| r.0.dst0_reg_idx as u128 == (w >> 24) & 15;
    ensures |r| r.0.dst1_reg_idx as u128 == (w >> 28) & 15;
    ensures |r| r.0.imm_0 as u128 == (w >> 32) & 0xffff_ffff;
    ensures |r| r.0.imm_1 as u128 == (w >> 64) & 0xffff_ffff;
    { T::parse_preliminary_variant_and_absolute_number(w) }
}

contract! {
    fn head_production(w: u64) -> (OpcodeVariant, Condition, usize);
    ensures |r| r.2 == (w & 0x7ff) as usize;
    ensures |r| variant_to(&r.0) == row_default((w & 0x7ff) as u16);
    ensures |r| cond_to(&r.1) as u64 == (w >> 13) & 7;
    { P::variant_and_condition_from_u64_word(w) }
}

contract! {
    fn head_testing(w: u128) -> (OpcodeVariant, Condition, usize);
    ensures |r| r.2 == (w & 0x7ff) as usize;
    ensures |r| variant_to(&r.0) == row_default((w & 0x7ff) as u16);
    ensures |r| cond_to(&r.1) as u128 == (w >> 13) & 7;
    { T::variant_and_condition_from_u128_word(w) }
}

suite_with_tables! {
    fn split_nibbles(s) checks super::nibbles {
        let v = s.u8();
        nibbles(v);
    }

    fn condition(s) checks super::condition_numbered {
        let i = s.below(8) as usize;
        condition_numbered(i);
        reach!(i == 7, "largest condition");
    }

    fn production(s) checks super::decode_production {
        let w = s.u64();
        decode_production(w);
        reach!(w == u64::MAX, "all bits set");
    }

    fn testing(s) checks super::decode_testing {
        let w = s.u128();
        decode_testing(w);
        reach!(w == u128::MAX, "all bits set");
    }

    fn head_of_production(s) checks super::head_production {
        let w = s.u64();
        head_production(w);
    }

    fn head_of_testing(s) checks super::head_testing {
        let w = s.u128();
        head_testing(w);
    }

    #[kani::proof]
    fn table_width(s) {
        assert!(OPCODES_TABLE.len() == 2048 && OPCODES_TABLE_WIDTH == 11, "2048 rows, 11 bits");
        let _ = s;
    }
}
