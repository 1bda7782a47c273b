//! C03 the canonicality check is exact and encoders emit only canonical words.
use crate::dense::*;
use crate::real::row_default;
use crate::spec;
use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::*;

type P = EncodingModeProduction;
type T = EncodingModeTesting;

contract! {
    fn canonical_production(w: u64) -> bool;
    ensures |r| *r == ((w >> 11) & 3 == 0);
    { P::is_canonical_encoding(w) }
}

contract! {
    fn canonical_testing(w: u128) -> bool;
    ensures |r| *r == ((w >> 11) & 3 == 0);
    { T::is_canonical_encoding(w) }
}

/// number assigned to an instruction (0 is assigned to the invalid instruction)
fn assigned(number: usize) -> bool {
    number == 0 || row_default(number as u16) != spec::INVALID
}

suite_with_tables! {
    fn verdict_production(s) checks super::canonical_production {
        let w = s.u64();
        canonical_production(w);
    }

    fn verdict_testing(s) checks super::canonical_testing {
        let w = s.u128();
        canonical_testing(w);
    }

    #[kani::proof]
    fn encoder_canonical_production(s) {
        let variant = OPCODES_TABLE[s.below(2048) as usize];
        let d = DecodedOpcode::<8, P> {
            variant,
            condition: cond_from(s.below(8) as u8),
            src0_reg_idx: s.below(16) as u8,
            src1_reg_idx: s.below(16) as u8,
            dst0_reg_idx: s.below(16) as u8,
            dst1_reg_idx: s.below(16) as u8,
            imm_0: s.u16(),
            imm_1: s.u16(),
        };
        let w = P::encode_as_integer(&d);
        assert!((w >> 11) & 3 == 0, "unused bits of an encoded word are zero");
        assert!(P::is_canonical_encoding(w), "an encoded word is reported canonical");
    }

    #[kani::proof]
    fn encoder_canonical_testing(s) {
        let variant = OPCODES_TABLE[s.below(2048) as usize];
        let d = DecodedOpcode::<16, T> {
            variant,
            condition: cond_from(s.below(8) as u8),
            src0_reg_idx: s.below(16) as u8,
            src1_reg_idx: s.below(16) as u8,
            dst0_reg_idx: s.below(16) as u8,
            dst1_reg_idx: s.below(16) as u8,
            imm_0: s.u32(),
            imm_1: s.u32(),
        };
        let w = T::encode_as_integer(&d);
        assert!((w >> 11) & 3 == 0, "unused bits of an encoded word are zero");
        assert!(T::is_canonical_encoding(w), "an encoded word is reported canonical");
    }

    #[kani::proof]
    fn re_encode_production(s) {
        let w = (s.u64() & !0xffff) | (s.below(8) as u64) << 13 | s.below(2048) as u64;
        given!(s, assigned((w & 0x7ff) as usize));
        let (d, _) = P::parse_preliminary_variant_and_absolute_number(w);
        assert!(P::encode_as_integer(&d) == w, "canonical word is reproduced");
        reach!(w & 0x7ff == 1092, "last assigned number");
    }

    #[kani::proof]
    fn re_encode_testing(s) {
        let w = (s.u128() & !0xffff) | (s.below(8) as u128) << 13 | s.below(2048) as u128;
        given!(s, assigned((w & 0x7ff) as usize));
        let (d, _) = T::parse_preliminary_variant_and_absolute_number(w);
        assert!(T::encode_as_integer(&d) == w & ((1u128 << 96) - 1), "canonical word is reproduced");
        reach!(w & 0x7ff == 1092, "last assigned number");
    }
}
