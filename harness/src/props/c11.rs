//! C11 masking yields the one canonical panic or nop.
use crate::dense::*;
use crate::real::*;
use crate::spec;
use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::*;

type P = EncodingModeProduction;
type T = EncodingModeTesting;

macro_rules! any_decoded {
    ($s:ident, $n:literal, $e:ty, $imm:ident) => {{
        let (_, variant) = any_variant($s);
        DecodedOpcode::<$n, $e> {
            variant,
            condition: cond_from($s.below(8) as u8),
            src0_reg_idx: $s.below(16) as u8,
            src1_reg_idx: $s.below(16) as u8,
            dst0_reg_idx: $s.below(16) as u8,
            dst1_reg_idx: $s.below(16) as u8,
            imm_0: $s.$imm(),
            imm_1: $s.$imm(),
        }
    }};
}

macro_rules! masked {
    ($m:ident, $old:ident, $d:expr) => {{
        assert!(variant_to(&$m.variant) == $d, "masked variant");
        assert!(cond_to(&$m.condition) == 0, "masked condition is always");
        assert!($m.src0_reg_idx == 0 && $m.src1_reg_idx == 0 && $m.dst0_reg_idx == 0 && $m.dst1_reg_idx == 0, "masked registers are zero");
        assert!($m.imm_0 == $old.imm_0 && $m.imm_1 == $old.imm_1, "immediates are untouched");
    }};
}

suite_with_tables! {
    #[kani::proof]
    fn panic_production(s) {
        let old = any_decoded!(s, 8, P, u16);
        let mut m = old;
        m.mask_into_panic();
        masked!(m, old, spec::PANIC);
        let w = m.serialize_as_integer();
        assert!(w == P::exception_revert_encoding() | (old.imm_0 as u64) << 32 | (old.imm_1 as u64) << 48, "masked instruction encodes to the published panic word and its immediates");
        reach!(old.imm_1 == 0xffff, "extreme immediate");
    }

    #[kani::proof]
    fn nop_production(s) {
        let old = any_decoded!(s, 8, P, u16);
        let mut m = old;
        m.mask_into_nop();
        masked!(m, old, spec::NOP);
        let w = m.serialize_as_integer();
        assert!(w == P::nop_encoding() | (old.imm_0 as u64) << 32 | (old.imm_1 as u64) << 48, "masked instruction encodes to the published nop word and its immediates");
    }

    #[kani::proof]
    fn panic_testing(s) {
        let old = any_decoded!(s, 16, T, u32);
        let mut m = old;
        m.mask_into_panic();
        masked!(m, old, spec::PANIC);
        let w = m.serialize_as_integer();
        assert!(w == T::exception_revert_encoding() | (old.imm_0 as u128) << 32 | (old.imm_1 as u128) << 64, "masked instruction encodes to the published panic word and its immediates");
    }

    #[kani::proof]
    fn nop_testing(s) {
        let old = any_decoded!(s, 16, T, u32);
        let mut m = old;
        m.mask_into_nop();
        masked!(m, old, spec::NOP);
        let w = m.serialize_as_integer();
        assert!(w == T::nop_encoding() | (old.imm_0 as u128) << 32 | (old.imm_1 as u128) << 64, "masked instruction encodes to the published nop word and its immediates");
    }

    #[kani::proof]
    fn published_words(s) {
        let (pn, pp, tn, tp) = (P::nop_encoding(), P::exception_revert_encoding(), T::nop_encoding(), T::exception_revert_encoding());
        assert!(P::is_canonical_encoding(pn) && P::is_canonical_encoding(pp) && T::is_canonical_encoding(tn) && T::is_canonical_encoding(tp), "published words are canonical");
        macro_rules! decodes {
            ($e:ty, $w:ident, $d:expr) => {{
                let (r, _) = <$e>::parse_preliminary_variant_and_absolute_number($w);
                assert!(variant_to(&r.variant) == $d && cond_to(&r.condition) == 0, "published word decodes to its instruction");
                assert!(r.src0_reg_idx == 0 && r.src1_reg_idx == 0 && r.dst0_reg_idx == 0 && r.dst1_reg_idx == 0, "with zero registers");
                assert!(r.imm_0 == 0 && r.imm_1 == 0, "and zero immediates");
            }};
        }
        decodes!(P, pn, spec::NOP);
        decodes!(P, pp, spec::PANIC);
        decodes!(T, tn, spec::NOP);
        decodes!(T, tp, spec::PANIC);
        let _ = s;
    }

    #[kani::proof]
    fn default_instruction(s) {
        macro_rules! is_default {
            ($n:literal, $e:ty) => {{
                let mut m = DecodedOpcode::<$n, $e>::default();
                assert!(matches!(m.variant.opcode, Opcode::Nop(_)), "the default instruction is a nop");
                assert!(matches!(m.variant.src0_operand_type, Operand::RegOnly) && matches!(m.variant.dst0_operand_type, Operand::RegOnly), "with register operands");
                assert!(!m.variant.flags[0] && !m.variant.flags[1] && cond_to(&m.condition) == 0, "unconditional and without flags");
                assert!(m.src0_reg_idx == 0 && m.src1_reg_idx == 0 && m.dst0_reg_idx == 0 && m.dst1_reg_idx == 0, "with zero registers");
                assert!(m.imm_0 == 0 && m.imm_1 == 0, "and zero immediates");
                let mut p = m;
                m.mask_into_nop();
                p.mask_into_panic();
                assert!(m.serialize_as_integer() == <$e>::nop_encoding(), "masked default encodes to the published nop");
                assert!(p.serialize_as_integer() == <$e>::exception_revert_encoding(), "masked default encodes to the published panic");
            }};
        }
        is_default!(8, P);
        is_default!(16, T);
        let _ = s;
    }

    #[kani::proof]
    fn published_variants(s) {
        assert!(nop_variant() == spec::NOP, "published nop variant");
        assert!(panic_variant() == spec::PANIC, "published panic variant");
        let (n, p) = (lookup_canonical(spec::NOP), lookup_canonical(spec::PANIC));
        assert!(n < 2048 && p < 2048, "nop and panic are instructions");
        assert!(nop_bitspread() == published_bitmask(n), "published nop bitmask is the bitmask of nop");
        assert!(panic_bitspread() == published_bitmask(p), "published panic bitmask is the bitmask of panic");
        let _ = s;
    }
}
