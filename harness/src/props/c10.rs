//! C10 the property bitmask is a lossless fixed-layout description.
use crate::dense::*;
use crate::real::*;
use crate::spec;
use zkevm_opcode_defs::*;

contract! {
    fn sub_variants(version: u8) -> usize;
    requires version < 2;
    ensures |r| *r == 10;
    { max_num_variants_for_version(ISAVersion(version)) }
}

contract! {
    fn flags(version: u8) -> usize;
    requires version < 2;
    ensures |r| *r == 2;
    { max_num_flags_for_version(ISAVersion(version)) }
}

// the three callees of the bitmask construction that walk over all families, as their contracts
#[cfg(kani)]
pub fn ten(_: ISAVersion) -> usize {
    10
}
#[cfg(kani)]
pub fn two(_: ISAVersion) -> usize {
    2
}

suite! {
    #[kani::proof]
    fn sub_variant_bits_version_0(s) {
        assert!(super::sub_variants(0) == 10, "ten sub-variant bits");
        let _ = s;
    }

    #[kani::proof]
    fn sub_variant_bits_version_1(s) {
        assert!(super::sub_variants(1) == 10, "ten sub-variant bits");
        let _ = s;
    }

    #[kani::proof]
    fn flag_bits_version_0(s) {
        assert!(super::flags(0) == 2, "two flag bits");
        let _ = s;
    }

    #[kani::proof]
    fn flag_bits_version_1(s) {
        assert!(super::flags(1) == 2, "two flag bits");
        let _ = s;
    }

    #[kani::proof]
    #[kani::stub(zkevm_opcode_defs::max_num_variants_for_version, crate::props::c10::ten)]
    #[kani::stub(zkevm_opcode_defs::max_num_flags_for_version, crate::props::c10::two)]
    fn widths(s) {
        let v = ISAVersion(s.below(2) as u8);
        assert!(total_description_bits_for_version(v) == 38, "38 description bits");
        assert!(total_description_bits_rounded_for_version(v) == 48, "rounded to 48");
        assert!(total_opcode_description_and_aux_bits_for_version(v) == 51, "and 3 auxiliary bits");
        assert!(TOTAL_AUX_BITS == 3 && KERNER_MODE_FLAG_IDX == 0 && CAN_BE_USED_IN_STATIC_CONTEXT_FLAG_IDX == 1 && EXPLICIT_PANIC_FLAG_IDX == 2, "auxiliary bits");
        assert!(OPCODE_TYPE_BITS == 16 && OPCODE_INPUT_VARIANT_FLAGS == 6 && OPCODE_OUTPUT_VARIANT_FLAGS == 4, "group widths");
        assert!(num_logical_opcodes() == 16 && num_input_variants() == 6 && num_output_variants() == 4, "published group widths");
    }

    #[cfg(not(feature = "bare"))]
    #[kani::proof]
    #[kani::unwind(20)]
    #[kani::stub(zkevm_opcode_defs::max_num_variants_for_version, crate::props::c10::ten)]
    #[kani::stub(zkevm_opcode_defs::max_num_flags_for_version, crate::props::c10::two)]
    #[kani::stub(<zkevm_opcode_defs::NUM_LOGICAL_OPCODES as std::ops::Deref>::deref, crate::real::stubs::num_logical_opcodes)]
    #[kani::stub(<zkevm_opcode_defs::NUM_INPUT_VARIANTS as std::ops::Deref>::deref, crate::real::stubs::num_input_variants)]
    #[kani::stub(<zkevm_opcode_defs::NUM_OUTPUT_VARIANTS as std::ops::Deref>::deref, crate::real::stubs::num_output_variants)]
    fn bitmask_of_variant(s) {
        let (d, v) = any_variant(s);
        let version = s.below(2) as u8;
        given!(s, spec::mode(parts(d).2) < 4);
        let r = synthesize_bit_decomposition_table(&[v], ISAVersion(version));
        assert!(r.len() == 1, "one bitmask per variant");
        assert!(r[0] == spec::bitmask(d), "bitmask is the fixed-layout description of the variant");
        reach!(parts(d).0 == 28 && version == 1, "tenth sub-variant");
    }

    #[kani::proof]
    fn published_list(s) {
        let i = s.below(2048);
        let d = row_default(i);
        given!(s, (d as usize) < VARIANTS);
        assert!(published_bitmask(i) == spec::bitmask(d), "list entry is the bitmask of the instruction with that number");
        reach!(d != spec::INVALID, "valid instruction");
    }

    #[kani::proof]
    fn lemma_lossless(s) {
        let (a, b) = (s.below(VARIANTS as u16), s.below(VARIANTS as u16));
        let (oa, sa, da, fa) = parts(a);
        let (ob, sb, db, fb) = parts(b);
        given!(s, spec::mode(da) < 4 && spec::mode(db) < 4);
        given!(s, spec::bitmask(a) == spec::bitmask(b));
        assert!(oa == ob && fa == fb && spec::mode(sa) == spec::mode(sb) && spec::mode(da) == spec::mode(db), "equal bitmasks mean the same instruction");
        reach!(a != b, "differently typed register operands");
    }
}
