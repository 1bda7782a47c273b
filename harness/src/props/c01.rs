//! C01 encode/decode round trip in both word formats.
use crate::dense::*;
use crate::real::row_default;
use crate::spec;
use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::*;

type P = EncodingModeProduction;
type T = EncodingModeTesting;

/// Instruction built from a table row; registers are 4 bit.
struct Fields {
    row: u16,
    variant: OpcodeVariant,
    condition: Condition,
    regs: [u8; 4],
}

fn any_fields(s: &mut crate::src::Src) -> Fields {
    let row = s.below(2048);
    let c = s.below(8) as u8;
    let regs = [s.below(16) as u8, s.below(16) as u8, s.below(16) as u8, s.below(16) as u8];
    Fields { row, variant: OPCODES_TABLE[row as usize], condition: cond_from(c), regs }
}

fn production(f: &Fields, imm_0: u16, imm_1: u16) -> DecodedOpcode<8, P> {
    DecodedOpcode {
        variant: f.variant,
        condition: f.condition,
        src0_reg_idx: f.regs[0],
        src1_reg_idx: f.regs[1],
        dst0_reg_idx: f.regs[2],
        dst1_reg_idx: f.regs[3],
        imm_0,
        imm_1,
    }
}

fn testing(f: &Fields, imm_0: u32, imm_1: u32) -> DecodedOpcode<16, T> {
    DecodedOpcode {
        variant: f.variant,
        condition: f.condition,
        src0_reg_idx: f.regs[0],
        src1_reg_idx: f.regs[1],
        dst0_reg_idx: f.regs[2],
        dst1_reg_idx: f.regs[3],
        imm_0,
        imm_1,
    }
}

/// number of the instruction in row `row`: its row, except that every invalid row means number 0
fn own_number(f: &Fields) -> usize {
    if row_default(f.row) == spec::INVALID { 0 } else { f.row as usize }
}

suite_with_tables! {
    #[kani::proof]
    fn production_round_trip(s) {
        let f = any_fields(s);
        let (i0, i1) = (s.u16(), s.u16());
        let d = production(&f, i0, i1);
        let w = P::encode_as_integer(&d);
        let (r, n) = P::parse_preliminary_variant_and_absolute_number(w);
        assert!(variant_to(&r.variant) == row_default(f.row), "decoded variant is the encoded one");
        assert!(n.into_usize() == own_number(&f), "decoded number is the instruction's own number");
        assert!(cond_to(&r.condition) == cond_to(&f.condition), "decoded condition is the encoded one");
        assert!(r.src0_reg_idx == f.regs[0], "decoded src0 is the encoded one");
        assert!(r.src1_reg_idx == f.regs[1], "decoded src1 is the encoded one");
        assert!(r.dst0_reg_idx == f.regs[2], "decoded dst0 is the encoded one");
        assert!(r.dst1_reg_idx == f.regs[3], "decoded dst1 is the encoded one");
        assert!(r.imm_0 == i0, "decoded imm0 is the encoded one");
        assert!(r.imm_1 == i1, "decoded imm1 is the encoded one");
        reach!(f.row == 1092 && i1 == 0xffff && f.regs[3] == 15, "last row, extreme fields");
    }

    #[kani::proof]
    fn testing_round_trip(s) {
        let f = any_fields(s);
        let (i0, i1) = (s.u32(), s.u32());
        let d = testing(&f, i0, i1);
        let w = T::encode_as_integer(&d);
        let (r, n) = T::parse_preliminary_variant_and_absolute_number(w);
        assert!(variant_to(&r.variant) == row_default(f.row), "decoded variant is the encoded one");
        assert!(n.into_usize() == own_number(&f), "decoded number is the instruction's own number");
        assert!(cond_to(&r.condition) == cond_to(&f.condition), "decoded condition is the encoded one");
        assert!(r.src0_reg_idx == f.regs[0], "decoded src0 is the encoded one");
        assert!(r.src1_reg_idx == f.regs[1], "decoded src1 is the encoded one");
        assert!(r.dst0_reg_idx == f.regs[2], "decoded dst0 is the encoded one");
        assert!(r.dst1_reg_idx == f.regs[3], "decoded dst1 is the encoded one");
        assert!(r.imm_0 == i0, "decoded imm0 is the encoded one");
        assert!(r.imm_1 == i1, "decoded imm1 is the encoded one");
        reach!(f.row == 1092 && i1 == u32::MAX && f.regs[3] == 15, "last row, extreme fields");
    }

    #[kani::proof]
    fn byte_form_production(s) {
        let f = any_fields(s);
        let (i0, i1) = (s.u16(), s.u16());
        let d = production(&f, i0, i1);
        let w: u64 = P::encode_as_integer(&d);
        assert!(P::encode_as_bytes(&d) == w.to_be_bytes(), "byte form is the big-endian word");
        assert!(d.serialize_as_integer() == w, "serialize_as_integer is the encoder");
        assert!(d.serialize_as_bytes() == w.to_be_bytes(), "serialize_as_bytes is the byte form");
    }

    #[kani::proof]
    fn byte_form_testing(s) {
        let f = any_fields(s);
        let (i0, i1) = (s.u32(), s.u32());
        let d = testing(&f, i0, i1);
        let w: u128 = T::encode_as_integer(&d);
        assert!(T::encode_as_bytes(&d) == w.to_be_bytes(), "byte form is the big-endian word");
        assert!(d.serialize_as_integer() == w, "serialize_as_integer is the encoder");
        assert!(d.serialize_as_bytes() == w.to_be_bytes(), "serialize_as_bytes is the byte form");
    }

    #[kani::proof]
    fn low_halves_agree(s) {
        let f = any_fields(s);
        let (i0, i1, j0, j1) = (s.u16(), s.u16(), s.u32(), s.u32());
        let p = P::encode_as_integer(&production(&f, i0, i1));
        let t = T::encode_as_integer(&testing(&f, j0, j1));
        assert!(p as u32 == t as u32, "low 32 bits are the same in both formats");
    }
}
