//! C06 operand capabilities of every instruction are sound and complete.
use crate::dense::*;
use crate::real::*;
use crate::spec;
use zkevm_opcode_defs::*;

/// same kind of operand (the payload of a declared operand is a placeholder)
fn kind(o: &Operand) -> u8 {
    match o {
        Operand::RegOnly => 0,
        Operand::RegOrImm(_) => 1,
        Operand::Full(_) => 2,
    }
}

fn spec_kind(o: u16) -> u8 {
    match o {
        0 => 0,
        1 | 2 => 1,
        _ => 2,
    }
}

fn declared(v: &[Operand], e: (usize, u16, u16)) -> bool {
    v.len() == e.0
        && (e.0 < 1 || kind(&v[0]) == spec_kind(e.1))
        && (e.0 < 2 || kind(&v[1]) == spec_kind(e.2))
}

// Contracts of the queries. They walk over a freshly allocated operand list, for which the frame check of
// `proof_for_contract` exceeds the memory; the same postconditions are plain assertions here.
fn reads_memory(s: &mut crate::src::Src, version: u8) {
    let op = s.below(45);
    let r = op_from(op).can_have_src0_from_mem(ISAVersion(version));
    assert!(r == (spec::inputs(op, version).0 > 0 && spec::inputs(op, version).1 == FULL), "exactly a general first operand can be read from memory");
    reach!(r, "can read memory");
}

fn writes_memory(s: &mut crate::src::Src, version: u8) {
    let op = s.below(45);
    let r = op_from(op).can_write_dst0_into_memory(ISAVersion(version));
    assert!(r == (spec::outputs(op).0 > 0 && spec::outputs(op).1 == FULL), "exactly a general first output can be written to memory");
    reach!(r, "can write memory");
}

/// The operand types a declared first operand expands to.
fn source_allowed(op: u16, version: u8, src: u16) -> bool {
    let i = spec::inputs(op, version);
    if i.0 == 0 || i.1 == REG_ONLY {
        // without a general output a memory access of version 0 has a plain register source
        src == REG_ONLY
    } else if i.1 == ROI_REG {
        src == ROI_REG || src == ROI_IMM
    } else {
        src >= FULL
    }
}

fn destination_allowed(op: u16, dst: u16) -> bool {
    let o = spec::outputs(op);
    if o.0 == 0 || o.1 == REG_ONLY {
        dst == REG_ONLY
    } else {
        dst >= FULL && dst < FULL + 4
    }
}

fn flags_allowed(op: u16, fl: u16) -> bool {
    match spec::nflags(op) {
        0 => fl == 0,
        1 => fl < 2,
        _ => true,
    }
}

suite! {
    #[kani::proof]
    fn declared_inputs(s) {
        let (op, version) = (s.below(45), s.below(2) as u8);
        let r = op_from(op).input_operands(ISAVersion(version));
        assert!(declared(&r, spec::inputs(op, version)), "input operands are those of the ISA");
        reach!(r.len() == 2 && version == 1, "two inputs");
    }

    #[kani::proof]
    fn declared_outputs(s) {
        let (op, version) = (s.below(45), s.below(2) as u8);
        let r = op_from(op).output_operands(ISAVersion(version));
        assert!(declared(&r, spec::outputs(op)), "output operands are those of the ISA");
        reach!(r.len() == 2 && version == 1, "two outputs");
    }

    #[kani::proof]
    fn can_read_memory_version_0(s) {
        reads_memory(s, 0);
    }

    #[kani::proof]
    fn can_read_memory_version_1(s) {
        reads_memory(s, 1);
    }

    #[kani::proof]
    fn can_write_memory_version_0(s) {
        writes_memory(s, 0);
    }

    #[kani::proof]
    fn can_write_memory_version_1(s) {
        writes_memory(s, 1);
    }

    #[kani::proof]
    fn table_is_the_product(s) {
        let version = s.below(2) as u8;
        let d = s.below(VARIANTS as u16);
        let (op, src, dst, fl) = parts(d);
        let allowed = source_allowed(op, version, src) && destination_allowed(op, dst) && flags_allowed(op, fl);
        given!(s, op != 0);
        assert!(rows_of(version, d) == allowed as u16, "exactly one row per allowed combination and none for any other");
        reach!(allowed && version == 1 && src == ROI_IMM, "immediate form");
        reach!(!allowed, "impossible combination");
    }

    #[kani::proof]
    fn no_bad_destination(s) {
        let version = s.below(2) as u8;
        let d = row(version, s.below(2048));
        let (op, src, dst, _) = parts(d);
        assert!(dst != FULL + 4 && dst != FULL + 5 && dst != ROI_IMM, "no destination is an immediate or code page");
        let memory = matches!(src, 4 | 5 | 6 | 8);
        assert!(!memory || op_from(op).can_have_src0_from_mem(ISAVersion(version)), "only a general first operand reads memory");
        let memory = matches!(dst, 4 | 5 | 6 | 8);
        assert!(!memory || op_from(op).can_write_dst0_into_memory(ISAVersion(version)), "only a general first output writes memory");
    }

    #[kani::proof]
    fn mode_queries(s) {
        let o = s.below(9);
        match operand_from(o) {
            Operand::Full(m) => {
                assert!(m.is_memory_used() == matches!(o, 4 | 5 | 6 | 8), "memory modes");
                assert!(m.is_allowed_for_dst() == (o < FULL + 4), "destination modes");
                assert!(m.variant_index() as u16 == o - FULL && m.encoding_byte() as u16 == o - FULL, "mode number");
            }
            Operand::RegOrImm(m) => {
                assert!(!m.is_memory_used(), "no memory in a register-or-immediate operand");
                assert!(m.is_allowed_for_dst() == (o == ROI_REG), "destination modes");
                assert!(m.variant_index() as u16 == spec::mode(o) && m.encoding_byte() as u16 == spec::mode(o), "mode number");
            }
            Operand::RegOnly => {}
        }
        assert!(operand_from(o).variant_idx() as u16 == spec::mode(o), "operand number");
    }

    #[kani::proof]
    fn mode_counts(s) {
        assert!(ImmMemHandlerFlags::num_variants() == 6 && ImmMemHandlerFlags::num_src_variants() == 6, "six source modes");
        assert!(ImmMemHandlerFlags::num_dst_variants() == 4, "four destination modes");
        assert!(RegOrImmFlags::num_variants() == 2 && RegOrImmFlags::num_src_variants() == 2, "two source modes");
        assert!(RegOrImmFlags::num_dst_variants() == 1, "one destination mode");
        let all = ImmMemHandlerFlags::all_variants();
        let i = s.below(6) as usize;
        assert!(operand_to(&Operand::Full(all[i])) as usize == FULL as usize + i, "modes are listed in order");
        let all = RegOrImmFlags::all_variants();
        let i = s.below(2) as usize;
        assert!(operand_to(&Operand::RegOrImm(all[i])) as usize == ROI_REG as usize + i, "modes are listed in order");
    }

    #[kani::proof]
    fn flag_positions(s) {
        use zkevm_opcode_defs::definitions::{far_call, log, ret, uma};
        assert!(SET_FLAGS_FLAG_IDX == 0 && SWAP_OPERANDS_FLAG_IDX_FOR_ARITH_OPCODES == 1 && SWAP_OPERANDS_FLAG_IDX_FOR_PTR_OPCODE == 0, "arithmetic and pointer flags");
        assert!(far_call::FAR_CALL_STATIC_FLAG_IDX == 0 && far_call::FAR_CALL_SHARD_FLAG_IDX == 1, "far-call flags");
        assert!(ret::RET_TO_LABEL_BIT_IDX == 0 && uma::UMA_INCREMENT_FLAG_IDX == 0 && log::FIRST_MESSAGE_FLAG_IDX == 0, "return, memory and log flags");
        let _ = s;
    }

    #[kani::proof]
    fn swap_operands(s) {
        let (d, v) = any_variant(s);
        let (op, _, _, fl) = parts(d);
        assert!(v.swap_operands() == spec::swap(op, fl), "operands are swapped exactly when the swap flag of the operation is set");
    }
}
