//! A dense numbering of every representable instruction variant.
//! 45 operations x 9 source operand types x 9 destination operand types x 4 flag settings = 14580 variants.
//! Only plain constructors and matches: this is the abstraction function between the crate's types and
//! the numbers the specifications talk about.
#![allow(unreachable_patterns)]
use zkevm_opcode_defs::*;

pub const OPS: usize = 45;
pub const OPERANDS: usize = 9;
pub const VARIANTS: usize = OPS * OPERANDS * OPERANDS * 4;
/// Marks something that is not one of the 14580 known variants.
pub const UNKNOWN: u16 = u16::MAX;

pub const fn op_from(i: u16) -> Opcode {
    match i {
        0 => Opcode::Invalid(InvalidOpcode),
        1 => Opcode::Nop(NopOpcode),
        2 => Opcode::Add(AddOpcode::Add),
        3 => Opcode::Sub(SubOpcode::Sub),
        4 => Opcode::Mul(MulOpcode),
        5 => Opcode::Div(DivOpcode),
        6 => Opcode::Jump(JumpOpcode),
        7 => Opcode::Binop(BinopOpcode::Xor),
        8 => Opcode::Binop(BinopOpcode::And),
        9 => Opcode::Binop(BinopOpcode::Or),
        10 => Opcode::Shift(ShiftOpcode::Shl),
        11 => Opcode::Shift(ShiftOpcode::Shr),
        12 => Opcode::Shift(ShiftOpcode::Rol),
        13 => Opcode::Shift(ShiftOpcode::Ror),
        14 => Opcode::Ptr(PtrOpcode::Add),
        15 => Opcode::Ptr(PtrOpcode::Sub),
        16 => Opcode::Ptr(PtrOpcode::Pack),
        17 => Opcode::Ptr(PtrOpcode::Shrink),
        18 => Opcode::NearCall(NearCallOpcode),
        19 => Opcode::Context(ContextOpcode::This),
        20 => Opcode::Context(ContextOpcode::Caller),
        21 => Opcode::Context(ContextOpcode::CodeAddress),
        22 => Opcode::Context(ContextOpcode::Meta),
        23 => Opcode::Context(ContextOpcode::ErgsLeft),
        24 => Opcode::Context(ContextOpcode::Sp),
        25 => Opcode::Context(ContextOpcode::GetContextU128),
        26 => Opcode::Context(ContextOpcode::SetContextU128),
        27 => Opcode::Context(ContextOpcode::SetErgsPerPubdataByte),
        28 => Opcode::Context(ContextOpcode::IncrementTxNumber),
        29 => Opcode::Log(LogOpcode::StorageRead),
        30 => Opcode::Log(LogOpcode::StorageWrite),
        31 => Opcode::Log(LogOpcode::ToL1Message),
        32 => Opcode::Log(LogOpcode::Event),
        33 => Opcode::Log(LogOpcode::PrecompileCall),
        34 => Opcode::FarCall(FarCallOpcode::Normal),
        35 => Opcode::FarCall(FarCallOpcode::Delegate),
        36 => Opcode::FarCall(FarCallOpcode::Mimic),
        37 => Opcode::Ret(RetOpcode::Ok),
        38 => Opcode::Ret(RetOpcode::Revert),
        39 => Opcode::Ret(RetOpcode::Panic),
        40 => Opcode::UMA(UMAOpcode::HeapRead),
        41 => Opcode::UMA(UMAOpcode::HeapWrite),
        42 => Opcode::UMA(UMAOpcode::AuxHeapRead),
        43 => Opcode::UMA(UMAOpcode::AuxHeapWrite),
        44 => Opcode::UMA(UMAOpcode::FatPointerRead),
        _ => panic!("not an operation number"),
    }
}

pub const fn op_to(op: &Opcode) -> u16 {
    match op {
        Opcode::Invalid(InvalidOpcode) => 0,
        Opcode::Nop(NopOpcode) => 1,
        Opcode::Add(AddOpcode::Add) => 2,
        Opcode::Sub(SubOpcode::Sub) => 3,
        Opcode::Mul(MulOpcode) => 4,
        Opcode::Div(DivOpcode) => 5,
        Opcode::Jump(JumpOpcode) => 6,
        Opcode::Binop(BinopOpcode::Xor) => 7,
        Opcode::Binop(BinopOpcode::And) => 8,
        Opcode::Binop(BinopOpcode::Or) => 9,
        Opcode::Shift(ShiftOpcode::Shl) => 10,
        Opcode::Shift(ShiftOpcode::Shr) => 11,
        Opcode::Shift(ShiftOpcode::Rol) => 12,
        Opcode::Shift(ShiftOpcode::Ror) => 13,
        Opcode::Ptr(PtrOpcode::Add) => 14,
        Opcode::Ptr(PtrOpcode::Sub) => 15,
        Opcode::Ptr(PtrOpcode::Pack) => 16,
        Opcode::Ptr(PtrOpcode::Shrink) => 17,
        Opcode::NearCall(NearCallOpcode) => 18,
        Opcode::Context(ContextOpcode::This) => 19,
        Opcode::Context(ContextOpcode::Caller) => 20,
        Opcode::Context(ContextOpcode::CodeAddress) => 21,
        Opcode::Context(ContextOpcode::Meta) => 22,
        Opcode::Context(ContextOpcode::ErgsLeft) => 23,
        Opcode::Context(ContextOpcode::Sp) => 24,
        Opcode::Context(ContextOpcode::GetContextU128) => 25,
        Opcode::Context(ContextOpcode::SetContextU128) => 26,
        Opcode::Context(ContextOpcode::SetErgsPerPubdataByte) => 27,
        Opcode::Context(ContextOpcode::IncrementTxNumber) => 28,
        Opcode::Log(LogOpcode::StorageRead) => 29,
        Opcode::Log(LogOpcode::StorageWrite) => 30,
        Opcode::Log(LogOpcode::ToL1Message) => 31,
        Opcode::Log(LogOpcode::Event) => 32,
        Opcode::Log(LogOpcode::PrecompileCall) => 33,
        Opcode::FarCall(FarCallOpcode::Normal) => 34,
        Opcode::FarCall(FarCallOpcode::Delegate) => 35,
        Opcode::FarCall(FarCallOpcode::Mimic) => 36,
        Opcode::Ret(RetOpcode::Ok) => 37,
        Opcode::Ret(RetOpcode::Revert) => 38,
        Opcode::Ret(RetOpcode::Panic) => 39,
        Opcode::UMA(UMAOpcode::HeapRead) => 40,
        Opcode::UMA(UMAOpcode::HeapWrite) => 41,
        Opcode::UMA(UMAOpcode::AuxHeapRead) => 42,
        Opcode::UMA(UMAOpcode::AuxHeapWrite) => 43,
        Opcode::UMA(UMAOpcode::FatPointerRead) => 44,
        _ => UNKNOWN,
    }
}

pub const REG_ONLY: u16 = 0;
pub const ROI_REG: u16 = 1;
pub const ROI_IMM: u16 = 2;
pub const FULL: u16 = 3; // FULL + mode, mode in 0..6

pub const fn operand_from(i: u16) -> Operand {
    match i {
        0 => Operand::RegOnly,
        1 => Operand::RegOrImm(RegOrImmFlags::UseRegOnly),
        2 => Operand::RegOrImm(RegOrImmFlags::UseImm16Only),
        3 => Operand::Full(ImmMemHandlerFlags::UseRegOnly),
        4 => Operand::Full(ImmMemHandlerFlags::UseStackWithPushPop),
        5 => Operand::Full(ImmMemHandlerFlags::UseStackWithOffset),
        6 => Operand::Full(ImmMemHandlerFlags::UseAbsoluteOnStack),
        7 => Operand::Full(ImmMemHandlerFlags::UseImm16Only),
        8 => Operand::Full(ImmMemHandlerFlags::UseCodePage),
        _ => panic!("not an operand number"),
    }
}

pub const fn operand_to(o: &Operand) -> u16 {
    match o {
        Operand::RegOnly => 0,
        Operand::RegOrImm(RegOrImmFlags::UseRegOnly) => 1,
        Operand::RegOrImm(RegOrImmFlags::UseImm16Only) => 2,
        Operand::Full(ImmMemHandlerFlags::UseRegOnly) => 3,
        Operand::Full(ImmMemHandlerFlags::UseStackWithPushPop) => 4,
        Operand::Full(ImmMemHandlerFlags::UseStackWithOffset) => 5,
        Operand::Full(ImmMemHandlerFlags::UseAbsoluteOnStack) => 6,
        Operand::Full(ImmMemHandlerFlags::UseImm16Only) => 7,
        Operand::Full(ImmMemHandlerFlags::UseCodePage) => 8,
        _ => UNKNOWN,
    }
}

/// flags number: bit 0 = flags[0], bit 1 = flags[1]
pub const fn dense(op: u16, src: u16, dst: u16, flags: u16) -> u16 {
    ((op * 9 + src) * 9 + dst) * 4 + flags
}

pub const fn parts(d: u16) -> (u16, u16, u16, u16) {
    (d / 324, d / 36 % 9, d / 4 % 9, d % 4)
}

pub const fn variant(d: u16) -> OpcodeVariant {
    let (op, src, dst, flags) = parts(d);
    OpcodeVariant {
        opcode: op_from(op),
        src0_operand_type: operand_from(src),
        dst0_operand_type: operand_from(dst),
        flags: [flags & 1 != 0, flags & 2 != 0],
    }
}

pub const fn variant_to(v: &OpcodeVariant) -> u16 {
    let op = op_to(&v.opcode);
    let src = operand_to(&v.src0_operand_type);
    let dst = operand_to(&v.dst0_operand_type);
    if op == UNKNOWN || src == UNKNOWN || dst == UNKNOWN {
        return UNKNOWN;
    }
    dense(op, src, dst, v.flags[0] as u16 | (v.flags[1] as u16) << 1)
}

pub const fn cond_from(i: u8) -> Condition {
    match i {
        0 => Condition::Always,
        1 => Condition::Gt,
        2 => Condition::Lt,
        3 => Condition::Eq,
        4 => Condition::Ge,
        5 => Condition::Le,
        6 => Condition::Ne,
        7 => Condition::GtOrLt,
        _ => panic!("not a condition number"),
    }
}

pub const fn cond_to(c: &Condition) -> u8 {
    match c {
        Condition::Always => 0,
        Condition::Gt => 1,
        Condition::Lt => 2,
        Condition::Eq => 3,
        Condition::Ge => 4,
        Condition::Le => 5,
        Condition::Ne => 6,
        Condition::GtOrLt => 7,
        _ => u8::MAX,
    }
}

/// Any representable variant, drawn part by part.
pub fn any_variant(s: &mut crate::src::Src) -> (u16, OpcodeVariant) {
    let op = s.below(45);
    let src = s.below(9);
    let dst = s.below(9);
    let fl = s.below(4);
    let d = dense(op, src, dst, fl);
    let v = OpcodeVariant {
        opcode: op_from(op),
        src0_operand_type: operand_from(src),
        dst0_operand_type: operand_from(dst),
        flags: [fl & 1 != 0, fl & 2 != 0],
    };
    (d, v)
}
