//! Specification functions: the meaning the properties assign to the code, written from the property
//! texts and the ISA, without calling the code under verification.
use crate::dense::*;

pub const TABLE: usize = 2048;
pub const V0_COUNT: u16 = 1085;
pub const V1_COUNT: u16 = 1093;

/// Addressing class of an operation.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Addr {
    /// no general operand
    Reg,
    /// general source and general destination
    FullFull,
    /// general source, no general destination
    FullNone,
    /// register-or-immediate source in version 1, register in version 0
    RegOrImm,
}

pub const fn addr(op: u16) -> Addr {
    match op {
        1..=5 | 7..=17 => Addr::FullFull,
        6 => Addr::FullNone,
        40..=43 => Addr::RegOrImm,
        _ => Addr::Reg,
    }
}

/// Number of non-exclusive flags of an operation.
pub const fn nflags(op: u16) -> u16 {
    match op {
        3 | 5 | 10..=13 | 34..=36 => 2,
        2 | 4 | 7..=9 | 14..=17 | 31 | 32 | 37..=39 | 40..=44 => 1,
        _ => 0,
    }
}

/// First table number of an operation (version 0 block).
pub const fn base(op: u16) -> u16 {
    match op {
        0 => 0,
        1 => 1,
        2 => 25,
        3 => 73,
        4 => 169,
        5 => 217,
        6 => 313,
        7..=9 => 319 + (op - 7) * 48,
        10..=13 => 463 + (op - 10) * 96,
        14..=17 => 847 + (op - 14) * 48,
        18 => 1039,
        19..=28 => 1040 + (op - 19),
        29 => 1050,
        30 => 1051,
        31 => 1052,
        32 => 1054,
        33 => 1056,
        34..=36 => 1057 + (op - 34) * 4,
        37..=39 => 1069 + (op - 37) * 2,
        _ => 1075 + (op - 40) * 2,
    }
}

const NONE: u16 = u16::MAX;

/// The number the ISA assigns to a variant in a version, or `NONE` if the variant does not exist there.
pub const fn index_in(version: u8, d: u16) -> u16 {
    if d as usize >= VARIANTS {
        return NONE;
    }
    let (op, src, dst, fl) = parts(d);
    let n = nflags(op);
    // flag part: flags[0] is the outer position
    let flag_part = match n {
        0 => {
            if fl != 0 {
                return NONE;
            }
            0
        }
        1 => {
            if fl > 1 {
                return NONE;
            }
            fl
        }
        _ => (fl & 1) * 2 + (fl >> 1),
    };
    let mult = 1u16 << n;
    match addr(op) {
        Addr::Reg => {
            if src != REG_ONLY || dst != REG_ONLY {
                return NONE;
            }
            base(op) + flag_part
        }
        Addr::FullFull => {
            // destinations are register, push, stack offset, stack absolute
            if src < FULL || dst < FULL || dst >= FULL + 4 {
                return NONE;
            }
            base(op) + ((src - FULL) * 4 + (dst - FULL)) * mult + flag_part
        }
        Addr::FullNone => {
            if src < FULL || dst != REG_ONLY {
                return NONE;
            }
            base(op) + (src - FULL) * mult + flag_part
        }
        Addr::RegOrImm => {
            if dst != REG_ONLY {
                return NONE;
            }
            if version == 0 {
                if src != REG_ONLY {
                    return NONE;
                }
                return base(op) + flag_part;
            }
            if src == ROI_REG {
                base(op) + flag_part
            } else if src == ROI_IMM {
                V0_COUNT + (op - 40) * 2 + flag_part
            } else {
                NONE
            }
        }
    }
}

pub const fn exists_in(version: u8, d: u16) -> bool {
    index_in(version, d) != NONE
}

pub const INVALID: u16 = 0; // dense(0,0,0,0)
pub const NOP: u16 = dense(1, FULL, FULL, 0);
pub const PANIC: u16 = dense(39, 0, 0, 0);

pub const fn kernel(op: u16) -> bool {
    matches!(op, 26 | 27 | 28 | 31 | 32 | 33 | 36)
}

pub const fn static_ok(op: u16) -> bool {
    !matches!(op, 26 | 27 | 28 | 30 | 31 | 32)
}

pub const fn explicit_panic(op: u16) -> bool {
    op == 0
}

/// The protocol's price of an operation in ergs.
pub const fn price(op: u16) -> u32 {
    match op {
        0 => u32::MAX,
        1..=17 => 6,
        18 => 25,
        19..=28 => 5,
        29 => 158,
        30 => 3501,
        31 => 156250,
        32 => 38,
        33 => 6,
        34..=36 => 182,
        37..=39 => 5,
        41 | 43 => 13,
        _ => 7,
    }
}

/// Number of the family of an operation in the property bitmask.
pub const fn family(op: u16) -> u16 {
    match op {
        0..=6 => op,
        7..=9 => 9,
        10..=13 => 8,
        14..=17 => 10,
        18 => 11,
        19..=28 => 7,
        29..=33 => 12,
        34..=36 => 13,
        37..=39 => 14,
        _ => 15,
    }
}

/// First operation of the family.
pub const fn first(op: u16) -> u16 {
    match op {
        0..=6 => op,
        7..=9 => 7,
        10..=13 => 10,
        14..=17 => 14,
        18 => 18,
        19..=28 => 19,
        29..=33 => 29,
        34..=36 => 34,
        37..=39 => 37,
        _ => 40,
    }
}

/// Number of operations in the family.
pub const fn family_size(op: u16) -> u16 {
    match op {
        0..=6 | 18 => 1,
        7..=9 => 3,
        10..=13 | 14..=17 => 4,
        19..=28 => 10,
        29..=33 | 40..=44 => 5,
        _ => 3,
    }
}

pub const fn sub(op: u16) -> u16 {
    op - first(op)
}

/// Addressing mode number of an operand type (0 = register .. 5 = code page).
pub const fn mode(operand: u16) -> u16 {
    match operand {
        REG_ONLY | ROI_REG => 0,
        ROI_IMM => 4,
        o => o - FULL,
    }
}

pub const fn bitmask(d: u16) -> u64 {
    let (op, src, dst, fl) = parts(d);
    let mut r = 1u64 << family(op);
    r |= 1u64 << (16 + sub(op));
    r |= (fl as u64) << 26;
    r |= 1u64 << (28 + mode(src));
    r |= 1u64 << (34 + mode(dst));
    if kernel(op) {
        r |= 1 << 48;
    }
    if static_ok(op) {
        r |= 1 << 49;
    }
    if explicit_panic(op) {
        r |= 1 << 50;
    }
    r
}

/// Declared inputs: (count, first operand type, second operand type); missing ones are REG_ONLY.
pub const fn inputs(op: u16, version: u8) -> (usize, u16, u16) {
    match op {
        1 | 6 => (1, FULL, REG_ONLY),
        2..=5 | 7..=17 => (2, FULL, REG_ONLY),
        18 => (1, REG_ONLY, REG_ONLY),
        26 | 27 => (1, REG_ONLY, REG_ONLY),
        29 | 33 => (1, REG_ONLY, REG_ONLY),
        30..=32 => (2, REG_ONLY, REG_ONLY),
        34..=36 => (2, REG_ONLY, REG_ONLY),
        37 | 38 => (1, REG_ONLY, REG_ONLY),
        40 | 42 => (1, if version == 0 { REG_ONLY } else { ROI_REG }, REG_ONLY),
        41 | 43 => (2, if version == 0 { REG_ONLY } else { ROI_REG }, REG_ONLY),
        44 => (1, REG_ONLY, REG_ONLY),
        _ => (0, REG_ONLY, REG_ONLY),
    }
}

/// Declared outputs, as `inputs`.
pub const fn outputs(op: u16) -> (usize, u16, u16) {
    match op {
        1..=3 | 7..=17 => (1, FULL, REG_ONLY),
        4 | 5 => (2, FULL, REG_ONLY),
        19..=25 | 29 | 33 | 41 | 43 => (1, REG_ONLY, REG_ONLY),
        40 | 42 | 44 => (2, REG_ONLY, REG_ONLY),
        _ => (0, REG_ONLY, REG_ONLY),
    }
}

/// Which flag swaps the operands: 0, 1, or none.
pub const fn swap(op: u16, fl: u16) -> bool {
    match op {
        3 | 5 | 10..=13 => fl & 2 != 0,
        14..=17 => fl & 1 != 0,
        _ => false,
    }
}

// ---------------------------------------------------------------- instruction words

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[cfg_attr(kani, derive(kani::Arbitrary))]
pub struct Instr {
    pub variant: u16, // dense
    pub cond: u8,
    pub src0: u8,
    pub src1: u8,
    pub dst0: u8,
    pub dst1: u8,
    pub imm0: u32,
    pub imm1: u32,
}

/// an instruction the production format can express
pub fn encodable(i: &Instr, imm_bits: u32) -> bool {
    exists_in(1, i.variant)
        && i.cond < 8
        && i.src0 < 16
        && i.src1 < 16
        && i.dst0 < 16
        && i.dst1 < 16
        && (imm_bits == 32 || (i.imm0 >> 16 == 0 && i.imm1 >> 16 == 0))
}

fn low32(i: &Instr) -> u32 {
    index_in(1, i.variant) as u32
        | (i.cond as u32) << 13
        | (i.src0 as u32) << 16
        | (i.src1 as u32) << 20
        | (i.dst0 as u32) << 24
        | (i.dst1 as u32) << 28
}

pub fn word_production(i: &Instr) -> u64 {
    low32(i) as u64 | (i.imm0 as u64) << 32 | (i.imm1 as u64) << 48
}

pub fn word_testing(i: &Instr) -> u128 {
    low32(i) as u128 | (i.imm0 as u128) << 32 | (i.imm1 as u128) << 64
}
