//! C20 the published format constants and family descriptors describe the formats in use.
use crate::dense::*;
use crate::real::*;
use crate::spec;
use crate::src::Src;
use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::*;

type P = EncodingModeProduction;
type T = EncodingModeTesting;

/// Bits `from .. from + width` of a word.
fn cut(w: u128, from: usize, width: usize) -> u128 {
    (w >> from) & ((1u128 << width) - 1)
}

/// The six head fields of a word, cut out with the published positions only.
fn head(w: u128) -> (u128, u128, [u128; 4]) {
    let r = REGISTER_INDEX_ENCODING_BITS;
    let (src, dst) = (SRC_REGS_SHIFT as usize, DST_REGS_SHIFT as usize);
    (
        cut(w, 0, OPCODES_TABLE_WIDTH),
        cut(w, CONDITIONAL_BITS_SHIFT, CONDITIONAL_BITS_WIDTH),
        [cut(w, src, r), cut(w, src + r, r), cut(w, dst, r), cut(w, dst + r, r)],
    )
}

/// Byte number `i` of a 256-bit word, least significant first.
fn byte(w: &[u64; 4], i: usize) -> u8 {
    (w[i / 8] >> (8 * (i % 8))) as u8
}

fn mode_number(b: u8) -> u8 {
    if b < 3 { b } else { 0 }
}

contract! {
    fn nibbles(v: u8) -> (u8, u8);
    ensures |r| r.0 < 16 && r.1 < 16;
    ensures |r| r.0 as u32 + 16 * r.1 as u32 == v as u32;
    { split_as_u4(v) }
}

contract! {
    fn byte_of_nibbles(low: u8, high: u8) -> u8;
    requires low < 16 && high < 16;
    ensures |r| *r as u32 == low as u32 + 16 * high as u32;
    { merge_u4(low, high) }
}

/// Number of immediates an operation declares.
const fn immediates(op: u16) -> usize {
    match op {
        1..=5 | 7..=18 => 2,
        6 | 34..=39 => 1,
        _ => 0,
    }
}

/// What a family declares for its sub-variants.
fn declared<T: OpcodeProps>(s: &mut Src, unwrap: fn(Opcode) -> Option<T>, first: u16, version: u8) {
    let size = spec::family_size(first);
    let (k, j) = (s.below(size), s.below(size));
    let v = unwrap(op_from(first + j)).unwrap();
    let data = v.variants_data(ISAVersion(version));
    assert!(data.len() == size as usize, "every sub-variant is declared once");
    let d = data[k as usize];
    assert!(d.variant_idx == k as usize, "sub-variants are declared in index order");
    assert!(d.num_non_exclusive_flags == spec::nflags(first + k) as usize, "declared number of flags");
    assert!(d.num_used_immediates == immediates(first + k), "declared number of immediates");
    reach!(k == size - 1, "last sub-variant");
}

macro_rules! families {
    ($($v0:ident $v1:ident $ty:ident $variant:ident $first:literal)* ; $($rest:tt)*) => {
        suite_with_tables! {
            $(
                #[kani::proof]
                #[kani::unwind(14)]
                fn $v0(s) {
                    declared::<$ty>(s, |o| match o { Opcode::$variant(v) => Some(v), _ => None }, $first, 0);
                }

                #[kani::proof]
                #[kani::unwind(14)]
                fn $v1(s) {
                    declared::<$ty>(s, |o| match o { Opcode::$variant(v) => Some(v), _ => None }, $first, 1);
                }
            )*
            $($rest)*
        }
    };
}

families! {
    declared_invalid_0 declared_invalid_1 InvalidOpcode Invalid 0
    declared_nop_0 declared_nop_1 NopOpcode Nop 1
    declared_add_0 declared_add_1 AddOpcode Add 2
    declared_sub_0 declared_sub_1 SubOpcode Sub 3
    declared_mul_0 declared_mul_1 MulOpcode Mul 4
    declared_div_0 declared_div_1 DivOpcode Div 5
    declared_jump_0 declared_jump_1 JumpOpcode Jump 6
    declared_binop_0 declared_binop_1 BinopOpcode Binop 7
    declared_shift_0 declared_shift_1 ShiftOpcode Shift 10
    declared_ptr_0 declared_ptr_1 PtrOpcode Ptr 14
    declared_near_call_0 declared_near_call_1 NearCallOpcode NearCall 18
    declared_context_0 declared_context_1 ContextOpcode Context 19
    declared_log_0 declared_log_1 LogOpcode Log 29
    declared_far_call_0 declared_far_call_1 FarCallOpcode FarCall 34
    declared_ret_0 declared_ret_1 RetOpcode Ret 37
    declared_uma_0 declared_uma_1 UMAOpcode UMA 40
    ;
    #[kani::proof]
    fn parsed_fields_production(s) {
        let w = s.u64();
        let (n, c, r) = head(w as u128);
        let (d, number) = P::parse_preliminary_variant_and_absolute_number(w);
        assert!(number.into_usize() as u128 == n, "number at the published position");
        assert!(cond_to(&d.condition) as u128 == c, "condition at the published position");
        assert!(d.src0_reg_idx as u128 == r[0] && d.src1_reg_idx as u128 == r[1], "source registers at the published positions");
        assert!(d.dst0_reg_idx as u128 == r[2] && d.dst1_reg_idx as u128 == r[3], "destination registers at the published positions");
        reach!(n == 1092 && c == 7 && r[3] == 15, "extreme fields");
    }

    #[kani::proof]
    fn parsed_fields_testing(s) {
        let w = s.u128();
        let (n, c, r) = head(w);
        let (d, number) = T::parse_preliminary_variant_and_absolute_number(w);
        assert!(number.into_usize() as u128 == n, "number at the published position");
        assert!(cond_to(&d.condition) as u128 == c, "condition at the published position");
        assert!(d.src0_reg_idx as u128 == r[0] && d.src1_reg_idx as u128 == r[1], "source registers at the published positions");
        assert!(d.dst0_reg_idx as u128 == r[2] && d.dst1_reg_idx as u128 == r[3], "destination registers at the published positions");
        reach!(n == 1092 && c == 7 && r[3] == 15, "extreme fields");
    }

    #[kani::proof]
    fn encoded_fields(s) {
        let i = s.below(spec::V1_COUNT);
        let c = s.below(8) as u8;
        let regs = [s.below(16) as u8, s.below(16) as u8, s.below(16) as u8, s.below(16) as u8];
        let (i0, i1, j0, j1) = (s.u16(), s.u16(), s.u32(), s.u32());
        let variant = OPCODES_TABLE[i as usize];
        let p = P::encode_as_integer(&DecodedOpcode {
            variant, condition: cond_from(c), imm_0: i0, imm_1: i1,
            src0_reg_idx: regs[0], src1_reg_idx: regs[1], dst0_reg_idx: regs[2], dst1_reg_idx: regs[3],
        });
        let t = T::encode_as_integer(&DecodedOpcode {
            variant, condition: cond_from(c), imm_0: j0, imm_1: j1,
            src0_reg_idx: regs[0], src1_reg_idx: regs[1], dst0_reg_idx: regs[2], dst1_reg_idx: regs[3],
        });
        let m = if s.bool() { p as u128 } else { t };
        let (n, k, r) = head(m);
        assert!(n == i as u128, "number at the published position");
        assert!(k == c as u128, "condition at the published position");
        assert!(r[0] == regs[0] as u128 && r[1] == regs[1] as u128, "source registers at the published positions");
        assert!(r[2] == regs[2] as u128 && r[3] == regs[3] as u128, "destination registers at the published positions");
        assert!(cut(m, 0, VARIANT_AND_CONDITION_ENCODING_BITS) == n | k << CONDITIONAL_BITS_SHIFT, "number and condition fill the published part");
        reach!(i == spec::V1_COUNT - 1, "last instruction");
    }

    #[kani::proof]
    fn published_positions(s) {
        assert!(OPCODES_TABLE_WIDTH == 11 && CONDITIONAL_BITS_SHIFT == 13 && CONDITIONAL_BITS_WIDTH == 3, "number and condition");
        assert!(VARIANT_AND_CONDITION_ENCODING_BITS == 16 && SRC_REGS_SHIFT == 16 && DST_REGS_SHIFT == 24 && REGISTER_INDEX_ENCODING_BITS == 4, "registers");
        assert!(FAR_CALL_FORWARDING_MODE_BYTE_IDX == 28 && FAR_CALL_SHARD_ID_BYTE_IDX == 29, "far-call bytes");
        assert!(FAR_CALL_CONSTRUCTOR_CALL_BYTE_IDX == 30 && FAR_CALL_SYSTEM_CALL_BYTE_IDX == 31 && RET_FORWARDING_MODE_BYTE_IDX == 28, "far-call and return bytes");
        assert!(FatPointer::FAT_POINTER_PACKED_WIDTH == 128, "pointer width");
        assert!(KERNEL_MODE_FLAG_BITS == 1 && CAN_BE_USED_IN_STATIC_CONTEXT_FLAG_BITS == 1 && EXPLICIT_PANIC_FLAG_BITS == 1, "one bit per auxiliary flag");
        assert!(NUM_OPCODES == 16 && NUM_ISA_VERSIONS == 2 && ALL_ISA_VERSIONS[0].0 == 0 && ALL_ISA_VERSIONS[1].0 == 1, "families and versions");
        assert!(DEFAULT_ISA_VERSION.0 == 1, "the default is the newest version");
        let _ = s;
    }

    fn nibbles_of_byte(s) checks super::nibbles {
        let v = s.u8();
        super::nibbles(v);
    }

    fn byte_of_two_nibbles(s) checks super::byte_of_nibbles {
        let (l, h) = (s.below(16) as u8, s.below(16) as u8);
        super::byte_of_nibbles(l, h);
    }

    #[kani::proof]
    #[cfg_attr(not(feature = "history"), kani::stub_verified(super::nibbles))]
    #[cfg_attr(not(feature = "history"), kani::stub_verified(super::byte_of_nibbles))]
    fn lemma_nibbles_are_inverse(s) {
        let (v, l, h) = (s.u8(), s.below(16) as u8, s.below(16) as u8);
        let (a, b) = super::nibbles(v);
        assert!(super::byte_of_nibbles(a, b) == v, "merging the nibbles of a byte gives the byte");
        let m = super::byte_of_nibbles(l, h);
        let (a, b) = super::nibbles(m);
        assert!(a == l && b == h, "splitting a merged byte gives the nibbles");
    }

    #[kani::proof]
    fn far_call_bytes(s) {
        let w = s.words();
        let r = FarCallABI::from_u256(U256(w));
        assert!(r.shard_id == byte(&w, FAR_CALL_SHARD_ID_BYTE_IDX), "shard at the published byte");
        assert!(r.constructor_call == (byte(&w, FAR_CALL_CONSTRUCTOR_CALL_BYTE_IDX) != 0), "constructor flag at the published byte");
        assert!(r.to_system == (byte(&w, FAR_CALL_SYSTEM_CALL_BYTE_IDX) != 0), "system flag at the published byte");
        assert!(r.forwarding_mode as u8 == mode_number(byte(&w, FAR_CALL_FORWARDING_MODE_BYTE_IDX)), "forwarding mode at the published byte");
        let t = RetABI::from_u256(U256(w));
        assert!(t.page_forwarding_mode as u8 == mode_number(byte(&w, RET_FORWARDING_MODE_BYTE_IDX)), "return forwarding mode at the published byte");
        reach!(r.to_system && !r.constructor_call && r.shard_id == 3, "mixed flags");
    }

    #[kani::proof]
    fn pointer_width(s) {
        let (w, v) = (s.words(), s.words());
        let width = FatPointer::FAT_POINTER_PACKED_WIDTH as usize;
        let p = FatPointer::from_u256(U256(w)).to_u256().0;
        let i = s.below(32) as usize;
        assert!(i * 8 < width || byte(&p, i) == 0, "a packed pointer is no wider than published");
        let k = s.below(4) as usize;
        given!(s, k * 64 >= width);
        let mut x = w;
        x[k] = v[k];
        let (a, b) = (FatPointer::from_u256(U256(x)), FatPointer::from_u256(U256(w)));
        assert!(a.offset == b.offset && a.memory_page == b.memory_page && a.start == b.start && a.length == b.length, "bits above the published width are not part of a pointer");
        reach!(k == 2, "first ignored limb");
    }

    #[kani::proof]
    fn prototypes(s) {
        let i = s.below(16);
        let version = s.below(2) as usize;
        let first = FIRST[i as usize];
        let p = prototype(i as usize);
        let size = spec::family_size(first) as u32;
        assert!(p[version] == size - 1, "largest sub-variant index of the prototype");
        assert!(p[2 + version] == size, "number of sub-variants of the prototype");
        assert!(p[4] == spec::kernel(first) as u32 && p[5] == spec::static_ok(first) as u32, "permissions of the prototype");
        assert!(p[6 + version] == spec::inputs(first, version as u8).0 as u32, "inputs of the prototype");
        assert!(p[8 + version] == spec::outputs(first).0 as u32, "outputs of the prototype");
        assert!(p[10] == 1, "the prototype's name is unlike all others");
        assert!(num_logical_opcodes() == 16, "sixteen prototypes");
    }

    #[kani::proof]
    fn decoding_format(s) {
        let version = s.below(2) as usize;
        let f = format_numbers(version);
        assert!(f[0] == 38 && f[1] == 16 && f[2] == 10 && f[3] == 2 && f[4] == 6 && f[5] == 4, "printed total and group widths");
    }
}

/// first operation of the families in the order of the ISA
const FIRST: [u16; 16] = [0, 1, 2, 3, 4, 5, 6, 7, 10, 14, 18, 19, 29, 34, 37, 40];
