//! C18 sub-variant, condition and family numbering is bijective and version-aware.
use crate::dense::*;
use crate::spec;
use crate::src::Src;
use zkevm_opcode_defs::*;

/// Index contracts of one family, for every 64-bit index and both versions.
fn indices<T: OpcodeVariantProps + OpcodeProps>(s: &mut Src, wrap: fn(T) -> Opcode, first: u16) {
    let size = spec::family_size(first);
    let i = s.u64();
    let version = ISAVersion(s.below(2) as u8);
    match T::from_variant_index_for_version(i as usize, &version) {
        None => assert!(i >= size as u64, "every index up to the maximum is accepted"),
        Some(v) => {
            assert!(i < size as u64, "every index above the maximum is rejected");
            assert!(v.variant_index() as u64 == i, "index of the sub-variant of an index");
            assert!(op_to(&wrap(v)) as u64 == first as u64 + i, "sub-variant with that index");
        }
    }
    reach!(i as u16 == size - 1 && i < 100, "last sub-variant");
    reach!(i == size as u64, "first rejected index");
}

fn maxima<T: OpcodeVariantProps + OpcodeProps>(s: &mut Src, unwrap: fn(Opcode) -> Option<T>, first: u16) {
    let size = spec::family_size(first);
    let version = ISAVersion(s.below(2) as u8);
    let k = s.below(size);
    assert!(T::max_variant_idx_for_version(version) == size as usize - 1, "declared maximum is the largest index in use");
    let v = unwrap(op_from(first + k)).unwrap();
    assert!(v.variant_index() == k as usize, "index of the sub-variant");
    assert!(v.max_variant_idx(version) == size as usize - 1, "declared maximum of the properties is the largest index in use");
    let w = s.u8();
    assert!(v.is_available_for_version(ISAVersion(w)) == (w >= v.minimal_version().0), "available exactly from the introducing version on");
    assert!(v.is_added_in_version(ISAVersion(w)) == (w == v.minimal_version().0), "added exactly in the introducing version");
    assert!(v.minimal_version().0 == 0, "every sub-variant exists since version 0");
}

fn lists<T: OpcodeVariantProps + OpcodeProps + Copy>(s: &mut Src, wrap: fn(T) -> Opcode, first: u16, version: u8) {
    let size = spec::family_size(first);
    let k = s.below(size);
    let version = ISAVersion(version);
    let all = T::all_variants();
    assert!(all.len() == size as usize, "every sub-variant is listed once");
    assert!(op_to(&wrap(all[k as usize])) == first + k, "sub-variants are listed in index order");
    let here = T::variants_for_version(version);
    assert!(here.len() == size as usize, "every sub-variant is available");
    assert!(op_to(&wrap(here[k as usize])) == first + k, "available sub-variants are listed in index order");
    let added = T::variants_added_in_version(version);
    assert!(added.len() == if version.0 == 0 { size as usize } else { 0 }, "all sub-variants were added in version 0");
    assert!(version.0 != 0 || op_to(&wrap(added[k as usize])) == first + k, "added sub-variants are listed in index order");
}

macro_rules! families {
    ($($indices:ident $maxima:ident $lists:ident $ty:ident $variant:ident $first:literal)* ; $($rest:tt)*) => {
        suite! {
            $(
                #[kani::proof]
                fn $indices(s) {
                    indices::<$ty>(s, Opcode::$variant, $first);
                }

                #[kani::proof]
                fn $maxima(s) {
                    fn unwrap(o: Opcode) -> Option<$ty> {
                        match o {
                            Opcode::$variant(v) => Some(v),
                            _ => None,
                        }
                    }
                    maxima::<$ty>(s, unwrap, $first);
                }

                #[kani::proof]
                fn $lists(s) {
                    lists::<$ty>(s, Opcode::$variant, $first, 0);
                    lists::<$ty>(s, Opcode::$variant, $first, 1);
                }
            )*
            $($rest)*
        }
    };
}

families! {
    invalid invalid_maximum invalid_lists InvalidOpcode Invalid 0
    nop nop_maximum nop_lists NopOpcode Nop 1
    add add_maximum add_lists AddOpcode Add 2
    sub sub_maximum sub_lists SubOpcode Sub 3
    mul mul_maximum mul_lists MulOpcode Mul 4
    div div_maximum div_lists DivOpcode Div 5
    jump jump_maximum jump_lists JumpOpcode Jump 6
    binop binop_maximum binop_lists BinopOpcode Binop 7
    shift shift_maximum shift_lists ShiftOpcode Shift 10
    ptr ptr_maximum ptr_lists PtrOpcode Ptr 14
    near_call near_call_maximum near_call_lists NearCallOpcode NearCall 18
    context context_maximum context_lists ContextOpcode Context 19
    log log_maximum log_lists LogOpcode Log 29
    far_call far_call_maximum far_call_lists FarCallOpcode FarCall 34
    ret ret_maximum ret_lists RetOpcode Ret 37
    uma uma_maximum uma_lists UMAOpcode UMA 40
    ;
    #[kani::proof]
    fn families(s) {
        let op = s.below(45);
        let o = op_from(op);
        assert!(o.variant_idx() == spec::family(op) as usize, "family number");
        assert!(o.materialize_subvariant_idx() == spec::sub(op) as usize, "sub-variant number within the family");
        let other = s.below(45);
        assert!((o.variant_idx() == op_from(other).variant_idx()) == (spec::first(op) == spec::first(other)), "distinct families have distinct numbers");
        reach!(op == 28, "tenth sub-variant");
    }

    #[kani::proof]
    fn materialize(s) {
        let op = s.below(45);
        let version = ISAVersion(s.below(2) as u8);
        let k = s.below(10);
        given!(s, k < spec::family_size(op));
        let r = op_from(op).materialize_subvariant_from_prototype(k as usize, &version);
        assert!(op_to(&r) == spec::first(op) + k, "materializing gives the sub-variant of the same family with that number");
        reach!(k == 9, "tenth sub-variant");
    }

    #[kani::proof]
    fn prototypes(s) {
        let all = all_opcode_prototypes();
        let i = s.below(16) as usize;
        const FIRSTS: [u16; 16] = [0, 1, 2, 3, 4, 5, 6, 7, 10, 14, 18, 19, 29, 34, 37, 40];
        assert!(op_to(&all[i]) == FIRSTS[i], "family prototypes in their order");
        assert!(NUM_OPCODES == 16, "sixteen families");
        let v = INVALID_OPCODE_VARIANT;
        assert!(variant_to(&v) == spec::INVALID, "the invalid instruction has no operands and no flags");
    }

    #[kani::proof]
    fn conditions(s) {
        let i = s.below(8) as u8;
        let c = cond_from(i);
        assert!(c.variant_index() == i as usize && c as u8 == i, "condition number");
        assert!(cond_to(&Condition::materialize_variant(i as usize)) == i, "condition with that number");
        assert!(cond_to(&ALL_CONDITIONS[i as usize]) == i, "conditions are listed in order");
        assert!(CONDITIONAL_BITS_WIDTH == 3, "three condition bits");
    }

    #[kani::proof]
    fn versions(s) {
        let v = s.below(4) as u8;
        let i = s.below(2) as usize;
        assert!(ALL_ISA_VERSIONS[i].0 as usize == i && ALL_ISA_VERSIONS[i].as_index() == i, "versions are numbered in order");
        assert!(NUM_ISA_VERSIONS == 2 && DEFAULT_ISA_VERSION.0 == 1, "the default version is the newest");
        let l = ISAVersion::all_backward_compatible_versions(ISAVersion(v));
        assert!(l.len() == if v == 0 { 1 } else { 2 }, "every version up to the given one");
        assert!(l[0].0 == 0 && (v == 0 || l[1].0 == 1), "in order");
    }
}
