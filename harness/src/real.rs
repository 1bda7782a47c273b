//! Access to the input-free values of the crate under verification (decoding tables, price list, bitmask
//! list, lookup maps, published variants).
//!
//! Natively every function here evaluates the real global or calls the real constructor. Under Kani the
//! same function reads `tables.rs`, which the native binary wrote from those very values earlier in the
//! same run, and the globals' `Deref` is stubbed with the same values (module `stubs`).
use crate::dense::*;
use zkevm_opcode_defs::*;

pub const NO_ROW: u16 = u16::MAX;

#[cfg(all(kani, feature = "tables"))]
pub use by_table::*;
#[cfg(not(kani))]
pub use by_call::*;

#[cfg(all(kani, feature = "tables"))]
mod by_table {
    use crate::tables as t;
    pub fn row_default(i: u16) -> u16 { t::DEFAULT[i as usize] }
    pub fn row(version: u8, i: u16) -> u16 { if version == 0 { t::SYN0[i as usize] } else { t::SYN1[i as usize] } }
    pub fn row_legacy(i: u16) -> u16 { t::LEGACY0[i as usize] }
    pub fn row_wide(version: u8, i: u16) -> u16 { if version == 0 { t::WIDE0[i as usize] } else { t::WIDE1[i as usize] } }
    #[cfg(any(feature = "c04", feature = "c05"))]
    pub fn wide_summary(version: u8, width: usize) -> [u32; 3] { t::WIDTHS[version as usize][width - 11] }
    pub fn first_row(version: u8, d: u16) -> u16 { if version == 0 { t::FIRST0[d as usize] } else { t::FIRST1[d as usize] } }
    pub fn rows_of(version: u8, d: u16) -> u16 { if version == 0 { t::COUNT0[d as usize] } else { t::COUNT1[d as usize] } }
    pub fn lookup_canonical(d: u16) -> u16 { t::MAP_CANONICAL[d as usize] as u16 }
    pub fn lookup_monotonic(d: u16) -> u16 { t::MAP_MONOTONIC[d as usize] as u16 }
    pub fn published_price(i: u16) -> u32 { t::PRICES[i as usize] }
    pub fn published_bitmask(i: u16) -> u64 { t::BITMASKS[i as usize] }
    pub fn nop_variant() -> u16 { t::NOP_VARIANT }
    pub fn panic_variant() -> u16 { t::PANIC_VARIANT }
    pub fn nop_bitspread() -> u64 { t::NOP_BITSPREAD }
    pub fn panic_bitspread() -> u64 { t::PANIC_BITSPREAD }
    pub fn formal_address(i: usize) -> [u8; 20] { t::FORMAL_ADDRESSES[i] }
    #[cfg(feature = "c20")]
    pub fn prototype(i: usize) -> [u32; 11] { t::PROTOTYPES[i] }
    #[cfg(feature = "c20")]
    pub fn format_numbers(version: usize) -> [u32; 6] { t::FORMAT[version] }
    pub fn num_logical_opcodes() -> usize { t::NUM_LOGICAL_OPCODES }
    pub fn num_input_variants() -> usize { t::NUM_INPUT_VARIANTS }
    pub fn num_output_variants() -> usize { t::NUM_OUTPUT_VARIANTS }
}

#[cfg(not(kani))]
mod by_call {
    use super::*;
    use std::sync::OnceLock;

    pub type Rows = Vec<u16>;

    fn dense_rows(t: &[OpcodeVariant]) -> Rows {
        t.iter().map(variant_to).collect()
    }
    pub fn synthesized(version: u8) -> &'static Rows {
        static T: [OnceLock<Rows>; 2] = [OnceLock::new(), OnceLock::new()];
        T[version as usize].get_or_init(|| dense_rows(&synthesize_opcode_decoding_tables(11, ISAVersion(version))))
    }
    pub fn wide(version: u8) -> &'static Rows {
        static T: [OnceLock<Rows>; 2] = [OnceLock::new(), OnceLock::new()];
        T[version as usize].get_or_init(|| dense_rows(&synthesize_opcode_decoding_tables(12, ISAVersion(version))))
    }
    pub fn legacy() -> &'static Rows {
        static T: OnceLock<Rows> = OnceLock::new();
        T.get_or_init(|| dense_rows(&synthesize_opcode_decoding_tables_legacy(11, ISAVersion(0))))
    }
    pub fn default_rows() -> Rows {
        dense_rows(&OPCODES_TABLE[..])
    }
    /// (first row, number of rows) of every variant
    pub fn inverse(version: u8) -> &'static (Rows, Rows) {
        static T: [OnceLock<(Rows, Rows)>; 2] = [OnceLock::new(), OnceLock::new()];
        T[version as usize].get_or_init(|| {
            let mut first = vec![NO_ROW; VARIANTS];
            let mut count = vec![0u16; VARIANTS];
            for (i, d) in synthesized(version).iter().enumerate() {
                if (*d as usize) < VARIANTS {
                    if count[*d as usize] == 0 {
                        first[*d as usize] = i as u16;
                    }
                    count[*d as usize] += 1;
                }
            }
            (first, count)
        })
    }
    pub fn row_default(i: u16) -> u16 { variant_to(&OPCODES_TABLE[i as usize]) }
    pub fn row(version: u8, i: u16) -> u16 { synthesized(version)[i as usize] }
    pub fn row_legacy(i: u16) -> u16 { legacy()[i as usize] }
    pub fn row_wide(version: u8, i: u16) -> u16 { wide(version)[i as usize] }
    /// rows of the table of a width, first row that differs from the 11-bit table, rows above it that are not invalid;
    /// number 2 stands for the legacy construction for version 0
    pub fn wide_summary(version: u8, width: usize) -> [u32; 3] {
        static T: [[OnceLock<[u32; 3]>; 10]; 3] = [const { [const { OnceLock::new() }; 10] }; 3];
        *T[version as usize][width - 11].get_or_init(|| {
            let (w, n) = match version {
                2 => (synthesize_opcode_decoding_tables_legacy(width, ISAVersion(0)), synthesized(0)),
                v => (synthesize_opcode_decoding_tables(width, ISAVersion(v)), synthesized(v)),
            };
            let w = dense_rows(&w);
            let differs = (0..2048).find(|i| w.get(*i) != n.get(*i)).unwrap_or(2048);
            let extra = w.iter().skip(2048).filter(|d| **d != crate::spec::INVALID).count();
            [w.len() as u32, differs as u32, extra as u32]
        })
    }
    pub fn first_row(version: u8, d: u16) -> u16 { inverse(version).0[d as usize] }
    pub fn rows_of(version: u8, d: u16) -> u16 { inverse(version).1[d as usize] }
    pub fn lookup_canonical(d: u16) -> u16 {
        OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.get(&variant(d)).map(|i| *i as u16).unwrap_or(NO_ROW)
    }
    pub fn lookup_monotonic(d: u16) -> u16 {
        OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.get(&variant(d)).map(|i| i.into_usize() as u16).unwrap_or(NO_ROW)
    }
    pub fn published_price(i: u16) -> u32 { OPCODES_PRICES[i as usize] }
    pub fn published_bitmask(i: u16) -> u64 { OPCODES_PROPS_INTEGER_BITMASKS[i as usize] }
    pub fn nop_variant() -> u16 { variant_to(&NOP_OPCODE_VARIANT) }
    pub fn panic_variant() -> u16 { variant_to(&PANIC_OPCODE_VARIANT) }
    pub fn nop_bitspread() -> u64 { *NOP_BITSPREAD_U64 }
    pub fn panic_bitspread() -> u64 { *PANIC_BITSPREAD_U64 }
    pub fn formal_address(i: usize) -> [u8; 20] {
        use zkevm_opcode_defs::system_params::*;
        match i {
            0 => BOOTLOADER_FORMAL_ADDRESS.0,
            1 => DEPLOYER_SYSTEM_CONTRACT_ADDRESS.0,
            2 => NONCE_MANAGER_SYSTEM_CONTRACT_ADDRESS.0,
            3 => KNOWN_CODE_FACTORY_SYSTEM_CONTRACT_ADDRESS.0,
            4 => KECCAK256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS.0,
            5 => SHA256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS.0,
            _ => ECRECOVER_INNER_FUNCTION_PRECOMPILE_FORMAL_ADDRESS.0,
        }
    }
    /// what the prototype of a family answers: largest index and number of sub-variants per version, kernel,
    /// static, inputs and outputs per version, whether its name is unique
    pub fn prototype(i: usize) -> [u32; 11] {
        let p = &OPCODE_PROTOTYPES[i];
        let v = [ISAVersion(0), ISAVersion(1)];
        let same = OPCODE_PROTOTYPES.iter().filter(|q| q.name() == p.name()).count();
        [
            p.max_variant_idx(v[0]) as u32,
            p.max_variant_idx(v[1]) as u32,
            p.variants_data(v[0]).len() as u32,
            p.variants_data(v[1]).len() as u32,
            p.requires_kernel_mode() as u32,
            p.can_be_used_in_static_context() as u32,
            p.input_operands(v[0]).len() as u32,
            p.input_operands(v[1]).len() as u32,
            p.output_operands(v[0]).len() as u32,
            p.output_operands(v[1]).len() as u32,
            same as u32,
        ]
    }
    /// the numbers in the printed decoding format, in order
    pub fn format_numbers(version: usize) -> [u32; 6] {
        let t = compute_decoding_format(ISAVersion(version as u8));
        let n: Vec<u32> = t.split(|c: char| !c.is_ascii_digit()).filter_map(|p| p.parse().ok()).collect();
        n.try_into().expect("six numbers")
    }
    pub fn num_logical_opcodes() -> usize { *NUM_LOGICAL_OPCODES }
    pub fn num_input_variants() -> usize { *NUM_INPUT_VARIANTS }
    pub fn num_output_variants() -> usize { *NUM_OUTPUT_VARIANTS }
}

/// The globals' `Deref` as contracts: what the real initializer evaluates to, as dumped in this run.
#[cfg(all(kani, feature = "tables", not(feature = "bare")))]
pub mod stubs {
    use crate::dense::*;
    use crate::tables as t;
    use std::collections::HashMap;
    use zkevm_opcode_defs::decoding::VariantMonotonicNumber;
    use zkevm_opcode_defs::*;

    const fn build() -> [OpcodeVariant; 2048] {
        let mut r = [variant(0); 2048];
        let mut i = 0;
        while i < 2048 {
            if (t::DEFAULT[i] as usize) < VARIANTS {
                r[i] = variant(t::DEFAULT[i]);
            }
            i += 1;
        }
        r
    }
    static TABLE: [OpcodeVariant; 2048] = build();
    static NOP: OpcodeVariant = variant(t::NOP_VARIANT);
    static PANIC: OpcodeVariant = variant(t::PANIC_VARIANT);
    static MAP_C: [u64; 6] = [1; 6];
    static MAP_M: [u64; 6] = [2; 6];

    pub fn opcodes_table(_: &OPCODES_TABLE) -> &[OpcodeVariant; 2048] {
        &TABLE
    }
    pub fn nop(_: &NOP_OPCODE_VARIANT) -> &OpcodeVariant {
        &NOP
    }
    pub fn panic(_: &PANIC_OPCODE_VARIANT) -> &OpcodeVariant {
        &PANIC
    }
    pub fn bitmasks(_: &OPCODES_PROPS_INTEGER_BITMASKS) -> &[u64; 2048] {
        &t::BITMASKS
    }
    pub fn num_logical_opcodes(_: &NUM_LOGICAL_OPCODES) -> &usize {
        &t::NUM_LOGICAL_OPCODES_REF
    }
    pub fn num_input_variants(_: &NUM_INPUT_VARIANTS) -> &usize {
        &t::NUM_INPUT_VARIANTS_REF
    }
    pub fn num_output_variants(_: &NUM_OUTPUT_VARIANTS) -> &usize {
        &t::NUM_OUTPUT_VARIANTS_REF
    }
    pub fn map_canonical(_: &OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP) -> &HashMap<OpcodeVariant, usize> {
        unsafe { &*(&MAP_C as *const _ as *const HashMap<OpcodeVariant, usize>) }
    }
    pub fn map_monotonic(
        _: &OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP,
    ) -> &HashMap<OpcodeVariant, VariantMonotonicNumber> {
        unsafe { &*(&MAP_M as *const _ as *const HashMap<OpcodeVariant, VariantMonotonicNumber>) }
    }
    /// `HashMap::get` / `contains_key` on one of the two lookup maps; any other map is outside this contract.
    pub struct Map<K, V, S, A: std::alloc::Allocator>(std::marker::PhantomData<(K, V, S, A)>);

    impl<K, V, S, A: std::alloc::Allocator> Map<K, V, S, A> {
        pub fn get<'a, Q: ?Sized>(m: &'a HashMap<K, V, S, A>, k: &Q) -> Option<&'a V> {
            let p = m as *const _ as *const u8;
            let canonical = p == &MAP_C as *const _ as *const u8;
            assert!(canonical || p == &MAP_M as *const _ as *const u8, "vp-internal: unknown map");
            let v: &OpcodeVariant = unsafe { &*(k as *const Q as *const OpcodeVariant) };
            let d = variant_to(v) as usize;
            let r: &'static usize = if canonical { &t::MAP_CANONICAL[d] } else { &t::MAP_MONOTONIC[d] };
            if *r == super::NO_ROW as usize {
                None
            } else {
                Some(unsafe { &*(r as *const usize as *const V) })
            }
        }
        pub fn contains<Q: ?Sized>(m: &HashMap<K, V, S, A>, k: &Q) -> bool {
            Self::get(m, k).is_some()
        }
    }
}
