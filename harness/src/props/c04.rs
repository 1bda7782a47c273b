//! C04 instruction numbering is the fixed ISA assignment and is invertible.
use crate::dense::*;
use crate::real::*;
use crate::spec;

suite! {
    #[kani::proof]
    fn default_table_row(s) {
        // every row holds the variant the ISA assigns to its number, and rows without one are invalid
        let i = s.below(2048);
        let d = row_default(i);
        assert!((d as usize) < VARIANTS, "row is a known variant");
        if i == 0 || i >= spec::V1_COUNT {
            assert!(d == spec::INVALID, "number 0 and numbers past the ISA are invalid");
        } else {
            assert!(spec::index_in(1, d) == i, "row holds the variant the ISA assigns to its number");
        }
        reach!(i == 1092, "last assigned number");
    }

    #[kani::proof]
    fn default_table_is_version_1(s) {
        let i = s.below(2048);
        assert!(row_default(i) == row(1, i), "the default table is the version 1 table");
    }

    #[kani::proof]
    fn version_0_row(s) {
        let i = s.below(2048);
        let d = row(0, i);
        assert!((d as usize) < VARIANTS, "row is a known variant");
        if i == 0 || i >= spec::V0_COUNT {
            assert!(d == spec::INVALID, "number 0 and numbers past version 0 are invalid");
        } else {
            assert!(spec::index_in(0, d) == i, "row holds the variant the ISA assigns to its number");
        }
    }

    #[kani::proof]
    fn every_variant_has_its_row(s) {
        let version = s.below(2) as u8;
        let d = s.below(VARIANTS as u16);
        let n = spec::index_in(version, d);
        if n != NO_ROW && d != spec::INVALID {
            assert!(row(version, n) == d, "the variant is found at its number");
            assert!(first_row(version, d) == n && rows_of(version, d) == 1, "a valid variant has exactly one number");
        } else if d != spec::INVALID {
            assert!(rows_of(version, d) == 0, "no row for a variant outside the ISA");
        } else {
            assert!(first_row(version, d) == 0, "the invalid instruction has number 0");
        }
        reach!(n != NO_ROW && d != spec::INVALID && version == 0, "valid variant");
        reach!(n == NO_ROW, "variant outside the ISA");
    }

    #[kani::proof]
    fn lookups(s) {
        let d = s.below(VARIANTS as u16);
        let n = spec::index_in(1, d);
        let expected = if d == spec::INVALID { 0 } else { n };
        assert!(lookup_canonical(d) == expected, "canonical lookup returns the unique number, or nothing");
        assert!(lookup_monotonic(d) == expected, "monotonic lookup returns the unique number, or nothing");
        reach!(expected == 1092, "last number");
        reach!(expected == NO_ROW, "not an instruction");
    }

    #[kani::proof]
    fn wider_table(s) {
        let version = s.below(2) as u8;
        let i = s.below(4096);
        let d = row_wide(version, i);
        if i < 2048 {
            assert!(d == row(version, i), "a wider table keeps every number");
        } else {
            assert!(d == spec::INVALID, "a wider table only appends invalid rows");
        }
    }

    #[kani::proof]
    fn any_wider_table(s) {
        let version = s.below(2) as u8;
        let width = 11 + s.below(10) as usize;
        let [rows, differs, extra] = wide_summary(version, width);
        assert!(rows == 1 << width, "a table has one row per index of its width");
        assert!(differs == 2048, "a wider table keeps every number");
        assert!(extra == 0, "a wider table only appends invalid rows");
    }
}
