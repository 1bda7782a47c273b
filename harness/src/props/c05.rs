//! C05 a newer ISA version never changes the meaning of an older number.
use crate::dense::*;
use crate::real::*;
use crate::spec;

fn assigned(version: u8, i: u16) -> bool {
    i == 0 || row(version, i) != spec::INVALID
}

suite! {
    #[kani::proof]
    fn same_meaning(s) {
        let i = s.below(2048);
        let (a, b) = (row(0, i), row(1, i));
        given!(s, assigned(0, i));
        assert!((a as usize) < VARIANTS && (b as usize) < VARIANTS, "rows are known variants");
        let (op_a, src_a, dst_a, fl_a) = parts(a);
        let (op_b, src_b, dst_b, fl_b) = parts(b);
        assert!(op_a == op_b, "same operation");
        assert!(fl_a == fl_b, "same flags");
        assert!(dst_a == dst_b, "same destination mode");
        let plain = |m: u16| m == REG_ONLY || m == ROI_REG;
        assert!(src_a == src_b || (plain(src_a) && plain(src_b)), "equivalent source mode");
        reach!(src_a != src_b, "re-typed row");
    }

    #[kani::proof]
    fn same_price_and_permissions(s) {
        let i = s.below(2048);
        let (a, b) = (row(0, i), row(1, i));
        given!(s, assigned(0, i) && (a as usize) < VARIANTS && (b as usize) < VARIANTS);
        let (a, b) = (op_from(parts(a).0), op_from(parts(b).0));
        assert!(a.ergs_price() == b.ergs_price(), "same price");
        assert!(a.requires_kernel_mode() == b.requires_kernel_mode(), "same kernel-mode requirement");
        assert!(a.can_be_used_in_static_context() == b.can_be_used_in_static_context(), "same static-context permission");
    }

    #[kani::proof]
    fn only_immediate_forms_are_added(s) {
        let i = s.below(2048);
        given!(s, !assigned(0, i) && assigned(1, i));
        let (op, src, dst, _) = parts(row(1, i));
        assert!((40..=43).contains(&op), "added in version 1: heap and auxiliary heap access");
        assert!(src == ROI_IMM && dst == REG_ONLY, "added in version 1: immediate offset");
        reach!(true, "some number is new in version 1");
    }

    #[kani::proof]
    fn all_immediate_forms_are_added(s) {
        let op = 40 + s.below(4);
        let fl = s.below(2);
        let d = dense(op, ROI_IMM, REG_ONLY, fl);
        assert!(rows_of(0, d) == 0, "immediate form is absent from version 0");
        let n = first_row(1, d);
        assert!(rows_of(1, d) == 1 && n < 2048, "immediate form is present in version 1 once");
        assert!(!assigned(0, n), "its number was invalid in version 0");
    }

    #[kani::proof]
    fn legacy_construction(s) {
        let i = s.below(2048);
        assert!(row_legacy(i) == row(0, i), "legacy construction gives the version 0 table");
    }

    #[kani::proof]
    fn any_width(s) {
        let width = 11 + s.below(10) as usize;
        let construction = s.below(3) as u8;
        let [rows, differs, extra] = wide_summary(construction, width);
        assert!(rows == 1 << width, "a table has all its rows");
        assert!(differs == 2048, "the meaning of a number does not depend on the width of the table");
        assert!(extra == 0, "a wider table assigns no further numbers");
        reach!(width == 20 && construction == 2, "widest legacy table");
    }
}
