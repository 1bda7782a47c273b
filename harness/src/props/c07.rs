//! C07 kernel-mode and static-context restrictions.
use crate::dense::*;
use crate::real::*;
use crate::spec;
use zkevm_opcode_defs::*;

contract! {
    fn kernel_only(d: u16) -> bool;
    requires (d as usize) < VARIANTS;
    ensures |r| *r == spec::kernel(parts(d).0);
    { variant(d).requires_kernel_mode() }
}

contract! {
    fn static_allowed(d: u16) -> bool;
    requires (d as usize) < VARIANTS;
    ensures |r| *r == spec::static_ok(parts(d).0);
    { variant(d).can_be_used_in_static_context() }
}

contract! {
    fn explicit_panic(d: u16) -> bool;
    requires (d as usize) < VARIANTS;
    ensures |r| *r == spec::explicit_panic(parts(d).0);
    { variant(d).is_explicit_panic() }
}

contract! {
    fn operation_kernel_only(op: u16) -> bool;
    requires op < 45;
    ensures |r| *r == spec::kernel(op);
    { op_from(op).requires_kernel_mode() }
}

contract! {
    fn operation_static_allowed(op: u16) -> bool;
    requires op < 45;
    ensures |r| *r == spec::static_ok(op);
    { op_from(op).can_be_used_in_static_context() }
}

suite! {
    fn kernel_mode(s) checks super::kernel_only {
        let d = s.below(VARIANTS as u16);
        super::kernel_only(d);
        reach!(parts(d).0 == 36, "mimic call");
    }

    fn static_context(s) checks super::static_allowed {
        let d = s.below(VARIANTS as u16);
        super::static_allowed(d);
    }

    fn panics_explicitly(s) checks super::explicit_panic {
        let d = s.below(VARIANTS as u16);
        super::explicit_panic(d);
    }

    fn kernel_mode_of_operation(s) checks super::operation_kernel_only {
        let op = s.below(45);
        super::operation_kernel_only(op);
    }

    fn static_context_of_operation(s) checks super::operation_static_allowed {
        let op = s.below(45);
        super::operation_static_allowed(op);
    }
}
