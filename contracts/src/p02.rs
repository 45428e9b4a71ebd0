//! P02: bitwise, logical and shift operators on single instructions.

use crate::isa::*;
use crate::nd::Nd;
use crate::spec;
use endbasic_core::verif::Op;

fn and(n: &mut impl Nd) {
    let (a, b) = two(n);
    check_int(binary(Op::BitwiseAnd, raw(a), raw(b)), 2, KEEP, Some((a & b) as i64), &[]);
}

fn or(n: &mut impl Nd) {
    let (a, b) = two(n);
    check_int(binary(Op::BitwiseOr, raw(a), raw(b)), 2, KEEP, Some((a | b) as i64), &[]);
}

fn xor(n: &mut impl Nd) {
    let (a, b) = two(n);
    check_int(binary(Op::BitwiseXor, raw(a), raw(b)), 2, KEEP, Some((a ^ b) as i64), &[]);
}

fn not(n: &mut impl Nd) {
    let a = n.i32();
    check_int(unary(Op::BitwiseNot, raw(a)), 0, raw(a), Some(-(a as i64) - 1), &[]);
}

/// Booleans are represented as 0 and 1, and the same instructions operate on them.
fn booleans(n: &mut impl Nd) {
    let (a, b) = (n.bool(), n.bool());
    let (x, y) = (raw(a as i32), raw(b as i32));
    check_int(binary(Op::BitwiseAnd, x, y), 2, KEEP, Some((a && b) as i64), &[]);
    check_int(binary(Op::BitwiseOr, x, y), 2, KEEP, Some((a || b) as i64), &[]);
    check_int(binary(Op::BitwiseXor, x, y), 2, KEEP, Some((a != b) as i64), &[]);
}

fn check_shift(done: Done, expected: Option<i32>) {
    match (&done.error, expected) {
        (None, Some(v)) => {
            assert!(done.int(2) == v, "wrong shift");
            assert!(done.cpu.pc() == 8, "execution must continue at the next instruction");
        }
        (Some((pc, _)), None) => {
            assert!(*pc == 7 && done.cpu.pc() == 7, "error reported at the wrong instruction");
            assert!(done.cpu.reg(L0 + 2) == KEEP, "failed operation changed the destination");
        }
        (None, None) => panic!("shift by a negative amount accepted"),
        (Some(_), Some(_)) => panic!("shift by a non-negative amount rejected"),
    }
    done.forget();
}

fn shl(n: &mut impl Nd) {
    let (a, b) = two(n);
    check_shift(binary(Op::ShiftLeft, raw(a), raw(b)), spec::shl(a, b));
}

fn shr(n: &mut impl Nd) {
    let (a, b) = two(n);
    check_shift(binary(Op::ShiftRight, raw(a), raw(b)), spec::shr(a, b));
}

crate::suite! { "P02";
    proved and [kani::unwind(20)] * 2000;
    proved or [kani::unwind(20)] * 2000;
    proved xor [kani::unwind(20)] * 2000;
    proved not [kani::unwind(20)] * 2000;
    proved booleans [kani::unwind(20)] * 200;
    proved shl [kani::unwind(34), kani::stub(std::fmt::format, crate::isa::opaque_format)] * 4000;
    proved shr [kani::unwind(34), kani::stub(std::fmt::format, crate::isa::opaque_format)] * 4000;
}
