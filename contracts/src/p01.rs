//! P01: integer arithmetic is exact or reports an error.

use crate::isa::*;
use crate::nd::Nd;
use crate::spec::exact_pow;
use endbasic_core::verif::Op;


fn add(n: &mut impl Nd) {
    let (a, b) = two(n);
    let done = binary(Op::AddInteger, raw(a), raw(b));
    check_int(done, 2, KEEP, Some(a as i64 + b as i64), &["Integer overflow"]);
}

fn sub(n: &mut impl Nd) {
    let (a, b) = two(n);
    let done = binary(Op::SubtractInteger, raw(a), raw(b));
    check_int(done, 2, KEEP, Some(a as i64 - b as i64), &["Integer underflow"]);
}

/// Relies on the language's own multiplication being exact, as `mul_exact` does not.
fn mul(n: &mut impl Nd) {
    let (a, b) = two(n);
    let done = binary(Op::MultiplyInteger, raw(a), raw(b));
    let expected = match a.overflowing_mul(b) {
        (v, false) => Some(v as i64),
        (_, true) => None,
    };
    check_int(done, 2, KEEP, expected, &["Integer overflow"]);
}

fn mul_exact(n: &mut impl Nd) {
    let (a, b) = two(n);
    let done = binary(Op::MultiplyInteger, raw(a), raw(b));
    check_int(done, 2, KEEP, Some(a as i64 * b as i64), &["Integer overflow"]);
}

/// The value of a division, or the reason for which it is undefined.
fn div_spec(a: i32, b: i32) -> (Option<i64>, &'static str) {
    if b == 0 {
        (None, "Division by zero")
    } else if a == i32::MIN && b == -1 {
        (None, "Integer underflow")
    } else {
        (Some((a / b) as i64), "")
    }
}

/// The value of a remainder, or the reason for which it is undefined.
fn modulo_spec(a: i32, b: i32) -> (Option<i64>, &'static str) {
    if b == 0 {
        (None, "Modulo by zero")
    } else if a == i32::MIN && b == -1 {
        (None, "Integer underflow")
    } else {
        (Some((a % b) as i64), "")
    }
}

/// Checks that an operation fails exactly when `error` is present.
fn check_failure(done: Done, error: Option<&str>) {
    match (&done.error, error) {
        (None, None) => assert!(done.cpu.pc() == 8, "execution must continue at the next instruction"),
        (None, Some(_)) => panic!("undefined operation succeeded"),
        (Some(_), None) => panic!("defined operation failed"),
        (Some((pc, message)), Some(expected)) => {
            assert!(*pc == 7 && done.cpu.pc() == 7, "error reported at the wrong instruction");
            assert!(done.cpu.reg(L0 + 2) == KEEP, "failed operation changed the destination");
            assert!(message.as_bytes() == expected.as_bytes(), "unexpected error message");
        }
    }
    assert!(done.cpu.depth() == 0 && !done.cpu.yield_pending());
    done.forget();
}

/// Divisions are defined for all operands but for the two documented cases.
fn div_defined(n: &mut impl Nd) {
    let (a, b) = two(n);
    let error = if b == 0 {
        Some("Division by zero")
    } else if a == i32::MIN && b == -1 {
        Some("Integer underflow")
    } else {
        None
    };
    check_failure(binary(Op::DivideInteger, raw(a), raw(b)), error);
}

/// Remainders are defined for all operands but for the two documented cases.
fn modulo_defined(n: &mut impl Nd) {
    let (a, b) = two(n);
    let error = if b == 0 {
        Some("Modulo by zero")
    } else if a == i32::MIN && b == -1 {
        Some("Integer underflow")
    } else {
        None
    };
    check_failure(binary(Op::ModuloInteger, raw(a), raw(b)), error);
}

/// Two operands of at most 6 bits plus sign.
fn narrow(n: &mut impl Nd) -> (i32, i32) {
    let (a, b) = (n.u8(), n.u8());
    (i32::from(a) - 128, i32::from(b) - 128)
}

fn div_narrow(n: &mut impl Nd) {
    let (a, b) = narrow(n);
    let (expected, message) = div_spec(a, b);
    check_int(binary(Op::DivideInteger, raw(a), raw(b)), 2, KEEP, expected, &[message]);
}

fn modulo_narrow(n: &mut impl Nd) {
    let (a, b) = narrow(n);
    let (expected, message) = modulo_spec(a, b);
    check_int(binary(Op::ModuloInteger, raw(a), raw(b)), 2, KEEP, expected, &[message]);
}

fn div(n: &mut impl Nd) {
    let (a, b) = two(n);
    let (expected, message) = div_spec(a, b);
    check_int(binary(Op::DivideInteger, raw(a), raw(b)), 2, KEEP, expected, &[message]);
}

fn modulo(n: &mut impl Nd) {
    let (a, b) = two(n);
    let (expected, message) = modulo_spec(a, b);
    check_int(binary(Op::ModuloInteger, raw(a), raw(b)), 2, KEEP, expected, &[message]);
}

fn neg(n: &mut impl Nd) {
    let a = n.i32();
    let done = unary(Op::NegateInteger, raw(a));
    check_int(done, 0, raw(a), Some(-(a as i64)), &["Integer overflow"]);
}

/// Negative exponents are rejected for any base.
fn pow_negative_exponent(n: &mut impl Nd) {
    let (a, b) = two(n);
    n.assume(b < 0);
    let done = binary(Op::PowerInteger, raw(a), raw(b));
    match &done.error {
        None => panic!("negative exponent accepted"),
        Some((pc, message)) => {
            assert!(*pc == 7 && done.cpu.pc() == 7);
            assert!(done.cpu.reg(L0 + 2) == KEEP);
            #[cfg(not(kani))]
            assert_eq!(&format!("Exponent {} cannot be negative", b), message);
            #[cfg(kani)]
            let _ = message;
        }
    }
    done.forget();
}

/// Any base raised to a small exponent.
fn pow_small_exponent(n: &mut impl Nd) {
    let a = n.i32();
    let b = n.below(3) as i32;
    let done = binary(Op::PowerInteger, raw(a), raw(b));
    check_int(done, 2, KEEP, exact_pow(a, b as u32), &["Integer overflow"]);
}

/// Any non-negative exponent.
fn pow(n: &mut impl Nd) {
    let (a, b) = two(n);
    let a = match n.below(4) {
        0 => a % 12,
        1 => a % 1300,
        2 => a % 50000,
        _ => a,
    };
    let b = match n.below(3) {
        0 => b & 3,
        1 => b & 63,
        _ => b & i32::MAX,
    };
    let done = binary(Op::PowerInteger, raw(a), raw(b));
    check_int(done, 2, KEEP, exact_pow(a, b as u32), &["Integer overflow"]);
}

crate::suite! { "P01";
    proved add [kani::unwind(20)] * 2000;
    proved sub [kani::unwind(20)] * 2000;
    deep mul [kani::unwind(20)] * 2000;
    deep mul_exact [kani::unwind(20)] * 20000;
    proved div_defined [kani::unwind(20)] * 2000;
    proved modulo_defined [kani::unwind(20)] * 2000;
    bounded_proof div_narrow [kani::unwind(20)] * 2000;
    bounded_proof modulo_narrow [kani::unwind(20)] * 2000;
    proved neg [kani::unwind(20)] * 1000;
    proved pow_negative_exponent [kani::unwind(20), kani::stub(std::fmt::format, crate::isa::opaque_format)] * 300;
    deep pow_small_exponent [kani::unwind(20), kani::stub(std::fmt::format, crate::isa::opaque_format)] * 1000;
    bounded div * 20000;
    bounded modulo * 20000;
    bounded pow * 20000;
}
