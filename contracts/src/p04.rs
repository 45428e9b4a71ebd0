//! P04: comparisons and double arithmetic on single instructions.

use crate::isa::*;
use crate::nd::Nd;
use endbasic_core::verif::Op;

/// Executes a predicate and returns its outcome.
fn predicate(op: Op, a: u64, b: u64) -> bool {
    let done = binary(op, a, b);
    assert!(done.error.is_none() && done.cpu.pc() == 8);
    assert!(done.cpu.reg(L0) == a && done.cpu.reg(L0 + 1) == b, "comparison changed an operand");
    let v = done.cpu.reg(L0 + 2);
    assert!(v <= 1, "comparison did not produce a boolean");
    done.forget();
    v == 1
}

fn eq_int(n: &mut impl Nd) {
    let (a, b) = two(n);
    assert!(predicate(Op::EqualInteger, raw(a), raw(b)) == (a as i64 - b as i64 == 0));
    assert!(predicate(Op::NotEqualInteger, raw(a), raw(b)) == (a as i64 - b as i64 != 0));
}

fn lt_int(n: &mut impl Nd) {
    let (a, b) = two(n);
    assert!(predicate(Op::LessInteger, raw(a), raw(b)) == ((a as i64 - b as i64) < 0));
    assert!(predicate(Op::LessEqualInteger, raw(a), raw(b)) == (a as i64 - b as i64 <= 0));
}

fn gt_int(n: &mut impl Nd) {
    let (a, b) = two(n);
    assert!(predicate(Op::GreaterInteger, raw(a), raw(b)) == (a as i64 - b as i64 > 0));
    assert!(predicate(Op::GreaterEqualInteger, raw(a), raw(b)) == (a as i64 - b as i64 >= 0));
}

fn eq_bool(n: &mut impl Nd) {
    let (a, b) = (n.bool(), n.bool());
    assert!(predicate(Op::EqualBoolean, a as u64, b as u64) == (a == b));
    assert!(predicate(Op::NotEqualBoolean, a as u64, b as u64) == (a != b));
}

/// Position of a double that is not a NaN in the numeric order, from its representation.
fn rank(bits: u64) -> i64 {
    let magnitude = (bits & (u64::MAX >> 1)) as i64;
    if bits >> 63 == 0 {
        magnitude
    } else {
        -magnitude
    }
}

fn is_nan(bits: u64) -> bool {
    bits & (u64::MAX >> 1) > 0x7ff0_0000_0000_0000
}

fn double_order(n: &mut impl Nd, op: Op, f: fn(i64, i64) -> bool, unordered: bool) {
    let (a, b) = (n.f64().to_bits(), n.f64().to_bits());
    let expected = if is_nan(a) || is_nan(b) { unordered } else { f(rank(a), rank(b)) };
    assert!(predicate(op, a, b) == expected, "comparison disagrees with the numeric order");
}

fn eq_double(n: &mut impl Nd) {
    double_order(n, Op::EqualDouble, |a, b| a == b, false);
}
fn ne_double(n: &mut impl Nd) {
    double_order(n, Op::NotEqualDouble, |a, b| a != b, true);
}
fn lt_double(n: &mut impl Nd) {
    double_order(n, Op::LessDouble, |a, b| a < b, false);
}
fn le_double(n: &mut impl Nd) {
    double_order(n, Op::LessEqualDouble, |a, b| a <= b, false);
}
fn gt_double(n: &mut impl Nd) {
    double_order(n, Op::GreaterDouble, |a, b| a > b, false);
}
fn ge_double(n: &mut impl Nd) {
    double_order(n, Op::GreaterEqualDouble, |a, b| a >= b, false);
}

fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

fn arith(n: &mut impl Nd, op: Op, f: fn(f64, f64) -> f64) {
    let (a, b) = (n.f64(), n.f64());
    let done = binary(op, a.to_bits(), b.to_bits());
    assert!(done.error.is_none() && done.cpu.pc() == 8, "double arithmetic never fails");
    assert!(same(f64::from_bits(done.cpu.reg(L0 + 2)), f(a, b)), "wrong result");
    done.forget();
}

fn add_double(n: &mut impl Nd) {
    arith(n, Op::AddDouble, |a, b| a + b);
}
fn sub_double(n: &mut impl Nd) {
    arith(n, Op::SubtractDouble, |a, b| a - b);
}
fn mul_double(n: &mut impl Nd) {
    arith(n, Op::MultiplyDouble, |a, b| a * b);
}
fn div_double(n: &mut impl Nd) {
    arith(n, Op::DivideDouble, |a, b| a / b);
}
fn mod_double(n: &mut impl Nd) {
    arith(n, Op::ModuloDouble, |a, b| a % b);
}
fn pow_double(n: &mut impl Nd) {
    arith(n, Op::PowerDouble, |a, b| a.powf(b));
}

fn neg_double(n: &mut impl Nd) {
    let a = n.f64();
    let done = unary(Op::NegateDouble, a.to_bits());
    assert!(done.error.is_none() && done.cpu.pc() == 8);
    if !a.is_nan() {
        assert!(done.cpu.reg(L0) == a.to_bits() ^ (1 << 63), "negation must only flip the sign");
    }
    done.forget();
}

/// Comparisons of integers after promotion to double agree with those of integers.
fn promotion(n: &mut impl Nd) {
    let (a, b) = two(n);
    let (x, y) = ((a as f64).to_bits(), (b as f64).to_bits());
    assert!(predicate(Op::LessDouble, x, y) == (a < b));
    assert!(predicate(Op::EqualDouble, x, y) == (a == b));
}

/// Comparisons of short strings order them by code points.
fn text(n: &mut impl Nd) {
    use endbasic_core::verif_vm::Cpu;
    let bytes = [n.u8(), n.u8(), n.u8(), n.u8()];
    let (la, lb) = (n.below(3), n.below(3));
    let mut i = 0;
    while i < 4 {
        n.assume(bytes[i] < 0x80);
        i += 1;
    }
    let (a, b) = (&bytes[..la], &bytes[2..2 + lb]);
    let mut cpu = Cpu::new(4, 8);
    let pa = cpu.push_text(std::str::from_utf8(a).unwrap()).unwrap();
    let pb = cpu.push_text(std::str::from_utf8(b).unwrap()).unwrap();
    cpu.set_reg(L0, pa);
    cpu.set_reg(L0 + 1, pb);
    // Lexicographic order, computed by hand.
    let mut order = 0i32;
    let mut i = 0;
    while i < 2 && order == 0 {
        let x = if i < la { a[i] as i32 } else { -1 };
        let y = if i < lb { b[i] as i32 } else { -1 };
        order = x - y;
        i += 1;
    }
    let mut check = |op: Op, expected: bool| {
        let e = cpu.step(op, op.make([L0 as u32 + 2, L0 as u32, L0 as u32 + 1]), &[]);
        assert!(e.is_none());
        assert!(cpu.reg(L0 + 2) == expected as u64, "wrong order of strings");
        std::mem::forget(e);
    };
    check(Op::EqualText, order == 0);
    check(Op::NotEqualText, order != 0);
    check(Op::LessText, order < 0);
    check(Op::LessEqualText, order <= 0);
    check(Op::GreaterText, order > 0);
    check(Op::GreaterEqualText, order >= 0);
    std::mem::forget(cpu);
}

crate::suite! { "P04";
    proved eq_int [kani::unwind(20)] * 2000;
    proved lt_int [kani::unwind(20)] * 2000;
    proved gt_int [kani::unwind(20)] * 2000;
    proved eq_bool [kani::unwind(20)] * 100;
    proved eq_double [kani::unwind(20)] * 4000;
    proved ne_double [kani::unwind(20)] * 4000;
    proved lt_double [kani::unwind(20)] * 4000;
    proved le_double [kani::unwind(20)] * 4000;
    proved gt_double [kani::unwind(20)] * 4000;
    proved ge_double [kani::unwind(20)] * 4000;
    proved neg_double [kani::unwind(20)] * 2000;
    proved promotion [kani::unwind(20)] * 2000;
    deep add_double [kani::unwind(20)] * 4000;
    deep sub_double [kani::unwind(20)] * 4000;
    deep mul_double [kani::unwind(20)] * 4000;
    deep div_double [kani::unwind(20)] * 4000;
    bounded mod_double * 4000;
    bounded pow_double * 4000;
    bounded text * 40000;
}
