//! P03: conversions from doubles to integers.

use crate::isa::*;
use crate::nd::Nd;
use crate::spec;
use endbasic_core::verif::Op;
use endbasic_std::numerics::double_to_integer;

fn check(done: Done, before: f64, expected: Option<i32>) {
    match (&done.error, expected) {
        (None, Some(v)) => {
            assert!(done.int(0) == v, "wrong rounding");
            assert!(done.cpu.pc() == 8, "execution must continue at the next instruction");
        }
        (Some((pc, _)), None) => {
            assert!(*pc == 7 && done.cpu.pc() == 7, "error reported at the wrong instruction");
            assert!(done.cpu.reg(L0) == before.to_bits(), "failed conversion changed the value");
        }
        (None, None) => panic!("value that is not representable accepted"),
        (Some(_), Some(_)) => panic!("representable value rejected"),
    }
    assert!(done.cpu.reg(L0 + 1) == KEEP, "conversion changed another register");
    done.forget();
}

/// The implicit conversion in assignments and arguments.
fn implicit(n: &mut impl Nd) {
    let d = n.f64();
    let done = unary(Op::DoubleToInteger, d.to_bits());
    check(done, d, spec::to_i32(spec::round(d)));
}

/// The explicit conversion shared by the functions of the standard library.
fn explicit(n: &mut impl Nd) {
    let d = n.f64();
    let r = double_to_integer(d);
    match (&r, spec::to_i32(spec::round(d))) {
        (Ok(v), Some(e)) => assert!(*v == e, "wrong rounding"),
        (Err(_), None) => (),
        (Ok(_), None) => panic!("value that is not representable accepted"),
        (Err(_), Some(_)) => panic!("representable value rejected"),
    }
    std::mem::forget(r);
}

/// The implicit conversion from integer to double is exact and reversible.
fn widening(n: &mut impl Nd) {
    let i = n.i32();
    let mut done = unary(Op::IntegerToDouble, raw(i));
    let d = f64::from_bits(done.cpu.reg(L0));
    assert!(done.error.is_none() && done.cpu.pc() == 8);
    assert!(d as i64 == i as i64, "conversion to double is not exact");
    let error = done.cpu.step(Op::DoubleToInteger, Op::DoubleToInteger.make([L0 as u32, 0, 0]), &[]);
    assert!(error.is_none() && done.int(0) == i && done.cpu.pc() == 9, "conversion is not reversible");
    done.forget();
}

crate::suite! { "P03";
    proved implicit [kani::unwind(20), kani::stub(std::fmt::format, crate::isa::opaque_format)] * 20000;
    proved explicit [kani::unwind(20), kani::stub(std::fmt::format, crate::isa::opaque_format)] * 20000;
    proved widening [kani::unwind(20), kani::stub(std::fmt::format, crate::isa::opaque_format)] * 4000;
}
