//! P03 on whole programs.

use crate::basic::*;
use crate::nd::Nd;
use crate::spec;
use endbasic_core::ConstantDatum;

fn conversions(n: &mut impl Nd) {
    let d = n.f64();
    if !d.is_finite() {
        return;
    }
    let text = double(d);
    let (program, rounded) = match n.below(9) {
        0 => (format!("PROBE CINT({text})"), spec::round(d)),
        1 => (format!("PROBE INT({text})"), spec::floor(d)),
        2 => (format!("PROBE FIX({text})"), spec::trunc(d)),
        3 => (format!("i% = {text}: PROBE i"), spec::round(d)),
        4 => (format!("DIM i AS INTEGER: d# = {text}: i = d: PROBE i"), spec::round(d)),
        5 => (format!("DIM SHARED i AS INTEGER: i = {text}: PROBE i"), spec::round(d)),
        6 => (format!("DIM a(2) AS INTEGER: a(1) = {text}: PROBE a(1)"), spec::round(d)),
        7 => (format!("FUNCTION f%(x%)\nf = x\nEND FUNCTION\nPROBE f({text})"), spec::round(d)),
        _ => (format!("FUNCTION f%(x#)\nf = x\nEND FUNCTION\nPROBE f({text})"), spec::round(d)),
    };
    let out = run(&program);
    match spec::to_i32(rounded) {
        Some(v) => {
            assert_eq!(vec![ConstantDatum::Integer(v)], out.seen, "{program}: {:?}", out.error);
        }
        None => {
            assert!(out.seen.is_empty(), "{program}: produced a value: {out:?}");
            assert!(
                out.message().contains("Cannot cast") && out.message().ends_with("to integer due to overflow"),
                "{program}: {out:?}"
            );
        }
    }
}

fn non_finite(n: &mut impl Nd) {
    let value = ["1.0 / 0.0", "-1.0 / 0.0", "0.0 / 0.0", "10.0 ^ 400.0"][n.below(4)];
    let program = match n.below(5) {
        0 => format!("PROBE CINT({value})"),
        1 => format!("PROBE INT({value})"),
        2 => format!("PROBE FIX({value})"),
        3 => format!("i% = {value}: PROBE i"),
        _ => format!("FUNCTION f%(x%)\nf = x\nEND FUNCTION\nPROBE f({value})"),
    };
    let out = run(&program);
    assert!(out.seen.is_empty(), "{program}: produced a value: {out:?}");
    assert!(out.message().ends_with("to integer due to overflow"), "{program}: {out:?}");
}

fn widening(n: &mut impl Nd) {
    let i = n.i32();
    let text = int(i);
    let program = match n.below(5) {
        0 => format!("d# = {text}: PROBE d: PROBE CINT(d)"),
        1 => format!("DIM SHARED d AS DOUBLE: d = {text}: PROBE d: PROBE CINT(d)"),
        2 => format!("DIM d(2) AS DOUBLE: d(1) = {text}: PROBE d(1): PROBE CINT(d(1))"),
        3 => format!("i = {text}: PROBE i + 0.0: PROBE CINT(0.0 + i)"),
        _ => format!("FUNCTION f#(x#)\nf = x\nEND FUNCTION\nPROBE f({text}): PROBE INT(f({text}))"),
    };
    let out = run(&program);
    assert_eq!(
        vec![ConstantDatum::Double(i as f64), ConstantDatum::Integer(i)],
        out.seen,
        "{program}: {:?}", out.error
    );
}

crate::suite! { "P03";
    bounded conversions * 60000;
    bounded non_finite * 200;
    bounded widening * 10000;
}
