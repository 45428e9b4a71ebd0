//! P01 on whole programs.

use crate::basic::*;
use crate::nd::Nd;
use crate::spec::exact_pow;

fn exact(op: &str, a: i32, b: i32) -> Result<i64, String> {
    let (x, y) = (a as i64, b as i64);
    match op {
        "+" => Ok(x + y),
        "-" => Ok(x - y),
        "*" => Ok(x * y),
        "/" if b == 0 => Err("Division by zero".to_owned()),
        "/" => Ok(x / y),
        "MOD" if b == 0 => Err("Modulo by zero".to_owned()),
        // The quotient does not fit, so the machine reports the division as an underflow.
        "MOD" if a == i32::MIN && b == -1 => Err("Integer underflow".to_owned()),
        "MOD" => Ok(x % y),
        "^" if b < 0 => Err(format!("Exponent {} cannot be negative", b)),
        "^" => Ok(exact_pow(a, b as u32).unwrap_or(i64::MAX)),
        _ => unreachable!(),
    }
}

/// Whole programs: operands in variables, literals, globals, array elements and function results.
fn programs(n: &mut impl Nd) {
    let (mut a, mut b) = (n.i32(), n.i32());
    let op = ["+", "-", "*", "/", "MOD", "^"][n.below(6)];
    match n.below(4) {
        0 => {
            a %= 200;
            b %= 200;
        }
        1 => b %= 20,
        2 => {
            a %= 50000;
            b %= 50000;
        }
        _ => (),
    }
    let (sa, sb) = (int(a), int(b));
    let program = match n.below(7) {
        0 => format!("PROBE {sa} {op} {sb}"),
        1 => format!("a = {sa}: b = {sb}: PROBE a {op} b: PROBE a, b"),
        2 => format!("a = {sa}: PROBE a {op} {sb}: PROBE a"),
        3 => format!("b = {sb}: PROBE {sa} {op} b: PROBE b"),
        4 => format!(
            "DIM SHARED a AS INTEGER: DIM SHARED b AS INTEGER\na = {sa}\nb = {sb}\na = a {op} b: PROBE a: PROBE b"
        ),
        5 => format!("DIM v(3) AS INTEGER: v(1) = {sa}: v(2) = {sb}: v(0) = v(1) {op} v(2): PROBE v(0): PROBE v(1), v(2)"),
        _ => format!(
            "FUNCTION f(x%, y%)\nf = x {op} y\nEND FUNCTION\nPROBE f({sa}, {sb})"
        ),
    };
    let out = run(&program);
    let expected = exact(op, a, b);
    match expected {
        Ok(v) if v >= i32::MIN as i64 && v <= i32::MAX as i64 => {
            assert!(out.error.is_none(), "{program}: failed with {:?}", out.error);
            let got = out.ints();
            assert_eq!(v, got[0] as i64, "{program}: wrong result");
            for x in &got[1..] {
                assert!(*x == a || *x == b, "{program}: operand changed");
            }
        }
        Ok(v) => {
            let message = match op {
                "-" | "/" => "Integer underflow",
                _ => "Integer overflow",
            };
            let error = out.message();
            assert!(error.ends_with(message), "{program}: expected {message} for {v} but got {out:?}");
            assert!(out.seen.is_empty(), "{program}: produced a value");
        }
        Err(message) => {
            assert!(out.message().ends_with(&message), "{program}: expected {message} but got {out:?}");
            assert!(out.seen.is_empty(), "{program}: produced a value");
        }
    }

    let out = run(&format!("a = {sa}: PROBE -a"));
    match a.checked_neg() {
        Some(v) => assert_eq!(vec![v], out.ints(), "wrong negation of {a}: {out:?}"),
        None => assert!(out.message().ends_with("Integer overflow"), "negation of {a}: {out:?}"),
    }
}


crate::suite! { "P01";
    bounded programs * 60000;
}
