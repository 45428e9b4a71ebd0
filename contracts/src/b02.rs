//! P02 on whole programs.

use crate::basic::*;
use crate::nd::Nd;
use crate::spec;
use endbasic_core::ConstantDatum;

fn operators(n: &mut impl Nd) {
    let (a, mut b) = (n.i32(), n.i32());
    let op = ["AND", "OR", "XOR", "<<", ">>", "NOT"][n.below(6)];
    if op.starts_with(['<', '>']) && n.below(3) != 0 {
        b = b.rem_euclid(36) - 1;
    }
    let (sa, sb) = (int(a), int(b));
    let expr = |x: &str, y: &str| if op == "NOT" { format!("NOT {x}") } else { format!("{x} {op} {y}") };
    let program = match n.below(7) {
        0 => format!("PROBE {}", expr(&sa, &sb)),
        1 => format!("a = {sa}: b = {sb}: PROBE {}: PROBE a, b", expr("a", "b")),
        2 => format!("a = {sa}: PROBE {}: PROBE a", expr("a", &sb)),
        3 => format!("b = {sb}: a = {sa}: b = {}: PROBE b: PROBE a", expr("a", "b")),
        4 => format!("DIM SHARED a AS INTEGER: DIM SHARED b AS INTEGER\na = {sa}\nb = {sb}\na = {}: PROBE a: PROBE b", expr("a", "b")),
        5 => format!("DIM v(3) AS INTEGER: v(1) = {sa}: v(2) = {sb}: v(0) = {}: PROBE v(0): PROBE v(1), v(2)", expr("v(1)", "v(2)")),
        _ => format!("FUNCTION f(x%, y%)\nf = {}\nEND FUNCTION\nPROBE f({sa}, {sb})", expr("x", "y")),
    };
    let expected = match op {
        "AND" => Some(a & b),
        "OR" => Some(a | b),
        "XOR" => Some(a ^ b),
        "<<" => spec::shl(a, b),
        ">>" => spec::shr(a, b),
        _ => Some(!a),
    };
    let out = run(&program);
    match expected {
        Some(v) => {
            assert!(out.error.is_none(), "{program}: failed with {:?}", out.error);
            let got = out.ints();
            assert_eq!(v, got[0], "{program}: wrong result");
            for x in &got[1..] {
                assert!(*x == a || *x == b, "{program}: operand changed");
            }
        }
        None => {
            let message = format!("Number of bits to {op} ({b}) must be positive");
            assert!(out.message().ends_with(&message), "{program}: expected {message} but got {out:?}");
            assert!(out.seen.is_empty(), "{program}: produced a value");
        }
    }
}

fn logic(n: &mut impl Nd) {
    let (a, b, c) = (n.bool(), n.bool(), n.bool());
    let lit = |v: bool| if v { "TRUE" } else { "FALSE" };
    let op = |i: usize| ["AND", "OR", "XOR"][i];
    let eval = |o: &str, x: bool, y: bool| match o {
        "AND" => x && y,
        "OR" => x || y,
        _ => x != y,
    };
    let (o1, o2) = (op(n.below(3)), op(n.below(3)));
    let (n1, n2) = (n.bool(), n.bool());
    let not = |v: bool| if v { "NOT " } else { "" };
    let value = eval(o2, eval(o1, a != n1, b) != n2, c);
    let (x, y, z) = if n.bool() { ("a", "b", "c") } else { (lit(a), lit(b), lit(c)) };
    let program = format!(
        "a = {}: b = {}: c = {}\nr = ({}(({}{x}) {o1} {y})) {o2} {z}\nPROBE r\nIF r THEN PROBE 1 ELSE PROBE 0\nPROBE a, b, c",
        lit(a), lit(b), lit(c), not(n2), not(n1)
    );
    let out = run(&program);
    let b_ = ConstantDatum::Boolean;
    assert_eq!(
        vec![b_(value), ConstantDatum::Integer(value as i32), b_(a), b_(b), b_(c)],
        out.seen,
        "{program}: {:?}", out.error
    );
}

crate::suite! { "P02";
    bounded operators * 60000;
    bounded logic * 10000;
}
