//! P04 on whole programs.

use crate::basic::*;
use crate::nd::Nd;
use endbasic_core::ConstantDatum;
use std::cmp::Ordering;

const OPS: [&str; 6] = ["=", "<>", "<", "<=", ">", ">="];

fn holds(op: &str, o: Option<Ordering>) -> bool {
    match op {
        "=" => o == Some(Ordering::Equal),
        "<>" => o != Some(Ordering::Equal),
        "<" => o == Some(Ordering::Less),
        "<=" => matches!(o, Some(Ordering::Less | Ordering::Equal)),
        ">" => o == Some(Ordering::Greater),
        _ => matches!(o, Some(Ordering::Greater | Ordering::Equal)),
    }
}

/// A value of any type with its source and its type annotation.
fn value(n: &mut impl Nd, kind: usize) -> (ConstantDatum, String, char) {
    match kind {
        0 => {
            let i = n.i32();
            let i = if n.bool() { i % 3 } else { i };
            (i.into(), int(i), '%')
        }
        1 => {
            let d = n.f64();
            let d = match n.below(3) {
                0 => (n.i32() % 3) as f64,
                _ if !d.is_finite() => 2147483648.0,
                _ => d,
            };
            (d.into(), double(d), '#')
        }
        2 => {
            let b = n.bool();
            (b.into(), if b { "TRUE" } else { "FALSE" }.to_owned(), '?')
        }
        _ => {
            let s: String = (0..n.below(4)).map(|_| ['a', 'b', 'B', 'é', '~', '\u{1f600}', '0'][n.below(7)]).collect();
            (s.as_str().into(), format!("\"{s}\""), '$')
        }
    }
}

fn compare(a: &ConstantDatum, b: &ConstantDatum) -> Option<Ordering> {
    use ConstantDatum::*;
    match (a, b) {
        (Integer(a), Integer(b)) => Some(a.cmp(b)),
        (Integer(a), Double(b)) => (*a as f64).partial_cmp(b),
        (Double(a), Integer(b)) => a.partial_cmp(&(*b as f64)),
        (Double(a), Double(b)) => a.partial_cmp(b),
        (Boolean(a), Boolean(b)) => Some(a.cmp(b)),
        (Text(a), Text(b)) => Some(a.chars().cmp(b.chars())),
        _ => unreachable!(),
    }
}

fn comparisons(n: &mut impl Nd) {
    let (ka, kb) = match n.below(6) {
        0 => (0, 0),
        1 => (0, 1),
        2 => (1, 0),
        3 => (1, 1),
        4 => (2, 2),
        _ => (3, 3),
    };
    let (a, sa, ta) = value(n, ka);
    let (b, sb, tb) = if n.below(4) == 0 && ka == kb { value_of(&a, ta) } else { value(n, kb) };
    let op = if ka == 2 { OPS[n.below(2)] } else { OPS[n.below(6)] };
    let expected = holds(op, compare(&a, &b));
    let (x, y) = match n.below(3) {
        0 => (sa.clone(), sb.clone()),
        1 => ("a".to_owned(), sb.clone()),
        _ => ("a".to_owned(), "b".to_owned()),
    };
    let setup = match n.below(3) {
        0 => format!("a{ta} = {sa}: b{tb} = {sb}\n"),
        1 => {
            let ty = |t| match t { '%' => "INTEGER", '#' => "DOUBLE", '?' => "BOOLEAN", _ => "STRING" };
            format!("DIM SHARED a AS {}: DIM SHARED b AS {}\na = {sa}: b = {sb}\n", ty(ta), ty(tb))
        }
        _ => format!("b{tb} = {sb}: a{ta} = {sa}\n"),
    };
    let body = match n.below(5) {
        0 => format!("IF {x} {op} {y} THEN PROBE TRUE ELSE PROBE FALSE"),
        1 => format!("IF {x} {op} {y} THEN\nPROBE TRUE\nELSE\nPROBE FALSE\nEND IF"),
        2 => format!("r = FALSE\nWHILE {x} {op} {y}\nr = TRUE\nGOTO @out\nWEND\n@out\nPROBE r"),
        3 => format!("r = FALSE\nDO UNTIL {x} {op} {y}\nPROBE FALSE\nGOTO @out\nLOOP\nPROBE TRUE\n@out"),
        _ => format!("r = {x} {op} {y}: PROBE r"),
    };
    let program = setup + &body;
    let out = run(&program);
    assert_eq!(vec![ConstantDatum::Boolean(expected)], out.seen, "{program}: {:?}", out.error);
}

fn value_of(a: &ConstantDatum, t: char) -> (ConstantDatum, String, char) {
    use ConstantDatum::*;
    let s = match a {
        Integer(i) => int(*i),
        Double(d) => double(*d),
        Boolean(b) => if *b { "TRUE" } else { "FALSE" }.to_owned(),
        Text(s) => format!("\"{s}\""),
    };
    (a.clone(), s, t)
}

/// SELECT matches with the same comparisons.
fn select(n: &mut impl Nd) {
    let v = n.i32() % 6;
    let (lo, hi) = (n.i32() % 6, n.i32() % 6);
    let (p, q) = (n.i32() % 6, n.i32() % 6);
    let op = OPS[n.below(6)];
    let program = format!(
        "v = {}\nSELECT CASE v\nCASE {}\nPROBE 1\nCASE {} TO {}\nPROBE 2\nCASE IS {op} {}\nPROBE 3\nCASE ELSE\nPROBE 4\nEND SELECT",
        int(v), int(p), int(lo), int(hi), int(q)
    );
    let expected = if v == p {
        1
    } else if v >= lo && v <= hi {
        2
    } else if holds(op, Some(v.cmp(&q))) {
        3
    } else {
        4
    };
    let out = run(&program);
    assert_eq!(vec![ConstantDatum::Integer(expected)], out.seen, "{program}: {:?}", out.error);
}

fn arithmetic(n: &mut impl Nd) {
    let kinds = [(0, 1), (1, 0), (1, 1)][n.below(3)];
    let (a, sa, ta) = value(n, kinds.0);
    let (b, sb, tb) = value(n, kinds.1);
    let f = |v: &ConstantDatum| match v {
        ConstantDatum::Integer(i) => *i as f64,
        ConstantDatum::Double(d) => *d,
        _ => unreachable!(),
    };
    let (x, y) = (f(&a), f(&b));
    let op = ["+", "-", "*", "/", "MOD", "^"][n.below(6)];
    let expected = match op {
        "+" => x + y,
        "-" => x - y,
        "*" => x * y,
        "/" => x / y,
        "MOD" => x % y,
        _ => x.powf(y),
    };
    let program = match n.below(4) {
        0 => format!("PROBE {sa} {op} {sb}"),
        1 => format!("a{ta} = {sa}: b{tb} = {sb}: PROBE a {op} b: PROBE a, b"),
        2 => format!("a{ta} = {sa}: PROBE a {op} {sb}"),
        _ => format!("b{tb} = {sb}: PROBE {sa} {op} b"),
    };
    let out = run(&program);
    assert!(out.error.is_none(), "{program}: {out:?}");
    match &out.seen[0] {
        ConstantDatum::Double(d) => assert!(
            d.to_bits() == expected.to_bits() || (d.is_nan() && expected.is_nan()),
            "{program}: expected {expected} but got {d}"
        ),
        d => panic!("{program}: expected a double but got {d:?}"),
    }
    if out.seen.len() > 1 {
        assert_eq!(vec![a, b], out.seen[1..].to_vec(), "{program}: operand changed");
    }
}

crate::suite! { "P04";
    bounded comparisons * 60000;
    bounded select * 10000;
    bounded arithmetic * 20000;
}
