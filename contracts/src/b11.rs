//! P11 on whole programs.

use crate::basic::*;
use crate::lang::*;
use crate::nd::Nd;
use endbasic_core::ConstantDatum;

/// A random loop that never ends, around `body`.
fn endless(n: &mut impl Nd, id: usize, body: &str) -> String {
    match n.below(14) {
        0 => format!("WHILE TRUE\n{body}WEND\n"),
        1 => format!("WHILE x >= 0 OR x < 0\n{body}WEND\n"),
        2 => format!("DO\n{body}LOOP\n"),
        3 => format!("DO WHILE x = x\n{body}LOOP\n"),
        4 => format!("DO UNTIL x <> x\n{body}LOOP\n"),
        5 => format!("DO\n{body}LOOP WHILE TRUE\n"),
        6 => format!("DO\n{body}LOOP UNTIL FALSE\n"),
        7 => format!("@e{id}\n{body}GOTO @e{id}\n"),
        8 => format!("@e{id}\n{body}IF TRUE THEN GOTO @e{id}\n"),
        9 => format!("FOR l{id} = 1 TO 2 STEP 1\n{body}l{id} = 0\nNEXT\n"),
        10 => format!("DO\n{body}GOSUB @e{id}\nLOOP\nEND\n@e{id}\nRETURN\n"),
        11 => format!("@e{id}\nON ERROR RESUME NEXT\n{body}q{id}% = 1 / 0\nGOTO @e{id}\n"),
        12 => format!("DO\nSELECT CASE x\nCASE IS < 0\nCASE ELSE\n{body}END SELECT\nLOOP\n"),
        _ => format!("DO\nIF x = -12345 THEN\nEXIT DO\nELSE\n{body}END IF\nLOOP\n"),
    }
}

/// Endless programs stop soon after they are interrupted, wherever they are.
fn interrupt(n: &mut impl Nd) {
    let empty = n.bool();
    let body = if empty { "" } else { "x = x + 1\nPROBE x\n" };
    let mut p = endless(n, 1, body);
    for i in 2..2 + n.below(3) {
        p = if n.bool() { endless(n, i, &p) } else { format!("IF TRUE THEN\n{p}END IF\n") };
    }
    let p = match n.below(3) {
        0 => p,
        1 => format!("SUB f(y%)\nx = y\n{p}END SUB\nf 0\n"),
        _ => format!("FUNCTION f%(y%)\nx = y\n{p}f = 3\nEND FUNCTION\nx = 1 + f(0)\n"),
    };
    let p = format!("x = 0\n{p}");
    let yields = n.below(20);
    let mut s = Session::new(yields);
    let out = s.run(&p);
    assert!(out.broken, "{p}\nnot interrupted: {:?} {:?}", out.error, out.exit);
    let seen = out.ints();
    for (i, x) in seen.iter().enumerate() {
        assert_eq!(i as i32 + 1, *x, "{p}");
    }
    assert!(seen.len() <= yields + 2, "{p}\n{} iterations but {yields} pauses", seen.len());
}

/// Programs that only recurse, for practically forever.
fn recursion(n: &mut impl Nd) {
    let depth = 40 + n.below(100);
    let yields = n.below(50);
    let p = match n.below(3) {
        0 => format!("SUB f(k%)\nIF k > 0 THEN\nf k - 1\nf k - 1\nEND IF\nEND SUB\nf {depth}\n"),
        1 => format!("FUNCTION f%(k%)\nIF k > 0 THEN f = f(k - 1) + f(k - 1) - f(k - 1)\nEND FUNCTION\nPROBE f({depth})\n"),
        _ => format!("FUNCTION f%(k%)\nIF k > 0 THEN\nx = f(k - 1)\nf = x + f(k - 1)\nEND IF\nEND FUNCTION\nSUB g(k%)\nx = f(k) + f(k)\nEND SUB\ng {depth}\n"),
    };
    let mut s = Session::new(yields);
    let out = s.run(&p);
    assert!(out.broken, "{p}\nnot interrupted: {:?}", out.error);
}

/// An interruption happens between two statements: everything before it has happened and nothing
/// after it has, and the session can continue with the variables of that moment.
fn prefix(n: &mut impl Nd) {
    let mut g = Gen::new(5 + n.below(40));
    g.guards_fail = false;
    g.sets_fail = false;
    let block = g.block(n, 0, false, false);
    let mut r = Run::new();
    r.trace = Some(vec![]);
    let f = r.block(&block);
    n.assume(!matches!(f, Flow::Long));
    r.checkpoint();
    let program = format!("{}{}", prologue(n), print(&block));
    let mut s = Session::new(n.below(15));
    let out = s.run(&program);
    s.machine.drain_signals();
    let expected: Vec<ConstantDatum> = r.seen.iter().map(V::datum).collect();
    if !out.broken {
        assert_eq!(expected, out.seen, "{program}\n{:?}", out.error);
        return;
    }
    assert!(out.seen.len() <= expected.len() && expected[..out.seen.len()] == out.seen[..], "{program}\n{:?}", out.seen);
    let mut query = String::new();
    for v in VARS.iter().take(COUNTERS) {
        query += &format!("PROBE {}\n", v.0);
    }
    let after = s.run(&query);
    assert!(after.error.is_none(), "{program}\n{:?}", after.error);
    let found = r.trace.unwrap().iter().any(|(len, vars)| {
        *len == out.seen.len() && vars[..COUNTERS].iter().map(V::datum).eq(after.seen.iter().cloned())
    });
    assert!(found, "{program}\ninterrupted in a state that never existed: {:?}", after.seen);
}

/// The same number of pauses gives the same prefix, and one more never gives less.
fn monotonic(n: &mut impl Nd) {
    let mut g = Gen::new(5 + n.below(40));
    g.guards_fail = false;
    let block = g.block(n, 0, false, false);
    let program = format!("{}{}", prologue(n), print(&block));
    let mut last = 0;
    for yields in 0..8 {
        let out = Session::new(yields).run(&program);
        assert!(out.seen.len() >= last, "{program}");
        last = out.seen.len();
        if !out.broken {
            break;
        }
    }
}

crate::suite! { "P11";
    bounded interrupt * 6000;
    bounded recursion * 200;
    bounded prefix * 8000;
    bounded monotonic * 1500;
}
