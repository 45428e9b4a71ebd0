//! P08 on whole programs.

use crate::basic::*;
use crate::lang::*;
use crate::nd::Nd;
use endbasic_core::ConstantDatum;

pub fn agrees(n: &mut impl Nd, program: &str, r: &Run, f: Flow) {
    n.assume(!matches!(f, Flow::Long));
    let out = run(program);
    assert!(!out.rejected && !out.broken, "{program}\n{out:?}");
    let expected: Vec<ConstantDatum> = r.seen.iter().map(V::datum).collect();
    for (i, (e, g)) in expected.iter().zip(&out.seen).enumerate() {
        assert_eq!(e, g, "{program}\nvalue {i}; ended with {:?}", out.error);
    }
    assert_eq!(expected.len(), out.seen.len(), "{program}\nended with {:?}", out.error);
    match f {
        Flow::Error(e) => assert!(out.message().ends_with(&e), "{program}\nexpected {e} but got {:?}", out.error),
        Flow::End(code) => {
            assert!(out.error.is_none(), "{program}\nfailed with {:?}", out.error);
            assert_eq!(Some(code.unwrap_or(0)), out.exit, "{program}");
        }
        _ => assert!(out.error.is_none(), "{program}\nfailed with {:?}", out.error),
    }
}

/// The final values of all variables.
pub fn epilogue() -> Vec<S> {
    (0..VARS.len()).map(|i| S::Probe(E::Var(i))).collect()
}

fn check(n: &mut impl Nd, block: Vec<S>, in_function: bool) {
    let mut block = block;
    block.extend(epilogue());
    let mut r = Run::new();
    let f = r.block(&block);
    let prologue = prologue(n);
    let program = if in_function && n.bool() {
        format!("{}SUB main\n{}END SUB\nmain\n", prologue_with(n, true), print(&block))
    } else if in_function {
        let prologue = prologue.replace("SHARED ", "");
        format!("SUB main\n{prologue}{}END SUB\nmain\n", print(&block))
    } else {
        format!("{prologue}{}", print(&block))
    };
    agrees(n, &program, &r, f);
}

/// Random structured programs against a direct interpreter.
fn programs(n: &mut impl Nd) {
    let mut g = Gen::new(1 + n.below(40));
    let block = g.block(n, 0, false, false);
    check(n, block, false);
}

/// Programs in which nothing fails half-way, so that they get further.
fn long_programs(n: &mut impl Nd) {
    let mut g = Gen::new(10 + n.below(60));
    g.guards_fail = false;
    g.ends = true;
    let mut block = vec![];
    for _ in 0..3 {
        block.extend(g.block(n, 0, false, false));
    }
    check(n, block, false);
}

/// The same in a subroutine.
fn in_sub(n: &mut impl Nd) {
    let mut g = Gen::new(1 + n.below(40));
    g.guards_fail = false;
    let block = g.block(n, 0, false, false);
    check(n, block, true);
}

/// `FOR` with any limits and steps, which are evaluated as integers.
fn for_limits(n: &mut impl Nd) {
    let step = [1, -1, 3, -7, 100, i32::MAX, -i32::MAX, 1000000007][n.below(8)];
    let (a, b) = match n.below(3) {
        0 => (n.below(40) as i32 - 20, n.below(40) as i32 - 20),
        1 => (i32::MAX - n.below(50) as i32, i32::MAX - n.below(3) as i32),
        _ => (-i32::MAX + n.below(50) as i32, -i32::MAX + n.below(3) as i32),
    };
    let mut seen = vec![];
    let mut i = i64::from(a);
    let mut overflow = false;
    while (step > 0 && i <= i64::from(b)) || (step < 0 && i >= i64::from(b)) {
        seen.push(i as i32);
        n.assume(seen.len() < 200);
        i += i64::from(step);
        if i32::try_from(i).is_err() {
            overflow = true;
            break;
        }
    }
    if !overflow {
        seen.push(i as i32);
    }
    let vars = n.bool();
    let (ta, tb) = if vars { ("a".to_owned(), "b".to_owned()) } else { (int(a), int(b)) };
    let st = if step == 1 && n.bool() { String::new() } else { format!(" STEP {step}") };
    let program = format!("a = {}: b = {}\ni = 0\nFOR i = {ta} TO {tb}{st}\nPROBE i\nNEXT\nPROBE i", int(a), int(b));
    let out = run(&program);
    assert_eq!(seen, out.ints(), "{program}: {:?}", out.error);
    assert_eq!(overflow, out.message().contains("Integer overflow") , "{program}: {:?}", out.error);
    assert_eq!(overflow, out.error.is_some(), "{program}: {:?}", out.error);
}

/// Labels and line numbers anywhere in a program, with computed jumps between them.
fn labels(n: &mut impl Nd) {
    let count = 2 + n.below(8);
    // Each block prints its number and jumps to another one until the budget is over.
    let next: Vec<usize> = (0..count).map(|_| n.below(count)).collect();
    let alt: Vec<usize> = (0..count).map(|_| n.below(count)).collect();
    let label = |i: usize| if i % 2 == 0 { format!("@b{i}") } else { format!("{}", 10 * i + 7) };
    let first = n.below(count);
    let mut p = format!("x = 0\nGOTO {}\n", label(first));
    for i in 0..count {
        p += &format!("{}{}PROBE {i}: x = x + 1\n", label(i), if n.bool() { "\n" } else { " " });
        match i % 3 {
            0 => p += &format!("IF x > 20 THEN GOTO @done\nIF x MOD 3 = 0 THEN GOTO {} ELSE GOTO {}\n", label(alt[i]), label(next[i])),
            1 => p += &format!("IF x > 20 THEN END\nIF x MOD 3 = 0 THEN\nGOTO {}\nEND IF\nGOTO {}\n", label(alt[i]), label(next[i])),
            _ => p += &format!("IF x > 20 THEN GOTO @done\nWHILE TRUE\nFOR k = 1 TO 2\nIF x MOD 3 = 0 THEN GOTO {}\nNEXT\nGOTO {}\nWEND\n", label(alt[i]), label(next[i])),
        }
    }
    p += "@done\nPROBE -x\n";
    let mut expected = vec![];
    let (mut x, mut at) = (0, first);
    loop {
        expected.push(at as i32);
        x += 1;
        if x > 20 {
            if at % 3 != 1 {
                expected.push(-x);
            }
            break;
        }
        at = if x % 3 == 0 { alt[at] } else { next[at] };
    }
    let p = format!("k = 0\n{p}");
    let out = run(&p);
    assert!(out.error.is_none(), "{p}\n{:?}", out.error);
    assert_eq!(expected, out.ints(), "{p}");
}

/// Separators, comments, case and indentation do not matter.
fn layout(n: &mut impl Nd) {
    let k = n.below(10) as i32;
    let lines = [
        format!("x = {k}"),
        "FOR i = 1 TO 3".to_owned(),
        "x = x * 2 + i".to_owned(),
        "IF x MOD 2 = 0 THEN".to_owned(),
        "PROBE x".to_owned(),
        "ELSE".to_owned(),
        "PROBE -x".to_owned(),
        "END IF".to_owned(),
        "NEXT".to_owned(),
        "WHILE x > 10".to_owned(),
        "x = x - 10".to_owned(),
        "WEND".to_owned(),
        "PROBE x".to_owned(),
    ];
    let mut p = String::new();
    for (i, l) in lines.iter().enumerate() {
        let l = match n.below(3) {
            0 => l.to_lowercase(),
            1 => l.to_uppercase(),
            _ => l.clone(),
        };
        p += ["", "  ", "\t"][n.below(3)];
        p += &l;
        // THEN and ELSE must be followed by an end of line.
        let only_eol = matches!(i, 3 | 5);
        p += match n.below(if only_eol { 2 } else { 5 }) {
            0 => "\n",
            1 => "\r\n",
            2 => "  ' comment: PROBE 99\n",
            3 => ": REM PROBE 99\n",
            _ => "\n\n \n",
        };
    }
    let mut expected = vec![];
    let mut x = k;
    for i in 1..=3 {
        x = x * 2 + i;
        expected.push(if x % 2 == 0 { x } else { -x });
    }
    while x > 10 {
        x -= 10;
    }
    expected.push(x);
    let out = run(&p);
    assert!(out.error.is_none(), "{p}\n{:?}", out.error);
    assert_eq!(expected, out.ints(), "{p}");
}

crate::suite! { "P08";
    bounded programs * 20000;
    bounded long_programs * 20000;
    bounded in_sub * 8000;
    bounded for_limits * 6000;
    bounded labels * 4000;
    bounded layout * 2000;
}
