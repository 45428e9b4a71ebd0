//! P05 on whole programs: sizes near the limits of the encoding.

use crate::basic::*;
use crate::nd::Nd;
use endbasic_core::ConstantDatum;

/// Checks that a program that was too large was rejected at compile time and that, otherwise, it
/// produced `expected`.
fn check(program: &str, expected: &[ConstantDatum], must_fit: bool) {
    let out = run(program);
    let head: String = program.chars().take(300).collect();
    if out.rejected {
        assert!(!must_fit, "rejected with {:?}: {head}", out.error);
        let m = out.message();
        assert!(
            m.contains("Out of ") || m.contains("too far"),
            "rejected for an unexpected reason: {m}: {head}"
        );
        assert!(out.seen.is_empty());
    } else {
        assert!(out.error.is_none(), "failed with {:?}: {head}", out.error);
        assert!(!out.broken, "did not finish: {head}");
        assert_eq!(expected.len(), out.seen.len(), "wrong number of results: {head}");
        for (i, (e, s)) in expected.iter().zip(&out.seen).enumerate() {
            assert_eq!(e, s, "wrong result {i}: {head}");
        }
    }
}

/// Every variable keeps its own value, in any scope.
fn variables(n: &mut impl Nd) {
    let globals = [0, 10, 60, 64, 65, 70][n.below(6)];
    let locals = [1, 50, 150, 188, 189, 190, 191, 192, 193, 200, 255, 256, 300][n.below(13)];
    let salt = n.i32() % 1000;
    let in_function = n.bool();
    let mut p = String::new();
    for i in 0..globals {
        p += &format!("DIM SHARED g{i} AS INTEGER\n");
    }
    if in_function {
        p += "SUB s\n";
    }
    let mut order = vec![];
    for i in 0..globals {
        p += &format!("g{i} = {}\n", int(salt + i));
        order.push((format!("g{i}"), salt + i));
    }
    for i in 0..locals {
        p += &format!("l{i} = {}\n", int(salt * 3 - i * 7));
        order.push((format!("l{i}"), salt * 3 - i * 7));
    }
    let mut expected = vec![];
    for (name, value) in &order {
        p += &format!("PROBE {name}\n");
        expected.push(ConstantDatum::Integer(*value));
    }
    if in_function {
        p += "END SUB\ns\n";
    }
    check(&p, &expected, globals <= 60 && locals <= 150);
}

/// Every literal keeps its value regardless of how many there are.
fn constants(n: &mut impl Nd) {
    let count = 1 + n.below(60);
    let mut p = String::new();
    let mut expected = vec![];
    for _ in 0..count {
        match n.below(4) {
            0 | 1 => {
                let i = if n.bool() { n.i32() } else { 65536 + n.below(5) as i32 - 3 };
                let i = if i == i32::MIN { 0 } else { i };
                match n.below(3) {
                    0 => p += &format!("PROBE {}\n", int(i)),
                    1 => p += &format!("v = {}: PROBE v\n", int(i)),
                    _ => p += &format!("PROBE 0 + {}\n", int(i)),
                }
                expected.push(ConstantDatum::Integer(i));
            }
            2 => {
                let d = n.f64();
                n.assume(d.is_finite());
                p += &format!("PROBE {}\n", double(d));
                expected.push(ConstantDatum::Double(d));
            }
            _ => {
                let s = format!("{}{}", ["", "a", "ñ", "abc", "65536", "-1"][n.below(6)], n.below(4));
                p += &format!("PROBE \"{s}\"\n");
                expected.push(ConstantDatum::Text(s));
            }
        }
    }
    check(&p, &expected, true);
}

/// Many constants: indexes beyond a byte and beyond 16 bits.
fn many_constants(n: &mut impl Nd) {
    let count = [300, 1000, 65_530, 65_540][n.below(4)];
    let stride = 7919;
    let mut p = String::new();
    let mut expected = vec![];
    let take = |i: i32| i % 97 == 0 || i > count - 3;
    for i in 0..count {
        let v = 70_000 + i * stride % 1_000_003;
        if take(i) {
            p += &format!("PROBE {v}\n");
            expected.push(ConstantDatum::Integer(v));
        } else {
            p += &format!("v = {v}\n");
        }
    }
    check(&p, &expected, count <= 65_000);
}

/// Jumps and calls over long stretches of code.
fn far(n: &mut impl Nd) {
    let pad = [10, 200, 300, 20_000, 65_525 + n.below(20), 70_000][n.below(6)];
    let filler = "v = 1\n".repeat(pad);
    let i = ConstantDatum::Integer;
    let (program, expected) = match n.below(8) {
        0 => (format!("PROBE 1\nGOTO @far\n{filler}\n@far\nPROBE 2"), vec![i(1), i(2)]),
        1 => (format!("PROBE 1\nIF FALSE THEN\n{filler}\nEND IF\nPROBE 2"), vec![i(1), i(2)]),
        2 => (
            format!("GOTO @main\n@sub\nPROBE 1\nRETURN\n{filler}\n@main\nGOSUB @sub\nPROBE 2"),
            vec![i(1), i(2)],
        ),
        3 => (
            format!("IF FALSE THEN\n{filler}\nEND IF\nFUNCTION f(x%)\nf = x + 1\nEND FUNCTION\nPROBE f(4)\nPROBE 2"),
            vec![i(5), i(2)],
        ),
        4 => (
            format!("k = 0\nWHILE k < 2\nPROBE k\nk = k + 1\nIF FALSE THEN\n{filler}\nEND IF\nWEND\nPROBE 9"),
            vec![i(0), i(1), i(9)],
        ),
        5 => (
            format!("FOR k = 1 TO 3\nPROBE k\nIF FALSE THEN\n{filler}\nEND IF\nNEXT\nPROBE 9"),
            vec![i(1), i(2), i(3), i(9)],
        ),
        6 => (
            format!("SELECT CASE 7\nCASE 1\n{filler}\nCASE 7\nPROBE 7\nCASE ELSE\nPROBE 8\nEND SELECT\nPROBE 9"),
            vec![i(7), i(9)],
        ),
        _ => (
            format!("ON ERROR GOTO @handler\nv = 1 / 0\n{filler}\nPROBE 1\n@handler\nPROBE 2"),
            vec![i(2)],
        ),
    };
    check(&program, &expected, pad <= 20_000);
}

/// Long stretches of code anywhere in any statement with blocks.
fn far_blocks(n: &mut impl Nd) {
    let i = ConstantDatum::Integer;
    let k = n.below(9) as i32;
    let exit = 1 + n.below(4) as i32;
    let (template, expected) = match n.below(8) {
        0 => (
            format!("k = {k}\n#IF k < 3 THEN\n#PROBE 1\n#ELSEIF k < 6 THEN\n#PROBE 2\n#ELSE\n#PROBE 3\n#END IF\n#PROBE 9\n#"),
            vec![i(if k < 3 { 1 } else if k < 6 { 2 } else { 3 }), i(9)],
        ),
        1 => (
            format!("k = {k}\n#SELECT CASE k\nCASE 1\n#PROBE 1\n#CASE 2, 3\n#PROBE 2\n#CASE 5 TO 6\n#PROBE 3\n#END SELECT\n#PROBE 9\n#"),
            match k {
                1 => vec![i(1), i(9)],
                2 | 3 => vec![i(2), i(9)],
                5 | 6 => vec![i(3), i(9)],
                _ => vec![i(9)],
            },
        ),
        2 => (
            format!("k = {k}\nSELECT CASE k\nCASE IS > 5, 1\n#PROBE 1\n#CASE ELSE\n#PROBE 2\n#END SELECT\n#PROBE 9\n#"),
            vec![i(if k > 5 || k == 1 { 1 } else { 2 }), i(9)],
        ),
        3 => (
            format!("#FOR k = 1 TO 2\n#PROBE k\n#IF k = {exit} THEN EXIT FOR\n#PROBE -k\n#NEXT\n#PROBE 9\n#"),
            match exit {
                1 => vec![i(1), i(9)],
                2 => vec![i(1), i(-1), i(2), i(9)],
                _ => vec![i(1), i(-1), i(2), i(-2), i(9)],
            },
        ),
        4 => {
            let (top, bottom, cond_first) = match n.below(6) {
                0 => ("DO WHILE k < 2", "LOOP", true),
                1 => ("DO UNTIL k >= 2", "LOOP", true),
                2 => ("WHILE k < 2", "WEND", true),
                3 => ("DO", "LOOP WHILE k < 2", false),
                4 => ("DO", "LOOP UNTIL k >= 2", false),
                _ => ("DO", "IF k >= 2 THEN EXIT DO\n#LOOP", false),
            };
            (
                format!("k = {k}\n#{top}\n#k = k + 1\n#PROBE k\n#{bottom}\n#PROBE 9\n#"),
                {
                    let mut v = vec![];
                    let mut x = k;
                    while x < 2 || (!cond_first && v.is_empty()) {
                        x += 1;
                        v.push(i(x));
                    }
                    v.push(i(9));
                    v
                },
            )
        }
        5 => (
            format!("#FUNCTION f(x%)\n#f = x + 10\n#IF x = {exit} THEN EXIT FUNCTION\n#f = x + 20\n#END FUNCTION\n#PROBE f(1)\n#PROBE f(2)\n#"),
            vec![i(if exit == 1 { 11 } else { 21 }), i(if exit == 2 { 12 } else { 22 })],
        ),
        6 => (
            format!("#SUB s(x%)\n#PROBE x\n#IF x = {exit} THEN EXIT SUB\n#PROBE -x\n#END SUB\n#s 1\n#PROBE 9\n#"),
            if exit == 1 { vec![i(1), i(9)] } else { vec![i(1), i(-1), i(9)] },
        ),
        _ => (
            "#GOTO @main\n@sub\n#PROBE 1\n#RETURN\n@handler\n#PROBE 3\n#GOTO @out\n@main\n#GOSUB @sub\n#PROBE 2\n#ON ERROR GOTO @handler\n#v = 1 / 0\n#PROBE 5\n@out\n#PROBE 4\n#"
                .to_owned(),
            vec![i(1), i(2), i(3), i(4)],
        ),
    };
    let slots = template.matches('#').count();
    let slot = n.below(slots);
    let pad = match n.below(8) {
        0 => n.below(300),
        1 => 70_000,
        _ => 65_536 - n.below(60),
    };
    let mut program = String::new();
    for (j, part) in template.split('#').enumerate() {
        program += part;
        if j == slot {
            program += &"v = 1\n".repeat(pad);
        }
    }
    check(&program, &expected, pad <= 300);
}

/// Deep expressions: intermediate results never clobber each other or the variables.
fn nesting(n: &mut impl Nd) {
    let depth = [1, 5, 50, 100, 150, 180, 185, 188, 189, 190, 191, 192, 200, 260][n.below(14)];
    let vars = [0, 1, 3, 40][n.below(4)];
    let mut p = String::new();
    for v in 0..vars {
        p += &format!("w{v} = {}\n", v * 11);
    }
    // Right-nested so that every level keeps an intermediate result alive.
    let mut e = String::new();
    let mut total = 0i32;
    for d in 0..depth {
        e += &format!("{d} - (");
        total += if d % 2 == 0 { d } else { -d };
    }
    e += "1";
    total += if depth % 2 == 0 { 1 } else { -1 };
    e += &")".repeat(depth as usize);
    p += &format!("PROBE {e}\n");
    let mut expected = vec![ConstantDatum::Integer(total)];
    for v in 0..vars {
        p += &format!("PROBE w{v}\n");
        expected.push(ConstantDatum::Integer(v * 11));
    }
    check(&p, &expected, depth + vars <= 150);
}

/// References to variables of all scopes given to commands.
fn references(n: &mut impl Nd) {
    let depth = n.below(4);
    let locals = n.below(30);
    let which = n.below(3);
    let (a, b) = (n.i32() % 10000, n.i32() % 10000);
    let mut p = String::from("DIM SHARED g AS INTEGER\nDIM SHARED h AS INTEGER\n");
    let fill = |tag: &str| (0..locals).map(|i| format!("{tag}{i} = {i}\n")).collect::<String>();
    let check_fill = |tag: &str| (0..locals).map(|i| format!("IF {tag}{i} <> {i} THEN PROBE -1\n")).collect::<String>();
    let target = ["g", "x", "h"][which];
    p += &format!("SUB s0\n{}x = 5\nREAD {target}\nPROBE {target}\n{}END SUB\n", fill("a"), check_fill("a"));
    for d in 1..=depth {
        p += &format!("SUB s{d}\n{}y = {d}\ns{}\nPROBE y\n{}END SUB\n", fill("b"), d - 1, check_fill("b"));
    }
    p += &format!("{}z = 77\ns{depth}\nPROBE z\nREAD z\nPROBE z\nPROBE g, h\n{}", fill("c"), check_fill("c"));
    p += &format!("DATA {a}, {b}\n");
    let i = ConstantDatum::Integer;
    let mut expected = vec![i(a)];
    expected.extend((1..=depth as i32).map(i));
    expected.extend([i(77), i(b), i(if which == 0 { a } else { 0 }), i(if which == 2 { a } else { 0 })]);
    check(&p, &expected, true);
}

crate::suite! { "P05";
    bounded variables * 800;
    bounded constants * 4000;
    bounded many_constants * 8;
    bounded far * 60;
    bounded far_blocks * 30000;
    bounded nesting * 1500;
    bounded references * 4000;
}
