//! P10 on whole programs.

use crate::b08::{agrees, epilogue};
use crate::basic::*;
use crate::lang::*;
use crate::nd::Nd;
use endbasic_core::ConstantDatum;
const K: usize = 30;

/// Runs `block` with `ON ERROR RESUME NEXT` at the place given by `before`.
fn resumed(n: &mut impl Nd, before: Vec<S>, block: Vec<S>, in_sub: bool) {
    let mut r = Run::new();
    let mut f = r.block(&before);
    if matches!(f, Flow::Next) {
        r.resume = true;
        f = r.block(&block);
    }
    // The handler also covers failures that follow.
    let ended = !matches!(f, Flow::Next);
    if !ended {
        f = r.block(&epilogue());
    }
    let outside = in_sub && n.bool();
    let prologue = match (in_sub, outside) {
        (true, false) => prologue(n).replace("SHARED ", ""),
        (_, outside) => prologue_with(n, outside),
    };
    let mut program = format!(
        "{}{}{}",
        print(&before),
        ["ON ERROR RESUME NEXT\n", "ON ERROR GOTO @nowhere\nON ERROR RESUME NEXT\n"][n.below(2)],
        print(&block)
    );
    program += &print(&epilogue());
    let nowhere = program.contains("@nowhere");
    if !ended {
        program += "PROBE ERRMSG\n";
    }
    program = if outside {
        format!("{prologue}SUB main\n{program}{}END SUB\nmain\n", if nowhere { "@nowhere\n" } else { "" })
    } else if in_sub {
        format!("SUB main\n{prologue}{program}{}END SUB\nmain\n", if nowhere { "@nowhere\n" } else { "" })
    } else {
        format!("{prologue}{program}{}", if nowhere { "@nowhere\n" } else { "" })
    };
    if ended {
        return agrees(n, &program, &r, f);
    }
    n.assume(!matches!(f, Flow::Long));
    let out = run(&program);
    assert!(out.error.is_none(), "{program}\nfailed with {:?}", out.error);
    let mut seen = out.seen;
    let message = seen.pop();
    let expected: Vec<ConstantDatum> = r.seen.iter().map(V::datum).collect();
    assert_eq!(expected, seen, "{program}");
    match (message, &r.last_error) {
        (Some(ConstantDatum::Text(m)), None) => assert_eq!("", m, "{program}"),
        (Some(ConstantDatum::Text(m)), Some(e)) => assert!(m.ends_with(&format!(": {e}")), "{program}\n{m}"),
        (m, _) => panic!("{program}\n{m:?}"),
    }
}

/// Makes a simple statement fail, or sometimes not.
fn failing(n: &mut impl Nd) -> S {
    let zero = E::Bin("-", Box::from(E::Var(0)), Box::from(E::Var(0)));
    let op = ["/", "MOD"][n.below(2)];
    // An assignment is a listed finding unless its expression refers to the variable.
    if n.bool() {
        let v = n.below(4);
        let lhs = E::Bin(["AND", "XOR"][n.below(2)], Box::from(E::Var(v)), Box::from(gen_expr(n, T::Int, 1)));
        S::Set(v, E::Bin(op, Box::from(lhs), Box::from(zero)))
    } else {
        S::Probe(E::Bin(op, Box::from(gen_expr(n, T::Int, 1)), Box::from(zero)))
    }
}

/// Puts failing statements in random places of `b`.
fn sprinkle(n: &mut impl Nd, b: &mut Vec<S>) {
    for s in b.iter_mut() {
        match s {
            S::If(branches, other) => {
                for (_, b) in branches {
                    sprinkle(n, b);
                }
                if let Some(b) = other {
                    sprinkle(n, b);
                }
            }
            S::For(_, _, _, _, b) | S::While(_, _, b) | S::Do(_, _, _, b) | S::Back(_, _, _, b) | S::ForDouble(_, _, _, b) => {
                sprinkle(n, b)
            }
            S::Skip(_, _) => {}
            S::Select(_, cases, other) => {
                for (_, b) in cases {
                    sprinkle(n, b);
                }
                if let Some(b) = other {
                    sprinkle(n, b);
                }
            }
            S::IfLine(_, then, other) => {
                if n.below(3) == 0 {
                    **then = failing(n);
                }
                if let Some(other) = other {
                    if n.below(3) == 0 {
                        **other = failing(n);
                    }
                }
            }
            _ => {}
        }
    }
    let exits = matches!(b.last(), Some(S::ExitFor | S::ExitDo));
    if n.below(3) == 0 && !exits {
        let at = [0, b.len(), n.below(b.len() + 1)][n.below(3)];
        let f = failing(n);
        b.insert(at, f);
    }
}

fn block(n: &mut impl Nd, size: usize) -> Vec<S> {
    let mut g = Gen::new(size);
    g.guards_fail = false;
    g.ends = true;
    g.sets_fail = false;
    let mut b = g.block(n, 0, false, false);
    sprinkle(n, &mut b);
    b
}

/// With RESUME NEXT, failed statements have no effect and execution continues with the next one.
fn resume_next(n: &mut impl Nd) {
    let k = 1 + n.below(K);
    let b = block(n, k);
    resumed(n, vec![], b, false);
}

fn resume_next_in_sub(n: &mut impl Nd) {
    let k = 1 + n.below(K);
    let b = block(n, k);
    resumed(n, vec![], b, true);
}

/// Nothing that happens before the handler is set is covered by it.
fn resume_next_later(n: &mut impl Nd) {
    let k = 1 + n.below(8);
    let mut before = vec![];
    for _ in 0..1 + n.below(4) {
        before.push(S::Set(n.below(4), gen_expr(n, T::Int, 2)));
    }
    let b = block(n, k);
    resumed(n, before, b, false);
}

/// A handler in a label or line takes over at the first error, with the variables as they were
/// left by the completed statements, and errors in the handler itself are fatal.
fn jump(n: &mut impl Nd) {
    let k = 1 + n.below(K);
    let b = block(n, k);
    // Labels of both blocks must not clash.
    let mut handler = vec![];
    for _ in 0..n.below(4) {
        handler.push(S::Set(n.below(4), gen_expr(n, T::Int, 2)));
    }
    if n.below(3) == 0 {
        handler.push(failing(n));
    }
    let mut r = Run::new();
    let mut f = r.block(&b);
    if matches!(f, Flow::Next) {
        f = r.block(&epilogue());
    }
    let handled = matches!(f, Flow::Error(_));
    if handled {
        r.seen.push(V::I(-7777));
        f = r.block(&epilogue());
        if matches!(f, Flow::Next) {
            f = r.block(&handler);
        }
        if matches!(f, Flow::Next) {
            f = r.block(&epilogue());
        }
        if matches!(f, Flow::Next) {
            f = Flow::End(Some(9));
        }
    } else if matches!(f, Flow::Next) {
        f = Flow::End(Some(8));
    }
    let target = ["@handler", "500"][n.below(2)];
    let program = format!(
        "{}{}{}{}END 8\n{target} PROBE -7777\n{}{}{}END 9\n",
        prologue(n),
        [format!("ON ERROR GOTO {target}\n"), format!("ON ERROR RESUME NEXT\nON ERROR GOTO {target}\n")][n.below(2)],
        print(&b),
        print(&epilogue()),
        print(&epilogue()),
        print(&handler),
        print(&epilogue())
    );
    agrees(n, &program.replace("@handler PROBE", "@handler\nPROBE"), &r, f);
}

/// The handler can be set again by itself, replaced and removed.
fn rearm(n: &mut impl Nd) {
    let rounds = 1 + n.below(4) as i32;
    let last = n.below(3);
    let mut p = "t = 0\nON ERROR GOTO @h\n@again\nx = 5 / (t - t)\nPROBE -1\nEND 1\n@h\nt = t + 1\nPROBE t\n".to_owned();
    p += &format!("IF t < {rounds} THEN\nON ERROR GOTO @h\nGOTO @again\nEND IF\n");
    let mut expected: Vec<i32> = (1..=rounds).collect();
    match last {
        0 => {
            p += "ON ERROR GOTO 0\nx = 1 MOD (t - t)\nPROBE -1\n";
        }
        1 => {
            p += "ON ERROR RESUME NEXT\nx = 1 MOD (t - t)\nPROBE 99\nEND 3\n";
            expected.push(99);
        }
        _ => {
            p += "PROBE 98\nx = 1 MOD (t - t)\nPROBE -1\n";
            expected.push(98);
        }
    }
    let out = run(&p);
    assert_eq!(expected, out.ints(), "{p}\n{:?}", out.error);
    if last == 1 {
        assert_eq!(Some(3), out.exit, "{p}");
    } else {
        assert!(out.message().ends_with(": Modulo by zero"), "{p}\n{out:?}");
    }
}

/// Errors tell the position of the statement, or argument, that failed.
fn position(n: &mut impl Nd) {
    let mut p = String::new();
    let mut line = 1;
    p += "ON ERROR RESUME NEXT\nDIM a(3)\nt = 0\n";
    line += 3;
    let mut expected: Vec<ConstantDatum> = vec![];
    for _ in 0..1 + n.below(6) {
        for _ in 0..n.below(3) {
            p += ["\n", "' 1 / 0\n", "t = 0\n"][n.below(3)];
            line += 1;
        }
        let pad = " ".repeat(n.below(5));
        let (text, offset, message) = match n.below(7) {
            0 => ("x = 1 / t", 7, "Division by zero"),
            1 => ("x = 7 + 1 MOD t", 11, "Modulo by zero"),
            2 => ("a(4) = t", 1, "Subscript 4 exceeds limit of 3"),
            3 => ("x = a(-1)", 5, "Subscript -1 cannot be negative"),
            4 => ("x = 2147483647 + (1 - t)", 16, "Integer overflow"),
            5 => ("COLOR 1, 300", 10, "Color out of range"),
            _ => ("s = CHR(-1)", 9, "Character code -1 must be positive"),
        };
        p += &format!("{pad}{text}\nPROBE ERRMSG\n");
        let _ = message;
        expected.push(format!("{line}:{}: {message}", pad.len() + offset).as_str().into());
        line += 2;
    }
    let out = run(&p);
    assert!(out.error.is_none(), "{p}\n{:?}", out.error);
    assert_eq!(expected, out.seen, "{p}");
}

/// Handlers set by callers cover their callees, with the variables of the caller, at any depth.
fn scopes(n: &mut impl Nd) {
    let depth = 1 + n.below(5);
    let at = n.below(depth + 1);
    let resume = n.bool();
    let set = if resume { "ON ERROR RESUME NEXT" } else { "ON ERROR GOTO @h" };
    // Level `i` calls level `i - 1`, and level 0 fails.
    let mut p = String::new();
    let is_fn: Vec<bool> = (0..depth).map(|_| n.bool()).collect();
    for i in 0..depth {
        let kind = if is_fn[i] { "FUNCTION" } else { "SUB" };
        let sigil = if is_fn[i] { "%" } else { "" };
        p += &format!("{kind} f{i}{sigil}(p%)\nv = p * 2\n");
        if at == i {
            p += &format!("{set}\n");
        }
        if i == 0 {
            p += "w = 1 / (v - v)\n";
        } else if is_fn[i - 1] {
            p += &format!("w = f{}(v + 1)\n", i - 1);
        } else {
            p += &format!("f{} v + 1\n", i - 1);
        }
        p += &format!("PROBE {i}, p, v\n");
        if at == i && !resume {
            p += &format!("EXIT {kind}\n@h\nPROBE {}, p, v\n", i + 1000);
        }
        p += &format!("END {kind}\n");
    }
    p += "v = 77\n";
    if at == depth {
        p += &format!("{set}\n");
    }
    p += &if is_fn[depth - 1] { format!("w = f{}(1)\n", depth - 1) } else { format!("f{} 1\n", depth - 1) };
    p += &format!("PROBE {depth}, v\n");
    if at == depth && !resume {
        p += &format!("END\n@h\nPROBE {}, v\n", depth + 1000);
    }
    let mut expected = vec![];
    let mut param = vec![0; depth];
    let mut x = 1;
    for i in (0..depth).rev() {
        param[i] = x;
        x = x * 2 + 1;
    }
    // With a jump, everything below the level of the handler is abandoned.
    let first = if resume { 0 } else { at };
    for i in first..=depth {
        let tag = if !resume && i == at { i + 1000 } else { i } as i32;
        if i < depth {
            expected.extend([tag, param[i], param[i] * 2]);
        } else {
            expected.extend([tag, 77]);
        }
    }
    let out = run(&p);
    assert!(out.error.is_none(), "{p}\n{:?}", out.error);
    assert_eq!(expected, out.ints(), "{p}");
}

/// Listed finding: a failed assignment leaves part of the expression in a local variable.
fn finding_partial_assignment(_: &mut impl Nd) {
    let out = run("x = 5\nON ERROR RESUME NEXT\nx = (2 + 3 * 4) / 0\nPROBE x\n");
    assert_eq!(vec![5], out.ints(), "{out:?}");
}

crate::suite! { "P10";
    finding finding_partial_assignment;
    bounded resume_next * 15000;
    bounded resume_next_in_sub * 5000;
    bounded resume_next_later * 3000;
    bounded jump * 10000;
    bounded rearm * 200;
    bounded position * 1000;
    bounded scopes * 1000;
}
