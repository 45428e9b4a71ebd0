//! P07 on whole programs.

use crate::basic::*;
use crate::nd::Nd;
use endbasic_core::ConstantDatum;

/// A random expression over the integer variables `vars` with its value, which always fits.
fn expr(n: &mut impl Nd, vars: &[(String, i32)], depth: usize) -> (String, i32) {
    match n.below(if depth == 0 { 2 } else { 5 }) {
        0 => {
            let i = n.below(100) as i32;
            (i.to_string(), i)
        }
        1 if !vars.is_empty() => vars[n.below(vars.len())].clone(),
        1 => ("7".to_owned(), 7),
        2 => {
            let ((a, x), (b, y)) = (expr(n, vars, depth - 1), expr(n, vars, depth - 1));
            (format!("({a} + {b})"), (x + y) % 100_000_000)
        }
        3 => {
            let ((a, x), (b, y)) = (expr(n, vars, depth - 1), expr(n, vars, depth - 1));
            (format!("({a} - {b})"), x - y)
        }
        _ => {
            let ((a, x), (b, y)) = (expr(n, vars, depth - 1), expr(n, vars, depth - 1));
            (format!("({a} XOR {b})"), x ^ y)
        }
    }
}

/// A layered set of functions and subroutines in which each may call those before it; every local
/// variable, parameter and intermediate result is verified after the calls.
struct Layers {
    /// Parameters and body as closures over values: (number of parameters, seed, is function).
    layers: Vec<(usize, u64, bool)>,
    /// Trace of the expected values.
    expected: Vec<i32>,
    /// Source text of each layer.
    text: Vec<String>,
}

impl Layers {
    /// Generates (if it is not yet known) and simulates layer `i` called with `args`.
    fn call(&mut self, i: usize, args: &[i32]) -> i32 {
        let (nargs, seed, is_function) = self.layers[i];
        assert_eq!(nargs, args.len());
        // The body is a function of the seed alone, so every call replays the same statements.
        let mut n = crate::nd::Concrete::random(seed);
        let n = &mut n;
        let params: Vec<String> = (0..nargs).map(|p| format!("p{p}%")).collect();
        let mut t = format!(
            "{} c{i}{}{}\n",
            if is_function { "FUNCTION" } else { "SUB" },
            if is_function { "%" } else { "" },
            if nargs > 0 { format!("({})", params.join(", ")) } else { String::new() },
        );
        let mut vars: Vec<(String, i32)> =
            (0..nargs).map(|p| (format!("p{p}"), args[p])).collect();
        let mut ret = 0;
        for s in 0..1 + n.below(5) {
            match n.below(6) {
                0 | 1 => {
                    let (e, v) = expr(n, &vars, 2);
                    let name = format!("v{}", n.below(4));
                    t += &format!("{name} = {e}\n");
                    vars.retain(|x| x.0 != name);
                    vars.push((name, v));
                }
                2 if i > 0 => {
                    let j = n.below(i);
                    let (na, _, isf) = self.layers[j];
                    let a: Vec<(String, i32)> = (0..na).map(|_| expr(n, &vars, 1)).collect();
                    let texts: Vec<String> = a.iter().map(|x| x.0.clone()).collect();
                    let values: Vec<i32> = a.iter().map(|x| x.1).collect();
                    let v = self.call(j, &values);
                    if isf {
                        let (e, w) = expr(n, &vars, 1);
                        let name = format!("v{}", n.below(4));
                        let c = if na > 0 { format!("c{j}({})", texts.join(", ")) } else { format!("c{j}") };
                        if n.bool() {
                            t += &format!("{name} = {e} XOR {c}\n");
                        } else {
                            t += &format!("{name} = {c} XOR {e}\n");
                        }
                        vars.retain(|x| x.0 != name);
                        vars.push((name, w ^ v));
                    } else {
                        t += &format!("c{j} {}\n", texts.join(", "));
                    }
                }
                3 if is_function => {
                    let (e, v) = expr(n, &vars, 1);
                    t += &format!("c{i} = {e}\n");
                    ret = v;
                }
                4 if !vars.is_empty() => {
                    // Parameters are local: changing them is invisible to the caller.
                    let k = n.below(vars.len());
                    let (e, v) = expr(n, &vars, 1);
                    let name = vars[k].0.clone();
                    t += &format!("{name} = {e}\n");
                    vars[k].1 = v;
                }
                _ => {
                    let (e, v) = expr(n, &vars, 1);
                    t += &format!("IF ({e}) <> {} THEN PROBE -1 ELSE PROBE {s}\n", "0");
                    self.expected.push(if v != 0 { -1 } else { s as i32 });
                }
            }
        }
        for (name, v) in &vars {
            t += &format!("PROBE {name}\n");
            self.expected.push(*v);
        }
        t += if is_function { "END FUNCTION\n" } else { "END SUB\n" };
        self.text[i] = t;
        ret
    }
}

/// Random programs of calls that call each other.
fn layers(n: &mut impl Nd) {
    let count = 1 + n.below(5);
    let mut l = Layers {
        layers: (0..count).map(|_| (n.below(4), n.u64(), n.bool())).collect(),
        expected: vec![],
        text: vec![String::new(); count],
    };
    let mut main = String::new();
    let vars: Vec<(String, i32)> = (0..n.below(4)).map(|i| (format!("m{i}"), n.i32() % 1000)).collect();
    for (name, v) in &vars {
        main += &format!("{name} = {}\n", int(*v));
    }
    for _ in 0..1 + n.below(3) {
        let j = n.below(count);
        let (na, _, isf) = l.layers[j];
        let a: Vec<(String, i32)> = (0..na).map(|_| expr(n, &vars, 2)).collect();
        let texts: Vec<String> = a.iter().map(|x| x.0.clone()).collect();
        let values: Vec<i32> = a.iter().map(|x| x.1).collect();
        let v = l.call(j, &values);
        n.assume(l.expected.len() < 2000);
        if isf {
            let c = if na > 0 { format!("c{j}({})", texts.join(", ")) } else { format!("c{j}") };
            main += &format!("PROBE {c}\n");
            l.expected.push(v);
        } else {
            main += &format!("c{j} {}\n", texts.join(", "));
        }
        for (name, v) in &vars {
            main += &format!("PROBE {name}\n");
            l.expected.push(*v);
        }
    }
    // Layers that were never called do not matter.
    let text: String = l.text.iter().map(|t| t.as_str()).collect();
    let program = format!("{text}{main}");
    let out = run(&program);
    assert!(out.error.is_none(), "{program}\nfailed with {:?}", out.error);
    let got = out.ints();
    for (i, (e, g)) in l.expected.iter().zip(&got).enumerate() {
        assert_eq!(e, g, "{program}\nvalue {i}");
    }
    assert_eq!(l.expected.len(), got.len(), "{program}");
}

/// Recursive functions.
fn recursion(n: &mut impl Nd) {
    let k = n.below(15) as i32;
    let (a, b) = (n.below(50) as i32, n.below(50) as i32);
    let (program, expected) = match n.below(4) {
        0 => {
            let f = |x: i32| (1..=x.min(12)).product::<i32>().max(1);
            (format!("FUNCTION f(x%)\nIF x <= 1 THEN\nf = 1\nELSE\nf = x * f(x - 1)\nEND IF\nEND FUNCTION\nPROBE f({})", k.min(12)), vec![f(k)])
        }
        1 => {
            let (mut x, mut y) = (0, 1);
            for _ in 0..k {
                (x, y) = (y, x + y);
            }
            (format!("FUNCTION f(x%)\nIF x < 2 THEN\nf = x\nEXIT FUNCTION\nEND IF\nf = f(x - 1) + f(x - 2)\nEND FUNCTION\nPROBE f({k})"), vec![x])
        }
        2 => {
            let (mut x, mut y) = (a, b);
            while y != 0 {
                (x, y) = (y, x % y);
            }
            (format!("FUNCTION g(a%, b%)\nIF b = 0 THEN\ng = a\nELSE\ng = g(b, a MOD b)\nEND IF\nEND FUNCTION\nPROBE g({a}, {b})"), vec![x])
        }
        _ => {
            // Mutual recursion, with locals that must survive.
            let p = format!("DECLARE FUNCTION odd?(x%)\nFUNCTION even?(x%)\nl = x * 3\nIF x = 0 THEN even = TRUE ELSE even = odd(x - 1)\nPROBE l - x\nEND FUNCTION\nFUNCTION odd?(x%)\nl = x * 5\nIF x = 0 THEN odd = FALSE ELSE odd = even(x - 1)\nPROBE l - x\nEND FUNCTION\nIF even({k}) THEN PROBE 1 ELSE PROBE 0");
            let mut v: Vec<i32> = (0..=k).map(|x| if (k - x) % 2 == 0 { 2 * x } else { 4 * x }).collect();
            v.push((k % 2 == 0) as i32);
            (p, v)
        }
    };
    let out = run(&program);
    assert!(out.error.is_none(), "{program}\nfailed with {:?}", out.error);
    assert_eq!(expected, out.ints(), "{program}");
}

/// Parameters and results of all types; results that are not assigned have a default value.
fn types(n: &mut impl Nd) {
    let t = n.below(4);
    let (sigil, texts, values): (&str, [&str; 2], [ConstantDatum; 2]) = match t {
        0 => ("?", ["TRUE", "FALSE"], [ConstantDatum::Boolean(true), ConstantDatum::Boolean(false)]),
        1 => ("%", ["-5", "70000"], [ConstantDatum::Integer(-5), ConstantDatum::Integer(70000)]),
        2 => ("#", ["-5.5", "0.125"], [ConstantDatum::Double(-5.5), ConstantDatum::Double(0.125)]),
        _ => ("$", ["\"a\"", "\"ñandú\""], ["a".into(), "ñandú".into()]),
    };
    let zero = match t {
        0 => ConstantDatum::Boolean(false),
        1 => ConstantDatum::Integer(0),
        2 => ConstantDatum::Double(0.0),
        _ => ConstantDatum::Text(String::new()),
    };
    let i = n.below(2);
    let assign = n.bool();
    let dirty = n.bool();
    let program = format!(
        "FUNCTION w%\na1 = 99: a2 = 98: a3 = 97: w = 96\nEND FUNCTION\nFUNCTION f{sigil}(x{sigil}, y%)\n{}PROBE x, y\nEND FUNCTION\nl = 5\n{}PROBE f({}, l)\nPROBE l",
        if assign { "f = x\n" } else { "" },
        if dirty { "PROBE w\n" } else { "" },
        texts[i]
    );
    let mut expected = vec![];
    if dirty {
        expected.push(ConstantDatum::Integer(96));
    }
    expected.extend([values[i].clone(), ConstantDatum::Integer(5)]);
    expected.push(if assign { values[i].clone() } else { zero });
    expected.push(ConstantDatum::Integer(5));
    let out = run(&program);
    assert!(out.error.is_none(), "{program}\nfailed with {:?}", out.error);
    assert_eq!(expected, out.seen, "{program}");
}

/// GOSUB: shares the variables and comes back to the next statement.
fn gosub(n: &mut impl Nd) {
    let count = 1 + n.below(5);
    let mut p = String::from("x = 1\n");
    let mut bodies: Vec<Vec<usize>> = vec![];
    for i in 0..count {
        bodies.push((0..n.below(3)).filter_map(|_| if i > 0 { Some(n.below(i)) } else { None }).collect());
    }
    fn sim(i: usize, bodies: &[Vec<usize>], x: &mut i32, trace: &mut Vec<i32>) {
        *x = (*x * 3 + i as i32) % 10007;
        trace.push(*x);
        for j in &bodies[i] {
            sim(*j, bodies, x, trace);
            trace.push(-(*j as i32));
        }
    }
    let mut x = 1;
    let mut trace = vec![];
    for _ in 0..1 + n.below(3) {
        let i = n.below(count);
        if n.bool() {
            p += &format!("GOSUB @l{i}\nPROBE x\n");
        } else {
            p += &format!("IF x > -1 THEN GOSUB @l{i}: PROBE x\n");
        }
        sim(i, &bodies, &mut x, &mut trace);
        trace.push(x);
    }
    p += "END\n";
    for (i, b) in bodies.iter().enumerate() {
        p += &format!("@l{i}\nx = (x * 3 + {i}) MOD 10007\nPROBE x\n");
        for j in b {
            p += &format!("GOSUB @l{j}: PROBE -{j}\n");
        }
        p += "RETURN\n";
    }
    let out = run(&p);
    assert!(out.error.is_none(), "{p}\nfailed with {:?}", out.error);
    assert_eq!(trace, out.ints(), "{p}");
}

/// Unbounded recursion is an error, and so is returning without a call.
fn limits(n: &mut impl Nd) {
    let k = n.below(30) as i32;
    let (p, message, seen) = match n.below(5) {
        0 => ("SUB s\ns\nEND SUB\nPROBE 1\ns\nPROBE 2".to_owned(), "Out of call stack space", vec![1]),
        1 => ("FUNCTION f(x%)\nf = x + f(x + 1)\nEND FUNCTION\nPROBE 1\nPROBE f(1)".to_owned(), "Out of call stack space", vec![1]),
        2 => ("PROBE 1\n@l\nGOSUB @l".to_owned(), "Out of call stack space", vec![1]),
        3 => (format!("x = 0\nPROBE x\nGOSUB @a\n{}PROBE x\nRETURN\n@a\nx = {k}\nRETURN", "x = x + 1\n".repeat(3)), "RETURN without GOSUB or FUNCTION call", vec![0, k + 3]),
        // Deep but legal.
        _ => (format!("FUNCTION f(x%)\nIF x > 0 THEN f = 1 + f(x - 1)\nEND FUNCTION\nPROBE f({})", 1000 + 100 * k), "", vec![1000 + 100 * k]),
    };
    let out = run(&p);
    assert!(!out.rejected && !out.broken, "{p}: {out:?}");
    assert_eq!(seen, out.ints(), "{p}: {:?}", out.error);
    assert!(out.message().ends_with(message) && out.error.is_none() == message.is_empty(), "{p}: {:?}", out.error);
}

/// Functions called from expressions over variables that they modify, in any scope.
fn shared(n: &mut impl Nd) {
    let (a, b, k) = (n.below(100) as i32, n.below(100) as i32, n.below(100) as i32);
    let call = ["f", "f2(1)"][n.below(2)];
    let decl = "DIM SHARED x AS INTEGER\nDIM SHARED y AS INTEGER\n";
    let body = format!("x = x + 10\nl1 = 96: l2 = 97: l3 = 98\n");
    let funcs = format!("FUNCTION f\n{body}f = {b}\nEND FUNCTION\nFUNCTION f2(p%)\n{body}f2 = {b}\nEND FUNCTION\n");
    let (stmt, x, y, z) = match n.below(9) {
        0 => (format!("x = {k} + {call}"), k + b, 1, 2),
        1 => (format!("x = {k} + {k} + {call} + {k}"), 3 * k + b, 1, 2),
        2 => (format!("x = {call}"), b, 1, 2),
        3 => (format!("y = {call}"), a + 10, b, 2),
        4 => (format!("y = {call} - {k}"), a + 10, b - k, 2),
        5 => (format!("y = x + {call}"), a + 10, a + b, 2),
        6 => (format!("y = {call} + x"), a + 10, a + b + 10, 2),
        7 => (format!("z = x + {call}"), a + 10, 1, a + b),
        _ => (format!("z = {call} + x"), a + 10, 1, a + b + 10),
    };
    let program = format!("{decl}{funcs}x = {a}: y = 1: z = 2: w = 3\n{stmt}\nPROBE x, y, z, w");
    let out = run(&program);
    assert!(out.error.is_none(), "{program}\nfailed with {:?}", out.error);
    assert_eq!(vec![x, y, z, 3], out.ints(), "{program}");
}

/// A variable that is first set by a statement that only runs in some iterations of a loop is
/// clobbered by the temporaries of earlier statements in the loop.
fn finding_loop_variable(_: &mut impl Nd) {
    let out = run("FOR i = 0 TO 1\nPROBE i + 5\nIF i = 0 THEN b = 7\nPROBE b\nNEXT");
    assert_eq!(vec![5, 7, 6, 7], out.ints(), "{:?}", out.error);
}

crate::suite! { "P07";
    bounded layers * 20000;
    bounded recursion * 4000;
    bounded types * 2000;
    bounded gosub * 8000;
    bounded limits * 800;
    bounded shared * 4000;
    finding finding_loop_variable;
}
