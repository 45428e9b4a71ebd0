//! P21 on whole programs: values and errors of numeric functions.

use crate::basic::*;
use crate::desk::Desk;
use crate::nd::Nd;
use endbasic_core::ConstantDatum;
use endbasic_repl::editor::Editor;
use endbasic_std::storage::Storage;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug)]
enum V {
    D(f64),
    I(i32),
}

impl V {
    fn double(self) -> f64 {
        match self {
            V::D(d) => d,
            V::I(i) => f64::from(i),
        }
    }
}

#[derive(Debug)]
enum X {
    Double(f64),
    Int(i32),
    /// Variables that hold doubles and integers.
    Var(usize),
    Num(usize),
    Call(&'static str, Vec<X>),
}

/// Values of variables: those that literals cannot give come first.
const SPECIAL: [f64; 3] = [f64::INFINITY, f64::NEG_INFINITY, f64::NAN];

struct State {
    degrees: bool,
    vars: Vec<f64>,
    nums: Vec<i32>,
}

/// Where an argument starts, or one column later.
struct Fail(usize, &'static str);

fn close(a: f64, b: f64, tolerance: f64) -> bool {
    a == b || a.is_nan() && b.is_nan() || (a - b).abs() <= tolerance
}

impl X {
    fn number(n: &mut impl Nd, depth: usize) -> X {
        match n.below(if depth == 0 { 5 } else { 8 }) {
            0 => X::Var(n.below(5)),
            1 => X::Num(n.below(2)),
            2 => X::Int(n.i32()),
            3 => {
                let k = n.below(9) as i32 - 4;
                X::Double(f64::from(k) * [0.25, 0.5, 1.0, 0.125][n.below(4)])
            }
            4 => {
                let d = n.f64();
                X::Double(if d.is_finite() { d } else { 0.75 })
            }
            _ => X::call(n, depth - 1, false),
        }
    }

    fn call(n: &mut impl Nd, depth: usize, top: bool) -> X {
        let names = ["ABS", "ACOS", "ASIN", "ATN", "CINT", "COS", "EXP", "FIX", "INT", "LOG", "MAX", "MIN", "PI", "ROUND", "SGN", "SIN", "SQR", "TAN", "MAX", "ROUND"];
        let name = names[n.below(names.len())];
        let args = match name {
            "PI" => vec![],
            "MAX" | "MIN" => {
                let count = [1, 2, 3, 4, 9][n.below(5)];
                (0..count).map(|_| X::number(n, if count > 4 { 0 } else { depth })).collect()
            }
            "ROUND" if top && n.bool() => {
                let decimals = match n.below(6) {
                    0 => n.i32(),
                    1 => [300, 308, 309, 400, -300, -308, -309, -330, 20, -20][n.below(10)],
                    _ => n.below(12) as i32 - 5,
                };
                vec![X::number(n, depth), X::Int(decimals)]
            }
            _ => vec![X::number(n, depth)],
        };
        X::Call(name, args)
    }

    fn text(&self, out: &mut String) {
        match self {
            X::Double(d) => out.push_str(&double(*d)),
            X::Int(i) => out.push_str(&int(*i)),
            X::Var(i) => out.push_str(&format!("d{}#", i)),
            X::Num(i) => out.push_str(&format!("i{}%", i)),
            X::Call(name, args) => {
                out.push_str(name);
                for (i, a) in args.iter().enumerate() {
                    out.push_str(if i == 0 { "(" } else { ", " });
                    a.text(out);
                }
                if !args.is_empty() {
                    out.push(')');
                }
            }
        }
    }

    fn width(&self) -> usize {
        let mut s = String::new();
        self.text(&mut s);
        s.len()
    }

    /// The value, given the column of the expression.
    fn eval(&self, s: &State, column: usize) -> Result<V, Fail> {
        let (name, args) = match self {
            X::Double(d) => return Ok(V::D(*d)),
            X::Int(i) => return Ok(V::I(*i)),
            X::Var(i) => return Ok(V::D(s.vars[*i])),
            X::Num(i) => return Ok(V::I(s.nums[*i])),
            X::Call(name, args) => (*name, args),
        };
        let first = column + name.len() + 1;
        let mut at = first;
        let mut values = vec![];
        for a in args {
            values.push(a.eval(s, at)?);
            at += a.width() + 2;
        }
        let x = values.first().map(|v| v.double()).unwrap_or(0.0);
        let inward = if s.degrees { x * (std::f64::consts::PI / 180.0) } else { x };
        let outward = |d: f64| V::D(if s.degrees { d * (180.0 / std::f64::consts::PI) } else { d });
        let integer = |d: f64| {
            // A value in the middle goes away from zero.
            let whole = d.trunc();
            let r = if (d - whole).abs() >= 0.5 { whole + 1f64.copysign(d) } else { whole };
            if r >= -2147483648.0 && r <= 2147483647.0 { Ok(V::I(r as i32)) } else { Err(Fail(first, "to integer due to overflow")) }
        };
        let unless = |wrong: bool, message: &'static str, v: V| if wrong { Err(Fail(first, message)) } else { Ok(v) };
        match name {
            "ABS" => Ok(V::D(if x.is_sign_negative() { -x } else { x })),
            "ACOS" => unless(!(x >= -1.0 && x <= 1.0), "Cannot take arc-cosine of a number outside of [-1, 1]", outward(x.acos())),
            "ASIN" => unless(!(x >= -1.0 && x <= 1.0), "Cannot take arc-sine of a number outside of [-1, 1]", outward(x.asin())),
            "ATN" => Ok(outward(x.atan())),
            "COS" => Ok(V::D(inward.cos())),
            "SIN" => Ok(V::D(inward.sin())),
            "TAN" => Ok(V::D(inward.tan())),
            "CINT" => integer(x),
            "FIX" => integer(x - x % 1.0),
            "INT" => integer(if x % 1.0 < 0.0 { x - x % 1.0 - 1.0 } else { x - x % 1.0 }),
            "EXP" => unless(!x.exp().is_finite(), "due to overflow", V::D(x.exp())),
            "LOG" => unless(x <= 0.0, "Cannot take logarithm of zero or a negative number", V::D(x.ln())),
            "SQR" => unless(x < 0.0, "Cannot take square root of a negative number", V::D(x.sqrt())),
            "SGN" => Ok(V::I(if x > 0.0 { 1 } else if x < 0.0 { -1 } else { 0 })),
            "PI" => Ok(V::D(3.14159265358979323846)),
            "MAX" | "MIN" => {
                let mut all: Vec<f64> = values.iter().map(|v| v.double()).filter(|d| !d.is_nan()).collect();
                all.sort_by(|a, b| a.partial_cmp(b).unwrap());
                let none = if name == "MAX" { f64::NEG_INFINITY } else { f64::INFINITY };
                Ok(V::D((if name == "MAX" { all.last() } else { all.first() }).copied().unwrap_or(none)))
            }
            "ROUND" if values.len() == 1 => {
                let whole = x.trunc();
                Ok(V::D(if (x - whole).abs() >= 0.5 { whole + 1f64.copysign(x) } else { whole }))
            }
            "ROUND" => {
                let V::I(decimals) = values[1] else { panic!() };
                Ok(V::D(rounded(x, decimals)))
            }
            name => panic!("{}", name),
        }
    }
}

/// Rounds the way the text of a number is rounded.
fn rounded(x: f64, decimals: i32) -> f64 {
    if !x.is_finite() {
        x
    } else if decimals >= 0 {
        format!("{:.*}", decimals.min(1080) as usize, x).parse().unwrap()
    } else {
        let text = format!("{:.0}", x.abs().trunc());
        let keep = text.len() as i64 + i64::from(decimals);
        if keep < 0 {
            return 0.0;
        }
        let (head, tail) = text.split_at(keep as usize);
        let up = tail.as_bytes()[0] >= b'5';
        let head: f64 = if head.is_empty() { 0.0 } else { head.parse().unwrap() };
        let unit: f64 = format!("1e{}", tail.len()).parse().unwrap();
        (head + if up { 1.0 } else { 0.0 }) * unit * x.signum()
    }
}

/// Whether a value is what a number rounds to, where a number right in the middle of two can go to either.
fn is_rounded(got: f64, x: f64, decimals: i32) -> bool {
    // Digits that only numbers near the smallest one have do not count.
    let slack = (x.abs() * 1e-13).max(1e-290);
    let want = rounded(x, decimals);
    if close(got, want, slack) {
        return true;
    }
    let unit: f64 = format!("1e{}", -i64::from(decimals)).parse().unwrap();
    // The number is in the middle, and the value is on the other side of it.
    ((want - x).abs() - unit / 2.0).abs() <= slack && close(got, want + if want > x { -unit } else { unit }, slack)
}

fn session() -> Session<Desk> {
    let (storage, program) = (Rc::from(RefCell::from(Storage::default())), Rc::from(RefCell::from(Editor::default())));
    Session::with(Desk::new(80, 5), 1_000_000, |b| b.make_interactive().with_storage(storage).with_program(program).build())
}

const DECLARE: &str = "DIM SHARED d0 AS DOUBLE : DIM SHARED d1 AS DOUBLE : DIM SHARED d2 AS DOUBLE : DIM SHARED d3 AS DOUBLE : DIM SHARED d4 AS DOUBLE : DIM SHARED i0 AS INTEGER : DIM SHARED i1 AS INTEGER\n";

fn values(n: &mut impl Nd, session: &mut Session<Desk>) -> State {
    let mut s = State { degrees: false, vars: SPECIAL.to_vec(), nums: vec![] };
    let mut program = DECLARE.to_owned();
    let top = double(1e308);
    program.push_str(&format!("d0 = {} * 10.0\nd1 = -{} * 10.0\nd2 = d0 + d1\n", top, top));
    for i in 3..5 {
        let d = n.f64();
        let d = if d.is_finite() { d } else { -1.0 };
        program.push_str(&format!("d{} = {}\n", i, double(d)));
        s.vars.push(d);
    }
    for i in 0..2 {
        let k = n.i32();
        program.push_str(&format!("i{} = {}\n", i, int(k)));
        s.nums.push(k);
    }
    assert_eq!(None, session.run(&program).error, "{}", program);
    s
}

/// Functions of functions of numbers, while the mode changes.
fn calls(n: &mut impl Nd) {
    let mut session = session();
    let mut s = values(n, &mut session);
    for _ in 0..1 + n.below(4) {
        let mut program = String::new();
        let mut want = vec![];
        let mut failed = None;
        for line in 1..2 + n.below(6) {
            match n.below(6) {
                0 => {
                    program.push_str("DEG\n");
                    s.degrees = s.degrees || failed.is_none();
                }
                1 => {
                    program.push_str("RAD\n");
                    s.degrees = s.degrees && failed.is_some();
                }
                _ => {
                    let depth = n.below(2);
                    let x = X::call(n, depth, true);
                    program.push_str("PROBE ");
                    x.text(&mut program);
                    program.push('\n');
                    if failed.is_some() {
                        continue;
                    }
                    match x.eval(&s, 7) {
                        Ok(v) => want.push((x, v, s.degrees)),
                        Err(e) => failed = Some((line, e)),
                    }
                }
            }
        }
        let out = session.run(&program);
        match (&failed, &out.error) {
            (None, None) => (),
            (Some((line, Fail(column, message))), Some(e)) => {
                let at = |c: usize| e.starts_with(&format!("{}:{}: ", line, c));
                assert!(e.contains(message) && (at(*column) || at(column + 1)), "{}: {} instead of {} at {}:{}", program, e, message, line, column);
            }
            (w, e) => panic!("{} with {:?} {:?}: {:?} instead of {:?}", program, s.vars, s.nums, e, w.as_ref().map(|w| w.1.1)),
        }
        assert_eq!(want.len(), out.seen.len(), "{}", program);
        for ((x, v, degrees), got) in want.iter().zip(&out.seen) {
            let ok = match (v, got) {
                (V::I(a), ConstantDatum::Integer(b)) => a == b,
                (V::D(a), ConstantDatum::Double(b)) => match x {
                    X::Call("ROUND", args) if args.len() == 2 => match (args[0].eval(&State { degrees: *degrees, vars: s.vars.clone(), nums: s.nums.clone() }, 0), &args[1]) {
                        (Ok(v), X::Int(d)) => is_rounded(*b, v.double(), *d),
                        _ => false,
                    },
                    _ => a == b || a.is_nan() && b.is_nan(),
                },
                _ => false,
            };
            assert!(ok, "{} with {:?} {:?}: {:?} gives {:?} instead of {:?}", program, s.vars, s.nums, x, got, v);
        }
        if n.below(8) == 0 {
            assert_eq!(None, session.run("CLEAR").error);
            s = values(n, &mut session);
        }
    }
}

/// Random numbers repeat for a seed, and only then.
fn random(n: &mut impl Nd) {
    // The values after each seed.  Numbers that come from entropy are seeds of their own.
    let mut known: HashMap<(i64, usize), f64> = HashMap::new();
    let mut entropy = 1i64 << 40;
    let pool = [n.i32(), 0, -1, 7, i32::MIN];
    for _ in 0..2 {
        let mut session = session();
        entropy += 1;
        let (mut seed, mut index) = (entropy, 0);
        let mut texts = String::new();
        for _ in 0..1 + n.below(3) {
            let mut program = String::new();
            let mut want = vec![];
            for _ in 0..1 + n.below(12) {
                match n.below(8) {
                    0 => {
                        let to = pool[n.below(pool.len())];
                        program.push_str(&format!("RANDOMIZE {}\n", int(to)));
                        (seed, index) = (to.into(), 0);
                    }
                    1 => {
                        program.push_str("RANDOMIZE\n");
                        entropy += 1;
                        (seed, index) = (entropy, 0);
                    }
                    2 => {
                        let to = pool[n.below(pool.len())];
                        if to < 0 {
                            program.push_str(&format!("PROBE RND({})\n", int(to)));
                            (seed, index) = (to.into(), 0);
                            want.push((seed, index));
                        }
                    }
                    3 => {
                        program.push_str("PROBE RND(0)\n");
                        want.push((seed, index));
                    }
                    4 => program.push_str("DEG\n"),
                    k => {
                        program.push_str(if k == 5 { "PROBE RND()\n" } else if n.bool() { "PROBE RND(1)\n" } else { "PROBE RND(32767)\n" });
                        index += 1;
                        want.push((seed, index));
                    }
                }
            }
            texts.push_str(&program);
            texts.push_str("---\n");
            let out = session.run(&program);
            assert_eq!(None, out.error, "{}", texts);
            assert_eq!(want.len(), out.seen.len(), "{}", texts);
            for (key, got) in want.into_iter().zip(out.seen) {
                let ConstantDatum::Double(d) = got else { panic!("{:?}", got) };
                assert!((0.0..=1.0).contains(&d), "{}: {}", texts, d);
                let before = *known.entry(key).or_insert(d);
                assert_eq!(before, d, "{}: {:?}", texts, key);
            }
            if n.below(4) == 0 {
                texts.push_str("CLEAR\n---\n");
                assert_eq!(None, session.run("CLEAR").error);
            }
        }
    }
    // Different places in different sequences have different values, nearly always.
    let mut all: Vec<u64> = known.values().map(|d| d.to_bits()).collect();
    let total = all.len();
    all.sort();
    all.dedup();
    assert!(all.len() + 2 >= total, "{} of {} values differ", all.len(), total);
}

crate::suite! { "P21";
    bounded calls * 60000;
    bounded random * 5000;
}
