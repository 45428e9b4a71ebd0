//! P15 on whole programs.

use crate::basic::*;
use crate::lang::{self, T, V};
use crate::nd::Nd;
use endbasic_core::ConstantDatum;

/// Words of an expression.
#[derive(Clone, Debug, PartialEq)]
enum W {
    Lit(V),
    Var(usize),
    /// Binary operator, or unary if it is a minus.
    Op(&'static str),
    Not,
    Open,
    Close,
    /// Name of a function or array with its opening parenthesis.
    Call(&'static str),
    Comma,
    /// Something that has no place in expressions.
    Stray(&'static str),
}

#[derive(Clone, Debug)]
enum X {
    Lit(V),
    Var(usize),
    Not(Box<X>),
    Neg(Box<X>),
    Bin(&'static str, Box<X>, Box<X>),
    Call(&'static str, Vec<X>),
}

const VARS: [(&str, T); 5] = [("i", T::Int), ("j", T::Int), ("b", T::Bool), ("d", T::Double), ("t", T::Text)];

/// Functions record their argument, so that the order of evaluation is seen.
const PRELUDE: &str = "DIM ar(4) AS INTEGER\nFOR k = 0 TO 3\nar(k) = k * 7 - 2\nNEXT\nFUNCTION f%(p%)\nPROBE p\nf = p\nEND FUNCTION\n\
FUNCTION g%(p%, q%)\nPROBE p - q\ng = p - q\nEND FUNCTION\nFUNCTION h?(p?)\nPROBE p\nh = p\nEND FUNCTION\n";

const BINARY: [(&str, u8); 17] = [
    ("^", 6), ("*", 4), ("/", 4), ("MOD", 4), ("+", 3), ("-", 3), ("<<", 2), (">>", 2), ("=", 1), ("<>", 1), ("<", 1), ("<=", 1), (">", 1), (">=", 1),
    ("AND", 0), ("OR", 0), ("XOR", 0),
];

fn level(op: &str) -> u8 {
    BINARY.iter().find(|o| o.0 == op).unwrap().1
}

/// Reads expressions by the grammar, one level of precedence at a time.
struct Grammar<'a> {
    words: &'a [W],
    at: usize,
}

impl Grammar<'_> {
    fn whole(words: &[W]) -> Option<X> {
        let mut g = Grammar { words, at: 0 };
        let x = g.level(0)?;
        (g.at == words.len()).then_some(x)
    }

    /// Operators of the level `l` or tighter.
    fn level(&mut self, l: u8) -> Option<X> {
        let mut x = self.prefix()?;
        while let Some(W::Op(op)) = self.words.get(self.at) {
            if level(op) < l {
                break;
            }
            self.at += 1;
            let y = self.level(level(op) + 1)?;
            x = X::Bin(op, Box::from(x), Box::from(y));
        }
        Some(x)
    }

    fn prefix(&mut self) -> Option<X> {
        self.at += 1;
        match self.words.get(self.at - 1)? {
            W::Lit(v) => Some(X::Lit(v.clone())),
            W::Var(i) => Some(X::Var(*i)),
            W::Op("-") => Some(X::Neg(Box::from(self.level(6)?))),
            W::Not => Some(X::Not(Box::from(self.level(6)?))),
            W::Open => {
                let x = self.level(0)?;
                self.close()?;
                Some(x)
            }
            W::Call(name) => {
                let mut args = vec![self.level(0)?];
                while self.words.get(self.at) == Some(&W::Comma) {
                    self.at += 1;
                    args.push(self.level(0)?);
                }
                self.close()?;
                Some(X::Call(name, args))
            }
            _ => None,
        }
    }

    fn close(&mut self) -> Option<()> {
        self.at += 1;
        (self.words.get(self.at - 1)? == &W::Close).then_some(())
    }
}

/// The type of an expression, if it has one.
fn kind(x: &X) -> Option<T> {
    match x {
        X::Lit(V::B(_)) => Some(T::Bool),
        X::Lit(V::D(_)) => Some(T::Double),
        X::Lit(V::I(_)) => Some(T::Int),
        X::Lit(V::T(_)) => Some(T::Text),
        X::Var(i) => Some(VARS[*i].1),
        X::Not(x) => match kind(x)? {
            t @ (T::Bool | T::Int) => Some(t),
            _ => None,
        },
        X::Neg(x) => match kind(x)? {
            t @ (T::Int | T::Double) => Some(t),
            _ => None,
        },
        X::Call(name, args) => {
            let kinds: Vec<T> = args.iter().map(kind).collect::<Option<_>>()?;
            match (*name, kinds.as_slice()) {
                ("f(" | "ar(", [T::Int | T::Double]) => Some(T::Int),
                ("g(", [T::Int | T::Double, T::Int | T::Double]) => Some(T::Int),
                ("h(", [T::Bool]) => Some(T::Bool),
                _ => None,
            }
        }
        X::Bin(op, a, b) => {
            let (a, b) = (kind(a)?, kind(b)?);
            let numbers = matches!(a, T::Int | T::Double) && matches!(b, T::Int | T::Double);
            match level(op) {
                3 if a == T::Text && b == T::Text => (*op == "+").then_some(T::Text),
                3 | 4 | 6 if numbers => Some(if a == T::Int && b == T::Int { T::Int } else { T::Double }),
                2 if a == T::Int && b == T::Int => Some(T::Int),
                1 if numbers || a == T::Text && b == T::Text => Some(T::Bool),
                1 if a == T::Bool && b == T::Bool && matches!(*op, "=" | "<>") => Some(T::Bool),
                0 if a == b && matches!(a, T::Int | T::Bool) => Some(a),
                _ => None,
            }
        }
    }
}

/// Evaluates from left to right, recording what functions do.
fn eval(x: &X, vars: &[V], seen: &mut Vec<ConstantDatum>) -> Result<V, String> {
    match x {
        X::Lit(v) => Ok(v.clone()),
        X::Var(i) => Ok(vars[*i].clone()),
        X::Not(x) => Ok(lang::unary_not(eval(x, vars, seen)?)),
        X::Neg(x) => lang::unary_neg(eval(x, vars, seen)?).map_err(|_| "Integer overflow".to_owned()),
        X::Bin(op, a, b) => {
            let a = eval(a, vars, seen)?;
            let b = eval(b, vars, seen)?;
            if *op == "^" {
                if let (V::D(_), _) | (_, V::D(_)) = (&a, &b) {
                    let d = |v: V| match v {
                        V::D(d) => d,
                        V::I(i) => f64::from(i),
                        v => panic!("{v:?}"),
                    };
                    return Ok(V::D(d(a).powf(d(b))));
                }
            }
            lang::binary(op, a, b)
        }
        X::Call(name, args) => {
            let mut values = vec![];
            for a in args {
                let v = eval(a, vars, seen)?;
                values.push(if *name == "h(" { v } else { lang::coerce(v, T::Int)? });
            }
            Ok(match (*name, values.as_slice()) {
                ("f(" | "h(", [v]) => {
                    seen.push(v.datum());
                    v.clone()
                }
                ("ar(", [V::I(k)]) => {
                    if !(0..4).contains(k) {
                        return Err(if *k < 0 { format!("Subscript {k} cannot be negative") } else { format!("Subscript {k} exceeds limit of 4") });
                    }
                    V::I(k * 7 - 2)
                }
                ("g(", [V::I(a), V::I(b)]) => {
                    let v = lang::binary("-", V::I(*a), V::I(*b))?;
                    seen.push(v.datum());
                    v
                }
                _ => panic!("{name}"),
            })
        }
    }
}

fn operand(n: &mut impl Nd, mix: usize) -> W {
    match n.below(if mix == 0 { 4 } else { 8 }) {
        0 => W::Var(n.below(2)),
        1..=3 => W::Lit(V::I(n.below(9) as i32)),
        4 => W::Lit(V::B(n.bool())),
        5 => W::Var(2 + n.below(2)),
        6 if mix > 1 => W::Lit(V::T(["", "a", "b"][n.below(3)].to_owned())),
        6 => W::Lit(V::B(n.bool())),
        7 if mix > 1 => W::Var(4),
        _ => W::Lit(V::D(n.below(20) as f64 / 4.0)),
    }
}

/// Words that make a valid expression, of any type.
fn phrase(n: &mut impl Nd, size: usize, mix: usize, out: &mut Vec<W>) {
    for k in 0..=size {
        if k > 0 {
            out.push(W::Op(BINARY[if mix == 0 { n.below(8) } else { n.below(17) }].0));
        }
        while n.below(5) == 0 {
            out.push(if n.bool() { W::Not } else { W::Op("-") });
        }
        match n.below(7) {
            0 if size > 0 => {
                out.push(W::Open);
                let less = n.below(size + 1);
                phrase(n, less.min(size - 1), mix, out);
                out.push(W::Close);
            }
            1 if size > 0 => {
                let name = ["f(", "ar(", "g(", "h("][n.below(if mix == 0 { 3 } else { 4 })];
                out.push(W::Call(name));
                let less = n.below(size);
                phrase(n, less, mix, out);
                if name == "g(" {
                    out.push(W::Comma);
                    let less = n.below(size);
                phrase(n, less, mix, out);
                }
                out.push(W::Close);
            }
            _ => out.push(operand(n, mix)),
        }
    }
}

fn show(n: &mut impl Nd, words: &[W]) -> String {
    let mut out = String::new();
    for w in words {
        let text = match w {
            W::Lit(V::B(b)) => if *b { "TRUE" } else { "FALSE" }.to_owned(),
            W::Lit(V::D(d)) => format!("{d:?}"),
            W::Lit(V::I(i)) => i.to_string(),
            W::Lit(V::T(t)) => format!("\"{t}\""),
            W::Var(i) => VARS[*i].0.to_owned(),
            W::Op(op) => (*op).to_owned(),
            W::Not => "NOT".to_owned(),
            W::Open => "(".to_owned(),
            W::Close => ")".to_owned(),
            W::Call(name) => (*name).to_owned(),
            W::Comma => ",".to_owned(),
            W::Stray(s) => (*s).to_owned(),
        };
        let glue = |c: char| c.is_alphanumeric() || c == '.' || c == '"';
        let tight = match (out.chars().last(), text.chars().next()) {
            (Some(a), Some(b)) => !(glue(a) && glue(b)) && !("<>=".contains(a) && "<>=".contains(b)) && n.bool(),
            _ => true,
        };
        if !tight {
            out += " ";
        }
        out += &text;
    }
    out
}

fn start(n: &mut impl Nd) -> (String, Vec<V>) {
    let vars = vec![V::I(n.below(12) as i32 - 4), V::I(n.below(5) as i32), V::B(n.bool()), V::D(n.below(16) as f64 / 4.0 - 1.0), V::T("a".to_owned())];
    let mut out = PRELUDE.to_owned();
    for ((name, _), v) in VARS.iter().zip(&vars) {
        out += &match v {
            V::B(b) => format!("{name} = {}\n", if *b { "TRUE" } else { "FALSE" }),
            V::D(d) => format!("{name} = {}\n", double(*d)),
            V::I(i) => format!("{name} = {}\n", int(*i)),
            V::T(t) => format!("{name} = \"{t}\"\n"),
        };
    }
    (out, vars)
}

fn same(a: &ConstantDatum, b: &ConstantDatum) -> bool {
    match (a, b) {
        (ConstantDatum::Double(a), ConstantDatum::Double(b)) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
        (a, b) => a == b,
    }
}

/// Checks that `words` mean what the grammar says.
fn check(n: &mut impl Nd, words: &[W]) {
    let (prologue, vars) = start(n);
    let text = show(n, words);
    let tree = Grammar::whole(words);
    let kind = tree.as_ref().and_then(kind);
    let statement = match n.below(5) {
        1 if tree.is_some() && !text.trim_start().starts_with('(') => format!("PROBE {text}\n"),
        2 if tree.is_some() => format!("FOR k = 1 TO 1: r = {text}: PROBE r: NEXT\n"),
        3 if kind == Some(T::Bool) => format!("IF {text} THEN PROBE TRUE ELSE PROBE FALSE\n"),
        4 if tree.is_some() => format!("r = ({text})\nPROBE r\n"),
        _ => format!("r = {text}\nPROBE r\n"),
    };
    let program = prologue + &statement;
    let out = run(&program);
    let (tree, _) = match (tree, kind) {
        (Some(tree), Some(kind)) => (tree, kind),
        (tree, _) => {
            assert!(out.rejected, "{statement}{tree:?}\n{out:?}");
            return;
        }
    };
    let mut seen = vec![];
    let result = eval(&tree, &vars, &mut seen);
    assert!(!out.rejected, "{statement}{tree:?}\n{out:?}");
    match result {
        Ok(v) => {
            seen.push(v.datum());
            assert!(out.error.is_none(), "{statement}{tree:?}\n{out:?}");
        }
        Err(_) => assert!(out.error.is_some(), "{statement}{tree:?}\n{out:?}"),
    }
    assert!(seen.len() == out.seen.len() && seen.iter().zip(&out.seen).all(|(a, b)| same(a, b)), "{statement}{tree:?}\n{vars:?} {seen:?}\n{out:?}");
}

/// Valid sequences of operands and operators.
fn valid(n: &mut impl Nd) {
    let mix = n.below(3);
    let mut words = vec![];
    let size = n.below(if mix == 0 { 8 } else { 5 });
    phrase(n, size, mix, &mut words);
    n.assume(words.len() < 60);
    check(n, &words);
}

/// Expressions of booleans and relations that have a type.
fn typed(n: &mut impl Nd) {
    let mut words = vec![];
    let size = 1 + n.below(4);
    for k in 0..size {
        if k > 0 {
            words.push(W::Op(["AND", "OR", "XOR"][n.below(3)]));
        }
        while n.below(5) == 0 {
            words.push(W::Not);
        }
        if n.below(3) == 0 {
            words.push(match n.below(3) {
                0 => W::Lit(V::B(n.bool())),
                _ => W::Var(2),
            });
        } else {
            let open = n.bool();
            if open {
                words.push(W::Open);
            }
            let s = n.below(4);
            phrase(n, s, 0, &mut words);
            words.push(W::Op(BINARY[8 + n.below(6)].0));
            let s = n.below(4);
            phrase(n, s, 0, &mut words);
            if open {
                words.push(W::Close);
            }
        }
    }
    n.assume(words.len() < 60);
    check(n, &words);
}

/// Sequences with something missing, repeated or out of place.
fn broken(n: &mut impl Nd) {
    let mut words = vec![];
    let size = n.below(5);
    let mix = n.below(3);
    phrase(n, size, mix, &mut words);
    n.assume(words.len() < 40);
    for _ in 0..1 + n.below(2) {
        let i = n.below(words.len() + 1);
        match n.below(4) {
            0 if i < words.len() => {
                words.remove(i);
            }
            1 if i + 1 < words.len() => words.swap(i, i + 1),
            _ => {
                let w = match n.below(9) {
                    0 => W::Open,
                    1 => W::Close,
                    2 => W::Not,
                    3 => W::Op("-"),
                    4 => W::Comma,
                    5 => W::Stray(["THEN", "TO", ";", "AS", "DIM", "STEP", "END", "IS", "@l", "LOOP"][n.below(10)]),
                    6 => W::Call(["f(", "ar("][n.below(2)]),
                    7 => W::Op(BINARY[n.below(17)].0),
                    _ => operand(n, 1),
                };
                words.insert(i, w);
            }
        }
    }
    check(n, &words);
}

crate::suite! { "P15";
    bounded valid * 60000;
    bounded typed * 40000;
    bounded broken * 60000;
}
