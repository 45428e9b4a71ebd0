//! A small structured language with its own direct interpreter: the reference for whole programs.

use crate::basic::{double, int};
use crate::nd::Nd;
use endbasic_core::ConstantDatum;

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum T {
    Bool,
    Double,
    Int,
    Text,
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    B(bool),
    D(f64),
    I(i32),
    T(String),
}

impl V {
    pub fn datum(&self) -> ConstantDatum {
        match self {
            V::B(b) => ConstantDatum::Boolean(*b),
            V::D(d) => ConstantDatum::Double(*d),
            V::I(i) => ConstantDatum::Integer(*i),
            V::T(t) => ConstantDatum::Text(t.clone()),
        }
    }
}

#[derive(Clone, Debug)]
pub enum E {
    Lit(V),
    Var(usize),
    Not(Box<E>),
    Neg(Box<E>),
    Bin(&'static str, Box<E>, Box<E>),
}

/// Names and types of the variables, all of which programs define up front.
pub const VARS: [(&str, T); 14] = [
    ("i0", T::Int),
    ("i1", T::Int),
    ("i2", T::Int),
    ("i3", T::Int),
    ("d0", T::Double),
    ("d1", T::Double),
    ("b0", T::Bool),
    ("b1", T::Bool),
    ("t0", T::Text),
    ("t1", T::Text),
    // Loop counters, one per nesting level, which no other statement modifies.
    ("c0", T::Int),
    ("c1", T::Int),
    ("c2", T::Int),
    ("c3", T::Int),
];
pub const COUNTERS: usize = 10;
pub const MAX_NEST: usize = 4;

pub fn vars_of(t: T) -> Vec<usize> {
    (0..VARS.len()).filter(|i| VARS[*i].1 == t).collect()
}

pub fn gen_expr(n: &mut impl Nd, t: T, depth: usize) -> E {
    if depth == 0 || n.below(4) == 0 {
        if n.below(3) > 0 {
            let vars = vars_of(t);
            return E::Var(vars[n.below(vars.len())]);
        }
        return E::Lit(match t {
            T::Bool => V::B(n.bool()),
            T::Double => V::D(n.below(64) as f64 / 8.0 - 2.0),
            T::Int => V::I(n.below(20) as i32 - 4),
            T::Text => V::T(["", "a", "b", "ab", "Zß"][n.below(5)].to_owned()),
        });
    }
    let bin = |n: &mut _, op, a, b| {
        let (x, y) = (gen_expr(n, a, depth - 1), gen_expr(n, b, depth - 1));
        E::Bin(op, Box::from(x), Box::from(y))
    };
    match t {
        T::Bool => match n.below(6) {
            0 => {
                let op = ["AND", "OR", "XOR"][n.below(3)];
                bin(n, op, T::Bool, T::Bool)
            }
            1 => E::Not(Box::from(gen_expr(n, T::Bool, depth - 1))),
            2 => {
                let op = ["=", "<>"][n.below(2)];
                bin(n, op, T::Bool, T::Bool)
            }
            k => {
                let op = ["=", "<>", "<", "<=", ">", ">="][n.below(6)];
                let (a, b) = match k {
                    3 => (T::Int, T::Int),
                    4 => [(T::Double, T::Double), (T::Int, T::Double), (T::Double, T::Int)][n.below(3)],
                    _ => (T::Text, T::Text),
                };
                bin(n, op, a, b)
            }
        },
        T::Double => {
            if n.below(6) == 0 {
                return E::Neg(Box::from(gen_expr(n, T::Double, depth - 1)));
            }
            let op = ["+", "-", "*"][n.below(3)];
            let (a, b) = [(T::Double, T::Double), (T::Int, T::Double), (T::Double, T::Int)][n.below(3)];
            bin(n, op, a, b)
        }
        T::Int => match n.below(8) {
            0 => E::Neg(Box::from(gen_expr(n, T::Int, depth - 1))),
            1 => E::Not(Box::from(gen_expr(n, T::Int, depth - 1))),
            _ => {
                let op = ["+", "-", "*", "MOD", "/", "AND", "OR", "XOR"][n.below(8)];
                bin(n, op, T::Int, T::Int)
            }
        },
        T::Text => bin(n, "+", T::Text, T::Text),
    }
}

pub fn show(e: &E) -> String {
    match e {
        E::Lit(V::B(b)) => if *b { "TRUE" } else { "FALSE" }.to_owned(),
        E::Lit(V::D(d)) => double(*d),
        E::Lit(V::I(i)) => int(*i),
        E::Lit(V::T(t)) => format!("\"{t}\""),
        E::Var(i) => VARS[*i].0.to_owned(),
        E::Not(a) => format!("(NOT {})", show(a)),
        E::Neg(a) => format!("(-{})", show(a)),
        E::Bin(op, a, b) => format!("({} {op} {})", show(a), show(b)),
    }
}

pub fn unary_not(v: V) -> V {
    match v {
        V::B(b) => V::B(!b),
        V::I(i) => V::I(-1 - i),
        v => panic!("{v:?}"),
    }
}

pub fn unary_neg(v: V) -> Result<V, String> {
    match v {
        V::D(d) => Ok(V::D(-d)),
        V::I(i) => i32::try_from(-i64::from(i)).map(V::I).map_err(|_| "Integer underflow".to_owned()),
        v => panic!("{v:?}"),
    }
}

pub fn binary(op: &str, a: V, b: V) -> Result<V, String> {
    fn fit(i: i64, over: &str) -> Result<V, String> {
        i32::try_from(i).map(V::I).map_err(|_| over.to_owned())
    }
    fn rel(op: &str, o: Option<std::cmp::Ordering>) -> V {
        use std::cmp::Ordering::*;
        V::B(match op {
            "=" => o == Some(Equal),
            "<>" => o != Some(Equal),
            "<" => o == Some(Less),
            "<=" => matches!(o, Some(Less | Equal)),
            ">" => o == Some(Greater),
            ">=" => matches!(o, Some(Greater | Equal)),
            op => panic!("{op}"),
        })
    }
    let (a, b) = match (a, b) {
        (V::I(a), V::D(b)) => (V::D(a.into()), V::D(b)),
        (V::D(a), V::I(b)) => (V::D(a), V::D(b.into())),
        other => other,
    };
    match (a, b) {
        (V::B(a), V::B(b)) => Ok(match op {
            "AND" => V::B(a && b),
            "OR" => V::B(a || b),
            "XOR" => V::B(a != b),
            op => rel(op, Some(a.cmp(&b))),
        }),
        (V::D(a), V::D(b)) => Ok(match op {
            "+" => V::D(a + b),
            "-" => V::D(a - b),
            "*" => V::D(a * b),
            "/" => V::D(a / b),
            "MOD" => V::D(a % b),
            op => rel(op, a.partial_cmp(&b)),
        }),
        (V::I(x), V::I(y)) => {
            let (a, b) = (i64::from(x), i64::from(y));
            match op {
                "+" => fit(a + b, "Integer overflow"),
                "-" => fit(a - b, "Integer underflow"),
                "*" => fit(a * b, "Integer overflow"),
                "/" if b == 0 => Err("Division by zero".to_owned()),
                "/" => fit(a / b, "Integer underflow"),
                "MOD" if b == 0 => Err("Modulo by zero".to_owned()),
                "MOD" if b == -1 && x == i32::MIN => Err("Integer underflow".to_owned()),
                "MOD" => fit(a % b, ""),
                "^" if b < 0 => Err(format!("Exponent {b} must be positive")),
                "^" => {
                    let mut r = 1i64;
                    for _ in 0..b {
                        r *= a;
                        if i32::try_from(r).is_err() {
                            return Err("Integer overflow".to_owned());
                        }
                        if a == 0 || a == 1 {
                            break;
                        }
                        if a == -1 && b > 2 {
                            r = if b % 2 == 0 { 1 } else { -1 };
                            break;
                        }
                    }
                    Ok(V::I(r as i32))
                }
                "AND" => Ok(V::I(x & y)),
                "OR" => Ok(V::I(x | y)),
                "XOR" => Ok(V::I(x ^ y)),
                "<<" if b < 0 => Err(format!("Number of bits to << ({b}) must be positive")),
                ">>" if b < 0 => Err(format!("Number of bits to >> ({b}) must be positive")),
                "<<" => Ok(V::I(if b > 31 { 0 } else { x << b })),
                ">>" => Ok(V::I(if b > 31 { x >> 31 } else { x >> b })),
                op => Ok(rel(op, Some(a.cmp(&b)))),
            }
        }
        (V::T(a), V::T(b)) => Ok(match op {
            "+" => V::T(a + &b),
            op => {
                let (x, y): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
                rel(op, Some(x.cmp(&y)))
            }
        }),
        (a, b) => panic!("{a:?} {op} {b:?}"),
    }
}

pub fn eval(e: &E, vars: &[V]) -> Result<V, String> {
    match e {
        E::Lit(v) => Ok(v.clone()),
        E::Var(i) => Ok(vars[*i].clone()),
        E::Not(a) => Ok(unary_not(eval(a, vars)?)),
        E::Neg(a) => unary_neg(eval(a, vars)?),
        E::Bin(op, a, b) => {
            let a = eval(a, vars)?;
            let b = eval(b, vars)?;
            binary(op, a, b)
        }
    }
}

/// Converts `v` to be stored in a variable of type `t`.
pub fn coerce(v: V, t: T) -> Result<V, String> {
    match (v, t) {
        (V::I(i), T::Double) => Ok(V::D(i.into())),
        (V::D(d), T::Int) => {
            let r = d.round();
            if (-2147483648.0..=2147483647.0).contains(&r) {
                Ok(V::I(r as i32))
            } else {
                Err(format!("Cannot cast {r} to integer due to overflow"))
            }
        }
        (v, _) => Ok(v),
    }
}

/// Whether evaluating `e` can never fail and never leaves small values.
fn safe(e: &E) -> bool {
    match e {
        E::Lit(_) | E::Var(_) => true,
        E::Not(a) => safe(a),
        E::Neg(a) => safe(a),
        E::Bin(op, a, b) => !matches!(*op, "/" | "MOD" | "*") && safe(a) && safe(b),
    }
}

/// A guard of a `CASE`.
#[derive(Clone, Debug)]
pub enum G {
    Is(&'static str, E),
    Eq(E),
    To(E, E),
}

#[derive(Clone, Debug)]
pub enum S {
    Set(usize, E),
    Probe(E),
    If(Vec<(E, Vec<S>)>, Option<Vec<S>>),
    /// Single-line form.
    IfLine(E, Box<S>, Option<Box<S>>),
    /// Nesting level, start, end, step and body.
    For(usize, i32, E, Option<i32>, Vec<S>),
    /// With a fractional iterator.
    ForDouble(f64, f64, f64, Vec<S>),
    /// Nesting level, number of iterations and body.
    While(usize, i32, Vec<S>),
    /// Kind of loop, nesting level, number of iterations and body.
    Do(usize, usize, i32, Vec<S>),
    Select(E, Vec<(Vec<G>, Vec<S>)>, Option<Vec<S>>),
    ExitFor,
    ExitDo,
    /// Jumps over statements, with the number of the label.
    Skip(usize, Vec<S>),
    /// Loop out of jumps: nesting level, label, iterations and body.
    Back(usize, usize, i32, Vec<S>),
    End(Option<E>),
}

pub struct Gen {
    labels: usize,
    left: usize,
    /// Whether guards may fail; otherwise, only simple statements do.
    pub guards_fail: bool,
    pub ends: bool,
    /// Whether assignments may fail.
    pub sets_fail: bool,
}

impl Gen {
    pub fn new(size: usize) -> Self {
        Self { labels: 0, left: size, guards_fail: true, ends: false, sets_fail: true }
    }

    fn guard(&self, n: &mut impl Nd, t: T, depth: usize) -> E {
        loop {
            let e = gen_expr(n, t, depth);
            if self.guards_fail || safe(&e) {
                return e;
            }
            if depth == 0 {
                return E::Lit(V::B(true));
            }
        }
    }

    fn simple(&mut self, n: &mut impl Nd) -> S {
        if n.below(3) == 0 {
            let t = [T::Int, T::Double, T::Bool, T::Text][n.below(4)];
            return S::Probe(gen_expr(n, t, 2));
        }
        let v = n.below(COUNTERS);
        let t = match VARS[v].1 {
            T::Int if n.below(5) == 0 => T::Double,
            T::Double if n.below(3) == 0 => T::Int,
            t => t,
        };
        let mut e = gen_expr(n, t, 2);
        while !self.sets_fail && !(safe(&e) && t == VARS[v].1) {
            e = gen_expr(n, VARS[v].1, 1);
            if safe(&e) {
                break;
            }
        }
        match VARS[v].1 {
            // Keeps values small so that most programs get somewhere.
            T::Int if n.below(8) > 0 => S::Set(v, E::Bin("MOD", Box::from(e), Box::from(E::Lit(V::I(1000))))),
            T::Text => S::Set(v, e),
            _ => S::Set(v, e),
        }
    }

    /// Generates a block nested in `nest` loops, `in_for` and `in_do` telling the kinds.
    pub fn block(&mut self, n: &mut impl Nd, nest: usize, in_for: bool, in_do: bool) -> Vec<S> {
        let mut b = vec![];
        for _ in 0..1 + n.below(4) {
            if self.left == 0 {
                break;
            }
            self.left -= 1;
            b.push(self.stmt(n, nest, in_for, in_do));
        }
        if b.is_empty() {
            b.push(S::Probe(E::Var(n.below(COUNTERS))));
        }
        b
    }

    fn stmt(&mut self, n: &mut impl Nd, nest: usize, in_for: bool, in_do: bool) -> S {
        if self.left == 0 || nest >= MAX_NEST {
            return self.simple(n);
        }
        let times = n.below(4) as i32;
        match n.below(18) {
            0 | 1 => {
                let mut branches = vec![];
                for _ in 0..1 + n.below(3) {
                    let g = self.guard(n, T::Bool, 2);
                    branches.push((g, self.block(n, nest, in_for, in_do)));
                }
                let other = if n.bool() { Some(self.block(n, nest, in_for, in_do)) } else { None };
                S::If(branches, other)
            }
            2 => {
                let g = self.guard(n, T::Bool, 2);
                let then = Box::from(self.simple(n));
                let other = if n.bool() { Some(Box::from(self.simple(n))) } else { None };
                S::IfLine(g, then, other)
            }
            3 | 4 => {
                let a = n.below(10) as i32 - 5;
                let step = [None, Some(1), Some(2), Some(3), Some(-1), Some(-2)][n.below(6)];
                let span = n.below(7) as i32 - 1;
                let end = if step.unwrap_or(1) > 0 { a + span } else { a - span };
                S::For(nest, a, E::Lit(V::I(end)), step, self.block(n, nest + 1, true, in_do))
            }
            5 => {
                let a = n.below(8) as f64 / 4.0;
                let step = [0.25, 0.5, -0.25, 0.75][n.below(4)];
                let end = a + step * (n.below(4) as f64) + if n.bool() { step / 2.0 } else { 0.0 };
                // The body neither uses nor modifies the iterator.
                S::ForDouble(a, end, step, vec![self.simple(n)])
            }
            6 | 7 => S::While(nest, times, self.block(n, nest + 1, in_for, in_do)),
            8 | 9 | 10 => S::Do(n.below(5), nest, times, self.block(n, nest + 1, in_for, true)),
            11 | 12 => {
                let t = [T::Int, T::Text, T::Double, T::Int][n.below(4)];
                let e = self.guard(n, t, 1);
                let mut cases = vec![];
                for _ in 0..n.below(4) {
                    let mut guards = vec![];
                    for _ in 0..1 + n.below(3) {
                        guards.push(match n.below(4) {
                            0 => G::Is(["=", "<>", "<", "<=", ">", ">="][n.below(6)], self.guard(n, t, 1)),
                            1 => G::To(self.guard(n, t, 1), self.guard(n, t, 1)),
                            _ => G::Eq(self.guard(n, t, 1)),
                        });
                    }
                    cases.push((guards, self.block(n, nest, in_for, in_do)));
                }
                let other = if n.bool() || cases.is_empty() {
                    Some(self.block(n, nest, in_for, in_do))
                } else {
                    None
                };
                S::Select(e, cases, other)
            }
            13 if in_for => S::If(vec![(self.guard(n, T::Bool, 1), vec![S::ExitFor])], None),
            14 if in_do => S::If(vec![(self.guard(n, T::Bool, 1), vec![S::ExitDo])], None),
            15 => {
                self.labels += 1;
                let l = self.labels;
                S::Skip(l, self.block(n, nest, in_for, in_do))
            }
            16 => {
                self.labels += 1;
                let l = self.labels;
                S::Back(nest, l, times, self.block(n, nest + 1, in_for, in_do))
            }
            17 if self.ends => {
                let code = if n.bool() { Some(E::Lit(V::I(n.below(128) as i32))) } else { None };
                S::If(vec![(self.guard(n, T::Bool, 1), vec![S::End(code)])], None)
            }
            _ => self.simple(n),
        }
    }
}

fn print_block(b: &[S], out: &mut String) {
    for s in b {
        print_stmt(s, out);
    }
}

fn simple_text(s: &S) -> String {
    match s {
        S::Set(v, e) => format!("{} = {}", VARS[*v].0, show(e)),
        S::Probe(e) => format!("PROBE {}", show(e)),
        s => panic!("{s:?}"),
    }
}

fn print_stmt(s: &S, out: &mut String) {
    match s {
        S::Set(..) | S::Probe(..) => *out += &format!("{}\n", simple_text(s)),
        S::If(branches, other) => {
            for (i, (g, b)) in branches.iter().enumerate() {
                *out += &format!("{} {} THEN\n", if i == 0 { "IF" } else { "ELSEIF" }, show(g));
                print_block(b, out);
            }
            if let Some(b) = other {
                *out += "ELSE\n";
                print_block(b, out);
            }
            *out += "END IF\n";
        }
        S::IfLine(g, then, other) => {
            *out += &format!("IF {} THEN {}", show(g), simple_text(then));
            if let Some(s) = other {
                *out += &format!(" ELSE {}", simple_text(s));
            }
            *out += "\n";
        }
        S::For(nest, a, end, step, b) => {
            *out += &format!("FOR c{nest} = {a} TO {}", show(end).trim_matches(|c| c == '(' || c == ')'));
            if let Some(step) = step {
                *out += &format!(" STEP {step}");
            }
            *out += "\n";
            print_block(b, out);
            *out += "NEXT\n";
        }
        S::ForDouble(a, end, step, b) => {
            *out += &format!("FOR fd# = {a:?} TO {end:?} STEP {step:?}\nPROBE fd\n");
            print_block(b, out);
            *out += "NEXT\nPROBE fd\n";
        }
        S::While(nest, times, b) => {
            *out += &format!("c{nest} = 0\nWHILE c{nest} < {times}\nc{nest} = c{nest} + 1\n");
            print_block(b, out);
            *out += "WEND\n";
        }
        S::Do(kind, nest, times, b) => {
            let w = format!("WHILE c{nest} < {times}");
            let u = format!("UNTIL c{nest} >= {times}");
            let (pre, post) = match kind {
                0 => (format!("DO {w}"), "LOOP".to_owned()),
                1 => (format!("DO {u}"), "LOOP".to_owned()),
                2 => ("DO".to_owned(), format!("LOOP {w}")),
                3 => ("DO".to_owned(), format!("LOOP {u}")),
                _ => ("DO".to_owned(), "LOOP".to_owned()),
            };
            *out += &format!("c{nest} = 0\n{pre}\nc{nest} = c{nest} + 1\n");
            print_block(b, out);
            if *kind > 3 {
                *out += &format!("IF c{nest} >= {times} THEN\nEXIT DO\nEND IF\n");
            }
            *out += &format!("{post}\n");
        }
        S::Select(e, cases, other) => {
            *out += &format!("SELECT CASE {}\n", show(e));
            for (guards, b) in cases {
                let texts: Vec<String> = guards
                    .iter()
                    .map(|g| match g {
                        G::Is(op, e) => format!("IS {op} {}", show(e)),
                        G::Eq(e) => show(e),
                        G::To(a, b) => format!("{} TO {}", show(a), show(b)),
                    })
                    .collect();
                *out += &format!("CASE {}\n", texts.join(", "));
                print_block(b, out);
            }
            if let Some(b) = other {
                *out += "CASE ELSE\n";
                print_block(b, out);
            }
            *out += "END SELECT\n";
        }
        S::ExitFor => *out += "EXIT FOR\n",
        S::ExitDo => *out += "EXIT DO\n",
        S::Skip(l, b) => {
            *out += &format!("GOTO @l{l}\n");
            print_block(b, out);
            *out += &format!("@l{l}\n");
        }
        S::Back(nest, l, times, b) => {
            *out += &format!("c{nest} = 0\n@l{l}\nc{nest} = c{nest} + 1\n");
            print_block(b, out);
            *out += &format!("IF c{nest} < {times} THEN GOTO @l{l}\n");
        }
        S::End(None) => *out += "END\n",
        S::End(Some(e)) => *out += &format!("END {}\n", show(e)),
    }
}

pub enum Flow {
    Next,
    ExitFor,
    ExitDo,
    End(Option<i32>),
    Error(String),
    /// Too many steps to be worth running.
    Long,
}

/// Interpreter.
pub struct Run {
    pub vars: Vec<V>,
    pub seen: Vec<V>,
    steps: usize,
    /// Whether failed statements are skipped.
    pub resume: bool,
    pub last_error: Option<String>,
    /// All states between statements: number of values seen and variables.
    pub trace: Option<Vec<(usize, Vec<V>)>>,
}

impl Run {
    pub fn new() -> Self {
        let vars = VARS
            .iter()
            .map(|(_, t)| match t {
                T::Bool => V::B(false),
                T::Double => V::D(0.0),
                T::Int => V::I(0),
                T::Text => V::T(String::new()),
            })
            .collect();
        Self { vars, seen: vec![], steps: 0, resume: false, last_error: None, trace: None }
    }

    /// Records the current state.
    pub fn checkpoint(&mut self) {
        let state = (self.seen.len(), self.vars.clone());
        if let Some(trace) = &mut self.trace {
            trace.push(state);
        }
    }

    pub fn block(&mut self, b: &[S]) -> Flow {
        for s in b {
            self.checkpoint();
            self.steps += 1;
            if self.steps > 3000 || self.vars.iter().any(|v| matches!(v, V::T(t) if t.len() > 200)) {
                return Flow::Long;
            }
            match self.stmt(s) {
                Ok(Flow::Next) => {}
                Ok(f) => return f,
                Err(e) => {
                    self.last_error = Some(e.clone());
                    if !self.resume {
                        return Flow::Error(e);
                    }
                }
            }
        }
        Flow::Next
    }

    fn test(&self, e: &E) -> Result<bool, String> {
        match eval(e, &self.vars)? {
            V::B(b) => Ok(b),
            v => panic!("{v:?}"),
        }
    }

    fn set_counter(&mut self, nest: usize, v: i32) {
        self.vars[COUNTERS + nest] = V::I(v);
    }

    fn counter(&self, nest: usize) -> i32 {
        match self.vars[COUNTERS + nest] {
            V::I(i) => i,
            _ => panic!(),
        }
    }

    fn simple(&mut self, s: &S) -> Result<Flow, String> {
        match s {
            S::Set(v, e) => {
                self.vars[*v] = coerce(eval(e, &self.vars)?, VARS[*v].1)?;
            }
            S::Probe(e) => {
                let v = eval(e, &self.vars)?;
                self.seen.push(v);
            }
            s => panic!("{s:?}"),
        }
        Ok(Flow::Next)
    }

    fn stmt(&mut self, s: &S) -> Result<Flow, String> {
        match s {
            S::Set(..) | S::Probe(..) => return self.simple(s),
            S::If(branches, other) => {
                for (g, b) in branches {
                    if self.test(g)? {
                        return Ok(self.block(b));
                    }
                }
                if let Some(b) = other {
                    return Ok(self.block(b));
                }
            }
            S::IfLine(g, then, other) => {
                if self.test(g)? {
                    return self.simple(then);
                } else if let Some(s) = other {
                    return self.simple(s);
                }
            }
            S::For(nest, a, end, step, b) => {
                let step = step.unwrap_or(1);
                let V::I(end) = eval(end, &self.vars)? else { panic!() };
                self.set_counter(*nest, *a);
                loop {
                    let c = self.counter(*nest);
                    if (step > 0 && c > end) || (step < 0 && c < end) {
                        break;
                    }
                    match self.block(b) {
                        Flow::Next => {}
                        Flow::ExitFor => break,
                        f => return Ok(f),
                    }
                    self.set_counter(*nest, c + step);
                }
            }
            S::ForDouble(a, end, step, b) => {
                let mut d = *a;
                while (*step > 0.0 && d <= *end) || (*step < 0.0 && d >= *end) {
                    self.checkpoint();
                    self.seen.push(V::D(d));
                    match self.block(b) {
                        Flow::Next => {}
                        f => return Ok(f),
                    }
                    d += step;
                }
                self.checkpoint();
                self.seen.push(V::D(d));
            }
            S::While(nest, times, b) => {
                self.set_counter(*nest, 0);
                while self.counter(*nest) < *times {
                    self.set_counter(*nest, self.counter(*nest) + 1);
                    match self.block(b) {
                        Flow::Next => {}
                        f => return Ok(f),
                    }
                }
            }
            S::Do(kind, nest, times, b) => {
                self.set_counter(*nest, 0);
                loop {
                    if *kind < 2 && self.counter(*nest) >= *times {
                        break;
                    }
                    self.set_counter(*nest, self.counter(*nest) + 1);
                    match self.block(b) {
                        Flow::Next => {}
                        Flow::ExitDo => break,
                        f => return Ok(f),
                    }
                    if *kind >= 2 && self.counter(*nest) >= *times {
                        break;
                    }
                }
            }
            S::Select(e, cases, other) => {
                let v = eval(e, &self.vars)?;
                let is = |a: &V, op: &str, b: V| binary(op, a.clone(), b) == Ok(V::B(true));
                for (guards, b) in cases {
                    for g in guards {
                        let hit = match g {
                            G::Is(op, e) => is(&v, op, eval(e, &self.vars)?),
                            G::Eq(e) => is(&v, "=", eval(e, &self.vars)?),
                            G::To(x, y) => {
                                let x = is(&v, ">=", eval(x, &self.vars)?);
                                let y = is(&v, "<=", eval(y, &self.vars)?);
                                x && y
                            }
                        };
                        if hit {
                            return Ok(self.block(b));
                        }
                    }
                }
                if let Some(b) = other {
                    return Ok(self.block(b));
                }
            }
            S::ExitFor => return Ok(Flow::ExitFor),
            S::ExitDo => return Ok(Flow::ExitDo),
            S::Skip(..) => {}
            S::Back(nest, _, times, b) => {
                self.set_counter(*nest, 0);
                loop {
                    self.set_counter(*nest, self.counter(*nest) + 1);
                    match self.block(b) {
                        Flow::Next => {}
                        f => return Ok(f),
                    }
                    if self.counter(*nest) >= *times {
                        break;
                    }
                }
            }
            S::End(None) => return Ok(Flow::End(None)),
            S::End(Some(e)) => {
                let V::I(code) = eval(e, &self.vars)? else { panic!() };
                return Ok(Flow::End(Some(code)));
            }
        }
        Ok(Flow::Next)
    }
}

impl Default for Run {
    fn default() -> Self {
        Self::new()
    }
}

/// Definitions of all variables.
pub fn prologue(n: &mut impl Nd) -> String {
    prologue_with(n, false)
}

/// Definitions of all variables, which are `shared` or of any kind.
pub fn prologue_with(n: &mut impl Nd, shared: bool) -> String {
    let mut out = String::new();
    for (name, t) in VARS {
        out += &match (t, if shared { 1 } else { n.below(3) }) {
            (T::Bool, 0) => format!("{name} = FALSE\n"),
            (T::Double, 0) => format!("{name} = 0.0\n"),
            (T::Int, 0) => format!("{name} = 0\n"),
            (T::Text, 0) => format!("{name} = \"\"\n"),
            (T::Bool, k) => format!("DIM {}{name} AS BOOLEAN\n", if k == 1 { "SHARED " } else { "" }),
            (T::Double, k) => format!("DIM {}{name} AS DOUBLE\n", if k == 1 { "SHARED " } else { "" }),
            (T::Int, k) => format!("DIM {}{name} AS INTEGER\n", if k == 1 { "SHARED " } else { "" }),
            (T::Text, k) => format!("DIM {}{name} AS STRING\n", if k == 1 { "SHARED " } else { "" }),
        };
    }
    out + "DIM fd AS DOUBLE\n"
}

pub fn print(b: &[S]) -> String {
    let mut out = String::new();
    print_block(b, &mut out);
    out
}
