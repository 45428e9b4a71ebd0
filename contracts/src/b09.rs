//! P09 on whole programs.

use crate::basic::*;
use crate::nd::Nd;
use endbasic_core::ConstantDatum;

const PIECES: [&str; 9] = ["", "a", "bc", " ", "ñ", "日本", "0", "zZz", "\u{1f600}"];

/// Places where a string may live.
#[derive(Clone)]
struct State {
    /// `v0` to `v4`, of which the last two are shared.
    vars: Vec<String>,
    /// `a(3)`.
    local: Vec<String>,
    /// `s(2, 2)`, shared.
    shared: Vec<String>,
}

fn subscripts(i: usize) -> String {
    format!("{}, {}", i % 2, i / 2)
}

impl State {
    /// A random string expression and its value; `globals` if only shared variables are visible.
    fn expr(&self, n: &mut impl Nd, depth: usize, globals: bool) -> (String, String) {
        match n.below(if depth == 0 { 4 } else { 9 }) {
            0 => {
                let p = PIECES[n.below(PIECES.len())];
                (format!("\"{p}\""), p.to_owned())
            }
            1 if !globals => {
                let i = n.below(3);
                (format!("a({i})"), self.local[i].clone())
            }
            2 => {
                let i = n.below(4);
                (format!("s({})", subscripts(i)), self.shared[i].clone())
            }
            1 | 3 => {
                let i = if globals { 3 + n.below(2) } else { n.below(5) };
                (format!("v{i}"), self.vars[i].clone())
            }
            4 => {
                let (e, v) = self.expr(n, depth - 1, globals);
                (format!("twice({e})"), format!("{v}{v}"))
            }
            5 => {
                let (e, v) = self.expr(n, depth - 1, globals);
                let k = n.below(4);
                (format!("LEFT({e}, {k})"), v.chars().take(k).collect())
            }
            6 => {
                let ((e, v), (f, w)) = (self.expr(n, depth - 1, globals), self.expr(n, depth - 1, globals));
                (format!("pick({e}, {f})"), if v.chars().count() >= w.chars().count() { v } else { w })
            }
            _ => {
                let ((e, v), (f, w)) = (self.expr(n, depth - 1, globals), self.expr(n, depth - 1, globals));
                (format!("({e} + {f})"), v + &w)
            }
        }
    }

    fn all(&self) -> Vec<String> {
        let mut v = self.vars.clone();
        v.extend(self.local.iter().cloned());
        v.extend(self.shared.iter().cloned());
        v
    }

    fn too_long(&self) -> bool {
        self.all().iter().any(|s| s.len() > 2000)
    }
}

/// Histories of assignments of strings to variables and elements of arrays, also in callees.
fn history(n: &mut impl Nd) {
    let mut s = State { vars: vec![String::new(); 5], local: vec![String::new(); 3], shared: vec![String::new(); 4] };
    let mut text = "DIM SHARED v3 AS STRING\nDIM SHARED v4 AS STRING\nDIM SHARED s(2, 2) AS STRING\n".to_owned();
    text += "FUNCTION twice$(x$)\nx = x + x\ntwice = x\nEND FUNCTION\n";
    text += "FUNCTION pick$(x$, y$)\nIF LEN(x) >= LEN(y) THEN\npick = x\nx = \"\"\nELSE\npick = y\nEND IF\nEND FUNCTION\n";
    text += "SUB append(x$)\nv3 = v3 + x\nx = x + \"!\"\ns(1, 1) = x\nEND SUB\n";
    let in_sub = n.bool();
    text += if in_sub { "SUB main\n" } else { "" };
    text += "DIM v0 AS STRING\nDIM v1 AS STRING\nDIM v2 AS STRING\nDIM a(3) AS STRING\n";
    let mut expected: Vec<ConstantDatum> = vec![];
    for _ in 0..1 + n.below(20) {
        let (e, v) = s.expr(n, 2, false);
        match n.below(8) {
            0 | 1 => {
                let i = n.below(3);
                text += &format!("a({i}) = {e}\n");
                s.local[i] = v;
            }
            2 => {
                let i = n.below(4);
                text += &format!("s({}) = {e}\n", subscripts(i));
                s.shared[i] = v;
            }
            3 => {
                text += &format!("append {e}\n");
                s.vars[3] += &v;
                s.shared[3] = v + "!";
            }
            4 => {
                text += &format!("PROBE {e}\n");
                expected.push(v.as_str().into());
            }
            _ => {
                let i = n.below(5);
                text += &format!("v{i} = {e}\n");
                s.vars[i] = v;
            }
        }
        n.assume(!s.too_long());
    }
    for (i, v) in s.vars.iter().enumerate() {
        text += &format!("PROBE v{i}\n");
        expected.push(v.as_str().into());
    }
    for (i, v) in s.local.iter().enumerate() {
        text += &format!("PROBE a({i})\n");
        expected.push(v.as_str().into());
    }
    for (i, v) in s.shared.iter().enumerate() {
        text += &format!("PROBE s({})\n", subscripts(i));
        expected.push(v.as_str().into());
    }
    text += if in_sub { "END SUB\nmain\n" } else { "" };
    let out = run(&text);
    assert!(out.error.is_none(), "{text}\n{:?}", out.error);
    assert_eq!(expected, out.seen, "{text}");
}

/// Long strings built piece by piece, with a copy kept at every step.
fn growth(n: &mut impl Nd) {
    let steps = 1 + n.below(300);
    let piece = PIECES[1 + n.below(PIECES.len() - 1)];
    let front = n.bool();
    let text = format!(
        "DIM t AS STRING\nDIM k({steps}) AS STRING\nFOR i = 0 TO {}\nk(i) = t\nt = {}\nNEXT\nFOR i = 0 TO {}\nPROBE k(i)\nNEXT\nPROBE t\n",
        steps - 1,
        if front { format!("\"{piece}\" + t") } else { format!("t + \"{piece}\"") },
        steps - 1,
    );
    let out = run(&text);
    let expected: Vec<ConstantDatum> = (0..=steps).map(|i| piece.repeat(i).as_str().into()).collect();
    assert_eq!(expected, out.seen, "{text}\n{:?}", out.error);
}

/// Variables keep their strings across compilations of the same session.
fn sessions(n: &mut impl Nd) {
    let mut session = Session::new(100_000);
    let mut vars: Vec<Option<String>> = vec![None; 4];
    let mut log = String::new();
    for _ in 0..1 + n.below(8) {
        let mut text = String::new();
        let mut expected: Vec<ConstantDatum> = vec![];
        for _ in 0..1 + n.below(3) {
            let i = n.below(4);
            let j = n.below(4);
            let piece = PIECES[n.below(PIECES.len())];
            let (e, v) = match &vars[j] {
                Some(v) if n.bool() => (format!("w{j}$ + \"{piece}\""), format!("{v}{piece}")),
                _ => (format!("\"{piece}\""), piece.to_owned()),
            };
            text += &format!("w{i}$ = {e}\n");
            vars[i] = Some(v);
        }
        for (i, v) in vars.iter().enumerate() {
            if let Some(v) = v {
                text += &format!("PROBE w{i}$\n");
                expected.push(v.as_str().into());
            }
        }
        log += &text;
        log += "--\n";
        let out = session.run(&text);
        assert_eq!(expected, out.seen, "{log}{:?}", out.error);
    }
}

/// Listed finding: a string that refers to itself in its first assignment.
fn finding_self_reference(_: &mut impl Nd) {
    let out = run("s$ = s$ + \"a\"\nPROBE s$\n");
    assert_eq!(vec![ConstantDatum::from("a")], out.seen, "{out:?}");
}

crate::suite! { "P09";
    bounded history * 15000;
    bounded growth * 100;
    bounded sessions * 5000;
    finding finding_self_reference;
}
