//! P12 on whole programs and sessions.

use crate::basic::*;
use crate::nd::Nd;
use endbasic_core::ConstantDatum;

/// `END` terminates the program at once from anywhere, with the given exit code.
fn end_codes(n: &mut impl Nd) {
    let code = match n.below(4) {
        0 => [0, 1, 126, 127, 128, -1, 255, 256, i32::MAX, i32::MIN][n.below(10)],
        1 => n.i32(),
        _ => n.below(200) as i32 - 30,
    };
    // Literals out of range are rejected before running anything.
    let mut literal = false;
    let (text, code) = match n.below(5) {
        0 => ("END".to_owned(), 0),
        1 => {
            let k = n.below(128) as i32;
            (format!("END {k}.4"), k)
        }
        2 => (format!("k = {}\nEND k", int(code)), code),
        _ => {
            literal = true;
            (format!("END {}", int(code)), code)
        }
    };
    let wrapped = match n.below(7) {
        0 => text,
        1 => format!("FOR i = 1 TO 3\n{text}\nPROBE -2\nNEXT"),
        2 => format!("SUB f\nWHILE TRUE\n{text}\nPROBE -2\nWEND\nEND SUB\nf"),
        3 => format!("FUNCTION f%\n{text}\nf = 1\nEND FUNCTION\nx = f + f\nPROBE -2"),
        4 => format!("GOSUB @s\nPROBE -2\n@s\n{text}\nRETURN"),
        5 => format!("SELECT CASE 3\nCASE 3\n{text}\nPROBE -2\nEND SELECT"),
        _ => format!("IF TRUE THEN\n{text}\nPROBE -2\nEND IF"),
    };
    let p = format!("PROBE 1\n{wrapped}\nPROBE -3\n");
    let out = run(&p);
    if literal && out.rejected {
        assert!(!(0..=127).contains(&code), "{p}\n{out:?}");
        assert!(out.seen.is_empty(), "{p}");
        return;
    }
    assert_eq!(vec![1], out.ints(), "{p}");
    if (0..=127).contains(&code) {
        assert_eq!(Some(code), out.exit, "{p}");
        assert!(out.error.is_none(), "{p}");
    } else {
        assert!(out.message().ends_with(": Exit code must be in the 0..127 range"), "{p}\n{out:?}");
        assert_eq!(None, out.exit, "{p}");
    }
}

/// What a session is expected to know.
#[derive(Clone)]
struct Model {
    vars: Vec<(String, V)>,
    shared: Vec<(String, i32)>,
    functions: Vec<(String, i32)>,
    labels: usize,
}

#[derive(Clone, Debug, PartialEq)]
enum V {
    I(i32),
    T(String),
}

impl V {
    fn datum(&self) -> ConstantDatum {
        match self {
            V::I(i) => ConstantDatum::Integer(*i),
            V::T(t) => ConstantDatum::Text(t.clone()),
        }
    }
}

impl Model {
    /// Generates a valid statement, with its effects.  `Err` carries what happens before a failure.
    fn stmt(&mut self, n: &mut impl Nd, text: &mut String, seen: &mut Vec<ConstantDatum>, uid: &mut usize) {
        *uid += 1;
        match n.below(9) {
            0 | 1 => {
                let name = format!("v{}", n.below(6));
                let k = n.below(1000) as i32;
                *text += &format!("{name}% = {k}\n");
                self.vars.retain(|v| v.0 != name);
                self.vars.push((name, V::I(k)));
            }
            2 => {
                let name = format!("t{}", n.below(3));
                let k = format!("x{}", n.below(1000));
                *text += &format!("{name}$ = \"{k}\"\n");
                self.vars.retain(|v| v.0 != name);
                self.vars.push((name, V::T(k)));
            }
            3 => {
                let name = format!("s{uid}");
                *text += &format!("DIM SHARED {name} AS INTEGER\n{name} = {uid}\n");
                self.shared.push((name, *uid as i32));
            }
            4 => {
                let name = format!("f{uid}");
                *text += &format!("FUNCTION {name}%(p%)\nv0 = 9999\nl = p + {uid}\n{name} = l\nEND FUNCTION\n");
                self.functions.push((name, *uid as i32));
            }
            5 if !self.shared.is_empty() => {
                let k = n.below(self.shared.len());
                let (name, v) = &mut self.shared[k];
                *text += &format!("SUB u{uid}\n{name} = {name} + 3\nEND SUB\nu{uid}\n");
                *v += 3;
            }
            6 if !self.functions.is_empty() => {
                let (name, k) = &self.functions[n.below(self.functions.len())];
                *text += &format!("PROBE {name}(5)\n");
                seen.push(ConstantDatum::Integer(5 + k));
            }
            7 => {
                let times = n.below(5) as i32;
                *text += &format!("z{uid} = 0\nWHILE z{uid} < {times}\nz{uid} = z{uid} + 1\nWEND\n");
                self.vars.push((format!("z{uid}"), V::I(times)));
            }
            8 => {
                self.labels += 1;
                *text += &format!("GOSUB @q{uid}\nGOTO @r{uid}\n@q{uid}\nPROBE {uid}\nRETURN\n@r{uid}\n");
                seen.push(ConstantDatum::Integer(*uid as i32));
            }
            _ => {
                if let Some((name, v)) = self.vars.last() {
                    *text += &format!("PROBE {name}\n");
                    seen.push(v.datum());
                }
            }
        }
    }

    fn query(&self) -> (String, Vec<ConstantDatum>) {
        let mut text = String::new();
        let mut seen = vec![];
        for (name, v) in &self.vars {
            text += &format!("PROBE {name}\n");
            seen.push(v.datum());
        }
        for (name, v) in &self.shared {
            text += &format!("PROBE {name}\n");
            seen.push(ConstantDatum::Integer(*v));
        }
        for (name, k) in &self.functions {
            text += &format!("PROBE {name}(1)\n");
            seen.push(ConstantDatum::Integer(1 + k));
        }
        (text, seen)
    }
}

/// Programs that the compiler rejects.
const BAD: [&str; 14] = [
    "PROBE undefined_thing\n",
    "GOTO @nowhere\n",
    "GOSUB @nowhere\n",
    "IF TRUE THEN\nEND SELECT\n",
    "v0% = \"a\"\n",
    "t0$ = 3\n",
    "x = 1 +\n",
    "FUNCTION broken%\nPROBE 1\n",
    "SUB broken\nPROBE undefined_thing\nEND SUB\n",
    "FOR i = 1 TO \"a\"\nNEXT\n",
    "EXIT DO\n",
    "DIM w(3)\nDIM w(4)\n",
    "FUNCTION dup%\nEND FUNCTION\nFUNCTION dup%\nEND FUNCTION\n",
    "x = LEN(3)\n",
];

/// A sequence of programs entered one by one: each sees what the previous ones left, those that
/// are rejected leave nothing, and those that fail, end or are interrupted half-way leave
/// exactly what they did until then.
fn sessions(n: &mut impl Nd) {
    let mut m = Model { vars: vec![], shared: vec![], functions: vec![], labels: 0 };
    let mut session = Session::new(1_000_000);
    let mut log = String::new();
    let mut uid = 0;
    for _ in 0..1 + n.below(6) {
        let mut next = m.clone();
        let mut text = String::new();
        let mut seen = vec![];
        for _ in 0..n.below(4) {
            next.stmt(n, &mut text, &mut seen, &mut uid);
        }
        uid += 1;
        let kind = n.below(6);
        let mut broken = false;
        match kind {
            0 => {
                // Where the mistake is does not matter.
                let bad = BAD[n.below(BAD.len())];
                text = if n.bool() { format!("{text}{bad}") } else { format!("{text}{bad}v0% = 1\n") };
            }
            1 => {
                text += &match n.below(4) {
                    0 => "PROBE 1 / 0\n".to_owned(),
                    1 => format!("SUB e{uid}(p%)\nq = p\nPROBE 1 MOD (q - q)\nEND SUB\ne{uid} 3\n"),
                    2 => format!("FUNCTION e{uid}%(p%)\nq = p\nr = q\nGOSUB @g{uid}\n@g{uid}\nPROBE 1 / (q - q)\nEND FUNCTION\nz{uid}% = 1 + e{uid}(3)\n"),
                    _ => format!("GOSUB @h{uid}\n@h{uid}\nCOLOR 1, 500\n"),
                };
            }
            2 => {
                text += &match n.below(3) {
                    0 => "END 5\n".to_owned(),
                    1 => format!("SUB e{uid}(p%)\nq = p\nEND 5\nEND SUB\ne{uid} 3\n"),
                    _ => format!("FOR z{uid} = 1 TO 3\nGOSUB @h{uid}\n@h{uid}\nEND 5\nNEXT\n"),
                };
            }
            3 => {
                broken = true;
                text += &match n.below(3) {
                    0 => "WHILE TRUE\nWEND\n".to_owned(),
                    1 => format!("SUB e{uid}(p%)\nq = p\nDO\nq = q + 1\nq = q - 1\nLOOP\nEND SUB\ne{uid} 3\n"),
                    _ => format!("@h{uid}\nGOSUB @i{uid}\nGOTO @h{uid}\n@i{uid}\nRETURN\n"),
                };
            }
            _ => {}
        }
        if kind > 0 && kind < 4 && n.bool() {
            text += "v0% = 12345\nPROBE -1\n";
        }
        log += &format!("{text}-- {kind}\n");
        let out = if broken {
            session.interrupt_after(30);
            session.run(&text)
        } else {
            session.run(&text)
        };
        session.interrupt_after(1_000_000);
        session.machine.drain_signals();
        assert_eq!(kind == 0, out.rejected, "{log}{:?}", out.error);
        if kind == 0 {
            assert!(out.seen.is_empty(), "{log}");
        } else {
            m = next;
            assert_eq!(seen, out.seen, "{log}{:?}", out.error);
            assert_eq!(kind == 1, out.error.is_some(), "{log}{:?}", out.error);
            assert_eq!(kind == 2, out.exit == Some(5), "{log}{:?}", out.exit);
            assert_eq!(kind == 3, out.broken, "{log}");
        }
        let (query, expected) = m.query();
        let out = session.run(&query);
        assert!(out.error.is_none(), "{log}{query}{:?}", out.error);
        assert_eq!(expected, out.seen, "{log}{query}");
    }
}

/// After a reset, nothing of what came before exists.
fn reset(n: &mut impl Nd) {
    let mut m = Model { vars: vec![], shared: vec![], functions: vec![], labels: 0 };
    let mut session = Session::new(1_000_000);
    let mut uid = 0;
    let (mut text, mut seen) = (String::new(), vec![]);
    for _ in 0..1 + n.below(6) {
        m.stmt(n, &mut text, &mut seen, &mut uid);
    }
    let how = n.below(3);
    let program = match how {
        0 => format!("{text}ON ERROR RESUME NEXT\n"),
        1 => format!("{text}SUB e(p%)\nq = p\nq = 1 / (q - q)\nEND SUB\ne 3\n"),
        _ => text.clone(),
    };
    session.run(&program);
    session.machine.clear();
    for (name, _) in &m.vars {
        let out = session.run(&format!("PROBE {name}\n"));
        assert!(out.rejected, "{program}{name} survived: {out:?}");
    }
    for (name, _) in &m.functions {
        let out = session.run(&format!("PROBE {name}(3)\n"));
        assert!(out.rejected, "{program}{name} survived: {out:?}");
    }
    let out = session.run("PROBE 1 / 0\n");
    assert!(out.error.is_some() && !out.rejected, "{program}error handler survived");
    session.machine.clear();
    assert_eq!(vec![ConstantDatum::from("")], session.run("PROBE ERRMSG\n").seen, "{program}");
    session.machine.clear();
    // The same program runs again as it did the first time.
    let out = session.run(&text);
    assert!(out.error.is_none(), "{text}{:?}", out.error);
    assert_eq!(seen, out.seen, "{text}");
}

crate::suite! { "P12";
    bounded end_codes * 10000;
    bounded sessions * 30000;
    bounded reset * 8000;
}
