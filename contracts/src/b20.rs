//! P20 on whole programs: what READ assigns after any mix of DATA, READ, RESTORE and errors.

use crate::basic::*;
use crate::desk::Desk;
use crate::nd::Nd;
use endbasic_core::ConstantDatum;
use endbasic_repl::editor::Editor;
use endbasic_std::storage::Storage;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Boolean,
    Double,
    Integer,
    Text,
}

const KINDS: [Kind; 4] = [Kind::Boolean, Kind::Double, Kind::Integer, Kind::Text];
const NAMES: [&str; 4] = ["b", "d", "i", "s"];
const TYPES: [&str; 4] = ["BOOLEAN", "DOUBLE", "INTEGER", "STRING"];
const MARKS: [&str; 4] = ["?", "#", "%", "$"];

fn kind_of(d: &ConstantDatum) -> Kind {
    match d {
        ConstantDatum::Boolean(..) => Kind::Boolean,
        ConstantDatum::Double(..) => Kind::Double,
        ConstantDatum::Integer(..) => Kind::Integer,
        ConstantDatum::Text(..) => Kind::Text,
    }
}

fn default(k: Kind) -> ConstantDatum {
    match k {
        Kind::Boolean => ConstantDatum::Boolean(false),
        Kind::Double => ConstantDatum::Double(0.0),
        Kind::Integer => ConstantDatum::Integer(0),
        Kind::Text => ConstantDatum::Text(String::new()),
    }
}

/// A value and how it is written.
fn value(n: &mut impl Nd, kind: Option<Kind>) -> (ConstantDatum, String) {
    let kind = kind.unwrap_or(KINDS[n.below(4)]);
    match kind {
        Kind::Boolean => {
            let b = n.bool();
            (ConstantDatum::Boolean(b), if b { "TRUE" } else { "FALSE" }.to_owned())
        }
        Kind::Double => {
            let whole = n.below(100) as i32 - 50;
            let (d, s) = match n.below(8) {
                0 => (3e9, "3000000000.0".to_owned()),
                1 => (-2147483648.5, "-2147483648.5".to_owned()),
                2 => (2147483647.25, "2147483647.25".to_owned()),
                k => {
                    let d = f64::from(whole) + [0.0, 0.5, 0.25][k % 3];
                    (d, format!("{:?}", d))
                }
            };
            (ConstantDatum::Double(d), s)
        }
        Kind::Integer => {
            let i = n.i32();
            let i = if n.below(12) == 0 { i32::MIN } else { i };
            let text = match n.below(5) {
                0 => format!("&x{:x}", i),
                1 if i != i32::MIN => format!("-&x{:x}", -i),
                _ if i == i32::MIN => "&x80000000".to_owned(),
                _ => i.to_string(),
            };
            (ConstantDatum::Integer(i), text)
        }
        Kind::Text => {
            let s: String = (0..n.below(4)).map(|_| ['a', 'é', ' ', ',', ':'][n.below(5)]).collect();
            (ConstantDatum::Text(s.clone()), format!("\"{}\"", s))
        }
    }
}

/// What a variable gets, or the type that does not fit.
fn convert(kind: Kind, d: &ConstantDatum) -> Option<ConstantDatum> {
    match (kind, d) {
        (Kind::Double, ConstantDatum::Integer(i)) => Some(ConstantDatum::Double(f64::from(*i))),
        (Kind::Integer, ConstantDatum::Double(d)) => {
            let r = d.round();
            (r >= f64::from(i32::MIN) && r <= f64::from(i32::MAX)).then_some(ConstantDatum::Integer(r as i32))
        }
        (k, d) => (k == kind_of(d)).then(|| d.clone()),
    }
}

/// Everything that READ depends on.
#[derive(Default)]
struct Model {
    data: Vec<Option<ConstantDatum>>,
    next: usize,
    vars: Vec<ConstantDatum>,
}

impl Model {
    /// Assigns the next value.
    fn read(&mut self, var: usize) -> Result<(), String> {
        let kind = KINDS[var % 4];
        let Some(d) = self.data.get(self.next) else { return Err("Out of data".to_owned()) };
        let d = d.clone().unwrap_or(default(kind));
        self.next += 1;
        match convert(kind, &d) {
            Some(v) => {
                self.vars[var] = v;
                Ok(())
            }
            None if kind_of(&d) == Kind::Double && kind == Kind::Integer => Err("Cannot cast".to_owned()),
            None => Err(format!("Cannot assign value of type {} to variable of type {}", TYPES[kind_of(&d) as usize], TYPES[kind as usize])),
        }
    }
}

fn name(var: usize) -> String {
    format!("{}{}", NAMES[var % 4], var / 4)
}

/// A line of DATA, of which the types are often those that come next.
fn data(n: &mut impl Nd, all: &mut Vec<Option<ConstantDatum>>) -> String {
    let mut line = "DATA ".to_owned();
    let count = 1 + n.below(5);
    let kind = (n.below(3) > 0).then(|| KINDS[n.below(4)]);
    for i in 0..count {
        if i > 0 {
            line.push_str(", ");
        }
        if count > 1 && n.below(5) == 0 {
            all.push(None);
        } else {
            let (d, s) = value(n, kind);
            all.push(Some(d));
            line.push_str(&s);
        }
    }
    line
}

/// Puts values where they are not executed, or where they are executed many times.
fn wrapped(n: &mut impl Nd, line: String, at: usize) -> String {
    match n.below(8) {
        0 => format!("IF FALSE THEN\n{}\nEND IF", line),
        1 => format!("FOR k{} = 1 TO 3\n{}\nNEXT", at, line),
        2 => format!("WHILE FALSE\n{}\nWEND", line),
        3 => format!("GOTO @over{}\n{}\n@over{}", at, line, at),
        4 => format!("SELECT CASE 1\nCASE 2\n{}\nEND SELECT", line),
        _ => line,
    }
}

/// Programs of a session, one after the other.
fn reading(n: &mut impl Nd) {
    let (storage, program) = (Rc::from(RefCell::from(Storage::default())), Rc::from(RefCell::from(Editor::default())));
    let mut session = Session::with(Desk::new(80, 5), 1_000_000, |b| b.make_interactive().with_storage(storage).with_program(program).build());
    let mut m = Model { vars: (0..8).map(|v| default(KINDS[v % 4])).collect(), ..Default::default() };
    let declare: String = (0..8).map(|v| format!("DIM SHARED {} AS {}\n", name(v), TYPES[v % 4])).collect();
    assert_eq!(None, session.run(&declare).error);
    let mut texts = String::new();
    let mut at = 0;
    for _ in 0..1 + n.below(4) {
        let mut program = String::new();
        let mut all = vec![];
        // What is done after all values are known.
        let mut steps: Vec<Vec<usize>> = vec![];
        let mut lines = vec![];
        if n.below(4) == 0 {
            let line = data(n, &mut all);
            program.push_str(&format!("SUB proc{}\n{}\nEND SUB\n", at, line));
            at += 1;
        }
        for _ in 0..1 + n.below(8) {
            at += 1;
            match n.below(8) {
                0..=3 => {
                    let line = data(n, &mut all);
                    program.push_str(&wrapped(n, line, at));
                    program.push('\n');
                }
                4 => {
                    program.push_str("RESTORE\n");
                    steps.push(vec![]);
                    lines.push(0);
                }
                _ => {
                    let vars: Vec<usize> = (0..1 + n.below(3)).map(|_| n.below(8)).collect();
                    lines.push(program.matches('\n').count() + 1);
                    let refs: Vec<String> = vars.iter().map(|v| if n.below(4) == 0 { name(*v) + MARKS[*v % 4] } else { name(*v) }).collect();
                    // Spaces do not matter for the values, and the columns are those of the names.
                    program.push_str(&format!("READ {}\n", refs.join(", ")));
                    steps.push(vars);
                }
            }
        }
        let broken = n.below(8) == 0;
        if broken {
            // Values of a program that cannot be compiled do not count.
            let wrong = ["DATA 1, 2\nthis is wrong\n", "DATA 1, -&x80000000\n", "DATA 1 2\n", "DATA 3, -\n", "DATA 2, -TRUE\n", "DATA 2, x\n", "DATA (1)\n", "DATA 1.5, --1\n"];
            program.push_str(wrong[n.below(wrong.len())]);
        }
        texts.push_str(&program);
        texts.push_str("---\n");
        let out = session.run(&program);
        if broken {
            assert!(out.rejected, "{}", texts);
        } else {
            m.data.extend(all);
            let mut want = None;
            'all: for (vars, line) in steps.iter().zip(&lines) {
                if vars.is_empty() {
                    m.next = 0;
                }
                for v in vars {
                    if let Err(e) = m.read(*v) {
                        want = Some((*line, e));
                        break 'all;
                    }
                }
            }
            match (want, &out.error) {
                (None, None) => (),
                (Some((line, e)), Some(got)) => assert!(got.starts_with(&format!("{}:", line)) && got.contains(&e), "{}: {} instead of {} at {}", texts, got, e, line),
                (want, got) => panic!("{}: {:?} instead of {:?}", texts, got, want),
            }
        }
        let probes: String = (0..8).map(|v| format!("PROBE {}\n", name(v))).collect();
        let out = session.run(&probes);
        assert_eq!(None, out.error, "{}", texts);
        assert_eq!(m.vars, out.seen, "{}", texts);
        if n.below(6) == 0 {
            texts.push_str("CLEAR\n---\n");
            assert_eq!(None, session.run("CLEAR").error);
            m = Model { vars: m.vars, ..Default::default() };
            assert_eq!(None, session.run(&declare).error);
            m.vars = (0..8).map(|v| default(KINDS[v % 4])).collect();
        }
    }
}

/// Values are read in the order of the text by whatever code runs.
fn calling(n: &mut impl Nd) {
    let mut all: Vec<i32> = vec![];
    let mut program = "DIM SHARED total AS INTEGER\n".to_owned();
    let mut values = |n: &mut dyn FnMut() -> i32, count: usize| {
        let some: Vec<i32> = (0..count).map(|_| n()).collect();
        all.extend(&some);
        format!("DATA {}\n", some.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(", "))
    };
    let (a, b, c) = (1 + n.below(4), 1 + n.below(4), 1 + n.below(4));
    let mut any = || n.below(2000) as i32 - 1000;
    program.push_str(&format!("FUNCTION f%\n{}READ x\nf = x\nEND FUNCTION\n", values(&mut any, a)));
    program.push_str(&format!("SUB s\n{}READ y\nPROBE y\nEND SUB\n", values(&mut any, b)));
    let tail = values(&mut any, c);
    let mut seen = vec![];
    let mut next = 0;
    for _ in 0..a + b + c {
        match n.below(4) {
            0 => program.push_str("PROBE f%\n"),
            1 => program.push_str("s\n"),
            2 => program.push_str("GOSUB @sub\n"),
            _ => program.push_str("READ z\nPROBE z\n"),
        }
        seen.push(next);
        next += 1;
    }
    program.push_str(&format!("END\n@sub\nREAD z\nPROBE z\n{}RETURN\n", tail));
    let want: Vec<i32> = seen.into_iter().map(|i| all[i]).collect();
    let out = run(&program);
    assert_eq!(None, out.error, "{}", program);
    assert_eq!(want, out.ints(), "{}", program);
}

crate::suite! { "P20";
    bounded reading * 30000;
    bounded calling * 10000;
}
