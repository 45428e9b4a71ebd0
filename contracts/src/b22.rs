//! P22 on whole programs: everything that commands ask of the console.

use crate::basic::*;
use crate::desk::{Desk, Op};
use crate::nd::Nd;
use endbasic_core::ConstantDatum;
use endbasic_repl::editor::Editor;
use endbasic_std::console::Key;
use endbasic_std::program::Program;
use endbasic_std::storage::Storage;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;

const KEYS: [(Key, &str); 17] = [
    (Key::ArrowDown, "DOWN"),
    (Key::ArrowLeft, "LEFT"),
    (Key::ArrowRight, "RIGHT"),
    (Key::ArrowUp, "UP"),
    (Key::Backspace, "BS"),
    (Key::CarriageReturn, "ENTER"),
    (Key::Delete, "DEL"),
    (Key::End, "END"),
    (Key::EofOrDelete, "EOF"),
    (Key::Escape, "ESC"),
    (Key::Home, "HOME"),
    (Key::Interrupt, "INT"),
    (Key::NewLine, "ENTER"),
    (Key::PageDown, "PGDOWN"),
    (Key::PageUp, "PGUP"),
    (Key::Tab, "TAB"),
    (Key::Unknown, "?"),
];

fn word(n: &mut impl Nd, most: usize) -> String {
    let len = n.below(most + 1);
    (0..len).map(|_| ['a', 'B', ' ', '.', '\u{e9}', '\u{2713}', '\u{1f600}', '0'][n.below(8)]).collect()
}

/// An expression, what it looks like, and whether it is text.
fn value(n: &mut impl Nd) -> (String, String, bool) {
    match n.below(7) {
        0 => {
            let i = n.i32();
            (int(i), if i < 0 { i.to_string() } else { format!(" {}", i) }, false)
        }
        1 => {
            let b = n.bool();
            (if b { "TRUE" } else { "FALSE" }.to_owned(), if b { "TRUE" } else { "FALSE" }.to_owned(), false)
        }
        2 => {
            let d = [0.0, 1.0, -1.0, 0.5, -2.25, 1e10, 1234567.125][n.below(7)];
            (double(d), if d < 0.0 { format!("{}", d) } else { format!(" {}", d) }, false)
        }
        3 => {
            // Values that are calculated.
            let (a, b) = (n.below(100) as i32, n.below(100) as i32);
            (format!("{} - {}", a, b), if a < b { (a - b).to_string() } else { format!(" {}", a - b) }, false)
        }
        4 => {
            let (a, b) = (word(n, 10), word(n, 10));
            (format!("\"{}\" + \"{}\"", a, b), format!("{}{}", a, b), true)
        }
        _ => {
            let text = word(n, 20);
            (format!("\"{}\"", text), text, true)
        }
    }
}

/// A color or a coordinate, mostly close to its limits.
fn number(n: &mut impl Nd, limit: i32) -> i32 {
    match n.below(8) {
        0 => n.i32(),
        1 => limit,
        2 => limit - 1,
        3 => -1,
        4 => 65536 + n.below(10) as i32,
        _ => n.below(limit as usize) as i32,
    }
}

fn commands(n: &mut impl Nd) {
    let (w, h) = (1 + n.below(100), 1 + n.below(40));
    let mut console = Desk::new(w as u16, h as u16);
    let mut keys = VecDeque::new();
    let mut program = String::new();
    let mut want = vec![];
    let mut probes = vec![];
    let mut error = None;
    for line in 1..2 + n.below(8) {
        if error.is_some() {
            break;
        }
        match n.below(9) {
            0..=3 => {
                let mut statement = "PRINT".to_owned();
                let mut text = String::new();
                let items = n.below(6);
                let mut separated = false;
                for i in 0..items {
                    let missing = n.below(4) == 0;
                    let mut number = false;
                    if !missing {
                        let (expr, shown, is_text) = value(n);
                        number = !is_text;
                        statement.push(' ');
                        statement.push_str(&expr);
                        text.push_str(&shown);
                    }
                    separated = i + 1 < items || missing || n.bool();
                    if separated && n.bool() {
                        statement.push_str(", ");
                        let target = (text.chars().count() / 14 + 1) * 14;
                        while text.chars().count() < target {
                            text.push(' ');
                        }
                    } else if separated {
                        statement.push(';');
                        if number {
                            text.push(' ');
                        }
                    }
                }
                program.push_str(&statement);
                want.push(if separated { Op::Write(text) } else { Op::Print(text) });
            }
            4 => {
                let (fg, bg) = (number(n, 256), number(n, 256));
                let color = |i: i32| u8::try_from(i).ok();
                let (first, second) = (n.bool(), n.bool());
                let comma = second || n.bool();
                program.push_str("COLOR");
                let mut pair = (None, None);
                let column = |p: &str| p.lines().last().unwrap().chars().count() + 1;
                if first {
                    program.push(' ');
                    pair.0 = color(fg);
                    if pair.0.is_none() {
                        error = Some(format!("{}:{}: Color out of range", line, column(&program) + usize::from(fg < 0)));
                    }
                    program.push_str(&int(fg));
                }
                if comma {
                    program.push_str(", ");
                }
                if second {
                    pair.1 = color(bg);
                    if pair.1.is_none() && error.is_none() {
                        error = Some(format!("{}:{}: Color out of range", line, column(&program) + usize::from(bg < 0)));
                    }
                    program.push_str(&int(bg));
                }
                if error.is_none() {
                    want.push(Op::Color(pair.0, pair.1));
                }
            }
            5 => {
                let (x, y) = (number(n, w as i32), number(n, h as i32));
                program.push_str(&format!("LOCATE {}, {}", int(x), int(y)));
                let place = |i: i32, at: usize| format!("{}:{}: ", line, at + usize::from(i < 0));
                let second = 10 + int(x).len();
                error = if u16::try_from(x).is_err() {
                    Some(place(x, 8) + "Column out of range")
                } else if u16::try_from(y).is_err() {
                    Some(place(y, second) + "Row out of range")
                } else if x as usize >= w {
                    Some(place(x, 8) + &format!("Column {} exceeds visible range of {}", x, w - 1))
                } else if y as usize >= h {
                    Some(place(y, second) + &format!("Row {} exceeds visible range of {}", y, h - 1))
                } else {
                    want.push(Op::Locate(x as u16, y as u16));
                    None
                };
            }
            6 => {
                program.push_str("CLS");
                want.push(Op::Clear);
            }
            7 => {
                program.push_str("PROBE SCRCOLS, SCRROWS");
                probes.push(ConstantDatum::Integer(w as i32));
                probes.push(ConstantDatum::Integer(h as i32));
            }
            _ => {
                program.push_str("PROBE INKEY");
                let name = match n.below(4) {
                    0 => {
                        let c = ['x', 'X', ' ', '\u{e9}', '\u{1f600}'][n.below(5)];
                        keys.push_back(Key::Char(c));
                        c.to_string()
                    }
                    _ => {
                        let (key, name) = &KEYS[n.below(17)];
                        keys.push_back(key.clone());
                        (*name).to_owned()
                    }
                };
                probes.push(ConstantDatum::Text(name));
            }
        }
        program.push('\n');
    }
    if error.is_none() {
        // There are no more keys.
        program.push_str("PROBE INKEY\n");
        probes.push(ConstantDatum::Text(String::new()));
    }
    console.keys = keys;
    let mut session = Session::with(console, 1_000_000, |b| b.build());
    let out = session.run(&program);
    assert!(!out.rejected, "{}: {:?}", program, out.error);
    let console = session.console.borrow();
    assert_eq!(want, console.ops, "{}", program);
    assert_eq!(probes, out.seen, "{}", program);
    match error {
        None => assert_eq!(None, out.error, "{}", program),
        Some(error) => {
            // Positions of values that are calculated are those of their operators.
            let got = out.error.unwrap_or_default();
            let plain = |e: &str| e.split_once(": ").map(|(at, m)| (at.split(':').next().unwrap().to_owned(), m.to_owned()));
            assert_eq!(plain(&error), plain(&got), "{}: {} instead of {}", program, got, error);
        }
    }
}

fn machine(console: Desk, text: Option<&str>) -> Session<Desk> {
    let mut editor = Editor::default();
    if let Some(text) = text {
        editor.load(None, text);
    }
    let program = Rc::from(RefCell::from(editor));
    Session::with(console, 1_000_000, |b| {
        let storage = Rc::from(RefCell::from(Storage::default()));
        b.make_interactive().with_storage(storage).with_program(program).build()
    })
}

/// A program that is listed stops whenever the screen is full.
fn listing(n: &mut impl Nd) {
    let (w, h) = (1 + n.below(70), 2 + n.below(12));
    let total = n.below(30);
    let lines: Vec<String> = (0..total).map(|_| if n.below(3) == 0 { word(n, 150) } else { word(n, 12) }).collect();
    let text: String = lines.iter().map(|l| l.to_owned() + "\n").collect();
    let mut console = Desk::new(w as u16, h as u16);
    console.interactive = n.below(6) > 0;
    let more = if w < 50 { " << More >> " } else { " << Press any key for more; ESC or Ctrl+C to stop >> " };
    let mut want = vec![];
    let mut used = 0;
    let mut stopped = false;
    for line in &lines {
        want.push(Op::Print(line.clone()));
        used += line.chars().count() / w + 1;
        if console.interactive && used >= h - 1 {
            want.push(Op::Print(more.to_owned()));
            want.push(Op::Key);
            used = 0;
            let key = match n.below(40) {
                0 => Key::Escape,
                1 => Key::Interrupt,
                2 => Key::NewLine,
                _ => Key::Char(' '),
            };
            stopped = matches!(key, Key::Escape | Key::Interrupt);
            console.keys.push_back(key);
            if stopped {
                break;
            }
        }
    }
    let mut session = machine(console, Some(&text));
    let out = session.run("LIST");
    assert_eq!(stopped, out.error.is_some(), "{:?}", out.error);
    let console = session.console.borrow();
    assert_eq!(want, console.ops, "{} columns, {} rows", w, h);
    assert!(console.keys.is_empty());
}

const TOPICS: [&str; 12] = ["PRINT", "INPUT", "INKEY", "COLOR", "LANGUAGE", "ON ERROR", "TYPES", "SELECT CASE", "LOAD", "GFX_RECTF", "HELP", "RND"];

/// Help has the same words on every console, in lines that fit.
fn helping(n: &mut impl Nd) {
    let topic = TOPICS[n.below(12)];
    let ask = |w: u16| {
        let mut console = Desk::new(w, 1000);
        console.interactive = false;
        let mut session = machine(console, None);
        let out = session.run(&format!("HELP \"{}\"", topic));
        let lines = std::mem::take(&mut session.console.borrow_mut().lines);
        (out.error, lines)
    };
    let words = |lines: &[String]| lines.iter().flat_map(|l| l.split_whitespace()).map(|w| w.to_owned()).collect::<Vec<_>>();
    let (width, other) = (1 + n.below(100) as u16, 1 + n.below(200) as u16);
    let (error, lines) = ask(width);
    let (other_error, other_lines) = ask(other);
    assert_eq!(None, error, "{}", topic);
    assert_eq!(None, other_error, "{}", topic);
    assert_eq!(words(&lines), words(&other_lines), "{} in {} columns", topic, width);
    for line in &lines {
        assert!(
            line.chars().count() < usize::from(width) || line.split_whitespace().count() <= 1 || topic == "LANGUAGE",
            "{} in {} columns: {:?}",
            topic,
            width,
            line
        );
    }
}

crate::suite! { "P22";
    bounded commands * 40000;
    bounded listing * 10000;
    bounded helping * 300;
}
