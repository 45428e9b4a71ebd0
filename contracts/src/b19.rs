//! P19 on the real line reader: the line, its earlier versions and the screen after every key.

use crate::basic::*;
use crate::desk::Desk;
use crate::nd::Nd;
use endbasic_std::console::{Key, read_line, read_line_secure};
use futures_lite::future::block_on;
use std::io::ErrorKind;

/// A line that is being typed.
#[derive(Clone, Debug)]
struct Model {
    line: Vec<char>,
    pos: usize,
    lines: Option<Vec<Vec<char>>>,
    at: usize,
}

impl Model {
    fn jump(&mut self, to: usize) {
        let all = self.lines.as_mut().unwrap();
        all[self.at] = self.line.clone();
        self.line = all[to].clone();
        self.pos = self.line.len();
        self.at = to;
    }

    fn step(&mut self, key: &Key, room: bool) {
        let len = self.line.len();
        match key {
            Key::ArrowLeft => self.pos = self.pos.saturating_sub(1),
            Key::ArrowRight => self.pos = len.min(self.pos + 1),
            Key::Home => self.pos = 0,
            Key::End => self.pos = len,
            Key::Backspace if self.pos > 0 => {
                self.pos -= 1;
                self.line.remove(self.pos);
            }
            Key::Delete | Key::EofOrDelete if self.pos < len => {
                self.line.remove(self.pos);
            }
            Key::Char(c) if room => {
                self.line.insert(self.pos, *c);
                self.pos += 1;
            }
            Key::ArrowUp if self.lines.is_some() && self.at > 0 => self.jump(self.at - 1),
            Key::ArrowDown if self.lines.as_ref().is_some_and(|l| self.at + 1 < l.len()) => self.jump(self.at + 1),
            _ => (),
        }
    }
}

const CHARS: [char; 8] = ['a', 'b', 'z', ' ', '"', 'é', '漢', '𝄞'];

fn word(n: &mut impl Nd, most: usize) -> String {
    (0..n.below(most)).map(|_| CHARS[n.below(CHARS.len())]).collect()
}

/// Keys, of which some come many times in a row.
fn keys(n: &mut impl Nd) -> Vec<Key> {
    let mut all = vec![];
    for _ in 0..n.below(25) {
        let key = match n.below(24) {
            0 => Key::ArrowUp,
            1 => Key::ArrowDown,
            2 | 3 => Key::ArrowLeft,
            4 | 5 => Key::ArrowRight,
            6 | 7 => Key::Backspace,
            8 | 9 => Key::Delete,
            10 => Key::EofOrDelete,
            11 => Key::End,
            12 => Key::Home,
            13 => Key::PageDown,
            14 => Key::PageUp,
            15 => Key::Tab,
            16 => Key::Unknown,
            17 => Key::Escape,
            _ => Key::Char(CHARS[n.below(CHARS.len())]),
        };
        let times = if n.below(3) == 0 { 1 + n.below(15) } else { 1 };
        all.extend(std::iter::repeat_n(key, times));
    }
    all
}

fn lines(h: &Option<Vec<Vec<char>>>) -> Option<Vec<String>> {
    h.as_ref().map(|h| h.iter().map(|l| l.iter().collect()).collect())
}

/// Lines read one after the other on the same terminal, with the same history.
fn typing(n: &mut impl Nd) {
    let most = if n.bool() { 12 } else { 50 };
    let w = 1 + n.below(most);
    let mut history = n.bool().then(|| (0..n.below(4)).map(|_| word(n, 20)).collect::<Vec<_>>());
    for _ in 0..1 + n.below(3) {
        let secure = n.below(4) == 0;
        let (short, long) = (if n.bool() { 6 } else { 60 }, 2 + n.below(70));
        let prompt = word(n, short);
        let previous = if secure { String::new() } else { word(n, long) };
        let mut console = Desk::new(w as u16, 3);
        let typed = keys(n);
        let end = [Key::NewLine, Key::CarriageReturn, Key::Interrupt][n.below(3)].clone();
        console.keys.extend(typed.iter().cloned());
        console.keys.push_back(end.clone());
        console.keys.push_back(Key::Char('q'));

        let before = history.clone();
        let mut used = if secure { None } else { history.clone() };
        let note = format!("{} columns, {:?}, {:?}, {:?}, {:?}", w, prompt, previous, used, typed);
        let result = if secure {
            block_on(read_line_secure(&mut console, &prompt))
        } else {
            block_on(read_line(&mut console, &prompt, &previous, used.as_mut()))
        };

        let all: Vec<char> = prompt.chars().collect();
        let asked: Vec<char> = if all.len() < w {
            all
        } else if w >= 5 {
            all[..w - 5].iter().copied().chain("...".chars()).collect()
        } else {
            vec![]
        };
        let room = w - 1 - asked.len();
        let mut m = Model { line: previous.chars().collect(), pos: previous.chars().count(), lines: None, at: 0 };
        if let (Some(h), false) = (&before, secure) {
            let mut h: Vec<Vec<char>> = h.iter().map(|l| l.chars().collect()).collect();
            m.at = h.len();
            h.push(m.line.clone());
            m.lines = Some(h);
        }
        let mut heard = 0;
        let mut want = None;
        for (key, (rows, x, y)) in typed.iter().chain(std::iter::once(&end)).zip(&console.views) {
            // A part of the line that has the cursor is shown.
            assert_eq!(0, *y, "{}", note);
            assert!(*x >= asked.len() && *x <= asked.len() + room && x - asked.len() <= m.pos, "{}: cursor at {} of {:?}", note, x, m);
            let view = m.pos + asked.len() - x;
            let shown = m.line.iter().skip(view).take(room).map(|c| if secure { '*' } else { *c });
            let mut row: String = asked.iter().copied().chain(shown).collect();
            row.extend(std::iter::repeat_n(' ', w - row.chars().count()));
            assert_eq!(row, rows[0], "{}: key {} of {:?}", note, heard, m);
            heard += 1;
            if *key == Key::EofOrDelete && m.line.is_empty() {
                want = Some(ErrorKind::UnexpectedEof);
                break;
            }
            if *key == Key::Interrupt {
                want = Some(ErrorKind::Interrupted);
            }
            m.step(key, room > 0);
        }
        assert_eq!(heard, console.views.len(), "{}", note);
        assert_eq!(typed.len() + 2 - heard, console.keys.len(), "{}", note);
        assert!(!console.outside && console.cursor, "{}", note);
        match (result, want) {
            (Ok(s), None) => {
                assert_eq!(m.line.iter().collect::<String>(), s, "{}", note);
                assert_eq!((0, 1), (console.x, console.y), "{}", note);
                if let Some(h) = m.lines.as_mut() {
                    h.pop();
                    if !m.line.is_empty() {
                        h.push(m.line.clone());
                    }
                }
            }
            (Err(e), Some(kind)) => {
                assert_eq!(kind, e.kind(), "{}", note);
                if let Some(h) = m.lines.as_mut() {
                    h.pop();
                }
            }
            (got, want) => panic!("{}: {:?} instead of {:?}", note, got, want),
        }
        assert_eq!(lines(&m.lines), used, "{}", note);
        if !secure {
            history = used;
        }
    }
}

/// Nothing is drawn when there is no terminal.
fn piping(n: &mut impl Nd) {
    let mut console = Desk::new(10, 3);
    console.interactive = false;
    let typed = keys(n);
    let end = [Key::NewLine, Key::CarriageReturn, Key::Interrupt, Key::EofOrDelete][n.below(4)].clone();
    console.keys.extend(typed.iter().cloned());
    console.keys.push_back(end.clone());
    let mut history = vec!["x".to_owned()];
    let result = block_on(read_line(&mut console, "prompt", "previous", n.bool().then_some(&mut history)));
    let mut want = String::new();
    let mut error = None;
    for key in typed.iter().chain(std::iter::once(&end)) {
        match key {
            Key::Char(c) => want.push(*c),
            Key::Unknown => want.push('?'),
            Key::Backspace => {
                want.pop();
            }
            Key::EofOrDelete => error = Some(ErrorKind::UnexpectedEof),
            Key::Interrupt => error = Some(ErrorKind::Interrupted),
            _ => (),
        }
        if error.is_some() {
            break;
        }
    }
    match error {
        None => assert_eq!(want, result.unwrap(), "{:?}", typed),
        Some(kind) => assert_eq!(kind, result.unwrap_err().kind(), "{:?}", typed),
    }
    assert_eq!(vec!["x".to_owned()], history);
    assert_eq!((0, 0), (console.x, console.y));
    assert!(console.lines.is_empty());
    assert!(block_on(read_line_secure(&mut console, "prompt")).is_err());
}

/// Values asked for by programs, after answers that are not values.
fn asking(n: &mut impl Nd) {
    let w = 30 + n.below(30);
    let mut console = Desk::new(w as u16, 12);
    let mut program = String::new();
    let mut want = vec![];
    let mut prompts = vec![];
    let mut retries = 0;
    for i in 0..1 + n.below(3) {
        let prompt = word(n, 8).replace('"', "");
        let short = n.bool();
        prompts.push(if short { format!("{}? ", prompt) } else { prompt.clone() });
        program.push_str(&format!("DIM v{} AS INTEGER\nINPUT \"{}\"{} v{}\nPROBE v{}\n", i, prompt, if short { ';' } else { ',' }, i, i));
        let mut left = 0;
        for _ in 0..n.below(3) {
            let wrong = ["no", "", "2147483648", "1.5", "--1"][n.below(5)];
            console.keys.extend(std::iter::repeat_n(Key::Backspace, left));
            console.keys.extend(wrong.chars().map(Key::Char));
            console.keys.push_back(Key::NewLine);
            left = wrong.len();
            retries += 1;
            prompts.push(prompts.last().unwrap().clone());
        }
        let v = n.i32();
        want.push(v);
        console.keys.extend(std::iter::repeat_n(Key::Backspace, left));
        console.keys.extend(v.to_string().chars().map(Key::Char));
        console.keys.extend(std::iter::repeat_n(Key::Char(' '), n.below(2)));
        console.keys.push_back(Key::NewLine);
    }
    let keys: Vec<Key> = console.keys.iter().cloned().collect();
    let mut session = Session::with(console, 1_000_000, |b| b.build());
    let out = session.run(&program);
    assert_eq!(None, out.error, "{} with {:?}", program, keys);
    assert_eq!(want, out.ints(), "{} with {:?}", program, keys);
    let console = session.console.borrow();
    assert_eq!(retries, console.lines.iter().filter(|l| l.starts_with("Retry input: ")).count(), "{}", program);
    // Each answer ends a line that starts with what was asked.
    let mut line = 0;
    for (key, (rows, _, y)) in keys.iter().zip(&console.views) {
        assert!(rows[*y].starts_with(&prompts[line]), "{}: {:?} instead of {:?}", program, rows[*y], prompts[line]);
        line += usize::from(*key == Key::NewLine);
    }
    assert_eq!(prompts.len(), line);
}

crate::suite! { "P19";
    bounded typing * 40000;
    bounded piping * 20000;
    bounded asking * 2000;
}
