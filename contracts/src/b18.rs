//! P18 on the real editor: the text, the cursor and the screen after every key.

use crate::basic::*;
use crate::desk::Desk;
use crate::nd::Nd;
use endbasic_repl::editor::Editor;
use endbasic_std::console::Key;
use endbasic_std::program::Program;
use endbasic_std::storage::Storage;
use futures_lite::future::block_on;
use std::cell::RefCell;
use std::rc::Rc;

/// A text that is being edited.
#[derive(Clone, Debug)]
struct Model {
    lines: Vec<Vec<char>>,
    line: usize,
    col: usize,
    want: usize,
    changed: bool,
}

impl Model {
    fn new(text: &str) -> Self {
        Self { lines: text.lines().map(|l| l.chars().collect()).collect(), line: 0, col: 0, want: 0, changed: false }
    }

    fn open(&mut self) {
        if self.lines.is_empty() {
            self.lines.push(vec![]);
        }
    }

    fn text(&self) -> String {
        self.lines.iter().map(|l| l.iter().collect::<String>() + "\n").collect()
    }

    fn indent(&self) -> usize {
        self.lines[self.line].iter().take_while(|c| **c == ' ').count()
    }

    fn to(&mut self, col: usize) {
        (self.col, self.want) = (col, col);
    }

    fn row(&mut self, line: usize) {
        self.line = line.min(self.lines.len() - 1);
        self.col = self.want.min(self.lines[self.line].len());
    }

    fn join(&mut self, line: usize) {
        let next = self.lines.remove(line + 1);
        self.lines[line].extend(next);
        self.changed = true;
    }

    fn step(&mut self, key: &Key, rows: usize) {
        let len = self.lines[self.line].len();
        match key {
            Key::ArrowUp => self.row(self.line.saturating_sub(1)),
            Key::ArrowDown => self.row(self.line + 1),
            Key::PageUp => self.row(self.line.saturating_sub(rows - 2)),
            Key::PageDown => self.row(self.line + rows - 2),
            Key::ArrowLeft if self.col > 0 => self.to(self.col - 1),
            Key::ArrowRight if self.col < len => self.to(self.col + 1),
            Key::End => self.to(len),
            Key::Home => self.to(if self.col == self.indent() { 0 } else { self.indent() }),
            Key::Backspace if self.col > 0 => {
                let to = if self.indent() >= self.col { (self.col - 1) / 4 * 4 } else { self.col - 1 };
                self.lines[self.line].drain(to..self.col);
                self.to(to);
                self.changed = true;
            }
            Key::Backspace if self.line > 0 => {
                self.line -= 1;
                self.to(self.lines[self.line].len());
                self.join(self.line);
            }
            Key::Backspace => self.to(0),
            Key::Delete | Key::EofOrDelete if self.col < len => {
                self.lines[self.line].remove(self.col);
                self.changed = true;
            }
            Key::Delete | Key::EofOrDelete if self.line + 1 < self.lines.len() => self.join(self.line),
            Key::Char(c) => {
                self.lines[self.line].insert(self.col, *c);
                self.to(self.col + 1);
                self.changed = true;
            }
            Key::Tab => {
                for _ in 0..4 - self.col % 4 {
                    self.lines[self.line].insert(self.col, ' ');
                    self.col += 1;
                }
                self.to(self.col);
                self.changed = true;
            }
            Key::NewLine | Key::CarriageReturn => {
                let mut next: Vec<char> = self.lines[self.line].iter().copied().take_while(|c| c.is_whitespace()).collect();
                let margin = next.len();
                next.extend(self.lines[self.line].drain(self.col..));
                self.line += 1;
                self.lines.insert(self.line, next);
                self.to(margin);
                self.changed = true;
            }
            _ => (),
        }
    }
}

const CHARS: [char; 10] = ['a', 'b', ' ', ' ', ' ', '"', 'é', '\u{3000}', '𝄞', '\''];

fn text(n: &mut impl Nd) -> String {
    let mut s = String::new();
    for _ in 0..n.below(12) {
        if n.bool() {
            s.push_str(&" ".repeat(n.below(10)));
        }
        let most = if n.below(4) == 0 { 30 } else { 6 };
        for _ in 0..n.below(most) {
            s.push(CHARS[n.below(CHARS.len())]);
        }
        s.push('\n');
    }
    s
}

/// Keys, of which some come many times in a row.
fn keys(n: &mut impl Nd) -> Vec<Key> {
    let mut all = vec![];
    for _ in 0..n.below(25) {
        let key = match n.below(22) {
            0 | 1 => Key::ArrowUp,
            2 | 3 => Key::ArrowDown,
            4 => Key::ArrowLeft,
            5 => Key::ArrowRight,
            6 | 7 => Key::Backspace,
            8 => Key::Delete,
            9 => Key::EofOrDelete,
            10 => Key::End,
            11 => Key::Home,
            12 => Key::NewLine,
            13 => Key::CarriageReturn,
            14 => Key::PageDown,
            15 => Key::PageUp,
            16 | 17 => Key::Tab,
            18 => Key::Unknown,
            _ => Key::Char(CHARS[n.below(CHARS.len())]),
        };
        let times = if n.below(3) == 0 { 1 + n.below(12) } else { 1 };
        all.extend(std::iter::repeat_n(key, times));
    }
    all
}

/// The screen shows a part of the text that has the cursor.
fn shown(m: &Model, view: &(Vec<String>, usize, usize), w: usize, h: usize, name: Option<&str>, dirty: bool, note: &str) {
    let (rows, x, y) = view;
    assert!(*x <= m.col && *x < w && *y <= m.line && *y < h - 1, "{}: cursor at {} {} of {:?}", note, x, y, m);
    let (left, top) = (m.col - x, m.line - y);
    for (i, row) in rows[..h - 1].iter().enumerate() {
        let mut want: String = m.lines.get(top + i).map(|l| l.iter().skip(left).take(w).collect()).unwrap_or_default();
        want.extend(std::iter::repeat_n(' ', w - want.chars().count()));
        // No whitespace can be seen.
        let seen = |s: &str| s.chars().map(|c| if c.is_whitespace() { ' ' } else { c }).collect::<String>();
        assert_eq!(seen(&want), seen(row), "{}: row {} of {:?}", note, i, m);
    }
    let status = &rows[h - 1];
    let long = format!(" | {}{} | Ln {}, Col {} ", name.unwrap_or("<NO NAME>"), if dirty { "*" } else { "" }, m.line + 1, m.col + 1);
    let short = format!(" {}:{} ", m.line + 1, m.col + 1);
    let want = if long.len() + 10 < w { long } else { short };
    if want.len() < w {
        assert!(status.ends_with(&want), "{}: {:?} instead of {:?}", note, status, want);
    }
}

/// Several rounds of editing the same text.
fn editing(n: &mut impl Nd) {
    let (w, h) = (2 + n.below(60), 2 + n.below(10));
    let mut editor = Editor::default();
    let mut model = Model::new("");
    let mut name = None;
    if n.bool() {
        let t = text(n);
        name = n.bool().then_some("x.bas");
        editor.load(name, &t);
        model = Model::new(&t);
        assert_eq!(model.text(), editor.text());
    }
    let mut dirty = false;
    for _ in 0..1 + n.below(3) {
        let mut console = Desk::new(w as u16, h as u16);
        let typed = keys(n);
        console.keys.extend(typed.iter().cloned());
        console.keys.push_back(if n.bool() { Key::Escape } else { Key::Interrupt });
        console.keys.push_back(Key::Char('z'));
        block_on(editor.edit(&mut console)).unwrap();
        let note = format!("{}x{}, {:?} in {:?}", w, h, typed, model.text());
        model.open();
        assert_eq!(typed.len() + 1, console.views.len(), "{}", note);
        for (key, view) in typed.iter().zip(&console.views) {
            shown(&model, view, w, h, name, dirty || model.changed, &note);
            model.step(key, h);
        }
        dirty |= std::mem::take(&mut model.changed);
        shown(&model, console.views.last().unwrap(), w, h, name, dirty, &note);
        assert_eq!(1, console.keys.len(), "{}", note);
        assert_eq!(model.text(), editor.text(), "{}", note);
        assert_eq!(dirty, editor.is_dirty(), "{}", note);
        assert!(console.cursor && !console.alternate && console.sync, "{}", note);
        if n.below(3) == 0 {
            editor.set_name("y.bas");
            name = Some("y.bas");
            dirty = false;
        }
        assert_eq!(name, editor.name());
    }
}

/// When drawing fails, changes that were made are known to be unsaved.
fn failing(n: &mut impl Nd) {
    let t = text(n);
    let mut editor = Editor::default();
    editor.load(Some("x.bas"), &t);
    let mut model = Model::new(&t);
    model.open();
    let mut console = Desk::new(20, 6);
    console.writes_left = n.below(20);
    let typed = keys(n);
    console.keys.extend(typed.iter().cloned());
    console.keys.push_back(Key::Escape);
    let result = block_on(editor.edit(&mut console));
    let heard = typed.len() + 1 - console.keys.len();
    let note = format!("{:?} in {:?}", &typed[..heard.min(typed.len())], t);
    let mut states = vec![model.clone()];
    for key in typed.iter().take(heard) {
        model.step(key, 6);
        states.push(model.clone());
    }
    let last = states.len().saturating_sub(2);
    let states = &states[last..];
    assert!(result.is_err() || model.text() == editor.text(), "{}", note);
    assert!(states.iter().any(|m| m.text() == editor.text()), "{}", note);
    assert!(editor.is_dirty() || states.iter().any(|m| !m.changed && m.text() == editor.text()), "{}: {:?} lost", note, editor.text());
    assert!(!console.alternate && console.sync, "{}", note);
}

/// What was edited is what is listed and run.
fn used(n: &mut impl Nd) {
    let storage = Rc::from(RefCell::from(Storage::default()));
    let program = Rc::from(RefCell::from(Editor::default()));
    let mut session = Session::with(Desk::new(200, 40), 1_000_000, |b| b.make_interactive().with_storage(storage).with_program(program.clone()).build());
    let want: Vec<i32> = (0..1 + n.below(5)).map(|_| n.i32()).collect();
    // Types the lines and then, out of order, completes them.
    let mut typed = vec![];
    let mut missing = vec![];
    for (i, v) in want.iter().enumerate() {
        let line = format!("PROBE {}", int(*v));
        let cut = line.len() - n.below(3);
        missing.push(line[cut..].to_owned());
        if i > 0 {
            typed.push(Key::NewLine);
        }
        typed.extend(line[..cut].chars().map(Key::Char));
    }
    let mut at = want.len() - 1;
    for i in (0..want.len()).rev() {
        while at > i {
            typed.push(Key::ArrowUp);
            at -= 1;
        }
        typed.push(Key::End);
        typed.extend(missing[i].chars().map(Key::Char));
    }
    typed.push(Key::Escape);
    session.console.borrow_mut().keys.extend(typed);
    assert_eq!(None, session.run("EDIT").error);
    let text = program.borrow().text();
    assert_eq!(want.iter().map(|v| format!("PROBE {}\n", int(*v))).collect::<String>(), text);
    assert!(program.borrow().is_dirty());
    session.console.borrow_mut().lines.clear();
    assert_eq!(None, session.run("LIST").error);
    assert_eq!(text.lines().collect::<Vec<_>>(), session.console.borrow().lines, "{}", text);
    let out = session.run("RUN");
    assert_eq!(None, out.error, "{}", text);
    assert_eq!(want, out.ints(), "{}", text);
}

crate::suite! { "P18";
    bounded editing * 30000;
    bounded failing * 20000;
    bounded used * 2000;
}
