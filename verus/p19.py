"""P19: reading a line yields what was typed and shows it all along."""

import re

import p18
from verus_run import File

READLINE = "std/src/console/readline.rs"

WORLD = """
pub enum ErrorKind { UnexpectedEof, Interrupted, Other }
pub struct IoError { pub kind: ErrorKind }
pub type IoResult<T> = Result<T, IoError>;
fn io_error(kind: ErrorKind) -> (r: IoError) ensures r.kind == kind { IoError { kind } }
fn saturating_add(a: usize, b: usize) -> (r: usize) ensures r == (if a + b > usize::MAX { usize::MAX as int } else { a + b }) { if a > usize::MAX - b { usize::MAX } else { a + b } }
fn lesser(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
fn greater(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
fn nonnegative(a: usize) -> (r: i16) requires a <= 32767 ensures r == a { a as i16 }
fn is_windows() -> (r: bool) ensures !r { false }
#[verifier::external_body]
fn dots(s: &str) -> (r: String) ensures r@ == s@ + seq!['.', '.', '.'] { unimplemented!() }
#[verifier::external_body]
fn both(s: &str, t: &str) -> (r: String) ensures r@ == s@ + t@ { unimplemented!() }
#[verifier::external_body]
fn pop_char(s: &mut String) -> (r: Option<char>)
    ensures old(s)@.len() == 0 ==> final(s)@.len() == 0, old(s)@.len() > 0 ==> final(s)@ == old(s)@.drop_last()
{ unimplemented!() }
fn empty_line(l: &LineBuffer) -> (r: bool) ensures r == (l.line@.len() == 0) { l.is_empty() }
pub const SECURE_CHAR: &'static str = %s;
/// What hides a text.
pub open spec fn hidden() -> Seq<char> { SECURE_CHAR@ }
pub broadcast proof fn hides_one(s: Seq<char>, echo: bool)
    ensures #[trigger] mask(s, echo).len() == s.len(), hidden().len() == 1
{ reveal_strlit(%s); }

pub struct CharsXY { pub x: u16, pub y: u16 }
/// A row of a terminal, with a cursor in it and blank when the line is first asked for.
pub struct Console {
    pub row: Ghost<Seq<char>>,
    pub x: Ghost<int>,
    pub keys: Ghost<Seq<Key>>,
    pub columns: Ghost<int>,
    pub failed: Ghost<bool>,
    pub interactive: Ghost<bool>,
}
/// A row in which a text was written.
pub open spec fn put(row: Seq<char>, x: int, s: Seq<char>) -> Seq<char> {
    Seq::new(row.len(), |i: int| if x <= i < x + s.len() { s[i - x] } else { row[i] })
}
impl Console {
    pub open spec fn wf(self) -> bool { 1 <= self.columns@ <= 32767 && self.row@.len() == self.columns@ }
    /// Only the row changes.
    pub open spec fn drawing(self, old: Console) -> bool {
        self.keys == old.keys && self.columns == old.columns && self.interactive == old.interactive && (old.wf() ==> self.wf())
    }
    /// Neither the row nor the cursor in it change.
    pub open spec fn quiet(self, old: Console) -> bool { self.drawing(old) && self.row == old.row && self.x == old.x }
    #[verifier::external_body]
    fn is_interactive(&self) -> (r: bool) ensures r == self.interactive@ { unimplemented!() }
    #[verifier::external_body]
    fn size_chars(&self) -> (r: IoResult<CharsXY>) ensures r is Ok ==> r->Ok_0.x == self.columns@, r is Err ==> self.failed@ { unimplemented!() }
    #[verifier::external_body]
    fn hide_cursor(&mut self) -> (r: IoResult<()>) ensures final(self).quiet(*old(self)), final(self).failed@ == r is Err { unimplemented!() }
    #[verifier::external_body]
    fn show_cursor(&mut self) -> (r: IoResult<()>) ensures final(self).quiet(*old(self)), final(self).failed@ == r is Err { unimplemented!() }
    #[verifier::external_body]
    fn sync_now(&mut self) -> (r: IoResult<()>) ensures final(self).quiet(*old(self)), final(self).failed@ == r is Err { unimplemented!() }
    #[verifier::external_body]
    fn move_within_line(&mut self, off: i16) -> (r: IoResult<()>)
        requires 0 <= old(self).x@ + off < old(self).columns@
        ensures
            final(self).drawing(*old(self)), final(self).failed@ == r is Err,
            r is Ok ==> final(self).row == old(self).row && final(self).x@ == old(self).x@ + off,
    { unimplemented!() }
    #[verifier::external_body]
    fn write(&mut self, s: &str) -> (r: IoResult<()>)
        requires 0 <= old(self).x@ && old(self).x@ + s@.len() < old(self).columns@
        ensures
            final(self).drawing(*old(self)), final(self).failed@ == r is Err,
            r is Ok ==> final(self).row@ == put(old(self).row@, old(self).x@, s@) && final(self).x@ == old(self).x@ + s@.len(),
    { unimplemented!() }
    #[verifier::external_body]
    fn print(&mut self, s: &str) -> (r: IoResult<()>) ensures final(self).drawing(*old(self)), final(self).failed@ == r is Err { unimplemented!() }
    #[verifier::external_body]
    fn read_key(&mut self) -> (r: IoResult<Key>)
        ensures
            final(self).columns == old(self).columns, final(self).row == old(self).row, final(self).x == old(self).x, final(self).interactive == old(self).interactive,
            final(self).failed@ == r is Err,
            r is Ok ==> final(self).keys@ == old(self).keys@.push(r->Ok_0),
            r is Err ==> final(self).keys == old(self).keys,
    { unimplemented!() }
}
/// There are at most as many lines as memory has bytes.
pub broadcast axiom fn text_memory(l: LineBuffer) ensures #[trigger] l.line@.len() <= 0x7fff_ffff_ffff_ffff;

// What typing is.

pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub broadcast proof fn text_changed(v: Seq<String>, i: int, s: String)
    requires 0 <= i < v.len()
    ensures #[trigger] texts(v.update(i, s)) == texts(v).update(i, s@)
{ assert(texts(v.update(i, s)) =~= texts(v).update(i, s@)); }
pub broadcast proof fn text_pushed(v: Seq<String>, s: String)
    ensures #[trigger] texts(v.push(s)) == texts(v).push(s@)
{ assert(texts(v.push(s)) =~= texts(v).push(s@)); }
pub broadcast proof fn text_popped(v: Seq<String>)
    requires v.len() > 0
    ensures #[trigger] texts(v.drop_last()) == texts(v).drop_last()
{ assert(texts(v.drop_last()) =~= texts(v).drop_last()); }
pub open spec fn texts_of(h: Option<&mut Vec<String>>) -> Option<Seq<Seq<char>>> {
    match h { Some(v) => Some(texts(v@)), None => None }
}
/// A line that is being typed, and earlier lines of which one is replaced by it.
pub struct Typing { pub line: Seq<char>, pub pos: int, pub lines: Option<Seq<Seq<char>>>, pub at: int }
impl Typing {
    pub open spec fn to(self, pos: int) -> Typing { Typing { pos, ..self } }
    pub open spec fn without(self, pos: int) -> Typing { Typing { line: head(self.line, pos) + rest(self.line, pos + 1), pos, ..self } }
    pub open spec fn jump(self, at: int) -> Typing {
        let all = self.lines->Some_0.update(self.at, self.line);
        Typing { line: all[at], pos: all[at].len() as int, lines: Some(all), at }
    }
    pub open spec fn wf(self) -> bool {
        &&& 0 <= self.pos <= self.line.len()
        &&& self.lines is Some ==> 0 <= self.at < self.lines->Some_0.len()
    }
    /// What earlier lines become.
    pub open spec fn kept(self) -> Option<Seq<Seq<char>>> {
        match self.lines {
            Some(v) => Some(if self.line.len() == 0 { v.drop_last() } else { v.update(v.len() - 1, self.line) }),
            None => None,
        }
    }
}
/// What keys do.
#[verifier::opaque]
pub open spec fn step(t: Typing, key: Key, room: bool) -> Typing {
    match key {
        Key::ArrowLeft => if t.pos > 0 { t.to(t.pos - 1) } else { t },
        Key::ArrowRight => if t.pos < t.line.len() { t.to(t.pos + 1) } else { t },
        Key::Home => t.to(0),
        Key::End => t.to(t.line.len() as int),
        Key::Backspace => if t.pos > 0 { t.without(t.pos - 1) } else { t },
        Key::Delete | Key::EofOrDelete => if t.pos < t.line.len() { t.without(t.pos) } else { t },
        Key::Char(c) => if room { Typing { line: head(t.line, t.pos) + seq![c] + rest(t.line, t.pos), pos: t.pos + 1, ..t } } else { t },
        Key::ArrowUp => if t.lines is Some && t.at > 0 { t.jump(t.at - 1) } else { t },
        Key::ArrowDown => if t.lines is Some && t.at < t.lines->Some_0.len() - 1 { t.jump(t.at + 1) } else { t },
        _ => t,
    }
}
pub open spec fn run(t: Typing, keys: Seq<Key>, room: bool) -> Typing
    decreases keys.len()
{
    if keys.len() == 0 { t } else { step(run(t, keys.drop_last(), room), keys.last(), room) }
}
pub broadcast proof fn dropped(keys: Seq<Key>, key: Key)
    ensures (#[trigger] keys.push(key)).drop_last() == keys
{
    assert(keys.push(key).drop_last() =~= keys);
}
pub broadcast proof fn pushed(t: Typing, keys: Seq<Key>, key: Key, room: bool)
    ensures #[trigger] run(t, keys.push(key), room) == step(run(t, keys, room), key, room)
{
    assert(keys.push(key).drop_last() =~= keys);
}
pub open spec fn enters(key: Key) -> bool { key is NewLine || key is CarriageReturn }
/// What reading ends with, if anything.
pub open spec fn refused(t: Typing, key: Key) -> Option<ErrorKind> {
    if key is Interrupt { Some(ErrorKind::Interrupted) } else if key is EofOrDelete && t.line.len() == 0 { Some(ErrorKind::UnexpectedEof) } else { None }
}
/// No key ends the line.
pub open spec fn going(t: Typing, keys: Seq<Key>, room: bool) -> bool
    decreases keys.len()
{
    keys.len() > 0 ==> going(t, keys.drop_last(), room) && !enters(keys.last()) && refused(run(t, keys.drop_last(), room), keys.last()) is None
}
pub broadcast proof fn going_pushed(t: Typing, keys: Seq<Key>, key: Key, room: bool)
    ensures #[trigger] going(t, keys.push(key), room) == (going(t, keys, room) && !enters(key) && refused(run(t, keys, room), key) is None)
{
    assert(keys.push(key).drop_last() =~= keys);
}
/// Keys of which the last one enters the line.
pub open spec fn entered(t: Typing, keys: Seq<Key>, room: bool) -> bool { keys.len() > 0 && going(t, keys.drop_last(), room) && enters(keys.last()) }
/// Keys of which the last one abandons the line.
pub open spec fn abandoned(t: Typing, keys: Seq<Key>, room: bool, kind: ErrorKind) -> bool {
    keys.len() > 0 && going(t, keys.drop_last(), room) && refused(run(t, keys.drop_last(), room), keys.last()) == Some(kind)
}
/// What is done without a terminal.
pub open spec fn raw(keys: Seq<Key>) -> Seq<char>
    decreases keys.len()
{
    if keys.len() == 0 { Seq::empty() } else {
        let s = raw(keys.drop_last());
        match keys.last() {
            Key::Char(c) => s.push(c),
            Key::Unknown => s.push('?'),
            Key::Backspace => if s.len() > 0 { s.drop_last() } else { s },
            _ => s,
        }
    }
}
pub broadcast proof fn raw_pushed(keys: Seq<Key>, key: Key)
    ensures #[trigger] raw(keys.push(key)) == (match key {
        Key::Char(c) => raw(keys).push(c),
        Key::Unknown => raw(keys).push('?'),
        Key::Backspace => if raw(keys).len() > 0 { raw(keys).drop_last() } else { raw(keys) },
        _ => raw(keys),
    })
{
    assert(keys.push(key).drop_last() =~= keys);
}
/// Keys that do not end a line without a terminal.
pub open spec fn flowing(keys: Seq<Key>) -> bool
    decreases keys.len()
{
    keys.len() > 0 ==> flowing(keys.drop_last()) && !enters(keys.last()) && !(keys.last() is Interrupt || keys.last() is EofOrDelete)
}
pub broadcast proof fn flowing_pushed(keys: Seq<Key>, key: Key)
    ensures #[trigger] flowing(keys.push(key)) == (flowing(keys) && !enters(key) && !(key is Interrupt || key is EofOrDelete))
{
    assert(keys.push(key).drop_last() =~= keys);
}

// What is shown.

/// What is shown of a line.
pub open spec fn mask(s: Seq<char>, echo: bool) -> Seq<char> { if echo { s } else { Seq::new(s.len(), |i: int| hidden()[0]) } }
pub open spec fn cell(s: Seq<char>, i: int) -> char { if 0 <= i < s.len() { s[i] } else { ' ' } }
/// Whether a text and nothing else is in a row from a column on.
pub open spec fn area(row: Seq<char>, base: int, s: Seq<char>) -> bool {
    forall|i: int| base <= i < row.len() ==> #[trigger] row[i] == cell(s, i - base)
}
/// Whether a row is the same before a column.
pub open spec fn prefix(a: Seq<char>, b: Seq<char>, base: int) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < base ==> #[trigger] a[i] == b[i]
}
impl Readline<'_, '_> {
    pub open spec fn typing(self) -> Typing {
        Typing { line: self.line.line@, pos: self.pos as int, lines: texts_of(self.history), at: self.history_pos as int }
    }
    pub open spec fn room(self) -> bool { self.input_width > 0 }
    /// Where the line starts on the screen.
    pub open spec fn base(self) -> int { self.console.columns@ - 1 - self.input_width }
    pub open spec fn shown(self) -> Seq<char> { between(mask(self.line.line@, self.echo), self.view_start as int, self.view_start + self.input_width) }
    pub open spec fn wf(self) -> bool {
        &&& self.typing().wf() && self.console.wf() && self.base() >= 0
        &&& self.view_start <= self.pos <= self.view_start + self.input_width
        &&& self.rendered@ == self.shown() && self.rendered_len == self.rendered@.len()
        &&& area(self.console.row@, self.base(), self.shown())
        &&& self.console.x@ == self.base() + self.pos - self.view_start
    }
    /// What no key changes.
    pub open spec fn fixed(self, old: Self) -> bool {
        &&& self.echo == old.echo && self.input_width == old.input_width
        &&& self.console.drawing(*old.console) && prefix(self.console.row@, old.console.row@, self.base())
        &&& (self.history is Some) == (old.history is Some)
    }
}
/// What lines are when they are given back.
#[verifier::prophetic]
pub open spec fn given(h: Option<&mut Vec<String>>) -> Option<Seq<Seq<char>>> {
    match h { Some(v) => Some(texts((*final(v))@)), None => None }
}
pub open spec fn size_of_lines(h: Option<Seq<Seq<char>>>) -> int { match h { Some(v) => v.len() as int, None => 0 } }
/// The text before the line.
pub open spec fn asked(prompt: Seq<char>, columns: int) -> Seq<char> {
    if prompt.len() < columns { prompt } else if columns >= 5 { head(prompt, columns - 5) + seq!['.', '.', '.'] } else { Seq::empty() }
}
/// What the line is at first.
pub open spec fn opened(previous: Seq<char>, lines: Option<Seq<Seq<char>>>) -> Typing {
    Typing {
        line: previous,
        pos: previous.len() as int,
        lines: match lines { Some(v) => Some(v.push(previous)), None => None },
        at: size_of_lines(lines),
    }
}
pub open spec fn has_room(prompt: Seq<char>, columns: int) -> bool { asked(prompt, columns).len() + 1 < columns }
/// What reading a line on a terminal results in.
pub open spec fn reading(r: IoResult<String>, prompt: Seq<char>, previous: Seq<char>, lines: Option<Seq<Seq<char>>>, after: Option<Seq<Seq<char>>>, old: Console, console: Console) -> bool {
    let (first, room) = (opened(previous, lines), has_room(prompt, old.columns@));
    let keys = console.keys@;
    match r {
        Ok(s) => entered(first, keys, room) && s@ == run(first, keys.drop_last(), room).line && after == run(first, keys.drop_last(), room).kept(),
        Err(e) => {
            &&& console.failed@ || abandoned(first, keys, room, e.kind)
            &&& (after is Some) == (lines is Some) && size_of_lines(after) == size_of_lines(lines)
            &&& console.failed@ || after is None || after->Some_0 == run(first, keys.drop_last(), room).lines->Some_0.drop_last()
        },
    }
}
/// What reading a line results in otherwise.
pub open spec fn reading_raw(r: IoResult<String>, console: Console) -> bool {
    let keys = console.keys@;
    match r {
        Ok(s) => keys.len() > 0 && flowing(keys.drop_last()) && enters(keys.last()) && s@ == raw(keys.drop_last()),
        Err(e) => console.failed@ || keys.len() > 0 && flowing(keys.drop_last()) && match keys.last() {
            Key::Interrupt => e.kind is Interrupted,
            Key::EofOrDelete => e.kind is UnexpectedEof,
            _ => false,
        },
    }
}
/// That borrowed lines are given back.
#[verifier::prophetic]
pub open spec fn lent(now: Option<&mut Vec<String>>, old: Option<&mut Vec<String>>) -> bool {
    match (now, old) { (Some(a), Some(b)) => *final(a) == *final(b), (None, None) => true, _ => false }
}
"""


def typed(body):
    """Spells out what the standard library does."""
    for a, b in (
            (r"\bCow::from\(prompt\)", "owned(prompt)"),
            (r"\bCow::from\(\"\"\)", "new_string()"),
            (r"\bCow::from\(format!\(\"\{\}\.\.\.\", (\w+)\)\)", r"dots(&\1)"),
            (r"\bformat!\(\"\{\}\{\}\", (\w+), ([\w.]+)\)", r"both(&\1, &\2)"),
            (r"\bprompt\.chars\(\)\.count\(\)", "count(&prompt)"),
            (r"\bprompt\.chars\(\)", "chars_of(&prompt)"),
            (r"\b(prompt|readline\.rendered)\.is_empty\(\)", r"no_text(&\1)"),
            (r"rendered: String::new\(\)", "rendered: new_string()"),
            (r"\bcfg!\(not\(target_os = \"windows\"\)\)", "!is_windows()"),
            (r"\.await\b", ""),
            (r"io::Error::new\(io::ErrorKind::(\w+), \"[^\"]*\"\)", r"io_error(ErrorKind::\1)"),
            (r"io::Error::other\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)", r"io_error(ErrorKind::Other)"),
            (r"\busize::from\(([^()]*)\)", r"((\1) as usize)"),
            (r"let mut buf = \[0u8; 4\];", ""),
            (r"ch\.encode_utf8\(&mut buf\)", "&of_char(ch)"),
            (r"\bself\.rendered\.chars\(\)\.count\(\)", "count(&self.rendered)"),
            (r"\bself\.rendered\.is_empty\(\)", "no_text(&self.rendered)"),
            (r"(\bSECURE_CHAR|\" \")\.repeat\(", r"repeat(\1, "),
            (r"\(self\.line\.len\(\) - view_start\)\.min\(self\.input_width\)", "lesser(self.line.len() - view_start, self.input_width)"),
            (r"\b(self\.rendered_len)\.max\((\w+)\)", r"greater(\1, \2)"),
            (r"\b((?:self|this)\.pos)\.saturating_sub\(", r"saturating_sub(\1, "),
            (r"\((\w+)\.pos \+ 1\)\.min\(\1\.line\.len\(\)\)", r"lesser(\1.pos + 1, \1.line.len())"),
            (r"-\((\w+) as i16\)", r"-nonnegative(\1)"),
            (r"-\(\(([^()]*|[^()]*\(\)[^()]*)\) as i16\)", r"-nonnegative(\1)"),
            (r"\((new_pos - self\.view_start)\) as i16 - (old_pos) as i16", r"nonnegative(\1) - nonnegative(\2)"),
            (r"match self\.history\.as_deref_mut\(\)", "match self.history.as_mut()"),
            (r"= (self|this)\.line\.to_string\(\)", r"= owned(&\1.line.line)"),
            (r"history\[(\w+)\]\.clone\(\)", r"owned(&history[\1])"),
            (r"LineBuffer::from\(&new_line\)", "LineBuffer::from(new_line.as_str())"),
            (r"\b(self|this)\.line\.is_empty\(\)", r"empty_line(&\1.line)"),
            (r"(?<![\w.])line\.is_empty\(\)", "no_text(&line)"),
    ):
        body = re.sub(a, b, body)
    return p18.library(body)


TYPED = (typed, "functions of the standard library are called through functions with assumed contracts, and await is dropped")
CONSOLE = [(r"&(?:'a )?mut dyn Console", lambda m: "&'a mut Console" if "'a" in m[0] else "&mut Console", "the console is any console that keeps the contract"),
           (r"io::Result<", "IoResult<", "errors of input and output have a kind only"),
           (r"\basync fn", "fn", "")]
SELF = CONSOLE + [(r"\(mut self\)", "(self)", "a parameter that is changed is a variable")]


def owned(body):
    """Names the variable that a parameter is."""
    return "{ let mut this = self; " + typed(re.sub(r"\bself\b", "this", body)) + " }"


OWNED = (owned, TYPED[1])


def outer(body):
    """Spells out what the standard library does."""
    for a, b in (
            (r"\bString::new\(\)", "new_string()"),
            (r"\bhistory\.as_deref\(\)\.map_or\(0, Vec::len\)", "(match &history { Some(lines) => lines.len(), None => 0 })"),
            (r"\bhistory\.as_deref_mut\(\)", "(match history.as_mut() { Some(lines) => Some(&mut **lines), None => None })"),
            (r"if (result\.is_err\(\))\s*&& (let Some\(\w+\) = history)\s*\{([^{}]*)\}", r"if \1 { if \2 {\3} }"),
            (r"\bline\.pop\(\)", "pop_char(&mut line)"),
            (r"\bline\.push\(", "push_char(&mut line, "),
    ):
        body = re.sub(a, b, body)
    return typed(body)


OUTER = (outer, TYPED[1])


def readline(u):
    u.add("verus! {\nglobal size_of usize == 8;\n")
    p18.lines(u, assumed=True)
    f = File(READLINE)
    console = File("std/src/console/mod.rs")
    u.add(re.sub(r"(?m)^\s*#\[.*\]\n", "", console.item("enum", "Key")))
    u.add(f.item("enum", "DispatchResult"))
    fields = lambda text: re.sub(r"(?m)^( +)(?:pub )?(\w+:)", r"\1pub \2", re.sub(r"(?m)^(pub )?struct", "pub struct", text))
    u.add(fields(f.item("struct", "Readline")).replace("dyn Console", "Console"))
    u.add(WORLD.replace("%s", f.constant("SECURE_CHAR")))
    u.add("impl<'a, 'h> Readline<'a, 'h> {")
    rl = dict(within="impl<'a, 'h> Readline<'a, 'h>", rewrite=TYPED, subst=CONSOLE)
    use = "broadcast use {text_memory, hides_one, text_changed, text_pushed, text_popped};"
    u.fn(f, "adjust_view", contract="""
    requires self.input_width <= 32767, view_start <= 0x7fff_ffff_ffff_ffff,
    ensures
        r <= pos <= r + self.input_width, r <= view_start || r <= pos,
        view_start <= pos <= view_start + self.input_width ==> r == view_start,
""", **rl)
    u.fn(f, "current_pos", contract="requires self.view_start <= self.pos ensures r == self.pos - self.view_start", **rl)
    u.fn(f, "render_line", contract="""
    requires view_start <= self.line.line@.len(), self.input_width <= 32767,
    ensures r@ =~= between(mask(self.line.line@, self.echo), view_start as int, view_start + self.input_width)
""", start=use, **rl)
    kept = """
        final(self).echo == old(self).echo, final(self).input_width == old(self).input_width,
        size_of_lines(texts_of(final(self).history)) == size_of_lines(texts_of(old(self).history)),
        *final(final(self).console) == *final(old(self).console), lent(final(self).history, old(self).history),
"""
    shown = """
        final(self).rendered@ == final(self).shown(), final(self).rendered_len == final(self).rendered@.len(),
        final(self).line == old(self).line, final(self).pos == old(self).pos, final(self).console == old(self).console, final(self).history == old(self).history,
        final(self).history_pos == old(self).history_pos,
""" + kept
    u.fn(f, "sync_rendered", contract="""
    requires old(self).view_start <= old(self).line.line@.len(), old(self).input_width <= 32767,
    ensures
        final(self).view_start == old(self).view_start,
""" + shown, **rl)
    u.fn(f, "reset_view_to_end", contract="""
    requires old(self).pos <= old(self).line.line@.len(), old(self).input_width <= 32767,
    ensures
        final(self).view_start <= final(self).pos <= final(self).view_start + final(self).input_width,
""" + shown, **rl)
    drawn = """
        final(self).line == old(self).line, final(self).pos == old(self).pos, final(self).history == old(self).history,
        final(self).history_pos == old(self).history_pos, final(self).view_start == old(self).view_start,
        final(self).rendered == old(self).rendered, final(self).rendered_len == old(self).rendered_len,
        final(self).console.drawing(*old(self).console), r is Err ==> final(self).console.failed@,
""" + kept
    u.fn(f, "redraw_line", contract="""
    requires
        old(self).console.wf(), old(self).base() >= 0, old_pos <= old(self).input_width, clear_len <= old(self).input_width,
        old(self).console.x@ == old(self).base() + old_pos, new_pos <= old(self).rendered@.len() || new_pos <= clear_len,
        old(self).rendered_len == old(self).rendered@.len(), old(self).rendered@.len() <= old(self).input_width,
        forall|i: int| old(self).base() + clear_len <= i < old(self).console.row@.len() ==> old(self).console.row@[i] == ' ',
    ensures
        r is Ok ==> prefix(final(self).console.row@, old(self).console.row@, old(self).base()) && area(final(self).console.row@, old(self).base(), old(self).rendered@),
        r is Ok ==> final(self).console.x@ == old(self).base() + new_pos,
""" + drawn, start="proof { reveal_strlit(\" \"); }", **rl)
    u.fn(f, "erase_at", contract="""
    requires
        old(self).wf(), old(self).view_start == 0, old(self).line.line@.len() <= old(self).input_width, cursor_pos == old(self).pos,
        remove_pos < old(self).line.line@.len(), remove_pos <= cursor_pos,
    ensures
        final(self).pos == old(self).pos, final(self).history == old(self).history,
        final(self).history_pos == old(self).history_pos, final(self).view_start == old(self).view_start,
        final(self).rendered == old(self).rendered, final(self).rendered_len == old(self).rendered_len,
        final(self).console.drawing(*old(self).console), r is Err ==> final(self).console.failed@,
        r is Ok ==> final(self).line.line@ == head(old(self).line.line@, remove_pos as int) + rest(old(self).line.line@, remove_pos + 1),
        r is Ok ==> prefix(final(self).console.row@, old(self).console.row@, old(self).base()) && area(final(self).console.row@, old(self).base(), mask(final(self).line.line@, old(self).echo)),
        r is Ok ==> final(self).console.x@ == old(self).base() + remove_pos,
""" + kept, start=use + "\nproof { reveal_strlit(\" \"); }", **rl)
    # What each key does.
    def does(key, more=""):
        return """
    requires old(self).wf(), %s
    ensures
        r is Ok ==> final(self).wf() && final(self).fixed(*old(self)) && final(self).typing() == step(old(self).typing(), %s, old(self).room()) && r->Ok_0 is Continue,
        r is Err ==> final(self).console.failed@, final(self).console.drawing(*old(self).console),
""" % (more, key) + kept
    u.fn(f, "do_move_to", contract=does("", "new_pos <= old(self).line.line@.len(),").replace("step(old(self).typing(), , old(self).room())", "old(self).typing().to(new_pos as int)"), start=use + "\nproof { reveal(step); }", **rl)
    for name, key in (("do_backspace", "Key::Backspace"), ("do_char", "Key::Char(ch)"), ("do_delete", "Key::Delete"), ("do_end", "Key::End"),
                      ("do_home", "Key::Home"), ("do_ignore", "Key::Tab")):
        u.fn(f, name, contract=does(key), start=use + "\nproof { reveal_strlit(\" \"); reveal(step); }", **rl)
    for name in ("do_carriage_return", "do_newline"):
        u.fn(f, name, contract="""
    requires old(self).wf(),
    ensures
        final(self).typing() == old(self).typing(), final(self).console.drawing(*old(self).console), r is Ok ==> r->Ok_0 is Submit, r is Err ==> final(self).console.failed@,
""" + kept, **rl)
    u.fn(f, "do_interrupt", contract="""
    requires old(self).wf(),
    ensures final(self).typing() == old(self).typing(), r is Err, r->Err_0.kind is Interrupted, final(self).console.quiet(*old(self).console),
""" + kept, **rl)
    u.fn(f, "do_eof_or_delete", contract="""
    requires old(self).wf(),
    ensures
        r is Ok ==> final(self).wf() && final(self).fixed(*old(self)) && final(self).typing() == step(old(self).typing(), Key::EofOrDelete, old(self).room()) && r->Ok_0 is Continue,
        r is Ok ==> refused(old(self).typing(), Key::EofOrDelete) is None,
        r is Err ==> final(self).console.failed@ || refused(old(self).typing(), Key::EofOrDelete) == Some(r->Err_0.kind) && final(self).typing() == old(self).typing(),
        final(self).console.drawing(*old(self).console),
""" + kept, start="proof { reveal(step); }", **rl)
    u.fn(f, "do_up_down", contract=does("if delta < 0 { Key::ArrowUp } else { Key::ArrowDown }"), start=use + "\nproof { reveal(step); }", **rl)
    u.fn(f, "finish", contract="""
    requires self.typing().wf(),
    ensures r@ == self.line.line@, given(self.history) == self.typing().kept(), *final(self.console) == *old(self.console),
""", start=use, **dict(rl, rewrite=OWNED, subst=SELF))
    blank = "%s.wf() && %s.x@ == 0 && area(%s.row@, 0, Seq::empty())" % (("old(console)",) * 3)
    u.fn(f, "new", contract="""
    requires %s,
    ensures
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.echo == echo && r->Ok_0.base() == asked(prompt@, old(console).columns@).len(),
        r is Ok ==> r->Ok_0.typing() == opened(previous@, texts_of(history)),
        r is Ok ==> forall|i: int| 0 <= i < r->Ok_0.base() ==> #[trigger] r->Ok_0.console.row@[i] == asked(prompt@, old(console).columns@)[i],
        r is Ok ==> r->Ok_0.console.drawing(*old(console)) && *final(r->Ok_0.console) == *final(console) && lent(r->Ok_0.history, history),
        r is Err ==> final(console).failed@ && final(console).drawing(*old(console)),
        r is Err ==> match (history, given(history)) { (Some(v), Some(w)) => w == texts(v@) || w == texts(v@).push(previous@), (None, None) => true, _ => false },
""" % blank, start=use, **rl)
    u.fn(f, "run", contract="""
    requires self.wf(), old(self.console).keys@ =~= Seq::empty(),
    ensures
        r is Ok ==> entered(self.typing(), final(self.console).keys@, self.room()),
        r is Ok ==> r->Ok_0@ == run(self.typing(), final(self.console).keys@.drop_last(), self.room()).line,
        r is Ok ==> given(self.history) == run(self.typing(), final(self.console).keys@.drop_last(), self.room()).kept(),
        r is Err ==> final(self.console).failed@ || abandoned(self.typing(), final(self.console).keys@, self.room(), r->Err_0.kind),
        r is Err ==> final(self.console).failed@ || given(self.history) == run(self.typing(), final(self.console).keys@.drop_last(), self.room()).lines,
        size_of_lines(given(self.history)) + 1 >= size_of_lines(texts_of(self.history)), (given(self.history) is Some) == (self.history is Some),
        r is Err ==> size_of_lines(given(self.history)) == size_of_lines(texts_of(self.history)),
""", attrs="#[verifier::exec_allows_no_decreases_clause]\n#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]", loops=["""
    invariant_except_break
        going(self.typing(), this.console.keys@, self.room()),
        this.typing() == run(self.typing(), this.console.keys@, self.room()),
    invariant
        this.wf(), this.console.columns == first.columns, this.console.interactive == first.interactive, this.echo == self.echo, this.input_width == self.input_width, *final(this.console) == *final(self.console), lent(this.history, self.history),
        size_of_lines(texts_of(this.history)) == size_of_lines(texts_of(self.history)),
    ensures
        entered(self.typing(), this.console.keys@, self.room()),
        this.typing() == run(self.typing(), this.console.keys@.drop_last(), self.room()),
"""], start=use + "\nlet ghost first = *self.console;", loop_start={0: use.replace("{", "{dropped, pushed, going_pushed, ") + "\nproof { reveal(step); }"}, **dict(rl, rewrite=OWNED, subst=SELF))
    u.add("}")
    u.fn(f, "read_line_interactive", contract="""
    requires %s, old(console).keys@ =~= Seq::empty(),
    ensures
        reading(r, prompt@, previous@, texts_of(history), given(history), *old(console), *final(console)),
""" % blank, start=use, rewrite=OUTER, subst=CONSOLE)
    u.fn(f, "read_line_raw", contract="""
    requires old(console).keys@ =~= Seq::empty(),
    ensures reading_raw(r, *final(console)),
""", attrs="#[verifier::exec_allows_no_decreases_clause]", loops=["""
    invariant_except_break
        flowing(console.keys@), line@ == raw(console.keys@),
    ensures
        console.keys@.len() > 0, flowing(console.keys@.drop_last()), enters(console.keys@.last()), line@ == raw(console.keys@.drop_last()),
"""], loop_start={0: "broadcast use {dropped, raw_pushed, flowing_pushed};"}, rewrite=OUTER, subst=CONSOLE)
    u.fn(f, "read_line", contract="""
    requires old(console).interactive@ ==> %s, old(console).keys@ =~= Seq::empty(),
    ensures
        old(console).interactive@ ==> reading(r, prompt@, previous@, texts_of(history), given(history), *old(console), *final(console)),
        !old(console).interactive@ ==> reading_raw(r, *final(console)) && given(history) == texts_of(history),
""" % blank, rewrite=OUTER, subst=CONSOLE)
    u.fn(f, "read_line_secure", contract="""
    requires %s, old(console).keys@ =~= Seq::empty(),
    ensures
        old(console).interactive@ ==> reading(r, prompt@, Seq::empty(), None, None, *old(console), *final(console)),
        !old(console).interactive@ ==> r is Err && *final(console) == *old(console),
""" % blank, start="proof { reveal_strlit(\"\"); assert(\"\"@ =~= Seq::empty()); }", rewrite=OUTER, subst=CONSOLE)
    u.add("}\nfn main() {}")


readline.rlimit = 100
readline.threads = 4
UNITS = [readline]
