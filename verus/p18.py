"""P18: the editor changes exactly the text at the cursor."""

import re

import p16
from verus_run import File

LINE = "std/src/console/linebuffer.rs"
EDITOR = "repl/src/editor.rs"

OPEN = """
verus! {
global size_of usize == 8;
pub enum CallError { Io }
pub type IoResult<T> = Result<T, CallError>;
#[verifier::external_body]
fn opaque() -> String { unimplemented!() }
"""

CHARS = """
/// The start of a text.
pub open spec fn head(s: Seq<char>, n: int) -> Seq<char> { if n < s.len() { s.take(n) } else { s } }
/// What follows the start of a text.
pub open spec fn rest(s: Seq<char>, n: int) -> Seq<char> { if n < s.len() { s.skip(n) } else { Seq::empty() } }
/// Some of the characters of a text.
pub open spec fn between(s: Seq<char>, a: int, b: int) -> Seq<char> { head(rest(s, a), if b > a { b - a } else { 0 }) }

/// An iterator over characters.
pub struct Chars { pub s: Ghost<Seq<char>> }
#[verifier::external_body]
fn chars_of(s: &str) -> (r: Chars) ensures r.s@ == s@ { unimplemented!() }
#[verifier::external_body]
fn once(c: char) -> (r: Chars) ensures r.s@ == seq![c] { unimplemented!() }
impl Chars {
    #[verifier::external_body]
    fn count(self) -> (r: usize) ensures r == self.s@.len(), r <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
    #[verifier::external_body]
    fn skip(self, n: usize) -> (r: Chars) ensures r.s@ == rest(self.s@, n as int) { unimplemented!() }
    #[verifier::external_body]
    fn take(self, n: usize) -> (r: Chars) ensures r.s@ == head(self.s@, n as int) { unimplemented!() }
    #[verifier::external_body]
    fn chain(self, next: Chars) -> (r: Chars) ensures r.s@ == self.s@ + next.s@ { unimplemented!() }
    #[verifier::external_body]
    fn collect(self) -> (r: String) ensures r@ == self.s@ { unimplemented!() }
}
#[verifier::external_body]
fn push_char(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
#[verifier::external_body]
fn append(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
#[verifier::external_body]
fn new_string() -> (r: String) ensures r@.len() == 0 { unimplemented!() }
#[verifier::external_body]
fn string_with(capacity: usize) -> (r: String) ensures r@.len() == 0, reserved(r) == capacity { unimplemented!() }
pub uninterp spec fn reserved(s: String) -> int;
#[verifier::external_body]
fn capacity(s: &String) -> (r: usize) ensures r == reserved(*s) { unimplemented!() }
#[verifier::external_body]
fn concat(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
fn is_whitespace(c: char) -> (r: bool) ensures r == whitespace(c) { unimplemented!() }
fn no_text(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { count(s) == 0 }
#[verifier::external_body]
fn saturating_sub(a: usize, b: usize) -> (r: usize) ensures r == (if a > b { a - b } else { 0 }) { unimplemented!() }

pub trait Textual: Sized {
    spec fn said(&self) -> Seq<char>;
    fn to_text(self) -> (r: String) ensures r@ == self.said();
}
impl Textual for String {
    open spec fn said(&self) -> Seq<char> { self@ }
    fn to_text(self) -> (r: String) { self }
}
impl Textual for &str {
    open spec fn said(&self) -> Seq<char> { self@ }
    fn to_text(self) -> (r: String) { owned(self) }
}
impl Textual for &String {
    open spec fn said(&self) -> Seq<char> { self@ }
    fn to_text(self) -> (r: String) { owned(self) }
}
impl LineBuffer {
    fn from<T: Textual>(t: T) -> (r: LineBuffer) ensures r.line@ == t.said() { LineBuffer { line: t.to_text() } }
    fn default() -> (r: LineBuffer) ensures r.line@.len() == 0 { LineBuffer { line: new_string() } }
}
"""


def library(body):
    """Spells out what the standard library does with texts."""
    for a, b in (
            (r"\bself\s*\.line\s*\.chars\(\)", "chars_of(&self.line)"),
            (r"\bs\.chars\(\)", "chars_of(s)"),
            (r"\biter::once\(", "once("),
            (r"\.collect::<String>\(\)", ".collect()"),
            (r"\bString::with_capacity\(", "string_with("),
            (r"\bString::new\(\)", "new_string()"),
            (r"\bString::from\((\w+)\)", r"owned(\1)"),
            (r"\bself\.line\.is_empty\(\)", "no_text(&self.line)"),
            (r"\b(\w+)\.saturating_sub\(", r"saturating_sub(\1, "),
            (r"\bself\.line\.push_str\(&(\w+)\.line\)", r"append(&mut self.line, &\1.line)"),
            (r"\bdebug_assert!\((.*?)\);", r"assert_holds(\1);"),
            (r"\bdebug_assert!\(\s*([^;]*?)\s*\);", r"assert_holds(\1);"),
            (r"(\w+)\.is_whitespace\(\)", r"is_whitespace(\1)"),
            (r"\b(indent|status|new_text)\.push\(", r"push_char(&mut \1, "),
            (r"\b(indent|status|new_text)\.push_str\(", r"append(&mut \1, "),
            (r"\b(\w+)\.to_string\(\)", r"owned(&\1.line)"),
    ):
        body = re.sub(a, b, body)
    return body


LIBRARY = (library, "functions of the standard library over texts are called through functions with assumed contracts")

SPEC = {
    "with_capacity": "ensures r.line@.len() == 0",
    "len": "ensures r == self.line@.len(), r <= 0x7fff_ffff_ffff_ffff",
    "chars": "ensures r.s@ == self.line@",
    "end": "ensures r@ == rest(self.line@, start_pos as int)",
    "start": "ensures r@ == head(self.line@, end_pos as int)",
    "range": "ensures r@ == between(self.line@, start_pos as int, end_pos as int)",
    "is_empty": "ensures r == (self.line@.len() == 0)",
    "remove": """
    requires pos < usize::MAX
    ensures final(self).line@ =~= head(old(self).line@, pos as int) + rest(old(self).line@, pos + 1)
""",
    "insert": "ensures final(self).line@ =~= head(old(self).line@, pos as int) + seq![ch] + rest(old(self).line@, pos as int)",
    "into_inner": "ensures r@ == self.line@",
    "insert_str": "ensures final(self).line@ =~= head(old(self).line@, pos as int) + s@ + rest(old(self).line@, pos as int)",
    "push_str": "ensures final(self).line@ == old(self).line@ + s.line@",
    "split_off": "ensures final(self).line@ == head(old(self).line@, at as int), r.line@ == rest(old(self).line@, at as int)",
}
KINDS = [(r"Chars<'_>", "Chars", "the iterator is one with assumed contracts")]


def lines(u, assumed=False):
    """Adds lines of text."""
    f = File(LINE)
    u.add(p16.TEXTS)
    u.add("fn assert_holds(b: bool) requires b {}")
    u.add(re.sub(r"(?m)^( +)(?:pub )?(\w+:)", r"\1pub \2", f.item("struct", "LineBuffer")))
    u.add(CHARS)
    u.add("impl LineBuffer {")
    for name, contract in SPEC.items():
        u.fn(f, name, within="impl LineBuffer", contract=contract, rewrite=LIBRARY, subst=KINDS, assumed=assumed)
    u.add("}")


def linebuffer(u):
    u.add(OPEN)
    lines(u)
    f = File(LINE)
    u.add("impl LineBuffer {")
    for kind in ("&str", "&String", "String"):
        u.fn(f, "from", within="impl From<%s>" % kind, rename="from_" + kind.strip("&").lower() + ("_ref" if kind == "&String" else ""),
             contract="ensures r.line@ == %s@" % ("line" if kind == "String" else "s"),
             rewrite=LIBRARY, subst=[(r"\bs\.as_str\(\)", "s", "")])
    u.add("}\n}\nfn main() {}")


# The editor.

"""Keys by what they do: the loop of the editor is verified once for each kind."""
CASES = (
    ("backspace_last", "key is Backspace && d.col > 0 && d.col == d.here().len()"),
    ("backspace_within", "key is Backspace && d.col > 0 && d.col != d.here().len()"),
    ("backspace_join", "key is Backspace && d.col <= 0"),
    ("delete_within", "(key is Delete || key is EofOrDelete) && d.col < d.here().len()"),
    ("delete_join", "(key is Delete || key is EofOrDelete) && d.col >= d.here().len()"),
    ("char", "key is Char"),
    ("newline", "key is NewLine || key is CarriageReturn"),
    ("tab", "key is Tab"),
    ("vertical", "key is ArrowUp || key is ArrowDown || key is PageUp || key is PageDown"),
    ("horizontal", "key is ArrowLeft || key is ArrowRight || key is Home || key is End"),
    ("other", "key is Escape || key is Interrupt || key is Unknown"),
)
READS = "".join("""
    #[verifier::external_body]
    fn read_key_%s(&mut self, d: Ghost<Doc>) -> (r: IoResult<Key>)
        ensures
            final(self).columns == old(self).columns, final(self).rows == old(self).rows,
            r is Ok ==> final(self).keys@ == old(self).keys@.push(r->Ok_0) && case_%s(r->Ok_0, d@),
            r is Err ==> final(self).keys == old(self).keys,
    { unimplemented!() }""" % (n, n) for n, _ in CASES)
COVER = "".join("pub open spec fn case_%s(key: Key, d: Doc) -> bool { %s }\n" % c for c in CASES) + """
/// Nothing is left out by looking at one kind of keys at a time.
proof fn all_cases(key: Key, d: Doc)
    ensures %s
{}
""" % " || ".join("case_%s(key, d)" % n for n, _ in CASES)

WORLD = """
#[derive(Clone, Copy)]
pub struct CharsXY { pub x: u16, pub y: u16 }
impl CharsXY {
    fn new(x: u16, y: u16) -> (r: CharsXY) ensures r.x == x, r.y == y { CharsXY { x, y } }
    fn default() -> (r: CharsXY) ensures r.x == 0, r.y == 0 { CharsXY { x: 0, y: 0 } }
}
/// Any console that has room for a line of text and the status bar.
pub struct Console { pub keys: Ghost<Seq<Key>>, pub columns: Ghost<int>, pub rows: Ghost<int> }
pub open spec fn roomy(c: Console) -> bool { 1 <= c.columns@ <= 65535 && 2 <= c.rows@ <= 65535 }
impl Console {
    /// No key is read.
    pub open spec fn quiet(self, old: Console) -> bool { self.keys == old.keys && self.columns == old.columns && self.rows == old.rows }
    #[verifier::external_body]
    fn size_chars(&self) -> (r: IoResult<CharsXY>) ensures roomy(*self), r is Ok ==> r->Ok_0.x == self.columns@ && r->Ok_0.y == self.rows@ { unimplemented!() }
    #[verifier::external_body]
    fn hide_cursor(&mut self) -> (r: IoResult<()>) ensures final(self).quiet(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    fn show_cursor(&mut self) -> (r: IoResult<()>) ensures final(self).quiet(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    fn sync_now(&mut self) -> (r: IoResult<()>) ensures final(self).quiet(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    fn locate(&mut self, pos: CharsXY) -> (r: IoResult<()>)
        requires pos.x < old(self).columns@, pos.y < old(self).rows@
        ensures final(self).quiet(*old(self))
    { unimplemented!() }
    #[verifier::external_body]
    fn set_color(&mut self, fg: Option<u8>, bg: Option<u8>) -> (r: IoResult<()>) ensures final(self).quiet(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    fn clear(&mut self, how: ClearType) -> (r: IoResult<()>) ensures final(self).quiet(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    fn write(&mut self, s: &str) -> (r: IoResult<()>) ensures final(self).quiet(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    fn print(&mut self, s: &str) -> (r: IoResult<()>) ensures final(self).quiet(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    fn read_key(&mut self) -> (r: IoResult<Key>)
        ensures
            final(self).columns == old(self).columns, final(self).rows == old(self).rows,
            r is Ok ==> final(self).keys@ == old(self).keys@.push(r->Ok_0),
            r is Err ==> final(self).keys == old(self).keys,
    { unimplemented!() }
%s
    #[verifier::external_body]
    fn enter_alt(&mut self) -> (r: IoResult<()>) ensures final(self).quiet(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    fn leave_alt(&mut self) -> (r: IoResult<()>) ensures final(self).quiet(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    fn set_sync(&mut self, on: bool) -> (r: IoResult<bool>) ensures final(self).quiet(*old(self)) { unimplemented!() }
}
const TEXT_COLOR: (Option<u8>, Option<u8>) = (None, None);
const STATUS_COLOR: (Option<u8>, Option<u8>) = (None, None);
fn cmp_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
fn to_u16(x: usize) -> (r: u16) requires x <= 65535 ensures r == x { x as u16 }
/// There are at most as many lines as memory has bytes.
pub broadcast axiom fn memory(v: Vec<LineBuffer>) ensures #[trigger] v@.len() <= 0x7fff_ffff_ffff_ffff;
pub broadcast axiom fn text_memory(l: LineBuffer) ensures #[trigger] l.line@.len() <= 0x7fff_ffff_ffff_ffff;

// What editing is.

/// A text that is being edited: the cursor, and the column that it returns to in longer lines.
pub struct Doc { pub lines: Seq<Seq<char>>, pub line: int, pub col: int, pub want: int }

/// Where the text of a line starts.
pub open spec fn indent_end(s: Seq<char>) -> int
    decreases s.len()
{
    if s.len() > 0 && s[0] == ' ' { 1 + indent_end(s.skip(1)) } else { 0 }
}
/// The whitespace at the start of a line.
pub open spec fn margin(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && whitespace(s[0]) { seq![s[0]] + margin(s.skip(1)) } else { Seq::empty() }
}
pub open spec fn least(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn spaces(n: int) -> Seq<char> { Seq::new(n as nat, |i: int| ' ') }

impl Doc {
    pub open spec fn here(self) -> Seq<char> { self.lines[self.line] }
    pub open spec fn at(self, line: int) -> Doc { Doc { line, col: least(self.want, self.lines[line].len() as int), ..self } }
    pub open spec fn to(self, col: int) -> Doc { Doc { col, want: col, ..self } }
    pub open spec fn up(self, n: int) -> Doc { self.at(if self.line > n { self.line - n } else { 0 }) }
    pub open spec fn down(self, n: int) -> Doc { self.at(least(self.line + n, self.lines.len() - 1)) }
    /// Replaces the line of the cursor.
    pub open spec fn with(self, s: Seq<char>) -> Doc { Doc { lines: self.lines.update(self.line, s), ..self } }
    /// Appends the next line to a line.
    pub open spec fn joined(self, line: int) -> Doc { Doc { lines: joined(self.lines, line), ..self } }
    pub open spec fn insert(self, s: Seq<char>) -> Doc { self.with(head(self.here(), self.col) + s + rest(self.here(), self.col)).to(self.col + s.len()) }
    pub open spec fn wf(self) -> bool { 0 <= self.line < self.lines.len() && 0 <= self.col <= self.here().len() }
}
pub open spec fn joined(lines: Seq<Seq<char>>, line: int) -> Seq<Seq<char>> {
    lines.remove(line + 1).update(line, lines[line] + lines[line + 1])
}
/// How much a backspace removes: up to the previous stop within the indentation.
pub open spec fn back(s: Seq<char>, col: int) -> int {
    if indent_end(s) >= col { col - (col - 1) / 4 * 4 } else { 1 }
}

/// What keys do.
#[verifier::opaque]
pub open spec fn does_vertical(d: Doc, key: Key, rows: int) -> Doc {
    match key {
        Key::ArrowUp => d.up(1),
        Key::ArrowDown => d.down(1),
        Key::PageUp => d.up(rows - 2),
        _ => d.down(rows - 2),
    }
}
#[verifier::opaque]
pub open spec fn does_horizontal(d: Doc, key: Key, rows: int) -> Doc {
    let s = d.here();
    match key {
        Key::ArrowLeft => if d.col > 0 { d.to(d.col - 1) } else { d },
        Key::ArrowRight => if d.col < s.len() { d.to(d.col + 1) } else { d },
        Key::End => d.to(s.len() as int),
        _ => d.to(if d.col == indent_end(s) { 0 } else { indent_end(s) }),
    }
}
#[verifier::opaque]
pub open spec fn does_backspace(d: Doc, key: Key, rows: int) -> Doc {
    let s = d.here();
    if d.col > 0 {
        let n = back(s, d.col);
        d.with(head(s, d.col - n) + rest(s, d.col)).to(d.col - n)
    } else if d.line > 0 {
        let at = d.lines[d.line - 1].len() as int;
        Doc { line: d.line - 1, ..d.joined(d.line - 1).to(at) }
    } else {
        d.to(0)
    }
}
#[verifier::opaque]
pub open spec fn does_delete(d: Doc, key: Key, rows: int) -> Doc {
    let s = d.here();
    if d.col < s.len() {
        d.with(head(s, d.col) + rest(s, d.col + 1))
    } else if d.line + 1 < d.lines.len() {
        d.joined(d.line)
    } else {
        d
    }
}
#[verifier::opaque]
pub open spec fn does_char(d: Doc, key: Key, rows: int) -> Doc { d.insert(seq![key->Char_0]) }
#[verifier::opaque]
pub open spec fn does_tab(d: Doc, key: Key, rows: int) -> Doc { d.insert(spaces(4 - d.col % 4)) }
#[verifier::opaque]
pub open spec fn does_newline(d: Doc, key: Key, rows: int) -> Doc {
    let s = d.here();
    let m = margin(s);
    let split = d.with(head(s, d.col));
    Doc { lines: split.lines.insert(d.line + 1, m + rest(s, d.col)), line: d.line + 1, ..d.to(m.len() as int) }
}
#[verifier::opaque]
pub open spec fn does_other(d: Doc, key: Key, rows: int) -> Doc { d }
pub open spec fn step(d: Doc, key: Key, rows: int) -> Doc {
    match key {
        Key::ArrowUp | Key::ArrowDown | Key::PageUp | Key::PageDown => does_vertical(d, key, rows),
        Key::ArrowLeft | Key::ArrowRight | Key::Home | Key::End => does_horizontal(d, key, rows),
        Key::Backspace => does_backspace(d, key, rows),
        Key::Delete | Key::EofOrDelete => does_delete(d, key, rows),
        Key::Char(_) => does_char(d, key, rows),
        Key::Tab => does_tab(d, key, rows),
        Key::NewLine | Key::CarriageReturn => does_newline(d, key, rows),
        Key::Escape | Key::Interrupt | Key::Unknown => does_other(d, key, rows),
    }
}
/// What keys do, one after the other.
pub open spec fn run(d: Doc, keys: Seq<Key>, rows: int) -> Doc
    decreases keys.len()
{
    if keys.len() == 0 { d } else { step(run(d, keys.drop_last(), rows), keys.last(), rows) }
}
pub open spec fn ends(key: Key) -> bool { key is Escape || key is Interrupt }

proof fn indents(s: Seq<char>)
    ensures 0 <= indent_end(s) <= s.len(), margin(s).len() <= s.len()
    decreases s.len()
{
    if s.len() > 0 { indents(s.skip(1)); }
}
pub broadcast proof fn whole_indent(s: Seq<char>)
    ensures 0 <= #[trigger] indent_end(s) <= s.len()
{ indents(s); }
pub broadcast proof fn pushed(d: Doc, keys: Seq<Key>, key: Key, rows: int)
    ensures #[trigger] run(d, keys.push(key), rows) == step(run(d, keys, rows), key, rows)
{
    assert(keys.push(key).drop_last() =~= keys);
}
/// No key ends editing.
#[verifier::opaque]
pub open spec fn unended(keys: Seq<Key>) -> bool { forall|i: int| 0 <= i < keys.len() ==> !ends(#[trigger] keys[i]) }
pub broadcast proof fn unended_pushed(keys: Seq<Key>, key: Key)
    ensures #[trigger] unended(keys.push(key)) == (unended(keys) && !ends(key))
{
    reveal(unended);
    if unended(keys.push(key)) {
        assert(!ends(keys.push(key)[keys.len() as int]));
        assert forall|i: int| 0 <= i < keys.len() implies !ends(#[trigger] keys[i]) by { assert(!ends(keys.push(key)[i])); }
    }
}
/// Keys of which only the last one ends editing.
pub open spec fn ended(keys: Seq<Key>) -> bool { exists|k: Seq<Key>, key: Key| keys == #[trigger] k.push(key) && unended(k) && ends(key) }
/// What erasing the character before a gap in a text results in.
proof fn erased(s: Seq<char>, p: int, q: int)
    requires 0 < p <= q <= s.len()
    ensures ({
        let t = head(s, p) + rest(s, q);
        head(t, p - 1) + rest(t, p) == head(s, p - 1) + rest(s, q)
    })
{
    let t = head(s, p) + rest(s, q);
    assert(head(t, p - 1) + rest(t, p) =~= head(s, p - 1) + rest(s, q));
}
#[verifier::opaque]
pub open spec fn texts(v: Seq<LineBuffer>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i].line@) }
pub broadcast proof fn as_many(v: Seq<LineBuffer>)
    ensures #[trigger] texts(v).len() == v.len()
{ reveal(texts); }
pub broadcast proof fn text_of(v: Seq<LineBuffer>, i: int)
    requires 0 <= i < v.len()
    ensures #[trigger] texts(v)[i] == v[i].line@
{ reveal(texts); }
pub broadcast proof fn text_changed(v: Seq<LineBuffer>, i: int, l: LineBuffer)
    requires 0 <= i < v.len()
    ensures #[trigger] texts(v.update(i, l)) == texts(v).update(i, l.line@)
{ reveal(texts); assert(texts(v.update(i, l)) =~= texts(v).update(i, l.line@)); }
pub broadcast proof fn text_removed(v: Seq<LineBuffer>, i: int)
    requires 0 <= i < v.len()
    ensures #[trigger] texts(v.remove(i)) == texts(v).remove(i)
{ reveal(texts); assert(texts(v.remove(i)) =~= texts(v).remove(i)); }
pub broadcast proof fn text_inserted(v: Seq<LineBuffer>, i: int, l: LineBuffer)
    requires 0 <= i <= v.len()
    ensures #[trigger] texts(v.insert(i, l)) == texts(v).insert(i, l.line@)
{ reveal(texts); assert(texts(v.insert(i, l)) =~= texts(v).insert(i, l.line@)); }
broadcast group texts_of { as_many, text_of, text_changed, text_removed, text_inserted }

impl FilePos {
    fn default() -> (r: FilePos) ensures r.line == 0, r.col == 0 { FilePos { line: 0, col: 0 } }
}
impl Editor {
    pub open spec fn doc(&self) -> Doc {
        Doc { lines: texts(self.content@), line: self.file_pos.line as int, col: self.file_pos.col as int, want: self.insert_col as int }
    }
    /// What is edited when the editor opens: a program without lines gets one.
    pub open spec fn opened(&self) -> Doc {
        if self.content@.len() == 0 { Doc { lines: seq![Seq::empty()], line: 0, col: 0, want: self.insert_col as int } } else { self.doc() }
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.opened().wf()
        &&& self.content@.len() == 0 ==> self.file_pos.line == 0 && self.file_pos.col == 0
        &&& self.viewport_pos.line <= 0x7fff_ffff_ffff_ffff && self.viewport_pos.col <= 0x7fff_ffff_ffff_ffff
    }
    pub open spec fn view_only(&self, old: Editor) -> bool {
        self.content == old.content && self.dirty == old.dirty && self.name == old.name && self.file_pos == old.file_pos && self.insert_col == old.insert_col
    }
}
"""


def edited(body):
    """Spells out what the standard library does."""
    for a, b in (
            (r"\bcfg!\(debug_assertions\)", "nondeterministic()"),
            (r"\bu16::try_from\((\w+)\)\.expect\(\"[^\"]*\"\)", r"to_u16(\1)"),
            (r"\busize::from\(([^()]*)\)", r"((\1) as usize)"),
            (r"\bcmp::min\(", "cmp_min("),
            (r"\.await\b", ""),
            (r"format!\(\" \{\}:\{\} \"(?:[^()]|\([^()]*\))*\)", "digits_and_colon()"),
            (r"format!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)", "opaque()"),
            (r"for ch in line\.chars\(\) \{", "let all = line.len();\nlet mut at = 0;\nwhile at < all {\nlet ch = char_at(&line.line, at);\nat += 1;\n"),
            (r"ch\.encode_utf8\(&mut buf\)", "&of_char(ch)"),
            (r"let mut buf = \[0; 4\];", ""),
            (r"\bindent \+ &new\.into_inner\(\)", "concat(indent, &new.into_inner())"),
            (r"\bindent\.len\(\)", "size(&indent)"),
            (r"\b(\w+)\.chars\(\)\.count\(\)", r"count(&\1)"),
            (r"\bnew_text\.capacity\(\)", "capacity(&new_text)"),
            (r"\b(long_details|short_details|status)\.len\(\)", r"size(&\1)"),
            (r"\bKEYS_SUMMARY\.len\(\)", "size(KEYS_SUMMARY)"),
            (r"\bstatus\.truncate\(width\)", "truncate(&mut status, width)"),
    ):
        body = re.sub(a, b, body)
    return library(body)


EDITED = (edited, "functions of the standard library are called through functions with assumed contracts, and await is dropped")
"""What it is for the console to be any console."""
CONSOLE = [(r"&mut dyn Console", "&mut Console", "the console is any console that keeps the contract"),
           (r"io::Result<", "IoResult<", "errors of input and output have no source"),
           (r"\basync fn", "fn", "")]

STATUS = """
#[verifier::external_body]
fn char_at(s: &str, i: usize) -> (r: char)
    requires i < s@.len()
    ensures r == s@[i as int]
{ unimplemented!() }
/// A text where each character is a byte.
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] width(s[i]) == 1 }
#[verifier::external_body]
fn digits_and_colon() -> (r: String) ensures ascii(r@) { unimplemented!() }
#[verifier::external_body]
fn truncate(s: &mut String, n: usize)
    requires bytes(old(s)@) <= n || ascii(old(s)@)
{ unimplemented!() }
pub proof fn ascii_bytes(s: Seq<char>)
    requires ascii(s)
    ensures bytes(s) == s.len(), forall|i: int| 0 <= i <= s.len() ==> #[trigger] boundary(s, i, i)
    decreases s.len()
{
    if s.len() > 0 { ascii_bytes(s.drop_last()); }
    assert forall|i: int| 0 <= i <= s.len() implies #[trigger] boundary(s, i, i) by {
        if i < s.len() { ascii_bytes(s.take(i)); } else { assert(s.take(i) =~= s); assert(s.len() > 0 ==> width(s[s.len() - 1]) == 1); }
    }
}
pub broadcast proof fn bytes_of_sum(a: Seq<char>, b: Seq<char>)
    ensures #[trigger] bytes(a + b) == bytes(a) + bytes(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        bytes_of_sum(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}
pub broadcast proof fn bytes_of_push(a: Seq<char>, c: char)
    ensures #[trigger] bytes(a.push(c)) == bytes(a) + width(c)
{ assert(a.push(c).drop_last() =~= a); }
"""


"""What using the editor results in."""
SESSION = """
    requires old(self).wf(), old(console).keys@ =~= Seq::empty(),
    ensures
        final(self).wf(), final(self).name == old(self).name,
        texts(final(self).content@) == old(self).opened().lines || texts(final(self).content@) == texts(old(self).content@) || final(self).dirty,
        old(self).dirty ==> final(self).dirty,
        r is Ok ==> final(self).doc() == run(old(self).opened(), final(console).keys@, old(console).rows@) && ended(final(console).keys@),
        r is Err ==> unended(final(console).keys@),
"""

PROGRAM = """
pub uninterp spec fn lines(s: Seq<char>) -> Seq<Seq<char>>;
#[verifier::external_body]
fn lines_of(s: &str) -> (r: Vec<LineBuffer>) ensures texts(r@) == lines(s@) { unimplemented!() }
fn to_owned_name(n: Option<&str>) -> (r: Option<String>)
    ensures match (n, r) { (Some(a), Some(b)) => a@ == b@, (None, None) => true, _ => false }
{ match n { Some(s) => Some(owned(s)), None => None } }
fn to_name(n: &Option<String>) -> (r: Option<&str>)
    ensures match (*n, r) { (Some(a), Some(b)) => a@ == b@, (None, None) => true, _ => false }
{ match n { Some(s) => Some(s.as_str()), None => None } }
/// Lines of text one after the other.
pub open spec fn ended_lines(v: Seq<Seq<char>>) -> Seq<char>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else { ended_lines(v.drop_last()) + v.last() + seq!['\\n'] }
}
#[verifier::external_body]
fn concat3(a: String, b: &str, c: &str) -> (r: String) ensures r@ == a@ + b@ + c@ { unimplemented!() }
/// `iter().fold()`
fn fold<F: Fn(String, &LineBuffer) -> String>(v: &Vec<LineBuffer>, first: String, f: F) -> (r: String)
    requires
        first@.len() == 0, forall|a: String, l: &LineBuffer| #[trigger] f.requires((a, l)),
        forall|a: String, l: &LineBuffer, b: String| #[trigger] f.ensures((a, l), b) ==> b@ =~= a@ + l.line@ + seq!['\\n'],
    ensures
        r@ == ended_lines(texts(v@)),
{
    broadcast use texts_of;
    let mut all = first;
    let mut i = 0;
    proof { assert(ended_lines(texts(v@).take(0)) =~= all@); }
    while i < v.len()
        invariant
            0 <= i <= v@.len(), all@ == ended_lines(texts(v@).take(i as int)), forall|a: String, l: &LineBuffer| #[trigger] f.requires((a, l)),
            forall|a: String, l: &LineBuffer, b: String| #[trigger] f.ensures((a, l), b) ==> b@ =~= a@ + l.line@ + seq!['\\n'],
        decreases v@.len() - i
    {
        broadcast use texts_of;
        all = f(all, &v[i]);
        i += 1;
        proof {
            let t = texts(v@).take(i as int);
            assert(t.drop_last() =~= texts(v@).take(i - 1));
            assert(t.last() == v@[i - 1].line@);
        }
    }
    proof { assert(texts(v@).take(v@.len() as int) =~= texts(v@)); }
    all
}
"""


def folding(m):
    """Says what a closure that appends a line results in."""
    return ("|%s: String, %s: &LineBuffer| -> (b: String) ensures b@ =~= %s@ + %s.line@ + seq!['\\n'] { proof { reveal_strlit(\"\\n\"); } %s }"
            % (m[1], m[2], m[1], m[2], m[3]))


def stored(body):
    """Spells out what the standard library does."""
    for a, b in (
            (r"text\.lines\(\)\.map\(LineBuffer::from\)\.collect\(\)", "lines_of(text)"),
            (r"name\.map\(str::to_owned\)", "to_owned_name(name)"),
            (r"self\.name\.as_deref\(\)", "to_name(&self.name)"),
            (r"name\.to_owned\(\)", "owned(name)"),
            (r"vec!\[\]", "Vec::new()"),
            (r"self\.content\s*\.iter\(\)\s*\.fold\(", "fold(&self.content, "),
            (r"\|(\w+), (\w+)\| (\1 \+ &?\2\.to_string\(\) \+ \"[^\"]*\")", folding),
            (r"(\w+) \+ &(\w+)\.to_string\(\) \+ (\"[^\"]*\")", r"concat3(\1, &\2.to_string(), \3)"),
    ):
        body = re.sub(a, b, body)
    return edited(body)


STORED = (stored, EDITED[1])


def editor(u):
    u.add(OPEN)
    lines(u, assumed=True)
    f = File(EDITOR)
    console = File("std/src/console/mod.rs")
    u.add(re.sub(r"(?m)^\s*#\[.*\]\n", "", console.item("enum", "Key")))
    u.add(re.sub(r"(?m)^\s*#\[.*\]\n", "", console.item("enum", "ClearType")))
    u.add("const INDENT_WIDTH: usize = %s;\nconst KEYS_SUMMARY: &'static str = %s;" % (f.constant("INDENT_WIDTH"), f.constant("KEYS_SUMMARY")))
    fields = lambda text: re.sub(r"(?m)^( +)(?:pub )?(\w+:)", r"\1pub \2", re.sub(r"(?m)^(pub )?struct", "pub struct", text))
    u.add("#[derive(Clone, Copy)]\n" + fields(f.item("struct", "FilePos")))
    u.add("#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n" + f.item("enum", "RefreshKind"))
    u.add(fields(f.item("struct", "Editor")))
    u.add("""impl RefreshKind {
    #[verifier::external_body]
    fn upgrade(&mut self, new_value: Self) { unimplemented!() }
}""")
    u.add(STATUS)
    u.add(WORLD.replace("%s", READS, 1))
    u.add(COVER)
    u.fn(f, "copy_indent", contract="ensures r@ == margin(line.line@)", rewrite=EDITED, loops=["""
    invariant_except_break
        margin(line.line@) =~= indent@ + margin(line.line@.skip(at as int)),
    invariant
        all == line.line@.len(), 0 <= at <= all,
    ensures
        indent@ =~= margin(line.line@),
    decreases all - at,
"""], start="proof { assert(line.line@.skip(0) =~= line.line@); }", loop_start={0: "proof { assert(line.line@.skip(at as int).skip(1) =~= line.line@.skip(at + 1)); }"})
    u.fn(f, "find_indent_end", contract="ensures r == indent_end(line.line@), r <= line.line@.len()", rewrite=EDITED, loops=["""
    invariant_except_break
        indent_end(line.line@) == pos + indent_end(line.line@.skip(at as int)), pos == at,
    invariant
        all == line.line@.len(), 0 <= at <= all, pos <= at,
    ensures
        pos == indent_end(line.line@),
    decreases all - at,
"""], start="proof { assert(line.line@.skip(0) =~= line.line@); }", loop_start={0: "proof { assert(line.line@.skip(at as int).skip(1) =~= line.line@.skip(at + 1)); }"})
    u.add("impl Editor {")
    ed = dict(within="impl Editor", rewrite=EDITED, subst=CONSOLE)
    u.fn(f, "join_next_line_into", contract="""
    requires line + 1 < old(self).content@.len()
    ensures
        texts(final(self).content@) == joined(texts(old(self).content@), line as int),
        final(self).dirty, final(self).name == old(self).name, final(self).viewport_pos == old(self).viewport_pos,
        final(self).file_pos == old(self).file_pos, final(self).insert_col == old(self).insert_col,
""", start="broadcast use {memory, text_memory, texts_of};", **ed)
    quiet = "final(console).quiet(*old(console)),"
    u.fn(f, "refresh_status", contract="""
    requires console_size.x == old(console).columns@, console_size.y == old(console).rows@, roomy(*old(console)), self.doc().wf(),
    ensures %s
""" % quiet, loops=["""
    invariant ascii(status@), ascii(short_details@), bytes(short_details@) < width, width <= 65535, bytes(status@) <= width - bytes(short_details@),
    decreases width - bytes(status@),
""", """
    invariant bytes(status@) <= width - bytes(long_details@), width <= 65535, bytes(long_details@) < width,
    decreases width - bytes(status@),
"""], start="broadcast use {bytes_of_push, bytes_of_sum, memory, texts_of};", loop_start={0: "broadcast use bytes_of_push;", 1: "broadcast use bytes_of_push;"}, **ed)
    size = "console_size.x == old(console).columns@, console_size.y == old(console).rows@, roomy(*old(console)), self.wf(), self.doc().wf(),"
    u.fn(f, "refresh", contract="""
    requires %s
    ensures %s
""" % (size, quiet), loops=["""
    invariant
        console.quiet(*old(console)), console_size.y >= 2, printed_rows <= console_size.y - 1, self.viewport_pos.line <= row, self.viewport_pos.col <= 0x7fff_ffff_ffff_ffff,
        row <= self.viewport_pos.line + printed_rows, self.viewport_pos.line <= 0x7fff_ffff_ffff_ffff,
    decreases console_size.y - printed_rows,
"""], **ed)
    u.fn(f, "refresh_current_line", contract="""
    requires
        %s
        self.viewport_pos.line <= self.file_pos.line < self.viewport_pos.line + console_size.y - 1,
    ensures %s
""" % (size, quiet), start="broadcast use {memory, text_memory, texts_of};", **ed)
    moves = """
    requires old(self).doc().wf(), nlines <= 65535,
    ensures
        final(self).doc() == old(self).doc().%s(nlines as int), final(self).content == old(self).content,
        final(self).dirty == old(self).dirty, final(self).name == old(self).name, final(self).viewport_pos == old(self).viewport_pos,
"""
    u.fn(f, "move_down", contract=moves % "down", start="broadcast use {memory, text_memory, texts_of};", **ed)
    u.fn(f, "move_up", contract=moves % "up", start="broadcast use texts_of;", **ed)
    use = "broadcast use {memory, text_memory, texts_of, whole_indent, pushed, unended_pushed};"
    for kind, _ in CASES:
        u.fn(f, "edit_interactively", rename="edit_" + kind, contract=SESSION, attrs="#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n#[verifier::exec_allows_no_decreases_clause]\n#[verifier::spinoff_prover]", start=use + """
let ghost first = self.opened();
proof { reveal(unended); reveal(does_%s); }""" % kind.split("_")[0], loops=["""
    invariant_except_break
        unended(console.keys@),
    invariant
        self.content@.len() > 0, self.viewport_pos.line <= 0x7fff_ffff_ffff_ffff, self.viewport_pos.col <= 0x7fff_ffff_ffff_ffff,
        self.doc().wf(), self.name == old(self).name, console.columns == old(console).columns, console.rows == old(console).rows,
        self.doc() == run(first, console.keys@, old(console).rows@),
        self.doc().lines == first.lines || self.dirty,
        old(self).dirty ==> self.dirty,
    ensures
        ended(console.keys@),
""", """
    invariant console.keys@ == heard, console.columns == old(console).columns, console.rows == old(console).rows,
""", ("it", """
    invariant
        it.index() <= nremove <= full, self.file_pos.col == full - it.index(),
        line.line@ == head(whole, full - it.index()) + rest(whole, full as int),
"""), ("it", """
    invariant new_text@ =~= spaces(it.index() as int),
""")], loop_start={0: use + """
let ghost before = self.doc();""", 2: "proof { erased(whole, self.file_pos.col as int, full); }"}, loop_before={
            0: "proof { assert(texts(self.content@) =~~= first.lines); }",
            1: "let ghost heard = console.keys@;",
            2: "let ghost (whole, full) = (line.line@, self.file_pos.col as int);\nproof { assert(whole == head(whole, full) + rest(whole, full)) by { assert(whole =~= head(whole, full) + rest(whole, full)); } }",
        }, loop_after={2: """proof {
    assert(nremove == back(before.here(), before.col));
    assert(line.line@ == head(whole, full - nremove) + rest(whole, full as int));
}"""}, loop_end={0: """proof {
    let typed = step(before, console.keys@.last(), old(console).rows@);
    assert(self.doc().lines == typed.lines);
    assert(self.doc().line == typed.line);
    assert(self.doc().col == typed.col);
    assert(self.doc().want == typed.want);
}"""}, **dict(ed, subst=CONSOLE + [(r"\bread_key\(\)", "read_key_%s(Ghost(self.doc()))" % kind, "keys are read of one kind at a time")]))
    u.fn(f, "edit_interactively", contract=SESSION, assumed=True, **ed)  # The cases above are all there are.
    u.add("}")
    u.add(PROGRAM)
    u.add("impl Editor {")
    pr = dict(within="impl Program for Editor", rewrite=STORED, subst=CONSOLE)
    u.fn(f, "default", within="impl Default for Editor", rename="new", contract="ensures r.wf(), r.content@.len() == 0, r.name is None, !r.dirty", rewrite=STORED, subst=CONSOLE,
         start="broadcast use texts_of;")
    u.fn(f, "is_dirty", contract="ensures r == self.dirty", **pr)
    u.fn(f, "edit", contract=SESSION.replace("r is Err ==> unended(final(console).keys@),", ""), start="proof { reveal(unended); }", **pr)
    u.fn(f, "load", contract="""
    ensures
        final(self).wf(), !final(self).dirty, texts(final(self).content@) == lines(text@), final(self).file_pos.line == 0, final(self).file_pos.col == 0,
        match (name, final(self).name) { (Some(a), Some(b)) => a@ == b@, (None, None) => true, _ => false },
""", start="broadcast use texts_of;", **pr)
    u.fn(f, "name", contract="ensures match (self.name, r) { (Some(a), Some(b)) => a@ == b@, (None, None) => true, _ => false }", **pr)
    u.fn(f, "set_name", contract="""
    ensures
        final(self).name is Some, final(self).name->Some_0@ == name@, !final(self).dirty, final(self).content == old(self).content,
        final(self).file_pos == old(self).file_pos, final(self).insert_col == old(self).insert_col, final(self).viewport_pos == old(self).viewport_pos,
""", **pr)
    u.fn(f, "text", contract="ensures r@ == ended_lines(texts(self.content@))", **pr)
    u.add("}\n}\nfn main() {}")


editor.rlimit = 150
editor.threads = 6
UNITS = [linebuffer, editor]
