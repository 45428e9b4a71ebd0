"""P22: commands on the console."""

import re

from verus_run import File, Lost, blank, closing

CMDS = "std/src/console/cmds.rs"
PAGER = "std/src/console/pager.rs"
FORMAT = "std/src/console/format.rs"

WORLD = """
verus! {
global size_of usize == 8;
pub enum CallError { Io, Syntax(LineCol, String), Memory }
pub type CallResult<T> = Result<T, CallError>;
#[verifier::external_body]
pub struct IoError { x: u8 }
#[derive(Clone, Copy)]
pub struct LineCol { pub line: usize, pub col: usize }
fn unreached() -> !
    requires false
{ loop invariant false decreases 0int {} }
#[verifier::external_body]
fn opaque() -> String { unimplemented!() }
#[verifier::external_body]
fn failed(e: IoError) -> (r: CallError) ensures r is Io { unimplemented!() }

/// Something that was asked of the console.
pub ghost enum Op {
    Print(Seq<char>), Write(Seq<char>), Clear, Color(Option<u8>, Option<u8>), Locate(u16, u16), Key(Key),
    /// A line was read with a prompt, after a text that is there already.
    Line(Seq<char>, Seq<char>, Option<Seq<char>>),
}
pub struct Screen { pub log: Ghost<Seq<Op>>, pub size: CharsXY, pub live: bool, pub next: Ghost<Option<Key>> }
impl Screen {
    /// Asks for something.
    pub open spec fn does(&self, old: Screen, op: Op) -> bool { self.log@ == old.log@.push(op) && self.like(old) }
    pub open spec fn like(&self, old: Screen) -> bool { self.size == old.size && self.live == old.live && self.next == old.next }
    #[verifier::external_body]
    fn print(&mut self, text: &str) -> (r: Result<(), IoError>) ensures final(self).does(*old(self), Op::Print(text@)) { unimplemented!() }
    #[verifier::external_body]
    fn write(&mut self, text: &str) -> (r: Result<(), IoError>) ensures final(self).does(*old(self), Op::Write(text@)) { unimplemented!() }
    #[verifier::external_body]
    fn clear(&mut self, how: ClearType) -> (r: Result<(), IoError>)
        requires how is All
        ensures final(self).does(*old(self), Op::Clear)
    { unimplemented!() }
    #[verifier::external_body]
    fn set_color(&mut self, fg: Option<u8>, bg: Option<u8>) -> (r: Result<(), IoError>) ensures final(self).does(*old(self), Op::Color(fg, bg)) { unimplemented!() }
    #[verifier::external_body]
    fn locate(&mut self, pos: CharsXY) -> (r: Result<(), IoError>) ensures final(self).does(*old(self), Op::Locate(pos.x, pos.y)) { unimplemented!() }
    #[verifier::external_body]
    fn size_chars(&self) -> (r: Result<CharsXY, IoError>) ensures r is Ok ==> r->Ok_0 == self.size { unimplemented!() }
    fn is_interactive(&self) -> (r: bool) ensures r == self.live { self.live }
    #[verifier::external_body]
    fn poll_key(&mut self) -> (r: Result<Option<Key>, IoError>) ensures r is Ok ==> r->Ok_0 == old(self).next@, final(self).log == old(self).log { unimplemented!() }
    #[verifier::external_body]
    fn read_key(&mut self) -> (r: Result<Key, IoError>)
        ensures final(self).like(*old(self)), r is Ok ==> final(self).does(*old(self), Op::Key(r->Ok_0))
    { unimplemented!() }
}
/// Whether reading can be tried again.
pub uninterp spec fn invalid(e: IoError) -> bool;
#[verifier::external_body]
fn is_invalid(e: &IoError) -> (r: bool) ensures r == invalid(*e) { unimplemented!() }
#[verifier::external_body]
fn read_line(console: &mut Screen, prompt: &str, before: &str) -> (r: Result<String, IoError>)
    ensures
        final(console).like(*old(console)),
        r is Ok ==> final(console).does(*old(console), Op::Line(prompt@, before@, Some(r->Ok_0@))),
        r is Err && invalid(r->Err_0) ==> final(console).does(*old(console), Op::Line(prompt@, before@, None)),
{ unimplemented!() }

pub uninterp spec fn boolean_text(b: bool) -> Seq<char>;
pub uninterp spec fn double_text(d: f64) -> Seq<char>;
pub uninterp spec fn integer_text(i: i32) -> Seq<char>;
#[verifier::external_body]
fn format_boolean(b: bool) -> (r: &'static str) ensures r@ == boolean_text(b) { unimplemented!() }
#[verifier::external_body]
fn format_double(d: f64) -> (r: String) ensures r@ == double_text(d) { unimplemented!() }
#[verifier::external_body]
fn format_integer(i: i32) -> (r: String) ensures r@ == integer_text(i) { unimplemented!() }
pub uninterp spec fn boolean_of(s: Seq<char>) -> Option<bool>;
pub uninterp spec fn double_of(s: Seq<char>) -> Option<f64>;
pub uninterp spec fn integer_of(s: Seq<char>) -> Option<i32>;
#[verifier::external_body]
fn parse_boolean(s: &str) -> (r: Result<bool, String>) ensures boolean_of(s@) == (match r { Ok(b) => Some(b), Err(_) => None }) { unimplemented!() }
#[verifier::external_body]
fn parse_double(s: &str) -> (r: Result<f64, String>) ensures double_of(s@) == (match r { Ok(b) => Some(b), Err(_) => None }) { unimplemented!() }
#[verifier::external_body]
fn parse_integer(s: &str) -> (r: Result<i32, String>) ensures integer_of(s@) == (match r { Ok(b) => Some(b), Err(_) => None }) { unimplemented!() }
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
fn trim_end(s: &str) -> (r: &str) ensures r@ == trimmed(s@) { unimplemented!() }

#[verifier::external_body]
fn new_string() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
fn owned(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
fn empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body]
fn one(c: char) -> (r: String) ensures r@ == seq![c] { unimplemented!() }
#[verifier::external_body]
fn append(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
#[verifier::external_body]
fn append_blank(s: &mut String) ensures final(s)@ == old(s)@.push(' ') { unimplemented!() }
/// How many characters there are: texts fit in half of the memory.
#[verifier::external_body]
fn count(s: &str) -> (r: usize) ensures r == s@.len(), r < 0x4000_0000_0000_0000 { unimplemented!() }
/// How many bytes there are.
pub uninterp spec fn bytes(s: Seq<char>) -> nat;
#[verifier::external_body]
fn size(s: &str) -> (r: usize) ensures r == bytes(s@), r >= s@.len(), r < 0x1000_0000_0000_0000 { unimplemented!() }
fn is_multiple(a: usize, b: usize) -> (r: bool) requires b > 0 ensures r == (a as int % b as int == 0) { a % b == 0 }
fn to_u16(i: i32) -> (r: Result<u16, ()>) ensures r == (if 0 <= i < 0x10000 { Ok::<u16, ()>(i as u16) } else { Err(()) }) { if i >= 0 && i < 0x10000 { Ok(i as u16) } else { Err(()) } }
fn to_i32(v: u16) -> (r: i32) ensures r == v { v as i32 }

pub ghost enum Value { Boolean(bool), Double(f64), Integer(i32), Text(Seq<char>) }
pub enum Returned { Integer(i32), Text(String) }
pub struct Scope { pub nargs: usize, pub memory: Ghost<Option<Value>> }
impl Scope {
    pub uninterp spec fn tag(&self, i: int) -> Option<VarArgTag>;
    pub uninterp spec fn boolean(&self, i: int) -> Option<bool>;
    pub uninterp spec fn double(&self, i: int) -> Option<f64>;
    pub uninterp spec fn integer(&self, i: int) -> Option<i32>;
    pub uninterp spec fn text(&self, i: int) -> Option<Seq<char>>;
    /// The type of the variable that is given.
    pub uninterp spec fn target(&self, i: int) -> Option<ExprType>;

    #[verifier::external_body]
    fn nargs(&self) -> (r: usize) ensures r == self.nargs { unimplemented!() }
    #[verifier::external_body]
    fn get_pos(&self, i: u8) -> LineCol
        requires i < self.nargs
    { unimplemented!() }
    #[verifier::external_body]
    fn get_type(&self, i: u8) -> (r: VarArgTag)
        requires self.tag(i as int) is Some
        ensures r == self.tag(i as int)->Some_0
    { unimplemented!() }
    #[verifier::external_body]
    fn get_boolean(&self, i: u8) -> (r: bool)
        requires self.boolean(i as int) is Some
        ensures r == self.boolean(i as int)->Some_0
    { unimplemented!() }
    #[verifier::external_body]
    fn get_double(&self, i: u8) -> (r: f64)
        requires self.double(i as int) is Some
        ensures r == self.double(i as int)->Some_0
    { unimplemented!() }
    #[verifier::external_body]
    fn get_integer(&self, i: u8) -> (r: i32)
        requires self.integer(i as int) is Some
        ensures r == self.integer(i as int)->Some_0
    { unimplemented!() }
    #[verifier::external_body]
    fn get_string(&self, i: u8) -> (r: &str)
        requires self.text(i as int) is Some
        ensures r@ == self.text(i as int)->Some_0
    { unimplemented!() }
    #[verifier::external_body]
    fn vtype(&self, i: u8) -> (r: ExprType)
        requires self.target(i as int) is Some
        ensures r == self.target(i as int)->Some_0
    { unimplemented!() }
    #[verifier::external_body]
    fn set_boolean(&mut self, i: u8, b: bool)
        requires old(self).target(i as int) == Some(ExprType::Boolean)
        ensures final(self).memory@ == Some(Value::Boolean(b))
    { unimplemented!() }
    #[verifier::external_body]
    fn set_double(&mut self, i: u8, d: f64)
        requires old(self).target(i as int) == Some(ExprType::Double)
        ensures final(self).memory@ == Some(Value::Double(d))
    { unimplemented!() }
    #[verifier::external_body]
    fn set_integer(&mut self, i: u8, d: i32)
        requires old(self).target(i as int) == Some(ExprType::Integer)
        ensures final(self).memory@ == Some(Value::Integer(d))
    { unimplemented!() }
    #[verifier::external_body]
    fn set_string(&mut self, i: u8, s: &str) -> (r: CallResult<()>)
        requires old(self).target(i as int) == Some(ExprType::Text)
        ensures
            r is Ok ==> final(self).memory@ == Some(Value::Text(s@)),
            r is Err ==> r->Err_0 is Memory && final(self).memory == old(self).memory,
    { unimplemented!() }
    fn return_integer(&self, v: i32) -> (r: CallResult<Returned>) ensures r == Ok::<Returned, CallError>(Returned::Integer(v)) { Ok(Returned::Integer(v)) }
    fn return_string(&self, v: String) -> (r: CallResult<Returned>) ensures r == Ok::<Returned, CallError>(Returned::Text(v)) { Ok(Returned::Text(v)) }
}

/// Blanks up to the next zone.
pub open spec fn blanks(n: nat) -> Seq<char> { Seq::new(n, |i: int| ' ') }
pub open spec fn zoned(s: Seq<char>) -> Seq<char> { s + blanks((14 - s.len() % 14) as nat) }
pub open spec fn spaced(s: Seq<char>) -> Seq<char> { s.push(' ') }

/// What a value looks like.
pub open spec fn shown(scope: Scope, t: ExprType, i: int) -> Seq<char> {
    match t {
        ExprType::Boolean => boolean_text(scope.boolean(i)->Some_0),
        ExprType::Double => double_text(scope.double(i)->Some_0),
        ExprType::Integer => integer_text(scope.integer(i)->Some_0),
        ExprType::Text => scope.text(i)->Some_0,
    }
}
pub open spec fn present(scope: Scope, t: ExprType, i: int) -> bool {
    match t {
        ExprType::Boolean => scope.boolean(i) is Some,
        ExprType::Double => scope.double(i) is Some,
        ExprType::Integer => scope.integer(i) is Some,
        ExprType::Text => scope.text(i) is Some,
    }
}
/// Whether arguments are tags, each with its value, up to the last one.
#[verifier::opaque]
pub open spec fn listed(scope: Scope, i: int) -> bool
    decreases scope.nargs - i
{
    0 <= i < scope.nargs && match scope.tag(i) {
        Some(VarArgTag::Immediate(sep, t)) => i + 1 < scope.nargs && present(scope, t, i + 1) && !(sep is As) && (sep is End || listed(scope, i + 2)),
        Some(VarArgTag::Missing(sep)) => !(sep is As) && (sep is End || listed(scope, i + 1)),
        _ => false,
    }
}
pub open spec fn listed_one(scope: Scope, i: int) -> bool {
    0 <= i < scope.nargs && match scope.tag(i) {
        Some(VarArgTag::Immediate(sep, t)) => i + 1 < scope.nargs && present(scope, t, i + 1) && !(sep is As) && (sep is End || listed(scope, i + 2)),
        Some(VarArgTag::Missing(sep)) => !(sep is As) && (sep is End || listed(scope, i + 1)),
        _ => false,
    }
}
/// The text that arguments give after a text, and whether the line ends.
#[verifier::opaque]
pub open spec fn printed(scope: Scope, i: int, s: Seq<char>) -> (Seq<char>, bool)
    decreases scope.nargs - i
{
    if i >= scope.nargs { (s, true) } else {
        match scope.tag(i) {
            Some(VarArgTag::Immediate(sep, t)) => {
                let more = s + shown(scope, t, i + 1);
                if i + 1 >= scope.nargs { (more, true) } else {
                    match sep {
                        ArgSep::Long => printed(scope, i + 2, zoned(more)),
                        ArgSep::Short => printed(scope, i + 2, if t is Text { more } else { spaced(more) }),
                        _ => (more, true),
                    }
                }
            }
            Some(VarArgTag::Missing(sep)) => match sep {
                ArgSep::Long => printed(scope, i + 1, zoned(s)),
                ArgSep::Short => printed(scope, i + 1, s),
                _ => (s, i == 0),
            },
            _ => (s, true),
        }
    }
}
pub open spec fn printed_one(scope: Scope, i: int, s: Seq<char>) -> (Seq<char>, bool) {
    if i >= scope.nargs { (s, true) } else {
        match scope.tag(i) {
            Some(VarArgTag::Immediate(sep, t)) => {
                let more = s + shown(scope, t, i + 1);
                if i + 1 >= scope.nargs { (more, true) } else {
                    match sep {
                        ArgSep::Long => printed(scope, i + 2, zoned(more)),
                        ArgSep::Short => printed(scope, i + 2, if t is Text { more } else { spaced(more) }),
                        _ => (more, true),
                    }
                }
            }
            Some(VarArgTag::Missing(sep)) => match sep {
                ArgSep::Long => printed(scope, i + 1, zoned(s)),
                ArgSep::Short => printed(scope, i + 1, s),
                _ => (s, i == 0),
            },
            _ => (s, true),
        }
    }
}
proof fn unfold(scope: Scope, i: int, s: Seq<char>)
    ensures listed(scope, i) == listed_one(scope, i), printed(scope, i, s) == printed_one(scope, i, s)
{ reveal(listed); reveal(printed); }
proof fn widen(s: Seq<char>, t: Seq<char>)
    requires
        t.len() > s.len(), t.len() % 14 == 0, t.len() - s.len() <= 14, t.take(s.len() as int) == s,
        forall|i: int| s.len() <= i < t.len() ==> #[trigger] t[i] == ' ',
    ensures
        t == zoned(s)
{
    let z = zoned(s);
    assert(z.len() == t.len());
    assert forall|i: int| 0 <= i < t.len() implies t[i] == z[i] by { if i < s.len() { assert(t.take(s.len() as int)[i] == s[i]); } }
    assert(t =~= z);
}

pub broadcast proof fn unpushed(s: Seq<char>, c: char)
    ensures (#[trigger] s.push(c)).drop_last() == s
{ assert(s.push(c).drop_last() =~= s); }
pub broadcast proof fn undone(s: Seq<Op>, op: Op)
    ensures (#[trigger] s.push(op)).drop_last() == s
{ assert(s.push(op).drop_last() =~= s); }

/// What an answer is as a value of a type.
pub open spec fn answered(t: ExprType, s: Seq<char>) -> Option<Value> {
    match t {
        ExprType::Boolean => match boolean_of(trimmed(s)) { Some(b) => Some(Value::Boolean(b)), None => None },
        ExprType::Double => match double_of(trimmed(s)) { Some(b) => Some(Value::Double(b)), None => None },
        ExprType::Integer => match integer_of(trimmed(s)) { Some(b) => Some(Value::Integer(b)), None => None },
        ExprType::Text => Some(Value::Text(trimmed(s))),
    }
}
/// The text that the next question has in it, after questions and complaints about their answers.
pub open spec fn again(ops: Seq<Op>, prompt: Seq<char>, t: ExprType) -> Option<Seq<char>>
    decreases ops.len()
{
    if ops.len() == 0 { Some(Seq::empty()) } else {
        match (ops.last(), ops[ops.len() - 2]) {
            (Op::Print(_), Op::Line(p, before, answer)) => {
                if ops.len() >= 2 && p == prompt && again(ops.take(ops.len() - 2), prompt, t) == Some(before) {
                    match answer {
                        Some(a) => if answered(t, a) is None { Some(a) } else { None },
                        None => Some(before),
                    }
                } else { None }
            }
            _ => None,
        }
    }
}
pub broadcast proof fn once_more(ops: Seq<Op>, prompt: Seq<char>, t: ExprType, line: Op, complaint: Op)
    requires line is Line, complaint is Print
    ensures
        #[trigger] again(ops.push(line).push(complaint), prompt, t) == (if line->Line_0 == prompt && again(ops, prompt, t) == Some(line->Line_1) {
            match line->Line_2 {
                Some(a) => if answered(t, a) is None { Some(a) } else { None },
                None => Some(line->Line_1),
            }
        } else { None })
{
    assert(ops.push(line).push(complaint).take(ops.len() as int) =~= ops);
}
/// What was done since.
pub open spec fn since(now: Screen, old: Screen) -> Seq<Op> { now.log@.skip(old.log@.len() as int) }
pub open spec fn extends(now: Screen, old: Screen) -> bool { now.log@.len() >= old.log@.len() && now.log@.take(old.log@.len() as int) == old.log@ }
pub broadcast proof fn later(s: Seq<Op>, n: int, op: Op)
    requires 0 <= n <= s.len()
    ensures #[trigger] s.push(op).skip(n) == s.skip(n).push(op), s.push(op).take(n) == s.take(n)
{ assert(s.push(op).skip(n) =~= s.skip(n).push(op)); assert(s.push(op).take(n) =~= s.take(n)); }
"""

NAMES = """
pub open spec fn named(k: Option<Key>) -> Seq<char> {
    match k {
        Some(Key::ArrowDown) => "DOWN"@,
        Some(Key::ArrowLeft) => "LEFT"@,
        Some(Key::ArrowRight) => "RIGHT"@,
        Some(Key::ArrowUp) => "UP"@,
        Some(Key::Backspace) => "BS"@,
        Some(Key::CarriageReturn) | Some(Key::NewLine) => "ENTER"@,
        Some(Key::Char(c)) => seq![c],
        Some(Key::Delete) => "DEL"@,
        Some(Key::End) => "END"@,
        Some(Key::EofOrDelete) => "EOF"@,
        Some(Key::Escape) => "ESC"@,
        Some(Key::Home) => "HOME"@,
        Some(Key::Interrupt) => "INT"@,
        Some(Key::PageDown) => "PGDOWN"@,
        Some(Key::PageUp) => "PGUP"@,
        Some(Key::Tab) => "TAB"@,
        Some(Key::Unknown) => "?"@,
        None => ""@,
    }
}
"""

NEST = r"(?:[^()]|\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))*"


def rewritten(body):
    """Spells out what the standard library does."""
    body = re.sub(r"debug_assert\w*!\(%s\);" % NEST, "", body)
    body = re.sub(r"\.await\b", "", body)
    body = re.sub(r"unreachable!\(\);?", "unreached()", body)
    body = re.sub(r"format!\(\"\{\}\", (\w+)\)", r"one(\1)", body)
    body = re.sub(r"format!\(%s\)" % NEST, "opaque()", body)
    body = re.sub(r"(?<=get_pos\(narg\), )\"[^\"]*\"\.to_owned\(\)", "opaque()", body)
    body = re.sub(r"(\"[^\"]*\"|scope\.get_string\(\w+\))\.to_owned\(\)", r"owned(\1)", body)
    body = re.sub(r"\bString::new\(\)", "new_string()", body)
    body = re.sub(r"\b(text|prompt) \+= ' ';|\b(text|prompt) \+= \" \";?|\b(text|prompt)\.push\(' '\);", lambda m: "append_blank(&mut %s);" % (m[1] or m[2] or m[3]), body)
    body = re.sub(r"\b(text|prompt) \+= ([^;]*);", r"append(&mut \1, \2);", body)
    body = re.sub(r"\b(text|prompt)\.push_str\((%s)\)" % NEST, r"append(&mut \1, \2)", body)
    body = re.sub(r"(?<![\w.])(\w+)\.chars\(\)\.count\(\)", r"count(&\1)", body)
    body = re.sub(r"\b(text|prompt)\.len\(\)", r"size(&\1)", body)
    body = re.sub(r"((?:count|size)\(&\w+\))\.is_multiple_of\((\w+)\)", r"is_multiple(\1, \2)", body)
    body = re.sub(r"\b(\w+)\.is_empty\(\)", r"empty(&\1)", body)
    body = re.sub(r"\bu16::try_from\((\w+)\)", r"to_u16(\1)", body)
    body = re.sub(r"\bi32::from\(", "to_i32(", body)
    body = re.sub(r"\busize::from\(((?:\w+\.)*\w+)\)", r"(\1 as usize)", body)
    body = re.sub(r"let (?:mut )?console = self\.console\.borrow(?:_mut)?\(\);", "", body)
    body = re.sub(r"self\.console\.borrow(?:_mut)?\(\)", "console", body)
    body = re.sub(r"&mut \*console\b", "console", body)
    body = re.sub(r"let mut regref = scope\.get_mut_ref\((\w+)\);", "", body)
    body = re.sub(r"\bregref\.vtype\b", "scope.vtype(reg)", body)
    body = re.sub(r"\bregref\.(set_\w+)\(", r"scope.\1(reg, ", body)
    body = re.sub(r"(?<=[=(] )(\w+)\.trim_end\(\)|(?<![\w.])(\w+)\.trim_end\(\)", lambda m: "trim_end(&%s)" % (m[1] or m[2]), body)
    body = re.sub(r"read_line\(([^,]*), ([^,]*), ([^,]*), None\)", r"read_line(\1, \2, \3)", body)
    body = re.sub(r"\be\.kind\(\) == io::ErrorKind::InvalidData", "is_invalid(&e)", body)
    body = re.sub(r"\be\.into\(\)", "failed(e)", body)
    # Errors of the console become errors of the command.
    body = re.sub(r"(console\.(?:\w+)\((?:%s)\))\?" % NEST, r"(match \1 { Ok(v) => v, Err(e) => return Err(failed(e)) })", body)
    return body


REWRITE = (rewritten, "methods of Scope, texts and the console become calls to functions with assumed contracts; the shared console is a parameter; await is dropped; texts of errors are opaque")


def commands(u):
    f = File(CMDS)
    c = File("std/src/console/mod.rs")
    byte = File("core/src/bytecode.rs")
    ast = File("core/src/ast.rs")
    u.add(WORLD)
    u.add("#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n" + re.sub(r" = \d+", "", ast.item("enum", "ArgSep")))
    u.add("#[derive(Clone, Copy)]\n" + re.sub(r" = \d+", "", ast.item("enum", "ExprType")))
    u.add("#[derive(Clone, Copy)]\n" + re.sub(r" = \d+", "", byte.item("enum", "VarArgTag")))
    u.add("#[derive(Clone, Copy)]\n" + c.item("enum", "Key"))
    u.add(c.item("enum", "ClearType"))
    u.add("#[derive(Clone, Copy)]\npub struct CharsXY { pub x: u16, pub y: u16 }\nimpl CharsXY { fn new(x: u16, y: u16) -> (r: CharsXY) ensures r.x == x, r.y == y { CharsXY { x, y } } }")
    u.add(NAMES)
    subst = [(r"&self, (mut )?scope: Scope<'_>", "console: &mut Screen, scope: &mut Scope", "the console and the scope are shared"), (r"&Scope<'_>", "&Scope", ""), (r"get_(color|coord)\(&scope,", r"get_\1(scope,", ""),
             (r"async fn", "fn", "")]
    value = subst + [(r"CallResult<\(\)>", "CallResult<Returned>", "functions return their value instead of writing it to a register")]
    kept = "final(scope).memory == old(scope).memory,"

    def call(name, requires, ensures, returns=False, fn="exec", **kw):
        u.fn(f, fn, within="impl Callable for %s" % name, contract="""
    requires
        %s
    ensures
        %s
""" % (requires, ensures), rewrite=REWRITE, rename=name.lower(), subst=value if returns else subst, **kw)

    call("ClsCommand", "old(scope).nargs == 0", "r is Ok ==> final(console).does(*old(console), Op::Clear),")
    u.fn(f, "get_color", contract="""
    requires narg < scope.nargs, scope.integer(narg as int) is Some
    ensures color_of(scope.integer(narg as int)->Some_0 as int) == (match r { Ok(c) => c, Err(_) => None }), r is Ok ==> r->Ok_0 is Some, r is Err ==> r->Err_0 is Syntax
""", rewrite=REWRITE, subst=subst)
    u.add("""
pub open spec fn color_of(i: int) -> Option<u8> { if 0 <= i < 256 { Some(i as u8) } else { None } }
/// A color that can be missing: the outer value is none if it is wrong.
pub open spec fn optional(scope: Scope, i: int) -> Option<Option<u8>> {
    if i >= scope.nargs { Some(None) } else if scope.tag(i)->Some_0 is Missing { Some(None) } else {
        match color_of(scope.integer(i + 1)->Some_0 as int) { Some(c) => Some(Some(c)), None => None }
    }
}
pub open spec fn after(scope: Scope, i: int) -> int { if scope.tag(i)->Some_0 is Missing { i + 1 } else { i + 2 } }
pub open spec fn slot(scope: Scope, i: int) -> bool {
    scope.tag(i) is Some && !(scope.tag(i)->Some_0 is Pointer) && (scope.tag(i)->Some_0 is Immediate ==> i + 1 < scope.nargs && scope.integer(i + 1) is Some)
}
/// The colors that arguments give, unless they are wrong.
pub open spec fn colors(scope: Scope) -> Option<(Option<u8>, Option<u8>)> {
    if scope.nargs == 0 { Some((None, None)) }
    else if scope.nargs == 1 { match color_of(scope.integer(0)->Some_0 as int) { Some(c) => Some((Some(c), None)), None => None } }
    else {
        match (optional(scope, 0), optional(scope, after(scope, 0))) {
            (Some(fg), Some(bg)) => Some((fg, bg)),
            _ => None,
        }
    }
}
""")
    call("ColorCommand", """
        old(scope).nargs <= 4,
        old(scope).nargs == 1 ==> old(scope).integer(0) is Some,
        old(scope).nargs >= 2 ==> slot(*old(scope), 0) && (after(*old(scope), 0) < old(scope).nargs ==> slot(*old(scope), after(*old(scope), 0))),
""", """
        match colors(*old(scope)) {
            Some((fg, bg)) => final(console).does(*old(console), Op::Color(fg, bg)) && (r is Err ==> r->Err_0 is Io),
            None => r is Err && r->Err_0 is Syntax && *final(console) == *old(console),
        },
""", hoist=["get_color"])
    call("InKeyFunction", "old(scope).nargs == 0", "r is Ok ==> r->Ok_0 is Text && r->Ok_0->Text_0@ =~= named(old(console).next@), final(console).log == old(console).log,", returns=True, fn="async_exec",
         start="proof { reveal_strlit(\"\"); }")
    u.fn(f, "get_coord", contract="""
    requires narg < scope.nargs, scope.integer(narg as int) is Some
    ensures match r { Ok(v) => scope.integer(narg as int)->Some_0 == v, Err(e) => e is Syntax && !(0 <= scope.integer(narg as int)->Some_0 < 0x10000) }
""", rewrite=REWRITE, subst=subst)
    call("LocateCommand", "old(scope).nargs == 2, old(scope).integer(0) is Some, old(scope).integer(1) is Some, old(console).size.x > 0, old(console).size.y > 0,", """
        ({
            let x = old(scope).integer(0)->Some_0;
            let y = old(scope).integer(1)->Some_0;
            let fits = 0 <= x < old(console).size.x && 0 <= y < old(console).size.y;
            &&& r is Ok ==> fits && final(console).does(*old(console), Op::Locate(x as u16, y as u16))
            &&& !fits ==> r is Err && *final(console) == *old(console)
            &&& r is Err && r->Err_0 is Syntax ==> !fits
        }),
""", hoist=["get_coord"])
    call("PrintCommand", "listed(*old(scope), 0), old(scope).nargs <= 255,", """
        ({
            let (text, line) = printed(*old(scope), 0, Seq::empty());
            final(console).does(*old(console), if line { Op::Print(text) } else { Op::Write(text) })
        }),
""", attrs="#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n#[verifier::rlimit(50)]", start="", loops=["""
    invariant_except_break
        listed(*old(scope), reg as int), reg == 0 ==> text@.len() == 0,
        printed(*old(scope), 0, Seq::empty()) == printed(*old(scope), reg as int, text@),
    invariant
        *scope == *old(scope), *console == *old(console),
    ensures
        printed(*old(scope), 0, Seq::empty()) == (text@, nl),
    decreases scope.nargs - reg,
""", """
    invariant
        before.len() < text@.len(), text@.len() - before.len() <= 14 - before.len() % 14, text@.take(before.len() as int) == before,
        forall|i: int| before.len() <= i < text@.len() ==> #[trigger] text@[i] == ' ',
    decreases 14 - (text@.len() - before.len()),
"""], loop_start={0: "proof { unfold(*scope, reg as int, text@); }\nbroadcast use unpushed;"}, loop_before={1: "let ghost before = text@.drop_last();\nproof { assert(text@.take(before.len() as int) =~= before); }"}, loop_after={1: "proof { widen(before, text@); }"})
    call("ScrColsFunction", "old(scope).nargs == 0", "r is Ok ==> r->Ok_0 == Returned::Integer(old(console).size.x as i32), *final(console) == *old(console),", returns=True)
    call("ScrRowsFunction", "old(scope).nargs == 0", "r is Ok ==> r->Ok_0 == Returned::Integer(old(console).size.y as i32), *final(console) == *old(console),", returns=True)
    u.add("""
/// The prompt of INPUT and which argument its variable is.
pub open spec fn asks(scope: Scope) -> (Seq<char>, int) {
    if scope.nargs == 1 { (Seq::empty(), 0) } else {
        match scope.tag(0)->Some_0 {
            VarArgTag::Immediate(sep, _) => (if sep is Short { scope.text(1)->Some_0 + "? "@ } else { scope.text(1)->Some_0 }, 2),
            VarArgTag::Missing(sep) => (if sep is Short { "? "@ } else { Seq::empty() }, 1),
            _ => (Seq::empty(), 0),
        }
    }
}
pub open spec fn askable(scope: Scope) -> bool {
    &&& scope.target(asks(scope).1) is Some
    &&& scope.nargs == 1 || scope.nargs == 2 && scope.tag(0) is Some && match scope.tag(0)->Some_0 {
        VarArgTag::Missing(sep) => sep is Long || sep is Short,
        _ => false,
    } || scope.nargs == 3 && scope.tag(0) is Some && match scope.tag(0)->Some_0 {
        VarArgTag::Immediate(sep, t) => t is Text && (sep is Long || sep is Short) && scope.text(1) is Some,
        _ => false,
    }
}
/// Whether the last question was answered with a value after others that were not.
pub open spec fn resolved(now: Screen, old: Screen, prompt: Seq<char>, t: ExprType, v: Option<Value>) -> bool {
    let ops = since(now, old);
    let rest = ops.drop_last();
    &&& extends(now, old) && ops.len() > 0
    &&& match ops.last() {
        Op::Line(p, before, Some(a)) => p == prompt && again(rest, prompt, t) == Some(before) && answered(t, a) == v && v is Some,
        _ => false,
    }
}
""")
    call("InputCommand", "askable(*old(scope)),", """
        r is Ok ==> resolved(*final(console), *old(console), asks(*old(scope)).0, old(scope).target(asks(*old(scope)).1)->Some_0, final(scope).memory@),
        r is Err ==> final(scope).memory == old(scope).memory,
""", fn="async_exec", attrs="#[verifier::exec_allows_no_decreases_clause]\n#[verifier::loop_isolation(false)]\n#[verifier::rlimit(50)]",
         start="broadcast use {later, once_more, undone};\nproof { assert(console.log@.skip(console.log@.len() as int) =~= Seq::empty()); assert(console.log@.take(console.log@.len() as int) =~= console.log@); reveal_strlit(\"\"); assert(\"\"@ =~= Seq::empty()); assert(Seq::<char>::empty() + \"? \"@ =~= \"? \"@); }", loops=["""
    invariant
        *scope == *old(scope), extends(*console, *old(console)), reg == asks(*old(scope)).1, prompt@ == asks(*old(scope)).0,
        again(since(*console, *old(console)), prompt@, scope.target(reg as int)->Some_0) == Some(previous_answer@),
"""], loop_start={0: "broadcast use {later, once_more, undone};"})
    u.add("}\nfn main() {}")


PAGES = """
verus! {
global size_of usize == 8;
#[verifier::external_body]
pub struct IoError { x: u8 }
#[derive(Clone, Copy)]
pub struct CharsXY { pub x: u16, pub y: u16 }
#[verifier::external_body]
fn interrupted() -> IoError { unimplemented!() }
pub ghost enum Op { Print(Seq<char>), Write(Seq<char>), Key(Key) }
pub struct Screen { pub log: Ghost<Seq<Op>>, pub size: CharsXY, pub live: bool }
impl Screen {
    pub open spec fn like(&self, old: Screen) -> bool { self.size == old.size && self.live == old.live }
    pub open spec fn does(&self, old: Screen, op: Op) -> bool { self.log@ == old.log@.push(op) && self.like(old) }
    #[verifier::external_body]
    fn print(&mut self, text: &str) -> (r: Result<(), IoError>) ensures final(self).does(*old(self), Op::Print(text@)) { unimplemented!() }
    #[verifier::external_body]
    fn write(&mut self, text: &str) -> (r: Result<(), IoError>) ensures final(self).does(*old(self), Op::Write(text@)) { unimplemented!() }
    fn is_interactive(&self) -> (r: bool) ensures r == self.live { self.live }
    #[verifier::external_body]
    fn read_key(&mut self) -> (r: Result<Key, IoError>)
        ensures final(self).like(*old(self)), r is Ok ==> final(self).does(*old(self), Op::Key(r->Ok_0))
    { unimplemented!() }
}
/// How many characters there are: what fits on a line of text is less than half of the memory.
#[verifier::external_body]
fn count(s: &str) -> (r: usize) ensures r == s@.len(), r < 0x1000_0000_0000_0000 { unimplemented!() }
/// How many bytes there are.
pub uninterp spec fn bytes(s: Seq<char>) -> nat;
#[verifier::external_body]
fn size(s: &str) -> (r: usize) ensures r == bytes(s@), r >= s@.len(), r < 0x1000_0000_0000_0000 { unimplemented!() }
/// How many rows a text takes at most.
pub open spec fn rows(columns: int, x: int) -> int { columns / x + 1 }
pub open spec fn stops(k: Key) -> bool { k is Escape || k is Interrupt }
"""

WORDS = """
verus! {
global size_of usize == 8;
/// The words of a text.
pub uninterp spec fn words(s: Seq<char>) -> Seq<Seq<char>>;
pub open spec fn views(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
#[verifier::external_body]
fn split(s: &str) -> (r: Vec<&str>)
    ensures views(r@) == words(s@), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@.len() > 0
{ s.split_whitespace().collect() }
pub broadcast axiom fn no_words(s: Seq<char>) ensures s.len() == 0 ==> (#[trigger] words(s)).len() == 0;
#[verifier::external_body]
fn empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body]
fn new_string() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
fn append(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
#[verifier::external_body]
fn append_blank(s: &mut String) ensures final(s)@ == old(s)@.push(' ') { unimplemented!() }
#[verifier::external_body]
fn count(s: &str) -> (r: usize) ensures r == s@.len(), r < 0x1000_0000_0000_0000 { unimplemented!() }
/// How many bytes there are.
pub uninterp spec fn bytes(s: Seq<char>) -> nat;
#[verifier::external_body]
fn size(s: &str) -> (r: usize) ensures r == bytes(s@), r >= s@.len(), r < 0x1000_0000_0000_0000 { unimplemented!() }
#[verifier::external_body]
fn ends_in_period(s: &str) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == '.') { unimplemented!() }
#[verifier::external_body]
fn first_char(s: &str) -> (r: char)
    requires s@.len() > 0
    ensures r == s@[0]
{ unimplemented!() }
pub uninterp spec fn capital(c: char) -> char;
#[verifier::external_body]
fn uppercase(c: char) -> (r: char) ensures r == capital(c) { unimplemented!() }

/// How many blanks go between a line and the next word.
pub open spec fn gap(line: Seq<char>, word: Seq<char>) -> nat { if line.len() > 0 && line.last() == '.' && word[0] == capital(word[0]) { 2 } else { 1 } }
pub open spec fn blanks(n: nat) -> Seq<char> { Seq::new(n, |i: int| ' ') }
pub open spec fn joined(line: Seq<char>, word: Seq<char>) -> Seq<char> { line + blanks(gap(line, word)) + word }
/// The lines of words after those that are finished: a word goes to the last line if it fits there.
pub open spec fn filled(lines: Seq<Seq<char>>, line: Seq<char>, ws: Seq<Seq<char>>, width: int) -> Seq<Seq<char>>
    decreases ws.len()
{
    if ws.len() == 0 { if line.len() == 0 { lines } else { lines.push(line) } }
    else if line.len() == 0 { filled(lines, ws[0], ws.skip(1), width) }
    else if line.len() + gap(line, ws[0]) + ws[0].len() < width { filled(lines, joined(line, ws[0]), ws.skip(1), width) }
    else { filled(lines.push(line), ws[0], ws.skip(1), width) }
}
pub broadcast proof fn one_more(v: Seq<String>, s: String)
    ensures #[trigger] texts(v.push(s)) == texts(v).push(s@)
{ assert(texts(v.push(s)) =~= texts(v).push(s@)); }
pub broadcast proof fn none(v: Seq<String>)
    requires v.len() == 0
    ensures #[trigger] texts(v) == Seq::<Seq<char>>::empty()
{ assert(texts(v) =~= Seq::empty()); }
pub broadcast proof fn skipped(s: Seq<Seq<char>>, i: int)
    requires 0 <= i < s.len()
    ensures #[trigger] s.skip(i).skip(1) == s.skip(i + 1)
{ assert(s.skip(i).skip(1) =~= s.skip(i + 1)); }
pub broadcast proof fn all_of(s: Seq<Seq<char>>)
    ensures #[trigger] s.skip(0) == s
{ assert(s.skip(0) =~= s); }
proof fn blank_more(n: nat) ensures blanks(n + 1) == blanks(n).push(' ') { assert(blanks(n + 1) =~= blanks(n).push(' ')); }
"""


def paged(body):
    """Spells out what the standard library does."""
    body = re.sub(r"\.await\b", "", body)
    m = re.search(r"if let Some\(yielder\) = self\.yielder\.as_ref\(\) (?=\{)", body)
    if m:
        z = closing(blank(body), m.end())
        body = body[:m.start()] + body[z + 1:]
    body = re.sub(r"(?<![\w.])(\w+)\.chars\(\)\.count\(\)", r"count(\1)", body)
    body = re.sub(r"\btext\.len\(\)", "size(text)", body)
    body = re.sub(r"\busize::from\(((?:\w+\.)*\w+)\)", r"(\1 as usize)", body)
    return re.sub(r"io::Error::new\(%s\)" % NEST, "interrupted()", body)


def pager(u):
    f = File(PAGER)
    u.add(PAGES)
    u.add("#[derive(Clone, Copy)]\n" + File("std/src/console/mod.rs").item("enum", "Key"))
    u.add("pub struct Pager { pub console: Screen, pub size: CharsXY, pub more_message: &'static str, pub cur_columns: usize, pub cur_lines: usize }")
    u.add("""
impl Pager {
    pub open spec fn wf(&self) -> bool { self.size.x > 0 && self.size.y > 0 && self.cur_columns < 0x1000_0000_0000_0000 && self.cur_lines < 0x1_0000 }
    pub open spec fn like(&self, old: Pager) -> bool { self.size == old.size && self.more_message == old.more_message && self.console.like(old.console) }
    /// Whether the screen is full.
    pub open spec fn full(&self) -> bool { self.cur_lines >= self.size.y - 1 }
}
""")
    drop = (paged, "await and the hook that yields are dropped; texts are sequences of characters")
    wrap = ("impl Pager {", "}")
    sub = [(r"async fn", "fn", ""), (r"io::Result<\(\)>", "Result<(), IoError>", "")]
    u.fn(f, "write", contract="""
    requires
        old(self).wf(),
    ensures
        final(self).like(*old(self)), final(self).console.does(old(self).console, Op::Write(text@)), final(self).cur_lines == old(self).cur_lines,
        r is Ok ==> final(self).cur_columns == old(self).cur_columns + (if old(self).console.live { text@.len() } else { 0 }),
        r is Err ==> *final(self) == (Pager { console: final(self).console, ..*old(self) }),
""", rewrite=drop, subst=sub, wrap=wrap)
    u.fn(f, "print", contract="""
    requires
        old(self).wf(),
    ensures
        final(self).like(*old(self)),
        r is Ok && !old(self).console.live ==> final(self).console.does(old(self).console, Op::Print(text@)) && final(self).cur_lines == old(self).cur_lines && final(self).cur_columns == old(self).cur_columns,
        r is Ok && old(self).console.live ==> ({
            let lines = old(self).cur_lines + rows(old(self).cur_columns + text@.len(), old(self).size.x as int);
            let shown = old(self).console.log@.push(Op::Print(text@));
            let log = final(self).console.log@;
            &&& final(self).cur_columns == 0
            &&& if lines >= old(self).size.y - 1 {
                &&& final(self).cur_lines == 0
                &&& log.len() > 0 && log.last() is Key && !stops(log.last()->Key_0) && log.drop_last() == shown.push(Op::Print(old(self).more_message@))
            } else {
                final(self).cur_lines == lines && log == shown
            }
        }),
        // A key that stops the output is an error.
        r is Ok ==> !final(self).console.live || final(self).size.y <= 1 || !final(self).full(),
""", rewrite=drop, subst=sub, wrap=wrap, start="proof { assert forall|s: Seq<Op>, op: Op| (#[trigger] s.push(op)).drop_last() == s by { assert(s.push(op).drop_last() =~= s); } }")
    u.add("}\nfn main() {}")


def filling(body):
    body = re.sub(r"vec!\[\"\"\.to_owned\(\)\]", "{ let mut v = Vec::new(); v.push(new_string()); v }", body)
    body = re.sub(r"\bvec!\[\]", "Vec::new()", body)
    body = re.sub(r"\bString::new\(\)", "new_string()", body)
    body = re.sub(r"for (\w+) in (\w+)\.split_whitespace\(\)\s*\{", r"let all = split(\2);\nfor at in 0..all.len() {\nlet \1 = all[at];", body)
    body = re.sub(r"\b(\w+)\.is_empty\(\)", r"empty(&\1)", body)
    body = re.sub(r"\b(\w+)\.ends_with\('\.'\)", r"ends_in_period(&\1)", body)
    body = re.sub(r"\b(\w+)\.chars\(\)\.next\(\)\.expect\(\"[^\"]*\"\)", r"first_char(\1)", body)
    body = re.sub(r"\b(\w+)\.to_ascii_uppercase\(\)", r"uppercase(\1)", body)
    body = re.sub(r"(?<![\w.])(\w+)\.chars\(\)\.count\(\)", r"count(&\1)", body)
    body = re.sub(r"\b(line|word|paragraph)\.len\(\)", r"size(&\1)", body)
    body = re.sub(r"\bline\.push\(' '\)", "append_blank(&mut line)", body)
    return re.sub(r"\bline\.push_str\((\w+)\)", r"append(&mut line, \1)", body)


def layout(u):
    f = File(FORMAT)
    u.add(WORDS)
    u.fn(f, "refill", contract="""
    requires
        width < 0x1000_0000_0000_0000,
    ensures
        texts(r@) == (if paragraph@.len() == 0 { seq![Seq::empty()] } else { filled(Seq::empty(), Seq::empty(), words(paragraph@), width as int) }),
""", rewrite=(filling, "words come from a function with an assumed contract, and texts are sequences of characters"), attrs="#[verifier::loop_isolation(false)]\n#[verifier::rlimit(50)]",
         start="broadcast use {one_more, none, all_of, no_words};", loops=["""
    invariant
        views(all@) == words(paragraph@), at > 0 ==> line@.len() > 0, forall|i: int| 0 <= i < all@.len() ==> (#[trigger] all@[i])@.len() > 0,
        filled(Seq::empty(), Seq::empty(), words(paragraph@), width as int) == filled(texts(lines@), line@, words(paragraph@).skip(at as int), width as int),
""", """
    invariant
        line@ == before + blanks(k as nat), spaces == gap(before, word@),
"""], loop_start={0: "broadcast use {one_more, none, skipped};\nproof { assert(words(paragraph@).skip(at as int)[0] == all@[at as int]@) by { assert(views(all@)[at as int] == all@[at as int]@); } }\nlet ghost before = line@;", 1: ""},
         loop_before={1: "proof { assert(before + blanks(0) =~= before); }"}, loop_end={1: "proof { blank_more(k as nat); assert(before + blanks(k as nat + 1) =~= (before + blanks(k as nat)).push(' ')); }"}, subst=[(r"for _ in 0\.\.spaces", "for k in 0..spaces", "")])
    u.add("}\nfn main() {}")


UNITS = [commands, pager, layout]
