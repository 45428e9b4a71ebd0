"""P14: how source text is split into words, for texts of any length."""

import re

from verus_run import File, Lost, blank, closing, body_brace

READER = "core/src/reader.rs"
LEXER = "core/src/lexer.rs"

OPEN = """
global size_of usize == 8;
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(io::Error);

pub assume_specification<T> [Option::<T>::replace] (o: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures *final(o) == Some(v), r == *old(o);

/// What is left of the text: io::BufReader and its source.
#[verifier::external_body]
pub struct Input { x: u8 }
impl View for Input {
    type V = Seq<char>;
    uninterp spec fn view(&self) -> Seq<char>;
}
impl Input {
    /// Reads characters up to the end of a line or of the text.
    #[verifier::external_body]
    fn read_line(&mut self, line: &mut String) -> (r: io::Result<usize>)
        ensures
            final(self)@.len() <= old(self)@.len(),
            r is Ok ==> final(line)@ + final(self)@ == old(line)@ + old(self)@,
            r is Ok ==> (r->Ok_0 == 0) == (old(self)@.len() == 0),
            r is Ok && r->Ok_0 > 0 ==> final(line)@.len() > old(line)@.len(),
    { unimplemented!() }
}
#[verifier::external_body]
fn characters(line: &String) -> (r: Vec<char>)
    ensures r@ == line@
{ unimplemented!() }
#[verifier::external_body]
fn other(t: &str) -> io::Error { unimplemented!() }
#[verifier::external_body]
fn opaque() -> String { unimplemented!() }

/// The position after one character, as stated by the documentation: tabs advance to the next multiple of 8.
pub open spec fn after(p: LineCol, ch: char) -> LineCol {
    if ch == '\\n' {
        LineCol { line: (p.line + 1) as usize, col: 1 }
    } else if ch == '\\t' {
        LineCol { line: p.line, col: ((p.col + 7) / 8 * 8 + 1) as usize }
    } else {
        LineCol { line: p.line, col: (p.col + 1) as usize }
    }
}

/// The position after several characters.
pub open spec fn past(p: LineCol, s: Seq<char>) -> LineCol
    decreases s.len()
{
    if s.len() == 0 { p } else { after(past(p, s.drop_last()), s.last()) }
}

pub broadcast proof fn lemma_skip_all(s: Seq<char>, t: Seq<char>)
    ensures
        #[trigger] (s.skip(s.len() as int) + t) =~= t,
{}
pub broadcast proof fn lemma_skip_none(s: Seq<char>, t: Seq<char>)
    ensures
        #[trigger] (s.skip(0) + t) =~= s + t,
{}
pub broadcast proof fn lemma_empty(s: Seq<char>)
    ensures
        #[trigger] (Seq::<char>::empty() + s) =~= s,
{}

/// Positions that cannot overflow in a text that has `n` characters left.
pub open spec fn room(p: LineCol, n: nat) -> bool {
    1 <= p.line && p.line + n <= 0x1000_0000_0000 && 1 <= p.col && p.col + 8 * n <= 0x1000_0000_0000
}
"""


REFILL = """
        broadcast use {lemma_skip_all, lemma_skip_none, lemma_empty};
        proof {
            assert(self.unread() =~= self.reader@);
        }
"""

NEXT = """
        broadcast use {lemma_skip_all, lemma_skip_none, lemma_empty};
        proof {
            if self.sane() && self.pending is Chars {
                let chars = self.pending->Chars_0@;
                let last = self.pending->Chars_1;
                let a = chars.skip(last as int);
                assert(a.len() == chars.len() - last);
                assert((a + self.reader@).len() == a.len() + self.reader@.len());
                if last < chars.len() {
                    assert(self.unread() == a + self.reader@);
                    assert(self.unread().len() >= 1);
                    assert((a + self.reader@)[0] == chars[last as int]);
                    assert((a + self.reader@).skip(1) =~= chars.skip(last + 1) + self.reader@);
                }
            }
            assert(forall|ch: char| (#[trigger] (seq![ch] + self.unread())).skip(1) =~= self.unread());
        }
"""


def reader(u, tail=True):
    f = File(READER)
    u.add("verus! {")
    u.add(OPEN)
    u.add("#[derive(Clone, Copy, Debug, PartialEq, Eq, Structural)]\n" + f.item("struct", "LineCol"))
    u.add("#[derive(Debug)]\n" + f.item("struct", "CharSpan").replace("pub(crate) ", "pub "))
    u.add(re.sub(r"^enum", "pub enum", f.item("enum", "Pending")))
    struct = f.item("struct", "CharReader")
    struct = re.sub(r"<'a>", "", struct, count=1)
    struct, n = re.subn(r"io::BufReader<&'a mut dyn io::Read>", "Input", struct)
    if n != 1:
        raise Lost("CharReader has another source")
    struct = re.sub(r"(?m)^    (\w+):", r"    pub \1:", struct)
    if f.constant("TAB_LENGTH").strip() != "8":
        raise Lost("tabs have another length")
    u.add("const TAB_LENGTH: usize = 8;")
    u.add(struct)
    u.add("""
impl CharReader {
    /// The characters that have not been returned yet, without the one that was peeked.
    pub open spec fn unread(&self) -> Seq<char> {
        match self.pending {
            Pending::Unknown => self.reader@,
            Pending::Chars(chars, last) => chars@.skip(last as int) + self.reader@,
            Pending::Eof => Seq::empty(),
            Pending::Error(_) => self.reader@,
        }
    }
    /// The characters that have not been consumed yet.
    pub open spec fn rest(&self) -> Seq<char> {
        match self.peeked {
            Some(Some(Ok(span))) => seq![span.ch] + self.unread(),
            Some(None) => Seq::empty(),
            _ => self.unread(),
        }
    }
    /// The position of the next character to consume.
    pub open spec fn here(&self) -> LineCol {
        match self.peeked {
            Some(Some(Ok(span))) => span.pos,
            _ => self.next_pos,
        }
    }
    pub open spec fn sane(&self) -> bool {
        &&& room(self.next_pos, self.unread().len())
        &&& room(self.here(), self.rest().len())
        &&& self.peeked is None && self.pending is Chars ==> self.pending->Chars_1 <= self.pending->Chars_0@.len()
        &&& self.pending is Chars ==> self.pending->Chars_1 <= self.pending->Chars_0@.len()
        &&& self.pending is Eof ==> self.reader@.len() == 0
        &&& match self.peeked {
            Some(Some(Ok(span))) => self.next_pos == after(span.pos, span.ch),
            Some(None) => self.unread().len() == 0,
            _ => true,
        }
    }
    /// Whether an error was peeked and not returned yet.
    pub open spec fn failed(&self) -> bool {
        self.peeked is Some && self.peeked->Some_0 is Some && self.peeked->Some_0->Some_0 is Err
    }
    pub open spec fn stage(&self) -> int {
        match self.pending {
            Pending::Unknown => 2,
            Pending::Chars(chars, last) => if last == chars@.len() { 2 } else { 0 },
            _ => 0,
        }
    }
    /// What consuming one character does.
    pub open spec fn consumed(&self, to: &CharReader, r: Option<io::Result<CharSpan>>) -> bool {
        &&& r is None ==> self.rest().len() == 0 && to.rest().len() == 0 && to.here() == self.here()
        &&& r is Some && r->Some_0 is Ok ==> {
            let span = r->Some_0->Ok_0;
            &&& self.rest().len() > 0
            &&& span.ch == self.rest()[0]
            &&& span.pos == self.here()
            &&& to.rest() == self.rest().skip(1)
            &&& to.here() == after(span.pos, span.ch)
        }
    }
}
""")
    closure = [(r"line\.chars\(\)\.collect\(\)", "characters(&line)", "String::chars().collect() becomes an assumed function"),
               (r'io::Error::other\(("[^"]*")\)', r"other(\1)", "the text of an error is opaque"),
               (r"Some\(e\) => Some\(Err\(e\)\)", "Some(x) => Some(Err(x))", "a variable that shadows another is renamed")]
    u.fn(f, "refill_and_next", contract="""
    requires
        old(self).sane(), old(self).peeked is None, old(self).stage() == 2,
    ensures
        !(r is Some && r->Some_0 is Err) ==> final(self).sane(), final(self).peeked is None,
        old(self).consumed(final(self), r),
    decreases 1int,
""", subst=closure, wrap=("impl CharReader {", "}"), start=REFILL)
    u.fn(f, "next", within="impl Iterator for CharReader", contract="""
    requires
        old(self).sane() || old(self).failed(),
    ensures
        !(r is Some && r->Some_0 is Err) ==> final(self).sane(),
        final(self).peeked is None,
        old(self).failed() ==> r is Some && r->Some_0 is Err,
        old(self).peeked is Some ==> r == old(self).peeked->Some_0,
        old(self).consumed(final(self), r),
        old(self).peeked is None && old(self).pending is Error ==> r is Some && r->Some_0 is Err,
    decreases old(self).stage(),
""", subst=closure + [(r"Option<Self::Item>", "Option<io::Result<CharSpan>>", "Self::Item is spelled out")], wrap=("impl CharReader {", "}"),
         start=NEXT)
    u.fn(f, "peek", contract="""
    requires
        old(self).sane(),
    ensures
        r is None ==> final(self).sane() && old(self).rest().len() == 0,
        r is Some && *r->Some_0 is Ok ==> final(self).sane() && old(self).rest().len() > 0 && r->Some_0->Ok_0.ch == old(self).rest()[0]
            && r->Some_0->Ok_0.pos == old(self).here(),
        final(self).peeked is Some,
        final(self).peeked == Some(match r { Some(x) => Some(*x), None => None }),
        !(r is Some && *r->Some_0 is Err) ==> final(self).rest() == old(self).rest() && final(self).here() == old(self).here(),
""", wrap=("impl CharReader {", "}"), subst=[(r"pub\(crate\) ", "", "")])
    u.fn(f, "next_pos", contract="""
    ensures self.peeked is None ==> r == self.here(), r == self.next_pos
""", wrap=("impl CharReader {", "}"), subst=[(r"pub\(crate\) ", "", "")])
    if tail:
        u.add("}\nfn main() {}")



def merge_guards(body):
    """Turns adjacent arms with the same pattern, told apart by guards, into one arm with an if."""
    out = []
    group = None
    for line in body.split("\n"):
        m = re.match(r"(\s*)([^\s=].*?)(?: if (.+?))? => (.+),$", line)
        if m and group and m.group(2) == group[1]:
            group[2].append((m.group(3), m.group(4)))
            if not m.group(3):
                arms = group[2]
                text = " else ".join(("if %s { %s }" % (c, b)) if c else "{ %s }" % b for c, b in arms)
                out[group[0]:] = ["%s%s => { %s }" % (m.group(1), m.group(2), text)]
                group = None
            else:
                out.append(line)
            continue
        group = None
        if m and m.group(3):
            group = (len(out), m.group(2), [(m.group(3), m.group(4))])
        out.append(line)
    return "\n".join(out)


MERGED = (merge_guards, "adjacent arms with the same pattern become one arm with an if")
WALK = """
/// How many characters were consumed from one state to another.
pub open spec fn steps(from: &CharReader, to: &CharReader) -> int {
    from.rest().len() - to.rest().len()
}

/// `to` is `from` after consuming some characters.
pub open spec fn walked(from: &CharReader, to: &CharReader) -> bool {
    let n = steps(from, to);
    &&& 0 <= n <= from.rest().len()
    &&& to.rest() =~= from.rest().skip(n)
    &&& to.here() == past(from.here(), from.rest().take(n))
    &&& to.sane()
}

proof fn start(c: &CharReader)
    requires c.sane()
    ensures walked(c, c)
{
    assert(c.rest().skip(0) =~= c.rest());
    assert(c.rest().take(0) =~= Seq::<char>::empty());
}

pub broadcast proof fn walk_on(a: &CharReader, b: &CharReader, c: &CharReader)
    requires
        #[trigger] walked(a, b), b.rest().len() > 0, c.rest() =~= b.rest().skip(1), c.here() == after(b.here(), b.rest()[0]), #[trigger] c.sane(),
    ensures
        walked(a, c),
        steps(a, c) == steps(a, b) + 1,
        b.rest()[0] == a.rest()[steps(a, b)],
{
    let n = steps(a, b);
    assert(a.rest().skip(n).skip(1) =~= a.rest().skip(n + 1));
    assert(a.rest().take(n + 1).drop_last() =~= a.rest().take(n));
}

pub broadcast proof fn walk_still(a: &CharReader, b: &CharReader, c: &CharReader)
    requires
        #[trigger] walked(a, b), c.rest() =~= b.rest() || b.rest().len() == 0 && c.rest().len() == 0, c.here() == b.here(), #[trigger] c.sane(),
    ensures
        walked(a, c),
        steps(a, c) == steps(a, b),
{
    assert(c.rest() =~= b.rest());
}

proof fn past_line(p: LineCol, s: Seq<char>)
    requires
        p.line + s.len() <= 0x1000_0000_0000,
    ensures
        p.line <= past(p, s).line <= p.line + s.len(),
    decreases s.len(),
{
    if s.len() > 0 { past_line(p, s.drop_last()); }
}

proof fn run_range(s: Seq<char>, class: spec_fn(char) -> bool)
    ensures
        0 <= run(s, class) <= s.len(),
        run(s, class) < s.len() ==> !class(s[run(s, class)]),
    decreases s.len(),
{
    if s.len() > 0 && class(s[0]) { run_range(s.skip(1), class); }
}

proof fn past_sum(p: LineCol, s: Seq<char>, n: int, m: int)
    requires 0 <= n, 0 <= m, n + m <= s.len()
    ensures past(p, s.take(n + m)) == past(past(p, s.take(n)), s.skip(n).take(m))
    decreases m
{
    if m > 0 {
        past_sum(p, s, n, m - 1);
        assert(s.take(n + m).drop_last() =~= s.take(n + m - 1));
        assert(s.skip(n).take(m).drop_last() =~= s.skip(n).take(m - 1));
        assert(s.take(n + m).last() == s.skip(n).take(m).last());
    } else {
        assert(s.skip(n).take(0) =~= Seq::<char>::empty());
    }
}

pub broadcast proof fn walk_far(a: &CharReader, b: &CharReader, c: &CharReader)
    requires
        #[trigger] walked(a, b), #[trigger] walked(b, c),
    ensures
        walked(a, c),
        steps(a, c) == steps(a, b) + steps(b, c),
        b.rest() == a.rest().skip(steps(a, b)),
{
    past_sum(a.here(), a.rest(), steps(a, b), steps(b, c));
    assert(a.rest().skip(steps(a, b)).skip(steps(b, c)) =~= a.rest().skip(steps(a, c)));
}

/// The length of the longest prefix whose characters are all in a class.
pub open spec fn run(s: Seq<char>, class: spec_fn(char) -> bool) -> int
    decreases s.len()
{
    if s.len() > 0 && class(s[0]) { 1 + run(s.skip(1), class) } else { 0 }
}

/// The prefix of n characters is in the class.
proof fn run_is(s: Seq<char>, class: spec_fn(char) -> bool, n: int)
    requires
        0 <= n <= s.len(),
        forall|i: int| 0 <= i < n ==> class(#[trigger] s[i]),
        n == s.len() || !class(s[n]),
    ensures
        run(s, class) == n,
    decreases n,
{
    if n > 0 {
        assert(class(s[0]));
        assert forall|i: int| 0 <= i < n - 1 implies class(#[trigger] s.skip(1)[i]) by { assert(s.skip(1)[i] == s[i + 1]); }
        if n < s.len() { assert(s.skip(1)[n - 1] == s[n]); }
        run_is(s.skip(1), class, n - 1);
    }
}

pub open spec fn is_in(ch: char, set: Seq<char>) -> bool { set.contains(ch) }
pub open spec fn space(ch: char) -> bool { ch == ' ' || ch == '\\t' || ch == '\\r' }
pub open spec fn separator(ch: char) -> bool {
    space(ch) || ch == '\\n' || ch == ':' || ch == '(' || ch == ')' || ch == '\\'' || ch == '=' || ch == '<' || ch == '>' || ch == ';'
        || ch == ',' || ch == '+' || ch == '-' || ch == '*' || ch == '/' || ch == '^'
}
pub uninterp spec fn alphanumeric(ch: char) -> bool;
pub uninterp spec fn numeric(ch: char) -> bool;
pub open spec fn words() -> spec_fn(char) -> bool { |ch: char| word(ch) }
pub open spec fn digits() -> spec_fn(char) -> bool { |ch: char| digit(ch) }
pub open spec fn hexadecimals() -> spec_fn(char) -> bool { |ch: char| hexadecimal(ch) }
pub open spec fn not_newlines() -> spec_fn(char) -> bool { |ch: char| ch != '\\n' }
pub open spec fn spaces() -> spec_fn(char) -> bool { |ch: char| space(ch) }
pub open spec fn word(ch: char) -> bool { ch == '_' || alphanumeric(ch) }
pub open spec fn digit(ch: char) -> bool { '0' <= ch && ch <= '9' }
pub open spec fn hexadecimal(ch: char) -> bool { digit(ch) || 'a' <= ch && ch <= 'f' || 'A' <= ch && ch <= 'F' }

pub assume_specification [char::is_alphanumeric] (c: char) -> (r: bool)
    ensures r == alphanumeric(c), digit(c) ==> r;
pub assume_specification [char::is_numeric] (c: char) -> (r: bool)
    ensures r == numeric(c);
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool)
    ensures r == digit(*c);
pub assume_specification [String::len] (s: &String) -> (r: usize)
    ensures s@.len() <= r <= 4 * s@.len();

/// The value of a digit.
pub open spec fn value(ch: char) -> int {
    if digit(ch) { ch as int - '0' as int } else if 'a' <= ch && ch <= 'f' { ch as int - 'a' as int + 10 }
    else if 'A' <= ch && ch <= 'F' { ch as int - 'A' as int + 10 } else { 99 }
}
/// The value of a number in positional notation.
pub open spec fn number(s: Seq<char>, base: int) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { number(s.drop_last(), base) * base + value(s.last()) }
}
pub open spec fn in_base(s: Seq<char>, base: int) -> bool {
    s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> value(#[trigger] s[i]) < base
}
pub uninterp spec fn double_of(s: Seq<char>) -> f64;

/// Documented behaviour of str::parse and u32::from_str_radix on digits.
#[verifier::external_body]
fn parse_i32(s: &String) -> (r: Result<i32, ()>)
    ensures in_base(s@, 10) ==> (r is Ok) == (number(s@, 10) <= i32::MAX) && (r is Ok ==> r->Ok_0 == number(s@, 10))
{ unimplemented!() }
#[verifier::external_body]
fn parse_f64(s: &String) -> (r: Result<f64, ()>)
    ensures r is Ok ==> r->Ok_0 == double_of(s@),
{ unimplemented!() }
#[verifier::external_body]
fn parse_u32(s: &String, base: u32) -> (r: Result<u32, ()>)
    ensures
        (r is Ok) == (in_base(s@, base as int) && number(s@, base as int) <= u32::MAX),
        r is Ok ==> r->Ok_0 == number(s@, base as int),
{ unimplemented!() }
#[verifier::external_body]
fn ends_with_dot(s: &String) -> (r: bool)
    ensures r == (s@.len() > 0 && s@.last() == '.')
{ unimplemented!() }
#[verifier::external_body]
fn upper_case(s: &String) -> (r: String)
    ensures r@ == upper(s@)
{ unimplemented!() }
fn same_bits(i: u32) -> (r: i32)
    ensures r == if i <= i32::MAX { i as int } else { i - 0x1_0000_0000 }
{
    assert(i <= 0x7fff_ffff ==> (i as i32) as int == i) by (bit_vector);
    assert(i > 0x7fff_ffff ==> (i as i32) as int == i - 0x1_0000_0000) by (bit_vector);
    #[verifier::truncate] (i as i32)
}
/// Texts with the same characters are equal.
#[verifier::external_body]
pub broadcast proof fn same_text(a: &str, b: &str)
    ensures #![trigger a@, b@] a@ == b@ ==> a == b
{}
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;

/// The text between quotes that starts with `s`, and the number of characters up to the closing quote.
pub open spec fn quoted(s: Seq<char>, escaping: bool, quote: char) -> Option<(Seq<char>, int)>
    decreases s.len()
{
    if s.len() == 0 {
        None
    } else if escaping || s[0] != '\\\\' && s[0] != quote {
        match quoted(s.skip(1), false, quote) {
            Some((t, n)) => Some((seq![s[0]] + t, n + 1)),
            None => None,
        }
    } else if s[0] == '\\\\' {
        match quoted(s.skip(1), true, quote) {
            Some((t, n)) => Some((t, n + 1)),
            None => None,
        }
    } else {
        Some((Seq::empty(), 1))
    }
}
"""

# The keywords of the language, as documented, with the variant that denotes each.
KEYWORDS = dict(
    [(k.upper(), k) for k in "And As Case Data Declare Dim Do Else Elseif End Error Exit For Function Gosub Goto If Is Loop Next Not On Or "
     "Resume Return Select Shared Step Sub Then To Until Wend While Xor".split()],
    BOOLEAN="BooleanName", DOUBLE="DoubleName", INTEGER="IntegerName", STRING="TextName", MOD="Modulo")

# What each reading function has to do, given the characters from the first one of the word on.
TOKENS = """
pub open spec fn keyword(name: Seq<char>, t: Token) -> bool {
    %s
    &&& upper(name) == "TRUE"@ ==> t is Boolean && t->Boolean_0
    &&& upper(name) == "FALSE"@ ==> t is Boolean && !t->Boolean_0
}
pub open spec fn annotation(s: Seq<char>) -> Option<ExprType> {
    if s.len() == 0 { None } else if s[0] == '?' { Some(ExprType::Boolean) } else if s[0] == '#' { Some(ExprType::Double) }
    else if s[0] == '%%' { Some(ExprType::Integer) } else if s[0] == '$' { Some(ExprType::Text) } else { None }
}

/// The text from `from` on is a remark: it ends with its line.
pub open spec fn is_remark(s: Seq<char>, t: Token, from: int, n: int) -> bool {
    let w = from + run(s.skip(from), not_newlines());
    if w == s.len() { n == w && t is Eof } else { n == w + 1 && t is Eol }
}

/// What a word with `n` characters from `s` on has to be.
pub open spec fn is_symbol(s: Seq<char>, t: Token, n: int) -> bool {
    let w = 1 + run(s.skip(1), words());
    let name = s.take(w);
    let a = annotation(s.skip(w));
    // Type annotations end a word, and any other character that is not a separator spoils it.
    if a is None && w < s.len() && !separator(s[w]) {
        t is Bad
    } else {
        &&& keyword(name, t)
        &&& upper(name) != "REM"@ ==> n == w + (if a is Some { 1int } else { 0 })
        &&& upper(name) == "REM"@ ==> is_remark(s, t, w + (if a is Some { 1int } else { 0 }), n)
        &&& t is Symbol ==> t->Symbol_0.name@ == name && t->Symbol_0.ref_type == a
        &&& upper(name) != "REM"@ ==> !(t is Bad) && !(t is Text) && !(t is Integer) && !(t is Double) && !(t is Label)
    }
}
pub open spec fn is_number(s: Seq<char>, t: Token, n: int) -> bool {
    let w = run(s, digits());
    if w == s.len() || separator(s[w]) {
        if number(s.take(w), 10) <= i32::MAX { t == Token::Integer(number(s.take(w), 10) as i32) && n == w } else { t is Bad }
    } else if s[w] != '.' {
        t is Bad
    } else {
        let f = run(s.skip(w + 1), digits());
        let z = w + 1 + f;
        &&& f == 0 || z < s.len() && !separator(s[z]) ==> t is Bad
        &&& !(t is Bad) ==> t == Token::Double(double_of(s.take(z))) && n == z
    }
}
/// What a number in base syntax has to be, from its first digit on.
pub open spec fn is_based(s: Seq<char>, base: int, t: Token, n: int) -> bool {
    let w = run(s, hexadecimals());
    if (w == s.len() || separator(s[w])) && in_base(s.take(w), base) && number(s.take(w), base) <= u32::MAX {
        &&& n == w
        &&& t is Integer
        // Numbers beyond the largest one stand for those with the same bits.
        &&& t->Integer_0 == if number(s.take(w), base) <= i32::MAX { number(s.take(w), base) } else { number(s.take(w), base) - 0x1_0000_0000 }
    } else {
        t is Bad
    }
}
pub open spec fn base_of(ch: char) -> int {
    if ch == 'b' || ch == 'B' { 2 } else if ch == 'd' || ch == 'D' { 10 } else if ch == 'o' || ch == 'O' { 8 } else if ch == 'x' || ch == 'X' { 16 } else { 0 }
}
/// What a number in base syntax has to be, from after the ampersand on.
pub open spec fn is_ampersand(s: Seq<char>, t: Token, n: int) -> bool {
    if s.len() == 0 || base_of(s[0]) == 0 { t is Bad }
    else if s.len() >= 2 && s[1] == '_' { is_based(s.skip(2), base_of(s[0]), t, n - 2) }
    else { is_based(s.skip(1), base_of(s[0]), t, n - 1) }
}
pub open spec fn is_text(s: Seq<char>, quote: char, t: Token, n: int) -> bool {
    match quoted(s, false, quote) {
        Some((text, z)) => t is Text && t->Text_0@ == text && n == z,
        None => t is Bad,
    }
}
pub open spec fn is_label(s: Seq<char>, t: Token, n: int) -> bool {
    let w = run(s, words());
    if s.len() == 0 || !word(s[0]) || numeric(s[0]) || w < s.len() && !separator(s[w]) {
        t is Bad
    } else {
        t is Label && t->Label_0@ == s.take(w) && n == w
    }
}
pub open spec fn is_operator(s: Seq<char>, t: Token, n: int) -> bool {
    let two = if s.len() < 2 { ' ' } else { s[1] };
    if s[0] == '<' && two == '>' { t is NotEqual && n == 2 }
    else if s[0] == '<' && two == '=' { t is LessEqual && n == 2 }
    else if s[0] == '<' && two == '<' { t is ShiftLeft && n == 2 }
    else if s[0] == '<' { t is Less && n == 1 }
    else if s[0] == '>' && two == '=' { t is GreaterEqual && n == 2 }
    else if s[0] == '>' && two == '>' { t is ShiftRight && n == 2 }
    else { t is Greater && n == 1 }
}
/// The characters that are a word each.
pub open spec fn is_mark(ch: char, t: Token) -> bool {
    match ch {
        '\\n' | ':' => t is Eol,
        ';' => t is Semicolon,
        ',' => t is Comma,
        '(' => t is LeftParen,
        ')' => t is RightParen,
        '+' => t is Plus,
        '-' => t is Minus,
        '*' => t is Multiply,
        '/' => t is Divide,
        '^' => t is Exponent,
        '=' => t is Equal,
        _ => false,
    }
}
pub open spec fn mark(ch: char) -> bool {
    ch == '\\n' || ch == ':' || ch == ';' || ch == ',' || ch == '(' || ch == ')' || ch == '+' || ch == '-' || ch == '*' || ch == '/' || ch == '^'
        || ch == '='
}
/// What the word with `n` characters that starts with the character `s[0]`, which is no space, has to be.
pub open spec fn is_word(s: Seq<char>, t: Token, n: int) -> bool {
    let ch = s[0];
    if mark(ch) { is_mark(ch, t) && n == 1 }
    else if ch == '\\'' { is_remark(s, t, 1, n) }
    else if ch == '"' { is_text(s.skip(1), ch, t, n - 1) }
    else if ch == '<' || ch == '>' { is_operator(s, t, n) }
    else if ch == '@' { is_label(s.skip(1), t, n - 1) }
    else if ch == '&' { is_ampersand(s.skip(1), t, n - 1) }
    else if digit(ch) { is_number(s, t, n) }
    else if word(ch) { is_symbol(s, t, n) }
    else { t is Bad }
}
/// What the next word of the text `s` has to be, where it starts and where it ends.
pub open spec fn is_next(s: Seq<char>, p: LineCol, span: TokenSpan, n: int) -> bool {
    let w = run(s, spaces());
    let at = past(p, s.take(w));
    if w == s.len() {
        span.token is Eof && span.pos == at && n == w
    } else {
        &&& is_word(s.skip(w), span.token, n - w)
        // Remarks are reported where they end.
        &&& span.pos == at || span.token is Eol && !mark(s[w]) || span.token is Eof
    }
}
/// The same, at the start of the text, where a line for the shell may be.
pub open spec fn is_first(s: Seq<char>, p: LineCol, span: TokenSpan, n: int) -> bool {
    if p == (LineCol { line: 1, col: 1 }) && s.len() > 0 && s[0] == '#' {
        if s.len() > 1 && s[1] == '!' {
            let w = run(s, not_newlines());
            let z = if w == s.len() { w } else { w + 1 };
            is_next(s.skip(z), past(p, s.take(z)), span, n - z)
        } else {
            span.token is Bad && span.pos == p
        }
    } else {
        is_next(s, p, span, n)
    }
}
""" % "\n    ".join("&&& upper(name) == \"%s\"@ ==> t is %s" % kv for kv in sorted(KEYWORDS.items()))


WORDS = sorted(KEYWORDS) + ["TRUE", "FALSE", "REM"]

# Keywords are told apart by their letters.
SPELLING = """
proof fn spelling()
    ensures
        %s
{
    %s
}
""" % ("\n        ".join("\"%s\"@.len() == %d, %s" % (w, len(w), " ".join("\"%s\"@[%d] == '%s'," % (w, i, c) for i, c in enumerate(w))) for w in WORDS),
       " ".join('reveal_strlit("%s");' % w for w in WORDS))


def lexer(u):
    reader(u, tail=False)
    f = File(LEXER)
    u.add(WALK)
    ast = File("core/src/ast.rs")
    u.add("#[derive(Clone, Copy)]\n" + ast.item("enum", "ExprType"))
    u.add(re.sub(r"\n    (pub\(crate\) )?(name|ref_type):", r"\n    pub \2:", ast.item("struct", "VarRef")))
    u.add("""impl VarRef {
    /// Constructor of the code for a name that is already a String.
    fn new(name: String, ref_type: Option<ExprType>) -> (r: Self)
        ensures r.name@ == name@, r.ref_type == ref_type
    { Self { name, ref_type } }
}""")
    u.add(f.item("enum", "Token"))
    u.add(re.sub(r"(pub\(crate\) )?\b(token|pos|length):", r"pub \2:", f.item("struct", "TokenSpan").replace("#[allow(unused)]", "")))
    u.fn(f, "new", within="impl TokenSpan", contract="ensures r.token == token, r.pos == pos", wrap=("impl TokenSpan {", "}"))
    u.add("""
trait CharOps {
    fn is_separator(&self) -> (r: bool);
    fn is_space(&self) -> (r: bool);
    fn is_word(&self) -> (r: bool);
}
impl CharOps for char {""")
    u.fn(f, "is_separator", within="impl CharOps for char", contract="ensures r == separator(*self)")
    u.fn(f, "is_space", within="impl CharOps for char", contract="ensures r == space(*self)")
    u.fn(f, "is_word", within="impl CharOps for char", contract="ensures r == word(*self)")
    u.add("}")
    u.add(TOKENS)
    u.add(SPELLING)
    struct = re.sub(r"<'a>", "", f.item("struct", "Lexer"))
    u.add(re.sub(r"(?m)^    input:", "    pub input:", struct))
    common = [(r"format!\((?:[^()]|\([^()]*\))*\)", "opaque()", "the text of errors is opaque"),
              (r'handle_bad_read\(("[^"]*")', "handle_bad_read(opaque()", "the text of errors is opaque"),
              (r'handle_bad_read\(msg', "handle_bad_read(msg", ""),
              (r'Token::Bad\("[^"]*"\.to_owned\(\)\)', "Token::Bad(opaque())", "the text of errors is opaque"),
              (r"s\.parse::<(\w+)>\(\)", r"parse_\1(&s)", "str::parse has an assumed contract"),
              (r"u32::from_str_radix\(&s, u32::from\(base\)\)", "parse_u32(&s, base as u32)", "from_str_radix has an assumed contract"),
              (r"s\.ends_with\('\.'\)", "ends_with_dot(&s)", "str::ends_with has an assumed contract"),
              (r"s\.to_uppercase\(\)", "upper_case(&s)", "to_uppercase has an assumed contract"),
              (r"debug_assert!\(token_len <= 1\);", "assert(token_len <= 1);", "a debug assertion is proved"),
              (r"\bSome\(Err\(e\)\) => return Err\(e\)", "Some(Err(x)) => return Err(x)", "a variable is renamed")]
    common.append((r"Some\(Ok\(ch_span\)\)(\)?) if ch_span\.ch == ('[^\\]')", r"Some(Ok(CharSpan { ch: \2, .. }))\1", "a guard on a character becomes a pattern"))
    common.append((r"\bi as i32\b", "same_bits(i)", "the cast of u32 to i32 is a function, verified, with the same cast"))
    common = [c for c in common if c[2]]
    impl = ("impl Lexer {", "}")

    def add(name, requires, good, at="first.pos", **kw):
        u.fn(f, name, contract="""
    requires
        old(self).input.sane(),
        %s
    ensures
        r is Ok ==> final(self).input.sane() && steps(&old(self).input, &final(self).input) >= 0 && (r->Ok_0.token is Bad ==> r->Ok_0.pos == %s),
        r is Ok ==> ({
            let s = old(self).input.rest();
            let n = steps(&old(self).input, &final(self).input);
            &&& r->Ok_0.token is Bad || walked(&old(self).input, &final(self).input)
            &&& r->Ok_0.token is Eol || r->Ok_0.token is Eof || r->Ok_0.pos == %s
            &&& %s
        }),
%s""" % (requires, at, at, good, kw.pop("also", "")), wrap=impl, subst=kw.pop("subst", []) + common, **kw)

    def loop(more, at_exit=None):
        text = """
        invariant%s
            old(self).input.sane(),
            walked(&old(self).input, &self.input),
            %s
""" % ("_except_break" if at_exit else "", more)
        if at_exit:
            text += "        ensures\n            walked(&old(self).input, &self.input),\n            " + at_exit + "\n"
        return text + "        decreases self.input.rest().len(),\n"

    ghost = "broadcast use {walk_on, walk_far}; proof { start(&self.input); }"
    inside = "broadcast use walk_on;"
    k = "steps(&old(self).input, &self.input)"
    add("handle_bad_read", "", "r->Ok_0.token is Bad", at="first_pos",
        subst=[(r"<S: Into<String>>", "", "messages are Strings"), (r"msg: S", "msg: String", "messages are Strings"),
               (r"msg\.into\(\)", "msg", "messages are Strings")],
        loops=[loop("len == 1 + %s," % k)], start=ghost, loop_start={0: inside})
    add("consume_rest_of_line", "", """({
                let w = run(s, not_newlines());
                if w == s.len() { n == w && r->Ok_0.token is Eof && r->Ok_0.pos == past(old(self).input.here(), s) }
                else { n == w + 1 && r->Ok_0.token is Eol && r->Ok_0.pos == past(old(self).input.here(), s.take(w)) }
            })""", at="r->Ok_0.pos", loops=[loop("forall|i: int| 0 <= i < %s ==> old(self).input.rest()[i] != '\\n'," % k)], start=ghost,
        loop_start={0: inside + """
            proof {
                let s = old(self).input.rest();
                let w = %s;
                if w == s.len() || s[w] == '\\n' { run_is(s, not_newlines(), w); }
                assert(s.take(s.len() as int) =~= s);
            }
""" % k})
    add("consume_operator", "first.ch == '<' || first.ch == '>',", "is_operator(seq![first.ch] + s, r->Ok_0.token, n + 1)", start=ghost)
    add("consume_text", "", "is_text(s, delim.ch, r->Ok_0.token, n)", at="delim.pos", start=ghost,
        loops=[loop("""
            s@.len() <= %s,
            quoted(old(self).input.rest(), false, delim.ch) == (match quoted(self.input.rest(), escaping, delim.ch) {
                Some((t, m)) => Some((s@ + t, %s + m)),
                None => None,
            }),""" % (k, k), """
            s@.len() <= steps(&old(self).input, &self.input),
            quoted(old(self).input.rest(), false, delim.ch) == Some((s@, %s)),""" % k)],
        loop_start={0: inside + """
            let ghost before = s@;
            proof {
                assert(before + Seq::<char>::empty() =~= before);
                assert forall|c: char, t: Seq<char>| #[trigger] (before + (seq![c] + t)) == before.push(c) + t by {
                    assert(before + (seq![c] + t) =~= before.push(c) + t);
                }
            }
"""})
    add("consume_label", "", "is_label(s, r->Ok_0.token, n)", start=ghost,
        loops=[loop("""
            %(k)s >= 1, s@ =~= old(self).input.rest().take(%(k)s), word(old(self).input.rest()[0]), !numeric(old(self).input.rest()[0]),
            forall|i: int| 0 <= i < %(k)s ==> word(#[trigger] old(self).input.rest()[i]),""" % {"k": k}, """
            s@ =~= old(self).input.rest().take(%(k)s), run(old(self).input.rest(), words()) == %(k)s, %(k)s >= 1, word(old(self).input.rest()[0]), !numeric(old(self).input.rest()[0]),
            %(k)s == old(self).input.rest().len() || separator(old(self).input.rest()[%(k)s]),""" % {"k": k})],
        loop_start={0: inside + """
            proof {
                let s = old(self).input.rest();
                let w = %s;
                if w == s.len() || !word(s[w]) { run_is(s, words(), w); }
            }
""" % k})
    add("consume_integer", "base == 2 || base == 8 || base == 10 || base == 16, prefix_len < 10,", "is_based(s, base as int, r->Ok_0.token, n)", at="pos", start=ghost,
        loops=[loop("""
            s@ =~= old(self).input.rest().take(%(k)s), forall|i: int| 0 <= i < %(k)s ==> hexadecimal(#[trigger] old(self).input.rest()[i]),""" % {"k": k}, """
            s@ =~= old(self).input.rest().take(%(k)s), run(old(self).input.rest(), hexadecimals()) == %(k)s,
            %(k)s == old(self).input.rest().len() || separator(old(self).input.rest()[%(k)s]),""" % {"k": k})],
        loop_start={0: inside + """
            proof {
                let s = old(self).input.rest();
                let w = %s;
                if w == s.len() || !hexadecimal(s[w]) { run_is(s, hexadecimals(), w); }
            }
""" % k})
    add("consume_integer_with_base", "", "is_ampersand(s, r->Ok_0.token, n)", at="pos", start=ghost)
    add("consume_number", "digit(first.ch),", "is_number(seq![first.ch] + s, r->Ok_0.token, n + 1)", start=ghost + """
            let ghost whole = seq![first.ch] + self.input.rest();
            let ghost mut dot: int = 0;
""", loops=[loop("""
            whole == seq![first.ch] + old(self).input.rest(),
            s@ =~= whole.take(%(k)s + 1),
            !found_dot ==> forall|i: int| 0 <= i <= %(k)s ==> digit(#[trigger] whole[i]),
            found_dot ==> 0 < dot <= %(k)s && whole[dot] == '.' && forall|i: int| 0 <= i <= %(k)s && i != dot ==> digit(#[trigger] whole[i]),
""" % {"k": k}, """
            s@ =~= whole.take(%(k)s + 1),
            %(k)s + 1 == whole.len() || separator(whole[%(k)s + 1]),
            !found_dot ==> run(whole, digits()) == %(k)s + 1 && forall|i: int| 0 <= i <= %(k)s ==> digit(#[trigger] whole[i]),
            found_dot ==> 0 < dot <= %(k)s && whole[dot] == '.' && run(whole, digits()) == dot && run(whole.skip(dot + 1), digits()) == %(k)s - dot,
""" % {"k": k})], loop_start={0: inside + """
            let ghost was = found_dot;
            proof {
                let w = %s + 1;
                if w == whole.len() || !digit(whole[w]) {
                    if found_dot {
                        run_is(whole, digits(), dot);
                        run_is(whole.skip(dot + 1), digits(), w - dot - 1);
                    } else {
                        run_is(whole, digits(), w);
                    }
                }
            }
""" % k}, loop_end={0: "proof { if found_dot && !was { dot = %s; } }" % k})
    add("consume_symbol", "word(first.ch),", "is_symbol(seq![first.ch] + s, r->Ok_0.token, n + 1)", start=ghost + """
            let ghost whole = seq![first.ch] + self.input.rest();
""", loops=[loop("""
            whole == seq![first.ch] + old(self).input.rest(),
            s@ =~= whole.take(%(k)s + 1), vtype is None, token_len == 0,
            forall|i: int| 0 <= i <= %(k)s ==> word(#[trigger] whole[i]),
""" % {"k": k}, """
            token_len <= 1, s@.len() <= %(k)s + 1,
            s@ == whole.take(1 + run(whole.skip(1), words())), s@.len() == 1 + run(whole.skip(1), words()),
            vtype == annotation(whole.skip(s@.len() as int)),
            %(k)s + 1 == s@.len() + (if vtype is Some { 1int } else { 0 }),
            vtype is Some || s@.len() == whole.len() || separator(whole[s@.len() as int]),
""" % {"k": k})], loop_start={0: inside + """
            proof {
                let w = %s + 1;
                if w == whole.len() || !word(whole[w]) {
                    assert forall|i: int| 0 <= i < w - 1 implies word(#[trigger] whole.skip(1)[i]) by { assert(whole.skip(1)[i] == whole[i + 1]); }
                    run_is(whole.skip(1), words(), w - 1);
                }
            }
""" % k}, loop_after={0: """
            broadcast use same_text;
            proof {
                spelling();
                assert(whole.skip(1 + %s) =~= self.input.rest());
            }
""" % k})
    u.fn(f, "advance_and_read_next", contract="""
    requires
        old(self).input.sane() || old(self).input.failed(),
    ensures
        old(self).input.failed() ==> r is Err,
        r is Ok ==> old(self).input.sane() && walked(&old(self).input, &final(self).input) && final(self).input.peeked is None,
        r is Ok ==> ({
            let s = old(self).input.rest();
            let w = run(s, spaces());
            let n = steps(&old(self).input, &final(self).input);
            match r->Ok_0 {
                None => w == s.len() && n == w,
                Some(c) => w < s.len() && n == w + 1 && c.ch == s[w] && !space(c.ch) && c.pos == past(old(self).input.here(), s.take(w)),
            }
        }),
""", wrap=impl, subst=common, rewrite=MERGED, start="broadcast use {walk_on, walk_still, walk_far}; proof { if self.input.sane() { start(&self.input); } }",
         loops=["""
        invariant
            self.input.sane() || self.input.failed(),
            self.input.sane() ==> old(self).input.sane() && walked(&old(self).input, &self.input),
            old(self).input.failed() ==> self.input.failed(),
            forall|i: int| 0 <= i < %(k)s ==> space(#[trigger] old(self).input.rest()[i]),
        decreases self.input.rest().len(),
""" % {"k": k}], loop_start={0: """
            broadcast use {walk_on, walk_still};
            proof {
                let s = old(self).input.rest();
                let w = %s;
                if self.input.sane() && (w == s.len() || !space(s[w])) { run_is(s, spaces(), w); }
            }
""" % k})
    u.fn(f, "read", within="impl<'a> Lexer<'a>", contract="""
    requires
        old(self).input.sane(),
    ensures
        r is Ok ==> final(self).input.sane() && steps(&old(self).input, &final(self).input) >= 0,
        r is Ok && !(r->Ok_0.token is Bad) ==> walked(&old(self).input, &final(self).input),
        r is Ok ==> is_first(old(self).input.rest(), old(self).input.here(), r->Ok_0, steps(&old(self).input, &final(self).input)),
    decreases old(self).input.rest().len(),
""", wrap=impl, rewrite=MERGED, start="""
        broadcast use {walk_on, walk_still, walk_far};
        proof {
            start(&self.input);
            let s = self.input.rest();
            let w = run(s, spaces());
            run_range(s, spaces());
            if w < s.len() {
                assert(s.skip(w).skip(1) =~= s.skip(w + 1));
                assert(seq![s[w]] + s.skip(w + 1) =~= s.skip(w));
            }
            if s.len() > 1 {
                assert(s.skip(1).skip(1) =~= s.skip(2));
                let l = run(s.skip(2), not_newlines());
                run_range(s.skip(2), not_newlines());
                assert(s.skip(1)[0] == s[1]);
                assert(not_newlines()(s[0]) == (s[0] != '\\n') && not_newlines()(s[1]) == (s[1] != '\\n'));
                assert(s[1] == '!' ==> run(s.skip(1), not_newlines()) == l + 1);
                assert(s[0] == '#' && s[1] == '!' ==> run(s, not_newlines()) == l + 2);
                past_line(self.input.here(), s.take(l + 2));
                if l + 2 < s.len() { assert(s.take(l + 3).drop_last() =~= s.take(l + 2)); }
            }
        }
""", subst=[(r"if let (Some\(Ok\(ch_span\)\)) = (self\.input\.peek\(\))\s*&&\s*([^{}]*\(LineCol \{[^{}]*\}\)[^{}]*?)\s*\{",
                                       r"let chained = match \2 { \1 => \3, _ => false }; if chained {",
                                       "a chain of conditions becomes a match")] + common)
    # The parser sees the words through this adaptor: none is lost or repeated.
    struct = re.sub(r"<'a>", "", f.item("struct", "PeekableLexer"))
    u.add(re.sub(r"(?m)^    (lexer|peeked):", r"    pub \1:", struct))
    u.add("""
impl PeekableLexer {
    /// The effect of having read one word of the text.
    pub open spec fn took(&self, to: &PeekableLexer, span: TokenSpan) -> bool {
        let n = steps(&self.lexer.input, &to.lexer.input);
        &&& to.lexer.input.sane() && n >= 0
        &&& span.token is Bad || walked(&self.lexer.input, &to.lexer.input)
        &&& is_first(self.lexer.input.rest(), self.lexer.input.here(), span, n)
    }
}
""")
    peekable = ("impl PeekableLexer {", "}")
    results = [(r"-> Result<(&?TokenSpan)>", r"-> Result<\1, (LineCol, io::Error)>", "the alias Result is spelled out")]
    u.fn(f, "consume_peeked", contract="""
    requires
        old(self).peeked is Some,
    ensures
        r == old(self).peeked->Some_0, final(self).peeked is None, final(self).lexer == old(self).lexer,
""", wrap=peekable, subst=[(r"\bassert!\(self\.peeked\.is_some\(\)\);", "assert(self.peeked.is_some());", "an assertion is proved")])
    u.fn(f, "read", within="impl PeekableLexer", contract="""
    requires
        old(self).peeked is None ==> old(self).lexer.input.sane(),
    ensures
        final(self).peeked is None,
        old(self).peeked is Some ==> r is Ok && r->Ok_0 == old(self).peeked->Some_0 && final(self).lexer == old(self).lexer,
        old(self).peeked is None && r is Ok ==> old(self).took(final(self), r->Ok_0),
""", wrap=peekable, subst=results)
    u.fn(f, "peek", within="impl PeekableLexer", contract="""
    requires
        old(self).peeked is None ==> old(self).lexer.input.sane(),
    ensures
        r is Ok ==> final(self).peeked == Some(*r->Ok_0),
        old(self).peeked is Some ==> r is Ok && *final(self) == *old(self),
        old(self).peeked is None && r is Ok ==> old(self).took(final(self), *r->Ok_0),
""", wrap=peekable, subst=results)
    u.add("}\nfn main() {}")


UNITS = [lexer]
