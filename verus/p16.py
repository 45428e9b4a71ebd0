"""P16: texts as sequences of characters, of any length."""

import re

from verus_run import File, Lost

STRINGS = "std/src/strings.rs"

OPEN = """
verus! {
global size_of usize == 8;
#[derive(Clone, Copy)]
pub struct LineCol { pub line: usize, pub col: usize }
pub enum CallError { Syntax(LineCol, String), Eval(String) }
/// What a function returns.
pub enum Value { Boolean(bool), Double(f64), Integer(i32), Text(String) }
pub type CallResult<T> = Result<T, CallError>;
#[verifier::external_body]
fn opaque() -> String { unimplemented!() }
fn unreached() -> !
    requires false
{ loop invariant false decreases 0int {} }

/// The arguments of a call: their types are what the syntax of the function requires.
#[verifier::external_body]
pub struct Scope { x: u8 }
impl Scope {
    uninterp spec fn args(&self) -> int;
    uninterp spec fn tag(&self, i: int) -> Option<VarArgTag>;
    uninterp spec fn boolean(&self, i: int) -> Option<bool>;
    uninterp spec fn double(&self, i: int) -> Option<f64>;
    uninterp spec fn integer(&self, i: int) -> Option<i32>;
    uninterp spec fn text(&self, i: int) -> Option<Seq<char>>;

    #[verifier::external_body]
    fn nargs(&self) -> (r: usize) ensures r == self.args() { unimplemented!() }
    #[verifier::external_body]
    fn get_pos(&self, i: u8) -> LineCol
        requires 0 <= i < self.args()
    { unimplemented!() }
    #[verifier::external_body]
    fn get_type(&self, i: u8) -> (r: VarArgTag)
        requires self.tag(i as int) is Some
        ensures r == self.tag(i as int)->Some_0
    { unimplemented!() }
    #[verifier::external_body]
    fn get_boolean(&self, i: u8) -> (r: bool)
        requires self.boolean(i as int) is Some
        ensures r == self.boolean(i as int)->Some_0
    { unimplemented!() }
    #[verifier::external_body]
    fn get_double(&self, i: u8) -> (r: f64)
        requires self.double(i as int) is Some
        ensures r == self.double(i as int)->Some_0
    { unimplemented!() }
    #[verifier::external_body]
    fn get_integer(&self, i: u8) -> (r: i32)
        requires self.integer(i as int) is Some
        ensures r == self.integer(i as int)->Some_0
    { unimplemented!() }
    #[verifier::external_body]
    fn get_string(&self, i: u8) -> (r: &str)
        requires self.text(i as int) is Some
        ensures r@ == self.text(i as int)->Some_0
    { unimplemented!() }
    fn return_boolean(self, v: bool) -> (r: CallResult<Value>) ensures r == Ok::<Value, CallError>(Value::Boolean(v)) { Ok(Value::Boolean(v)) }
    fn return_double(self, v: f64) -> (r: CallResult<Value>) ensures r == Ok::<Value, CallError>(Value::Double(v)) { Ok(Value::Double(v)) }
    fn return_integer(self, v: i32) -> (r: CallResult<Value>) ensures r == Ok::<Value, CallError>(Value::Integer(v)) { Ok(Value::Integer(v)) }
    fn return_string(self, v: String) -> (r: CallResult<Value>) ensures r == Ok::<Value, CallError>(Value::Text(v)) { Ok(Value::Text(v)) }
}
"""

TEXTS = """
/// The number of bytes of a character.
pub open spec fn width(c: char) -> int {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}
/// The number of bytes of a text.
pub open spec fn bytes(s: Seq<char>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { bytes(s.drop_last()) + width(s.last()) }
}
/// The bytes of a text.
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;

/// Whether a byte is between two characters, and which one follows.
pub open spec fn boundary(s: Seq<char>, b: int, i: int) -> bool {
    0 <= i <= s.len() && bytes(s.take(i)) == b
}
proof fn grow(s: Seq<char>, i: int, j: int)
    requires 0 <= i < j <= s.len()
    ensures bytes(s.take(i)) + (j - i) <= bytes(s.take(j)), 0 <= bytes(s.take(i))
    decreases j
{
    assert(s.take(j).drop_last() =~= s.take(j - 1));
    if i > 0 {
        grow(s, i - 1, i);
    } else {
        assert(s.take(0) =~= Seq::empty());
    }
    if i < j - 1 { grow(s, i, j - 1); }
}
/// Each boundary has one index.
pub broadcast proof fn same(s: Seq<char>, b: int, i: int, j: int)
    requires #[trigger] boundary(s, b, i), #[trigger] boundary(s, b, j)
    ensures i == j
{
    if i < j { grow(s, i, j); }
    if j < i { grow(s, j, i); }
}
/// The boundaries of the end of a text are those of the text.
pub broadcast proof fn beyond(s: Seq<char>, i: int, k: int)
    requires 0 <= i <= s.len(), 0 <= k <= s.len() - i
    ensures #![trigger bytes(s.skip(i).take(k)), s.skip(i)]
        bytes(s.take(i + k)) == bytes(s.take(i)) + bytes(s.skip(i).take(k))
    decreases k
{
    if k == 0 {
        assert(s.skip(i).take(0) =~= Seq::empty());
    } else {
        beyond(s, i, k - 1);
        assert(s.take(i + k).drop_last() =~= s.take(i + k - 1));
        assert(s.skip(i).take(k).drop_last() =~= s.skip(i).take(k - 1));
    }
}
pub broadcast proof fn whole(s: Seq<char>)
    ensures #[trigger] s.take(s.len() as int) =~= s
{}
pub broadcast proof fn nothing(s: Seq<char>)
    ensures bytes(#[trigger] s.take(0)) == 0
{
    assert(s.take(0) =~= Seq::empty());
}

// What the standard library does.

#[verifier::external_body]
fn count(s: &str) -> (r: usize) ensures r == s@.len(), r <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
#[verifier::external_body]
fn size(s: &str) -> (r: usize) ensures r == bytes(s@), r <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
#[verifier::external_body]
fn nth_char(s: &str, n: usize) -> (r: Option<(usize, char)>)
    ensures match r {
        Some((i, c)) => n < s@.len() && c == s@[n as int] && i == bytes(s@.take(n as int)),
        None => n >= s@.len(),
    }
{ unimplemented!() }
#[verifier::external_body]
fn slice(s: &str, a: usize, b: usize) -> (r: &str)
    requires exists|i: int, j: int| i <= j && #[trigger] boundary(s@, a as int, i) && #[trigger] boundary(s@, b as int, j)
    ensures forall|i: int, j: int| #[trigger] boundary(s@, a as int, i) && #[trigger] boundary(s@, b as int, j) ==> r@ == s@.subrange(i, j)
{ unimplemented!() }
#[verifier::external_body]
fn tail(s: &str, a: usize) -> (r: &str)
    requires exists|i: int| #[trigger] boundary(s@, a as int, i)
    ensures
        forall|i: int| #[trigger] boundary(s@, a as int, i) ==> r@ == s@.skip(i),
        a + bytes(r@) <= 0x7fff_ffff_ffff_ffff,
{ unimplemented!() }
/// Whether a text has another one at a place.
pub open spec fn has_at(s: Seq<char>, x: Seq<char>, i: int) -> bool {
    0 <= i && i + x.len() <= s.len() && s.subrange(i, i + x.len()) =~= x
}
#[verifier::external_body]
fn find(s: &str, x: &str) -> (r: Option<usize>)
    ensures match r {
        Some(b) => b <= bytes(s@) && exists|i: int| #[trigger] boundary(s@, b as int, i) && first_at(s@, x@, i),
        None => forall|i: int| !#[trigger] has_at(s@, x@, i),
    }
{ unimplemented!() }
pub open spec fn first_at(s: Seq<char>, x: Seq<char>, i: int) -> bool {
    has_at(s, x, i) && forall|j: int| 0 <= j < i ==> !#[trigger] has_at(s, x, j)
}
#[verifier::external_body]
fn min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { unimplemented!() }
#[verifier::external_body]
fn owned(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
fn first_char(s: &str) -> (r: Option<char>)
    ensures r == (if s@.len() > 0 { Some(s@[0]) } else { None })
{ unimplemented!() }
#[verifier::external_body]
fn of_char(c: char) -> (r: String) ensures r@ == seq![c] { unimplemented!() }
pub open spec fn scalar(code: u32) -> bool { code < 0xd800 || 0xe000 <= code < 0x110000 }
#[verifier::external_body]
fn from_u32(code: u32) -> (r: Option<char>)
    ensures (r is Some) == scalar(code), r is Some ==> r->Some_0 as u32 == code
{ unimplemented!() }
#[verifier::external_body]
fn nondeterministic() -> bool { unimplemented!() }
pub uninterp spec fn whitespace(c: char) -> bool;
/// A text without the whitespace at its start.
pub open spec fn trimmed_start(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && whitespace(s[0]) { trimmed_start(s.skip(1)) } else { s }
}
/// A text without the whitespace at its end.
pub open spec fn trimmed_end(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && whitespace(s.last()) { trimmed_end(s.drop_last()) } else { s }
}
#[verifier::external_body]
fn trim_start(s: &str) -> (r: &str) ensures r@ == trimmed_start(s@) { unimplemented!() }
#[verifier::external_body]
fn trim_end(s: &str) -> (r: &str) ensures r@ == trimmed_end(s@) { unimplemented!() }
#[verifier::external_body]
fn trim(s: &str) -> (r: &str) ensures r@ == trimmed_end(trimmed_start(s@)) { unimplemented!() }
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
fn to_lowercase(s: &str) -> (r: String) ensures r@ == lower(s@) { unimplemented!() }
#[verifier::external_body]
fn to_uppercase(s: &str) -> (r: String) ensures r@ == upper(s@) { unimplemented!() }
#[verifier::external_body]
fn repeat(s: &str, n: usize) -> (r: String)
    ensures s@.len() == 1 ==> r@ == Seq::new(n as nat, |i: int| s@[0])
{ unimplemented!() }

/// Codes of characters are limited.
#[verifier::external_body]
fn code(c: char) -> (r: u32) ensures r == c as u32, scalar(r) { unimplemented!() }

/// A conversion that panics unless the value fits.
fn checked(v: u32) -> (r: i32)
    requires v <= 0x7fff_ffff
    ensures r == v
{ v as i32 }

/// str::find on the end of a text.
fn find_after(s: &str, a: usize, x: &str) -> (r: Option<usize>)
    requires exists|k: int| #[trigger] boundary(s@, a as int, k)
    ensures forall|k: int| #[trigger] boundary(s@, a as int, k) ==> match r {
        Some(b) => a + b <= 0x7fff_ffff_ffff_ffff && exists|i: int| #[trigger] boundary(s@, a + b, i) && next_at(s@, x@, k, i),
        None => forall|i: int| i >= k ==> !#[trigger] has_at(s@, x@, i),
    }
{
    let t = tail(s, a);
    let r = find(t, x);
    proof {
        let k = choose|k: int| #[trigger] boundary(s@, a as int, k);
        assert forall|l: int| #[trigger] boundary(s@, a as int, l) implies l == k by { same(s@, a as int, k, l); }
        assert(t@ == s@.skip(k));
        assert forall|i: int| i >= k implies has_at(t@, x@, i - k) == #[trigger] has_at(s@, x@, i) by {
            if i + x@.len() <= s@.len() {
                assert(t@.subrange(i - k, i - k + x@.len()) =~= s@.subrange(i, i + x@.len()));
            }
        }
        if r is Some {
            let i = choose|i: int| #[trigger] boundary(t@, r->Some_0 as int, i) && first_at(t@, x@, i);
            beyond(s@, k, i);
            assert(boundary(s@, a + r->Some_0, k + i));
            assert(has_at(s@, x@, k + i));
            assert(next_at(s@, x@, k, k + i));
        }
    }
    r
}
/// Whether a text has another one at a place and not before.
pub open spec fn next_at(s: Seq<char>, x: Seq<char>, k: int, i: int) -> bool {
    has_at(s, x, i) && k <= i && forall|j: int| k <= j < i ==> !#[trigger] has_at(s, x, j)
}

// Numbers as texts.

pub uninterp spec fn of_integer(i: i32) -> Seq<char>;
pub uninterp spec fn of_double(d: f64) -> Seq<char>;
pub uninterp spec fn nan(d: f64) -> bool;
pub uninterp spec fn signed(d: f64) -> bool;
#[verifier::external_body]
fn integer_to_string(i: i32) -> (r: String) ensures r@ == of_integer(i) { unimplemented!() }
#[verifier::external_body]
fn double_to_string(d: f64) -> (r: String) ensures r@ == of_double(d) { unimplemented!() }
#[verifier::external_body]
fn after_space(s: String) -> (r: String) ensures r@ == seq![' '] + s@ { unimplemented!() }
#[verifier::external_body]
fn is_nan(d: f64) -> (r: bool) ensures r == nan(d) { unimplemented!() }
#[verifier::external_body]
fn is_sign_negative(d: f64) -> (r: bool) ensures r == signed(d) { unimplemented!() }
fn is_negative(i: i32) -> (r: bool) ensures r == (i < 0) { i < 0 }

/// The text of a number starts with a sign or a space.
pub open spec fn integer_text(i: i32) -> Seq<char> {
    if i < 0 { of_integer(i) } else { seq![' '] + of_integer(i) }
}
pub open spec fn double_text(d: f64) -> Seq<char> {
    if signed(d) && !nan(d) { of_double(d) } else { seq![' '] + of_double(d) }
}
pub open spec fn boolean_text(b: bool) -> Seq<char> {
    if b { "TRUE"@ } else { "FALSE"@ }
}

// Texts as numbers.

#[verifier::external_body]
fn as_bytes(s: &str) -> (r: &[u8]) ensures r@ == utf8(s@), r@.len() <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
#[verifier::external_body]
fn first_byte(s: &[u8]) -> (r: Option<u8>) ensures r == (if s@.len() > 0 { Some(s@[0]) } else { None }) { unimplemented!() }
pub open spec fn digit(b: u8) -> bool { 48 <= b <= 57 }
#[verifier::external_body]
fn is_digit(b: u8) -> (r: bool) ensures r == digit(b) { unimplemented!() }
/// The number that the start of a text denotes.
pub uninterp spec fn number(s: Seq<u8>) -> f64;
#[verifier::external_body]
fn parse_prefix(s: &str, n: usize) -> (r: f64)
    requires numeral(utf8(s@)) == Some(n as int)
    ensures r == number(utf8(s@).take(n as int))
{ unimplemented!() }

/// The number of digits at a place.
pub open spec fn digits(b: Seq<u8>, i: int) -> int
    decreases b.len() - i
{
    if 0 <= i < b.len() && digit(b[i]) { 1 + digits(b, i + 1) } else { 0 }
}
pub open spec fn sign(b: Seq<u8>, i: int) -> int {
    if 0 <= i < b.len() && (b[i] == 43 || b[i] == 45) { 1 } else { 0 }
}
/// The exponent at a place: the letter E, maybe a sign, and digits.
pub open spec fn exponent(b: Seq<u8>, i: int) -> int {
    if 0 <= i < b.len() && (b[i] == 69 || b[i] == 101) {
        let s = 1 + sign(b, i + 1);
        let n = digits(b, i + s);
        if n > 0 { s + n } else { 0 }
    } else {
        0
    }
}
/// The length of the number at the start of a text: maybe a sign, digits, maybe a period with more digits, maybe an exponent.
pub open spec fn numeral(b: Seq<u8>) -> Option<int> {
    let s = sign(b, 0);
    let whole = digits(b, s);
    let dot: bool = s + whole < b.len() && b[s + whole] == 46;
    let fraction = if dot { digits(b, s + whole + 1) } else { 0 };
    let end = s + whole + (if dot { 1 + fraction } else { 0 });
    if whole + fraction == 0 { None } else { Some(end + exponent(b, end)) }
}
/// Digits are counted one by one.
pub broadcast proof fn counting(b: Seq<u8>, i: int, j: int)
    requires
        0 <= i <= j <= b.len(), forall|k: int| i <= k < j ==> digit(#[trigger] b[k]),
    ensures
        #![trigger digits(b, i), digits(b, j)]
        digits(b, i) == j - i + digits(b, j)
    decreases j - i
{
    if i < j { counting(b, i + 1, j); }
}
"""

BYTES = [("b'%s'" % re.escape(c), "%du8" % ord(c)) for c in "+-.eE"]


def rewritten(body):
    """Spells out what the standard library does."""
    for a, b in (
            (r"debug_assert!\((.*?)\);\n", ""),
            (r"debug_assert_eq!\((.*?)\);\n", ""),
            (r"format!\(\"\{\}\", ch\)", "of_char(ch)"),
            (r"\(\(2\.\.=3\)\.contains\(&scope\.nargs\(\)\)\)", "(true)"),
            (r"format!\(\" \{\}\", i\)", "after_space(integer_to_string(i))"),
            (r"format!\(\" \{\}\", d\)", "after_space(double_to_string(d))"),
            (r"\bi\.to_string\(\)", "integer_to_string(i)"),
            (r"\bd\.to_string\(\)", "double_to_string(d)"),
            (r"\bd\.is_nan\(\)", "is_nan(d)"),
            (r"\bd\.is_sign_negative\(\)", "is_sign_negative(d)"),
            (r"\bi\.is_negative\(\)", "is_negative(i)"),
            (r"format!\((?:[^()]|\([^()]*\))*\)", "opaque()"),
            (r'"[^"]{2,}"\.to_owned\(\)', "opaque()"),
            (r"s\.char_indices\(\)\.nth\(char_index\)\.map\(\|\(i, _\)\| i\)\.unwrap_or\(s\.len\(\)\)",
             "match nth_char(s, char_index) { Some((i, _)) => i, None => size(s) }"),
            (r"s\[\.\.byte_index\]\.chars\(\)\.count\(\)", "count(slice(s, 0, byte_index))"),
            (r"s\.chars\(\)\.count\(\)", "count(s)"),
            (r"&s\[start\.\.end\]", "slice(s, start, end)"),
            (r"s\[start_byte\.\.\]\.find\(search\)", "find_after(s, start_byte, search)"),
            (r"search\.is_empty\(\)", "(count(search) == 0)"),
            (r"scope\.get_string\((\d)\)\.to_owned\(\)", r"owned(scope.get_string(\1))"),
            (r"(char_len|slice_by_char_range)\(&s\b", r"\1(s.as_str()"),
            (r"\bs\.(trim_start|trim_end|trim|to_lowercase|to_uppercase)\(\)", r"\1(TEXT_s)"),
            (r"return_string\((.*)\.to_owned\(\)\)", r"return_string(owned(\1))"),
            (r'" "\.repeat\(', 'repeat(" ", '),
            (r"char::from_u32\(", "from_u32("),
            (r"cfg!\(debug_assertions\)", "nondeterministic()"),
            (r"\bch as i32\b", "(code(ch) as i32)"),
            (r"\bch as u32\b", "code(ch)"),
            (r"i32::try_from\(code\(ch\)\)\.expect\(\"[^\"]*\"\)", "checked(code(ch))"),
            (r"i32::try_from\((char_len\(s\))\)\s*\.map_err\(\|_\| (CallError::Eval\(opaque\(\)\))\)\?", r"match i32::try_from(\1) { Ok(n) => n, Err(_) => return Err(\2) }"),
            (r"\bunreachable!\(\)", "unreached()"),
            (r"s\.as_bytes\(\)", "as_bytes(s)"),
            (r"bytes\.first\(\)\.copied\(\)", "first_byte(bytes)"),
            (r"bytes\[(\w)\]\.is_ascii_digit\(\)", r"is_digit(bytes[\1])"),
            (r"s\[\.\.end\]\.parse\(\)\.expect\(\"[^\"]*\"\)", "parse_prefix(s, end)"),
            *BYTES):
        body = re.sub(a, b, body)
    owned = re.search(r"let s = owned\(", body)
    return body.replace("TEXT_s", "s.as_str()" if owned else "s")


LIBRARY = (rewritten, "calls to methods of str, char and numbers, slices of texts and format! become calls to functions with assumed contracts; texts of errors are opaque; both values of debug_assertions")


def strings(u):
    f = File(STRINGS)
    u.add(OPEN)
    byte = File("core/src/bytecode.rs")
    ast = File("core/src/ast.rs")
    u.add("#[derive(Clone, Copy)]\n" + re.sub(r" = \d+", "", ast.item("enum", "ArgSep")))
    u.add("#[derive(Clone, Copy)]\n" + re.sub(r" = \d+", "", ast.item("enum", "ExprType")))
    u.add("#[derive(Clone, Copy)]\n" + re.sub(r" = \d+", "", byte.item("enum", "VarArgTag")))
    u.add(TEXTS)
    use = "broadcast use {same, beyond, whole, nothing};"
    u.fn(f, "char_index_to_byte_index", contract="""
    ensures
        boundary(s@, r as int, if char_index < s@.len() { char_index as int } else { s@.len() as int }), r <= 0x7fff_ffff_ffff_ffff,
""", rewrite=LIBRARY, start=use + "proof { if char_index < s@.len() { grow(s@, char_index as int, s@.len() as int); } }\nlet all = size(s);")
    u.fn(f, "byte_index_to_char_index", contract="""
    requires
        exists|i: int| #[trigger] boundary(s@, byte_index as int, i),
    ensures
        boundary(s@, byte_index as int, r as int), r <= 0x7fff_ffff_ffff_ffff,
""", rewrite=LIBRARY, start=use + "proof { assert(boundary(s@, 0, 0)); }")
    u.fn(f, "char_len", contract="ensures r == s@.len(), r <= 0x7fff_ffff_ffff_ffff", rewrite=LIBRARY)
    u.fn(f, "slice_by_char_range", contract="""
    requires
        start <= end <= s@.len(),
    ensures
        r@ == s@.subrange(start as int, end as int),
""", rewrite=LIBRARY, start=use + " let ghost (i, j) = (start as int, end as int);", end="")
    u.fn(f, "format_boolean", contract="ensures r@ == boolean_text(b)", rewrite=LIBRARY)
    u.fn(f, "format_integer", contract="ensures r@ == integer_text(i)", rewrite=LIBRARY)
    u.fn(f, "format_double", contract="ensures r@ == double_text(d)", rewrite=LIBRARY)
    count = """
    invariant
        %s <= i <= bytes@.len(), forall|k: int| %s <= k < i ==> digit(#[trigger] bytes@[k]),
    ensures
        digits(bytes@, i as int) == 0,
    decreases bytes@.len() - i,
"""
    u.fn(f, "parse_numeric_prefix", contract="""
    ensures
        match numeral(utf8(trimmed_start(s@))) {
            Some(n) => r == number(utf8(trimmed_start(s@)).take(n)),
            None => r == 0.0f64,
        },
""", rewrite=LIBRARY, start="broadcast use counting;", loops=[
        count % ("int_start", "int_start"), count % ("frac_start", "frac_start"),
        (count % ("exp_start", "exp_start")).replace("i <= bytes", "j <= bytes").replace("k < i", "k < j").replace("i as int", "j as int").replace("- i,", "- j,")])
    one = "scope.args() == 1,"
    text = "scope.args() == 1, scope.text(0) is Some, scope.text(0)->Some_0.len() < 0x7fff_ffff,"
    number = "scope.args() == 1, scope.integer(0) is Some,"
    both = "scope.args() == 2, scope.text(0) is Some, scope.integer(1) is Some,"

    def call(name, requires, ensures, **kw):
        u.fn(f, "exec", within="impl Callable for %s" % name, contract="""
    requires
        %s
    ensures
        %s
""" % (requires, ensures), rewrite=LIBRARY, rename=name,
             subst=[(r"&self, ", "", ""), (r"CallResult<\(\)>", "CallResult<Value>", "functions return their value instead of writing it to a register"), (r"Scope<'_>", "Scope", "")], **kw)

    s = "scope.text(0)->Some_0"
    n = "scope.integer(1)->Some_0"
    call("AscFunction", text, "(r is Ok) == (%s.len() == 1), r is Ok ==> r->Ok_0 == Value::Integer(%s[0] as u32 as i32)," % (s, s))
    call("ChrFunction", number, "(r is Ok) == (scope.integer(0)->Some_0 >= 0 && scope.integer(0)->Some_0 < 0x110000 && scalar(scope.integer(0)->Some_0 as u32)),"
         "r is Ok ==> r->Ok_0 is Text && r->Ok_0->Text_0@.len() == 1 && r->Ok_0->Text_0@[0] as u32 == scope.integer(0)->Some_0,")
    call("InstrFunction", """
        scope.args() == 2 || scope.args() == 3,
        scope.args() == 2 ==> scope.text(0) is Some && scope.text(1) is Some && scope.text(0)->Some_0.len() < 0x7fff_ffff,
        scope.args() == 3 ==> scope.integer(0) is Some && scope.text(1) is Some && scope.text(2) is Some && scope.text(1)->Some_0.len() < 0x7fff_ffff,
""", """
        ({
            let start = if scope.args() == 2 { 1 } else { scope.integer(0)->Some_0 as int };
            let s = scope.text(scope.args() - 2)->Some_0;
            let x = scope.text(scope.args() - 1)->Some_0;
            &&& (r is Ok) == (start > 0)
            &&& r is Ok ==> r->Ok_0 is Integer && ({
                let at = r->Ok_0->Integer_0;
                if at == 0 {
                    forall|i: int| i >= start - 1 ==> !#[trigger] has_at(s, x, i)
                } else {
                    at >= start && has_at(s, x, at - 1) && forall|i: int| start - 1 <= i < at - 1 ==> !#[trigger] has_at(s, x, i)
                }
            })
        }),
""", start="broadcast use {same};")
    call("LcaseFunction", text, "r is Ok && r->Ok_0 is Text && r->Ok_0->Text_0@ == lower(%s)," % s)
    call("UcaseFunction", text, "r is Ok && r->Ok_0 is Text && r->Ok_0->Text_0@ == upper(%s)," % s)
    call("LtrimFunction", text, "r is Ok && r->Ok_0 is Text && r->Ok_0->Text_0@ == trimmed_start(%s)," % s)
    call("RtrimFunction", text, "r is Ok && r->Ok_0 is Text && r->Ok_0->Text_0@ == trimmed_end(%s)," % s)
    call("TrimFunction", text, "r is Ok && r->Ok_0 is Text && r->Ok_0->Text_0@ == trimmed_end(trimmed_start(%s))," % s)
    call("LenFunction", text, "r is Ok && r->Ok_0 is Integer && r->Ok_0->Integer_0 == %s.len()," % s)
    call("LeftFunction", both, "(r is Ok) == (%s >= 0), r is Ok ==> r->Ok_0 is Text && r->Ok_0->Text_0@ == (if %s >= %s.len() { %s } else { %s.take(%s as int) })," % (n, n, s, s, s, n),
         start="broadcast use whole;", end="")
    call("RightFunction", both, "(r is Ok) == (%s >= 0), r is Ok ==> r->Ok_0 is Text && r->Ok_0->Text_0@ == (if %s >= %s.len() { %s } else { %s.skip(%s.len() - %s) })," % (n, n, s, s, s, s, n),
         start="broadcast use whole;")
    call("MidFunction", """
        scope.args() == 2 || scope.args() == 3, scope.text(0) is Some, scope.integer(1) is Some,
        scope.args() == 3 ==> scope.integer(2) is Some,
""", """
        ({
            let s = scope.text(0)->Some_0;
            let from = scope.integer(1)->Some_0 as int;
            let len = if scope.args() == 2 { s.len() as int } else { scope.integer(2)->Some_0 as int };
            &&& (r is Ok) == (from >= 0 && len >= 0)
            &&& r is Ok ==> r->Ok_0 is Text && r->Ok_0->Text_0@ =~= (if from >= s.len() { Seq::empty() } else if len >= s.len() - from { s.skip(from) } else { s.subrange(from, from + len) })
        }),
""", start="broadcast use whole;")
    call("SpaceFunction", number, "(r is Ok) == (scope.integer(0)->Some_0 >= 0), r is Ok ==> r->Ok_0 is Text && r->Ok_0->Text_0@ =~= Seq::new(scope.integer(0)->Some_0 as nat, |i: int| ' '),",
         start='proof { reveal_strlit(" "); }')
    call("StrFunction", """
        scope.args() == 2, scope.tag(0) is Some, scope.tag(0)->Some_0 is Immediate,
        match scope.tag(0)->Some_0->Immediate_1 {
            ExprType::Boolean => scope.boolean(1) is Some,
            ExprType::Double => scope.double(1) is Some,
            ExprType::Integer => scope.integer(1) is Some,
            ExprType::Text => scope.text(1) is Some,
        },
""", """
        r is Ok && r->Ok_0 is Text && r->Ok_0->Text_0@ == (match scope.tag(0)->Some_0->Immediate_1 {
            ExprType::Boolean => boolean_text(scope.boolean(1)->Some_0),
            ExprType::Double => double_text(scope.double(1)->Some_0),
            ExprType::Integer => integer_text(scope.integer(1)->Some_0),
            ExprType::Text => scope.text(1)->Some_0,
        }),
""")
    call("ValFunction", text, """
        r is Ok && r->Ok_0 is Double && match numeral(utf8(trimmed_start(%s))) {
            Some(n) => r->Ok_0->Double_0 == number(utf8(trimmed_start(%s)).take(n)),
            None => r->Ok_0->Double_0 == 0.0f64,
        },
""" % (s, s))
    u.add("}\nfn main() {}")


UNITS = [strings]
