"""P20: READ assigns the values of DATA one after the other."""

import re

from verus_run import File

DATA = "std/src/data.rs"

WORLD = """
verus! {
global size_of usize == 8;
pub enum CallError { Eval, Syntax(LineCol, Ghost<bool>), Memory }
pub type CallResult<T> = Result<T, CallError>;
#[derive(Clone, Copy)]
pub struct LineCol { pub line: usize, pub col: usize }
fn unreached() -> (r: ArgSep) requires false { ArgSep::End }
#[verifier::external_body]
fn new_string() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
/// The text of an error about the types of values.
#[verifier::external_body]
fn opaque() -> (r: Ghost<bool>) ensures !r@ { unimplemented!() }
/// The text of the error about values that are missing.
#[verifier::external_body]
fn out_of_data() -> (r: Ghost<bool>) ensures r@ { unimplemented!() }
fn index_of<T>(v: &[T], i: usize) -> (r: Option<&T>)
    ensures match r { Some(t) => i < v@.len() && *t == v@[i as int], None => i >= v@.len() }
{ if i < v.len() { Some(&v[i]) } else { None } }
#[verifier::external_body]
fn copied(d: &ConstantDatum) -> (r: ConstantDatum) ensures value(r) == value(*d) { unimplemented!() }

/// The closest integer, if it is one that fits.
pub uninterp spec fn rounded(d: f64) -> Option<i32>;
pub uninterp spec fn as_double(i: i32) -> f64;
#[verifier::external_body]
fn double_to_integer(d: f64) -> (r: Result<i32, String>) ensures rounded(d) == (match r { Ok(i) => Some(i), Err(_) => None }) { unimplemented!() }
#[verifier::external_body]
fn to_double(i: i32) -> (r: f64) ensures r == as_double(i) { unimplemented!() }

/// Values without where they are in memory.
pub enum Value { Boolean(bool), Double(f64), Integer(i32), Text(Seq<char>) }
pub open spec fn value(d: ConstantDatum) -> Value {
    match d {
        ConstantDatum::Boolean(b) => Value::Boolean(b),
        ConstantDatum::Double(d) => Value::Double(d),
        ConstantDatum::Integer(i) => Value::Integer(i),
        ConstantDatum::Text(s) => Value::Text(s@),
    }
}
/// What a variable of a type gets from a value.
pub open spec fn converted(to: ExprType, v: Value) -> Option<Value> {
    match (to, v) {
        (ExprType::Boolean, Value::Boolean(_)) => Some(v),
        (ExprType::Double, Value::Double(_)) => Some(v),
        (ExprType::Double, Value::Integer(i)) => Some(Value::Double(as_double(i))),
        (ExprType::Integer, Value::Double(d)) => match rounded(d) { Some(i) => Some(Value::Integer(i)), None => None },
        (ExprType::Integer, Value::Integer(_)) => Some(v),
        (ExprType::Text, Value::Text(_)) => Some(v),
        _ => None,
    }
}
/// What a missing value stands for.
pub open spec fn nothing(of: ExprType) -> Value {
    match of {
        ExprType::Boolean => Value::Boolean(false),
        ExprType::Double => Value::Double(0.0f64),
        ExprType::Integer => Value::Integer(0),
        ExprType::Text => Value::Text(Seq::empty()),
    }
}

/// The arguments of READ: a tag and a reference for each variable.
pub struct Scope {
    pub nargs: usize,
    pub values: Vec<Option<ConstantDatum>>,
    pub memory: Ghost<Map<int, Value>>,
    pub places: Ghost<Seq<int>>,
    pub types: Ghost<Seq<ExprType>>,
}
pub struct Ref { pub vtype: ExprType }
impl Scope {
    /// How many variables there are.
    pub open spec fn vars(&self) -> int { self.places@.len() as int }
    pub open spec fn wf(&self) -> bool { 1 <= self.vars() <= 127 && self.types@.len() == self.vars() && self.nargs == 2 * self.vars() }
    /// Everything but the memory stays.
    pub open spec fn like(&self, old: Scope) -> bool {
        self.nargs == old.nargs && self.values == old.values && self.places == old.places && self.types == old.types
    }
    #[verifier::external_body]
    fn nargs(&self) -> (r: usize) ensures r == self.nargs { unimplemented!() }
    #[verifier::external_body]
    fn data(&self) -> (r: &[Option<ConstantDatum>]) ensures r@ == self.values@ { unimplemented!() }
    #[verifier::external_body]
    fn get_pos(&self, i: u8) -> LineCol
        requires i < self.nargs
    { unimplemented!() }
    #[verifier::external_body]
    fn get_type(&self, i: u8) -> (r: VarArgTag)
        requires self.wf(), i % 2 == 0, i < self.nargs
        ensures r is Pointer && r->Pointer_0 == (if i + 2 == self.nargs { ArgSep::End } else { ArgSep::Long })
    { unimplemented!() }
    #[verifier::external_body]
    fn get_ref(&self, i: u8) -> (r: Ref)
        requires self.wf(), i % 2 == 1, i < self.nargs
        ensures r.vtype == self.types@[i as int / 2]
    { unimplemented!() }
    #[verifier::external_body]
    fn set_boolean(&mut self, i: u8, b: bool)
        requires old(self).wf(), i % 2 == 1, i < old(self).nargs, old(self).types@[i as int / 2] is Boolean
        ensures final(self).like(*old(self)), final(self).memory@ == old(self).memory@.insert(old(self).places@[i as int / 2], Value::Boolean(b))
    { unimplemented!() }
    #[verifier::external_body]
    fn set_double(&mut self, i: u8, d: f64)
        requires old(self).wf(), i % 2 == 1, i < old(self).nargs, old(self).types@[i as int / 2] is Double
        ensures final(self).like(*old(self)), final(self).memory@ == old(self).memory@.insert(old(self).places@[i as int / 2], Value::Double(d))
    { unimplemented!() }
    #[verifier::external_body]
    fn set_integer(&mut self, i: u8, n: i32)
        requires old(self).wf(), i % 2 == 1, i < old(self).nargs, old(self).types@[i as int / 2] is Integer
        ensures final(self).like(*old(self)), final(self).memory@ == old(self).memory@.insert(old(self).places@[i as int / 2], Value::Integer(n))
    { unimplemented!() }
    #[verifier::external_body]
    fn set_string(&mut self, i: u8, s: String) -> (r: CallResult<()>)
        requires old(self).wf(), i % 2 == 1, i < old(self).nargs, old(self).types@[i as int / 2] is Text
        ensures
            final(self).like(*old(self)),
            r is Ok ==> final(self).memory@ == old(self).memory@.insert(old(self).places@[i as int / 2], Value::Text(s@)),
            r is Err ==> r->Err_0 is Memory && final(self).memory == old(self).memory,
    { unimplemented!() }

    /// The value that comes next for a variable.
    pub open spec fn due(&self, k: int, index: int) -> Value {
        match self.values@[index] { Some(d) => value(d), None => nothing(self.types@[k]) }
    }
    pub open spec fn fits(&self, k: int, index: int) -> bool { converted(self.types@[k], self.due(k, index)) is Some }
    /// The memory after some of the variables are assigned.
    pub open spec fn after(&self, k: int, index: int) -> Map<int, Value>
        decreases k
    {
        if k <= 0 { self.memory@ } else {
            self.after(k - 1, index).insert(self.places@[k - 1], converted(self.types@[k - 1], self.due(k - 1, index + k - 1))->Some_0)
        }
    }
    /// Whether some of the variables can be assigned.
    pub open spec fn good(&self, k: int, index: int) -> bool {
        index + k <= self.values@.len() && forall|j: int| 0 <= j < k ==> #[trigger] self.fits(j, index + j)
    }
}
/// There are at most as many values as memory has bytes.
pub broadcast axiom fn memory(v: Vec<Option<ConstantDatum>>) ensures #[trigger] v@.len() <= 0x7fff_ffff_ffff_ffff;
"""


def rewritten(body):
    """Spells out what the standard library does."""
    for a, b in (
            (r"debug_assert_ne!\((.*?)\);\n", ""),
            (r"debug_assert_eq!\((.*?)\);\n", ""),
            (r"let mut index = self\.index\.borrow_mut\(\);", ""),
            (r"\bself\.(?:index|0)\.borrow(?:_mut)?\(\)", "index"),
            (r"scope\.data\(\)\.get\(([^()]*)\)", r"index_of(scope.data(), \1)"),
            (r"\bdatum\.clone\(\)", "copied(datum)"),
            (r"scope\.get_mut_ref\((\w+)\)\.(set_\w+)\(", r"scope.\2(\1, "),
            (r"\b(\w+) as f64", r"to_double(\1)"),
            (r"\bString::new\(\)", "new_string()"),
            (r"\bunreachable!\(\);", "unreached()"),
            (r"\"[^\"]*\"\.to_owned\(\)", "out_of_data()"),
            (r"format!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)", "opaque()"),
            (r"\be\.to_string\(\)", "opaque()"),
            (r"double_to_integer\((\w+)\)\s*\.map_err\(\|e\| ((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\)\?", r"match double_to_integer(\1) { Ok(i) => i, Err(_) => return Err(\2) }"),
    ):
        body = re.sub(a, b, body)
    return body


REWRITE = (rewritten, "calls to methods of Scope, slices, numbers and texts become calls to functions with assumed contracts; the counter shared by the commands is a parameter; texts of errors are opaque")
SUBST = [(r"&self, mut scope: Scope<'_>", "index: &mut usize, scope: &mut Scope", ""), (r"&self, scope: Scope<'_>", "index: &mut usize, scope: &Scope", ""),
         (r"fn reset_state\(&self\)", "fn reset_state(index: &mut usize)", ""), (r"assign_datum\(&mut scope,", "assign_datum(scope,", ""), (r"Scope<'_>", "Scope", "")]

ASSIGN = """
    requires
        old(scope).wf(), reg % 2 == 1, reg < old(scope).nargs,
    ensures
        final(scope).like(*old(scope)),
        match converted(old(scope).types@[reg as int / 2], value(datum)) {
            Some(v) => match r {
                Ok(_) => final(scope).memory@ == old(scope).memory@.insert(old(scope).places@[reg as int / 2], v),
                Err(e) => e is Memory && v is Text && final(scope).memory == old(scope).memory,
            },
            None => r is Err && r->Err_0 is Syntax && !r->Err_0->Syntax_1@ && final(scope).memory == old(scope).memory,
        },
"""
READ = """
    requires
        old(scope).wf(), *old(index) <= old(scope).values@.len(),
    ensures
        final(scope).like(*old(scope)),
        r is Ok ==> old(scope).good(old(scope).vars(), *old(index) as int),
        r is Ok ==> final(scope).memory@ == old(scope).after(old(scope).vars(), *old(index) as int) && *final(index) == *old(index) + old(scope).vars(),
        r is Err ==> exists|k: int| 0 <= k < old(scope).vars() && #[trigger] old(scope).good(k, *old(index) as int)
            && final(scope).memory@ == old(scope).after(k, *old(index) as int)
            && (if *old(index) + k >= old(scope).values@.len() {
                r->Err_0 is Syntax && r->Err_0->Syntax_1@ && *final(index) == *old(index) + k
            } else {
                &&& *final(index) == *old(index) + k + 1
                &&& r->Err_0 is Syntax && !r->Err_0->Syntax_1@ && !old(scope).fits(k, *old(index) + k) || r->Err_0 is Memory && old(scope).due(k, *old(index) + k) is Text
            }),
"""


def data(u):
    f = File(DATA)
    ast = File("core/src/ast.rs")
    byte = File("core/src/bytecode.rs")
    u.add(WORLD)
    u.add("#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n" + re.sub(r" = \d+", "", ast.item("enum", "ArgSep")))
    u.add("#[derive(Clone, Copy)]\n" + re.sub(r" = \d+", "", ast.item("enum", "ExprType")))
    u.add("#[derive(Clone, Copy)]\n" + re.sub(r" = \d+", "", byte.item("enum", "VarArgTag")))
    u.add(byte.item("enum", "ConstantDatum") if "enum ConstantDatum" in byte.text else File("core/src/mem.rs").item("enum", "ConstantDatum"))
    u.fn(f, "assign_datum", contract=ASSIGN, rewrite=REWRITE, subst=SUBST)
    u.fn(f, "exec", within="impl Callable for ReadCommand", rename="read", contract=READ, hoist=["assign_datum"], rewrite=REWRITE, subst=SUBST,
         attrs="#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]",
         start="broadcast use memory;\nlet ghost mut k = 0int;", loops=["""
    invariant_except_break
        k < scope.vars(),
    invariant
        0 <= k <= scope.vars(), reg == 2 * k, scope.like(*old(scope)), scope.wf(), *index == *old(index) + k,
        old(scope).good(k, *old(index) as int), scope.memory@ == old(scope).after(k, *old(index) as int),
    ensures
        k == scope.vars(),
    decreases scope.vars() - k,
"""], loop_start={0: "proof { k = k + 1; }\nbroadcast use memory;"})
    u.fn(f, "exec", within="impl Callable for RestoreCommand", rename="restore", contract="ensures r is Ok, *final(index) == 0", rewrite=REWRITE, subst=SUBST)
    u.fn(f, "reset_state", within="impl Clearable for ClearableIndex", contract="ensures *final(index) == 0", rewrite=REWRITE, subst=SUBST)
    u.add("}\nfn main() {}")


STATEMENT = """
verus! {
global size_of usize == 8;
pub enum Error { Bad(LineCol, String), Other }
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body]
fn opaque() -> String { unimplemented!() }
fn unreached() -> !
    requires false
{ loop invariant false decreases 0int {} }
#[verifier::external_body]
pub struct VarRef { x: u8 }
pub uninterp spec fn minus(d: f64) -> f64;
#[verifier::external_body]
fn negated(d: f64) -> (r: f64) ensures r == minus(d) { unimplemented!() }
#[verifier::external_body]
fn checked(i: i32) -> (r: Option<i32>) ensures r == (if i == i32::MIN { None } else { Some((-i) as i32) }) { unimplemented!() }
"""
WORDS = """
/// The words come from the lexer, which is verified for P14.
#[verifier::external_body]
pub struct PeekableLexer { x: u8 }
impl PeekableLexer {
    /// The words that have not been consumed, up to the end of the text.
    uninterp spec fn rest(&self) -> Seq<Token>;
    /// Whether there is a word to consume.
    uninterp spec fn peeked(&self) -> bool;

    #[verifier::external_body]
    fn peek(&mut self) -> (r: Result<&TokenSpan>)
        ensures
            r is Ok ==> final(self).peeked() && final(self).rest() == old(self).rest() && old(self).rest().len() > 0 && old(self).rest()[0] == r->Ok_0.token,
            r is Err ==> r->Err_0 is Other,
    { unimplemented!() }
    #[verifier::external_body]
    fn read(&mut self) -> (r: Result<TokenSpan>)
        ensures
            r is Ok ==> old(self).rest().len() > 0 && r->Ok_0.token == old(self).rest()[0]
                && final(self).rest() == (if old(self).rest()[0] is Eof { old(self).rest() } else { old(self).rest().skip(1) }),
            r is Err ==> r->Err_0 is Other,
    { unimplemented!() }
    #[verifier::external_body]
    fn consume_peeked(&mut self) -> (r: TokenSpan)
        requires
            old(self).peeked(), old(self).rest().len() > 0, !(old(self).rest()[0] is Eof),
        ensures
            r.token == old(self).rest()[0], final(self).rest() == old(self).rest().skip(1),
    { unimplemented!() }
}
pub struct Parser { lexer: PeekableLexer }

pub enum Value { Boolean(bool), Double(f64), Integer(i32), Text(Seq<char>) }
pub open spec fn ends(t: Token) -> bool { t is Eof || t is Eol || t is Else }
/// The value that words start with, and how many words it takes.
pub open spec fn first(w: Seq<Token>) -> Option<(Value, int)> {
    match w[0] {
        Token::Boolean(b) => Some((Value::Boolean(b), 1)),
        Token::Double(d) => Some((Value::Double(d), 1)),
        Token::Integer(i) => Some((Value::Integer(i), 1)),
        Token::Text(t) => Some((Value::Text(t@), 1)),
        Token::Minus => match w[1] {
            Token::Double(d) => Some((Value::Double(minus(d)), 2)),
            Token::Integer(i) => if i == i32::MIN { None } else { Some((Value::Integer((-i) as i32), 2)) },
            _ => None,
        },
        _ => None,
    }
}
/// The values that words list, which are separated by commas and may be missing, and the words that follow.
pub open spec fn listed(w: Seq<Token>, before: Seq<Option<Value>>) -> Option<(Seq<Option<Value>>, Seq<Token>)>
    decreases w.len()
{
    if w.len() == 0 { None }
    else if ends(w[0]) { Some((before.push(None), w)) }
    else if w[0] is Comma { listed(w.skip(1), before.push(None)) }
    else {
        match first(w) {
            None => None,
            Some((v, n)) => {
                let after = w.skip(n);
                let values = before.push(Some(v));
                if n >= w.len() { None }
                else if ends(after[0]) { Some((values, after)) }
                else if after[0] is Comma { listed(after.skip(1), values) }
                else { None }
            }
        }
    }
}
pub open spec fn datum(e: Option<Expr>) -> Option<Value> {
    match e {
        Some(Expr::Boolean(s)) => Some(Value::Boolean(s.value)),
        Some(Expr::Double(s)) => Some(Value::Double(s.value)),
        Some(Expr::Integer(s)) => Some(Value::Integer(s.value)),
        Some(Expr::Text(s)) => Some(Value::Text(s.value@)),
        _ => None,
    }
}
pub open spec fn literal(e: Expr) -> bool { e is Boolean || e is Double || e is Integer || e is Text }
pub open spec fn datums(s: Seq<Option<Expr>>) -> Seq<Option<Value>> { s.map_values(|e: Option<Expr>| datum(e)) }
pub open spec fn literals(s: Seq<Option<Expr>>) -> bool { forall|i: int| 0 <= i < s.len() && #[trigger] s[i] is Some ==> literal(s[i]->Some_0) }
pub broadcast proof fn more(s: Seq<Option<Expr>>, e: Option<Expr>)
    ensures #[trigger] datums(s.push(e)) == datums(s).push(datum(e))
{ assert(datums(s.push(e)) =~= datums(s).push(datum(e))); }
pub broadcast proof fn none(s: Seq<Option<Expr>>)
    requires s.len() == 0
    ensures #[trigger] datums(s) == Seq::<Option<Value>>::empty()
{ assert(datums(s) =~= Seq::empty()); }
pub broadcast proof fn twice(w: Seq<Token>)
    requires w.len() >= 2
    ensures #[trigger] w.skip(1).skip(1) == w.skip(2)
{ assert(w.skip(1).skip(1) =~= w.skip(2)); }
pub open spec fn constant(d: ConstantDatum) -> Value {
    match d {
        ConstantDatum::Boolean(b) => Value::Boolean(b),
        ConstantDatum::Double(d) => Value::Double(d),
        ConstantDatum::Integer(i) => Value::Integer(i),
        ConstantDatum::Text(s) => Value::Text(s@),
    }
}
"""
NAMES = [(r"(?<!\w)(?:panic|unreachable)!\((?:[^()]|\([^()]*\))*\)", "unreached()", "a panic has to be unreachable"),
         (r"format!\((?:[^()]|\([^()]*\))*\)", "opaque()", ""), (r"\"[^\"]*\"\.to_owned\(\)", "opaque()", ""), (r"(?<=value: )-d\b", "negated(d)", ""),
         (r"\b(\w+)\.checked_neg\(\)", r"checked(\1)", "")]


def statement(u):
    ast = File("core/src/ast.rs")
    byte = File("core/src/bytecode.rs")
    lexer = File("core/src/lexer.rs")
    u.add(STATEMENT)
    u.add("#[derive(Clone, Copy)]\n" + File("core/src/reader.rs").item("struct", "LineCol"))
    u.add("#[derive(Clone, Copy)]\n" + re.sub(r" = \d+", "", ast.item("enum", "ExprType")))
    for name in ("BooleanSpan", "DoubleSpan", "IntegerSpan", "TextSpan", "SymbolSpan", "UnaryOpSpan", "BinaryOpSpan", "CallSpan", "ArgSpan", "DataSpan"):
        u.add(ast.item("struct", name))
    u.add(re.sub(r" = \d+", "", ast.item("enum", "ArgSep")))
    u.add(ast.item("enum", "Expr"))
    u.add("pub enum Statement { Data(DataSpan), Other }")
    u.add(byte.item("enum", "ConstantDatum") if "enum ConstantDatum" in byte.text else File("core/src/mem.rs").item("enum", "ConstantDatum"))
    u.add(lexer.item("enum", "Token"))
    u.add(re.sub(r"(pub\(crate\) )?\b(token|pos|length):", r"pub \2:", lexer.item("struct", "TokenSpan").replace("#[allow(unused)]", "")))
    u.add(WORDS)
    u.fn(File("core/src/parser.rs"), "parse_data", contract="""
    ensures
        match (listed(old(self).lexer.rest(), Seq::empty()), r) {
            (Some((v, w)), Ok(s)) => s is Data && datums(s->Data_0.values@) =~= v && literals(s->Data_0.values@) && final(self).lexer.rest() == w,
            (None, Ok(_)) => false,
            (Some(_), Err(e)) => e is Other,
            (None, Err(_)) => true,
        },
""", wrap=("impl Parser {", "}"), subst=NAMES, attrs="#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n#[verifier::exec_allows_no_decreases_clause]",
         loops=["""
    invariant_except_break
        listed(old(self).lexer.rest(), Seq::empty()) == listed(self.lexer.rest(), datums(values@)),
    invariant
        literals(values@),
    ensures
        listed(old(self).lexer.rest(), Seq::empty()) == Some((datums(values@), self.lexer.rest())),
"""], start="broadcast use none;", loop_start={0: "broadcast use {more, twice};"})
    u.fn(File("core/src/compiler/top.rs"), "data_expr_to_constant", contract="""
    requires literal(expr)
    ensures datum(Some(expr)) == Some(constant(r))
""", subst=NAMES)
    u.add("}\nfn main() {}")


UNITS = [data, statement]
