"""P21: numeric functions."""

import re

from verus_run import File

NUMERICS = "std/src/numerics.rs"

WORLD = """
verus! {
global size_of usize == 8;
pub enum CallError { Syntax(LineCol, String) }
pub type CallResult<T> = Result<T, CallError>;
pub enum Value { Double(f64), Integer(i32) }
#[derive(Clone, Copy)]
pub struct LineCol { pub line: usize, pub col: usize }
#[verifier::external_body]
fn opaque() -> String { unimplemented!() }
#[verifier::external_body]
fn described(e: String) -> String { unimplemented!() }
pub enum Ordering { Less, Equal, Greater }

/// Where a double is in the order of numbers, unless it is not a number.
pub uninterp spec fn rank(d: f64) -> Option<int>;
pub open spec fn before(a: f64, b: f64) -> bool { rank(a) is Some && rank(b) is Some && rank(a)->Some_0 < rank(b)->Some_0 }
pub open spec fn upto(a: f64, b: f64) -> bool { rank(a) is Some && rank(b) is Some && rank(a)->Some_0 <= rank(b)->Some_0 }
#[verifier::external_body]
fn lt(a: f64, b: f64) -> (r: bool) ensures r == before(a, b) { a < b }
#[verifier::external_body]
fn le(a: f64, b: f64) -> (r: bool) ensures r == upto(a, b) { a <= b }
#[verifier::external_body]
fn eq(a: f64, b: f64) -> (r: bool) ensures r == (rank(a) is Some && rank(a) == rank(b)) { a == b }
pub uninterp spec fn lowest() -> f64;
pub uninterp spec fn highest() -> f64;
#[verifier::external_body]
fn neg_infinity() -> (r: f64) ensures r == lowest() { f64::NEG_INFINITY }
#[verifier::external_body]
fn infinity() -> (r: f64) ensures r == highest() { f64::INFINITY }
pub broadcast axiom fn extremes(d: f64)
    ensures #![trigger rank(d)] rank(lowest()) is Some, rank(highest()) is Some, rank(d) is Some ==> rank(lowest())->Some_0 <= rank(d)->Some_0 <= rank(highest())->Some_0;
pub uninterp spec fn minus(d: f64) -> f64;
#[verifier::external_body]
fn negated(d: f64) -> (r: f64) ensures r == minus(d) { -d }
pub uninterp spec fn pi() -> f64;
#[verifier::external_body]
fn the_pi() -> (r: f64) ensures r == pi() { unimplemented!() }
pub uninterp spec fn finite(d: f64) -> bool;
#[verifier::external_body]
fn is_finite(d: f64) -> (r: bool) ensures r == finite(d) { unimplemented!() }
#[verifier::external_body]
fn is_nan(d: f64) -> (r: bool) ensures r == (rank(d) is None) { unimplemented!() }
pub uninterp spec fn least() -> f64;
#[verifier::external_body]
fn f64_min() -> (r: f64) ensures r == least() { unimplemented!() }
pub uninterp spec fn most() -> f64;
#[verifier::external_body]
fn f64_max() -> (r: f64) ensures r == most() { unimplemented!() }
pub uninterp spec fn times(a: f64, b: f64) -> f64;
#[verifier::external_body]
fn product(a: f64, b: f64) -> (r: f64) ensures r == times(a, b) { a * b }
pub uninterp spec fn over(a: f64, b: f64) -> f64;
#[verifier::external_body]
fn quotient(a: f64, b: f64) -> (r: f64) ensures r == over(a, b) { a / b }
pub uninterp spec fn double(i: int) -> f64;
#[verifier::external_body]
fn to_double(i: u32) -> (r: f64) ensures r == double(i as int) { unimplemented!() }
pub uninterp spec fn tenfold(n: i32) -> f64;
#[verifier::external_body]
fn power_of_ten(n: i32) -> (r: f64) ensures r == tenfold(n) { unimplemented!() }
/// The integer that is closest, if it is one that fits.
pub uninterp spec fn closest(d: f64) -> Option<i32>;
#[verifier::external_body]
fn double_to_integer(d: f64) -> (r: Result<i32, String>) ensures closest(d) == (match r { Ok(i) => Some(i), Err(_) => None }) { unimplemented!() }
fn order(a: i32, b: i32) -> (r: Ordering)
    ensures r == (if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater })
{ if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }

/// A generator of random numbers.
#[verifier::external_body]
pub struct SmallRng { x: u8 }
/// What follows a state of the generator.
pub uninterp spec fn following(s: int) -> int;
/// The number that the generator makes when it leaves a state.
pub uninterp spec fn made(s: int) -> u32;
pub uninterp spec fn seeded(seed: u64) -> int;
impl SmallRng {
    pub uninterp spec fn state(&self) -> int;
    #[verifier::external_body]
    fn next_u32(&mut self) -> (r: u32) ensures r == made(old(self).state()), final(self).state() == following(old(self).state()) { unimplemented!() }
    #[verifier::external_body]
    fn seed_from_u64(seed: u64) -> (r: SmallRng) ensures r.state() == seeded(seed) { unimplemented!() }
    #[verifier::external_body]
    fn from_entropy() -> SmallRng { unimplemented!() }
}
/// A random number between 0 and 1.
pub open spec fn fraction(n: u32) -> f64 { over(double(n as int), double(0xffff_ffff)) }
/// Random numbers after a seed.
pub open spec fn fresh(p: Prng, seed: i32) -> bool { p.prng.state() == following(seeded(seed as u64)) && p.last == made(seeded(seed as u64)) }
pub open spec fn advanced(p: Prng, old: Prng) -> bool { p.prng.state() == following(old.prng.state()) && p.last == made(old.prng.state()) }

pub struct Scope { x: u8 }
impl Scope {
    uninterp spec fn args(&self) -> int;
    uninterp spec fn double(&self, i: int) -> Option<f64>;
    uninterp spec fn integer(&self, i: int) -> Option<i32>;

    #[verifier::external_body]
    fn nargs(&self) -> (r: usize) ensures r == self.args() { unimplemented!() }
    #[verifier::external_body]
    fn get_pos(&self, i: u8) -> LineCol
        requires 0 <= i < self.args()
    { unimplemented!() }
    #[verifier::external_body]
    fn get_double(&self, i: u8) -> (r: f64)
        requires self.double(i as int) is Some
        ensures r == self.double(i as int)->Some_0
    { unimplemented!() }
    #[verifier::external_body]
    fn get_integer(&self, i: u8) -> (r: i32)
        requires self.integer(i as int) is Some
        ensures r == self.integer(i as int)->Some_0
    { unimplemented!() }
    fn return_double(self, v: f64) -> (r: CallResult<Value>) ensures r == Ok::<Value, CallError>(Value::Double(v)) { Ok(Value::Double(v)) }
    fn return_integer(self, v: i32) -> (r: CallResult<Value>) ensures r == Ok::<Value, CallError>(Value::Integer(v)) { Ok(Value::Integer(v)) }
}
"""

MATHS = ("abs", "acos", "asin", "atan", "cos", "sin", "tan", "exp", "floor", "trunc", "ln", "sqrt", "round", "to_radians", "to_degrees")
NUMBER = r"-?(?:\d+\.\d+|f64::NEG_INFINITY|f64::INFINITY|\b(?!scope\b)[a-z_]\w*)\b(?!\()"


def literal(text):
    return "negated(%s)" % text[1:] if text.startswith("-") else text


def rewritten(body):
    """Spells out arithmetic on doubles and what the standard library does."""
    body = re.sub(r"debug_assert\w*!\(.*?\);\n", "", body)
    body = re.sub(r"format!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)|\"[^\"]*\"\.to_owned\(\)", "opaque()", body)
    body = re.sub(r"double_to_integer\(((?:[^()]|\([^()]*\))*)\)\s*\.map_err\(\|e\| ((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\)\?",
                  r"match double_to_integer(\1) { Ok(i) => i, Err(e) => return Err(\2) }", body)
    body = re.sub(r"\be\.to_string\(\)", "described(e)", body)
    body = re.sub(r"let mut prng = self\.prng\.borrow_mut\(\);", "", body)
    body = re.sub(r"&?\*?self\.(angle_mode|prng)\.borrow(?:_mut)?\(\)(?= =[^=])", r"*\1", body)
    body = re.sub(r"&?self\.(angle_mode|prng)\.borrow(?:_mut)?\(\)", r"\1", body)
    body = re.sub(r"&mut scope\b", "&scope", body)
    body = re.sub(r"!\((-?[\d.]+)\.\.=(-?[\d.]+)\)\.contains\(&(\w+)\)", lambda m: "!(le(%s, %s) && le(%s, %s))" % (literal(m[1]), m[3], m[3], literal(m[2])), body)
    body = re.sub(r"\((-?[\d.]+)\.\.=(-?[\d.]+)\)\.contains\(&(\w+)\)", lambda m: "(le(%s, %s) && le(%s, %s))" % (literal(m[1]), m[3], m[3], literal(m[2])), body)
    body = re.sub(r"\b10f64\.powi\((\w+)\)", r"power_of_ten(\1)", body)
    body = re.sub(r"(?<![\w.])((?:\w+\.)*\w+(?:\([^()]*\))?)\.is_(finite|nan)\(\)", r"is_\2(\1)", body)
    body = re.sub(r"(?:std::)?f64::consts::PI", "the_pi()", body)
    body = re.sub(r"(\w+)\.cmp\(&(\w+)\)", r"order(\1, \2)", body)
    # Comparisons of doubles.
    for op, f, swap in (("<=", "le", False), (">=", "le", True), ("<", "lt", False), (">", "lt", True), ("==", "eq", False)):
        body = re.sub(r"(?<=[ (!])(%s) %s (%s)(?=[ );&|])" % (NUMBER, op, NUMBER),
                      lambda m: "%s(%s, %s)" % ((f, literal(m[2]), literal(m[1])) if swap else (f, literal(m[1]), literal(m[2]))), body)
    body = re.sub(r"f64::NEG_INFINITY", "neg_infinity()", body)
    body = re.sub(r"f64::(MIN|MAX)\b", lambda m: "f64_%s()" % m[1].lower(), body)
    body = re.sub(r"f64::INFINITY", "infinity()", body)
    body = re.sub(r"\((self\.\w+) as f64\)|\b(self\.\w+) as f64\b", lambda m: "to_double(%s)" % (m[1] or m[2]), body)
    body = re.sub(r"\(u32::MAX as f64\)|\bu32::MAX as f64\b", "to_double(u32::MAX)", body)
    for name in MATHS:
        body = re.sub(r"(?<![\w.])((?:\w+\.)*\w+\([^()]*\)|[a-z_]\w*)\.%s\(\)" % name, r"f_%s(\1)" % name, body)
        body = re.sub(r"\((\w+ \* \w+)\)\.%s\(\)" % name, r"f_%s(\1)" % name, body)
    body = re.sub(r"\b(\w+) \* (\w+)\b", r"product(\1, \2)", body)
    body = re.sub(r"\b(\w+\((?:[^()]|\([^()]*\))*\)|\w+) / (\w+\([^()]*\)|\w+)", r"quotient(\1, \2)", body)
    return body


REWRITE = (rewritten, "operators and methods of doubles become calls to functions without definitions, comparisons follow an order that is not looked into; texts of errors are opaque; the mode and the generator that functions share are parameters")


def numbers(u):
    f = File(NUMERICS)
    u.add(WORLD)
    for name in MATHS:
        u.add("pub uninterp spec fn m_%s(d: f64) -> f64;\n#[verifier::external_body]\nfn f_%s(d: f64) -> (r: f64) ensures r == m_%s(d) { d.%s() }" % ((name,) * 4))
    u.add("#[derive(Clone, Copy)]\n" + re.sub(r"(?m)^\s*///.*\n", "", f.item("enum", "AngleMode")))
    u.add(re.sub(r"\b(prng|last):", r"pub \1:", f.item("struct", "Prng")))
    u.add("""
pub open spec fn inward(mode: AngleMode, d: f64) -> f64 { match mode { AngleMode::Degrees => m_to_radians(d), AngleMode::Radians => d } }
pub open spec fn outward(mode: AngleMode, d: f64) -> f64 { match mode { AngleMode::Degrees => m_to_degrees(d), AngleMode::Radians => d } }
pub open spec fn failed(r: CallResult<Value>) -> bool { r is Err }
pub open spec fn gives(r: CallResult<Value>, d: f64) -> bool { r == Ok::<Value, CallError>(Value::Double(d)) }
pub open spec fn gives_integer(r: CallResult<Value>, i: int) -> bool { r is Ok && r->Ok_0 is Integer && r->Ok_0->Integer_0 == i }
pub open spec fn integer_or_fails(r: CallResult<Value>, i: Option<i32>) -> bool { match i { Some(i) => gives_integer(r, i as int), None => r is Err } }
""")
    wrap = ("impl Prng {", "}")
    u.fn(f, "new_from_entryopy", contract="", rewrite=REWRITE, wrap=wrap)
    u.fn(f, "new_from_seed", contract="ensures fresh(r, seed)", rewrite=REWRITE, wrap=wrap)
    u.fn(f, "last", within="impl Prng", contract="ensures r == fraction(self.last)", rewrite=REWRITE, wrap=wrap)
    u.fn(f, "next", within="impl Prng", contract="ensures advanced(*final(self), *old(self)), r == fraction(final(self).last)", rewrite=REWRITE, wrap=wrap)
    scope = [(r"&mut Scope<'_>", "&Scope", ""), (r"Scope<'_>", "Scope", "")]
    u.fn(f, "get_angle", contract="""
    requires scope.args() == 1, scope.double(0) is Some
    ensures r == Ok::<f64, CallError>(inward(*angle_mode, scope.double(0)->Some_0))
""", rewrite=REWRITE, subst=scope)
    u.fn(f, "to_angle", contract="ensures r == outward(*angle_mode, angle)", rewrite=REWRITE, subst=scope)
    one = "scope.args() == 1, scope.double(0) is Some,"
    d = "scope.double(0)->Some_0"

    def call(name, requires, ensures, state="", result="Value", **kw):
        sub = [(r"&self, mut scope: ", "scope: ", ""), (r"&self, ", state, ""), (r"Scope<'_>", "Scope", "")] if not state else [(r"&self, (mut )?scope: ", state + "scope: ", ""), (r"Scope<'_>", "Scope", "")]
        if result == "Value":
            sub += [(r"CallResult<\(\)>", "CallResult<Value>", "functions return their value instead of writing it to a register")]
        u.fn(f, "exec", within="impl Callable for %s" % name, contract="""
    requires
        %s
    ensures
        %s
""" % (requires, ensures), rewrite=REWRITE, rename=name.lower(), subst=sub, **kw)

    mode = "angle_mode: &AngleMode, "
    change = "angle_mode: &mut AngleMode, "
    prng = "prng: &mut Prng, "
    call("AbsFunction", one, "gives(r, m_abs(%s))," % d)
    for name, m in (("AcosFunction", "acos"), ("AsinFunction", "asin")):
        call(name, one, "if upto(minus(1.0f64), %s) && upto(%s, 1.0f64) { gives(r, outward(*angle_mode, m_%s(%s))) } else { r is Err }," % (d, d, m, d), state=mode)
    call("AtnFunction", one, "gives(r, outward(*angle_mode, m_atan(%s)))," % d, state=mode)
    for name, m in (("CosFunction", "cos"), ("SinFunction", "sin"), ("TanFunction", "tan")):
        call(name, one, "gives(r, m_%s(inward(*angle_mode, %s)))," % (m, d), state=mode)
    for name, inner in (("CintFunction", "%s"), ("FixFunction", "m_trunc(%s)"), ("IntFunction", "m_floor(%s)")):
        call(name, one, "integer_or_fails(r, closest(%s))," % (inner % d))
    call("DegCommand", "scope.args() == 0", "r is Ok, *final(angle_mode) is Degrees,", state=change, result="()")
    call("RadCommand", "scope.args() == 0", "r is Ok, *final(angle_mode) is Radians,", state=change, result="()")
    u.fn(f, "reset_state", within="impl Clearable for ClearableAngleMode", contract="ensures *final(angle_mode) is Radians", rewrite=REWRITE, rename="cleared", subst=[(r"&self", change.rstrip(", "), "")])
    call("ExpFunction", one, "if finite(m_exp(%s)) { gives(r, m_exp(%s)) } else { r is Err }," % (d, d))
    call("LogFunction", one, "if upto(%s, 0.0f64) { r is Err } else { gives(r, m_ln(%s)) }," % (d, d))
    call("SqrFunction", one, "if before(%s, 0.0f64) { r is Err } else { gives(r, m_sqrt(%s)) }," % (d, d))
    call("SgnFunction", one, "gives_integer(r, if before(0.0f64, %s) { 1 } else if before(%s, 0.0f64) { -1int } else { 0 })," % (d, d))
    call("PiFunction", "scope.args() == 0", "gives(r, pi()),")
    for name, best, end, worst in (("MaxFunction", "upto(scope.double(i)->Some_0, %s)", "lowest()", "lowest"), ("MinFunction", "upto(%s, scope.double(i)->Some_0)", "highest()", "highest")):
        v = "max" if name[1] == "a" else "min"
        call(name, "1 <= scope.args() <= 255, forall|i: int| 0 <= i < scope.args() ==> #[trigger] scope.double(i) is Some,", """
        r is Ok && r->Ok_0 is Double,
        rank(r->Ok_0->Double_0) is Some,
        forall|i: int| 0 <= i < scope.args() && rank((#[trigger] scope.double(i))->Some_0) is Some ==> %s,
        r->Ok_0->Double_0 == %s || exists|i: int| 0 <= i < scope.args() && #[trigger] scope.double(i) == Some(r->Ok_0->Double_0),
""" % (best % "r->Ok_0->Double_0", end), attrs="#[verifier::loop_isolation(false)]", start="broadcast use extremes;", loop_start={0: "broadcast use extremes;\nproof { assert(scope.double(i as int) is Some); }"}, loops=["""
    invariant
        rank(%s) is Some,
        forall|k: int| 0 <= k < i && rank((#[trigger] scope.double(k))->Some_0) is Some ==> %s,
        %s == %s || exists|k: int| 0 <= k < i && #[trigger] scope.double(k) == Some(%s),
""" % (v, (best % v).replace("(i)", "(k)"), v, end, v)])
    call("RandomizeCommand", "scope.args() <= 1, scope.args() == 1 ==> scope.integer(0) is Some,", "r is Ok, scope.args() == 1 ==> fresh(*final(prng), scope.integer(0)->Some_0),", state=prng, result="()")
    call("RndFunction", "scope.args() <= 1, scope.args() == 1 ==> scope.integer(0) is Some,", """
        gives(r, fraction(final(prng).last)),
        if scope.args() == 0 || scope.integer(0)->Some_0 > 0 { advanced(*final(prng), *old(prng)) }
        else if scope.integer(0)->Some_0 == 0 { *final(prng) == *old(prng) }
        else { fresh(*final(prng), scope.integer(0)->Some_0) },
""", state=prng)
    call("RoundFunction", "1 <= scope.args() <= 2, scope.double(0) is Some, scope.args() == 2 ==> scope.integer(1) is Some,", """
        ({
            let x = %s;
            let factor = tenfold(scope.integer(1)->Some_0);
            let scaled = times(x, factor);
            if scope.args() == 1 { gives(r, m_round(x)) }
            else if !finite(scaled) { gives(r, x) }
            else if rank(factor) is Some && rank(factor) == rank(0.0f64) { gives(r, 0.0f64) }
            else { gives(r, over(m_round(scaled), factor)) }
        }),
""" % d)
    u.add("}\nfn main() {}")


UNITS = [numbers]
