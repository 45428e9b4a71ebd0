"""The processor of core/src/vm/context.rs under contract, for any state of its registers and calls."""

import re

from verus_run import File, Lost, blank, closing

CONTEXT = "core/src/vm/context.rs"
BYTECODE = "core/src/bytecode.rs"


def decoded(file):
    """What decoding each instruction yields, by name, from the invocations of the macro of the codec."""
    found = {}
    for m in re.finditer(r"(?m)^instr!\(", file.code):
        text = file.text[m.end():closing(file.code, m.end() - 1)]
        text = re.sub(r"//[^\n]*", "", text)
        parts = [p.strip() for p in text.split(",") if p.strip()]
        if len(parts) < 5 or (len(parts) - 5) % 3 or not parts[3].startswith("parse_"):
            raise Lost("instr!(%s)" % parts[:4])
        found[parts[3][6:]] = parts[5::3]
    return found


def public(text):
    """Makes an item and its fields visible."""
    text = re.sub(r"pub\((crate|super)\) ", "", text)
    if re.match(r"(pub )?struct", text):
        text = re.sub(r"(?m)^    (pub )?(\w+):", r"    pub \2:", re.sub(r"\((pub )?(\w+)\);", r"(pub \2);", text))
    return text if text.startswith("pub ") else "pub " + text


def types(u):
    """The types of the processor."""
    context, bytecode = File(CONTEXT), File(BYTECODE)
    u.add("verus! {")
    u.add("""
global size_of usize == 8;

pub assume_specification<T: Copy> [Option::<&T>::copied] (o: Option<&T>) -> (r: Option<T>)
    ensures r == (match o { Some(v) => Some(*v), None => None });

pub assume_specification<T: Clone> [<[T]>::fill] (s: &mut [T], v: T)
    ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < final(s)@.len() ==> cloned(v, #[trigger] final(s)@[i]);

pub assume_specification [i32::checked_neg] (a: i32) -> (r: Option<i32>)
    ensures r == (if a == i32::MIN { None } else { Some((-a) as i32) });

pub assume_specification [f64::from_bits] (v: u64) -> f64;
pub assume_specification [f64::to_bits] (v: f64) -> u64;
pub assume_specification [f64::powf] (a: f64, b: f64) -> f64;

/// The negation of a double, which is not specified here.
#[verifier::external_body]
fn negated(v: f64) -> f64 { unimplemented!() }

/// Arithmetic on doubles, which is not specified here.
#[verifier::external_body]
fn doubles(a: f64, b: f64) -> f64 { unimplemented!() }

/// The text of an error, which is not specified here.
#[verifier::external_body]
fn text_of<S>(s: S) -> String { unimplemented!() }
""")
    u.add("#[derive(Clone, Copy)]\n" + public(bytecode.item("struct", "Register")))
    u.add("#[derive(Clone, Copy)]\n" + public(bytecode.item("struct", "ExitCode")))
    u.add("#[derive(Clone, Copy)]\n" + public(bytecode.item("enum", "ErrorHandlerMode")))
    u.add("#[derive(Debug)]\npub struct OutOfRegistersError(pub ());")
    u.add("#[derive(Debug)]\npub struct InvalidExitCodeError(());")
    u.add("#[derive(Clone, Copy)]\n" + public(File("core/src/ast.rs").item("enum", "ExprType")))
    u.add("#[derive(Clone, Copy)]\n" + public(bytecode.item("struct", "PackedArrayType")))
    u.add("type Address = usize;")
    for m in re.finditer(r"(?m)^const (\w+): (&str|usize|u8|i32|u32) = [^;]*;", context.text):
        u.add(m.group(0).replace("&str", "&'static str"))
    u.add(public(context.item("enum", "InternalStopReason")))
    u.add("#[derive(Clone, Copy)]\n" + public(context.item("enum", "ErrorHandler")))
    u.add(public(context.item("struct", "Frame")))
    u.add(public(context.item("struct", "Context")))
    u.add("impl Register {")
    u.add("pub const MAX: u8 = %s;" % constant(bytecode, "MAX"))
    u.add("pub const MAX_GLOBAL: u8 = %s;" % constant(bytecode, "MAX_GLOBAL"))
    u.add("""
    pub open spec fn is_local(self) -> bool { self.0 >= 64 }
    pub open spec fn number(self) -> int { if self.0 < 64 { self.0 as int } else { self.0 - 64 } }
""")
    u.fn(bytecode, "local", within="impl Register", contract="""
    ensures
        reg < 192 ==> r is Ok && r->Ok_0 == Register((reg + 64) as u8),
        reg >= 192 ==> r is Err,
""")
    u.fn(bytecode, "to_parts", within="impl Register", contract="    ensures r.0 == !self.is_local(), r.1 == self.number(),")
    u.add("}")
    u.add("mod bytecode {\n use super::*;")
    for name, parts in decoded(bytecode).items():
        t = parts[0] if len(parts) == 1 else "(%s)" % ", ".join(parts)
        u.add("    pub uninterp spec fn %s_args(instr: u32) -> %s;" % (name, t))
        u.add("    #[verifier::external_body]\n    pub fn parse_%s(instr: u32) -> (r: %s)\n        ensures r == %s_args(instr),\n    { unimplemented!() }" % (name, t, name))
    u.add("}")
    u.add("""
impl Context {
    /// What holds between instructions.
    pub open spec fn wf(&self) -> bool {
        &&& self.call_stack.len() <= self.max_call_stack <= 0x100_0000
        &&& 64 <= self.fp <= 64 + 191 * self.call_stack.len()
        &&& forall|i: int| 0 <= i < self.call_stack.len() ==> 64 <= (#[trigger] self.call_stack[i]).old_fp <= 64 + 191 * i
        &&& forall|i: int| 0 <= i < self.call_stack.len() ==> (#[trigger] self.call_stack[i]).old_pc < 0x1_0000_0000_0000
        &&& self.pc <= 0x1_0000_0000_0000
    }

    /// The registers of the current frame have an address.
    pub open spec fn addressable(&self) -> bool { self.fp <= 0x0100_0000_0000_0000 }

    /// Position of a register.
    pub open spec fn index(&self, r: Register) -> int {
        if r.is_local() { self.fp + r.number() } else { r.number() }
    }

    pub open spec fn at(&self, i: int) -> u64 {
        cell(self.regs@, i)
    }

    /// Content of a register.
    pub open spec fn value(&self, r: Register) -> u64 {
        self.at(self.index(r))
    }

    pub open spec fn int(&self, r: Register) -> int {
        (self.value(r) as i32) as int
    }
}

/// Registers that were never written hold zero.
pub open spec fn cell(regs: Seq<u64>, i: int) -> u64 {
    if 0 <= i < regs.len() { regs[i] } else { 0 }
}

pub open spec fn truth(v: u64) -> bool { v != 0 }

/// All registers keep their contents but for the one at a position.
pub open spec fn written(a: Seq<u64>, b: Seq<u64>, i: int, v: u64) -> bool {
    forall|k: int| #[trigger] cell(b, k) == (if k == i { v } else { cell(a, k) })
}

pub open spec fn registers(a: Context, b: Context, i: int, v: u64) -> bool {
    written(a.regs@, b.regs@, i, v)
}

/// Calls in progress and the position of their variables stay.
pub open spec fn same_frames(a: Context, b: Context) -> bool {
    &&& b.fp == a.fp
    &&& b.call_stack@ == a.call_stack@
    &&& b.max_call_stack == a.max_call_stack
}

/// The instruction did nothing but writing a register, and execution continues with the next one.
pub open spec fn stepped(a: Context, b: Context, r: Register, v: u64) -> bool {
    &&& registers(a, b, a.index(r), v)
    &&& same_frames(a, b)
    &&& b.stop is None
    &&& b.pc == a.pc + 1
}

pub open spec fn exception(c: Context, pc: usize) -> bool {
    c.stop is Some && c.stop->Some_0 is Exception && c.stop->Some_0->Exception_0 == pc
}

/// The instruction did nothing but raising an error.
pub open spec fn failed(a: Context, b: Context) -> bool {
    &&& exception(b, a.pc)
    &&& b.pc == a.pc
    &&& b.regs@ == a.regs@
    &&& same_frames(a, b)
}

/// Integers in registers.
proof fn casts()
    ensures
        forall|v: i32| #[trigger] ((v as u64) as i32) == v,
{
    assert(forall|v: i32| #[trigger] ((v as u64) as i32) == v) by (bit_vector);
}

impl Context {
""")
    u.fn(context, "reg_index", within="impl Context", contract="    requires self.addressable() ensures r == self.index(reg),")
    u.fn(context, "get_reg", within="impl Context", contract="    requires self.addressable() ensures r == self.value(reg),")
    u.fn(context, "set_reg", within="impl Context", contract="""
    requires old(self).addressable()
    ensures
        written(old(self).regs@, final(self).regs@, old(self).index(reg), value),
        *final(self) == (Context { regs: final(self).regs, ..*old(self) }),
""")
    u.fn(context, "set_exception", within="impl Context", subst=[
        (r"message\.into\(\)", "text_of(message)", "the text of errors is not specified"),
        (r"<S: Into<String>>", "<S>", "the text of errors is not specified"),
    ], contract="""
    ensures
        exception(*final(self), old(self).pc),
        final(self).regs@ == old(self).regs@,
        final(self).call_stack@ == old(self).call_stack@,
        *final(self) == (Context { stop: final(self).stop, regs: final(self).regs, call_stack: final(self).call_stack, ..*old(self) }),
""")
    u.add("}")


def constant(file, name):
    m = re.search(r"const %s: u8 = ([\w:]+);" % name, file.text)
    if not m:
        raise Lost("const %s" % name)
    return m.group(1)


def closures(ltype, rtype="bool"):
    """Gives closures over `l` and `r` the contract that they return the value of their expression."""
    def annotate(text):
        out, at = [], 0
        code = blank(text)
        for m in re.finditer(r"\|(\w+), (\w+)\|\s*", code):
            k = m.end()
            if code[k] == "{":
                z = closing(code, k)
                body = text[k + 1:z].strip()
                z += 1
            else:
                depth, z = 0, k
                while z < len(code):
                    if code[z] in "([{":
                        depth += 1
                    elif code[z] in ")]}":
                        if depth == 0:
                            break
                        depth -= 1
                    elif code[z] == "," and depth == 0:
                        break
                    z += 1
                body = text[k:z].strip()
            if ";" in body:
                raise Lost("closure with statements")
            out.append(text[at:m.start()])
            out.append("|%s: %s, %s: %s| -> (q: %s) ensures q == (%s) { %s }" % (m.group(1), ltype, m.group(2), ltype, rtype, body, body))
            at = z
        out.append(text[at:])
        return "".join(out)
    return annotate, "closures get the contract that they return the value of their expression"


# What the code says with constructs that Verus does not accept.
OPAQUE = [
    (r"parse: fn\(u32\) -> \(Register, Register, Register\)", "parse: P", "a pointer to a function is a generic parameter"),
    (r"F: Fn\(i32, i32\) -> Result<i32, E>,\s*E: ToString,", "P: Fn(u32) -> (Register, Register, Register), F: Fn(i32, i32) -> Result<i32, E>,",
     "a pointer to a function is a generic parameter"),
    (r"F: Fn\(i32, i32\) -> bool", "P: Fn(u32) -> (Register, Register, Register), F: Fn(i32, i32) -> bool",
     "a pointer to a function is a generic parameter"),
    (r"F: Fn\((f64|&str), (f64|&str)\) -> (f64|bool)",
     r"P: Fn(u32) -> (Register, Register, Register), F: Fn(\1, \2) -> \3", "a pointer to a function is a generic parameter"),
    (r"\bl [-+*/%] r\b", "doubles(l, r)", "arithmetic on doubles is not specified"),
    (r"\(-value\)\.to_bits", "negated(value).to_bits", "the negation of a double is not specified"),
    (r"debug_assert!\(([^,]*), [^)]*\);", r"assert(\1);", "debug_assert! is an obligation"),
    (r"debug_assert_eq!\(\w+::\w+, \w+, [^)]*\);", "", "debug_assert_eq! on types is dropped"),
    (r"ExitCode::try_from\(", "ExitCode::convert(", "the trait TryFrom is not in the subset"),
    (r"F: Fn\(bool, bool\) -> bool", "P: Fn(u32) -> (Register, Register, Register), F: Fn(bool, bool) -> bool",
     "a pointer to a function is a generic parameter"),
    (r"(do_binary_\w+)<F", r"\1<P, F", "a pointer to a function is a generic parameter"),
    (r"(\w+)\.to_string\(\)", r"text_of(\1)", "the text of errors is not specified"),
    (r"format!\((?:[^()]|\([^()]*\))*\)", 'text_of("")', "the text of errors is not specified"),
    (r"^pub\(super\) ", "", "visibility"),
]

# What every instruction needs.
READY = "    requires old(self).wf(), old(self).pc < 0x1_0000_0000_0000, old(self).stop is None,\n"


def op(u, name, contract, **more):
    """Adds an instruction."""
    more.setdefault("start", "proof { casts(); }")
    subst = list(more.pop("subst", [])) + OPAQUE
    u.fn(File(CONTEXT), name, within="impl Context", contract=READY + contract, subst=subst, **more)


def integers(u):
    """P01: arithmetic."""
    types(u)
    u.add(INTEGERS)
    context = File(CONTEXT)
    for name, contract in [
        ("checked_add_integer", "ensures result(r, a + b)"),
        ("checked_sub_integer", "ensures result(r, a - b)"),
        ("checked_mul_integer", "ensures result(r, a * b)"),
        ("checked_div_integer", "ensures b == 0 ==> r is Err, b != 0 ==> result(r, quotient(a as int, b as int))"),
        ("checked_mod_integer", "ensures b == 0 ==> r is Err, b != 0 && !(a == i32::MIN && b == -1) ==> result(r, remainder(a as int, b as int)),"
         " a == i32::MIN && b == -1 ==> r is Err"),
    ]:
        u.fn(context, name, contract="    " + re.sub(r"\ba\b", "lhs", re.sub(r"\bb\b", "rhs", contract)),
             start="proof { if rhs != 0 { division(lhs as int, rhs as int); } }" if "div" in name or "mod" in name else "")
    u.fn(context, "checked_pow_integer", contract="    ensures result(r, power(lhs as int, exp as nat))")
    u.add("impl Context {")
    binary(u)
    for name, parse, value in [
        ("do_add_integer", "add_integer", "Some(x + y)"),
        ("do_subtract_integer", "subtract_integer", "Some(x - y)"),
        ("do_multiply_integer", "multiply_integer", "Some(x * y)"),
        ("do_divide_integer", "divide_integer", "if y == 0 { None } else { Some(quotient(x, y)) }"),
        ("do_modulo_integer", "modulo_integer", "if y == 0 || (x == i32::MIN && y == -1) { None } else { Some(remainder(x, y)) }"),
        ("do_power_integer", "power_integer", "if y < 0 { None } else { Some(power(x, y as nat)) }"),
    ]:
        op(u, name, """    ensures ({
        let (d, a, b) = bytecode::%s_args(instr);
        let (x, y) = (old(self).int(a), old(self).int(b));
        outcome(*old(self), *final(self), d, %s)
    }),
""" % (parse, value))
    op(u, "do_negate_integer", """    ensures ({
        let d = bytecode::negate_integer_args(instr);
        outcome(*old(self), *final(self), d, Some(-old(self).int(d)))
    }),
""")
    u.add("}\n}\nfn main() {}")


INTEGERS = """
/// The quotient of a division, truncated towards zero.
pub open spec fn quotient(a: int, b: int) -> int {
    let q = magnitude(a) / magnitude(b);
    if (a < 0) == (b < 0) { q } else { -q }
}

/// What the quotient leaves.
pub open spec fn remainder(a: int, b: int) -> int { a - b * quotient(a, b) }

pub open spec fn magnitude(a: int) -> int { if a < 0 { -a } else { a } }

pub open spec fn power(a: int, b: nat) -> int
    decreases b,
{
    if b == 0 { 1 } else { a * power(a, (b - 1) as nat) }
}

pub open spec fn fits(v: int) -> bool { i32::MIN <= v <= i32::MAX }

/// How the division of the language relates to that of natural numbers.
proof fn division(a: int, b: int)
    requires b != 0
    ensures
        vstd::arithmetic::div_mod::rust_div(a, b) == quotient(a, b),
        vstd::arithmetic::div_mod::rust_rem(a, b) == remainder(a, b),
        magnitude(remainder(a, b)) < magnitude(b),
        magnitude(quotient(a, b)) <= magnitude(a),
        magnitude(b) == 1 ==> quotient(a, b) == (if (a < 0) == (b < 0) { magnitude(a) } else { -magnitude(a) }),
        magnitude(b) >= 2 && magnitude(a) > 0 ==> magnitude(quotient(a, b)) < magnitude(a),
{
    let (m, n) = (magnitude(a), magnitude(b));
    let q = m / n;
    if b < 0 {
        assert(a / b == -(a / n)) by (nonlinear_arith) requires b < 0, n == -b;
        assert((-a) / b == -((-a) / n)) by (nonlinear_arith) requires b < 0, n == -b;
        assert(m / b == -(m / n)) by (nonlinear_arith) requires b < 0, n == -b;
        assert(m == b * (m / b) + m % b) by (nonlinear_arith) requires b != 0;
        assert(m == n * (m / n) + m % n) by (nonlinear_arith) requires n != 0;
        assert(b * -q == n * q) by (nonlinear_arith) requires n == -b;
        assert(m % b == m % n);
    }
    assert(m == n * q + m % n) by (nonlinear_arith) requires n != 0, q == m / n;
    assert((-n) * q == -(n * q)) by (nonlinear_arith);
    assert(n * -q == -(n * q)) by (nonlinear_arith);
    assert((-n) * -q == n * q) by (nonlinear_arith);
    assert(0 <= q <= m) by (nonlinear_arith) requires q == m / n, m >= 0, n >= 1;
    if n == 1 {
        assert(q == m) by (nonlinear_arith) requires q == m / n, n == 1;
    }
    if n >= 2 && m > 0 {
        assert(q < m) by (nonlinear_arith) requires q == m / n, m > 0, n >= 2;
    }
}

/// A function yields a value if it fits and an error otherwise.
pub open spec fn result<E>(r: Result<i32, E>, v: int) -> bool {
    if fits(v) { r is Ok && r->Ok_0 == v } else { r is Err }
}

/// An instruction writes a value if there is one that fits and raises an error otherwise.
pub open spec fn outcome(a: Context, b: Context, d: Register, v: Option<int>) -> bool {
    if v is Some && fits(v->Some_0) { stepped(a, b, d, (v->Some_0 as i32) as u64) } else { failed(a, b) }
}

/// Powers: what the standard library documents.
pub assume_specification [i32::checked_pow] (a: i32, b: u32) -> (r: Option<i32>)
    ensures
        fits(power(a as int, b as nat)) ==> r is Some && r->Some_0 == power(a as int, b as nat),
        !fits(power(a as int, b as nat)) ==> r is None;
"""


def binary(u):
    """The operations on two integers."""
    op(u, "do_binary_integer_op", """        parse.requires((instr,)),
        forall|a: i32, b: i32| op.requires((a, b)),
    ensures
        exists|p: (Register, Register, Register), q: Result<i32, E>|
            #[trigger] parse.ensures((instr,), p)
            && #[trigger] op.ensures((old(self).value(p.1) as i32, old(self).value(p.2) as i32), q)
            && (match q {
                Ok(v) => stepped(*old(self), *final(self), p.0, v as u64),
                Err(_) => failed(*old(self), *final(self)),
            }),
""")


def predicate(u, kind, t, value):
    op(u, "do_binary_%s_op" % kind, """        parse.requires((instr,)),
        forall|a: %s, b: %s| op.requires((a, b)),
    ensures
        exists|p: (Register, Register, Register), x: %s, y: %s, q: bool|
            #[trigger] parse.ensures((instr,), p)
            && #[trigger] op.ensures((x, y), q)
            && x == (%s)
            && y == (%s)
            && stepped(*old(self), *final(self), p.0, if q { 1 } else { 0 }),
""" % (t, t, t, t, value % 1, value % 2))


SHIFTS = """
pub assume_specification [i32::checked_shl] (a: i32, b: u32) -> (r: Option<i32>)
    ensures r == (if b < 32 { Some(a << b) } else { None });

pub assume_specification [i32::checked_shr] (a: i32, b: u32) -> (r: Option<i32>)
    ensures r == (if b < 32 { Some(a >> b) } else { None });

/// Zeros enter from the right.
pub open spec fn left(a: i32, n: int) -> i32 { if n >= 32 { 0 } else { a << (n as u32) } }

/// Copies of the sign enter from the left.
pub open spec fn right(a: i32, n: int) -> i32 {
    if n >= 32 { if a < 0 { -1i32 } else { 0 } } else { a >> (n as u32) }
}

/// An instruction writes a value if there is one and raises an error otherwise.
pub open spec fn yields(a: Context, b: Context, d: Register, v: Option<i32>) -> bool {
    if v is Some { stepped(a, b, d, v->Some_0 as u64) } else { failed(a, b) }
}
"""


def bits(u):
    """P02: bit by bit."""
    types(u)
    u.add(SHIFTS)
    context = File(CONTEXT)
    for name, contract in [
        ("checked_and_integer", "r == Ok::<i32, &'static str>(lhs & rhs)"),
        ("checked_or_integer", "r == Ok::<i32, &'static str>(lhs | rhs)"),
        ("checked_xor_integer", "r == Ok::<i32, &'static str>(lhs ^ rhs)"),
        ("checked_shl_integer", "rhs < 0 ==> r is Err, rhs >= 0 ==> r == Ok::<i32, String>(left(lhs, rhs as int))"),
        ("checked_shr_integer", "rhs < 0 ==> r is Err, rhs >= 0 ==> r == Ok::<i32, String>(right(lhs, rhs as int))"),
    ]:
        u.fn(context, name, contract="    ensures " + contract, subst=OPAQUE)
    u.add("impl Context {")
    binary(u)
    for name, parse, value in [
        ("do_bitwise_and", "bitwise_and", "Some(x & y)"),
        ("do_bitwise_or", "bitwise_or", "Some(x | y)"),
        ("do_bitwise_xor", "bitwise_xor", "Some(x ^ y)"),
        ("do_shift_left", "shift_left", "if y < 0 { None } else { Some(left(x, y as int)) }"),
        ("do_shift_right", "shift_right", "if y < 0 { None } else { Some(right(x, y as int)) }"),
    ]:
        op(u, name, """    ensures ({
        let (d, a, b) = bytecode::%s_args(instr);
        let (x, y) = (old(self).value(a) as i32, old(self).value(b) as i32);
        yields(*old(self), *final(self), d, %s)
    }),
""" % (parse, value))
    op(u, "do_bitwise_not", """    ensures ({
        let d = bytecode::bitwise_not_args(instr);
        stepped(*old(self), *final(self), d, (!(old(self).value(d) as i32)) as u64)
    }),
""")
    u.add("}\n}\nfn main() {}")


def predicates(u):
    """P04: comparisons of integers and booleans."""
    types(u)
    u.add("impl Context {")
    predicate(u, "integer_predicate", "i32", "old(self).value(p.%d) as i32")
    predicate(u, "boolean", "bool", "truth(old(self).value(p.%d))")
    for name, parse, test in [
        ("do_equal_integer", "equal_integer", "x == y"), ("do_not_equal_integer", "not_equal_integer", "x != y"),
        ("do_less_integer", "less_integer", "x < y"), ("do_less_equal_integer", "less_equal_integer", "x <= y"),
        ("do_greater_integer", "greater_integer", "x > y"),
        ("do_greater_equal_integer", "greater_equal_integer", "x >= y"),
        ("do_equal_boolean", "equal_boolean", "(x != 0) == (y != 0)"),
        ("do_not_equal_boolean", "not_equal_boolean", "(x != 0) != (y != 0)"),
    ]:
        t = "i32" if "integer" in name else "bool"
        value = "old(self).int(%s)" if t == "i32" else "old(self).value(%s)"
        op(u, name, """    ensures ({
        let (d, a, b) = bytecode::%s_args(instr);
        let (x, y) = (%s, %s);
        stepped(*old(self), *final(self), d, if %s { 1 } else { 0 })
    }),
""" % (parse, value % "a", value % "b", test), rewrite=closures(t))
    u.add("}\n}\nfn main() {}")



MEMORY = """
/// Position of an element: the first subscript varies fastest.
pub open spec fn position(s: Seq<int>, d: Seq<usize>) -> int
    decreases d.len(),
{
    if d.len() == 0 || s.len() != d.len() { 0 } else {
        position(s.drop_last(), d.drop_last()) + s.last() * volume(d.drop_last())
    }
}

/// Number of elements of an array.
pub open spec fn volume(d: Seq<usize>) -> int
    decreases d.len(),
{
    if d.len() == 0 { 1 } else { volume(d.drop_last()) * d.last() }
}

pub open spec fn within(s: Seq<int>, d: Seq<usize>) -> bool {
    s.len() == d.len() && forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < d[i]
}

pub open spec fn positive(d: Seq<usize>) -> bool {
    forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] > 0
}

/// The value of a pointer to an entry of the heap.
pub open spec fn pointer(i: int) -> u64 { ((-i - 1) as i32) as u64 }

/// What a pointer leads to: an entry of the heap below zero, and a constant otherwise.
pub open spec fn signed(v: u64) -> int { (v as i32) as int }
pub open spec fn is_pointer(v: u64) -> bool { -0x100_0000 <= signed(v) < 0x100_0000 }
pub open spec fn entry(v: u64) -> int { -signed(v) - 1 }

proof fn pointers(i: int)
    requires 0 <= i < 0x100_0000
    ensures is_pointer(pointer(i)), signed(pointer(i)) < 0, entry(pointer(i)) == i
{
    let v = (-i - 1) as i32;
    assert((v as u64) as i32 == v) by (bit_vector);
}

/// Subscripts as integers.
pub open spec fn integers_of(s: Seq<i32>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }

pub open spec fn integers_from(s: Seq<usize>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }

proof fn positions(s: Seq<int>, d: Seq<usize>)
    requires within(s, d), positive(d)
    ensures 0 <= position(s, d) < volume(d)
    decreases d.len()
{
    if d.len() > 0 {
        let (s0, d0) = (s.drop_last(), d.drop_last());
        assert forall|i: int| 0 <= i < s0.len() implies 0 <= #[trigger] s0[i] < d0[i] by { assert(s0[i] == s[i]); }
        assert forall|i: int| 0 <= i < d0.len() implies #[trigger] d0[i] > 0 by { assert(d0[i] == d[i]); }
        positions(s0, d0);
        let (v, n, k) = (volume(d0), d.last() as int, s.last());
        assert(0 <= s[s.len() - 1] < d[s.len() - 1]);
        assert(k * v >= 0 && k * v + v <= n * v) by (nonlinear_arith) requires 0 <= k < n, v >= 0;
        assert(v * n == n * v) by (nonlinear_arith);
    }
}

/// Every combination of subscripts has an element of its own.
proof fn elements_are_apart(s: Seq<int>, t: Seq<int>, d: Seq<usize>)
    requires within(s, d), within(t, d), positive(d), position(s, d) == position(t, d)
    ensures s == t
    decreases d.len()
{
    if d.len() > 0 {
        let (s0, t0, d0) = (s.drop_last(), t.drop_last(), d.drop_last());
        assert forall|i: int| 0 <= i < s0.len() implies 0 <= #[trigger] s0[i] < d0[i] by { assert(s0[i] == s[i]); }
        assert forall|i: int| 0 <= i < t0.len() implies 0 <= #[trigger] t0[i] < d0[i] by { assert(t0[i] == t[i]); }
        assert forall|i: int| 0 <= i < d0.len() implies #[trigger] d0[i] > 0 by { assert(d0[i] == d[i]); }
        positions(s0, d0);
        positions(t0, d0);
        let v = volume(d0);
        let (a, b) = (position(s0, d0), position(t0, d0));
        assert(s.last() == t.last()) by (nonlinear_arith)
            requires a + s.last() * v == b + t.last() * v, 0 <= a < v, 0 <= b < v;
        elements_are_apart(s0, t0, d0);
        assert(s =~= s0.push(s.last()));
        assert(t =~= t0.push(t.last()));
    }
    assert(s =~= t);
}

proof fn volumes(d: Seq<usize>, n: int)
    requires positive(d), 0 <= n <= d.len()
    ensures 1 <= volume(d.take(n)) <= volume(d), volume(d.take(n)) == volume(d) || n < d.len()
    decreases d.len()
{
    if n == d.len() {
        assert(d.take(n) =~= d);
        if n > 0 {
            let e = d.drop_last();
            assert forall|i: int| 0 <= i < e.len() implies #[trigger] e[i] > 0 by { assert(e[i] == d[i]); }
            volumes(e, n - 1);
            assert(d[n - 1] > 0);
            let (v, k) = (volume(e), d.last() as int);
            assert(v * k >= 1) by (nonlinear_arith) requires v >= 1, k >= 1;
        }
    } else {
        let e = d.drop_last();
        assert forall|i: int| 0 <= i < e.len() implies #[trigger] e[i] > 0 by { assert(e[i] == d[i]); }
        volumes(e, n);
        assert(e.take(n) =~= d.take(n));
        assert(d[d.len() - 1] > 0);
        let (v, k) = (volume(e), d.last() as int);
        assert(v * k >= v) by (nonlinear_arith) requires v >= 1, k >= 1;
    }
}
"""

WELL = """
impl ArrayData {
    pub open spec fn wf(&self) -> bool {
        &&& positive(self.dimensions@)
        &&& volume(self.dimensions@) == self.values.len()
    }
}

impl Heap {
    pub open spec fn wf(&self) -> bool {
        &&& 0 < self.data.len() <= 0x100_0000
        &&& self.max_entries.0 <= 0x100_0000
        &&& self.data[0] is Text && self.data[0]->Text_0@ == Seq::<char>::empty()
        &&& forall|i: int| 0 <= i < self.data.len() && self.data[i] is Array ==> (#[trigger] self.data[i])->Array_0.wf()
    }

    pub open spec fn is_array(&self, v: u64) -> bool {
        signed(v) < 0 && 0 <= entry(v) < self.data.len() && self.data[entry(v)] is Array
    }

    pub open spec fn array(&self, v: u64) -> ArrayData { self.data[entry(v)]->Array_0 }
}

/// A register leads to a text.
pub open spec fn is_text(v: u64, constants: Seq<ConstantDatum>, heap: Heap) -> bool { is_text_at(signed(v), constants, heap) }

pub open spec fn text(v: u64, constants: Seq<ConstantDatum>, heap: Heap) -> Seq<char> { text_at(signed(v), constants, heap) }

pub open spec fn is_text_at(i: int, constants: Seq<ConstantDatum>, heap: Heap) -> bool {
    &&& -0x100_0000 <= i < 0x100_0000
    &&& if i < 0 { -i - 1 < heap.data.len() && heap.data[-i - 1] is Text } else { i < constants.len() && constants[i] is Text }
}

pub open spec fn text_at(i: int, constants: Seq<ConstantDatum>, heap: Heap) -> Seq<char> {
    if i < 0 { heap.data[-i - 1]->Text_0@ } else { constants[i]->Text_0@ }
}

/// The heap only grows: texts stay, and arrays keep their size.
pub open spec fn grown(a: Heap, b: Heap) -> bool {
    &&& a.data.len() <= b.data.len()
    &&& b.max_entries == a.max_entries
    &&& forall|i: int| 0 <= i < a.data.len() && a.data[i] is Text ==> #[trigger] b.data[i] == a.data[i]
    &&& forall|i: int| 0 <= i < a.data.len() && a.data[i] is Array ==>
        (#[trigger] b.data[i]) is Array && b.data[i]->Array_0.dimensions@ == a.data[i]->Array_0.dimensions@
}

impl Context {
    /// The subscripts, or the dimensions, that an instruction finds in registers.
    pub open spec fn operands(&self, first: Register, n: int) -> Seq<int> {
        Seq::new(n as nat, |i: int| ((self.at(self.fp + first.number() + i)) as i32) as int)
    }

    /// What the compiler guarantees of the operands of an access to an array.
    pub open spec fn accesses(&self, heap: Heap, array: Register, first: Register) -> bool {
        &&& heap.wf()
        &&& heap.is_array(self.value(array))
        &&& first.is_local()
        &&& first.number() + heap.array(self.value(array)).dimensions.len() <= 192
    }
}

/// The default of a type.
pub open spec fn zero(t: ExprType) -> u64 { if t is Text { pointer(0) } else { 0 } }
"""


def macro(file, arm, name, source, to, subst=()):
    """Expands an arm of the macro for unchecked conversions."""
    text = file.text[file.text.index("( $name:ident, $from_ty:ty, $to_ty:ty, %s ) => {" % arm):]
    text = text[text.index("=> {") + 4:]
    text = text[text.index("pub(crate)") + 11:]
    text = text[:closing(blank(text), text.index("{")) + 1]
    for a, b in (("$name", name), ("$from_ty", source), ("$to_ty", to)):
        text = text.replace(a, b)
    return File(file.path, text)


RESULTS = [
    (r"\bSelf::Error\b", "()", "the type of errors of the trait TryFrom is spelled out"),
]

# Functions of traits become functions of the type.
TRAITS = [
    (r"\bDatumPtr::from\(", "DatumPtr::decode(", "functions of traits are functions of the type"),
    (r"\bU24::try_from\(self\.len\(\)\)", "U24::from_usize(self.len())", "functions of traits are functions of the type"),
    (r"\bU24::try_from\(", "U24::from_u32(", "functions of traits are functions of the type"),
    (r"u32::from\(index\)", "index.0", "functions of traits are functions of the type"),
    (r"\|_\|", "|_e|", "an unused argument has a name"),
    (r"unreachable!\([^)]*\)", "vstd::pervasive::unreached()", "unreachable! is an obligation"),
    (r"panic!\([^)]*\)", "vstd::pervasive::unreached()", "panic! is an obligation"),
    (r"debug_assert_eq!\(\s*([\w.()]+),\s*([\w.()]+),\s*\"[^\"]*\"\s*\);", r"assert(\1 == \2);", "debug_assert_eq! is an obligation"),
    (r"debug_assert!\(matches!\(self\.data\.first\(\), Some\(HeapDatum::Text\(s\)\) if s\.is_empty\(\)\)\);",
     "assert(self.data.len() > 0 && self.data[0] is Text && self.data[0]->Text_0@.len() == 0);", "debug_assert! is an obligation"),
    (r"match (\w+) \{\s*Some\((\w+)\) if \w+\.try_reserve_exact\(\2\)\.is_ok\(\) =>", r"match reserved(\1) { Some(\2) =>",
     "whether memory can be reserved is arbitrary"),
    (r"HeapOverflowError\.to_string\(\)", 'text_of("")', "the text of errors is not specified"),
    (r"lhs \+ rhs", "joined(lhs, rhs)", "the concatenation of the standard library is assumed"),
    (r"\bpub\(crate\) ", "pub ", "visibility"),
]


def memory(u):
    """The heap and what leads to it."""
    mem, num = File("core/src/mem.rs"), File("core/src/num.rs")
    u.add(MEMORY)
    u.add("#[derive(Clone, Copy)]\n" + public(num.item("struct", "U24")))
    for kind, name in (("struct", "ArrayData"), ("enum", "ConstantDatum"), ("enum", "HeapDatum"), ("struct", "HeapOverflowError"),
                       ("struct", "Heap"), ("enum", "DatumPtr")):
        u.add(("#[derive(Clone, Copy)]\n" if name == "DatumPtr" else "") + public(mem.item(kind, name)))
    u.add(WELL)
    u.add("""
impl PackedArrayType {
    pub open spec fn dims(self) -> int { (self.0 & 0x0f) as int }
    pub uninterp spec fn of(self) -> ExprType;

    /// The type of the elements; decoding it is checked for every value by Kani under P05.
    #[verifier::external_body]
    pub fn subtype(self) -> (r: ExprType) ensures r == self.of() { unimplemented!() }
}

/// Whether assertions are enabled.
#[verifier::external_body]
fn asserting() -> bool { unimplemented!() }

#[verifier::external_body]
fn joined(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }

#[verifier::external_body]
fn reserved(n: Option<usize>) -> (r: Option<usize>) ensures r is None || r == n { unimplemented!() }
""")
    asserting = (r"cfg!\(debug_assertions\)", "asserting()", "assertions may be enabled or not")
    u.add("impl U24 {")
    u.fn(num, "try_from", within="impl TryFrom<u32> for U24", rename="from_u32", subst=RESULTS, start="proof { assert(1u32 << 24u32 == 0x100_0000u32) by (bit_vector); }", contract="""
    ensures r == (if value < 0x100_0000 { Ok::<U24, ()>(U24(value)) } else { Err(()) }),
""")
    u.fn(num, "try_from", within="impl TryFrom<usize> for U24", rename="from_usize", subst=RESULTS, start="proof { assert(1usize << 24usize == 0x100_0000usize) by (bit_vector); }", contract="""
    ensures r == (if value < 0x100_0000 { Ok::<U24, ()>(U24(value as u32)) } else { Err(()) }),
""")
    u.add("}")
    u.fn(num, "try_from", within="impl TryFrom<U24> for usize", rename="usize_of", subst=[
        (r"\bSelf::Error\b", "std::num::TryFromIntError", "the type of errors of the trait TryFrom is spelled out"),
        (r"\bSelf\b", "usize", "functions of traits are free functions"),
    ], contract="    ensures r is Ok && r->Ok_0 == value.0,")
    u.fn(macro(num, "user_defined", "unchecked_u24_as_usize", "U24", "usize"), "unchecked_u24_as_usize", contract="    ensures r == value.0,",
         subst=[asserting, (r"<usize>::try_from\(value\)", "usize_of(value)", "functions of traits are free functions"),
                (r"<usize>::unchecked_from\(value\)", "(value.0 as usize)", "the cast that is not checked is in place of its function")])
    u.fn(macro(num, "primitive", "unchecked_usize_as_u8", "usize", "u8"), "unchecked_usize_as_u8",
         contract="    requires value <= 255\n    ensures r == value,", subst=[asserting])
    u.add("impl PackedArrayType {")
    u.fn(File(BYTECODE), "ndims", within="impl PackedArrayType", subst=TRAITS, contract="    ensures r == self.dims(), r <= 15,",
         start="proof { let v = self.0; assert(v & 0x0f <= 15) by (bit_vector); }")
    u.add("}")
    u.add("impl DatumPtr {")
    u.add("""
    pub open spec fn leads(self) -> int {
        match self { DatumPtr::Constant(i) => i.0 as int, DatumPtr::Heap(i) => -(i.0 as int) - 1 }
    }
""")
    u.fn(mem, "from", within="impl From<u64> for DatumPtr", rename="decode", subst=TRAITS, contract="""
    requires is_pointer(value)
    ensures r.leads() == signed(value), r is Heap == (signed(value) < 0),
""")
    u.fn(mem, "for_heap", within="impl DatumPtr", subst=TRAITS, contract="""
    requires index < 0x100_0000
    ensures r == pointer(index as int),
""")
    u.fn(mem, "heap_index", within="impl DatumPtr", subst=TRAITS, contract="""
    requires self is Heap
    ensures r == -self.leads() - 1,
""")
    u.fn(mem, "resolve_string", within="impl DatumPtr", subst=TRAITS, contract="""
    requires
        self is Heap == (self.leads() < 0),
        is_text_at(self.leads(), constants@, *heap),
    ensures r@ == text_at(self.leads(), constants@, *heap),
""")
    u.add("}")
    u.add("impl ArrayData {")
    flat_index(u)
    u.add("}")
    u.add("impl Heap {")
    u.fn(mem, "len", within="impl Heap", subst=TRAITS, contract="    ensures r == self.data.len(),")
    u.fn(mem, "empty_text_ptr", within="impl Heap", subst=TRAITS, contract="    requires self.wf()\n    ensures r == pointer(0),")
    u.fn(mem, "push", within="impl Heap", subst=TRAITS, contract="""
    requires
        old(self).wf(),
        datum is Array ==> datum->Array_0.wf(),
    ensures
        final(self).wf(),
        grown(*old(self), *final(self)),
        // What is there stays.
        forall|i: int| 0 <= i < old(self).data.len() ==> #[trigger] final(self).data[i] == old(self).data[i],
        r is Err ==> final(self).data@ == old(self).data@ && old(self).data.len() >= old(self).max_entries.0,
        r is Ok && datum is Text && datum->Text_0@.len() == 0 ==> r->Ok_0 == pointer(0) && final(self).data@ == old(self).data@,
        r is Ok && !(datum is Text && datum->Text_0@.len() == 0) ==>
            r->Ok_0 == pointer(old(self).data.len() as int) && final(self).data@ == old(self).data@.push(datum),
        r is Ok ==> signed(r->Ok_0) < 0 && entry(r->Ok_0) < final(self).data.len(),
""", start="proof { pointers(0); if self.data.len() < 0x100_0000 { pointers(self.data.len() as int); } }")
    u.fn(mem, "get", within="impl Heap", subst=TRAITS, contract="    requires index < self.data.len()\n    ensures *r == self.data[index as int],")
    u.fn(mem, "get_mut", within="impl Heap", subst=TRAITS, contract="""
    requires index < old(self).data.len()
    ensures
        *r == old(self).data[index as int],
        final(self).data@ == old(self).data@.update(index as int, *final(r)),
        final(self).max_entries == old(self).max_entries,
""")
    u.add("}")


def flat_index(u):
    u.fn(File("core/src/mem.rs"), "flat_index", within="impl ArrayData", subst=TRAITS + OPAQUE + [
        (r"\*= d;", "*= *d;", "the operand of an assignment is dereferenced"),
    ], contract="""
    requires
        self.wf(),
        subscripts.len() == self.dimensions.len(),
    ensures
        r is Ok == within(integers_of(subscripts@), self.dimensions@),
        r is Ok ==> r->Ok_0 == position(integers_of(subscripts@), self.dimensions@) && r->Ok_0 < self.values.len(),
""", start="""
        let ghost gs = integers_of(subscripts@);
        let ghost gd = self.dimensions@;
        proof { assert(gs.take(0) =~= Seq::<int>::empty()); }
""", loops=[("it", """
        invariant
            self.wf(),
            gs == integers_of(subscripts@),
            gd == self.dimensions@,
            gs.len() == gd.len(),
            it.seq().len() == gd.len(),
            within(gs.take(it.index()), gd.take(it.index())),
            offset == position(gs.take(it.index()), gd.take(it.index())),
            multiplier == volume(gd.take(it.index())),
""")], loop_start={0: """
            proof {
                let i = it.index();
                let (s1, d1) = (gs.take(i + 1), gd.take(i + 1));
                assert(s1.drop_last() =~= gs.take(i));
                assert(d1.drop_last() =~= gd.take(i));
                volumes(gd, i + 1);
                volumes(gd, i);
                assert(volume(d1) == volume(gd.take(i)) * gd[i]);
                assert(volume(gd) == self.values.len());
                assert(multiplier * gd[i] == volume(d1)) by (nonlinear_arith) requires multiplier == volume(gd.take(i)), volume(d1) == volume(gd.take(i)) * gd[i];
                assert(gs[i] == subscripts[i]);
                if 0 <= gs[i] < gd[i] {
                    assert forall|k: int| 0 <= k < s1.len() implies 0 <= #[trigger] s1[k] < d1[k] by {
                        if k < i { assert(gs.take(i)[k] == s1[k] && gd.take(i)[k] == d1[k]); }
                    }
                    assert forall|k: int| 0 <= k < d1.len() implies #[trigger] d1[k] > 0 by { assert(d1[k] == gd[k]); }
                    positions(s1, d1);
                    assert(position(s1, d1) == offset + gs[i] * multiplier);
                    assert(0 <= gs[i] * multiplier) by (nonlinear_arith) requires 0 <= gs[i], 0 <= multiplier;
                }
            }
"""}, loop_after={0: """
        proof {
            assert(gs.take(gs.len() as int) =~= gs);
            assert(gd.take(gd.len() as int) =~= gd);
            positions(gs, gd);
        }
"""})


def arrays(u):
    """P06: elements of arrays."""
    types(u)
    memory(u)
    u.add("""
/// What is stored is read, and no other element changes.
proof fn storing(a: Seq<u64>, d: Seq<usize>, s: Seq<int>, t: Seq<int>, v: u64)
    requires within(s, d), within(t, d), positive(d), volume(d) == a.len()
    ensures ({
        let b = a.update(position(s, d), v);
        &&& b[position(s, d)] == v
        &&& s != t ==> b[position(t, d)] == a[position(t, d)]
    })
{
    positions(s, d);
    positions(t, d);
    if position(s, d) == position(t, d) { elements_are_apart(s, t, d); }
}
impl Context {
""")
    instructions_on_arrays(u)
    u.add("}\n}\nfn main() {}")


ALLOC = dict(subst=TRAITS + [
        (r"\|total\| total\.checked_mul\(dim\)", "|total: usize| -> (q: Option<usize>) ensures q == (if total * dim <= usize::MAX"
         " { Some((total * dim) as usize) } else { None }) { total.checked_mul(dim) }",
         "a closure gets the contract that it returns the value of its expression"),
    ], loops=[("it", """
        invariant
            *self == *old(self),
            self.wf(),
            *heap == *old(heap),
            heap.wf(),
            it.seq().len() == ndims,
            ndims <= 15,
            first_dim_reg.is_local(),
            first_idx == first_dim_reg.number(),
            first_idx + ndims <= 192,
            dimensions.len() == it.index(),
            forall|k: int| 0 <= k < dimensions.len() ==> #[trigger] dimensions[k] == self.operands(first_dim_reg, ndims as int)[k],
            positive(dimensions@),
            total is Some ==> total->Some_0 == volume(dimensions@),
            total is None ==> volume(dimensions@) > usize::MAX,
""")], loop_start={0: "let ghost ghost_dims = dimensions@;"}, loop_end={0: """
            proof {
                assert(dimensions@.drop_last() =~= ghost_dims);
                assert(dimensions@ == ghost_dims.push(dim));
                assert(forall|k: int| 0 <= k < ghost_dims.len() ==> dimensions@[k] == ghost_dims[k]);
                let (v, n) = (volume(ghost_dims), dim as int);
                volumes(ghost_dims, ghost_dims.len() as int);
                assert(v * n >= v) by (nonlinear_arith) requires n >= 1, v >= 0;
            }
"""}, loop_after={0: """
        proof {
            assert(integers_from(dimensions@) =~= self.operands(first_dim_reg, ndims as int));
        }
"""})


def resolve(u):
    context = File(CONTEXT)
    u.fn(context, "resolve_array_index", within="impl Context", subst=TRAITS + OPAQUE, contract="""
    requires
        old(self).wf(),
        old(self).accesses(*heap, arr_reg, first_sub_reg),
    ensures ({
        let v = old(self).value(arr_reg);
        let a = heap.array(v);
        let s = old(self).operands(first_sub_reg, a.dimensions.len() as int);
        if within(s, a.dimensions@) {
            &&& r == Some((entry(v) as usize, position(s, a.dimensions@) as usize))
            &&& 0 <= position(s, a.dimensions@) < a.values.len()
            &&& *final(self) == *old(self)
        } else {
            &&& r is None
            &&& exception(*final(self), old(self).pc)
            &&& final(self).regs@ == old(self).regs@
            &&& final(self).call_stack@ == old(self).call_stack@
            &&& *final(self) == (Context { stop: final(self).stop, regs: final(self).regs, call_stack: final(self).call_stack, ..*old(self) })
        }
    }),
""", loops=[("it", """
        invariant
            self.wf(),
            *self == *old(self),
            ndims <= 192,
            first_sub_reg.is_local(),
            first_idx == first_sub_reg.number(),
            first_idx + ndims <= 192,
            it.seq().len() == ndims,
            subscripts.len() == it.index(),
            forall|k: int| 0 <= k < it.index() ==> #[trigger] subscripts[k] == self.operands(first_sub_reg, ndims as int)[k],
""")], loop_after={0: """
        proof {
            let s = self.operands(first_sub_reg, ndims as int);
            assert(integers_of(subscripts@) =~= s);
            if within(s, array.dimensions@) { positions(s, array.dimensions@); }
        }
"""})


def instructions_on_arrays(u):
    context = File(CONTEXT)
    resolve(u)
    op(u, "do_alloc_array", """        old(heap).wf(),
        ({
            let (d, p, first) = bytecode::alloc_array_args(instr);
            first.is_local() && first.number() + p.dims() <= 192
        }),
    ensures
        final(heap).wf(),
        ({
            let (d, p, first) = bytecode::alloc_array_args(instr);
            let s = old(self).operands(first, p.dims());
            let n = old(heap).data.len() as int;
            ||| failed(*old(self), *final(self)) && final(heap).data@ == old(heap).data@
            ||| {
                &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] > 0
                &&& stepped(*old(self), *final(self), d, pointer(n))
                &&& final(heap).data.len() == n + 1
                &&& forall|i: int| 0 <= i < n ==> #[trigger] final(heap).data[i] == old(heap).data[i]
                &&& final(heap).max_entries == old(heap).max_entries
                &&& final(heap).data[n] is Array
                &&& integers_from(final(heap).data[n]->Array_0.dimensions@) == s
                &&& forall|i: int| 0 <= i < final(heap).data[n]->Array_0.values.len() ==> #[trigger] final(heap).data[n]->Array_0.values[i] == zero(p.of())
            }
        }),
""", **ALLOC)
    op(u, "do_load_array", """        ({
            let (d, a, s) = bytecode::load_array_args(instr);
            old(self).accesses(*heap, a, s)
        }),
    ensures ({
        let (d, a, f) = bytecode::load_array_args(instr);
        let array = heap.array(old(self).value(a));
        let s = old(self).operands(f, array.dimensions.len() as int);
        if within(s, array.dimensions@) {
            stepped(*old(self), *final(self), d, array.values[position(s, array.dimensions@)])
        } else {
            failed(*old(self), *final(self))
        }
    }),
""", subst=TRAITS)
    op(u, "do_store_array", """        ({
            let (a, v, s) = bytecode::store_array_args(instr);
            old(self).accesses(*old(heap), a, s)
        }),
    ensures
        final(heap).wf(),
        ({
        let (a, v, f) = bytecode::store_array_args(instr);
        let p = old(self).value(a);
        let array = old(heap).array(p);
        let s = old(self).operands(f, array.dimensions.len() as int);
        if within(s, array.dimensions@) {
            &&& final(heap).data.len() == old(heap).data.len()
            &&& final(heap).max_entries == old(heap).max_entries
            // Other arrays and texts stay.
            &&& forall|i: int| 0 <= i < old(heap).data.len() && i != entry(p) ==> #[trigger] final(heap).data[i] == old(heap).data[i]
            &&& final(heap).is_array(p)
            &&& final(heap).array(p).dimensions@ == array.dimensions@
            &&& final(heap).array(p).values@ == array.values@.update(position(s, array.dimensions@), old(self).value(v))
            &&& final(self).regs@ == old(self).regs@
            &&& same_frames(*old(self), *final(self))
            &&& final(self).stop is None
            &&& final(self).pc == old(self).pc + 1
        } else {
            failed(*old(self), *final(self)) && *final(heap) == *old(heap)
        }
    }),
""", subst=TRAITS)


DOUBLES = [
    (r"f64::from_bits\(([^;]*)\)\.round\(\)", r"rounded(f64::from_bits(\1))", "the rounding of doubles is not specified here"),
    (r"if dvalue\.is_finite\(\)[^{]*\{", "if representable(dvalue) {", "which doubles are in range is not specified here"),
    (r"\(dvalue as i32\)", "truncated(dvalue)", "the conversion of doubles is not specified here"),
    (r"\((\w+) as f64\)", r"real(\1)", "the conversion of integers to doubles is not specified here"),
]

DATA = """
#[verifier::external_body]
fn rounded(v: f64) -> f64 { unimplemented!() }
#[verifier::external_body]
fn representable(v: f64) -> bool { unimplemented!() }
#[verifier::external_body]
fn truncated(v: f64) -> i32 { unimplemented!() }
#[verifier::external_body]
fn real(v: i32) -> f64 { unimplemented!() }

/// What the compiler guarantees of the operands of an instruction.
pub open spec fn typed(c: Context, heap: Heap, constants: Seq<ConstantDatum>, p: (Register, Register, Register)) -> bool {
    is_text(c.value(p.1), constants, heap) && is_text(c.value(p.2), constants, heap)
}

/// An instruction that fails does nothing but saying so, and where.
pub open spec fn clean(a: Context, b: Context) -> bool {
    b.stop is Some && b.stop->Some_0 is Exception ==> failed(a, b)
}

impl Register {
    pub open spec fn tagged(self, fp: int, t: ExprType) -> u64 {
        ((t as u8) as u64) << 32 | ((if self.is_local() { fp + self.number() } else { self.number() }) as u32) as u64
    }
}
"""

# What the compiler guarantees of the operands of each instruction that is not at home with any.
TYPED = {
    "do_alloc": "old(heap).wf()",
    "do_alloc_array": "old(heap).wf(), bytecode::alloc_array_args(instr).2.is_local(),"
    " bytecode::alloc_array_args(instr).2.number() + bytecode::alloc_array_args(instr).1.dims() <= 192",
    "do_load_array": "old(self).accesses(*heap, bytecode::load_array_args(instr).1, bytecode::load_array_args(instr).2)",
    "do_store_array": "old(self).accesses(*old(heap), bytecode::store_array_args(instr).0, bytecode::store_array_args(instr).2)",
    "do_concat": "old(heap).wf(), typed(*old(self), *old(heap), constants@, bytecode::concat_args(instr))",
    "do_load_constant": "bytecode::load_constant_args(instr).1 < constants.len(),"
    " !(constants[bytecode::load_constant_args(instr).1 as int] is Boolean), !(constants[bytecode::load_constant_args(instr).1 as int] is Text)",
    "do_binary_text_op": "forall|p: (Register, Register, Register)| #[trigger] parse.ensures((instr,), p) ==> typed(*old(self), *heap, constants@, p)",
}
for _n in ("equal", "not_equal", "less", "less_equal", "greater", "greater_equal"):
    TYPED["do_%s_text" % _n] = "typed(*old(self), *heap, constants@, bytecode::%s_text_args(instr))" % _n
del _n


def tagged(u):
    """References to registers, and codes of exits."""
    bytecode = File(BYTECODE)
    u.add("impl ExitCode {")
    u.fn(bytecode, "try_new", within="impl ExitCode", subst=TRAITS, contract="""
    ensures
        0 <= value <= 127 ==> r is Ok && r->Ok_0.0 == value,
        !(0 <= value <= 127) ==> r is Err,
""")
    u.fn(bytecode, "try_from", within="impl TryFrom<i32> for ExitCode", rename="convert", subst=[
        (r"\bSelf::Error\b", "InvalidExitCodeError", "the type of errors of the trait TryFrom is spelled out")], contract="""
    ensures
        0 <= value <= 127 ==> r is Ok && r->Ok_0.0 == value,
        !(0 <= value <= 127) ==> r is Err,
""")
    u.add("}")
    u.add(public(File(BYTECODE).item("struct", "TaggedRegisterRef")))
    u.add("impl TaggedRegisterRef {")
    u.fn(File(BYTECODE), "new", within="impl TaggedRegisterRef", contract="""
    requires fp <= 0xffff_fe00
    ensures r.0 == reg.tagged(fp as int, vtype),
""", subst=TRAITS)
    u.fn(File(BYTECODE), "as_u64", within="impl TaggedRegisterRef", contract="    ensures r == self.0,", subst=TRAITS)
    u.add("}")


def every(u, contract, helper, special=None, heap="final(heap).wf()"):
    """Adds all instructions with one contract."""
    file = File(CONTEXT)
    special = special or {}
    u.add("}")
    tagged(u)
    for m in re.finditer(r"(?m)^fn (checked_\w+_integer)\(", file.code):
        u.fn(file, m.group(1), assumed=True)
    u.add("impl Context {")
    u.fn(file, "deref_string", within="impl Context", subst=TRAITS, contract="""
    requires self.addressable(), is_text(self.value(reg), constants@, *heap)
    ensures r@ == text(self.value(reg), constants@, *heap)
""")
    resolve(u)
    for m in re.finditer(r"\bfn (do_\w+)\s*[<(]", file.code):
        name = m.group(1)
        sig = file.function(name, "impl Context")[0]
        more = {"subst": DOUBLES + TRAITS}
        if "heap: &mut Heap" in sig:
            extra = ", " + heap
        else:
            extra = ""
        ready = "        " + TYPED[name] + ",\n" if name in TYPED else ""
        if name in ("do_alloc_array",):
            more.update(ALLOC)
        if name.startswith("do_binary"):
            t = {"do_binary_integer_op": "i32", "do_binary_integer_predicate_op": "i32", "do_binary_boolean_op": "bool",
                 "do_binary_double_op": "f64", "do_binary_double_predicate_op": "f64", "do_binary_text_op": "&str"}.get(name)
            if t is None:
                raise Lost("fn " + name)
            op(u, name, ready + "        parse.requires((instr,)),\n        forall|a: %s, b: %s| op.requires((a, b)),\n    ensures %s" % (t, t, helper), **more)
        else:
            if name not in special and contract is None:
                raise Lost("the contract of " + name)
            op(u, name, ready + (special.get(name) or "    ensures " + contract) + extra, **more)


PROGRESS = """
/// What keeps a request to interrupt from being forgotten or put off for ever.
pub open spec fn progress(a: Context, b: Context) -> bool {
    // A request stays until it is honoured.
    &&& a.yield_pending ==> b.yield_pending
    &&& b.max_call_stack == a.max_call_stack
    // Execution only goes ahead or deeper until it allows an interruption.
    &&& b.stop is None && !b.yield_pending ==> {
        ||| b.call_stack.len() == a.call_stack.len() && b.pc > a.pc
        ||| b.call_stack.len() == a.call_stack.len() + 1
    }
}

/// Execution continues with the next instruction unless it stops.
pub open spec fn ordinary(a: Context, b: Context) -> bool {
    &&& b.call_stack@ == a.call_stack@
    &&& b.stop is None ==> b.pc == a.pc + 1
}

pub open spec fn enters(a: Context, b: Context, pc: int) -> bool {
    &&& b.stop is Some ==> b.call_stack@ == a.call_stack@
    &&& b.stop is None ==> {
        &&& b.pc == pc
        &&& b.call_stack.len() == a.call_stack.len() + 1
        &&& forall|i: int| 0 <= i < a.call_stack.len() ==> #[trigger] b.call_stack[i] == a.call_stack[i]
        &&& b.call_stack[a.call_stack.len() as int].old_pc == a.pc
    }
}

pub open spec fn leaves(a: Context, b: Context) -> bool {
    &&& b.stop is Some ==> b.call_stack@ == a.call_stack@
    &&& b.stop is None ==> {
        &&& a.call_stack.len() > 0
        &&& b.pc == a.call_stack@.last().old_pc + 1
        &&& b.call_stack@ == a.call_stack@.drop_last()
    }
}
"""

EXEC = """
pub struct InstrMetadata { pub is_stmt_start: bool }
pub struct DebugInfo { pub instrs: Vec<InstrMetadata> }
pub struct Image { pub code: Vec<u32>, pub constants: Vec<ConstantDatum>, pub debug_info: DebugInfo }

pub uninterp spec fn opcode(instr: u32) -> Opcode;

#[verifier::external_body]
pub fn opcode_of(instr: u32) -> (r: Opcode) ensures r == opcode(instr) { unimplemented!() }

/// What the compiler guarantees: no instruction leads out of the program.
pub open spec fn valid(image: Image) -> bool {
    let n = image.code.len();
    &&& 0 < n < 0x1_0000_0000_0000
    &&& image.debug_info.instrs.len() == n
    &&& forall|i: int| 0 <= i < n ==> ({
        let instr = #[trigger] image.code[i];
        match opcode(instr) {
            Opcode::Jump => bytecode::jump_args(instr) < n,
            Opcode::Eof | Opcode::End(..) | Opcode::Return => true,
            Opcode::JumpIfFalse => bytecode::jump_if_false_args(instr).1 < n && i + 1 < n,
            Opcode::Gosub => bytecode::gosub_args(instr) < n && i + 1 < n,
            Opcode::Call => bytecode::call_args(instr).1 < n && i + 1 < n && bytecode::call_args(instr).0.is_local(),
            _ => i + 1 < n,
        }
    })
}

/// Where execution is and where it will return to lie in the program.
pub open spec fn inside(image: Image, c: Context) -> bool {
    &&& c.wf()
    &&& c.stop is None ==> c.pc < image.code.len()
    &&& forall|i: int| 0 <= i < c.call_stack.len() ==> (#[trigger] c.call_stack[i]).old_pc + 1 < image.code.len()
}

/// Whether execution has to stop before the next instruction.
pub open spec fn due(image: Image, c: Context) -> bool {
    c.yield_pending && image.debug_info.instrs[c.pc as int].is_stmt_start
}

/// A run: states in a row without any in which execution had to stop and did not.
pub open spec fn run(image: Image, t: Seq<Context>) -> bool {
    &&& t.len() > 0
    &&& forall|i: int| 0 <= i < t.len() ==> inside(image, #[trigger] t[i])
    &&& forall|i: int| 0 <= i < t.len() - 1 ==> (#[trigger] t[i]).stop is None && !due(image, t[i]) && progress(t[i], t[i + 1])
}

/// How a run ends and what is left: an interruption is at the start of a statement, where the run was.
pub open spec fn ended(image: Image, t: Seq<Context>, c: Context, r: InternalStopReason) -> bool {
    if t.last().stop is Some {
        r == t.last().stop->Some_0 && c == (Context { stop: None, ..t.last() })
    } else {
        due(image, t.last()) && r is Yield && c == (Context { yield_pending: false, ..t.last() })
    }
}

/// How many instructions may still run before an interruption is allowed.
pub open spec fn left(image: Image, c: Context) -> int {
    (c.max_call_stack - c.call_stack.len()) * image.code.len() + (image.code.len() - c.pc)
}

/// No run goes on without allowing an interruption for more instructions than the size of the
/// program times the limit of the stack of calls.
proof fn bounded(image: Image, t: Seq<Context>)
    requires
        valid(image),
        run(image, t),
        forall|i: int| 0 <= i < t.len() ==> !(#[trigger] t[i]).yield_pending && t[i].stop is None,
    ensures
        t.len() <= (t[0].max_call_stack + 1) * image.code.len(),
        t.len() - 1 + left(image, t.last()) <= left(image, t[0]),
    decreases t.len(),
{
    let n = image.code.len() as int;
    let m = t[0].max_call_stack as int;
    assert(inside(image, t[0]));
    assert(inside(image, t.last()));
    if t.len() > 1 {
        let s = t.drop_last();
        assert forall|i: int| 0 <= i < s.len() implies inside(image, #[trigger] s[i]) by { assert(s[i] == t[i]); }
        assert forall|i: int| 0 <= i < s.len() - 1 implies (#[trigger] s[i]).stop is None && !due(image, s[i]) && progress(s[i], s[i + 1]) by {
            assert(s[i] == t[i] && s[i + 1] == t[i + 1]);
        }
        bounded(image, s);
        let a = t[t.len() - 2];
        let b = t.last();
        assert(s.last() == a);
        assert(progress(a, t[t.len() - 2 + 1]));
        let d = a.max_call_stack - a.call_stack.len();
        assert((d - 1) * n == d * n - n) by (nonlinear_arith);
        assert(left(image, b) + 1 <= left(image, a));
    }
    let c = t.last();
    depth(image, t);
    assert(left(image, t.last()) > 0) by {
        assert((c.max_call_stack - c.call_stack.len()) * n >= 0) by (nonlinear_arith)
            requires c.max_call_stack >= c.call_stack.len(), n > 0;
    }
    let k = t[0].call_stack.len() as int;
    assert((m - k) * n <= m * n) by (nonlinear_arith) requires k >= 0, n > 0;
    assert((m + 1) * n == m * n + n) by (nonlinear_arith);
}

/// The limit of the stack of calls stays.
proof fn depth(image: Image, t: Seq<Context>)
    requires run(image, t)
    ensures t.last().max_call_stack == t[0].max_call_stack
    decreases t.len()
{
    if t.len() > 1 {
        let s = t.drop_last();
        assert forall|i: int| 0 <= i < s.len() implies inside(image, #[trigger] s[i]) by { assert(s[i] == t[i]); }
        assert forall|i: int| 0 <= i < s.len() - 1 implies (#[trigger] s[i]).stop is None && !due(image, s[i]) && progress(s[i], s[i + 1]) by {
            assert(s[i] == t[i] && s[i + 1] == t[i + 1]);
        }
        depth(image, s);
        assert(progress(t[t.len() - 2], t[t.len() - 2 + 1]));
        assert(s.last() == t[t.len() - 2]);
    }
}
"""


def split(text):
    """Splits conditions at the commas outside of parentheses."""
    parts, depth, last = [], 0, 0
    for i, c in enumerate(text):
        if c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
        elif c == "," and depth == 0:
            parts.append(text[last:i].strip())
            last = i + 1
    return parts + [text[last:].strip()]


def pauses(u):
    """P11: what can be interrupted, and when."""
    types(u)
    memory(u)
    u.add(DATA)
    u.add(PROGRESS)
    u.add("#[derive(Clone, Copy)]\n" + public(File(BYTECODE).item("enum", "Opcode")))
    u.add(EXEC.replace("Opcode::End(..)", "Opcode::End"))
    u.add("impl Context {")
    start = "    ensures final(self).wf(), progress(*old(self), *final(self)), "
    op(u, "push_frame", """
    ensures
        r == (old(self).call_stack.len() < old(self).max_call_stack),
        !r ==> final(self).stop is Some && final(self).call_stack@ == old(self).call_stack@,
        r ==> final(self).call_stack@ == old(self).call_stack@.push(frame),
        r ==> final(self).stop == old(self).stop,
        *final(self) == (Context { call_stack: final(self).call_stack, stop: final(self).stop, regs: final(self).regs, ..*old(self) }),
""")
    instruction = start + "ordinary(*old(self), *final(self))"
    every(u, instruction[12:], instruction[12:], special={
        "do_jump": start + "final(self).pc == bytecode::jump_args(instr), final(self).call_stack@ == old(self).call_stack@",
        "do_jump_if_false": start + "final(self).call_stack@ == old(self).call_stack@,"
        " final(self).pc == bytecode::jump_if_false_args(instr).1 || final(self).pc == old(self).pc + 1",
        "do_call": "        bytecode::call_args(instr).0.is_local(),\n" + start
        + "enters(*old(self), *final(self), bytecode::call_args(instr).1 as int)",
        "do_gosub": start + "enters(*old(self), *final(self), bytecode::gosub_args(instr) as int)",
        "do_return": start + "leaves(*old(self), *final(self))",
        "do_end": instruction + ", final(self).stop is Some",
        "do_eof": instruction + ", final(self).stop is Some",
    })
    cases = []
    for name, need in TYPED.items():
        if name.startswith("do_binary"):
            continue
        variant = "".join(w.capitalize() for w in name[3:].split("_"))
        need = need.replace("old(self)", "c").replace("*old(heap)", "heap").replace("*heap", "heap").replace("old(heap)", "heap")
        need = need.replace("*c", "c").replace("constants@", "image.constants@").replace(" constants", " image.constants")
        need = re.sub(r"(?<!image\.)\bconstants\b", "image.constants", need)
        cases.append("        Opcode::%s => %s," % (variant, " && ".join("(%s)" % p for p in split(need))))
    u.add("""}
/// What the compiler guarantees of the operands of the instruction that is about to run.
pub open spec fn operands_typed(image: Image, heap: Heap, c: Context) -> bool {
    let instr = image.code[c.pc as int];
    match opcode(instr) {
%s
        _ => true,
    }
}
impl Context {""" % "\n".join(cases))
    u.fn(File(CONTEXT), "exec", within="impl Context", contract="""
    requires valid(*image), inside(*image, *old(self)), old(self).stop is None, old(heap).wf()
    ensures final(heap).wf(),  exists|t: Seq<Context>| #[trigger] run(*image, t) && t[0] == *old(self) && ended(*image, t, *final(self), r)
""", attrs="#[verifier::exec_allows_no_decreases_clause]",
         start="let ghost mut t: Seq<Context> = seq![*self]; let ghost mut done = false;",
         loops=["""
        invariant
            valid(*image),
            heap.wf(),
            run(*image, t),
            t[0] == *old(self),
            done ==> self.stop is Some && ended(*image, t, Context { stop: None, ..*self }, self.stop->Some_0),
            !done ==> t.last() == *self,
"""],
         loop_start={0: "let ghost before = *self; proof { if self.yield_pending && image.debug_info.instrs[self.pc as int].is_stmt_start { done = true; } else { assume(operands_typed(*image, *heap, *self)); } }"},
         loop_end={0: """
            proof {
                assert(progress(before, *self));
                assert(inside(*image, before));
                let k = before.pc as int;
                assert(image.code[k] == image.code@[k]);
                assert forall|i: int| 0 <= i < self.call_stack.len() implies (#[trigger] self.call_stack[i]).old_pc + 1 < image.code.len() by {
                    if i < before.call_stack.len() {
                        assert(before.call_stack[i] == self.call_stack[i]);
                    } else {
                        assert(k + 1 < image.code.len());
                    }
                }
                if before.call_stack.len() > 0 {
                    assert(before.call_stack[before.call_stack.len() - 1].old_pc + 1 < image.code.len());
                }
                assert(self.stop is None ==> self.pc < image.code.len());
                assert(inside(*image, *self));
                let u = t.push(*self);
                assert forall|i: int| 0 <= i < u.len() implies inside(*image, #[trigger] u[i]) by {
                    if i < t.len() { assert(u[i] == t[i]); }
                }
                assert forall|i: int| 0 <= i < u.len() - 1 implies (#[trigger] u[i]).stop is None && !due(*image, u[i]) && progress(u[i], u[i + 1]) by {
                    assert(u[i] == t[i]);
                    if i + 1 < t.len() { assert(u[i + 1] == t[i + 1]); }
                }
                t = u;
            }
"""}, subst=OPAQUE)
    u.add("}\n}\nfn main() {}")


CALLS = """
/// An instruction writes at most one register: a shared one, or one of the current call.
pub open spec fn confined(a: Context, b: Context) -> bool {
    &&& same_frames(a, b)
    &&& b.regs@ == a.regs@ || exists|i: int, v: u64| #[trigger] written(a.regs@, b.regs@, i, v) && (0 <= i < 64 || i >= a.fp)
}

/// A call begins, unless there are too many.
pub open spec fn called(a: Context, b: Context, pc: int, offset: int, ret: Option<Register>) -> bool {
    if a.call_stack.len() >= a.max_call_stack {
        failed(a, b)
    } else {
        &&& b.call_stack@ == a.call_stack@.push(Frame { old_pc: a.pc, old_fp: a.fp, ret_reg: ret })
        &&& b.pc == pc
        &&& b.fp == a.fp + offset
        &&& b.regs@ == a.regs@
        &&& b.max_call_stack == a.max_call_stack
        &&& b.stop is None
    }
}

/// A call ends, unless there is none.
pub open spec fn returned(a: Context, b: Context) -> bool {
    if a.call_stack.len() == 0 {
        failed(a, b)
    } else {
        let f = a.call_stack@.last();
        &&& b.call_stack@ == a.call_stack@.drop_last()
        &&& b.pc == f.old_pc + 1
        &&& b.fp == f.old_fp
        &&& match f.ret_reg {
            // What the caller gets is what the first register of the callee holds.
            Some(r) => written(a.regs@, b.regs@, if r.is_local() { f.old_fp + r.number() } else { r.number() }, a.at(a.fp as int)),
            None => b.regs@ == a.regs@,
        }
        &&& b.max_call_stack == a.max_call_stack
        &&& b.stop is None
    }
}

/// What an instruction may do.
pub open spec fn step(a: Context, b: Context) -> bool {
    ||| confined(a, b)
    ||| exists|pc: int, offset: int, ret: Option<Register>| offset >= 0 && #[trigger] called(a, b, pc, offset, ret)
    ||| returned(a, b)
}

/// Any number of instructions at some depth of calls or deeper.
pub open spec fn history(t: Seq<Context>, depth: int) -> bool {
    &&& t.len() > 0
    &&& t[0].call_stack.len() == depth
    &&& forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).wf() && t[i].call_stack.len() >= depth
    &&& forall|i: int| 0 <= i < t.len() - 1 ==> step(#[trigger] t[i], t[i + 1])
}

/// Variables that are neither shared nor of this call or a later one.
pub open spec fn outer_same(a: Seq<u64>, b: Seq<u64>, fp: int) -> bool {
    forall|k: int| 64 <= k < fp ==> #[trigger] cell(b, k) == cell(a, k)
}

/// Whatever a call does, and whatever it calls, it leaves the variables of its callers alone.
proof fn callers_are_safe(t: Seq<Context>, depth: int)
    requires history(t, depth)
    ensures
        outer_same(t[0].regs@, t.last().regs@, t[0].fp as int),
        forall|i: int| 0 <= i < depth ==> #[trigger] t.last().call_stack[i] == t[0].call_stack[i],
        t.last().fp >= t[0].fp,
        forall|i: int| depth <= i < t.last().call_stack.len() ==> (#[trigger] t.last().call_stack[i]).old_fp >= t[0].fp,
        t.last().call_stack.len() == depth ==> t.last().fp == t[0].fp,
        t.last().call_stack.len() > depth ==> t.last().call_stack[depth].old_fp == t[0].fp,
    decreases t.len(),
{
    if t.len() > 1 {
        let s = t.drop_last();
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).wf() && s[i].call_stack.len() >= depth by { assert(s[i] == t[i]); }
        assert forall|i: int| 0 <= i < s.len() - 1 implies step(#[trigger] s[i], s[i + 1]) by {
            assert(s[i] == t[i] && s[i + 1] == t[i + 1]);
        }
        callers_are_safe(s, depth);
        let (a, b) = (s.last(), t.last());
        assert(a == t[t.len() - 2] && b == t[t.len() - 2 + 1]);
        assert(step(a, b));
        assert(a.wf() && b.wf());
        if confined(a, b) {
        } else if returned(a, b) {
            if a.call_stack.len() > 0 {
                let f = a.call_stack[a.call_stack.len() - 1];
                assert(f.old_fp >= t[0].fp);
                assert forall|i: int| 0 <= i < b.call_stack.len() implies #[trigger] b.call_stack[i] == a.call_stack[i] by {}
            }
        } else {
            assert forall|i: int| 0 <= i < a.call_stack.len() implies #[trigger] b.call_stack[i] == a.call_stack[i] by {}
        }
    }
}

/// A call, with everything that happens until it ends, changes nothing for its caller but shared
/// variables and the register of the result.
proof fn a_call_returns(a: Context, t: Seq<Context>, c: Context, d: Register, pc: int)
    requires
        a.wf(),
        a.call_stack.len() < a.max_call_stack,
        d.is_local(),
        called(a, t[0], pc, d.number(), Some(d)),
        history(t, a.call_stack.len() + 1),
        t.last().call_stack.len() == a.call_stack.len() + 1,
        returned(t.last(), c),
    ensures
        c.pc == a.pc + 1,
        c.fp == a.fp,
        c.call_stack@ == a.call_stack@,
        // Variables, parameters and intermediate results of the caller that were in use.
        outer_same(a.regs@, c.regs@, a.fp + d.number()),
        // The result is what the callee left in its first register.
        c.value(d) == t.last().at(a.index(d)),
{
    let n = a.call_stack.len() as int;
    callers_are_safe(t, n + 1);
    let z = t.last();
    assert(z.call_stack[n] == t[0].call_stack[n]);
    assert(z.call_stack@.last() == (Frame { old_pc: a.pc, old_fp: a.fp, ret_reg: Some(d) }));
    assert forall|i: int| 0 <= i < n implies #[trigger] c.call_stack[i] == a.call_stack[i] by {
        assert(z.call_stack[i] == t[0].call_stack[i]);
    }
    assert(c.call_stack@ =~= a.call_stack@);
    assert(cell(c.regs@, a.fp + d.number()) == z.at(z.fp as int));
}

/// A subroutine, with everything that happens until it ends, runs in the variables of its caller and
/// execution continues behind it.
proof fn a_subroutine_returns(a: Context, t: Seq<Context>, c: Context, pc: int)
    requires
        a.wf(),
        a.call_stack.len() < a.max_call_stack,
        called(a, t[0], pc, 0, None),
        history(t, a.call_stack.len() + 1),
        t.last().call_stack.len() == a.call_stack.len() + 1,
        returned(t.last(), c),
    ensures
        t.last().fp == a.fp,
        c.pc == a.pc + 1,
        c.fp == a.fp,
        c.call_stack@ == a.call_stack@,
        c.regs@ == t.last().regs@,
        outer_same(a.regs@, c.regs@, a.fp as int),
{
    let n = a.call_stack.len() as int;
    callers_are_safe(t, n + 1);
    let z = t.last();
    assert(z.call_stack[n] == t[0].call_stack[n]);
    assert forall|i: int| 0 <= i < n implies #[trigger] c.call_stack[i] == a.call_stack[i] by {
        assert(z.call_stack[i] == t[0].call_stack[i]);
    }
    assert(c.call_stack@ =~= a.call_stack@);
}
"""

CALL = "        bytecode::call_args(instr).0.is_local(),\n    ensures "


def calls(u):
    """P07: calls and what they may touch."""
    types(u)
    memory(u)
    u.add(DATA)
    u.add(CALLS)
    u.add("impl Context {")
    op(u, "push_frame", """
    ensures
        r == (old(self).call_stack.len() < old(self).max_call_stack),
        !r ==> exception(*final(self), old(self).pc) && final(self).call_stack@ == old(self).call_stack@ && final(self).regs@ == old(self).regs@,
        r ==> final(self).call_stack@ == old(self).call_stack@.push(frame),
        r ==> final(self).stop == old(self).stop && final(self).regs@ == old(self).regs@,
        *final(self) == (Context { call_stack: final(self).call_stack, stop: final(self).stop, regs: final(self).regs, ..*old(self) }),
""")
    every(u, "final(self).wf(), confined(*old(self), *final(self))", "final(self).wf(), confined(*old(self), *final(self))", special={
        "do_call": CALL + """final(self).wf(), ({
        let (d, pc) = bytecode::call_args(instr);
        called(*old(self), *final(self), pc as int, d.number(), Some(d))
    }),
""",
        "do_gosub": "    ensures final(self).wf(), called(*old(self), *final(self), bytecode::gosub_args(instr) as int, 0, None)",
        "do_return": "    ensures final(self).wf(), returned(*old(self), *final(self))",
        "do_move": """    ensures final(self).wf(), ({
        let (d, s) = bytecode::move_args(instr);
        stepped(*old(self), *final(self), d, old(self).value(s))
    }),
""",
    })
    u.add("}\n}\nfn main() {}")


HANDLERS = """
/// An instruction leaves the error handler alone, and one that fails has no other effect.
pub open spec fn untouched(a: Context, b: Context) -> bool {
    &&& b.err_handler == a.err_handler
    &&& b.err_handler_depth == a.err_handler_depth
    &&& clean(a, b)
}

"""


PUSHED = """
    ensures
        !r ==> exception(*final(self), old(self).pc) && final(self).call_stack@ == old(self).call_stack@ && final(self).regs@ == old(self).regs@,
        r ==> final(self).stop == old(self).stop && final(self).call_stack.len() == old(self).call_stack.len() + 1,
        r ==> final(self).regs@ == old(self).regs@,
        r ==> old(self).call_stack.len() < old(self).max_call_stack,
        forall|i: int| 0 <= i < old(self).call_stack.len() ==> #[trigger] final(self).call_stack[i] == old(self).call_stack[i],
        r ==> final(self).call_stack[old(self).call_stack.len() as int] == frame,
        *final(self) == (Context { call_stack: final(self).call_stack, stop: final(self).stop, regs: final(self).regs, ..*old(self) }),
"""


def handlers(u):
    """P10: what errors and error handlers do to the processor."""
    types(u)
    memory(u)
    u.add(DATA)
    u.add(HANDLERS)
    u.add("impl Context {")
    op(u, "push_frame", PUSHED)
    e = "final(self).wf(), untouched(*old(self), *final(self))"
    every(u, e, e, special={
        "do_call": CALL + e,
        "do_return": """    ensures
        final(self).wf(),
        clean(*old(self), *final(self)),
        final(self).err_handler == old(self).err_handler,
        // A handler that was set in a call belongs to the caller once the call has ended.
        final(self).err_handler_depth == (if old(self).err_handler_depth < final(self).call_stack.len() { old(self).err_handler_depth }
            else { final(self).call_stack.len() }) || final(self).stop is Some && final(self).err_handler_depth == old(self).err_handler_depth,
""",
        "do_set_error_handler": """    ensures
        final(self).wf(),
        final(self).stop is None,
        final(self).pc == old(self).pc + 1,
        final(self).regs@ == old(self).regs@,
        same_frames(*old(self), *final(self)),
        final(self).err_handler_depth == old(self).call_stack.len(),
        final(self).err_handler == (match bytecode::set_error_handler_args(instr).0 {
            ErrorHandlerMode::None => ErrorHandler::None,
            ErrorHandlerMode::Jump => ErrorHandler::Jump { active: false, addr: bytecode::set_error_handler_args(instr).1 as usize },
            ErrorHandlerMode::ResumeNext => ErrorHandler::ResumeNext,
        }),
""",
    })
    context = File(CONTEXT)
    u.fn(context, "set_pc", within="impl Context", contract="    ensures *final(self) == (Context { pc: pc, ..*old(self) })", subst=OPAQUE)
    u.fn(context, "error_handler", within="impl Context", contract="    ensures r == self.err_handler", subst=OPAQUE)
    u.fn(context, "clear_error_handler", within="impl Context", subst=OPAQUE,
         contract="    ensures *final(self) == (Context { err_handler: ErrorHandler::None, ..*old(self) })")
    u.fn(context, "set_error_handler_active", within="impl Context", contract="""
    requires old(self).err_handler is Jump && !old(self).err_handler->active
    ensures *final(self) == (Context { err_handler: ErrorHandler::Jump { active: true, addr: old(self).err_handler->addr }, ..*old(self) })
""", subst=[(r"unreachable!\([^)]*\)", "vstd::pervasive::unreached()", "unreachable! is an obligation")] + OPAQUE)
    u.add("}\n}\nfn main() {}")


def sessions(u):
    """P12: how programs stop and what is left when they do."""
    types(u)
    memory(u)
    u.add(DATA)
    tagged(u)
    u.add("""
/// Execution stops and everything stays as it is.
pub open spec fn stopped(a: Context, b: Context, pc: int, reason: InternalStopReason) -> bool {
    &&& b.stop == Some(reason)
    &&& b.pc == pc
    &&& b.regs@ == a.regs@
    &&& same_frames(a, b)
}
impl Context {
""")
    context = File(CONTEXT)
    op(u, "do_eof", "    ensures stopped(*old(self), *final(self), old(self).pc as int, InternalStopReason::Eof),\n")
    op(u, "do_end", """    ensures ({
        let v = old(self).int(bytecode::end_args(instr));
        if 0 <= v <= 127 {
            stopped(*old(self), *final(self), old(self).pc as int, InternalStopReason::End(ExitCode(v as u8)))
        } else {
            failed(*old(self), *final(self))
        }
    }),
""")
    for name, kind in (("upcall", "Upcall"), ("upcall_async", "UpcallAsync")):
        op(u, "do_" + name, """    ensures ({
        let (i, first) = bytecode::%s_args(instr);
        stopped(*old(self), *final(self), old(self).pc + 1, InternalStopReason::%s(i, first, old(self).pc))
    }),
""" % (name, kind))
    u.fn(context, "set_pc", within="impl Context", contract="    ensures *final(self) == (Context { pc: pc, ..*old(self) })", subst=OPAQUE)
    u.fn(context, "get_global_reg_raw", within="impl Context", subst=OPAQUE,
         contract="    requires index < self.regs.len() ensures r == self.at(index as int)")
    u.fn(context, "get_program_reg_raw", within="impl Context", subst=OPAQUE,
         contract="    requires 64 + index < self.regs.len() ensures r == self.at(64 + index)")
    u.fn(context, "unwind_calls", within="impl Context", contract="""
    requires old(self).wf()
    ensures
        final(self).wf(),
        final(self).call_stack@ == Seq::<Frame>::empty(),
        final(self).fp == 64,
        final(self).regs@ == old(self).regs@,
        final(self).err_handler_depth == 0,
        final(self).pc == old(self).pc,
""", subst=OPAQUE)
    u.fn(context, "clear_runtime_state", within="impl Context", contract="""
    requires old(self).wf()
    ensures
        final(self).wf(),
        final(self).call_stack@ == Seq::<Frame>::empty(),
        forall|k: int| #[trigger] cell(final(self).regs@, k) == 0,
        final(self).pc == 0 && final(self).fp == 64 && final(self).stop is None && !final(self).yield_pending,
        final(self).err_handler == ErrorHandler::None && final(self).err_handler_depth == 0,
""", subst=OPAQUE)
    u.add("}\n}\nfn main() {}")


TEXTS = """
/// A text stays what it is for as long as the heap only grows.
proof fn texts_stay(t: Seq<Heap>, constants: Seq<ConstantDatum>, v: u64)
    requires
        t.len() > 0,
        is_text(v, constants, t[0]),
        forall|i: int| 0 <= i < t.len() - 1 ==> grown(#[trigger] t[i], t[i + 1]),
    ensures
        is_text(v, constants, t.last()),
        text(v, constants, t.last()) == text(v, constants, t[0]),
    decreases t.len()
{
    if t.len() > 1 {
        let s = t.drop_last();
        assert forall|i: int| 0 <= i < s.len() - 1 implies grown(#[trigger] s[i], s[i + 1]) by { assert(s[i] == t[i] && s[i + 1] == t[i + 1]); }
        texts_stay(s, constants, v);
        let k = t.len() - 2;
        assert(grown(t[k], t[k + 1]));
        assert(s.last() == t[k] && t.last() == t[k + 1]);
        if signed(v) < 0 { assert(t[k + 1].data[entry(v)] == t[k].data[entry(v)]); }
    }
}
"""


def texts(u):
    """P09: strings are values."""
    types(u)
    memory(u)
    u.add(DATA)
    u.add(TEXTS)
    u.add("impl Context {")
    op(u, "push_frame", PUSHED)
    e = "final(self).wf(), clean(*old(self), *final(self))"
    every(u, e, e, special={
        "do_call": CALL + e,
        "do_concat": """    ensures final(self).wf(), ({
        let (d, a, b) = bytecode::concat_args(instr);
        let v = text(old(self).value(a), constants@, *old(heap)) + text(old(self).value(b), constants@, *old(heap));
        ||| failed(*old(self), *final(self)) && final(heap).data@ == old(heap).data@ && old(heap).data.len() >= old(heap).max_entries.0
        ||| {
            let p = final(self).value(d);
            &&& stepped(*old(self), *final(self), d, p)
            &&& is_text(p, constants@, *final(heap))
            &&& text(p, constants@, *final(heap)) == v
        }
    })
""",
        "do_alloc": """    ensures final(self).wf(), final(heap).data@ == old(heap).data@,
        stepped(*old(self), *final(self), bytecode::alloc_args(instr).0, pointer(0))
""",
        "do_move": """    ensures final(self).wf(), ({
        let (d, s) = bytecode::move_args(instr);
        stepped(*old(self), *final(self), d, old(self).value(s))
    })
""",
    }, heap="final(heap).wf(), grown(*old(heap), *final(heap)), final(self).stop is Some ==> final(heap).data@ == old(heap).data@")
    u.add("}\n}\nfn main() {}")


FLOW = """
/// An instruction changes its destination and nothing else, and execution goes on with the next one, or it
/// fails and changes nothing.
pub open spec fn settles(a: Context, b: Context, d: Register) -> bool {
    ||| failed(a, b)
    ||| stepped(a, b, d, b.at(a.index(d)))
}

/// An instruction changes no register, and execution goes on.
pub open spec fn goes(a: Context, b: Context, pc: int) -> bool {
    &&& b.regs@ == a.regs@
    &&& same_frames(a, b)
    &&& b.stop is None
    &&& b.pc == pc
}

/// A register that is not the destination keeps its content.
proof fn others_stay(a: Context, b: Context, d: Register, r: Register)
    requires settles(a, b, d), a.index(r) != a.index(d)
    ensures b.value(r) == a.value(r)
{
    if failed(a, b) {
        assert(cell(b.regs@, a.index(r)) == cell(a.regs@, a.index(r)));
    } else {
        assert(written(a.regs@, b.regs@, a.index(d), b.at(a.index(d))));
        assert(cell(b.regs@, a.index(r)) == cell(a.regs@, a.index(r)));
    }
}

/// Different registers of a call, and shared ones, are apart.
proof fn registers_are_apart(c: Context, r: Register, s: Register)
    requires c.wf(), c.index(r) == c.index(s)
    ensures r == s
{
}
"""

# Instructions without a destination.
SILENT = ["store_array", "jump_if_false", "upcall", "upcall_async", "end", "call", "gosub", "return", "jump", "eof", "nop",
          "set_error_handler"]


def flow(u):
    """P08: which instruction is next, and what each may change."""
    types(u)
    memory(u)
    u.add(DATA)
    u.add(FLOW)
    u.add("impl Context {")
    op(u, "push_frame", PUSHED)
    special = {}
    for name, parts in decoded(File(BYTECODE)).items():
        if name in SILENT:
            continue
        if parts[0] != "Register":
            raise Lost("the destination of " + name)
        special["do_" + name] = "    ensures final(self).wf(), settles(*old(self), *final(self), bytecode::%s_args(instr)%s)" % (
            name, "" if len(parts) == 1 else ".0")
    w = "    ensures final(self).wf(), "
    special.update({
        "do_store_array": w + "failed(*old(self), *final(self)) || goes(*old(self), *final(self), old(self).pc + 1)",
        "do_jump": w + "goes(*old(self), *final(self), bytecode::jump_args(instr) as int)",
        "do_jump_if_false": w + """({
        let (r, target) = bytecode::jump_if_false_args(instr);
        goes(*old(self), *final(self), if truth(old(self).value(r)) { old(self).pc + 1 } else { target as int })
    })""",
        "do_nop": w + "goes(*old(self), *final(self), old(self).pc + 1)",
        "do_set_error_handler": w + "goes(*old(self), *final(self), old(self).pc + 1)",
        "do_load_integer": w + """({
        let (d, i) = bytecode::load_integer_args(instr);
        stepped(*old(self), *final(self), d, i as u64)
    })""",
        "do_load_constant": w + """({
        let (d, i) = bytecode::load_constant_args(instr);
        match constants[i as int] {
            ConstantDatum::Integer(i) => stepped(*old(self), *final(self), d, i as u64),
            _ => settles(*old(self), *final(self), d),
        }
    })""",
        "do_load_register_ptr": w + """({
        let (d, t, s) = bytecode::load_register_ptr_args(instr);
        stepped(*old(self), *final(self), d, s.tagged(old(self).fp as int, t))
    })""",
        "do_move": w + """({
        let (d, s) = bytecode::move_args(instr);
        stepped(*old(self), *final(self), d, old(self).value(s))
    })""",
        "do_call": CALL + "final(self).wf(), final(self).regs@ == old(self).regs@",
        "do_gosub": w + "final(self).regs@ == old(self).regs@",
        "do_return": w + "true",
        "do_end": w + "final(self).stop is Some && final(self).regs@ == old(self).regs@ && final(self).pc == old(self).pc && same_frames(*old(self), *final(self))",
        "do_eof": w + "final(self).stop is Some && final(self).regs@ == old(self).regs@ && final(self).pc == old(self).pc && same_frames(*old(self), *final(self))",
        "do_upcall": w + "final(self).stop is Some && final(self).regs@ == old(self).regs@ && same_frames(*old(self), *final(self))",
        "do_upcall_async": w + "final(self).stop is Some && final(self).regs@ == old(self).regs@ && same_frames(*old(self), *final(self))",
    })
    helper = """exists|p: (Register, Register, Register)|
            #[trigger] parse.ensures((instr,), p) && final(self).wf() && settles(*old(self), *final(self), p.0)"""
    every(u, None, helper, special=special)
    u.add("}\n}\nfn main() {}")
