"""Structured statements of core/src/parser.rs under contract, for any sequence of words."""

import re

from verus_run import File

PARSER = "core/src/parser.rs"

WORLD = """
verus! {
global size_of usize == 8;
pub enum Error { Bad(LineCol, String), Other }
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body]
fn opaque() -> String { unimplemented!() }
pub enum Ordering { Less, Equal, Greater }
pub open spec fn sign(i: i32) -> Ordering { if i < 0 { Ordering::Less } else if i == 0 { Ordering::Equal } else { Ordering::Greater } }
fn order(i: i32) -> (r: Ordering) ensures r == sign(i) { if i < 0 { Ordering::Less } else if i == 0 { Ordering::Equal } else { Ordering::Greater } }
pub uninterp spec fn minus(d: f64) -> f64;
#[verifier::external_body]
fn negated(d: f64) -> (r: f64) ensures r == minus(d) { unimplemented!() }
pub uninterp spec fn zero(d: f64) -> bool;
#[verifier::external_body]
fn is_zero(d: f64) -> (r: bool) ensures r == zero(d) { unimplemented!() }
#[verifier::external_body]
fn checked(i: i32) -> (r: Option<i32>) ensures r == (if i == i32::MIN { None } else { Some((-i) as i32) }) { unimplemented!() }
#[verifier::external_body]
fn again(v: &VarRef) -> (r: VarRef) ensures r == *v { unimplemented!() }
#[verifier::external_body]
fn start_of(e: &Expr) -> LineCol { unimplemented!() }
"""
WORDS = """
/// Tokens without contents, which are equal when they are the same.
pub open spec fn plain(t: Token) -> bool { !(t is Bad || t is Boolean || t is Double || t is Integer || t is Text || t is Symbol || t is Label) }
#[verifier::external_body]
fn same(a: &Token, b: &Token) -> (r: bool)
    requires plain(*b)
    ensures r == (*a == *b)
{ unimplemented!() }

/// The words come from the lexer, which is verified for P14.
#[verifier::external_body]
pub struct PeekableLexer { x: u8 }
pub type Words = Seq<TokenSpan>;
impl PeekableLexer {
    /// The words that have not been consumed, up to the end of the text.
    uninterp spec fn rest(&self) -> Words;
    /// Whether there is a word to consume.
    uninterp spec fn peeked(&self) -> bool;

    #[verifier::external_body]
    fn peek(&mut self) -> (r: Result<&TokenSpan>)
        ensures
            r is Ok ==> final(self).peeked() && final(self).rest() == old(self).rest() && old(self).rest().len() > 0 && old(self).rest()[0] == *r->Ok_0,
            r is Err ==> r->Err_0 is Other,
    { unimplemented!() }
    #[verifier::external_body]
    fn read(&mut self) -> (r: Result<TokenSpan>)
        ensures
            r is Ok ==> old(self).rest().len() > 0 && r->Ok_0 == old(self).rest()[0]
                && final(self).rest() == (if old(self).rest()[0].token is Eof { old(self).rest() } else { old(self).rest().skip(1) }),
            r is Err ==> r->Err_0 is Other,
    { unimplemented!() }
    #[verifier::external_body]
    fn consume_peeked(&mut self) -> (r: TokenSpan)
        requires
            old(self).peeked(), old(self).rest().len() > 0, !(old(self).rest()[0].token is Eof),
        ensures
            r == old(self).rest()[0], final(self).rest() == old(self).rest().skip(1),
    { unimplemented!() }
}
pub struct Parser { lexer: PeekableLexer }

/// What words start with, if they are right, and the words that follow.
pub type Parsed<T> = Option<(T, Words)>;
/// What expressions and simple statements are, which is not specified here.
pub uninterp spec fn optional(w: Words) -> Parsed<Option<Expr>>;
pub uninterp spec fn one(w: Words) -> Parsed<Option<Statement>>;
pub uninterp spec fn uniline(w: Words) -> Parsed<Option<Statement>>;
/// What a parser returns when the words mean something; an error of the lexer is always possible.
pub open spec fn matches<T>(r: Result<T>, is: bool) -> bool { r is Err ==> r->Err_0 is Other || !is }

impl Parser {
    #[verifier::external_body]
    fn parse_expr(&mut self, first: Option<Expr>) -> (r: Result<Option<Expr>>)
        requires first is None
        ensures
            r is Ok ==> optional(old(self).lexer.rest()) == Some((r->Ok_0, final(self).lexer.rest())) && final(self).lexer.rest().len() <= old(self).lexer.rest().len(),
            matches(r, optional(old(self).lexer.rest()) is Some),
    { unimplemented!() }
    #[verifier::external_body]
    fn parse_one_safe(&mut self) -> (r: Result<Option<Statement>>)
        ensures
            r is Ok ==> one(old(self).lexer.rest()) == Some((r->Ok_0, final(self).lexer.rest())),
            r is Ok && r->Ok_0 is Some ==> final(self).lexer.rest().len() < old(self).lexer.rest().len(),
            r is Ok && r->Ok_0 is None ==> old(self).lexer.rest()[0].token is Eof || old(self).lexer.rest()[0].token is Eol,
            matches(r, one(old(self).lexer.rest()) is Some),
    { unimplemented!() }
    #[verifier::external_body]
    fn parse_uniline(&mut self) -> (r: Result<Option<Statement>>)
        ensures
            r is Ok ==> uniline(old(self).lexer.rest()) == Some((r->Ok_0, final(self).lexer.rest())),
            r is Ok && r->Ok_0 is None ==> old(self).lexer.rest()[0].token is Eof || old(self).lexer.rest()[0].token is Eol,
            matches(r, uniline(old(self).lexer.rest()) is Some),
    { unimplemented!() }
}

pub open spec fn eaten(w: Words, t: Token) -> Option<Words> { if w.len() > 0 && w[0].token == t { Some(w.skip(1)) } else { None } }
pub open spec fn expression(w: Words) -> Parsed<Expr> {
    match optional(w) { Some((Some(e), rest)) => if rest.len() <= w.len() { Some((e, rest)) } else { None }, _ => None }
}
/// The statements up to a word.
pub open spec fn block(w: Words, delim: Token, before: Seq<Statement>) -> Parsed<Seq<Statement>>
    decreases w.len()
{
    if w.len() == 0 { None }
    else if w[0].token == delim { Some((before, w)) }
    else if w[0].token is Eol { block(w.skip(1), delim, before) }
    else {
        match one(w) {
            None => None,
            Some((None, rest)) => Some((before, rest)),
            Some((Some(s), rest)) => if rest.len() < w.len() { block(rest, delim, before.push(s)) } else { None },
        }
    }
}
/// The statements up to a word, after the end of a line, and that word.
pub open spec fn body(w: Words, delim: Token) -> Parsed<Seq<Statement>> {
    match eaten(w, Token::Eol) {
        None => None,
        Some(w) => match block(w, delim, Seq::empty()) {
            None => None,
            Some((s, w)) => match eaten(w, delim) { None => None, Some(w) => Some((s, w)) },
        },
    }
}
"""

LOOPS = """
pub open spec fn guard(w: Words) -> Parsed<Option<(Expr, bool)>> {
    match w[0].token {
        Token::Until => match expression(w.skip(1)) { Some((e, rest)) => Some((Some((e, true)), rest)), None => None },
        Token::While => match expression(w.skip(1)) { Some((e, rest)) => Some((Some((e, false)), rest)), None => None },
        Token::Eof => Some((None, w)),
        Token::Eol => Some((None, w)),
        _ => None,
    }
}
pub open spec fn do_loop(w: Words) -> Parsed<(DoGuard, Seq<Statement>)> {
    match guard(w) {
        None => None,
        Some((pre, w)) => match body(w, Token::Loop) {
            None => None,
            Some((s, w)) => match guard(w) {
                None => None,
                Some((post, w)) => match (pre, post) {
                    (None, None) => Some(((DoGuard::Infinite, s), w)),
                    (Some((e, true)), None) => Some(((DoGuard::PreUntil(e), s), w)),
                    (Some((e, false)), None) => Some(((DoGuard::PreWhile(e), s), w)),
                    (None, Some((e, true))) => Some(((DoGuard::PostUntil(e), s), w)),
                    (None, Some((e, false))) => Some(((DoGuard::PostWhile(e), s), w)),
                    _ => None,
                },
            },
        },
    }
}
pub open spec fn while_loop(w: Words) -> Parsed<(Expr, Seq<Statement>)> {
    match expression(w) {
        None => None,
        Some((e, w)) => match body(w, Token::Wend) { None => None, Some((s, w)) => Some(((e, s), w)) },
    }
}
pub enum Number { Double(f64), Integer(i32) }
/// A step, its sign and whether it is a double.
pub open spec fn step(w: Words) -> Parsed<(Number, Ordering, bool)> {
    if !(w[0].token is Step) { Some(((Number::Integer(1), Ordering::Greater, false), w)) }
    else {
        match w.skip(1)[0].token {
            Token::Double(d) => Some(((Number::Double(d), if zero(d) { Ordering::Equal } else { Ordering::Greater }, true), w.skip(1).skip(1))),
            Token::Integer(i) => Some(((Number::Integer(i), sign(i), false), w.skip(1).skip(1))),
            Token::Minus => match w.skip(1).skip(1)[0].token {
                Token::Double(d) => Some(((Number::Double(minus(d)), if zero(d) { Ordering::Equal } else { Ordering::Less }, true), w.skip(1).skip(1).skip(1))),
                Token::Integer(i) => if i == i32::MIN { None } else { Some(((Number::Integer((-i) as i32), sign((-i) as i32), false), w.skip(1).skip(1).skip(1))) },
                _ => None,
            },
            _ => None,
        }
    }
}
pub open spec fn number(e: Expr) -> Option<Number> {
    match e { Expr::Double(s) => Some(Number::Double(s.value)), Expr::Integer(s) => Some(Number::Integer(s.value)), _ => None }
}
pub struct Counted { pub iter: VarRef, pub start: Expr, pub limit: Expr, pub step: Number, pub up: bool, pub double: bool, pub body: Seq<Statement> }
pub open spec fn for_loop(w: Words) -> Parsed<Counted> {
    match w[0].token {
        Token::Symbol(iter) => if iter.ref_type is None || iter.ref_type == Some(ExprType::Double) || iter.ref_type == Some(ExprType::Integer) {
            match eaten(w.skip(1), Token::Equal) {
                None => None,
                Some(w) => match expression(w) {
                    None => None,
                    Some((start, w)) => match eaten(w, Token::To) {
                        None => None,
                        Some(w) => match expression(w) {
                            None => None,
                            Some((limit, w)) => match step(w) {
                                None => None,
                                Some(((by, sign, double), w)) => if sign is Equal { None } else {
                                    match body(w, Token::Next) {
                                        None => None,
                                        Some((s, w)) => Some((Counted { iter, start, limit, step: by, up: sign is Greater, double, body: s }, w)),
                                    }
                                },
                            },
                        },
                    },
                },
            }
        } else { None },
        _ => None,
    }
}
pub open spec fn variable(e: Expr, v: VarRef) -> bool { e is Symbol && e->Symbol_0.vref == v }
pub open spec fn counts(s: ForSpan, c: Counted) -> bool {
    &&& s.iter == c.iter && s.start == c.start && s.iter_double == c.double && s.body@ == c.body
    &&& if c.up { s.end is LessEqual && variable(s.end->LessEqual_0.lhs, c.iter) && s.end->LessEqual_0.rhs == c.limit }
        else { s.end is GreaterEqual && variable(s.end->GreaterEqual_0.lhs, c.iter) && s.end->GreaterEqual_0.rhs == c.limit }
    &&& s.next is Add && variable(s.next->Add_0.lhs, c.iter) && number(s.next->Add_0.rhs) == Some(c.step)
}
"""
CHOICES = """
/// When a branch is taken.
pub enum Guard { Always, If(Expr) }
pub open spec fn when(e: Expr) -> Guard { match e { Expr::Boolean(s) => if s.value { Guard::Always } else { Guard::If(e) }, _ => Guard::If(e) } }
pub type Arms = Seq<(Guard, Seq<Statement>)>;
pub open spec fn arm(b: IfBranchSpan) -> (Guard, Seq<Statement>) { (when(b.guard), b.body@) }
pub open spec fn arms(b: Seq<IfBranchSpan>) -> Arms { b.map_values(|b: IfBranchSpan| arm(b)) }
pub open spec fn longer<G>(a: Seq<(G, Seq<Statement>)>, i: int, s: Statement) -> Seq<(G, Seq<Statement>)> { a.update(i, (a[i].0, a[i].1.push(s))) }
pub open spec fn last<G>(a: Seq<(G, Seq<Statement>)>, s: Statement) -> Seq<(G, Seq<Statement>)> { longer(a, a.len() - 1, s) }
#[verifier::external_body]
fn add_to_branch(v: &mut Vec<IfBranchSpan>, i: usize, s: Statement)
    requires i < old(v)@.len()
    ensures
        final(v)@.len() == old(v)@.len(), forall|j: int| 0 <= j < old(v)@.len() && j != i ==> final(v)@[j] == old(v)@[j],
        final(v)@[i as int].guard == old(v)@[i as int].guard, final(v)@[i as int].body@ == old(v)@[i as int].body@.push(s),
        arms(final(v)@) == longer(arms(old(v)@), i as int, s),
{ unimplemented!() }
pub broadcast proof fn another(s: Seq<IfBranchSpan>, b: IfBranchSpan)
    ensures #[trigger] arms(s.push(b)) == arms(s).push(arm(b))
{ assert(arms(s.push(b)) =~= arms(s).push(arm(b))); }

pub broadcast proof fn single(s: Seq<IfBranchSpan>)
    requires s.len() == 1
    ensures #[trigger] arms(s) == seq![arm(s[0])]
{ assert(arms(s) =~= seq![arm(s[0])]); }
/// There are at most as many branches as memory has bytes.
pub broadcast axiom fn memory(v: Vec<IfBranchSpan>) ensures #[trigger] v@.len() <= 0x7fff_ffff_ffff_ffff;

/// What follows END: the end of a block or a status to exit with.
pub open spec fn ends(t: Token) -> bool { t is Function || t is If || t is Select || t is Sub }
pub open spec fn ended(w: Words, pos: LineCol) -> Parsed<core::result::Result<Statement, Token>> {
    if ends(w[0].token) { Some((Err(w[0].token), w)) }
    else { match optional(w) { None => None, Some((code, rest)) => if rest.len() <= w.len() { Some((Ok(Statement::End(EndSpan { code, pos })), rest)) } else { None } } }
}
/// The rest of the branches of an IF.
pub open spec fn branching(w: Words, done: bool, a: Arms) -> Parsed<Arms>
    decreases w.len()
{
    if w.len() == 0 { None } else {
        match w[0].token {
            Token::Eol => branching(w.skip(1), done, a),
            Token::Elseif => if done { None } else {
                match expression(w.skip(1)) {
                    None => None,
                    Some((e, w1)) => match eaten(w1, Token::Then) {
                        None => None,
                        Some(w2) => match eaten(w2, Token::Eol) { None => None, Some(w3) => if w3.len() < w.len() { branching(w3, false, a.push((when(e), Seq::empty()))) } else { None } },
                    },
                }
            },
            Token::Else => if done { None } else {
                match eaten(w.skip(1), Token::Eol) { None => None, Some(w1) => branching(w1, true, a.push((Guard::Always, Seq::empty()))) }
            },
            Token::End => match ended(w.skip(1), w[0].pos) {
                None => None,
                Some((Ok(s), w1)) => if w1.len() < w.len() { branching(w1, done, last(a, s)) } else { None },
                Some((Err(t), w1)) => if t is If { Some((a, w1)) } else { None },
            },
            _ => match one(w) {
                None => None,
                Some((None, w1)) => Some((a, w1)),
                Some((Some(s), w1)) => if w1.len() < w.len() { branching(w1, done, last(a, s)) } else { None },
            },
        }
    }
}
pub open spec fn multiline(w: Words, a: Arms) -> Parsed<Arms> {
    match branching(w, false, a) { None => None, Some((a, w)) => match eaten(w, Token::If) { None => None, Some(w) => Some((a, w)) } }
}
/// The statements of an IF on one line.
pub open spec fn otherwise(w: Words, a: Arms) -> Parsed<Arms> {
    if w[0].token is Else {
        match uniline(w.skip(1)) {
            None => None,
            Some((s, w)) => Some((a.push((Guard::Always, match s { None => Seq::empty(), Some(s) => seq![s] })), w)),
        }
    } else { Some((a, w)) }
}
pub open spec fn on_one_line(w: Words, a: Arms) -> Parsed<Arms> {
    if w[0].token is Else { otherwise(w, a) }
    else { match uniline(w) { Some((Some(s), w)) => otherwise(w, longer(a, 0, s)), _ => None } }
}
pub open spec fn if_then(w: Words) -> Parsed<Arms> {
    match expression(w) {
        None => None,
        Some((e, w)) => match eaten(w, Token::Then) {
            None => None,
            Some(w) => {
                let a = seq![(when(e), Seq::<Statement>::empty())];
                if w[0].token is Eol || w[0].token is Eof { multiline(w, a) } else { on_one_line(w, a) }
            }
        }
    }
}

pub type Cases = Seq<(Seq<CaseGuardSpan>, Seq<Statement>)>;
pub open spec fn case(c: CaseSpan) -> (Seq<CaseGuardSpan>, Seq<Statement>) { (c.guards@, c.body@) }
pub open spec fn all(c: Seq<CaseSpan>) -> Cases { c.map_values(|c: CaseSpan| case(c)) }
#[verifier::external_body]
fn add_to_case(v: &mut Vec<CaseSpan>, i: usize, s: Statement)
    requires i < old(v)@.len()
    ensures
        final(v)@.len() == old(v)@.len(), all(final(v)@) == longer(all(old(v)@), i as int, s),
{ unimplemented!() }
pub broadcast proof fn another_case(s: Seq<CaseSpan>, c: CaseSpan)
    ensures #[trigger] all(s.push(c)) == all(s).push(case(c))
{ assert(all(s.push(c)) =~= all(s).push(case(c))); }
pub broadcast proof fn no_cases(s: Seq<CaseSpan>)
    requires s.len() == 0
    ensures #[trigger] all(s) == Cases::empty()
{ assert(all(s) =~= Seq::empty()); }

pub open spec fn operator(t: Token) -> Option<CaseRelOp> {
    match t {
        Token::Equal => Some(CaseRelOp::Equal),
        Token::NotEqual => Some(CaseRelOp::NotEqual),
        Token::Less => Some(CaseRelOp::Less),
        Token::LessEqual => Some(CaseRelOp::LessEqual),
        Token::Greater => Some(CaseRelOp::Greater),
        Token::GreaterEqual => Some(CaseRelOp::GreaterEqual),
        _ => None,
    }
}
pub open spec fn case_guard(w: Words) -> Parsed<CaseGuardSpan> {
    if w[0].token is Is {
        match operator(w.skip(1)[0].token) {
            None => None,
            Some(op) => if w.len() < 2 { None } else { match expression(w.skip(1).skip(1)) { None => None, Some((e, w)) => Some((CaseGuardSpan::Is(op, e), w)) } },
        }
    } else {
        match expression(w) {
            None => None,
            Some((from, w)) => if w[0].token is Eol || w[0].token is Comma { Some((CaseGuardSpan::Is(CaseRelOp::Equal, from), w)) }
                else if w.len() > 0 && w[0].token is To { match expression(w.skip(1)) { None => None, Some((to, w)) => Some((CaseGuardSpan::To(from, to), w)) } }
                else { None },
        }
    }
}
/// The guards of a CASE; there are none in CASE ELSE.
pub open spec fn case_guards(w: Words, before: Seq<CaseGuardSpan>) -> Parsed<Seq<CaseGuardSpan>>
    decreases w.len()
{
    if w.len() == 0 { None }
    else if w[0].token is Else {
        if before.len() > 0 || !(w.skip(1)[0].token is Eol || w.skip(1)[0].token is Eof) { None } else { Some((before, w.skip(1))) }
    } else {
        match case_guard(w) {
            None => None,
            Some((g, w1)) => if w1[0].token is Eol { Some((before.push(g), w1)) }
                else if w1[0].token is Comma && 0 < w1.len() <= w.len() { case_guards(w1.skip(1), before.push(g)) }
                else { None },
        }
    }
}
pub broadcast proof fn consumes(w: Words, before: Seq<CaseGuardSpan>)
    requires case_guards(w, before) is Some
    ensures (#[trigger] case_guards(w, before))->Some_0.1.len() <= w.len()
    decreases w.len()
{
    if w[0].token is Else { } else {
        let (g, w1) = case_guard(w)->Some_0;
        if w1[0].token is Eol { } else { consumes(w1.skip(1), before.push(g)); }
    }
}
/// The rest of the cases of a SELECT.
pub open spec fn selecting(w: Words, done: bool, c: Cases) -> Parsed<Cases>
    decreases w.len()
{
    if w.len() == 0 { None } else {
        match w[0].token {
            Token::Eof => Some((c, w)),
            Token::Eol => selecting(w.skip(1), done, c),
            Token::Case => match case_guards(w.skip(1), Seq::empty()) {
                None => None,
                Some((g, w1)) => match eaten(w1, Token::Eol) {
                    None => None,
                    Some(w2) => if done || w2.len() >= w.len() { None } else { selecting(w2, g.len() == 0, c.push((g, Seq::empty()))) },
                },
            },
            Token::End => match ended(w.skip(1), w[0].pos) {
                None => None,
                Some((Ok(s), w1)) => if c.len() > 0 && w1.len() < w.len() { selecting(w1, done, last(c, s)) } else { None },
                Some((Err(t), w1)) => if t is Select { Some((c, w1)) } else { None },
            },
            _ => if c.len() == 0 { None } else {
                match one(w) {
                    None => None,
                    Some((None, _)) => None,
                    Some((Some(s), w1)) => if w1.len() < w.len() { selecting(w1, done, last(c, s)) } else { None },
                }
            },
        }
    }
}
pub open spec fn selected(w: Words) -> Parsed<Expr> {
    match eaten(w, Token::Case) {
        None => None,
        Some(w) => match expression(w) {
            None => None,
            Some((e, w)) => match eaten(w, Token::Eol) { None => None, Some(w) => Some((e, w)) },
        },
    }
}
pub open spec fn select_case(w: Words) -> Parsed<(Expr, Cases)> {
    match selected(w) {
        None => None,
        Some((e, w)) => match selecting(w, false, Cases::empty()) {
            None => None,
            Some((c, w)) => match eaten(w, Token::Select) { None => None, Some(w) => Some(((e, c), w)) },
        },
    }
}
"""
MESSAGE = r"(?:\"[^\"]*\"\s*\.to_owned\(\)|format!\((?:[^()]|\([^()]*\))*\))"


def rewritten(text):
    """Spells out what the standard library does."""
    for a, b in (
            (r"debug_assert!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\);", ""),
            (MESSAGE, "opaque()"), (r"\berr\.into\(\)", "opaque()"), (r"\bmsg\.to_owned\(\)", "opaque()"),
            (r"\b(peeked|token_span|span)\.token != ((?:Token::)?\w+)", r"!same(&\1.token, &\2)"),
            (r"\b(peeked|token_span|span)\.token == ((?:Token::)?\w+)", r"same(&\1.token, &\2)"),
            (r"\bhas_else \|= ([^;]*);", r"let found = \1; has_else = has_else || found;"),
            (r"\blast \|= ([^;]*);", r"last = last || \1;"),
            (r"\biterator\.clone\(\)", "again(&iterator)"),
            (r"\bBox::from\(", "Box::new("),
            (r"\b(\w+) == 0\.0\b", r"is_zero(\1)"), (r"(?<=value: )-d\b", "negated(d)"),
            (r"\b(\w+)\.cmp\(&0\)", r"order(\1)"), (r"\b(\w+)\.checked_neg\(\)", r"checked(\1)"),
            (r"\bstep\.start_pos\(\)", "start_of(&step)"),
            (r"\b(branches|cases)\[(\w+)\]\.body\.push\(", lambda m: "add_to_%s(%s%s, %s, " % ("branch" if m[1] == "branches" else "case", "" if m[1] == "branches" else "&mut ", m[1], m[2])),
            (r"\bcases\.is_empty\(\)", "(cases.len() == 0)"), (r"\bguards\.is_empty\(\)", "(guards.len() == 0)"),
            (r"\bself\.expect_and_consume(_with_pos)?::<[^>]*>", r"self.expect_and_consume\1"),
            (r"<E: Into<String>>", ""), (r"\berr: E\b", "err: &str"),
            (r"\bstd::result::Result<", "core::result::Result<"),
    ):
        text = re.sub(a, b, text)
    return text


REWRITE = (rewritten, "comparing tokens and numbers, copying names and adding to a statement become calls to functions with assumed contracts; texts of errors are opaque")
SUBST = [(r"<E: Into<String>>", "", "the text of an error is a reference"), (r"\berr: E\b", "err: &str", ""), (r"\bstd::result::Result<", "core::result::Result<", "")]
LOOP = "#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n#[verifier::exec_allows_no_decreases_clause]"


def contract(spec, means, requires="", more=""):
    """The words mean a statement, or there is an error."""
    return """%s
    ensures
        r is Ok ==> %s is Some && final(self).lexer.rest() == %s->Some_0.1 && %s,
        matches(r, %s is Some),%s
""" % ("    requires " + requires if requires else "", spec, spec, means, spec, more)


def world(u):
    """Words, expressions and statements."""
    ast = File("core/src/ast.rs")
    lexer = File("core/src/lexer.rs")
    u.add(WORLD)
    u.add("#[derive(Clone, Copy)]\n" + File("core/src/reader.rs").item("struct", "LineCol"))
    u.add("#[derive(Clone, Copy)]\n" + re.sub(r" = \d+", "", ast.item("enum", "ExprType")))
    u.add(re.sub(r" = \d+", "", ast.item("enum", "ArgSep")))
    for name in ("BooleanSpan", "DoubleSpan", "IntegerSpan", "TextSpan", "SymbolSpan", "UnaryOpSpan", "BinaryOpSpan", "CallSpan", "ArgSpan", "VarRef", "DoSpan",
                 "EndSpan", "ForSpan", "WhileSpan", "IfSpan", "IfBranchSpan", "CaseSpan", "SelectSpan"):
        u.add(ast.item("struct", name))
    for name in ("Expr", "DoGuard", "CaseGuardSpan", "CaseRelOp"):
        u.add(ast.item("enum", name))
    u.add("pub enum Statement { Do(DoSpan), End(EndSpan), For(ForSpan), If(IfSpan), Select(SelectSpan), While(WhileSpan), Other }")
    u.add(lexer.item("enum", "Token"))
    u.add(re.sub(r"(pub\(crate\) )?\b(token|pos|length):", r"pub \2:", lexer.item("struct", "TokenSpan").replace("#[allow(unused)]", "")))
    u.add(WORDS)
    add(u, "expect_and_consume", """
    requires plain(t), !(t is Eof)
    ensures
        r is Ok ==> eaten(old(self).lexer.rest(), t) == Some(final(self).lexer.rest()) && old(self).lexer.rest()[0] == r->Ok_0,
        matches(r, eaten(old(self).lexer.rest(), t) is Some),
""")
    add(u, "expect_and_consume_with_pos", """
    requires plain(t), !(t is Eof)
    ensures
        r is Ok ==> eaten(old(self).lexer.rest(), t) == Some(final(self).lexer.rest()),
        matches(r, eaten(old(self).lexer.rest(), t) is Some),
""")
    add(u, "parse_required_expr", """
    ensures
        r is Ok ==> expression(old(self).lexer.rest()) == Some((r->Ok_0, final(self).lexer.rest())),
        matches(r, expression(old(self).lexer.rest()) is Some),
""")


def add(u, name, text, **more):
    u.fn(File(PARSER), name, contract=text, wrap=("impl Parser {", "}"), rewrite=REWRITE, subst=SUBST, **more)


REST = "old(self).lexer.rest()"


def loops(u):
    world(u)
    u.add(LOOPS)
    add(u, "parse_until", contract("block(%s, delim, Seq::empty())" % REST, "r->Ok_0@ =~= block(%s, delim, Seq::empty())->Some_0.0" % REST, "plain(delim), !(delim is Eof)"),
        attrs=LOOP, loops=["""
    invariant_except_break
        block(old(self).lexer.rest(), delim, Seq::empty()) == block(self.lexer.rest(), delim, stmts@),
    ensures
        block(old(self).lexer.rest(), delim, Seq::empty()) == Some((stmts@, self.lexer.rest())),
"""])
    add(u, "parse_do_guard", contract("guard(%s)" % REST, "r->Ok_0 == guard(%s)->Some_0.0" % REST))
    add(u, "parse_do", contract("do_loop(%s)" % REST, "r->Ok_0 is Do && r->Ok_0->Do_0.guard == do_loop(%s)->Some_0.0.0 && r->Ok_0->Do_0.body@ == do_loop(%s)->Some_0.0.1" % (REST, REST)))
    add(u, "parse_while", contract("while_loop(%s)" % REST, "r->Ok_0 is While && r->Ok_0->While_0.expr == while_loop(%s)->Some_0.0.0 && r->Ok_0->While_0.body@ == while_loop(%s)->Some_0.0.1" % (REST, REST)))
    add(u, "parse_step", contract("step(%s)" % REST, "number(r->Ok_0.0) == Some(step(%s)->Some_0.0.0) && r->Ok_0.1 == step(%s)->Some_0.0.1 && r->Ok_0.2 == step(%s)->Some_0.0.2" % (REST, REST, REST)))
    add(u, "parse_for", contract("for_loop(%s)" % REST, "r->Ok_0 is For && counts(r->Ok_0->For_0, for_loop(%s)->Some_0.0)" % REST))
    u.add("}\nfn main() {}")


def choices(u):
    world(u)
    u.add(CHOICES)
    add(u, "maybe_parse_end", contract("ended(%s, pos)" % REST, "r->Ok_0 == ended(%s, pos)->Some_0.0" % REST))
    add(u, "parse_if_uniline", contract("on_one_line(%s, arms(old(branches)@))" % REST, "arms(final(branches)@) =~~= on_one_line(%s, arms(old(branches)@))->Some_0.0" % REST,
                                        "old(branches)@.len() == 1, !(%s[0].token is Eol), !(%s[0].token is Eof)" % (REST, REST)), start="broadcast use another;")
    add(u, "parse_if_multiline", contract("multiline(%s, arms(old(branches)@))" % REST, "arms(final(branches)@) == multiline(%s, arms(old(branches)@))->Some_0.0" % REST,
                                          "old(branches)@.len() == 1"), attrs=LOOP, start="broadcast use {another, memory};", loops=["""
    invariant_except_break
        i < branches@.len(), i == branches@.len() - 1,
        branching(old(self).lexer.rest(), false, arms(old(branches)@)) == branching(self.lexer.rest(), last, arms(branches@)),
    ensures
        branching(old(self).lexer.rest(), false, arms(old(branches)@)) == Some((arms(branches@), self.lexer.rest())),
"""], loop_start={0: "broadcast use {another, memory};"})
    add(u, "parse_if", contract("if_then(%s)" % REST, "r->Ok_0 is If && arms(r->Ok_0->If_0.branches@) =~~= if_then(%s)->Some_0.0" % REST), start="broadcast use {another, single};")
    add(u, "parse_case_guards", contract("case_guards(%s, Seq::empty())" % REST, "r->Ok_0@ =~= case_guards(%s, Seq::empty())->Some_0.0" % REST), attrs=LOOP, loops=["""
    invariant_except_break
        case_guards(old(self).lexer.rest(), Seq::empty()) == case_guards(self.lexer.rest(), guards@),
    ensures
        case_guards(old(self).lexer.rest(), Seq::empty()) == Some((guards@, self.lexer.rest())),
"""])
    add(u, "parse_select", contract("select_case(%s)" % REST, "r->Ok_0 is Select && r->Ok_0->Select_0.expr == select_case(%s)->Some_0.0.0 && all(r->Ok_0->Select_0.cases@) == select_case(%s)->Some_0.0.1" % (REST, REST)),
        attrs=LOOP, start="broadcast use {another_case, no_cases, consumes};", loops=["""
    invariant_except_break
        cases@.len() > 0 ==> i == cases@.len() - 1, cases@.len() == 0 ==> i == 0,
        selecting(selected(old(self).lexer.rest())->Some_0.1, false, Cases::empty()) == selecting(self.lexer.rest(), last, all(cases@)),
    invariant
        selected(old(self).lexer.rest()) is Some, expr == selected(old(self).lexer.rest())->Some_0.0,
    ensures
        selecting(selected(old(self).lexer.rest())->Some_0.1, false, Cases::empty()) == Some((all(cases@), self.lexer.rest())),
"""], loop_start={0: "broadcast use {another_case, no_cases, consumes};"})
    u.add("}\nfn main() {}")


UNITS = [loops, choices]
