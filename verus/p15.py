"""P15: what a sequence of words means as an expression, for sequences of any length."""

import re

from verus_run import File, Lost, blank, closing

PARSER = "core/src/parser.rs"

OPEN = """
global size_of usize == 8;
pub enum Error { Bad(LineCol, String), Other }
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body]
fn opaque() -> String { unimplemented!() }
fn unreached() -> !
    requires false
{ loop invariant false decreases 0int {} }
/// References are not looked into.
#[verifier::external_body]
pub struct VarRef { x: u8 }
"""

LEXER = """
/// A word of the text, or the expression that stands for those that were consumed before.
pub ghost enum Word { Given(Expr), Token(Token, LineCol) }

/// The words come from the lexer, which is verified for P14.
#[verifier::external_body]
pub struct PeekableLexer { x: u8 }
impl PeekableLexer {
    /// The words that have not been consumed, up to the end of the text.
    uninterp spec fn rest(&self) -> Seq<Word>;
    /// Whether there is a word to consume.
    uninterp spec fn peeked(&self) -> bool;

    #[verifier::external_body]
    fn peek(&mut self) -> (r: Result<&TokenSpan>)
        ensures
            r is Ok ==> final(self).peeked() && final(self).rest() == old(self).rest() && old(self).rest().len() > 0
                && old(self).rest()[0] == Word::Token(r->Ok_0.token, r->Ok_0.pos),
    { unimplemented!() }
    #[verifier::external_body]
    fn consume_peeked(&mut self) -> (r: TokenSpan)
        requires
            old(self).peeked(), old(self).rest().len() > 0, !(old(self).rest()[0] is Token && old(self).rest()[0]->Token_0 is Eof),
        ensures
            Word::Token(r.token, r.pos) == old(self).rest()[0], final(self).rest() == old(self).rest().skip(1),
    { unimplemented!() }
}
pub struct Parser { lexer: PeekableLexer }
"""

MEANING = """
/// How tightly an operator binds.
pub open spec fn binds(op: ExprOp) -> int {
    match op {
        ExprOp::LeftParen => 6,
        ExprOp::Power => 6,
        ExprOp::Negate | ExprOp::Not => 5,
        ExprOp::Multiply | ExprOp::Divide | ExprOp::Modulo => 4,
        ExprOp::Add | ExprOp::Subtract => 3,
        ExprOp::ShiftLeft | ExprOp::ShiftRight => 2,
        ExprOp::Equal | ExprOp::NotEqual | ExprOp::Less | ExprOp::LessEqual | ExprOp::Greater | ExprOp::GreaterEqual => 1,
        ExprOp::And | ExprOp::Or | ExprOp::Xor => 0,
    }
}
pub open spec fn unary(op: ExprOp) -> bool { op is Negate || op is Not }
pub open spec fn binary(op: ExprOp) -> bool { !unary(op) && !(op is LeftParen) }

/// The operator between two values that a word stands for.
pub open spec fn between(t: Token) -> Option<ExprOp> {
    match t {
        Token::Equal => Some(ExprOp::Equal),
        Token::NotEqual => Some(ExprOp::NotEqual),
        Token::Less => Some(ExprOp::Less),
        Token::LessEqual => Some(ExprOp::LessEqual),
        Token::Greater => Some(ExprOp::Greater),
        Token::GreaterEqual => Some(ExprOp::GreaterEqual),
        Token::Plus => Some(ExprOp::Add),
        Token::Minus => Some(ExprOp::Subtract),
        Token::Multiply => Some(ExprOp::Multiply),
        Token::Divide => Some(ExprOp::Divide),
        Token::Modulo => Some(ExprOp::Modulo),
        Token::Exponent => Some(ExprOp::Power),
        Token::And => Some(ExprOp::And),
        Token::Or => Some(ExprOp::Or),
        Token::Xor => Some(ExprOp::Xor),
        Token::ShiftLeft => Some(ExprOp::ShiftLeft),
        Token::ShiftRight => Some(ExprOp::ShiftRight),
        _ => None,
    }
}
/// Whether an operator was written as a word.
pub open spec fn wrote(o: ExprOpSpan, w: Word) -> bool {
    &&& w is Token && w->Token_1 == o.pos
    &&& match o.op {
        ExprOp::LeftParen => w->Token_0 is LeftParen,
        ExprOp::Negate => w->Token_0 is Minus,
        ExprOp::Not => w->Token_0 is Not,
        _ => between(w->Token_0) == Some(o.op),
    }
}
/// The parts of an operation on two values.
pub open spec fn operation2(e: Expr) -> Option<(ExprOp, Expr, Expr, LineCol)> {
    match e {
        Expr::Add(b) => Some((ExprOp::Add, b.lhs, b.rhs, b.pos)),
        Expr::Subtract(b) => Some((ExprOp::Subtract, b.lhs, b.rhs, b.pos)),
        Expr::Multiply(b) => Some((ExprOp::Multiply, b.lhs, b.rhs, b.pos)),
        Expr::Divide(b) => Some((ExprOp::Divide, b.lhs, b.rhs, b.pos)),
        Expr::Modulo(b) => Some((ExprOp::Modulo, b.lhs, b.rhs, b.pos)),
        Expr::Power(b) => Some((ExprOp::Power, b.lhs, b.rhs, b.pos)),
        Expr::Equal(b) => Some((ExprOp::Equal, b.lhs, b.rhs, b.pos)),
        Expr::NotEqual(b) => Some((ExprOp::NotEqual, b.lhs, b.rhs, b.pos)),
        Expr::Less(b) => Some((ExprOp::Less, b.lhs, b.rhs, b.pos)),
        Expr::LessEqual(b) => Some((ExprOp::LessEqual, b.lhs, b.rhs, b.pos)),
        Expr::Greater(b) => Some((ExprOp::Greater, b.lhs, b.rhs, b.pos)),
        Expr::GreaterEqual(b) => Some((ExprOp::GreaterEqual, b.lhs, b.rhs, b.pos)),
        Expr::And(b) => Some((ExprOp::And, b.lhs, b.rhs, b.pos)),
        Expr::Or(b) => Some((ExprOp::Or, b.lhs, b.rhs, b.pos)),
        Expr::Xor(b) => Some((ExprOp::Xor, b.lhs, b.rhs, b.pos)),
        Expr::ShiftLeft(b) => Some((ExprOp::ShiftLeft, b.lhs, b.rhs, b.pos)),
        Expr::ShiftRight(b) => Some((ExprOp::ShiftRight, b.lhs, b.rhs, b.pos)),
        _ => None,
    }
}
/// The parts of an operation on one value.
pub open spec fn operation1(e: Expr) -> Option<(ExprOp, Expr, LineCol)> {
    match e {
        Expr::Negate(b) => Some((ExprOp::Negate, b.expr, b.pos)),
        Expr::Not(b) => Some((ExprOp::Not, b.expr, b.pos)),
        _ => None,
    }
}
/// Whether a word alone is a value.
pub open spec fn value(w: Word, e: Expr) -> bool {
    match w {
        Word::Given(x) => x == e,
        Word::Token(t, pos) => match (t, e) {
            (Token::Boolean(v), Expr::Boolean(s)) => s.value == v && s.pos == pos,
            (Token::Double(v), Expr::Double(s)) => s.value == v && s.pos == pos,
            (Token::Integer(v), Expr::Integer(s)) => s.value == v && s.pos == pos,
            (Token::Text(v), Expr::Text(s)) => s.value == v && s.pos == pos,
            (Token::Symbol(v), Expr::Symbol(s)) => s.vref == v && s.pos == pos,
            _ => false,
        },
    }
}

/// How words are grouped.
pub ghost enum Tree {
    Leaf(Word),
    Unary(ExprOpSpan, Word, Box<Tree>),
    Binary(Box<Tree>, ExprOpSpan, Word, Box<Tree>),
    Group(Word, Box<Tree>, Word),
    Call(Box<Tree>, Word, Box<Args>),
}
/// The arguments of a call, with the word that follows each of them.
pub ghost enum Args {
    Empty(Seq<Word>),
    More(Box<Args>, Box<Tree>, Word),
}

/// All the words of a tree, in the order of the text.
pub open spec fn words(t: Tree) -> Seq<Word>
    decreases t
{
    match t {
        Tree::Leaf(w) => seq![w],
        Tree::Unary(_, w, x) => seq![w] + words(*x),
        Tree::Binary(l, _, w, r) => words(*l) + seq![w] + words(*r),
        Tree::Group(a, x, b) => seq![a] + words(*x) + seq![b],
        Tree::Call(f, a, x) => words(*f) + seq![a] + all_words(*x),
    }
}
pub open spec fn all_words(a: Args) -> Seq<Word>
    decreases a
{
    match a {
        Args::Empty(s) => s,
        Args::More(p, t, w) => all_words(*p) + words(*t) + seq![w],
    }
}

/// Whether the operators at the left edge of a tree bind tighter than `p`.
pub open spec fn left_above(t: Tree, p: int) -> bool
    decreases t
{
    match t {
        Tree::Binary(l, o, _, _) => binds(o.op) > p && left_above(*l, p),
        _ => true,
    }
}
/// Whether the operators at the right edge of a tree bind at least as tightly as `p`.
pub open spec fn right_above(t: Tree, p: int) -> bool
    decreases t
{
    match t {
        Tree::Binary(_, o, _, r) => binds(o.op) >= p && right_above(*r, p),
        Tree::Unary(o, _, x) => binds(o.op) >= p && right_above(*x, p),
        _ => true,
    }
}

pub open spec fn is_open(w: Word) -> bool { w is Token && w->Token_0 is LeftParen }
pub open spec fn is_close(w: Word) -> bool { w is Token && w->Token_0 is RightParen }
pub open spec fn is_comma(w: Word) -> bool { w is Token && w->Token_0 is Comma }

/// Whether an expression is what its words mean, given the precedence and the grouping of the operators.
pub open spec fn means(t: Tree, e: Expr) -> bool
    decreases t
{
    match t {
        Tree::Leaf(w) => value(w, e),
        Tree::Unary(o, w, x) => match operation1(e) {
            Some((op, e1, pos)) => op == o.op && pos == o.pos && wrote(o, w) && means(*x, e1) && left_above(*x, binds(op)),
            None => false,
        },
        Tree::Binary(l, o, w, r) => match operation2(e) {
            Some((op, e1, e2, pos)) => op == o.op && pos == o.pos && wrote(o, w) && means(*l, e1) && means(*r, e2)
                && right_above(*l, binds(op)) && left_above(*r, binds(op)),
            None => false,
        },
        Tree::Group(a, x, b) => is_open(a) && is_close(b) && means(*x, e),
        Tree::Call(f, a, x) => is_open(a) && match e {
            Expr::Call(c) => means(*f, Expr::Symbol(SymbolSpan { vref: c.vref, pos: c.vref_pos })) && complete(*x, c.args@),
            _ => false,
        },
    }
}
/// Whether words are some arguments of a call, each followed by a comma.
pub open spec fn partial(a: Args, spans: Seq<ArgSpan>) -> bool
    decreases a
{
    match a {
        Args::Empty(s) => s.len() == 0 && spans.len() == 0,
        Args::More(p, t, w) => {
            &&& spans.len() > 0 && partial(*p, spans.drop_last())
            &&& is_comma(w) && spans.last().sep is Long && spans.last().sep_pos == w->Token_1
            &&& spans.last().expr is Some && means(*t, spans.last().expr->Some_0)
        },
    }
}
/// Whether words are the arguments of a call, with the parenthesis that closes it.
pub open spec fn complete(a: Args, spans: Seq<ArgSpan>) -> bool
    decreases a
{
    match a {
        Args::Empty(s) => spans.len() == 0 && s.len() > 0 && is_close(s.last()) && parens(s),
        Args::More(p, t, w) => {
            &&& spans.len() > 0 && partial(*p, spans.drop_last())
            &&& is_close(w) && spans.last().sep is End && spans.last().sep_pos == w->Token_1
            &&& spans.last().expr is Some && means(*t, spans.last().expr->Some_0)
        },
    }
}
/// Parentheses around nothing are no expression.
pub open spec fn parens(s: Seq<Word>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> is_open(#[trigger] s[i]) || is_close(s[i])
}

/// Whether an expression ends before these words.
pub open spec fn ends(s: Seq<Word>) -> bool {
    s.len() > 0 && s[0] is Token && match s[0]->Token_0 {
        Token::Eof | Token::Eol | Token::As | Token::Comma | Token::Else | Token::Semicolon | Token::Then | Token::To | Token::Step
        | Token::RightParen => true,
        _ => false,
    }
}

/// The result of parsing the words `all` up to `rest`.
pub open spec fn parsed(all: Seq<Word>, rest: Seq<Word>, r: Option<Expr>) -> bool {
    match r {
        Some(e) => exists|t: Tree| #[trigger] means(t, e) && all == words(t) + rest,
        None => exists|j: Seq<Word>| #[trigger] parens(j) && all == j + rest,
    }
}
pub open spec fn lead(first: Option<Expr>) -> Seq<Word> {
    match first {
        Some(e) => seq![Word::Given(e)],
        None => Seq::empty(),
    }
}

// The stacks of the algorithm.

pub type Ops = Seq<(ExprOpSpan, Word)>;

pub open spec fn top_is(o: Seq<ExprOpSpan>, p: int) -> bool {
    o.len() == 0 || o.last().op is LeftParen || binds(o.last().op) < p
}

/// Whether the stacks hold these trees and words: `need` tells whether a value comes next.
pub open spec fn stacked(t: Seq<Tree>, w: Seq<Word>, e: Seq<Expr>, o: Seq<ExprOpSpan>, need: bool) -> bool
    decreases o.len(), (if need { 0int } else { 1int })
{
    if need {
        if o.len() == 0 {
            t.len() == 0 && e.len() == 0 && w.len() == 0
        } else {
            &&& w.len() == o.len() && wrote(o.last(), w.last())
            &&& if binary(o.last().op) {
                &&& stacked(t, w.drop_last(), e, o.drop_last(), false)
                &&& right_above(t.last(), binds(o.last().op))
                &&& top_is(o.drop_last(), binds(o.last().op))
            } else {
                stacked(t, w.drop_last(), e, o.drop_last(), true)
            }
        }
    } else {
        &&& t.len() > 0 && e.len() > 0
        &&& means(t.last(), e.last())
        &&& o.len() == 0 || o.last().op is LeftParen || left_above(t.last(), binds(o.last().op))
        &&& stacked(t.drop_last(), w, e.drop_last(), o, true)
    }
}
/// The words on the stacks, in the order of the text.
pub open spec fn flat(t: Seq<Tree>, w: Seq<Word>, o: Seq<ExprOpSpan>, need: bool) -> Seq<Word>
    decreases o.len(), (if need { 0int } else { 1int })
{
    if need {
        if o.len() == 0 {
            Seq::empty()
        } else {
            flat(t, w.drop_last(), o.drop_last(), !binary(o.last().op)) + seq![w.last()]
        }
    } else {
        flat(t.drop_last(), w, o, true) + words(t.last())
    }
}
/// The number of operators that wait for two values.
pub open spec fn pending(o: Seq<ExprOpSpan>) -> int
    decreases o.len()
{
    if o.len() == 0 { 0 } else { pending(o.drop_last()) + if binary(o.last().op) { 1int } else { 0int } }
}
pub open spec fn settled(t: Tree) -> bool { !(t is Unary) && !(t is Binary) }
pub open spec fn has_op(o: Seq<ExprOpSpan>) -> bool {
    exists|i: int| 0 <= i < o.len() && !(#[trigger] o[i].op is LeftParen)
}
pub open spec fn has_paren(o: Seq<ExprOpSpan>) -> bool {
    exists|i: int| 0 <= i < o.len() && #[trigger] o[i].op is LeftParen
}
/// Whether nothing but parentheses was found if the stacks hold nothing else.
pub open spec fn junk(e: Seq<Expr>, o: Seq<ExprOpSpan>, all: Seq<Word>, rest: Seq<Word>) -> bool {
    e.len() > 0 || has_op(o) || exists|j: Seq<Word>| #[trigger] parens(j) && all == j + rest
}

/// The state between words: either the stacks hold the words so far, or there are not enough values for the operators.
#[verifier::opaque]
pub open spec fn state(e: Seq<Expr>, o: Seq<ExprOpSpan>, need: bool, all: Seq<Word>, rest: Seq<Word>) -> bool {
    &&& junk(e, o, all, rest)
    &&& e.len() < pending(o) + (if need { 0int } else { 1int })
        || exists|t: Seq<Tree>, w: Seq<Word>| #[trigger] stacked(t, w, e, o, need) && all == flat(t, w, o, need) + rest && (!need ==> settled(t.last()))
}
/// The state while operators that bind at least as tightly as `p` are applied.
#[verifier::opaque]
pub open spec fn popping(e: Seq<Expr>, o: Seq<ExprOpSpan>, all: Seq<Word>, rest: Seq<Word>, p: int) -> bool {
    &&& junk(e, o, all, rest)
    &&& e.len() <= pending(o)
        || exists|t: Seq<Tree>, w: Seq<Word>| #[trigger] stacked(t, w, e, o, false) && all == flat(t, w, o, false) + rest && right_above(t.last(), p)
}

proof fn counted(t: Seq<Tree>, w: Seq<Word>, e: Seq<Expr>, o: Seq<ExprOpSpan>, need: bool)
    requires stacked(t, w, e, o, need)
    ensures e.len() == pending(o) + (if need { 0int } else { 1int }), t.len() == e.len(), w.len() == o.len()
    decreases o.len(), (if need { 0int } else { 1int })
{
    if need {
        if o.len() > 0 {
            counted(t, w.drop_last(), e, o.drop_last(), !binary(o.last().op));
        }
    } else {
        counted(t.drop_last(), w, e.drop_last(), o, true);
    }
}
proof fn has_op_push(o: Seq<ExprOpSpan>, x: ExprOpSpan)
    ensures has_op(o.push(x)) == (has_op(o) || !(x.op is LeftParen)), pending(o.push(x)) == pending(o) + (if binary(x.op) { 1int } else { 0int })
{
    assert(o.push(x).drop_last() =~= o);
    if has_op(o) {
        let i = choose|i: int| 0 <= i < o.len() && !(#[trigger] o[i].op is LeftParen);
        assert(o.push(x)[i] == o[i]);
    }
    assert(o.push(x)[o.len() as int] == x);
    if has_op(o.push(x)) && x.op is LeftParen {
        let i = choose|i: int| 0 <= i < o.push(x).len() && !(#[trigger] o.push(x)[i].op is LeftParen);
        assert(o[i] == o.push(x)[i]);
    }
}
pub broadcast proof fn has_paren_last(o: Seq<ExprOpSpan>)
    requires o.len() > 0
    ensures #[trigger] has_paren(o) == (o.last().op is LeftParen || has_paren(o.drop_last()))
{
    if has_paren(o) && !(o.last().op is LeftParen) {
        let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i].op is LeftParen;
        assert(o.drop_last()[i] == o[i]);
    }
    if has_paren(o.drop_last()) {
        let i = choose|i: int| 0 <= i < o.drop_last().len() && #[trigger] o.drop_last()[i].op is LeftParen;
        assert(o.drop_last()[i] == o[i]);
    }
    if o.last().op is LeftParen {
        assert(o[o.len() - 1].op is LeftParen);
    }
}
/// A parenthesis keeps what was found so far.
proof fn junk_paren(all: Seq<Word>, rest: Seq<Word>)
    requires
        rest.len() > 0, is_open(rest[0]) || is_close(rest[0]),
        exists|j: Seq<Word>| #[trigger] parens(j) && all == j + rest,
    ensures
        exists|j: Seq<Word>| #[trigger] parens(j) && all == j + rest.skip(1),
{
    let j = choose|j: Seq<Word>| #[trigger] parens(j) && all == j + rest;
    let k = j.push(rest[0]);
    assert forall|i: int| 0 <= i < k.len() implies is_open(#[trigger] k[i]) || is_close(k[i]) by {
        if i < j.len() { assert(k[i] == j[i]); }
    }
    assert(parens(k));
    assert(all =~= k + rest.skip(1));
}

pub broadcast proof fn popped<A>(s: Seq<A>, n: int)
    requires n == s.len() - 1, n >= 0
    ensures #[trigger] s.subrange(0, n) == s.drop_last()
{}
pub broadcast proof fn pushed<A>(s: Seq<A>, x: A)
    ensures #[trigger] s.push(x).drop_last() =~= s
{}
pub broadcast proof fn restored<A>(s: Seq<A>, x: A)
    requires s.len() > 0, x == s.last()
    ensures #[trigger] s.drop_last().push(x) =~= s
{}
pub broadcast proof fn at_start(rest: Seq<Word>)
    ensures #[trigger] state(Seq::<Expr>::empty(), Seq::<ExprOpSpan>::empty(), true, rest, rest)
{
    reveal(state);
    let w = Seq::<Word>::empty();
    let t = Seq::<Tree>::empty();
    assert(parens(w));
    assert(rest =~= w + rest);
    assert(stacked(t, w, Seq::<Expr>::empty(), Seq::<ExprOpSpan>::empty(), true));
    assert(flat(t, w, Seq::<ExprOpSpan>::empty(), true) =~= w);
}
pub broadcast proof fn on_value(e: Seq<Expr>, o: Seq<ExprOpSpan>, all: Seq<Word>, rest: Seq<Word>, x: Expr)
    requires
        state(e, o, true, all, rest), rest.len() > 0, value(rest[0], x),
    ensures
        #[trigger] state(e.push(x), o, false, all, rest.skip(1)),
{
    reveal(state);
    assert(e.push(x).len() > 0);
    if e.len() >= pending(o) {
        let (t, w) = choose|t: Seq<Tree>, w: Seq<Word>| #[trigger] stacked(t, w, e, o, true) && all == flat(t, w, o, true) + rest;
        let leaf = Tree::Leaf(rest[0]);
        let t2 = t.push(leaf);
        assert(t2.drop_last() =~= t);
        assert(e.push(x).drop_last() =~= e);
        assert(stacked(t2, w, e.push(x), o, false));
        assert(all =~= flat(t2, w, o, false) + rest.skip(1));
    }
}
pub broadcast proof fn on_prefix(e: Seq<Expr>, o: Seq<ExprOpSpan>, all: Seq<Word>, rest: Seq<Word>, x: ExprOpSpan)
    requires
        state(e, o, true, all, rest), rest.len() > 0, !binary(x.op), wrote(x, rest[0]),
    ensures
        #[trigger] state(e, o.push(x), true, all, rest.skip(1)),
{
    reveal(state);
    has_op_push(o, x);
    if x.op is LeftParen && e.len() == 0 && !has_op(o) {
        junk_paren(all, rest);
    }
    if e.len() >= pending(o) {
        let (t, w) = choose|t: Seq<Tree>, w: Seq<Word>| #[trigger] stacked(t, w, e, o, true) && all == flat(t, w, o, true) + rest;
        counted(t, w, e, o, true);
        let w2 = w.push(rest[0]);
        assert(w2.drop_last() =~= w);
        assert(o.push(x).drop_last() =~= o);
        assert(stacked(t, w2, e, o.push(x), true));
        assert(all =~= flat(t, w2, o.push(x), true) + rest.skip(1));
    }
}
pub broadcast proof fn on_call(e: Seq<Expr>, o: Seq<ExprOpSpan>, all: Seq<Word>, rest: Seq<Word>, rest2: Seq<Word>, x: Expr)
    requires
        state(e, o, false, all, rest), rest.len() > 0, is_open(rest[0]), e.len() > 0,
        e.last() is Symbol, x is Call, x->Call_0.vref == e.last()->Symbol_0.vref, x->Call_0.vref_pos == e.last()->Symbol_0.pos,
        arguments(rest.skip(1), rest2, x->Call_0.args@),
    ensures
        #![trigger state(e, o, false, all, rest), state(e.drop_last().push(x), o, false, all, rest2)]
        state(e.drop_last().push(x), o, false, all, rest2),
{
    reveal(state);
    let e2 = e.drop_last().push(x);
    assert(e2.len() > 0);
    if e.len() >= pending(o) + 1 {
        let (t, w) = choose|t: Seq<Tree>, w: Seq<Word>| #[trigger] stacked(t, w, e, o, false) && all == flat(t, w, o, false) + rest && settled(t.last());
        let a = choose|a: Args| #[trigger] complete(a, x->Call_0.args@) && rest.skip(1) == all_words(a) + rest2;
        let call = Tree::Call(Box::new(t.last()), rest[0], Box::new(a));
        let t2 = t.drop_last().push(call);
        assert(t2.drop_last() =~= t.drop_last());
        assert(e2.drop_last() =~= e.drop_last());
        assert(means(call, x));
        assert(stacked(t2, w, e2, o, false));
        assert(rest =~= seq![rest[0]] + rest.skip(1));
        assert(all =~= flat(t2, w, o, false) + rest2);
    }
}
pub broadcast proof fn on_pop(e: Seq<Expr>, o: Seq<ExprOpSpan>, need: bool, all: Seq<Word>, rest: Seq<Word>, p: int)
    requires
        #[trigger] state(e, o, need, all, rest),
    ensures
        #[trigger] popping(e, o, all, rest, p),
{
    reveal(state);
    reveal(popping);
    if e.len() >= pending(o) + (if need { 0int } else { 1int }) {
        let (t, w) = choose|t: Seq<Tree>, w: Seq<Word>| #[trigger] stacked(t, w, e, o, need) && all == flat(t, w, o, need) + rest && (!need ==> settled(t.last()));
        counted(t, w, e, o, need);
    }
}
/// What an operator does to the values.
pub open spec fn applied(x: ExprOpSpan, e: Seq<Expr>, e2: Seq<Expr>) -> bool {
    if x.op is LeftParen {
        e2 == e
    } else if unary(x.op) {
        &&& e.len() >= 1 && e2.len() == e.len()
        &&& e2.drop_last() =~= e.drop_last()
        &&& operation1(e2.last()) == Some((x.op, e.last(), x.pos))
    } else {
        &&& e.len() >= 2 && e2.len() == e.len() - 1
        &&& e2.drop_last() =~= e.drop_last().drop_last()
        &&& operation2(e2.last()) == Some((x.op, e[e.len() - 2], e.last(), x.pos))
    }
}
pub broadcast proof fn on_applied(e: Seq<Expr>, o: Seq<ExprOpSpan>, all: Seq<Word>, rest: Seq<Word>, p: int, e2: Seq<Expr>)
    requires
        #[trigger] popping(e, o, all, rest, p), o.len() > 0, !(o.last().op is LeftParen), binds(o.last().op) >= p,
        applied(o.last(), e, e2),
    ensures
        #[trigger] popping(e2, o.drop_last(), all, rest, p),
{
    reveal(popping);
    let x = o.last();
    let o2 = o.drop_last();
    assert(e2.len() > 0);
    if e.len() > pending(o) {
        let (t, w) = choose|t: Seq<Tree>, w: Seq<Word>| #[trigger] stacked(t, w, e, o, false) && all == flat(t, w, o, false) + rest && right_above(t.last(), p);
        counted(t, w, e, o, false);
        let t1 = t.drop_last();
        let e1 = e.drop_last();
        let w2 = w.drop_last();
        assert(stacked(t1, w, e1, o, true));
        if unary(x.op) {
            let tree = Tree::Unary(x, w.last(), Box::new(t.last()));
            let t2 = t1.push(tree);
            assert(t2.drop_last() =~= t1);
            assert(means(tree, e2.last()));
            assert(stacked(t1, w2, e1, o2, true));
            assert(stacked(t2, w2, e2, o2, false));
            assert(flat(t1, w, o, true) == flat(t1, w2, o2, true) + seq![w.last()]);
            assert(flat(t2, w2, o2, false) == flat(t1, w2, o2, true) + words(tree));
            assert(flat(t, w, o, false) =~= flat(t2, w2, o2, false));
        } else {
            assert(stacked(t1, w2, e1, o2, false));
            assert(e1.last() == e[e.len() - 2]);
            let tree = Tree::Binary(Box::new(t1.last()), x, w.last(), Box::new(t.last()));
            let t2 = t1.drop_last().push(tree);
            assert(t2.drop_last() =~= t1.drop_last());
            assert(means(tree, e2.last()));
            assert(stacked(t1.drop_last(), w2, e1.drop_last(), o2, true));
            assert(o2.len() == 0 || o2.last().op is LeftParen || left_above(tree, binds(o2.last().op)));
            assert(stacked(t2, w2, e2, o2, false));
            assert(flat(t1, w, o, true) == flat(t1, w2, o2, false) + seq![w.last()]);
            assert(flat(t1, w2, o2, false) == flat(t1.drop_last(), w2, o2, true) + words(t1.last()));
            assert(flat(t2, w2, o2, false) == flat(t1.drop_last(), w2, o2, true) + words(tree));
            assert(flat(t, w, o, false) =~= flat(t2, w2, o2, false));
        }
    }
}
pub broadcast proof fn on_binary(e: Seq<Expr>, o: Seq<ExprOpSpan>, all: Seq<Word>, rest: Seq<Word>, x: ExprOpSpan)
    requires
        popping(e, o, all, rest, binds(x.op)), rest.len() > 0, binary(x.op), wrote(x, rest[0]), top_is(o, binds(x.op)),
    ensures
        #[trigger] state(e, o.push(x), true, all, rest.skip(1)),
{
    reveal(popping);
    reveal(state);
    has_op_push(o, x);
    if e.len() > pending(o) {
        let (t, w) = choose|t: Seq<Tree>, w: Seq<Word>| #[trigger] stacked(t, w, e, o, false) && all == flat(t, w, o, false) + rest && right_above(t.last(), binds(x.op));
        counted(t, w, e, o, false);
        let w2 = w.push(rest[0]);
        assert(w2.drop_last() =~= w);
        assert(o.push(x).drop_last() =~= o);
        assert(stacked(t, w2, e, o.push(x), true));
        assert(all =~= flat(t, w2, o.push(x), true) + rest.skip(1));
    }
}
pub broadcast proof fn on_close(e: Seq<Expr>, o: Seq<ExprOpSpan>, all: Seq<Word>, rest: Seq<Word>, p: int)
    requires
        #[trigger] popping(e, o, all, rest, p), o.len() > 0, o.last().op is LeftParen, rest.len() > 0, is_close(rest[0]),
    ensures
        #[trigger] state(e, o.drop_last(), false, all, rest.skip(1)),
{
    reveal(popping);
    reveal(state);
    let x = o.last();
    let o2 = o.drop_last();
    assert(o2.push(x) =~= o);
    has_op_push(o2, x);
    if e.len() == 0 && !has_op(o) {
        junk_paren(all, rest);
    }
    if e.len() > pending(o) {
        let (t, w) = choose|t: Seq<Tree>, w: Seq<Word>| #[trigger] stacked(t, w, e, o, false) && all == flat(t, w, o, false) + rest && right_above(t.last(), p);
        counted(t, w, e, o, false);
        let w2 = w.drop_last();
        let tree = Tree::Group(w.last(), Box::new(t.last()), rest[0]);
        let t2 = t.drop_last().push(tree);
        assert(t2.drop_last() =~= t.drop_last());
        assert(stacked(t.drop_last(), w, e.drop_last(), o, true));
        assert(stacked(t.drop_last(), w2, e.drop_last(), o2, true));
        assert(means(tree, e.last()));
        assert(stacked(t2, w2, e, o2, false));
        assert(flat(t.drop_last(), w, o, true) == flat(t.drop_last(), w2, o2, true) + seq![w.last()]);
        assert(flat(t2, w2, o2, false) == flat(t.drop_last(), w2, o2, true) + words(tree));
        assert(all =~= flat(t2, w2, o2, false) + rest.skip(1));
    }
}
pub broadcast proof fn at_end(e: Seq<Expr>, o: Seq<ExprOpSpan>, all: Seq<Word>, rest: Seq<Word>, p: int)
    requires
        #[trigger] popping(e, o, all, rest, p), o.len() == 0,
    ensures
        parsed(all, rest, if e.len() == 0 { None } else { Some(e.last()) }),
{
    reveal(popping);
    if e.len() > pending(o) {
        let (t, w) = choose|t: Seq<Tree>, w: Seq<Word>| #[trigger] stacked(t, w, e, o, false) && all == flat(t, w, o, false) + rest && right_above(t.last(), p);
        counted(t, w, e, o, false);
        assert(means(t.last(), e.last()));
        assert(stacked(t.drop_last(), w, e.drop_last(), o, true));
        assert(flat(t.drop_last(), w, o, true) =~= Seq::empty());
        assert(flat(t, w, o, false) =~= words(t.last()));
    }
}

// Arguments.

pub open spec fn arguments(all: Seq<Word>, rest: Seq<Word>, spans: Seq<ArgSpan>) -> bool {
    exists|a: Args| #[trigger] complete(a, spans) && all == all_words(a) + rest
}
/// The words up to `mid` are some arguments, each followed by a comma.
#[verifier::opaque]
pub open spec fn listed(spans: Seq<ArgSpan>, all: Seq<Word>, mid: Seq<Word>) -> bool {
    exists|a: Args| #[trigger] partial(a, spans) && all == all_words(a) + mid
}
/// The same with one more expression, which has not been added to the others.
#[verifier::opaque]
pub open spec fn listing(spans: Seq<ArgSpan>, last: Option<Expr>, all: Seq<Word>, rest: Seq<Word>) -> bool {
    exists|mid: Seq<Word>| #[trigger] listed(spans, all, mid) && parsed(mid, rest, last)
}
pub broadcast proof fn no_arguments(spans: Seq<ArgSpan>, all: Seq<Word>)
    requires spans.len() == 0
    ensures #[trigger] listed(spans, all, all)
{
    reveal(listed);
    let a = Args::Empty(Seq::<Word>::empty());
    assert(partial(a, spans));
    assert(all =~= all_words(a) + all);
}
pub broadcast proof fn on_argument(spans: Seq<ArgSpan>, all: Seq<Word>, mid: Seq<Word>, rest: Seq<Word>, last: Option<Expr>)
    requires
        listed(spans, all, mid), #[trigger] parsed(mid, rest, last),
    ensures
        #[trigger] listing(spans, last, all, rest),
{
    reveal(listing);
}
pub broadcast proof fn on_comma(spans: Seq<ArgSpan>, last: Option<Expr>, all: Seq<Word>, rest: Seq<Word>, x: ArgSpan)
    requires
        #[trigger] listing(spans, last, all, rest), x.expr == last, last is Some, rest.len() > 0,
        is_comma(rest[0]), x.sep is Long, x.sep_pos == rest[0]->Token_1,
    ensures
        #[trigger] listed(spans.push(x), all, rest.skip(1)),
{
    reveal(listed);
    reveal(listing);
    let mid = choose|mid: Seq<Word>| #[trigger] listed(spans, all, mid) && parsed(mid, rest, last);
    let a = choose|a: Args| #[trigger] partial(a, spans) && all == all_words(a) + mid;
    let t = choose|t: Tree| #[trigger] means(t, x.expr->Some_0) && mid == words(t) + rest;
    let b = Args::More(Box::new(a), Box::new(t), rest[0]);
    assert(spans.push(x).drop_last() =~= spans);
    assert(partial(b, spans.push(x)));
    assert(all =~= all_words(b) + rest.skip(1));
}
pub broadcast proof fn on_last(spans: Seq<ArgSpan>, last: Option<Expr>, all: Seq<Word>, rest: Seq<Word>, x: ArgSpan)
    requires
        #[trigger] listing(spans, last, all, rest), x.expr == last, last is Some, rest.len() > 0,
        is_close(rest[0]), x.sep is End, x.sep_pos == rest[0]->Token_1,
    ensures
        #[trigger] arguments(all, rest.skip(1), spans.push(x)),
{
    reveal(listed);
    reveal(listing);
    let mid = choose|mid: Seq<Word>| #[trigger] listed(spans, all, mid) && parsed(mid, rest, last);
    let a = choose|a: Args| #[trigger] partial(a, spans) && all == all_words(a) + mid;
    let t = choose|t: Tree| #[trigger] means(t, x.expr->Some_0) && mid == words(t) + rest;
    let b = Args::More(Box::new(a), Box::new(t), rest[0]);
    assert(spans.push(x).drop_last() =~= spans);
    assert(complete(b, spans.push(x)));
    assert(all =~= all_words(b) + rest.skip(1));
}
pub broadcast proof fn on_nothing(spans: Seq<ArgSpan>, all: Seq<Word>, rest: Seq<Word>)
    requires
        #[trigger] listing(spans, None, all, rest), spans.len() == 0, rest.len() > 0, is_close(rest[0]),
    ensures
        #[trigger] arguments(all, rest.skip(1), spans),
{
    reveal(listed);
    reveal(listing);
    let mid = choose|mid: Seq<Word>| #[trigger] listed(spans, all, mid) && parsed(mid, rest, None);
    let a = choose|a: Args| #[trigger] partial(a, spans) && all == all_words(a) + mid;
    let j = choose|j: Seq<Word>| #[trigger] parens(j) && mid == j + rest;
    assert(all_words(a) =~= Seq::empty());
    let k = j.push(rest[0]);
    assert forall|i: int| 0 <= i < k.len() implies is_open(#[trigger] k[i]) || is_close(k[i]) by {
        if i < j.len() { assert(k[i] == j[i]); }
    }
    let b = Args::Empty(k);
    assert(complete(b, spans));
    assert(all =~= all_words(b) + rest.skip(1));
}
"""

ALL = """
        broadcast use {at_start, on_value, on_prefix, on_call, on_pop, on_applied, on_binary, on_close, at_end, has_paren_last, popped, pushed, restored};
"""
LIST = """
        broadcast use {no_arguments, on_argument, on_comma, on_last, on_nothing};
"""

# Stands for Iterator::any.
ANY = """
fn any_paren(op_spans: &Vec<ExprOpSpan>) -> (r: bool)
    ensures r == has_paren(op_spans@)
{
    for i in 0..op_spans.len()
        invariant forall|j: int| 0 <= j < i ==> !(#[trigger] op_spans@[j].op is LeftParen)
    {
        if op_spans[i].op == ExprOp::LeftParen { return true; }
    }
    false
}
"""


def closure(body):
    """Splits the closure that takes operands from the function that contains it."""
    m = re.search(r"let mut handle_operand = \|e, pos\| (?=\{)", body)
    if not m:
        raise Lost("there is no closure handle_operand")
    z = closing(blank(body), m.end())
    if body[z + 1] != ";":
        raise Lost("the closure handle_operand is something else")
    inner = re.sub(r"\bneed_operand\b", "*need_operand", body[m.end():z + 1])
    return inner, body[:m.start()] + body[z + 2:]


def operators(u, tail=True):
    f = File(PARSER)
    ast = File("core/src/ast.rs")
    u.add("verus! {")
    u.add("#[derive(Clone, Copy)]\n" + File("core/src/reader.rs").item("struct", "LineCol"))
    u.add(OPEN)
    u.add("#[derive(Clone, Copy)]\n" + ast.item("enum", "ExprType"))
    for name in ("BooleanSpan", "DoubleSpan", "IntegerSpan", "TextSpan", "SymbolSpan", "UnaryOpSpan", "BinaryOpSpan", "CallSpan", "ArgSpan"):
        u.add(ast.item("struct", name))
    u.add(ast.item("enum", "ArgSep"))
    u.add(ast.item("enum", "Expr"))
    lexer = File("core/src/lexer.rs")
    u.add(lexer.item("enum", "Token"))
    u.add(re.sub(r"(pub\(crate\) )?\b(token|pos|length):", r"pub \2:", lexer.item("struct", "TokenSpan").replace("#[allow(unused)]", "")))
    u.add("#[derive(PartialEq, Eq, Structural)]\n" + re.sub(r"^(pub )?enum", "pub enum", f.item("enum", "ExprOp")))
    u.add(re.sub(r"(?m)^    (op|pos):", r"    pub \1:", re.sub(r"^(pub )?struct", "pub struct", f.item("struct", "ExprOpSpan"))))
    u.add(LEXER)
    u.add(MEANING)
    op = ("impl ExprOp {", "}")
    span = ("impl ExprOpSpan {", "}")
    panics = [(r"(?<!\w)panic!\((?:[^()]|\([^()]*\))*\)", "unreached()", "a panic has to be unreachable")]
    u.fn(f, "from", within="impl ExprOp", contract="""
    requires
        between(t) is Some, !(t is Minus),
    ensures
        between(t) == Some(r),
""", wrap=op, subst=panics)
    u.fn(f, "priority", within="impl ExprOp", contract="""
    ensures r == binds(*self)
""", wrap=op)
    u.fn(f, "new", within="impl ExprOpSpan", contract="ensures r.op == op, r.pos == pos", wrap=span)
    texts = [(r'"[^"]*"\.to_owned\(\)', "opaque()", "the text of errors is opaque"),
             (r"msg\.to_owned\(\)", "opaque()", "the text of errors is opaque"),
             (r"format!\((?:[^()]|\([^()]*\))*\)", "opaque()", "the text of errors is opaque")]
    for n, name in ((1, "Unary"), (2, "Binary")):
        inner = "apply%d" % n
        at = f.function(inner, "fn apply")
        if not re.search(r"f:\s*fn\(Box<%sOpSpan>\) -> Expr" % name, at[0]) or not re.search(r"exprs\.push\(f\(Box::from\(.*\)\)\);\s*Ok\(\(\)\)", at[1], re.S):
            raise Lost("%s does not push what a constructor returns" % inner)
        u.fn(f, inner, within="fn apply", contract="""
    ensures
        r is Ok ==> %s,
""" % ("old(exprs)@.len() >= 1 && final(exprs)@ == old(exprs)@.drop_last() && *r->Ok_0 == (UnaryOpSpan { expr: old(exprs)@.last(), pos })" if n == 1 else
       "old(exprs)@.len() >= 2 && final(exprs)@ == old(exprs)@.drop_last().drop_last() && *r->Ok_0 == (BinaryOpSpan { lhs: old(exprs)@[old(exprs)@.len() - 2], rhs: old(exprs)@.last(), pos })"),
             subst=texts + [
                 (r",\s*f:\s*fn\(Box<\w+>\) -> Expr", "", "the constructor is called by the caller instead of being passed to %s" % inner),
                 (r"Result<\(\)>", "Result<Box<%sOpSpan>>" % name, ""),
                 (r"exprs\.push\(f\(Box::from\((.*)\)\)\);\s*Ok\(\(\)\)", r"Ok(Box::new(\1))", "Box::from is Box::new"),
                 (r"Ok\(Box::new\((.*)\)\)\s*\}", r"Ok(Box::new(\1)) }", "")] if n == 1 else texts + [
                 (r",\s*f:\s*fn\(Box<\w+>\) -> Expr", "", "the constructor is called by the caller instead of being passed to %s" % inner),
                 (r"Result<\(\)>", "Result<Box<%sOpSpan>>" % name, ""),
                 (r"(?s)exprs\.push\(f\(Box::from\((.*)\)\)\);\s*Ok\(\(\)\)", r"Ok(Box::new(\1))", "Box::from is Box::new")])
    u.fn(f, "apply", within="impl ExprOpSpan", contract="""
    ensures
        r is Ok ==> applied(*self, old(exprs)@, final(exprs)@),
""", wrap=span, hoist=("apply1", "apply2"), subst=[
        (r"(apply[12])\(exprs, self\.pos, (Expr::\w+)\)", r"{ let span = \1(exprs, self.pos)?; exprs.push(\2(span)); Ok(()) }", "")],
         end="")
    return f, texts, panics


def grammar(u):
    f, texts, panics = operators(u)
    parser = ("impl Parser {", "}")
    u.fn(f, "parse_comma_separated_exprs", contract="""
    ensures
        r is Ok ==> arguments(old(self).lexer.rest(), final(self).lexer.rest(), r->Ok_0@) && final(self).lexer.rest().len() <= old(self).lexer.rest().len(),
    decreases old(self).lexer.rest().len(), 2int,
""", wrap=parser, subst=texts, start=LIST + """
        let ghost all = self.lexer.rest();
""", loops=["""
    invariant_except_break
        listing(spans@, prev_expr, all, self.lexer.rest()), ends(self.lexer.rest()),
        is_first ==> spans@.len() == 0,
    invariant
        self.lexer.rest().len() <= all.len(), all == old(self).lexer.rest(),
    ensures
        arguments(all, self.lexer.rest(), spans@),
    decreases self.lexer.rest().len(),
"""], loop_start={0: LIST})
    u.add(ANY)
    inner, _ = closure(f.function("parse_expr")[1])
    u.fn(File(PARSER, "fn handle_operand(need_operand: &mut bool, exprs: &mut Vec<Expr>, e: Expr, pos: LineCol) -> Result<()> " + inner), "handle_operand", contract="""
    ensures
        r is Ok ==> *old(need_operand) && !*final(need_operand) && final(exprs)@ == old(exprs)@.push(e),
""", subst=texts)
    kept = "self.lexer.rest() == before.skip(1), before.len() > 0,"
    pops = ("""
    invariant
        popping(exprs@, op_spans@, all, before, binds(op)), %s
    ensures
        top_is(op_spans@, binds(op)),
    decreases op_spans@.len(),
""" % kept)
    u.fn(f, "parse_expr", contract="""
    ensures
        r is Ok ==> parsed(lead(first) + old(self).lexer.rest(), final(self).lexer.rest(), r->Ok_0) && ends(final(self).lexer.rest())
            && final(self).lexer.rest().len() <= old(self).lexer.rest().len(),
        r is Ok && first is None ==> parsed(old(self).lexer.rest(), final(self).lexer.rest(), r->Ok_0),
    decreases old(self).lexer.rest().len(), 1int,
""", wrap=parser, rewrite=(lambda body: closure(body)[1], "its closure handle_operand becomes a function"),
         subst=[(r"\bhandle_operand\((?!&)", "handle_operand(&mut need_operand, &mut exprs, ", ""),
                (r"Token::RightParen if (.*?) => \{", r"Token::RightParen => if \1 {", "a guard becomes an if"),
                (r"op_spans\.iter\(\)\.any\(\|eos\| eos\.op == ExprOp::LeftParen\)", "any_paren(&op_spans)", "Iterator::any becomes a loop"),
                (r'\bassert!\(found, "[^"]*"\);', "if !found { unreached() }", "an assertion is proved"),
                ] + texts + panics,
         start=ALL + """
        let ghost all = lead(first) + self.lexer.rest();
        proof {
            let rest = self.lexer.rest();
            if first is Some {
                assert(all.skip(1) =~= rest);
                assert(all[0] == Word::Given(first->Some_0));
            } else {
                assert(all =~= rest);
            }
            assert(state(Seq::<Expr>::empty(), Seq::<ExprOpSpan>::empty(), true, all, all));
        }
""", loops=["""
    invariant_except_break
        state(exprs@, op_spans@, need_operand, all, self.lexer.rest()),
    invariant
        self.lexer.rest().len() <= old(self).lexer.rest().len(),
    ensures
        state(exprs@, op_spans@, need_operand, all, self.lexer.rest()), ends(self.lexer.rest()),
    decreases self.lexer.rest().len(),
""", """
    invariant_except_break
        popping(exprs@, op_spans@, all, before, -1), has_paren(op_spans@), !found,
    invariant
        is_close(before[0]), %s
    ensures
        found, state(exprs@, op_spans@, false, all, before.skip(1)),
    decreases op_spans@.len(),
""" % kept, pops, pops, """
    invariant
        popping(exprs@, op_spans@, all, self.lexer.rest(), -1),
    ensures
        op_spans@.len() == 0,
    decreases op_spans@.len(),
"""], loop_start={0: ALL + "        let ghost before = self.lexer.rest();\n", 1: ALL, 2: ALL, 3: ALL, 4: ALL})
    u.fn(f, "parse_required_expr", contract="""
    ensures
        r is Ok ==> parsed(old(self).lexer.rest(), final(self).lexer.rest(), Some(r->Ok_0)) && ends(final(self).lexer.rest()),
""", wrap=parser, subst=texts, start="""
        proof { assert(lead(None) + self.lexer.rest() =~= self.lexer.rest()); }
""")
    u.add("}\nfn main() {}")


UNITS = [grammar]
