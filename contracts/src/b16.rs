//! P16 on whole programs.

use crate::basic::*;
use crate::nd::Nd;
use endbasic_core::ConstantDatum;

/// Expressions over texts.
#[derive(Clone, Debug)]
enum X {
    /// Character by character.
    Codes(Vec<u32>),
    /// As written between quotes.
    Quoted(Vec<u32>),
    Var(usize),
    Int(i32),
    Double(f64),
    Bool(bool),
    Join(Box<X>, Box<X>),
    Call(&'static str, Vec<X>),
}

#[derive(Clone, Debug)]
enum R {
    Text(Vec<u32>),
    Int(i32),
    Double(f64),
    Bool(bool),
}

impl R {
    fn text(self) -> Vec<u32> {
        match self {
            R::Text(t) => t,
            r => panic!("{r:?}"),
        }
    }
    fn int(self) -> i64 {
        match self {
            R::Int(i) => i.into(),
            r => panic!("{r:?}"),
        }
    }
}

/// Characters of all widths and kinds.
const POOL: [u32; 24] = [
    0x61, 0x62, 0x7a, 0x41, 0x5a, 0x20, 0x20, 0x09, 0x2e, 0x2d, 0x31, 0x65, 0xe9, 0xc9, 0xdf, 0xa0, 0x3b1, 0x391, 0x2003, 0x3000, 0x4e2d, 0xfffd, 0x1f600, 0x10400,
];

fn some(n: &mut impl Nd, max: usize) -> Vec<u32> {
    let (len, mix) = (n.below(max + 1), n.below(3));
    (0..len).map(|_| if mix == 0 { POOL[[0, 1, 12][n.below(3)]] } else { POOL[n.below(POOL.len())] }).collect()
}

fn text(n: &mut impl Nd, depth: usize) -> X {
    let sub = |n: &mut _| Box::from(text(n, depth - 1));
    match n.below(if depth == 0 { 5 } else { 15 }) {
        0 => X::Codes(some(n, 4)),
        1 | 2 => X::Quoted(some(n, 6)),
        3 | 4 => X::Var(n.below(2)),
        5 => X::Join(sub(n), sub(n)),
        6 | 7 => X::Call(["LEFT", "RIGHT"][n.below(2)], vec![*sub(n), count(n, depth - 1)]),
        8 => X::Call("MID", vec![*sub(n), count(n, depth - 1)]),
        9 | 10 => X::Call("MID", vec![*sub(n), count(n, depth - 1), count(n, depth - 1)]),
        11 => X::Call(["LTRIM", "RTRIM", "TRIM"][n.below(3)], vec![*sub(n)]),
        12 => X::Call(["LCASE", "UCASE"][n.below(2)], vec![*sub(n)]),
        13 => match n.below(3) {
            0 => X::Call("SPACE", vec![count(n, depth - 1)]),
            _ => X::Call("CHR", vec![X::Int(match n.below(6) {
                0 => [-1, 0x110000, 0xd800, 0xdfff, 0xd7ff, 0xe000, 0x10ffff, i32::MAX, i32::MIN][n.below(9)],
                _ => POOL[n.below(POOL.len())] as i32,
            })]),
        },
        _ => X::Call("STR", vec![match n.below(4) {
            0 => X::Bool(n.bool()),
            1 => real(n),
            2 => whole(n),
            _ => *sub(n),
        }]),
    }
}

/// Numbers of characters.
fn count(n: &mut impl Nd, depth: usize) -> X {
    match n.below(if depth == 0 { 8 } else { 10 }) {
        0 if n.below(3) == 0 => X::Int([-1, i32::MIN][n.below(2)]),
        1 if n.below(3) == 0 => X::Int(i32::MAX),
        0..=7 => X::Int(n.below(8) as i32),
        8 => X::Call("LEN", vec![text(n, depth - 1)]),
        _ => search(n, depth - 1),
    }
}

fn whole(n: &mut impl Nd) -> X {
    X::Int(match n.below(4) {
        0 => [i32::MIN, i32::MAX, 0, -1][n.below(4)],
        1 => n.i32(),
        _ => n.below(2000) as i32 - 1000,
    })
}

fn real(n: &mut impl Nd) -> X {
    let d = match n.below(4) {
        0 => [0.0, -0.0, 0.1, 1e15, 1e16, 1e22, 1e-7, f64::MAX, f64::MIN_POSITIVE, 5e-324, 4294967296.0, 2147483648.0][n.below(12)],
        1 => f64::from_bits(n.u64()),
        _ => (n.below(20001) as f64 - 10000.0) / [1.0, 4.0, 10.0, 1000.0][n.below(4)],
    };
    X::Double(if d.is_finite() { d } else { 2.5 })
}

fn search(n: &mut impl Nd, depth: usize) -> X {
    let mut args = vec![text(n, depth)];
    args.push(match n.below(4) {
        0 => text(n, depth),
        1 => X::Codes(some(n, 1)),
        _ => X::Quoted(some(n, 2)),
    });
    if n.bool() {
        args.insert(0, count(n, depth.min(1)));
    }
    X::Call("INSTR", args)
}

fn show(x: &X) -> String {
    match x {
        X::Codes(t) if t.is_empty() => "\"\"".to_owned(),
        X::Codes(t) => format!("({})", t.iter().map(|c| format!("CHR({c})")).collect::<Vec<_>>().join(" + ")),
        X::Quoted(t) => format!("\"{}\"", t.iter().map(|c| char::from_u32(*c).unwrap()).collect::<String>()),
        X::Var(i) => ["a", "b"][*i].to_owned(),
        X::Int(i) => int(*i),
        X::Double(d) => double(*d),
        X::Bool(b) => if *b { "TRUE" } else { "FALSE" }.to_owned(),
        X::Join(a, b) => format!("({} + {})", show(a), show(b)),
        X::Call(name, args) => format!("{name}({})", args.iter().map(show).collect::<Vec<_>>().join(", ")),
    }
}

fn string(t: &[u32]) -> String {
    t.iter().map(|c| char::from_u32(*c).unwrap()).collect()
}

fn codes(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}

fn blank(c: u32) -> bool {
    matches!(c, 9..=13 | 0x20 | 0x85 | 0xa0 | 0x1680 | 0x2000..=0x200a | 0x2028 | 0x2029 | 0x202f | 0x205f | 0x3000)
}

/// The longest numeral at the start of a text.
fn val(t: &[u32]) -> f64 {
    let t: Vec<u32> = t.iter().copied().skip_while(|c| blank(*c)).collect();
    let digits = |t: &[u32]| t.iter().all(|c| (0x30..0x3a).contains(c));
    let numeral = |t: &[u32]| {
        let t = match t.first() {
            Some(0x2b | 0x2d) => &t[1..],
            _ => t,
        };
        let (t, exp) = match t.iter().position(|c| *c == 0x65 || *c == 0x45) {
            Some(i) => (&t[..i], Some(&t[i + 1..])),
            None => (t, None),
        };
        if let Some(exp) = exp {
            let exp = match exp.first() {
                Some(0x2b | 0x2d) => &exp[1..],
                _ => exp,
            };
            if exp.is_empty() || !digits(exp) {
                return false;
            }
        }
        match t.iter().position(|c| *c == 0x2e) {
            Some(i) => t.len() > 1 && digits(&t[..i]) && digits(&t[i + 1..]),
            None => !t.is_empty() && digits(t),
        }
    };
    match (0..=t.len()).rev().find(|k| numeral(&t[..*k])) {
        Some(k) => string(&t[..k]).parse().unwrap(),
        None => 0.0,
    }
}

fn eval(x: &X, vars: &[Vec<u32>; 2]) -> Result<R, ()> {
    let (name, args) = match x {
        X::Codes(t) | X::Quoted(t) => return Ok(R::Text(t.clone())),
        X::Var(i) => return Ok(R::Text(vars[*i].clone())),
        X::Int(i) => return Ok(R::Int(*i)),
        X::Double(d) => return Ok(R::Double(*d)),
        X::Bool(b) => return Ok(R::Bool(*b)),
        X::Join(a, b) => {
            let mut t = eval(a, vars)?.text();
            t.extend(eval(b, vars)?.text());
            return Ok(R::Text(t));
        }
        X::Call(name, args) => (*name, args),
    };
    let mut args = args.iter().map(|a| eval(a, vars)).collect::<Result<Vec<_>, _>>()?;
    let given = args.len();
    let size = |i: i64| if i < 0 { Err(()) } else { Ok(usize::try_from(i).unwrap()) };
    Ok(match name {
        "LEFT" | "RIGHT" => {
            let k = size(args.pop().unwrap().int())?;
            let t = args.pop().unwrap().text();
            let k = k.min(t.len());
            R::Text(if name == "LEFT" { t[..k].to_vec() } else { t[t.len() - k..].to_vec() })
        }
        "MID" => {
            let k = if given == 3 { Some(args.pop().unwrap().int()) } else { None };
            let from = size(args.pop().unwrap().int())?;
            let k = k.map_or(Ok(usize::MAX), size)?;
            R::Text(args.pop().unwrap().text().into_iter().skip(from).take(k).collect())
        }
        "LTRIM" | "RTRIM" | "TRIM" => {
            let mut t = args.pop().unwrap().text();
            while name != "LTRIM" && t.last().is_some_and(|c| blank(*c)) {
                t.pop();
            }
            while name != "RTRIM" && t.first().is_some_and(|c| blank(*c)) {
                t.remove(0);
            }
            R::Text(t)
        }
        "LCASE" | "UCASE" => {
            let t = args.pop().unwrap().text();
            R::Text(t.into_iter().flat_map(|c| {
                let c = char::from_u32(c).unwrap();
                let s: String = if name == "LCASE" { c.to_lowercase().collect() } else { c.to_uppercase().collect() };
                codes(&s)
            }).collect())
        }
        "SPACE" => R::Text(vec![0x20; size(args.pop().unwrap().int())?]),
        "CHR" => R::Text(match args.pop().unwrap().int() {
            c @ (0..=0xd7ff | 0xe000..=0x10ffff) => vec![c as u32],
            _ => return Err(()),
        }),
        "STR" => R::Text(match args.pop().unwrap() {
            R::Text(t) => t,
            R::Int(i) => codes(&(if i < 0 { i.to_string() } else { format!(" {i}") })),
            R::Double(d) => codes(&(if d.is_sign_negative() { d.to_string() } else { format!(" {d}") })),
            R::Bool(b) => codes(if b { "TRUE" } else { "FALSE" }),
        }),
        "LEN" => R::Int(args.pop().unwrap().text().len() as i32),
        "INSTR" => {
            let what = args.pop().unwrap().text();
            let t = args.pop().unwrap().text();
            let from = if given == 3 { args.pop().unwrap().int() } else { 1 };
            if from <= 0 {
                return Err(());
            }
            let from = from as usize - 1;
            R::Int((from..=t.len()).find(|i| t[*i..].starts_with(&what)).map_or(0, |i| i as i32 + 1))
        }
        "ASC" => match args.pop().unwrap().text().as_slice() {
            [c] => R::Int(*c as i32),
            _ => return Err(()),
        },
        "VAL" => R::Double(val(&args.pop().unwrap().text())),
        name => panic!("{name}"),
    })
}

fn prologue(n: &mut impl Nd) -> (String, [Vec<u32>; 2]) {
    let vars = [some(n, 6), some(n, 3)];
    (format!("a = {}\nb = {}\n", show(&X::Quoted(vars[0].clone())), show(&X::Codes(vars[1].clone()))), vars)
}

/// Checks the value of an expression.
fn check(n: &mut impl Nd, x: &X) {
    let (mut program, vars) = prologue(n);
    let expected = eval(x, &vars);
    // Keep the sizes of texts reasonable.
    program += &format!("PROBE {}\nPROBE a\nPROBE b\n", show(x));
    let out = run(&program);
    assert!(!out.rejected, "{program}{out:?}");
    let expected = match expected {
        Ok(R::Text(t)) => ConstantDatum::Text(string(&t)),
        Ok(R::Int(i)) => i.into(),
        Ok(R::Double(d)) => d.into(),
        Ok(R::Bool(b)) => b.into(),
        Err(()) => {
            assert!(out.error.is_some() && out.seen.is_empty(), "{program}{out:?}");
            return;
        }
    };
    assert!(out.error.is_none() && out.seen.len() == 3, "{program}{out:?}");
    match (&expected, &out.seen[0]) {
        (ConstantDatum::Double(a), ConstantDatum::Double(b)) => assert!(a.to_bits() == b.to_bits(), "{program}{expected:?} {out:?}"),
        (a, b) => assert!(a == b, "{program}{expected:?} {out:?}"),
    }
    // Texts are values: nothing changes them.
    for k in 0..2 {
        assert!(out.seen[k + 1] == ConstantDatum::Text(string(&vars[k])), "{program}{out:?}");
    }
}

/// Whether an expression asks for an unreasonable amount of spaces.
fn huge(x: &X) -> bool {
    match x {
        X::Join(a, b) => huge(a) || huge(b),
        X::Call("SPACE", args) => !matches!(args[0], X::Int(..=1000)),
        X::Call(_, args) => args.iter().any(huge),
        _ => false,
    }
}

/// Functions on texts, nested in each other.
fn texts(n: &mut impl Nd) {
    let depth = n.below(4);
    let x = match n.below(6) {
        0 => X::Call("LEN", vec![text(n, depth)]),
        1 | 2 => search(n, depth),
        3 => X::Call("ASC", vec![if n.bool() { X::Codes(some(n, 2)) } else { text(n, depth) }]),
        _ => text(n, depth),
    };
    n.assume(!huge(&x));
    check(n, &x);
}

/// Numbers at the start of texts.
fn numerals(n: &mut impl Nd) {
    let len = n.below(9);
    let pool = codes("+-.0123456789eEx \u{e9}\u{a0}");
    let mut t: Vec<u32> = if n.below(4) == 0 { vec![0x20, 0x09] } else { vec![] };
    for _ in 0..len {
        t.push(match n.below(4) {
            0 => pool[n.below(pool.len())],
            1 => codes("+-.eE")[n.below(5)],
            _ => 0x30 + n.below(10) as u32,
        });
    }
    if n.below(6) == 0 {
        t = codes(["inf", "-inf", "NaN", "infinity", "1e999", "-1e999", "1e-999", "0x10", "&HFF", "1_000", "1e+", "1.e5", ".5", "-.5e1", ".", "-.", "+", "1,5", "1 2", "TRUE"][n.below(20)]);
    }
    let t = if n.bool() { X::Quoted(t) } else { X::Codes(t) };
    check(n, &X::Call("VAL", vec![t]));
}

/// Functions undo each other.
fn inverses(n: &mut impl Nd) {
    let (mut program, vars) = prologue(n);
    let (shown, value): (String, ConstantDatum) = match n.below(6) {
        0 => match whole(n) {
            X::Int(i) => (format!("CINT(VAL(STR({})))", int(i)), i.into()),
            _ => unreachable!(),
        },
        1 => match real(n) {
            X::Double(d) => (format!("VAL(STR({}))", double(d)), d.into()),
            _ => unreachable!(),
        },
        2 => {
            let c = (n.u32() & 0x1fffff) as i32;
            n.assume(char::from_u32(c as u32).is_some());
            (format!("ASC(CHR({c}))"), c.into())
        }
        3 => {
            let k = n.below(8);
            (format!("LEFT(a, {k}) + MID(a, {k})"), ConstantDatum::Text(string(&vars[0])))
        }
        4 => {
            let k = n.below(vars[0].len() + 1);
            (format!("LEFT(a, LEN(a) - {k}) + RIGHT(a, {k})"), ConstantDatum::Text(string(&vars[0])))
        }
        _ => ("MID(b + a + b, INSTR(b + a + b, a) - 1, LEN(a))".to_owned(), ConstantDatum::Text(string(&vars[0]))),
    };
    program += &format!("PROBE {shown}\n");
    let out = run(&program);
    assert!(out.error.is_none() && out.seen.len() == 1, "{program}{out:?}");
    match (&value, &out.seen[0]) {
        (ConstantDatum::Double(a), ConstantDatum::Double(b)) => assert!(a.to_bits() == b.to_bits(), "{program}{value:?} {out:?}"),
        (a, b) => assert!(a == b, "{program}{value:?} {out:?}"),
    }
}

crate::suite! { "P16";
    bounded texts * 60000;
    bounded numerals * 40000;
    bounded inverses * 30000;
}
