//! P14 on whole programs.

use crate::basic::*;
use crate::lang;
use crate::nd::Nd;
use endbasic_core::ConstantDatum;

/// Words and separators of the language, and things that are neither.
const WORDS: [&str; 112] = [
    "AND", "AS", "BOOLEAN", "CASE", "DATA", "DECLARE", "DIM", "DO", "DOUBLE", "ELSE", "ELSEIF", "END", "ERROR", "EXIT", "FALSE", "FOR",
    "FUNCTION", "GOSUB", "GOTO", "IF", "INTEGER", "IS", "LOOP", "MOD", "NEXT", "NOT", "ON", "OR", "REM", "RESUME", "RETURN", "SELECT",
    "SHARED", "STEP", "STRING", "SUB", "THEN", "TO", "TRUE", "UNTIL", "WEND", "WHILE", "XOR", "+", "-", "*", "/", "^", "=", "<", ">", "<=",
    ">=", "<>", "<<", ">>", "(", ")", ",", ";", ":", "\n", "\n", "\n", "\n", "'", "\"", "@", "@l", "&", "&x1f", "&b_101", "&o9", "&d12", "&hff", "#",
    "?", "%", "$", "!", "\\", "{", "1", "2147483647", "2147483648", "99999999999999999999", "1.5", "1.", "1.2.3", ".5", "12x", "1e5", "x", "x%", "x$",
    "x#", "x?", "y", "f", "F(", "PRINT", "PROBE", "LEN", "MAXF#", "\"a\\\"b\"", "\"a\\", "\t", "\r", "ñ", "日本", "\u{1f600}", "\0",
];

/// Statements to start from.
const STATEMENTS: [&str; 24] = [
    "x = 1 + 2 * 3", "x$ = \"a\" + \"b\"", "DIM a(3, 4) AS INTEGER", "DIM SHARED s AS STRING", "a(1, 2) = 5", "IF x = 1 THEN y = 2 ELSE y = 3",
    "IF x = 1 THEN\ny = 2\nELSEIF x = 2 THEN\ny = 3\nELSE\ny = 4\nEND IF", "FOR i = 1 TO 10 STEP 2\nx = i\nNEXT", "WHILE x < 3\nx = x + 1\nWEND",
    "DO UNTIL x > 3\nx = x + 1\nLOOP", "DO\nEXIT DO\nLOOP WHILE TRUE", "SELECT CASE x\nCASE 1, 2\ny = 1\nCASE IS > 5\ny = 2\nCASE 3 TO 4\ny = 3\nCASE ELSE\ny = 4\nEND SELECT",
    "FUNCTION f%(a%, b$)\nf = a\nEND FUNCTION", "SUB p(a)\nEXIT SUB\nEND SUB", "GOTO @l\n@l", "GOSUB @l\nEND\n@l\nRETURN", "ON ERROR GOTO @l\n@l", "ON ERROR RESUME NEXT",
    "ON ERROR GOTO 0", "DATA 1, \"a\", 2.5, TRUE, , 3", "READ x, y", "PRINT x; y, 3", "END 3", "DECLARE SUB q(z)",
];

/// Puts together a text that may be a program.
fn text(n: &mut impl Nd) -> String {
    let mut out = String::new();
    for _ in 0..1 + n.below(8) {
        match n.below(4) {
            0 => {
                for _ in 0..n.below(12) {
                    out += WORDS[n.below(WORDS.len())];
                    if n.below(5) > 0 {
                        out += " ";
                    }
                }
            }
            1 => {
                // A statement with a few changes.
                let s = STATEMENTS[n.below(STATEMENTS.len())];
                let mut words: Vec<String> = s.split(' ').map(|w| w.to_owned()).collect();
                for _ in 0..1 + n.below(3) {
                    let i = n.below(words.len());
                    match n.below(4) {
                        0 => words[i] = WORDS[n.below(WORDS.len())].to_owned(),
                        1 => words.insert(i, WORDS[n.below(WORDS.len())].to_owned()),
                        2 => words[i] = String::new(),
                        _ => {
                            let keep = n.below(words[i].chars().count() + 1);
                            words[i] = words[i].chars().take(keep).collect();
                        }
                    }
                }
                out += &words.join(" ");
            }
            _ => out += STATEMENTS[n.below(STATEMENTS.len())],
        }
        if n.below(8) > 0 {
            out += "\n";
        }
    }
    if n.below(6) == 0 {
        let keep = n.below(out.chars().count() + 1);
        out = out.chars().take(keep).collect();
    }
    out
}

/// Column after `s` in its line, by the rules of the documentation.
fn column(s: &str) -> usize {
    let mut col = 1;
    for ch in s.chars() {
        col = if ch == '\t' { (col + 7) / 8 * 8 + 1 } else { col + 1 };
    }
    col
}

/// The position that an error message starts with.
fn position(message: &str) -> Option<(usize, usize)> {
    let mut parts = message.splitn(3, ':');
    let line = parts.next()?.parse().ok()?;
    let col = parts.next()?.parse().ok()?;
    parts.next()?.starts_with(' ').then_some((line, col))
}

/// Any text is either a program or rejected at a position in it, always the same one.
fn soup(n: &mut impl Nd) {
    let text = text(n);
    let mut results = vec![];
    for _ in 0..2 {
        let mut s = Session::new(1);
        results.push(s.machine.compile(&mut text.as_bytes()).map_err(|e| e.to_string()));
    }
    assert_eq!(results[0], results[1], "{text:?}");
    if let Err(e) = &results[0] {
        let (line, col) = position(e).unwrap_or_else(|| panic!("{text:?}: no position in {e}"));
        let lines: Vec<&str> = text.split('\n').collect();
        assert!((1..=lines.len()).contains(&line), "{text:?}: {e}");
        assert!((1..=column(lines[line - 1])).contains(&col), "{text:?}: {e}");
    }
}

/// Bytes that are no text do not crash anything either.
fn bytes(n: &mut impl Nd) {
    let mut text = text(n).into_bytes();
    for _ in 0..1 + n.below(4) {
        let i = n.below(text.len() + 1);
        text.insert(i, [0x80, 0xff, 0xc3, 0xf0, 0xe2, 0][n.below(6)]);
    }
    let r = Session::new(1).machine.compile(&mut text.as_slice());
    if std::str::from_utf8(&text).is_err() {
        assert!(r.is_err(), "{text:?}");
    }
}

/// Changes how `program` is written, but not what it says.
fn restyle(n: &mut impl Nd, program: &str) -> String {
    let mut out = String::new();
    if n.below(4) == 0 {
        out += "#!/usr/bin/env endbasic ) ( \"\n";
    }
    let lines: Vec<&str> = program.lines().collect();
    let simple = |l: &str| {
        let l = l.trim_start();
        (l.starts_with("PROBE") || (l.contains(" = ") && !l.contains("IF ") && !l.contains("FOR ") && !l.contains("CASE"))) && !l.contains('@')
    };
    for (i, line) in lines.iter().enumerate() {
        let line = line.trim();
        while n.below(8) == 0 {
            out += ["\n", "  \t\n", " ' comment \" : x = 1\n", "\tREM PROBE 999: \" &\n", ":\n", "'\n", "rem\n", "\r\n", " : : \n"][n.below(9)];
        }
        out += [" ", "\t", "", "    "][n.below(4)];
        let mut quoted = false;
        let chars: Vec<char> = line.chars().collect();
        for (j, ch) in chars.iter().enumerate() {
            if *ch == '"' && (j == 0 || chars[j - 1] != '\\') {
                quoted = !quoted;
            }
            if quoted {
                out.push(*ch);
                continue;
            }
            match ch {
                ' ' => out += [" ", "  ", "\t", " \t ", "\r "][n.below(5)],
                '(' | ')' | ',' | '+' | '*' | '/' | '^' | '-' => {
                    if n.below(4) == 0 {
                        out += [" ", "\t"][n.below(2)];
                    }
                    out.push(*ch);
                    if n.below(4) == 0 {
                        out += " ";
                    }
                }
                ch if ch.is_ascii_alphabetic() => {
                    out.push(if n.bool() { ch.to_ascii_uppercase() } else { ch.to_ascii_lowercase() });
                }
                ch => out.push(*ch),
            }
        }
        let joined = i + 1 < lines.len() && simple(line) && simple(lines[i + 1]) && n.below(3) == 0;
        if joined {
            out += [":", " : ", " :", "::"][n.below(4)];
        } else {
            out += ["\n", "\n", "\n", " \n", " ' end\n", " REM x = \"\n", "\r\n", "\t'\n"][n.below(8)];
        }
    }
    if n.bool() && out.ends_with('\n') {
        out.pop();
    }
    out
}

/// The case of words, the space between them, comments and how statements are separated mean nothing.
fn layout(n: &mut impl Nd) {
    let mut g = lang::Gen::new(14);
    let block = g.block(n, 0, false, false);
    let long = matches!(lang::Run::new().block(&block), lang::Flow::Long);
    n.assume(!long);
    let mut program = lang::prologue(n) + &lang::print(&block);
    if n.bool() {
        program += "i0 = &x1F + &b_101 + &o17 + &d_99\nPROBE i0\nd0 = 1.25 + 0.5\nPROBE d0\nt0 = \"Ab \\\" ' REM : cD\"\nPROBE t0\n";
    }
    let other = restyle(n, &program);
    let (a, b) = (run(&program), run(&other));
    assert!(!a.rejected, "{program}\n{a:?}");
    let message = |o: &Outcome| o.error.as_ref().map(|e| e.splitn(3, ": ").last().unwrap_or("").to_owned());
    assert_eq!(
        (&format!("{:?}", a.seen), message(&a), a.exit, a.broken),
        (&format!("{:?}", b.seen), message(&b), b.exit, b.broken),
        "{program}\n---\n{other}"
    );
}

/// A literal denotes exactly the value that its characters say.
fn literals(n: &mut impl Nd) {
    let mut program = String::new();
    let mut expected = vec![];
    for _ in 0..1 + n.below(5) {
        let literal = match n.below(4) {
            0 => {
                let i = n.i32() & i32::MAX;
                expected.push(ConstantDatum::Integer(i));
                format!("{}{}", "0".repeat(n.below(3)), i)
            }
            1 => {
                let u = n.u32();
                expected.push(ConstantDatum::Integer(u as i32));
                let digits = match n.below(7) {
                    0 => format!("&x{u:x}"),
                    1 => format!("&X_{u:X}"),
                    2 => format!("&b{u:b}"),
                    3 => format!("&B_{u:032b}"),
                    4 => format!("&o{u:o}"),
                    5 => format!("&d_{u}"),
                    _ => format!("&D{u}"),
                };
                digits
            }
            2 => {
                let (a, k) = (n.u32() >> n.below(32), 1 + n.below(20));
                let b: String = (0..k).map(|_| char::from(b'0' + n.below(10) as u8)).collect();
                let s = format!("{a}.{b}");
                expected.push(ConstantDatum::Double(s.parse().unwrap()));
                s
            }
            _ => {
                let mut s = String::new();
                let mut t = String::new();
                for _ in 0..n.below(12) {
                    let ch = ['a', 'Z', ' ', '\t', '"', '\\', '\'', ':', 'n', 'ñ', '日', '\u{1f600}', ';', '#', '\u{301}', '\r'][n.below(16)];
                    if ch == '"' || ch == '\\' || n.below(8) == 0 {
                        s.push('\\');
                    }
                    s.push(ch);
                    t.push(ch);
                }
                expected.push(ConstantDatum::Text(t));
                format!("\"{s}\"")
            }
        };
        program += &match n.below(3) {
            0 => format!("PROBE {literal}\n"),
            1 => format!("PROBE({literal})\n"),
            _ => format!("v = {literal}: PROBE v: v = v\n").replace('v', &format!("v{}", expected.len())),
        };
    }
    let out = run(&program);
    assert!(out.error.is_none(), "{program}: {out:?}");
    assert_eq!(expected, out.seen, "{program}");
}

/// Names are told apart by all their characters, but not by their case, and can be annotated with their type.
fn names(n: &mut impl Nd) {
    let mut all: Vec<(String, i32)> = vec![];
    let mut program = String::new();
    for k in 0..2 + n.below(5) {
        let mut name = String::from(["a", "b", "_", "x", "long_name_"][n.below(5)]);
        for _ in 0..n.below(6) {
            name += ["a", "b", "_", "0", "1", "é", "x"][n.below(7)];
        }
        name += "q";
        all.retain(|v| v.0 != name);
        let style: String = name.chars().map(|c| if n.bool() && c.is_ascii() { c.to_ascii_uppercase() } else { c }).collect();
        program += &format!("{style}{} = {k}\n", ["", "%"][n.below(2)]);
        all.push((name, k as i32));
    }
    for (name, _) in &all {
        let style: String = name.chars().map(|c| if n.bool() && c.is_ascii() { c.to_ascii_uppercase() } else { c }).collect();
        program += &format!("PROBE {style}{}\n", ["", "%"][n.below(2)]);
    }
    let out = run(&program);
    assert!(out.error.is_none(), "{program}: {out:?}");
    assert_eq!(all.iter().map(|v| v.1).collect::<Vec<i32>>(), out.ints(), "{program}");
}

/// Text that is no program is rejected exactly where its first fault is.
fn faults(n: &mut impl Nd) {
    let mut text = String::new();
    for k in 0..n.below(6) {
        match n.below(5) {
            0 => text += "' remark with \" and ñ\n",
            1 => text += "\t\t\n",
            2 => text += "t$ = \"two\nlines\"\n",
            _ => text += &format!("v{k} = {k} + 2: \tw{k} = \"日本\\\"\"\n"),
        }
    }
    let mut line = String::new();
    for k in 0..n.below(3) {
        line += &format!("{}u{k}{}={}\"{}\"{}:", [" ", "\t", ""][n.below(3)], ["", "\t", "  "][n.below(3)], ["", " "][n.below(2)], ["é", "\\\\", "a\tb"][n.below(3)], ["", " "][n.below(2)]);
    }
    line += ["r = ", "PROBE\t", "IF ", " WHILE\t1 <\t", "r\t= (3 +\t(", "DO UNTIL ", "\tr = 1 *-  ", "r = LEN(\"ñ\", "][n.below(8)];
    let mut fault = [
        "#", "!", "$", "?", "[", "{", "\\", "~", "12x", "1.2.3", "1.", "5é", "2147483648", "99999999999999999999", "&q1", "& 5", "&", "&xg",
        "&x1ffffffff", "&b2", "&o8", "&d", "&x_", "@", "@ l", "@1", "@x!y", "abc!", "a$b", "a%1", "\"open", "\"open\\\" ", "\u{1f600}", "\0",
        "DIM", "END", "FOR", "FUNCTION", "GOTO", "LOOP", "NEXT", "ON", "RETURN", "SUB", "WEND", "WHILE", "CASE", "DATA", "IS", "SELECT", "1 2", "3 x", "1 NOT 2", "TRUE FALSE", "\"a\" 4", "2 (3)",
        "UNTIL", "@label", "SHARED", "BOOLEAN", "STRING",
    ][n.below(59)]
    .to_owned();
    let mut at = column(&line);
    // The second value is what should not be there.
    if let Some(i) = ["1 2", "3 x", "1 NOT 2", "TRUE FALSE", "\"a\" 4", "2 (3)", "a$b", "a%1"].iter().position(|f| **f == fault) {
        at += [2, 2, 2, 5, 4, 2, 2, 2][i];
    }
    if n.bool() && !fault.starts_with('"') {
        fault = fault.to_ascii_lowercase();
    }
    let line_no = 1 + text.matches('\n').count();
    let program = format!("{text}{line}{fault}{}", ["", "\n", " \n", "\n x = 5 $ 3\n", ",3", "\t* 2\n"][n.below(6)]);
    let mut s = Session::new(1);
    let e = match s.machine.compile(&mut program.as_bytes()) {
        Ok(()) => panic!("{program:?} was accepted"),
        Err(e) => e.to_string(),
    };
    assert_eq!(Some((line_no, at)), position(&e), "{program:?}: {e}");
}

/// A use of something that is not defined is reported where it is.
fn unknown(n: &mut impl Nd) {
    let mut text = String::new();
    for k in 0..n.below(4) {
        text += &format!("v{k} = {k}{}\n", [" ' c", "", "\t"][n.below(3)]);
    }
    let (before, word, after) = [
        ("x\t= 1 + ", "foo", " * 2"),
        ("PROBE 1,\t", "Foo", ", bar"),
        ("x = LEN(\"é\" + ", "bar$", ")"),
        ("\t", "nocommand", " 1, 2"),
        ("x = \"日本\": y = 3 - ", "nofunc", "(1)"),
        ("IF 1 <\t", "zed", " THEN x = 1"),
        ("FOR i = 1 TO ", "zed", "\nNEXT"),
        ("x = \"a\": GOTO ", "@none", ""),
        ("GOSUB\t", "@none", ""),
    ][n.below(9)];
    let program = format!("{text}{before}{word}{after}\n");
    let out = run(&program);
    assert!(out.rejected, "{program:?}: {out:?}");
    let line_no = 1 + text.matches('\n').count();
    assert_eq!(Some((line_no, column(before))), position(out.message()), "{program:?}: {out:?}");
}

crate::suite! { "P14";
    bounded soup * 100000;
    bounded bytes * 5000;
    bounded layout * 60000;
    bounded literals * 20000;
    bounded names * 10000;
    bounded faults * 60000;
    bounded unknown * 5000;
}
