//! P06 on whole programs.

use crate::basic::*;
use crate::nd::Nd;
use endbasic_core::ConstantDatum;
use std::collections::HashMap;

const TYPES: [&str; 4] = ["BOOLEAN", "DOUBLE", "INTEGER", "STRING"];

fn zero(t: usize) -> ConstantDatum {
    match t {
        0 => ConstantDatum::Boolean(false),
        1 => ConstantDatum::Double(0.0),
        2 => ConstantDatum::Integer(0),
        _ => ConstantDatum::Text(String::new()),
    }
}

fn value(n: &mut impl Nd, t: usize) -> (String, ConstantDatum) {
    match t {
        0 => {
            let b = n.bool();
            (if b { "TRUE" } else { "FALSE" }.to_owned(), ConstantDatum::Boolean(b))
        }
        1 => {
            let d = (n.i32() % 1000) as f64 / 8.0;
            (double(d), ConstantDatum::Double(if d == 0.0 { 0.0 } else { d }))
        }
        2 => {
            let i = n.i32();
            (int(i), ConstantDatum::Integer(i))
        }
        _ => {
            let s = ["", "x", "hello", "ñandú"][n.below(4)];
            let i = n.below(10);
            (format!("\"{s}{i}\""), ConstantDatum::Text(format!("{s}{i}")))
        }
    }
}

/// Subscripts as expressions of several shapes that evaluate to `subs`.
fn spell(n: &mut impl Nd, subs: &[i32]) -> (String, String) {
    let mut setup = String::new();
    let mut parts = vec![];
    for (i, s) in subs.iter().enumerate() {
        match n.below(4) {
            0 => {
                setup += &format!("k{i} = {}\n", int(*s));
                parts.push(format!("k{i}"));
            }
            1 => {
                let d = n.below(50) as i32;
                parts.push(match s.checked_sub(d) {
                    Some(x) => format!("{} + {d}", int(x)),
                    None => int(*s),
                });
            }
            2 if s.unsigned_abs() < 1000 => parts.push(double(*s as f64 + 0.25 * s.signum() as f64)),
            _ => parts.push(int(*s)),
        }
    }
    (setup, parts.join(", "))
}

/// Random stores and loads on several arrays against a map.
fn model(n: &mut impl Nd) {
    let mut p = String::new();
    let count = 1 + n.below(3);
    let mut arrays = vec![];
    for a in 0..count {
        let t = n.below(4);
        let ndims = 1 + if n.below(10) == 0 { n.below(15) } else { n.below(3) };
        let dims: Vec<i32> = (0..ndims).map(|_| 1 + n.below(if ndims > 4 { 2 } else { 5 }) as i32).collect();
        let shared = if n.bool() { "SHARED " } else { "" };
        let (setup, list) = spell(n, &dims);
        p += &format!("{setup}DIM {shared}a{a}({list}) AS {}\n", TYPES[t]);
        arrays.push((t, dims, !shared.is_empty()));
    }
    let any_shared: Vec<usize> = (0..count).filter(|a| arrays[*a].2).collect();
    let mut state: HashMap<(usize, Vec<i32>), ConstantDatum> = HashMap::new();
    let mut expected = vec![];
    let mut failed = None;
    let steps = 1 + n.below(25);
    for _ in 0..steps {
        let a = n.below(count);
        let (t, dims, _) = &arrays[a];
        let mut subs: Vec<i32> = dims.iter().map(|d| n.below(*d as usize) as i32).collect();
        let bad = n.below(30) == 0;
        if bad {
            let i = n.below(subs.len());
            subs[i] = match n.below(4) {
                0 => -1,
                1 => dims[i],
                2 => n.i32(),
                _ => dims[i] + n.below(5) as i32,
            };
            n.assume(subs[i] < 0 || subs[i] >= dims[i]);
            failed = Some((subs[i], dims[i]));
        }
        let (setup, list) = spell(n, &subs);
        p += &setup;
        if n.below(3) == 0 {
            p += &format!("PROBE a{a}({list})\n");
            if !bad {
                expected.push(state.get(&(a, subs)).cloned().unwrap_or(zero(*t)));
            }
        } else {
            let (text, v) = value(n, *t);
            p += &format!("a{a}({list}) = {text}\n");
            if !bad {
                state.insert((a, subs), v);
            }
        }
        if bad {
            break;
        }
    }
    if failed.is_none() {
        // Everything must be as left, including what was never touched.
        for (a, (t, dims, _)) in arrays.iter().enumerate() {
            if dims.len() > 4 {
                continue;
            }
            let mut subs = vec![0; dims.len()];
            'all: loop {
                let list: Vec<String> = subs.iter().map(|s: &i32| s.to_string()).collect();
                p += &format!("PROBE a{a}({})\n", list.join(", "));
                expected.push(state.get(&(a, subs.clone())).cloned().unwrap_or(zero(*t)));
                let mut i = 0;
                loop {
                    subs[i] += 1;
                    if subs[i] < dims[i] {
                        break;
                    }
                    subs[i] = 0;
                    i += 1;
                    if i == dims.len() {
                        break 'all;
                    }
                }
            }
            for (i, d) in dims.iter().enumerate() {
                p += &format!("PROBE LBOUND(a{a}, {0}), UBOUND(a{a}, {0})\n", i + 1);
                expected.extend([ConstantDatum::Integer(0), ConstantDatum::Integer(d - 1)]);
            }
            if dims.len() == 1 {
                p += &format!("PROBE LBOUND(a{a}), UBOUND(a{a})\n");
                expected.extend([ConstantDatum::Integer(0), ConstantDatum::Integer(dims[0] - 1)]);
            }
        }
        // Shared arrays are the same array inside of a subroutine.
        if let Some(a) = any_shared.first() {
            let (t, dims, _) = &arrays[*a];
            let subs: Vec<i32> = dims.iter().map(|d| n.below(*d as usize) as i32).collect();
            let list: Vec<String> = subs.iter().map(|s| s.to_string()).collect();
            let list = list.join(", ");
            let (text, v) = value(n, *t);
            p += &format!(
                "SUB s\nPROBE a{a}({list})\na{a}({list}) = {text}\nEND SUB\ns\nPROBE a{a}({list})\n"
            );
            expected.push(state.get(&(*a, subs)).cloned().unwrap_or(zero(*t)));
            expected.push(v);
        }
    }
    let out = run(&p);
    match failed {
        None => assert!(out.error.is_none(), "{p}\nfailed with {:?}", out.error),
        Some((s, d)) => {
            let message = if s < 0 {
                format!("Subscript {s} cannot be negative")
            } else {
                format!("Subscript {s} exceeds limit of {d}")
            };
            assert!(!out.rejected && out.message().ends_with(&message), "{p}\nexpected {message} but got {:?}", out.error);
        }
    }
    assert_eq!(expected, out.seen, "{p}");
}

/// A failed access leaves all variables untouched.
fn failed_access(n: &mut impl Nd) {
    let d = 1 + n.below(6) as i32;
    let s = if n.bool() { n.i32() } else { [-1, d, d + 1][n.below(3)] };
    n.assume(s < 0 || s >= d);
    let v = n.below(1000) as i32;
    let stmt = ["a(i) = 5", "x = a(i)", "x = x + a(i) * 2", "a(0) = a(i)"][n.below(4)];
    let p = format!(
        "DIM a({d}): DIM b({d})\nx = {v}\nFOR j = 0 TO {}: a(j) = j: b(j) = -j: NEXT\ni = {}\nON ERROR RESUME NEXT\n{stmt}\nON ERROR GOTO 0\nPROBE x, i\nFOR j = 0 TO {}: PROBE a(j), b(j): NEXT",
        d - 1, int(s), d - 1
    );
    let out = run(&p);
    assert!(out.error.is_none(), "{p}: {:?}", out.error);
    let mut expected = vec![v, s];
    for j in 0..d {
        expected.extend([j, -j]);
    }
    assert_eq!(expected, out.ints(), "{p}");
}

/// Arrays that cannot exist.
fn bad_dims(n: &mut impl Nd) {
    let ndims = 1 + n.below(4);
    let mut dims: Vec<i32> = (0..ndims).map(|_| 1 + n.below(4) as i32).collect();
    let t = TYPES[n.below(4)];
    let message;
    if n.bool() {
        let i = n.below(ndims);
        dims[i] = [0, -1, n.i32()][n.below(3)];
        n.assume(dims[i] <= 0);
        message = format!("Dimension {i} must be positive");
    } else {
        dims.extend([i32::MAX, 1 << 30, 2 + n.below(1000) as i32]);
        message = "Out of heap space".to_owned();
    }
    let (setup, list) = spell(n, &dims);
    let p = format!("{setup}PROBE 1\nDIM a({list}) AS {t}\nPROBE 2");
    let out = run(&p);
    assert!(!out.rejected && out.message().ends_with(&message), "{p}: expected {message} but got {out:?}");
    assert_eq!(vec![1], out.ints(), "{p}");
}

/// Bounds of dimensions that do not exist.
fn bounds(n: &mut impl Nd) {
    let dims: Vec<i32> = (0..1 + n.below(4)).map(|_| 1 + n.below(12) as i32).collect();
    let which = [n.i32(), n.below(7) as i32][n.below(2)];
    let f = ["LBOUND", "UBOUND"][n.below(2)];
    let list: Vec<String> = dims.iter().map(|s| s.to_string()).collect();
    let p = format!("DIM a({}): PROBE {f}(a, {})", list.join(", "), int(which));
    let out = run(&p);
    if which >= 1 && which <= dims.len() as i32 {
        let v = if f == "LBOUND" { 0 } else { dims[which as usize - 1] - 1 };
        assert!(out.error.is_none(), "{p}: {:?}", out.error);
        assert_eq!(vec![v], out.ints(), "{p}");
    } else {
        let message = if which <= 0 {
            format!("Dimension {which} must be positive")
        } else {
            format!("Array has only {} dimensions but asked for {which}", dims.len())
        };
        assert!(!out.rejected && out.message().ends_with(&message), "{p}: expected {message} but got {out:?}");
    }
}

crate::suite! { "P06";
    bounded model * 12000;
    bounded failed_access * 4000;
    bounded bad_dims * 4000;
    bounded bounds * 4000;
}
