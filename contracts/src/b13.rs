//! P13 on whole programs: every pixel of the LCD after every command.

use crate::basic::*;
use crate::nd::Nd;
use crate::screen::*;
use endbasic_std::console::{ansi_color_to_rgb, Console, PixelsXY};
use endbasic_std::gfx::lcd::fonts::FONT_5X8;
use std::cell::RefCell;
use std::rc::Rc;

type P = (i64, i64);

/// What must happen to a pixel.
#[derive(Clone, Copy, Debug, Eq, PartialEq)]
enum Want {
    Keep,
    /// One of the pixels that are just as good, or that rounding decides.
    Either,
    Set,
}
use Want::*;

struct Screen {
    session: Session<ScreenConsole>,
    panel: Rc<RefCell<Panel>>,
    w: i64,
    h: i64,
    /// Contents that the LCD keeps while not synchronized.
    frozen: Option<Vec<RGB565>>,
    fg: u8,
    bg: u8,
    /// Commands so far.
    log: String,
    arrays: usize,
}

fn color(i: u8) -> RGB565 {
    encode(ansi_color_to_rgb(i))
}

impl Screen {
    fn new(w: usize, h: usize) -> Self {
        let (session, panel) = session(w, h, &FONT_5X8);
        let (fg, bg) = (15, 0);
        let (w, h) = (w as i64, h as i64);
        let mut s = Self { session, panel, w, h, frozen: None, fg, bg, log: String::new(), arrays: 0 };
        s.run("COLOR 15, 0");
        s.run("CLS");
        s
    }

    fn run(&mut self, command: &str) -> Outcome {
        self.log += command;
        self.log += "\n";
        self.session.run(command)
    }

    /// Runs a command that must succeed.
    fn ok(&mut self, command: &str) {
        let out = self.run(command);
        assert!(out.error.is_none() && !out.broken, "{}x{}\n{}{:?}", self.w, self.h, self.log, out.error);
    }

    /// Contents of the screen as seen by programs.
    fn pixels(&self) -> Vec<RGB565> {
        let console = self.session.console.borrow();
        let mut v = vec![];
        for y in 0..self.h {
            for x in 0..self.w {
                let i = console.peek_pixel(PixelsXY { x: x as i16, y: y as i16 }).unwrap();
                v.push(color(i.unwrap_or_else(|| panic!("{}pixel {x},{y} has no color", self.log))));
            }
        }
        v
    }

    /// Compares the screen with what is wanted of every pixel.
    fn check(&mut self, before: &[RGB565], want: &[Want], fg: u8) -> Vec<RGB565> {
        let fg = color(fg);
        let after = self.pixels();
        for (i, ((a, b), w)) in after.iter().zip(before).zip(want).enumerate() {
            let (x, y) = (i as i64 % self.w, i as i64 / self.w);
            let ok = match w {
                Keep => a == b,
                Either => a == b || *a == fg,
                Set => *a == fg,
            };
            assert!(ok, "{}x{}\n{}pixel {x},{y} must be {w:?} but went from {b:?} to {a:?}", self.w, self.h, self.log);
        }
        let panel = self.panel.borrow();
        match &self.frozen {
            Some(f) => assert!(*f == panel.pixels, "{}changed while not synchronized", self.log),
            None => assert!(after == panel.pixels, "{}the LCD does not show the screen", self.log),
        }
        after
    }

    /// Forgets about what is under the cursor, which is at the top left all the time.
    fn cursor(&self, before: &mut [RGB565]) -> Vec<usize> {
        let after = self.pixels();
        let cell: Vec<usize> =
            (0..8).flat_map(|y| (0..5).map(move |x| (y * self.w + x) as usize)).collect();
        for k in &cell {
            before[*k] = after[*k];
        }
        cell
    }

    fn blank(&self) -> Vec<Want> {
        vec![Keep; (self.w * self.h) as usize]
    }

    fn mark(&self, want: &mut [Want], (x, y): P, to: Want) {
        if x >= 0 && y >= 0 && x < self.w && y < self.h {
            let k = (y * self.w + x) as usize;
            if want[k] != Set {
                want[k] = to;
            }
        }
    }

    fn line(&self, want: &mut [Want], a: P, b: P) {
        let (dx, dy) = (b.0 - a.0, b.1 - a.1);
        let steps = dx.abs().max(dy.abs());
        for y in a.1.min(b.1).max(0)..=a.1.max(b.1).min(self.h - 1) {
            for x in a.0.min(b.0).max(0)..=a.0.max(b.0).min(self.w - 1) {
                let off = (2 * ((x - a.0) * dy - (y - a.1) * dx)).abs();
                if off < steps || steps == 0 {
                    self.mark(want, (x, y), Set);
                } else if off == steps {
                    self.mark(want, (x, y), Either);
                }
            }
        }
    }

    fn outline(&self, want: &mut [Want], points: &[P]) {
        for i in 0..points.len() {
            self.line(want, points[i], points[(i + 1) % points.len()]);
        }
    }

    /// Even-odd rule.
    fn interior(&self, want: &mut [Want], points: &[P]) {
        for y in 0..self.h {
            let mut xs = vec![];
            for i in 0..points.len() {
                let (a, b) = (points[i], points[(i + 1) % points.len()]);
                if a.1.min(b.1) <= y && y < a.1.max(b.1) {
                    xs.push(a.0 as f64 + ((y - a.1) * (b.0 - a.0)) as f64 / (b.1 - a.1) as f64);
                }
            }
            xs.sort_by(f64::total_cmp);
            for pair in xs.chunks_exact(2) {
                for x in 0..self.w {
                    let xf = x as f64;
                    if pair[0] + 1.0 <= xf && xf <= pair[1] - 1.0 {
                        self.mark(want, (x, y), Set);
                    } else if pair[0] - 1.0 < xf && xf < pair[1] + 1.0 {
                        self.mark(want, (x, y), Either);
                    }
                }
            }
        }
    }

    fn shape(&self, want: &mut [Want], points: &[P], filled: bool) {
        match points.len() {
            0 => (),
            1 => self.mark(want, points[0], Set),
            2 => self.line(want, points[0], points[1]),
            _ => {
                if points.len() == 3 {
                    let (a, b, c) = (points[0], points[1], points[2]);
                    if (b.0 - a.0) * (c.1 - a.1) == (b.1 - a.1) * (c.0 - a.0) {
                        return;
                    }
                }
                if points.iter().all(|p| *p == points[0]) {
                    return;
                }
                self.outline(want, points);
                if filled {
                    self.interior(want, points);
                }
            }
        }
    }

    fn circle(&self, want: &mut [Want], c: P, r: i64, filled: bool) {
        if r == 0 {
            return;
        }
        let r = (r - 1) as f64;
        for y in 0..self.h {
            for x in 0..self.w {
                let d = (((x - c.0).pow(2) + (y - c.1).pow(2)) as f64).sqrt();
                if filled && d <= r - 1.0 || d == 0.0 && r == 0.0 {
                    self.mark(want, (x, y), Set);
                } else if d <= r + 1.0 && d > r - 1.0 && r > 0.0 {
                    self.mark(want, (x, y), Either);
                }
            }
        }
    }

    /// Circles have no gaps.
    fn circle_complete(&self, after: &[RGB565], c: P, r: i64) {
        if r < 2 {
            return;
        }
        let fg = color(self.fg);
        let r = r - 1;
        for t in -r..=r {
            for side in [-1, 1] {
                for vertical in [false, true] {
                    let near: Vec<P> = (0..=r + 1)
                        .filter(|u| (((u * u + t * t) as f64).sqrt() - r as f64).abs() <= 1.0)
                        .map(|u| if vertical { (c.0 + t, c.1 + side * u) } else { (c.0 + side * u, c.1 + t) })
                        .collect();
                    if near.iter().any(|p| p.0 < 0 || p.1 < 0 || p.0 >= self.w || p.1 >= self.h) {
                        continue;
                    }
                    let drawn = near.iter().any(|p| after[(p.1 * self.w + p.0) as usize] == fg);
                    assert!(drawn, "{}gap in the circle at {near:?}", self.log);
                }
            }
        }
    }

    fn flood(&self, want: &mut [Want], before: &[RGB565], seed: P) {
        if seed.0 < 0 || seed.1 < 0 || seed.0 >= self.w || seed.1 >= self.h {
            return;
        }
        let from = before[(seed.1 * self.w + seed.0) as usize];
        let mut todo = vec![seed];
        while let Some((x, y)) = todo.pop() {
            if x < 0 || y < 0 || x >= self.w || y >= self.h {
                continue;
            }
            let k = (y * self.w + x) as usize;
            if want[k] == Set || before[k] != from {
                continue;
            }
            want[k] = Set;
            todo.extend([(x - 1, y), (x + 1, y), (x, y - 1), (x, y + 1)]);
        }
    }
}

/// A coordinate, mostly around the screen.
fn coord(n: &mut impl Nd, size: i64) -> i64 {
    match n.below(48) {
        0 => -32768,
        1 => 32767,
        2 => n.i16() as i64,
        3 => size,
        4 => size - 1,
        5 => 0,
        6 => -1,
        7..=13 => n.below(size as usize * 3) as i64 - size,
        _ => n.below(size as usize) as i64,
    }
}
/// A coordinate close to the screen.
fn near(n: &mut impl Nd, size: i64) -> i64 {
    match n.below(8) {
        0 => n.below(size as usize * 5) as i64 - 2 * size,
        1 => [0, size - 1, size, -1][n.below(4)],
        _ => n.below(size as usize) as i64,
    }
}

/// Runs commands and checks the screen after each.
fn drawing(n: &mut impl Nd) {
    let (w, h) = (10 + n.below(50), 10 + n.below(50));
    let mut s = Screen::new(w, h);
    let mut before = s.pixels();
    for _ in 0..3 + n.below(12) {
        let mut want = s.blank();
        let mut fg = s.fg;
        let mut circle = None;
        match n.below(16) {
            0 => {
                s.fg = if n.bool() { n.below(16) as u8 } else { n.u8() };
                s.bg = n.u8();
                let c = format!("COLOR {}, {}", s.fg, s.bg);
                s.ok(&c);
                fg = s.fg;
            }
            1 => match n.below(4) {
                0 => {
                    s.ok("GFX_SYNC FALSE");
                    s.cursor(&mut before);
                    if s.frozen.is_none() {
                        s.frozen = Some(before.clone());
                    }
                }
                1 => {
                    s.ok("GFX_SYNC TRUE");
                    s.cursor(&mut before);
                    s.frozen = None;
                }
                2 => {
                    s.ok("GFX_SYNC");
                    if s.frozen.is_some() {
                        s.frozen = Some(before.clone());
                    }
                }
                _ => {
                    s.ok("CLS");
                    fg = s.bg;
                    want = vec![Set; want.len()];
                    for k in s.cursor(&mut before) {
                        assert!([color(s.fg), color(s.bg)].contains(&before[k]));
                        want[k] = Keep;
                    }
                }
            },
            2 => {
                let p = (coord(n, s.w), coord(n, s.h));
                s.ok(&format!("GFX_PIXEL {}, {}", p.0, p.1));
                s.mark(&mut want, p, Set);
            }
            3..=5 => {
                let (a, b) = ((coord(n, s.w), coord(n, s.h)), (coord(n, s.w), coord(n, s.h)));
                s.ok(&format!("GFX_LINE {}, {}, {}, {}", a.0, a.1, b.0, b.1));
                s.line(&mut want, a, b);
            }
            6 | 7 => {
                let (a, b) = ((coord(n, s.w), coord(n, s.h)), (coord(n, s.w), coord(n, s.h)));
                let filled = n.bool();
                let name = if filled { "GFX_RECTF" } else { "GFX_RECT" };
                s.ok(&format!("{} {}, {}, {}, {}", name, a.0, a.1, b.0, b.1));
                // Excludes the bottom right corner.
                let (x1, y1) = (a.0.min(b.0), a.1.min(b.1));
                let (x2, y2) = (a.0.max(b.0) - 1, a.1.max(b.1) - 1);
                if x1 > x2 || y1 > y2 {
                    s.line(&mut want, a, b);
                } else if filled {
                    for y in y1.max(0)..=y2.min(s.h - 1) {
                        for x in x1.max(0)..=x2.min(s.w - 1) {
                            s.mark(&mut want, (x, y), Set);
                        }
                    }
                } else {
                    s.outline(&mut want, &[(x1, y1), (x2, y1), (x2, y2), (x1, y2)]);
                }
            }
            8 | 9 => {
                let c = (coord(n, s.w), coord(n, s.h));
                let r = match n.below(8) {
                    0 => [0, 1, 2, 16383, n.below(16384) as i64][n.below(5)],
                    _ => n.below(2 * w) as i64,
                };
                let filled = n.bool();
                let name = if filled { "GFX_CIRCLEF" } else { "GFX_CIRCLE" };
                s.ok(&format!("{} {}, {}, {}", name, c.0, c.1, r));
                s.circle(&mut want, c, r, filled);
                circle = Some((c, r));
            }
            10 | 11 => {
                let wide = n.below(12) == 0;
                let tall = !wide && n.below(12) == 0;
                let points: Vec<P> = (0..3)
                    .map(|_| {
                        let x = if wide { coord(n, s.w) } else { near(n, s.w) };
                        (x, if tall { coord(n, s.h) } else { near(n, s.h) })
                    })
                    .collect();
                let filled = n.bool();
                let args: Vec<String> = points.iter().map(|p| format!("{}, {}", p.0, p.1)).collect();
                let name = if filled { "GFX_TRIF" } else { "GFX_TRI" };
                s.ok(&format!("{} {}", name, args.join(", ")));
                s.shape(&mut want, &points, filled);
            }
            12 | 13 => {
                let points: Vec<P> =
                    (0..n.below(8)).map(|_| (near(n, s.w), near(n, s.h))).collect();
                let filled = n.bool();
                let name = if filled { "GFX_POLYF" } else { "GFX_POLY" };
                let form = if points.is_empty() { 0 } else { n.below(3) };
                let program = match form {
                    0 => {
                        let args: Vec<String> =
                            points.iter().map(|p| format!("{}, {}", p.0, p.1)).collect();
                        format!("{} {}", name, args.join(", "))
                    }
                    1 => {
                        s.arrays += 1;
                        let a = format!("a{}", s.arrays);
                        let mut p = format!("DIM {}({}) AS INTEGER\n", a, points.len() * 2);
                        for (i, (x, y)) in points.iter().enumerate() {
                            p += &format!("{a}({}) = {x}\n{a}({}) = {y}\n", 2 * i, 2 * i + 1);
                        }
                        format!("{p}{name} {a}")
                    }
                    _ => {
                        s.arrays += 1;
                        let a = format!("a{}", s.arrays);
                        let mut p = format!("DIM {}({}, 2) AS INTEGER\n", a, points.len());
                        for (i, (x, y)) in points.iter().enumerate() {
                            p += &format!("{a}({i}, 0) = {x}\n{a}({i}, 1) = {y}\n");
                        }
                        format!("{p}{name} {a}")
                    }
                };
                s.ok(&program);
                s.shape(&mut want, &points, filled);
            }
            14 => {
                let p = (near(n, s.w), near(n, s.h));
                s.ok(&format!("GFX_FILL {}, {}", p.0, p.1));
                s.flood(&mut want, &before, p);
            }
            _ => {
                let p = (coord(n, s.w), coord(n, s.h));
                let out = s.run(&format!("PROBE GFX_PEEK({}, {}), GFX_WIDTH, GFX_HEIGHT", p.0, p.1));
                let out = out.ints();
                assert_eq!(&out[1..], &[w as i32, h as i32]);
                if p.0 >= 0 && p.1 >= 0 && p.0 < s.w && p.1 < s.h {
                    assert!((0..256).contains(&out[0]), "{}{}", s.log, out[0]);
                    assert_eq!(color(out[0] as u8), before[(p.1 * s.w + p.0) as usize], "{}", s.log);
                } else {
                    assert_eq!(-1, out[0], "{}", s.log);
                }
            }
        }
        before = s.check(&before, &want, fg);
        if let Some((c, r)) = circle {
            s.circle_complete(&before, c, r);
        }
    }
}

/// Arguments that make no sense are errors that do not draw anything.
fn refused(n: &mut impl Nd) {
    let mut s = Screen::new(20, 12);
    let before = s.pixels();
    let bad = match n.below(3) {
        0 => 32768 + n.below(40000) as i64,
        1 => -32769 - n.below(40000) as i64,
        _ => [i64::from(i32::MAX), i64::from(i32::MIN) + 1][n.below(2)],
    };
    let mut args: Vec<String> = (0..8).map(|_| n.below(10).to_string()).collect();
    let (name, count) = [
        ("GFX_PIXEL", 2), ("GFX_LINE", 4), ("GFX_RECT", 4), ("GFX_RECTF", 4), ("GFX_CIRCLE", 2),
        ("GFX_CIRCLEF", 2), ("GFX_TRI", 6), ("GFX_TRIF", 6), ("GFX_POLY", 8), ("GFX_POLYF", 8),
        ("GFX_FILL", 2),
    ][n.below(11)];
    let circle = name.starts_with("GFX_CIRCLE");
    let message;
    if circle && n.bool() {
        let r = match n.below(3) {
            0 => -1 - n.below(40000) as i64,
            1 => 16384 + n.below(49152) as i64,
            _ => 65536 + n.below(40000) as i64,
        };
        args[2] = r.to_string();
        message = match r {
            i64::MIN..=-1 => format!("Radius {r} must be positive"),
            0..=65535 => "Radius is too big".to_owned(),
            _ => format!("Radius {r} out of range"),
        };
    } else {
        args[n.below(count)] = bad.to_string();
        message = format!("Coordinate {bad} out of range");
    }
    let count = if circle { 3 } else { count };
    let out = s.run(&format!("{} {}", name, args[..count].join(", ")));
    assert!(out.message().contains(&message), "{}{:?} instead of {message}", s.log, out.error);
    let want = s.blank();
    s.check(&before, &want, 15);
}

/// Polygons take pairs of coordinates.
fn odd(n: &mut impl Nd) {
    let mut s = Screen::new(20, 12);
    let before = s.pixels();
    let name = if n.bool() { "GFX_POLY" } else { "GFX_POLYF" };
    let program = match n.below(4) {
        0 => {
            let args: Vec<String> = (0..3 + 2 * n.below(4)).map(|_| n.below(10).to_string()).collect();
            format!("{} {}", name, args.join(", "))
        }
        1 => format!("DIM a({}) AS INTEGER\n{} a", 1 + 2 * n.below(5), name),
        2 => format!("DIM a({}, {}) AS INTEGER\n{} a", 1 + n.below(5), [1, 3, 4][n.below(3)], name),
        _ => format!("DIM a(4) AS {}\n{} a", ["DOUBLE", "STRING", "BOOLEAN"][n.below(3)], name),
    };
    let out = s.run(&program);
    assert!(out.message().contains("Expected"), "{}{:?}", s.log, out.error);
    let want = s.blank();
    s.check(&before, &want, 15);
}

crate::suite! { "P13";
    bounded drawing * 3000;
    bounded refused * 300;
    bounded odd * 100;
}
