//! P13: geometry of the drawing primitives.

use crate::nd::Nd;
use endbasic_std::console::drawing;
use endbasic_std::console::graphics::{verif, ClampedInto, ClampedMul, RasterInfo, RasterOps};
use endbasic_std::console::{CharsXY, PixelsXY, SizeInPixels, RGB};
use endbasic_std::gfx::lcd::fonts::FONT_5X8;
use endbasic_std::gfx::lcd::{to_xy_size, BufferedLcd, Lcd, LcdSize, LcdXY, RGB565Pixel};
use std::io;
use std::mem::ManuallyDrop;

fn xy(n: &mut impl Nd) -> PixelsXY {
    PixelsXY { x: n.i16(), y: n.i16() }
}
/// A point near the origin.
fn small(n: &mut impl Nd) -> PixelsXY {
    PixelsXY { x: n.below(16) as i16 - 8, y: n.below(16) as i16 - 8 }
}
fn size(n: &mut impl Nd) -> SizeInPixels {
    let (w, h) = (n.u16(), n.u16());
    n.assume(w > 0 && h > 0);
    SizeInPixels::new(w, h)
}

/// Conversions go to the nearest value that can be represented.
fn clamps(n: &mut impl Nd) {
    let (i, u, w, s, t) = (n.i32(), n.u16(), n.u32(), n.i16(), n.u16());
    let a: i16 = i.clamped_into();
    assert_eq!(i.clamp(-32768, 32767), i32::from(a));
    let a: u16 = i.clamped_into();
    assert_eq!(i.clamp(0, 65535), i32::from(a));
    let a: u16 = w.clamped_into();
    assert_eq!(w.min(65535), u32::from(a));
    let a: i16 = u.clamped_into();
    assert_eq!(u.min(32767) as i32, i32::from(a));
    n.assume(s >= 0);
    let a: usize = s.clamped_into();
    assert_eq!(s as usize, a);
    let exact = u64::from(u) * u64::from(t);
    let a: u16 = u.clamped_mul(t);
    assert_eq!(exact.min(65535), u64::from(a));
    let a: i16 = u.clamped_mul(t);
    assert_eq!(exact.min(32767), a as u64);
    let a: i32 = u.clamped_mul(t);
    assert_eq!(exact.min(0x7fff_ffff), a as u64);
    let a: u32 = u.clamped_mul(t);
    assert_eq!(exact, u64::from(a));
}

/// Positions of characters.
fn char_pixels(n: &mut impl Nd) {
    let (pos, glyph) = (CharsXY::new(n.u16(), n.u16()), size(n));
    let xy: PixelsXY = pos.clamped_mul(glyph);
    assert!(xy.x >= 0 && xy.y >= 0);
    let x = u32::from(pos.x) * u32::from(glyph.width);
    let y = u32::from(pos.y) * u32::from(glyph.height);
    assert!(xy.x as u32 == x || x > 32767 && xy.x == 32767);
    assert!(xy.y as u32 == y || y > 32767 && xy.y == 32767);
}

/// The rectangle between two points, whichever way they are given.
fn rect(n: &mut impl Nd) {
    let (a, b) = (xy(n), xy(n));
    let w = (i32::from(a.x) - i32::from(b.x)).abs();
    let h = (i32::from(a.y) - i32::from(b.y)).abs();
    match verif::rect_points(a, b) {
        None => assert!(w == 0 || h == 0),
        Some((o, s)) => {
            assert!(w != 0 && h != 0);
            assert!(o.x == a.x.min(b.x) && o.y == a.y.min(b.y));
            assert!(i32::from(s.width) == w && i32::from(s.height) == h);
        }
    }
}

/// Triangles are drawn unless their area is zero.
fn tri(n: &mut impl Nd) {
    let (a, b, c) = (xy(n), xy(n), xy(n));
    // Relative to another vertex than the code does it.
    let (ax, ay) = (i64::from(a.x) - i64::from(c.x), i64::from(a.y) - i64::from(c.y));
    let (bx, by) = (i64::from(b.x) - i64::from(c.x), i64::from(b.y) - i64::from(c.y));
    assert!(verif::tri_points(a, b, c) == (ax * by != ay * bx));
}
/// The same on small coordinates, for which the products are within reach.
fn tri_small(n: &mut impl Nd) {
    let (a, b, c) = (small(n), small(n), small(n));
    let (ax, ay) = (i64::from(a.x) - i64::from(c.x), i64::from(a.y) - i64::from(c.y));
    let (bx, by) = (i64::from(b.x) - i64::from(c.x), i64::from(b.y) - i64::from(c.y));
    assert!(verif::tri_points(a, b, c) == (ax * by != ay * bx));
}
/// Triangles with equal vertices have no area and those with two sides along the axes do.
fn tri_simple(n: &mut impl Nd) {
    let (a, b) = (xy(n), xy(n));
    assert!(!verif::tri_points(a, a, b) && !verif::tri_points(a, b, a) && !verif::tri_points(b, a, a));
    let corner = PixelsXY { x: a.x, y: b.y };
    let area = a.x != b.x && a.y != b.y;
    assert!(verif::tri_points(a, corner, b) == area);
    assert!(verif::tri_points(b, a, corner) == area);
}

fn poly(n: &mut impl Nd) {
    let points = [xy(n), xy(n), xy(n), xy(n)];
    let all = points.iter().all(|p| p.x == points[0].x && p.y == points[0].y);
    assert!(verif::poly_points(&points) == !all);
}

/// Rows that edges cross, at a column between their ends.
fn edge(n: &mut impl Nd) {
    let (y, a, b) = (n.i16(), xy(n), xy(n));
    let r = drawing::verif::edge_intersection(i32::from(y), a, b);
    let crossed = a.y.min(b.y) <= y && y < a.y.max(b.y);
    assert!(r.is_some() == crossed);
    if let Some(x) = r {
        if y == a.y {
            assert!(x == i32::from(a.x));
        }
        if a.x == b.x {
            assert!(x == i32::from(a.x));
        }
    }
}
/// Columns are less than one pixel away from the exact position.
fn edge_near(n: &mut impl Nd) {
    let (y, a, b) = (n.i16(), xy(n), xy(n));
    if let Some(x) = drawing::verif::edge_intersection(i32::from(y), a, b) {
        let dy = i64::from(b.y) - i64::from(a.y);
        let exact = i64::from(i32::from(y) - i32::from(a.y)) * (i64::from(b.x) - i64::from(a.x));
        let got = (i64::from(x) - i64::from(a.x)) * dy;
        assert!((exact - got).abs() < dy.abs(), "{:?} {:?} {}: {}", a, b, y, x);
    }
}
fn edge_near_small(n: &mut impl Nd) {
    let (y, a, b) = (n.i16(), small(n), small(n));
    if let Some(x) = drawing::verif::edge_intersection(i32::from(y), a, b) {
        let dy = i64::from(b.y) - i64::from(a.y);
        let exact = i64::from(i32::from(y) - i32::from(a.y)) * (i64::from(b.x) - i64::from(a.x));
        let got = (i64::from(x) - i64::from(a.x)) * dy;
        assert!((exact - got).abs() < dy.abs());
    }
}

/// An LCD of some size.
struct Blank(usize, usize);
impl Lcd for Blank {
    type Pixel = RGB565Pixel;
    fn info(&self) -> (LcdSize, usize) {
        (LcdSize { width: self.0, height: self.1 }, 2)
    }
    fn decode(&self, _p: &[u8]) -> RGB {
        (0, 0, 0)
    }
    fn encode(&self, _rgb: RGB) -> RGB565Pixel {
        RGB565Pixel([0; 2])
    }
    fn set_data(&mut self, _a: LcdXY, _b: LcdXY, _data: &[u8]) -> io::Result<()> {
        Ok(())
    }
}
fn blank(n: &mut impl Nd) -> (ManuallyDrop<BufferedLcd<Blank>>, usize, usize) {
    let (w, h) = (n.u16() as usize, n.u16() as usize);
    n.assume(w > 0 && h > 0);
    (ManuallyDrop::new(BufferedLcd::verif_new(Blank(w, h), &FONT_5X8, no_colors())), w, h)
}
fn no_colors() -> std::collections::HashMap<Vec<u8>, u8> {
    // A hasher without randomness, as nothing is ever hashed.
    let state: std::hash::RandomState = unsafe { std::mem::zeroed() };
    std::collections::HashMap::with_hasher(state)
}

/// Points are visible if and only if they are on the LCD.
fn clip_point(n: &mut impl Nd) {
    let (lcd, w, h) = blank(n);
    let p = xy(n);
    let on = p.x >= 0 && p.y >= 0 && (p.x as usize) < w && (p.y as usize) < h;
    match lcd.verif_clip_xy(p) {
        Some(q) => {
            assert!(on && q.x == p.x as usize && q.y == p.y as usize);
        }
        None => assert!(!on),
    }
}

/// Every pixel has its own place in the framebuffer.
fn address(n: &mut impl Nd) {
    let (lcd, w, h) = blank(n);
    let (x, y) = (n.below(w), n.below(h));
    let addr = lcd.verif_fb_addr(x, y);
    assert!(addr + 2 <= w * h * 2, "out of the framebuffer");
    assert!(addr == (y * w + x) * 2);
}

/// What is visible of a rectangle is its intersection with the LCD.
fn clip_rect(n: &mut impl Nd) {
    let (lcd, w, h) = blank(n);
    let (p, s) = (xy(n), size(n));
    let (x1, y1) = (i64::from(p.x), i64::from(p.y));
    let (x2, y2) = (x1 + i64::from(s.width) - 1, y1 + i64::from(s.height) - 1);
    // Rectangles after the LCD are dealt with by the caller.
    n.assume(x1 < w as i64 && y1 < h as i64);
    let origin = lcd.verif_clamp_xy(p);
    match lcd.verif_clip_x2y2(p, s) {
        None => assert!(x2 < 0 || y2 < 0),
        Some(end) => {
            assert!(x2 >= 0 && y2 >= 0);
            assert!(origin.x as i64 == x1.max(0) && origin.y as i64 == y1.max(0));
            assert!(end.x as i64 == x2.min(w as i64 - 1) && end.y as i64 == y2.min(h as i64 - 1));
            let (o, area) = to_xy_size(origin, end);
            assert!(o.x == origin.x && o.y == origin.y);
            assert!(area.width == end.x - o.x + 1 && area.height == end.y - o.y + 1);
        }
    }
}

/// The area to refresh contains everything that changed.
fn damage(n: &mut impl Nd) {
    let (mut lcd, w, h) = blank(n);
    let mut area = || {
        let b = LcdXY { x: n.below(w), y: n.below(h) };
        (LcdXY { x: n.below(b.x + 1), y: n.below(b.y + 1) }, b)
    };
    let (a, b) = (area(), area());
    let r = lcd.verif_damage(a, b);
    for (p, q) in [a, b] {
        assert!(r.0.x <= p.x && r.0.y <= p.y && r.1.x >= q.x && r.1.y >= q.y, "lost damage");
    }
    assert!(r.1.x < w && r.1.y < h);
}

/// Keeps track of the pixels that get drawn.
struct Pen<F: FnMut(PixelsXY)>(F);
impl<F: FnMut(PixelsXY)> RasterOps for Pen<F> {
    type ID = ();
    fn get_info(&self) -> RasterInfo {
        unreachable!()
    }
    fn set_draw_color(&mut self, _color: RGB) {}
    fn clear(&mut self) -> io::Result<()> {
        unreachable!()
    }
    fn present_canvas(&mut self) -> io::Result<()> {
        unreachable!()
    }
    fn peek_pixel(&self, _xy: PixelsXY) -> io::Result<Option<u8>> {
        unreachable!()
    }
    fn read_pixels(&mut self, _xy: PixelsXY, _size: SizeInPixels) -> io::Result<()> {
        unreachable!()
    }
    fn put_pixels(&mut self, _xy: PixelsXY, _data: &()) -> io::Result<()> {
        unreachable!()
    }
    fn move_pixels(&mut self, _a: PixelsXY, _b: PixelsXY, _size: SizeInPixels) -> io::Result<()> {
        unreachable!()
    }
    fn write_text(&mut self, _xy: PixelsXY, _text: &str) -> io::Result<()> {
        unreachable!()
    }
    fn draw_circle(&mut self, _center: PixelsXY, _radius: u16) -> io::Result<()> {
        unreachable!()
    }
    fn draw_circle_filled(&mut self, _center: PixelsXY, _radius: u16) -> io::Result<()> {
        unreachable!()
    }
    fn draw_line(&mut self, _a: PixelsXY, _b: PixelsXY) -> io::Result<()> {
        unreachable!()
    }
    fn draw_pixel(&mut self, xy: PixelsXY) -> io::Result<()> {
        (self.0)(xy);
        Ok(())
    }
    fn draw_poly(&mut self, _points: &[PixelsXY]) -> io::Result<()> {
        unreachable!()
    }
    fn draw_poly_filled(&mut self, _points: &[PixelsXY]) -> io::Result<()> {
        unreachable!()
    }
    fn draw_rect(&mut self, _xy: PixelsXY, _size: SizeInPixels) -> io::Result<()> {
        unreachable!()
    }
    fn draw_rect_filled(&mut self, _xy: PixelsXY, _size: SizeInPixels) -> io::Result<()> {
        unreachable!()
    }
    fn draw_tri(&mut self, _a: PixelsXY, _b: PixelsXY, _c: PixelsXY) -> io::Result<()> {
        unreachable!()
    }
    fn draw_tri_filled(&mut self, _a: PixelsXY, _b: PixelsXY, _c: PixelsXY) -> io::Result<()> {
        unreachable!()
    }
}

/// Every pixel of a line is half a pixel away from it at most, and there is one per step.
fn check_line(a: PixelsXY, b: PixelsXY) {
    let (dx, dy) = (i64::from(b.x) - i64::from(a.x), i64::from(b.y) - i64::from(a.y));
    let steps = dx.abs().max(dy.abs());
    let mut count = 0;
    let (mut first, mut last) = (false, false);
    let mut pen = Pen(|p: PixelsXY| {
        count += 1;
        let (px, py) = (i64::from(p.x) - i64::from(a.x), i64::from(p.y) - i64::from(a.y));
        assert!(p.x >= a.x.min(b.x) && p.x <= a.x.max(b.x), "outside of the line");
        assert!(p.y >= a.y.min(b.y) && p.y <= a.y.max(b.y), "outside of the line");
        assert!((2 * (px * dy - py * dx)).abs() <= steps, "{:?} is not on the line", p);
        first |= px == 0 && py == 0;
        last |= px == dx && py == dy;
    });
    drawing::draw_line(&mut pen, a, b).expect("Pens do not fail");
    assert!(count == steps + 1, "{} pixels instead of {}", count, steps + 1);
    assert!(first && last, "the ends are missing");
}
fn line(n: &mut impl Nd) {
    check_line(xy(n), xy(n));
}
/// Short lines, anywhere.
fn line_short(n: &mut impl Nd) {
    let a = xy(n);
    let (dx, dy) = (n.below(41) as i16 - 20, n.below(41) as i16 - 20);
    let (x, y) = (i32::from(a.x) + i32::from(dx), i32::from(a.y) + i32::from(dy));
    n.assume(x >= -32768 && x <= 32767 && y >= -32768 && y <= 32767);
    check_line(a, PixelsXY { x: x as i16, y: y as i16 });
}

crate::suite! { "P13";
    proved clamps * 1000;
    proved char_pixels * 1000;
    proved rect * 1000;
    bounded tri * 1000;
    bounded_proof tri_small * 1000;
    bounded tri_simple * 1000;
    proved poly [kani::unwind(6)] * 1000;
    proved edge * 1000;
    bounded edge_near * 1000;
    bounded_proof edge_near_small * 1000;
    proved clip_point [kani::unwind(4)] * 1000;
    bounded address * 1000;
    proved clip_rect [kani::unwind(4)] * 1000;
    proved damage [kani::unwind(4)] * 1000;
    bounded line * 100;
    bounded line_short * 1000;
}
