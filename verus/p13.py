"""P13: the drawing algorithms, for coordinates and sizes of any magnitude."""

from verus_run import File, Lost

DRAWING = "std/src/console/drawing.rs"
GRAPHICS = "std/src/console/graphics.rs"
BUFFERED = "std/src/gfx/lcd/buffered/mod.rs"

OPEN = """
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(io::Error);

pub assume_specification [i32::abs] (a: i32) -> (r: i32)
    requires a != i32::MIN
    ensures r == (if a < 0 { -a } else { a as int });

pub assume_specification [<i16 as TryFrom<u16>>::try_from] (d: u16) -> (r: Result<i16, <i16 as TryFrom<u16>>::Error>)
    ensures (d <= 32767) == (r is Ok), r is Ok ==> r->Ok_0 == d;

pub assume_specification [<i32 as From<u16>>::from] (v: u16) -> (r: i32)
    ensures r == v;

pub open spec fn abs(a: int) -> int { if a < 0 { -a } else { a } }
pub open spec fn max(a: int, b: int) -> int { if a < b { b } else { a } }
pub open spec fn min(a: int, b: int) -> int { if a < b { a } else { b } }
"""

# What the algorithms draw on: the trait of the code reduced to what they call, with the effect of
# each of its methods as a ghost list.
SURFACE = """
pub trait RasterOps: Sized {
    spec fn pixels(&self) -> Seq<(int, int)>;
    spec fn lines(&self) -> Seq<((int, int), (int, int))>;
    fn draw_pixel(&mut self, xy: PixelsXY) -> (r: io::Result<()>)
        ensures
            r is Ok ==> final(self).pixels() == old(self).pixels().push((xy.x as int, xy.y as int)),
            final(self).lines() == old(self).lines();
    fn draw_line(&mut self, x1y1: PixelsXY, x2y2: PixelsXY) -> (r: io::Result<()>)
        ensures
            r is Ok ==> final(self).lines() == old(self).lines().push(
                ((x1y1.x as int, x1y1.y as int), (x2y2.x as int, x2y2.y as int))),
            final(self).pixels() == old(self).pixels();
}
"""


def lines(u):
    drawing = File(DRAWING)
    u.add("verus! {")
    u.add(OPEN)
    u.add("#[derive(Clone, Copy)]\n" + File("std/src/console/mod.rs").item("struct", "PixelsXY"))
    u.add(SURFACE)
    u.add("""
/// Half a pixel away from the line at most.
pub open spec fn close(x1: int, y1: int, x2: int, y2: int, p: (int, int)) -> bool {
    &&& 2 * abs((p.0 - x1) * (y2 - y1) - (p.1 - y1) * (x2 - x1)) <= max(abs(x2 - x1), abs(y2 - y1))
    &&& min(x1, x2) <= p.0 <= max(x1, x2)
    &&& min(y1, y2) <= p.1 <= max(y1, y2)
}

/// One pixel per step of the longer side, with both ends.
pub open spec fn drawn_line(before: Seq<(int, int)>, after: Seq<(int, int)>, x1: int, y1: int, x2: int, y2: int) -> bool {
    let steps = max(abs(x2 - x1), abs(y2 - y1));
    &&& after.len() == before.len() + steps + 1
    &&& forall|i: int| 0 <= i < before.len() ==> after[i] == before[i]
    &&& forall|i: int| #![trigger after[i]] before.len() <= i < after.len() ==> close(x1, y1, x2, y2, after[i])
    &&& (after[before.len() as int] == (x1, y1) && after[after.len() - 1] == (x2, y2)
        || after[before.len() as int] == (x2, y2) && after[after.len() - 1] == (x1, y1))
}

/// Accumulated error, which the code calls `d`.
pub open spec fn error(a: int, b: int, k: int, s: int) -> int {
    2 * a * (k + 1) - b - 2 * b * s
}

/// How far the error of a step is from its bounds: a = |minor side|, b = major side, k = steps so
/// far along the major side, s = steps so far along the minor side.
proof fn near(a: int, b: int, k: int, s: int, d: int)
    requires
        0 <= a <= b, 0 <= k <= b, 0 <= s,
        d == error(a, b, k, s),
        2 * a - 2 * b <= d <= 2 * a,
    ensures
        2 * abs(k * a - s * b) <= b,
        b > 0 ==> s <= a,
        k == b && b > 0 ==> s == a,
{
    assert(2 * a * (k + 1) == 2 * (k * a) + 2 * a) by (nonlinear_arith);
    assert(2 * b * s == 2 * (s * b)) by (nonlinear_arith);
    assert(d == 2 * (k * a) + 2 * a - b - 2 * (s * b));
    assert(2 * (k * a - s * b) == d - 2 * a + b);
    assert(2 * abs(k * a - s * b) <= b);
    assert(k * a <= b * a) by (nonlinear_arith) requires k <= b, a >= 0;
    if b > 0 {
        if s > a {
            assert(s * b >= (a + 1) * b) by (nonlinear_arith) requires s >= a + 1, b > 0;
            assert((a + 1) * b == b * a + b) by (nonlinear_arith);
        }
        if k == b && s < a {
            assert(s * b <= (a - 1) * b) by (nonlinear_arith) requires s <= a - 1, b > 0;
            assert((a - 1) * b == b * a - b) by (nonlinear_arith);
        }
    }
}

proof fn advance(a: int, b: int, k: int, s: int)
    ensures
        error(a, b, k + 1, s) == error(a, b, k, s) + 2 * a,
        error(a, b, k + 1, s + 1) == error(a, b, k, s) + 2 * (a - b),
{
    assert(2 * a * (k + 1 + 1) == 2 * a * (k + 1) + 2 * a) by (nonlinear_arith);
    assert(2 * b * (s + 1) == 2 * b * s + 2 * b) by (nonlinear_arith);
}

proof fn initial()
    ensures forall|a: int, b: int| #[trigger] error(a, b, 0, 0) == 2 * a - b
{
    assert forall|a: int, b: int| #[trigger] error(a, b, 0, 0) == 2 * a - b by {
        assert(2 * a * (0 + 1) == 2 * a) by (nonlinear_arith);
        assert(2 * b * 0 == 0) by (nonlinear_arith);
    }
}

proof fn sign(sa: int, s: int)
    requires sa == 1 || sa == -1
    ensures
        sa * s == (if sa == 1 { s } else { -s }),
        sa * (s + 1) == sa * s + sa,
{
    assert(sa * (s + 1) == sa * s + sa) by (nonlinear_arith);
    assert(sa * s == (if sa == 1 { s } else { -s })) by (nonlinear_arith) requires sa == 1 || sa == -1;
}

/// Signs do not matter.
proof fn signs(k: int, a: int, s: int, b: int, sa: int)
    requires sa == 1 || sa == -1
    ensures
        abs(k * (sa * a) - (sa * s) * b) == abs(k * a - s * b),
        abs((sa * s) * b - k * (sa * a)) == abs(k * a - s * b),
{
    assert(k * (sa * a) == sa * (k * a)) by (nonlinear_arith);
    assert((sa * s) * b == sa * (s * b)) by (nonlinear_arith);
    assert(sa * (k * a) == (if sa == 1 { k * a } else { -(k * a) })) by (nonlinear_arith) requires sa == 1 || sa == -1;
    assert(sa * (s * b) == (if sa == 1 { s * b } else { -(s * b) })) by (nonlinear_arith) requires sa == 1 || sa == -1;
}

/// Neither does the direction.
proof fn reversed(x1: int, y1: int, x2: int, y2: int)
    ensures forall|p: (int, int)| close(x1, y1, x2, y2, p) == close(x2, y2, x1, y1, p)
{
    assert forall|p: (int, int)| close(x1, y1, x2, y2, p) == close(x2, y2, x1, y1, p) by {
        let (dx, dy) = (x2 - x1, y2 - y1);
        assert((p.0 - x2) * (y1 - y2) == -((p.0 - x1) * dy) + dx * dy) by (nonlinear_arith)
            requires dx == x2 - x1, dy == y2 - y1;
        assert((p.1 - y2) * (x1 - x2) == -((p.1 - y1) * dx) + dx * dy) by (nonlinear_arith)
            requires dx == x2 - x1, dy == y2 - y1;
    }
}
""")
    fits = "-32768 <= x1 <= 32767, -32768 <= x2 <= 32767, -32768 <= y1 <= 32767, -32768 <= y2 <= 32767,"
    for (name, along, across, delta, cross, var, step, a1, a2, b1, b2) in [
        ("draw_line_low", "x", "y", "dx", "dy", "y", "yi", "x1", "x2", "y1", "y2"),
        ("draw_line_high", "y", "x", "dy", "dx", "x", "xi", "y1", "y2", "x1", "x2"),
    ]:
        u.fn(drawing, name,
             contract="""
    requires
        %s
        %s <= %s, abs(%s - %s) <= %s - %s,
    ensures
        r is Ok ==> drawn_line(old(rasops).pixels(), final(rasops).pixels(), x1 as int, y1 as int, x2 as int, y2 as int),
        final(rasops).lines() == old(rasops).lines(),
""" % (fits, a1, a2, b2, b1, a2, a1),
             start="let ghost before = rasops.pixels(); let ghost mut s: int = 0; proof { initial(); }",
             loops=["""
        invariant
            %(fits)s
            %(a1)s <= %(along)s <= %(a2)s + 1,
            0 <= %(cross)s <= %(delta)s, %(delta)s == %(a2)s - %(a1)s,
            %(cross)s == abs(%(b2)s - %(b1)s), %(step)s == (if %(b2)s < %(b1)s { -1 } else { 1int }),
            s >= 0,
            %(var)s == %(b1)s + %(step)s * s,
            d == error(%(cross)s as int, %(delta)s as int, %(along)s - %(a1)s, s),
            2 * %(cross)s - 2 * %(delta)s <= d <= 2 * %(cross)s,
            %(along)s == %(a1)s ==> s == 0,
            rasops.lines() == old(rasops).lines(),
            rasops.pixels().len() == before.len() + (%(along)s - %(a1)s),
            forall|i: int| 0 <= i < before.len() ==> rasops.pixels()[i] == before[i],
            forall|i: int| #![trigger rasops.pixels()[i]] before.len() <= i < rasops.pixels().len() ==> close(x1 as int, y1 as int, x2 as int, y2 as int, rasops.pixels()[i]),
            %(along)s > %(a1)s ==> rasops.pixels()[before.len() as int] == (x1 as int, y1 as int),
            %(along)s > %(a2)s ==> rasops.pixels().last() == (x2 as int, y2 as int),
""" % locals()],
             loop_start={0: """
        proof {
            near(%(cross)s as int, %(delta)s as int, %(along)s - %(a1)s, s, d as int);
            advance(%(cross)s as int, %(delta)s as int, %(along)s - %(a1)s, s);
            signs(%(along)s - %(a1)s, %(cross)s as int, s, %(delta)s as int, %(step)s as int);
            sign(%(step)s as int, %(cross)s as int);
            sign(%(step)s as int, s);
            assert(close(x1 as int, y1 as int, x2 as int, y2 as int, (x as int, y as int)));
            if d > 0 { s = s + 1; }
        }
""" % locals()},
             )
    u.fn(drawing, "draw_line", start="proof { reversed(x1y1.x as int, x1y1.y as int, x2y2.x as int, x2y2.y as int); }", contract="""
    ensures
        r is Ok ==> drawn_line(old(rasops).pixels(), final(rasops).pixels(), x1y1.x as int, x1y1.y as int, x2y2.x as int, x2y2.y as int),
        final(rasops).lines() == old(rasops).lines(),
""")
    u.add("}\nfn main() {}")



def circles(u):
    drawing = File(DRAWING)
    u.add("verus! {")
    u.add(OPEN)
    u.add("#[derive(Clone, Copy)]\n" + File("std/src/console/mod.rs").item("struct", "PixelsXY"))
    u.add(SURFACE)
    u.add("""
#[verifier::external_body]
fn too_big() -> io::Error { unimplemented!() }

pub open spec fn sq(x: int) -> int { x * x }

/// Between the circles of radius r - 1 and r.
pub open spec fn ring(dx: int, dy: int, r: int) -> bool {
    sq(r - 1) <= sq(dx) + sq(dy) <= sq(r)
}

pub open spec fn fits(p: (int, int)) -> bool {
    -32768 <= p.0 <= 32767 && -32768 <= p.1 <= 32767
}

/// The pixel is drawn, unless it does not fit in the coordinate space.
pub open spec fn has(after: Seq<(int, int)>, p: (int, int)) -> bool {
    fits(p) ==> after.contains(p)
}

pub open spec fn octants(after: Seq<(int, int)>, cx: int, cy: int, x: int, y: int) -> bool {
    &&& has(after, (cx + x, cy - y)) && has(after, (cx + x, cy + y))
    &&& has(after, (cx - x, cy - y)) && has(after, (cx - x, cy + y))
    &&& has(after, (cx + y, cy - x)) && has(after, (cx + y, cy + x))
    &&& has(after, (cx - y, cy - x)) && has(after, (cx - y, cy + x))
}

/// Nothing but pixels of the ring is drawn.
pub open spec fn sound(before: Seq<(int, int)>, after: Seq<(int, int)>, cx: int, cy: int, r: int) -> bool {
    &&& before.len() <= after.len()
    &&& forall|i: int| 0 <= i < before.len() ==> after[i] == before[i]
    &&& forall|i: int| #![trigger after[i]] before.len() <= i < after.len() ==> ring(after[i].0 - cx, after[i].1 - cy, r)
}

proof fn squares()
    ensures
        forall|a: int| #[trigger] sq(-a) == sq(a),
        forall|a: int| #[trigger] sq(a + 1) == sq(a) + 2 * a + 1,
        forall|a: int| #[trigger] sq(a - 1) == sq(a) - 2 * a + 1,
        sq(0) == 0,
        sq(1) == 1,
{
    assert forall|a: int| #[trigger] sq(-a) == sq(a) by { assert((-a) * (-a) == a * a) by (nonlinear_arith); }
    assert forall|a: int| #[trigger] sq(a + 1) == sq(a) + 2 * a + 1 by { assert((a + 1) * (a + 1) == a * a + 2 * a + 1) by (nonlinear_arith); }
    assert forall|a: int| #[trigger] sq(a - 1) == sq(a) - 2 * a + 1 by { assert((a - 1) * (a - 1) == a * a - 2 * a + 1) by (nonlinear_arith); }
}

proof fn larger(a: int, b: int)
    requires 0 <= a <= b
    ensures sq(a) <= sq(b)
{
    assert(a * a <= b * b) by (nonlinear_arith) requires 0 <= a <= b;
}
""")
    small = [(r"Err\(io::Error::new\(io::ErrorKind::InvalidInput, \"Radius is too big\"\)\)", "Err(too_big())",
              "the construction of the error is replaced by a function with no contract")]
    u.add("""
proof fn keeps(a: Seq<(int, int)>, q: (int, int))
    ensures forall|p: (int, int)| #[trigger] a.contains(p) ==> a.push(q).contains(p), a.push(q).contains(q)
{
    assert forall|p: (int, int)| #[trigger] a.contains(p) implies a.push(q).contains(p) by {
        let i = choose|i: int| 0 <= i < a.len() && a[i] == p;
        assert(a.push(q)[i] == p);
    }
    assert(a.push(q)[a.len() as int] == q);
}

/// Drawing more keeps what there was.
proof fn grown(a: Seq<(int, int)>, p: (int, int))
    ensures
        has(if fits(p) { a.push(p) } else { a }, p),
        forall|q: (int, int)| #[trigger] has(a, q) ==> has(if fits(p) { a.push(p) } else { a }, q),
{
    keeps(a, p);
}

/// A row of the octant is drawn.
pub open spec fn row(after: Seq<(int, int)>, cx: int, cy: int, j: int, r: int) -> bool {
    exists|x: int| #![trigger octants(after, cx, cy, x, j)] x >= j && ring(x, j, r) && octants(after, cx, cy, x, j)
}
""")
    u.fn(drawing, "point", within="pub fn draw_circle<R>", start="proof { grown(rasops.pixels(), (x as int, y as int)); }", contract="""
    ensures
        r is Ok ==> final(rasops).pixels() == (if fits((x as int, y as int)) { old(rasops).pixels().push((x as int, y as int)) } else { old(rasops).pixels() }),
        r is Ok ==> has(final(rasops).pixels(), (x as int, y as int)),
        r is Ok ==> forall|q: (int, int)| #![trigger has(final(rasops).pixels(), q)] has(old(rasops).pixels(), q) ==> has(final(rasops).pixels(), q),
        r is Ok ==> forall|b: Seq<(int, int)>, cx: int, cy: int, d: int| #![trigger sound(b, final(rasops).pixels(), cx, cy, d)]
            sound(b, old(rasops).pixels(), cx, cy, d) && ring(x - cx, y - cy, d) ==> sound(b, final(rasops).pixels(), cx, cy, d),
        final(rasops).lines() == old(rasops).lines(),
""")
    u.add("""
/// Error term of the algorithm.
proof fn steps(x: int, y: int, r: int, e: int)
    requires 0 <= y <= x < r, e == sq(x) + sq(y) - sq(r), -(2 * r - 1) <= e <= 0
    ensures
        ring(x, y, r), ring(-x, y, r), ring(x, -y, r), ring(-x, -y, r),
        ring(y, x, r), ring(-y, x, r), ring(y, -x, r), ring(-y, -x, r),
        e + (2 * y + 1) == sq(x) + sq(y + 1) - sq(r),
        e + (2 * y + 1) - (2 * x - 1) == sq(x - 1) + sq(y + 1) - sq(r),
        e + (2 * y + 1) > 0 ==> (e + (2 * y + 1) - (2 * x - 1) <= 0 || x - 1 < y + 1),
{
    squares();
}

/// When the loop ends, all rows of the octant have been drawn.
proof fn all_rows(x: int, y: int, r: int, j: int)
    requires 0 <= x < y, y >= 1, sq(x) + sq(y) - sq(r) >= -(2 * r - 1), j >= 0, 2 * sq(j) <= sq(r - 1)
    ensures j < y
{
    squares();
    assert(sq(r - 1) == sq(r) - 2 * r + 1);
    if j >= y {
        larger(y, j);
        larger(x, y - 1);
        assert(sq(y - 1) == sq(y) - 2 * y + 1);
    }
}
""")
    invariant = """
        invariant
            2 <= radius <= 16383, diameter == 2 * radius,
            0 <= x < radius, 0 <= y <= radius, x >= y - 2,
            tx == 1 + 2 * (radius - 1 - x),
            ty == 1 + 2 * y,
            e == sq(x as int) + sq(y as int) - sq(radius as int),
            e >= -(2 * radius - 1),
            x >= y ==> e <= 0,
            e <= 2,
            y == 0 ==> x == radius - 1,
            cx == center.x, cy == center.y,
"""
    u.fn(drawing, "draw_circle", hoist=["point"], subst=small, contract="""
    ensures
        radius == 0 ==> (r is Ok && final(rasops).pixels() == old(rasops).pixels()),
        radius == 1 && r is Ok ==> final(rasops).pixels() == old(rasops).pixels().push((center.x as int, center.y as int)),
        radius > 16383 ==> r is Err && final(rasops).pixels() == old(rasops).pixels(),
        2 <= radius <= 16383 && r is Ok ==> sound(old(rasops).pixels(), final(rasops).pixels(), center.x as int, center.y as int, radius as int),
        2 <= radius <= 16383 && r is Ok ==> forall|j: int| 0 <= j && 2 * #[trigger] sq(j) <= sq(radius - 1) ==> row(final(rasops).pixels(), center.x as int, center.y as int, j, radius as int),
        final(rasops).lines() == old(rasops).lines(),
""", start="proof { squares(); }", attrs="#[verifier::loop_isolation(false)]",
        loops=[invariant + """
            rasops.lines() == old(rasops).lines(),
            sound(old(rasops).pixels(), rasops.pixels(), center.x as int, center.y as int, radius as int),
            forall|j: int| 0 <= j < y ==> #[trigger] row(rasops.pixels(), center.x as int, center.y as int, j, radius as int),
        decreases x - y + 4
"""], loop_start={0: """
        let ghost before = rasops.pixels();
        let ghost (x0, y0) = (x as int, y as int);
        proof { squares(); steps(x as int, y as int, radius as int, e as int); }
"""}, loop_end={0: """
        proof {
            let (cx, cy) = (center.x as int, center.y as int);
            assert(octants(rasops.pixels(), cx, cy, x0, y0));
            assert forall|q: (int, int)| #[trigger] has(before, q) implies has(rasops.pixels(), q) by {}
            assert forall|j: int| 0 <= j < y implies #[trigger] row(rasops.pixels(), cx, cy, j, radius as int) by {
                if j < y0 {
                    assert(row(before, cx, cy, j, radius as int));
                    let w = choose|w: int| #![trigger octants(before, cx, cy, w, j)] w >= j && ring(w, j, radius as int) && octants(before, cx, cy, w, j);
                    assert(octants(rasops.pixels(), cx, cy, w, j));
                }
            }
        }
"""}, loop_after={0: """
        proof {
            assert forall|j: int| 0 <= j && 2 * #[trigger] sq(j) <= sq(radius - 1) implies row(rasops.pixels(), center.x as int, center.y as int, j, radius as int) by {
                all_rows(x as int, y as int, radius as int, j);
            }
        }
"""})
    u.add("}\nfn main() {}")



CLAMP = """
pub open spec fn clamp(v: int) -> int { if v < -32768 { -32768 } else if v > 32767 { 32767 } else { v } }

pub trait ClampedInto<T>: Sized {
    spec fn clamped(self) -> T;
    fn clamped_into(self) -> (r: T) ensures r == self.clamped();
}
"""


def clamped_into(u):
    u.add(CLAMP)
    u.add("pub assume_specification [<i16 as TryFrom<i32>>::try_from] (d: i32) -> (r: Result<i16, <i16 as TryFrom<i32>>::Error>)\n"
          "    ensures (-32768 <= d <= 32767) == (r is Ok), r is Ok ==> r->Ok_0 == d;") if False else None
    u.fn(File(GRAPHICS), "clamped_into", within="impl ClampedInto<i16> for i32",
         wrap=("impl ClampedInto<i16> for i32 {\nopen spec fn clamped(self) -> i16 { clamp(self as int) as i16 }", "}"))


def discs(u):
    drawing = File(DRAWING)
    u.add("verus! {")
    u.add(OPEN)
    u.add("#[derive(Clone, Copy)]\n" + File("std/src/console/mod.rs").item("struct", "PixelsXY"))
    u.add(SURFACE)
    clamped_into(u)
    u.add("""
#[verifier::external_body]
fn too_big() -> io::Error { unimplemented!() }

pub open spec fn sq(x: int) -> int { x * x }

pub open spec fn ring(dx: int, dy: int, r: int) -> bool {
    sq(r - 1) <= sq(dx) + sq(dy) <= sq(r)
}

pub type Lines = Seq<((int, int), (int, int))>;

/// Vertical chord at distance d of the center, h up and down.
pub open spec fn chord(cx: int, cy: int, d: int, h: int) -> ((int, int), (int, int)) {
    ((cx + d, clamp(cy - h)), (cx + d, clamp(cy + h)))
}

pub open spec fn fits(x: int) -> bool { -32768 <= x <= 32767 }

pub open spec fn has(after: Lines, cx: int, cy: int, d: int, h: int) -> bool {
    fits(cx + d) ==> after.contains(chord(cx, cy, d, h))
}

/// The column is covered on both sides, up to the ring.
pub open spec fn column(after: Lines, cx: int, cy: int, d: int, r: int) -> bool {
    exists|h: int| #![trigger ring(d, h, r)] h >= 0 && ring(d, h, r) && has(after, cx, cy, d, h) && has(after, cx, cy, -d, h)
}

/// Only chords of the circle.
pub open spec fn is_chord(l: ((int, int), (int, int)), cx: int, cy: int, r: int) -> bool {
    exists|h: int| #![trigger ring(l.0.0 - cx, h, r)] h >= 0 && ring(l.0.0 - cx, h, r) && l == chord(cx, cy, l.0.0 - cx, h)
}

pub open spec fn sound(before: Lines, after: Lines, cx: int, cy: int, r: int) -> bool {
    &&& before.len() <= after.len()
    &&& forall|i: int| 0 <= i < before.len() ==> after[i] == before[i]
    &&& forall|i: int| #![trigger after[i]] before.len() <= i < after.len() ==> is_chord(after[i], cx, cy, r)
}

proof fn squares()
    ensures
        forall|a: int| #[trigger] sq(-a) == sq(a),
        forall|a: int| #[trigger] sq(a + 1) == sq(a) + 2 * a + 1,
        forall|a: int| #[trigger] sq(a - 1) == sq(a) - 2 * a + 1,
        sq(0) == 0,
        sq(1) == 1,
{
    assert forall|a: int| #[trigger] sq(-a) == sq(a) by { assert((-a) * (-a) == a * a) by (nonlinear_arith); }
    assert forall|a: int| #[trigger] sq(a + 1) == sq(a) + 2 * a + 1 by { assert((a + 1) * (a + 1) == a * a + 2 * a + 1) by (nonlinear_arith); }
    assert forall|a: int| #[trigger] sq(a - 1) == sq(a) - 2 * a + 1 by { assert((a - 1) * (a - 1) == a * a - 2 * a + 1) by (nonlinear_arith); }
}

proof fn steps(x: int, y: int, r: int, e: int)
    requires 0 <= y <= x < r, e == sq(x) + sq(y) - sq(r), -(2 * r - 1) <= e <= 0
    ensures
        ring(x, y, r), ring(-x, y, r), ring(y, x, r), ring(-y, x, r),
        e + (2 * y + 1) == sq(x) + sq(y + 1) - sq(r),
        e + (2 * y + 1) - (2 * x - 1) == sq(x - 1) + sq(y + 1) - sq(r),
        e + (2 * y + 1) > 0 ==> (e + (2 * y + 1) - (2 * x - 1) <= 0 || x - 1 < y + 1),
{
    squares();
}

proof fn grown(a: Lines, l: ((int, int), (int, int)))
    ensures forall|q: ((int, int), (int, int))| #[trigger] a.contains(q) ==> a.push(l).contains(q), a.push(l).contains(l)
{
    assert forall|q: ((int, int), (int, int))| #[trigger] a.contains(q) implies a.push(l).contains(q) by {
        let i = choose|i: int| 0 <= i < a.len() && a[i] == q;
        assert(a.push(l)[i] == q);
    }
    assert(a.push(l)[a.len() as int] == l);
}

proof fn sound_push(a: Lines, x: int, y1: int, y2: int)
    ensures forall|b: Lines, cx: int, cy: int, d: int, h: int|
        #![trigger sound(b, a.push(((x, clamp(y1)), (x, clamp(y2)))), cx, cy, d), ring(x - cx, h, d)]
        sound(b, a, cx, cy, d) && h >= 0 && ring(x - cx, h, d) && y1 == cy - h && y2 == cy + h
            ==> sound(b, a.push(((x, clamp(y1)), (x, clamp(y2)))), cx, cy, d)
{
    let l = ((x, clamp(y1)), (x, clamp(y2)));
    assert forall|b: Lines, cx: int, cy: int, d: int, h: int|
        #![trigger sound(b, a.push(l), cx, cy, d), ring(x - cx, h, d)]
        sound(b, a, cx, cy, d) && h >= 0 && ring(x - cx, h, d) && y1 == cy - h && y2 == cy + h
            implies sound(b, a.push(l), cx, cy, d) by {
        assert(cx + (x - cx) == x);
        assert(l == chord(cx, cy, l.0.0 - cx, h));
        assert(ring(l.0.0 - cx, h, d));
        assert(is_chord(l, cx, cy, d));
    }
}

/// What the chords cover: the whole disc of radius r - 1.
proof fn disc(after: Lines, cx: int, cy: int, r: int, px: int, py: int)
    requires
        r >= 1, fits(px), fits(py),
        forall|d: int| 0 <= d < r ==> #[trigger] column(after, cx, cy, d, r),
        sq(px - cx) + sq(py - cy) <= sq(r - 1),
    ensures
        exists|i: int| 0 <= i < after.len() && after[i].0.0 == px && after[i].1.0 == px && after[i].0.1 <= py <= after[i].1.1,
{
    squares();
    let dx = px - cx;
    let dy = py - cy;
    let d = if dx < 0 { -dx } else { dx };
    let v = if dy < 0 { -dy } else { dy };
    assert(sq(d) == sq(dx) && sq(v) == sq(dy));
    assert(sq(v) >= 0) by { assert(v * v >= 0) by (nonlinear_arith); }
    if d >= r {
        assert(sq(d) >= sq(r)) by { assert(d * d >= r * r) by (nonlinear_arith) requires d >= r, r >= 1; }
        assert(sq(r) > sq(r - 1));
    }
    assert(column(after, cx, cy, d, r));
    let h = choose|h: int| #![trigger ring(d, h, r)] h >= 0 && ring(d, h, r) && has(after, cx, cy, d, h) && has(after, cx, cy, -d, h);
    assert(v <= h) by {
        if v > h {
            assert(sq(v) > sq(h)) by { assert(v * v > h * h) by (nonlinear_arith) requires v > h, h >= 0; }
        }
    }
    assert(has(after, cx, cy, dx, h));
    let l = chord(cx, cy, dx, h);
    let i = choose|i: int| 0 <= i < after.len() && after[i] == l;
    assert(after[i] == l);
}
""")
    small = [(r"Err\(io::Error::new\(io::ErrorKind::InvalidInput, \"Radius is too big\"\)\)", "Err(too_big())",
              "the construction of the error is replaced by a function with no contract")]
    u.fn(drawing, "line", within="pub fn draw_circle_filled<R>", start="""
    proof { grown(rasops.lines(), ((x as int, clamp(y1 as int)), (x as int, clamp(y2 as int)))); sound_push(rasops.lines(), x as int, y1 as int, y2 as int); }
""", contract="""
    ensures
        r is Ok && fits(x as int) ==> final(rasops).lines() == old(rasops).lines().push(((x as int, clamp(y1 as int)), (x as int, clamp(y2 as int)))),
        r is Ok && fits(x as int) ==> final(rasops).lines().contains(((x as int, clamp(y1 as int)), (x as int, clamp(y2 as int)))),
        r is Ok && !fits(x as int) ==> final(rasops).lines() == old(rasops).lines(),
        r is Ok ==> forall|q: ((int, int), (int, int))| #![trigger final(rasops).lines().contains(q)] old(rasops).lines().contains(q) ==> final(rasops).lines().contains(q),
        r is Ok ==> forall|b: Lines, cx: int, cy: int, d: int, h: int| #![trigger sound(b, final(rasops).lines(), cx, cy, d), ring(x - cx, h, d)]
            sound(b, old(rasops).lines(), cx, cy, d) && h >= 0 && ring(x - cx, h, d) && y1 == cy - h && y2 == cy + h ==> sound(b, final(rasops).lines(), cx, cy, d),
        final(rasops).pixels() == old(rasops).pixels(),
""")
    u.fn(drawing, "draw_circle_filled", hoist=["line"], subst=small, attrs="#[verifier::loop_isolation(false)]", contract="""
    ensures
        radius == 0 ==> (r is Ok && final(rasops).pixels() == old(rasops).pixels() && final(rasops).lines() == old(rasops).lines()),
        radius == 1 && r is Ok ==> final(rasops).pixels() == old(rasops).pixels().push((center.x as int, center.y as int)),
        radius > 16383 ==> r is Err && final(rasops).lines() == old(rasops).lines(),
        radius != 1 ==> final(rasops).pixels() == old(rasops).pixels(),
        2 <= radius <= 16383 && r is Ok ==> sound(old(rasops).lines(), final(rasops).lines(), center.x as int, center.y as int, radius as int),
        2 <= radius <= 16383 && r is Ok ==> forall|d: int| 0 <= d < radius ==> #[trigger] column(final(rasops).lines(), center.x as int, center.y as int, d, radius as int),
""", start="proof { squares(); }", loops=["""
        invariant
            2 <= radius <= 16383, diameter == 2 * radius,
            0 <= x < radius, 0 <= y <= radius, x >= y - 2,
            tx == 1 + 2 * (radius - 1 - x),
            ty == 1 + 2 * y,
            e == sq(x as int) + sq(y as int) - sq(radius as int),
            e >= -(2 * radius - 1),
            x >= y ==> e <= 0,
            e <= 2,
            y == 0 ==> x == radius - 1,
            cx == center.x, cy == center.y,
            rasops.pixels() == old(rasops).pixels(),
            sound(old(rasops).lines(), rasops.lines(), center.x as int, center.y as int, radius as int),
            forall|d: int| 0 <= d < y || x < d < radius ==> #[trigger] column(rasops.lines(), center.x as int, center.y as int, d, radius as int),
        decreases x - y + 4
"""], loop_start={0: """
        let ghost before = rasops.lines();
        let ghost (x0, y0) = (x as int, y as int);
        proof {
            squares(); steps(x as int, y as int, radius as int, e as int);
            assert(ring((cx + x) - center.x, y as int, radius as int));
            assert(ring((cx - x) - center.x, y as int, radius as int));
            assert(ring((cx + y) - center.x, x as int, radius as int));
            assert(ring((cx - y) - center.x, x as int, radius as int));
        }
"""}, loop_end={0: """
        proof {
            let (cx, cy) = (center.x as int, center.y as int);
            assert(has(rasops.lines(), cx, cy, x0, y0) && has(rasops.lines(), cx, cy, -x0, y0));
            assert(has(rasops.lines(), cx, cy, y0, x0) && has(rasops.lines(), cx, cy, -y0, x0));
            assert(column(rasops.lines(), cx, cy, x0, radius as int));
            assert(column(rasops.lines(), cx, cy, y0, radius as int));
            assert forall|q: ((int, int), (int, int))| #[trigger] before.contains(q) implies rasops.lines().contains(q) by {}
            assert forall|d: int| 0 <= d < y || x < d < radius implies #[trigger] column(rasops.lines(), cx, cy, d, radius as int) by {
                if d != x0 && d != y0 {
                    assert(column(before, cx, cy, d, radius as int));
                    let h = choose|h: int| #![trigger ring(d, h, radius as int)] h >= 0 && ring(d, h, radius as int) && has(before, cx, cy, d, h) && has(before, cx, cy, -d, h);
                    assert(has(rasops.lines(), cx, cy, d, h) && has(rasops.lines(), cx, cy, -d, h));
                }
            }
        }
"""})
    u.add("}\nfn main() {}")



def shapes(u):
    drawing, graphics = File(DRAWING), File(GRAPHICS)
    console = File("std/src/console/mod.rs")
    u.add("verus! {")
    u.add(OPEN)
    u.add("#[derive(Clone, Copy)]\n" + console.item("struct", "PixelsXY"))
    u.add("#[derive(Clone, Copy)]\n" + console.item("struct", "SizeInPixels"))
    u.add(SURFACE)
    clamped_into(u)
    u.add("""
pub open spec fn at(p: PixelsXY) -> (int, int) { (p.x as int, p.y as int) }

#[verifier::external_body]
fn least(a: i32, b: i32) -> (r: i32) ensures r == min(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
fn greatest(a: i32, b: i32) -> (r: i32) ensures r == max(a as int, b as int) { unimplemented!() }

/// Division rounds towards zero.
proof fn quotient(n: int, d: int)
    requires d != 0
    ensures
        ({
            let q = if (n >= 0) == (d > 0) { abs(n) / abs(d) } else { -(abs(n) / abs(d)) };
            abs(n - q * d) < abs(d)
        }),
{
    let q = abs(n) / abs(d);
    assert(abs(n) == abs(d) * q + abs(n) % abs(d) && 0 <= abs(n) % abs(d) < abs(d)) by (nonlinear_arith)
        requires q == abs(n) / abs(d), abs(d) > 0;
    assert(abs(d) * q == if d > 0 { q * d } else { -(q * d) }) by (nonlinear_arith) requires abs(d) == (if d > 0 { d } else { -d });
    assert((-q) * d == -(q * d)) by (nonlinear_arith);
}
""")
    extremes = [(r"\b(y\d)\.(min|max)\((y\d)\)", lambda m: "%s(%s, %s)" % ("least" if m.group(2) == "min" else "greatest", m.group(1), m.group(3)),
                 "Ord::min and Ord::max are replaced by functions with the contract assumed")]
    u.fn(drawing, "edge_intersection", subst=extremes, contract="""
    ensures
        r is Some <==> (min(p1.y as int, p2.y as int) <= y < max(p1.y as int, p2.y as int)),
        r is Some ==> abs((y - p1.y) * (p2.x - p1.x) - (r->Some_0 - p1.x) * (p2.y - p1.y)) < abs(p2.y - p1.y),
        r is Some ==> min(p1.x as int, p2.x as int) <= r->Some_0 <= max(p1.x as int, p2.x as int),
""", start="""
    proof {
        if p1.y != p2.y && min(p1.y as int, p2.y as int) <= y < max(p1.y as int, p2.y as int) {
            intersection(y - p1.y, p2.x - p1.x, p2.y - p1.y);
            let n = (y - p1.y) * (p2.x - p1.x);
            let d = p2.y - p1.y;
            if d < 0 { negative(n, d); negative(-n, d); }
        }
    }
""")
    u.fn(graphics, "tri_points", contract="""
    ensures
        // Twice the area of the triangle.
        r == ((x1y1.x - x3y3.x) * (x2y2.y - x3y3.y) - (x1y1.y - x3y3.y) * (x2y2.x - x3y3.x) != 0),
""", start="""
    proof { area(x1y1.x as int, x1y1.y as int, x2y2.x as int, x2y2.y as int, x3y3.x as int, x3y3.y as int); }
""")
    u.add("""
proof fn area(x1: int, y1: int, x2: int, y2: int, x3: int, y3: int)
    requires
        -32768 <= x1 <= 32767, -32768 <= x2 <= 32767, -32768 <= x3 <= 32767,
        -32768 <= y1 <= 32767, -32768 <= y2 <= 32767, -32768 <= y3 <= 32767,
    ensures
        (x2 - x1) * (y3 - y1) - (y2 - y1) * (x3 - x1) == (x1 - x3) * (y2 - y3) - (y1 - y3) * (x2 - x3),
        -4294967296 <= (x2 - x1) * (y3 - y1) <= 4294967296,
        -4294967296 <= (y2 - y1) * (x3 - x1) <= 4294967296,
{
    assert((x2 - x1) * (y3 - y1) - (y2 - y1) * (x3 - x1) == (x1 - x3) * (y2 - y3) - (y1 - y3) * (x2 - x3)) by (nonlinear_arith);
    small(x2 - x1, y3 - y1);
    small(y2 - y1, x3 - x1);
}

proof fn small(a: int, b: int)
    requires -65536 <= a <= 65536, -65536 <= b <= 65536
    ensures -4294967296 <= a * b <= 4294967296
{
    assert(-4294967296 <= a * b <= 4294967296) by (nonlinear_arith) requires -65536 <= a <= 65536, -65536 <= b <= 65536;
}

proof fn negative(n: int, d: int)
    requires d < 0
    ensures n / d == -(n / (-d))
{
    assert(n / d == -(n / (-d))) by (nonlinear_arith) requires d < 0;
}

/// What the division yields.
pub open spec fn trunc(n: int, d: int) -> int {
    if (n >= 0) == (d > 0) { abs(n) / abs(d) } else { -(abs(n) / abs(d)) }
}

proof fn intersection(a: int, b: int, d: int)
    requires d != 0, -65535 <= a <= 65535, -65535 <= b <= 65535, -65535 <= d <= 65535, abs(a) <= abs(d), (a >= 0) == (d > 0) || a == 0
    ensures
        -4294967296 <= a * b <= 4294967296,
        abs(a * b - trunc(a * b, d) * d) < abs(d),
        min(0, b) <= trunc(a * b, d) <= max(0, b),
{
    small(a, b);
    quotient(a * b, d);
    let n = a * b;
    let q = abs(n) / abs(d);
    assert(abs(n) == abs(a) * abs(b)) by (nonlinear_arith) requires n == a * b,
        abs(a) == (if a < 0 { -a } else { a }), abs(b) == (if b < 0 { -b } else { b }), abs(n) == (if n < 0 { -n } else { n });
    assert(abs(a) * abs(b) <= abs(d) * abs(b)) by (nonlinear_arith) requires abs(a) <= abs(d), abs(b) >= 0;
    assert(0 <= q <= abs(b)) by (nonlinear_arith) requires q == abs(n) / abs(d), 0 <= abs(n) <= abs(d) * abs(b), abs(d) > 0;
    if b >= 0 {
        assert(a >= 0 ==> n >= 0) by (nonlinear_arith) requires n == a * b, b >= 0;
        assert(a <= 0 ==> n <= 0) by (nonlinear_arith) requires n == a * b, b >= 0;
    } else {
        assert(a >= 0 ==> n <= 0) by (nonlinear_arith) requires n == a * b, b < 0;
        assert(a <= 0 ==> n >= 0) by (nonlinear_arith) requires n == a * b, b < 0;
    }
    if n == 0 { assert(q == 0) by (nonlinear_arith) requires q == abs(n) / abs(d), abs(n) == 0, abs(d) > 0; }
}
""")
    u.fn(drawing, "draw_rect", contract="""
    requires size.width > 0, size.height > 0
    ensures
        r is Ok ==> ({
            let (x1, y1) = at(x1y1);
            let (x2, y2) = (clamp(x1 + size.width - 1), clamp(y1 + size.height - 1));
            final(rasops).lines() == old(rasops).lines().push(((x1, y1), (x2, y1))).push(((x2, y1), (x2, y2)))
                .push(((x2, y2), (x1, y2))).push(((x1, y2), (x1, y1)))
        }),
        final(rasops).pixels() == old(rasops).pixels(),
""")
    u.fn(drawing, "draw_tri", contract="""
    ensures
        r is Ok ==> final(rasops).lines() == old(rasops).lines().push((at(x1y1), at(x2y2))).push((at(x2y2), at(x3y3))).push((at(x3y3), at(x1y1))),
        final(rasops).pixels() == old(rasops).pixels(),
""")
    u.fn(drawing, "draw_poly", contract="""
    ensures
        points@.len() < 2 ==> r is Ok && final(rasops).lines() == old(rasops).lines(),
        // One line per side, and one that closes the polygon.
        points@.len() >= 2 && r is Ok ==> final(rasops).lines() == old(rasops).lines() + Seq::new(points@.len(),
            |i: int| (at(points@[i]), at(points@[(i + 1) % points@.len() as int]))),
        final(rasops).pixels() == old(rasops).pixels(),
""", loops=["""
        invariant
            points@.len() >= 2,
            rasops.pixels() == old(rasops).pixels(),
            rasops.lines() == old(rasops).lines() + Seq::new((i - 1) as nat, |k: int| (at(points@[k]), at(points@[k + 1]))),
"""], subst=[(r"\?Sized", "Sized", "the bound ?Sized becomes Sized")],
    loop_start={0: "let ghost before = rasops.lines();"},
    loop_end={0: """
        proof {
            assert(rasops.lines() =~= old(rasops).lines() + Seq::new(i as nat, |k: int| (at(points@[k]), at(points@[k + 1]))));
        }
"""}, loop_after={0: """
        let ghost n = points@.len() as int;
        proof {
            assert forall|k: int| 0 <= k < n - 1 implies #[trigger] ((k + 1) % n) == k + 1 by {
                assert((k + 1) % n == k + 1) by (nonlinear_arith) requires 0 <= k < n - 1;
            }
            assert(n % n == 0) by (nonlinear_arith) requires n > 0;
            assert(rasops.lines().push((at(points@[n - 1]), at(points@[0]))) =~= old(rasops).lines() + Seq::new(points@.len(),
                |i: int| (at(points@[i]), at(points@[(i + 1) % points@.len() as int]))));
        }
"""})
    u.add("}\nfn main() {}")


UNITS = [lines, circles, discs, shapes]
