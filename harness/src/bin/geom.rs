//! The geometric primitives against exact or independent computations.

use layout::core::geometry::*;
use vh::ck;
use vh::ctx::*;
use vh::rng::{hash_str, Rng};
use vh::runner::Prop;

type P = (f64, f64);

fn pt(p: P) -> Point {
    Point::new(p.0, p.1)
}
fn tup(p: Point) -> P {
    (p.x, p.y)
}
fn sub(a: P, b: P) -> P {
    (a.0 - b.0, a.1 - b.1)
}
fn len(a: P) -> f64 {
    a.0.hypot(a.1)
}
fn fin(p: Point) -> bool {
    p.x.is_finite() && p.y.is_finite()
}

/// A coordinate: integers, halves, noise, huge and tiny ones.
fn coord(rng: &mut Rng, scale: f64) -> f64 {
    match rng.below(12) {
        0 => 0.,
        1 => -0.,
        2..=6 => rng.irange(-40, 40) as f64 * (scale / 40.).max(1.).floor(),
        7 => rng.irange(-80, 80) as f64 / 2.,
        _ => rng.frange(-scale, scale),
    }
}
fn scale(rng: &mut Rng) -> f64 {
    *rng.pick(&[1., 40., 40., 300., 300., 2e4, 1e6, 1e9])
}
fn point(rng: &mut Rng, s: f64) -> P {
    (coord(rng, s), coord(rng, s))
}
/// The difference between two coordinates that were meant to be equal.
fn noise(rng: &mut Rng, at: f64) -> f64 {
    let u = at.abs().max(1.) * f64::EPSILON;
    u * rng.irange(-3, 3) as f64
}

fn near(a: f64, b: f64, s: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1. + s)
}
fn pnear(a: P, b: P, s: f64) -> bool {
    near(a.0, b.0, s) && near(a.1, b.1, s)
}

// --------------------------------------------------------------- vectors

fn vectors(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let s = scale(rng);
    let (a, b) = (point(rng, s), point(rng, s));
    let k = coord(rng, 10.);
    let m = s * 2.;
    let note = format!("a={:?} b={:?} k={}", a, b, k);
    ctx.set_input(note.clone());
    let chk = |name: &str, got: Point, want: P, m: f64| -> R {
        ck!(
            fin(got) && pnear(tup(got), want, m),
            name,
            "{} is {:?} instead of {:?}: {}",
            name,
            got,
            want,
            note
        );
        Ok(())
    };
    chk("add", pt(a).add(pt(b)), (a.0 + b.0, a.1 + b.1), m)?;
    chk("sub", pt(a).sub(pt(b)), (a.0 - b.0, a.1 - b.1), m)?;
    chk("neg", pt(a).neg(), (-a.0, -a.1), m)?;
    chk("scale", pt(a).scale(k), (a.0 * k, a.1 * k), m * 10.)?;
    chk("transpose", pt(a).transpose(), (a.1, a.0), m)?;
    chk("splat", Point::splat(k), (k, k), 10.)?;
    let d = len(sub(a, b));
    let got = pt(a).distance_to(pt(b));
    ck!(got.is_finite() && near(got, d, m), "distance", "{} not {}: {}", got, d, note);
    let got = pt(a).length();
    ck!(got.is_finite() && near(got, len(a), m), "length", "{} of {:?}", got, a);
    // Rotations keep lengths and angles; a quarter turn is known exactly.
    chk("rotate", pt(a).rotate(90f64.to_radians()), (-a.1, a.0), m)?;
    let t = rng.frange(-7., 7.);
    let (x, y) = (tup(pt(a).rotate(t)), tup(pt(b).rotate(t)));
    ck!(near(len(x), len(a), m), "rotate", "length changed: {:?} by {}", a, t);
    let back = tup(pt(x).rotate(-t));
    ck!(pnear(back, a, m), "rotate", "{:?} by {} and back is {:?}", a, t, back);
    let dot = |p: P, q: P| p.0 * q.0 + p.1 * q.1;
    let crs = |p: P, q: P| p.0 * q.1 - p.1 * q.0;
    let mm = m * m;
    ck!(
        near(dot(x, y), dot(a, b), mm) && near(crs(x, y), crs(a, b), mm),
        "rotate",
        "angles changed: {:?} {:?} by {}",
        a,
        b,
        t
    );
    // The turn is by the angle asked for.
    let r = len(a);
    if r > 1e-6 {
        ck!(
            near(dot(a, x), r * r * t.cos(), mm) && near(crs(a, x), r * r * t.sin(), mm),
            "rotate",
            "{:?} by {} is {:?}",
            a,
            t,
            x
        );
    }
    let z = tup(pt(a).rotate_around(pt(b), t));
    let rel = tup(pt(sub(a, b)).rotate(t));
    ck!(
        pnear(sub(z, b), rel, 2. * m),
        "rotate-around",
        "{:?} around {:?} by {} is {:?}",
        a,
        b,
        t,
        z
    );
    // Interpolation.
    let w = match rng.below(4) {
        0 => 0.,
        1 => 1.,
        _ => rng.unit(),
    };
    let want = (a.0 * w + b.0 * (1. - w), a.1 * w + b.1 * (1. - w));
    chk("interpolate", interpolate(pt(a), pt(b), w), want, m)?;
    // A vector of a given length.
    let f = *rng.pick(&[1., 10., 30., 30., 1000., 0.5]);
    let b2 = match rng.below(8) {
        0 => a,
        1 => (a.0 + noise(rng, a.0), a.1 + noise(rng, a.1)),
        2 => (a.0, b.1),
        3 => (b.0, a.1),
        _ => b,
    };
    let (p, q) = create_vector_of_length(pt(a), pt(b2), f);
    ck!(tup(p) == a, "vector-start", "{:?} instead of {:?}", p, a);
    ck!(fin(q), "vector-end", "{:?} from {:?} to {:?}", q, a, b2);
    let v = sub(tup(q), a);
    ck!(near(len(v), f, m), "vector-length", "{} instead of {}: {:?} {:?}", len(v), f, a, b2);
    let want = sub(b2, a);
    if len(want) > 1e-6 {
        // Compare the directions.
        let c = crs(v, want) / len(want);
        ck!(
            c.abs() <= 1e-6 * (1. + f) + 1e-9 * m && dot(v, want) > 0.,
            "vector-direction",
            "{:?} for the direction {:?}",
            v,
            want
        );
        let n = tup(normalize_scale_vector(pt(want), f));
        ck!(
            near(len(n), f, m) && dot(n, want) > 0. && near(crs(n, want) / len(want), 0., f),
            "normalize",
            "{:?} to length {} is {:?}",
            want,
            f,
            n
        );
    }
    ctx.count("vector_relations", 1);
    Ok(())
}

// ----------------------------------------------------- connection points

fn place(rng: &mut Rng, c: P, size: P, s: f64) -> P {
    let (a, b) = (size.0 / 2., size.1 / 2.);
    match rng.below(14) {
        // Straight above, below, beside.
        0 => (c.0, c.1 - b - rng.frange(0., s)),
        1 => (c.0, c.1 + b + rng.frange(0., s)),
        2 => (c.0 - a - rng.frange(0., s), c.1),
        3 => (c.0 + a + rng.frange(0., s), c.1),
        // Nearly so.
        4 => (c.0 + noise(rng, c.0), c.1 - b - rng.frange(0., s)),
        5 => (c.0 + a + rng.frange(0., s), c.1 + noise(rng, c.1)),
        // Above the quarters, in line with the edges, along the diagonals.
        6 => (c.0 + a * [-0.5, 0.5, -1., 1.][rng.below(4)], c.1 + 2. * b + 1.),
        7 => (c.0 + a + 1., c.1 + b * [-1., 1.][rng.below(2)]),
        8 => {
            let k = rng.frange(-3., 3.);
            (c.0 + k * a, c.1 + k * b)
        }
        // On the outline, inside, at the center.
        9 => (c.0 + a, c.1 + rng.frange(-1., 1.) * b),
        10 => (c.0 + rng.frange(-1., 1.) * a, c.1 + rng.frange(-1., 1.) * b),
        11 if rng.pct(30) => c,
        _ => {
            let p = point(rng, s);
            (c.0 + p.0, c.1 + p.1)
        }
    }
}

fn size_of(rng: &mut Rng) -> P {
    let one = |rng: &mut Rng| match rng.below(8) {
        0 => 1.,
        1 => rng.frange(0.5, 10.),
        2 => rng.frange(100., 1e6),
        3 => 0.,
        _ => rng.range(10, 400) as f64,
    };
    let p = (one(rng), one(rng));
    if rng.pct(25) {
        (p.0, p.0)
    } else {
        p
    }
}

fn force_ok(got: (Point, Point), from: P, f: f64, m: f64, note: &str) -> R {
    let p = tup(got.0);
    let v = sub(tup(got.1), p);
    ck!(near(len(v), f, m), "control-length", "{} instead of {}: {}", len(v), f, note);
    let d = sub(from, p);
    if len(d) > 1e-5 * (1. + m) {
        let c = (v.0 * d.1 - v.1 * d.0) / len(d);
        ck!(
            c.abs() <= 1e-6 * (1. + f) + 1e-7 * (1. + m) && v.0 * d.0 + v.1 * d.1 > 0.,
            "control-direction",
            "the control point is {:?} off {:?}: {}",
            v,
            p,
            note
        );
    }
    Ok(())
}

fn circle(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let s = scale(rng);
    let (c, size) = (point(rng, s), size_of(rng));
    let from = place(rng, c, size, s);
    let f = *rng.pick(&[30., 30., 1., 100.]);
    let note = format!("ellipse at {:?} of size {:?}, other point {:?}", c, size, from);
    ctx.set_input(note.clone());
    let got = get_connection_point_for_circle(pt(c), pt(size), pt(from), f);
    ck!(fin(got.0) && fin(got.1), "non-finite", "{:?}: {}", got, note);
    let m = s + len(size) + len(c) + len(from);
    let v = sub(tup(got.0), c);
    let (a, b) = (size.0 / 2., size.1 / 2.);
    let slack = 1e-9 * (1. + m);
    let d = sub(from, c);
    // The ray from the center to the other point meets the outline at k * d.
    let flat = a == 0. || b == 0.;
    if flat {
        ck!(
            v.0.abs() <= a + slack && v.1.abs() <= b + slack,
            "off-outline",
            "{:?}: {}",
            got.0,
            note
        );
        ctx.count("flat_shapes", 1);
    } else if len(d) > 1e-3 {
        let k = 1. / (d.0 / a).hypot(d.1 / b);
        let want = (d.0 * k, d.1 * k);
        ck!(
            len(sub(v, want)) <= 1e-6 * (1. + len(size)) + slack * 1e3,
            "connection-point",
            "{:?} from the center instead of {:?}: {}",
            v,
            want,
            note
        );
    } else {
        let r = (v.0 / a).hypot(v.1 / b);
        ck!((r - 1.).abs() <= 1e-6 + slack / a.min(b), "off-outline", "{:?}: {}", got.0, note);
    }
    if !flat {
        let r = (v.0 / a).hypot(v.1 / b);
        ck!(
            (r - 1.).abs() <= 1e-6 + slack / a.min(b),
            "off-outline",
            "{:?} ({} of the radius): {}",
            got.0,
            r,
            note
        );
    }
    force_ok(got, from, f, m, &note)?;
    ctx.count("ellipse_points", 1);
    Ok(())
}

fn rect(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let s = scale(rng);
    let (c, size) = (point(rng, s), size_of(rng));
    let from = place(rng, c, size, s);
    let f = *rng.pick(&[30., 30., 1., 100.]);
    let note = format!("box at {:?} of size {:?}, other point {:?}", c, size, from);
    ctx.set_input(note.clone());
    let got = get_connection_point_for_box(pt(c), pt(size), pt(from), f);
    ck!(fin(got.0) && fin(got.1), "non-finite", "{:?}: {}", got, note);
    let m = s + len(size) + len(c) + len(from);
    let tol = 1e-9 * (1. + m) * 10.;
    let p = tup(got.0);
    let v = sub(p, c);
    let (a, b) = (size.0 / 2., size.1 / 2.);
    let (ox, oy) = (v.0.abs() - a, v.1.abs() - b);
    ck!(
        ox.max(oy).abs() <= tol,
        "off-outline",
        "{:?} is {} off the outline: {}",
        p,
        ox.max(oy),
        note
    );
    // From outside, the box does not cover its own connection point.
    let d = sub(from, c);
    let outside = d.0.abs() > a + tol || d.1.abs() > b + tol;
    if outside {
        for k in 1..16 {
            let t = k as f64 / 16.;
            let q = (
                p.0 + t * (from.0 - p.0) - c.0,
                p.1 + t * (from.1 - p.1) - c.1,
            );
            ck!(
                q.0.abs() >= a - tol || q.1.abs() >= b - tol,
                "behind-the-box",
                "the way from {:?} to {:?} runs through the box: {}",
                from,
                p,
                note
            );
        }
    }
    // The point is in line with the center, or with that of the nearer half.
    let q = if d.0 > a { a / 2. } else if d.0 < -a { -a / 2. } else { 0. };
    let e = (d.0 - q, d.1);
    let w = (v.0 - q, v.1);
    if len(e) > 1e-3 {
        let cr = (e.0 * w.1 - e.1 * w.0) / len(e);
        let edge = (d.0.abs() - a).abs() <= tol;
        ck!(
            edge || (cr.abs() <= tol * 100. && e.0 * w.0 + e.1 * w.1 >= -tol * len(e)),
            "not-in-line",
            "{:?} is {} off the line to the other point: {}",
            p,
            cr,
            note
        );
    }
    force_ok(got, from, f, m, &note)?;
    ctx.count("box_points", 1);
    Ok(())
}

fn passing(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let s = scale(rng);
    let c = point(rng, s);
    let (mut from, mut to) = (point(rng, s), point(rng, s));
    match rng.below(10) {
        0 => from.0 = c.0,
        1 => from.1 = c.1,
        2 => to.0 = c.0,
        3 => to.1 = c.1,
        4 => to = from,
        5 => from = c,
        6 => to = c,
        7 => {
            from = (c.0, c.1 - 50.);
            to = (c.0 + noise(rng, c.0), c.1 + 50.)
        }
        8 => to = (2. * c.0 - from.0, 2. * c.1 - from.1),
        _ => {}
    }
    let f = 30.;
    let note = format!("through {:?} from {:?} to {:?}", c, from, to);
    ctx.set_input(note.clone());
    let got = get_passthrough_path_invisible(Point::splat(1.), pt(c), pt(from), pt(to), f);
    ck!(fin(got.0) && fin(got.1), "non-finite", "{:?}: {}", got, note);
    ck!(tup(got.0) == c, "passage", "passes {:?}: {}", got.0, note);
    let m = s * 4.;
    let v = sub(tup(got.1), c);
    ck!(len(v) <= f + 1e-9 * (1. + m), "control-length", "{} over {}: {}", len(v), f, note);
    // The way in comes from the side of `from` or of the way out, never ahead.
    let (ar, rb) = (sub(c, from), sub(to, c));
    let dot = |p: P, q: P| p.0 * q.0 + p.1 * q.1;
    if len(ar) > 1e-3 && len(rb) > 1e-3 {
        let (u, w) = (dot(v, ar) / len(ar), dot(v, rb) / len(rb));
        let t = 1e-6 + 1e-9 * m;
        // u and w are both non-positive unless the path turns sharply back.
        if dot(ar, rb) >= 0. {
            ck!(u <= t && w <= t, "overshoot", "control {:?}: {}", v, note);
        }
    }
    ctx.count("passages", 1);
    Ok(())
}

// ------------------------------------------------------ boxes and segments

fn ipoint(rng: &mut Rng, k: i64) -> (i128, i128) {
    (rng.irange(-k, k) as i128, rng.irange(-k, k) as i128)
}

fn f(p: (i128, i128)) -> Point {
    Point::new(p.0 as f64, p.1 as f64)
}

fn boxes(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let k = *rng.pick(&[3, 6, 20, 500, 100_000]);
    let mk = |rng: &mut Rng| {
        let (a, b) = (ipoint(rng, k), ipoint(rng, k));
        ((a.0.min(b.0), a.1.min(b.1)), (a.0.max(b.0), a.1.max(b.1)))
    };
    let (r, q) = (mk(rng), mk(rng));
    ctx.set_input(format!("boxes {:?} {:?}", r, q));
    let got = do_boxes_intersect((f(r.0), f(r.1)), (f(q.0), f(q.1)));
    let rev = do_boxes_intersect((f(q.0), f(q.1)), (f(r.0), f(r.1)));
    ck!(got == rev, "asymmetric", "{} and {}: {:?} {:?}", got, rev, r, q);
    let apart = r.1 .0 < q.0 .0 || q.1 .0 < r.0 .0 || r.1 .1 < q.0 .1 || q.1 .1 < r.0 .1;
    let overlap = r.0 .0.max(q.0 .0) < r.1 .0.min(q.1 .0) && r.0 .1.max(q.0 .1) < r.1 .1.min(q.1 .1);
    if apart {
        ck!(!got, "boxes", "the boxes {:?} {:?} are apart", r, q);
    } else if overlap {
        ck!(got, "boxes", "the boxes {:?} {:?} overlap", r, q);
    } else {
        ctx.count("touching_boxes_not_judged", 1);
    }
    ctx.count("box_pairs", 1);
    // Ranges include their ends.
    let (lo, hi) = (rng.irange(-9, 9) as f64 / 2., rng.irange(-9, 9) as f64 / 2.);
    let x = rng.irange(-9, 9) as f64 / 2.;
    ck!(
        in_range((lo, hi), x) == (lo <= x && x <= hi),
        "range",
        "{} in {}..{}",
        x,
        lo,
        hi
    );
    Ok(())
}

fn segments(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let k = *rng.pick(&[3, 6, 20, 500, 20_000]);
    let (a, b) = (ipoint(rng, k), ipoint(rng, k));
    let r = ((a.0.min(b.0), a.1.min(b.1)), (a.0.max(b.0), a.1.max(b.1)));
    let (p, mut q) = (ipoint(rng, 2 * k), ipoint(rng, 2 * k));
    match rng.below(8) {
        0 => q.0 = p.0,
        1 => q.1 = p.1,
        2 if rng.pct(30) => q = p,
        // Nearly vertical.
        3 => q.0 = p.0 + 1,
        _ => {}
    }
    ctx.set_input(format!("segment {:?}-{:?}, box {:?}", p, q, r));
    let got = segment_rect_intersection((f(p), f(q)), (f(r.0), f(r.1)));
    // Exact: the closed segment and the closed box are apart iff their shadows
    // on an axis are, or the box lies on one side of the segment's line.
    let side = |c: (i128, i128)| (q.0 - p.0) * (c.1 - p.1) - (q.1 - p.1) * (c.0 - p.0);
    let cs = [r.0, (r.0 .0, r.1 .1), (r.1 .0, r.0 .1), r.1].map(side);
    let pos = cs.iter().all(|x| *x > 0);
    let neg = cs.iter().all(|x| *x < 0);
    let apart = p.0.max(q.0) < r.0 .0
        || p.0.min(q.0) > r.1 .0
        || p.1.max(q.1) < r.0 .1
        || p.1.min(q.1) > r.1 .1
        || pos
        || neg;
    // They share an inner point of the box.
    let inner = p.0.max(q.0) > r.0 .0
        && p.0.min(q.0) < r.1 .0
        && p.1.max(q.1) > r.0 .1
        && p.1.min(q.1) < r.1 .1
        && r.0 .0 < r.1 .0
        && r.0 .1 < r.1 .1
        && cs.iter().any(|x| *x > 0)
        && cs.iter().any(|x| *x < 0);
    // A segment that is a point inside of the box.
    let dot = p == q && p.0 > r.0 .0 && p.0 < r.1 .0 && p.1 > r.0 .1 && p.1 < r.1 .1;
    if apart {
        ck!(!got, "segment-apart", "said to meet: {}", ctx.input());
        ctx.count("segments_apart", 1);
    } else if inner || dot {
        ck!(got, "segment-meets", "said to be apart: {}", ctx.input());
        ctx.count("segments_meeting", 1);
    } else {
        ctx.count("touching_segments_not_judged", 1);
    }
    let rev = segment_rect_intersection((f(q), f(p)), (f(r.0), f(r.1)));
    if apart || inner || dot {
        ck!(got == rev, "asymmetric", "depends on the direction: {}", ctx.input());
    }
    Ok(())
}

// ------------------------------------------------------------------ sizes

fn sizes(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let s = scale(rng);
    let (a, b) = (coord(rng, s).abs(), coord(rng, s).abs());
    let g = tup(make_size_square(Point::new(a, b)));
    ck!(g == (a.max(b), a.max(b)), "square", "{:?} of {:?}", g, (a, b));
    let k = coord(rng, 100.);
    let g = tup(pad_shape_scalar(Point::new(a, b), k));
    ck!(pnear(g, (a + k, b + k), s), "pad", "{:?} of {:?} by {}", g, (a, b), k);
    // Text.
    let lines = rng.range(1, 4);
    let mut t = Vec::new();
    for i in 0..lines {
        let n = if rng.pct(20) && i + 1 < lines { 0 } else { rng.range(1, 12) };
        let l: String = (0..n)
            .map(|_| *rng.pick(&['a', 'W', ' ', 'é', 'ש', '漢', '😀', 'x', '<', '&']))
            .collect();
        t.push(l);
    }
    let font = rng.range(1, 200);
    let txt = t.join("\n");
    ctx.set_input(format!("{:?} at {}", txt, font));
    let g = tup(get_size_for_str(&txt, font));
    let w = t.iter().map(|l| l.chars().count()).max().unwrap().max(1) * font;
    let want = (w as f64, (lines * font) as f64);
    ck!(pnear(g, want, 1.), "text-size", "{:?} is {:?} instead of {:?}", txt, g, want);
    let g = get_size_for_str("", font);
    ck!(fin(g) && g.x >= 0. && g.y >= 0., "text-size", "empty: {:?}", g);
    // Medians.
    let n = rng.range(1, 9);
    let mut v: Vec<f64> = (0..n).map(|_| coord(rng, s)).collect();
    let g = weighted_median(&v);
    let shown = format!("{:?}", v);
    v.sort_by(f64::total_cmp);
    let want = if n % 2 == 1 { v[n / 2] } else { (v[n / 2 - 1] + v[n / 2]) / 2. };
    ck!(
        g.is_finite() && near(g, want, s),
        "median",
        "{} instead of {} for {}",
        g,
        want,
        shown
    );
    ctx.count("sizes", 1);
    Ok(())
}

// -------------------------------------------------------------- positions

#[derive(Clone, Copy, Debug)]
struct Model {
    mid: P,
    size: P,
    delta: P,
    halo: P,
}

fn check_pos(p: &Position, m: &Model, s: f64, log: &str) -> R {
    let c = (m.mid.0 + m.delta.0, m.mid.1 + m.delta.1);
    let chk = |name: &str, got: P, want: P| -> R {
        ck!(
            pnear(got, want, s),
            name,
            "{} is {:?} instead of {:?} after {}",
            name,
            got,
            want,
            log
        );
        Ok(())
    };
    chk("middle", tup(p.middle()), m.mid)?;
    chk("center", tup(p.center()), c)?;
    for halo in [false, true] {
        let sz = if halo {
            (m.size.0 + m.halo.0, m.size.1 + m.halo.1)
        } else {
            m.size
        };
        chk("size", tup(p.size(halo)), sz)?;
        let lo = (m.mid.0 - sz.0 / 2., m.mid.1 - sz.1 / 2.);
        let hi = (m.mid.0 + sz.0 / 2., m.mid.1 + sz.1 / 2.);
        let bb = p.bbox(halo);
        chk("bbox-low", tup(bb.0), lo)?;
        chk("bbox-high", tup(bb.1), hi)?;
        chk("left-top", (p.left(halo), p.top(halo)), lo)?;
        chk("right-bottom", (p.right(halo), p.bottom(halo)), hi)?;
        chk(
            "distances",
            (p.distance_to_left(halo), p.distance_to_right(halo)),
            (c.0 - lo.0, hi.0 - c.0),
        )?;
        // Well inside and well outside of ranges.
        let e = 1e-6 * (1. + s);
        ck!(
            p.in_x_range((lo.0 - e, hi.0 + e), halo)
                && !p.in_x_range((lo.0 + e, hi.0 + 3. * e), halo)
                && !p.in_x_range((lo.0 - 3. * e, hi.0 - e), halo),
            "in-range",
            "{:?} against its own range after {}",
            p,
            log
        );
    }
    Ok(())
}

fn positions(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let s = scale(rng);
    let pos = |rng: &mut Rng| (rng.frange(0., s), rng.frange(0., s));
    let mut m = Model {
        mid: point(rng, s),
        size: pos(rng),
        delta: (0., 0.),
        halo: pos(rng),
    };
    if rng.pct(30) {
        m.delta = (
            m.size.0 * rng.frange(-0.9, 0.9),
            m.size.1 * rng.frange(-0.9, 0.9),
        );
    }
    let mut p = Position::new(pt(m.mid), pt(m.size), pt(m.delta), pt(m.halo));
    let mut log = format!("{:?}; ", m);
    let big = 40. * (s + 1.);
    check_pos(&p, &m, big, &log)?;
    for _ in 0..rng.range(1, 12) {
        let v = point(rng, s);
        match rng.below(11) {
            0 => {
                p.set_size(pt((v.0.abs(), v.1.abs())));
                m.size = (v.0.abs(), v.1.abs());
                log.push_str(&format!("size {:?}; ", m.size));
            }
            1 => {
                let d = (m.size.0 * rng.frange(-0.9, 0.9), m.size.1 * rng.frange(-0.9, 0.9));
                if d.0.abs() < m.size.0 && d.1.abs() < m.size.1 {
                    p.set_new_center_point(pt(d));
                    m.delta = d;
                    log.push_str(&format!("center {:?}; ", d));
                }
            }
            2 => {
                p.move_to(pt(v));
                m.mid = sub(v, m.delta);
                log.push_str(&format!("move to {:?}; ", v));
            }
            3 => {
                p.align_to_top(v.1);
                m.mid.1 = v.1 + (m.size.1 + m.halo.1) / 2.;
                log.push_str(&format!("top {}; ", v.1));
            }
            4 => {
                p.align_to_left(v.0);
                m.mid.0 = v.0 + (m.size.0 + m.halo.0) / 2.;
                log.push_str(&format!("left {}; ", v.0));
            }
            5 => {
                p.align_to_right(v.0);
                m.mid.0 = v.0 - (m.size.0 + m.halo.0) / 2.;
                log.push_str(&format!("right {}; ", v.0));
            }
            6 => {
                let l = rng.pct(50);
                p.align_x(v.0, l);
                let k = if l { 1. } else { -1. };
                m.mid.0 = v.0 + k * (m.size.0 + m.halo.0) / 2.;
                log.push_str(&format!("align {} {}; ", v.0, l));
            }
            7 => {
                p.translate(pt(v));
                m.mid = (m.mid.0 + v.0, m.mid.1 + v.1);
                log.push_str(&format!("by {:?}; ", v));
            }
            8 => {
                p.set_x(v.0);
                m.mid.0 = v.0 - m.delta.0;
                log.push_str(&format!("x {}; ", v.0));
            }
            9 => {
                p.set_y(v.1);
                m.mid.1 = v.1 - m.delta.1;
                log.push_str(&format!("y {}; ", v.1));
            }
            _ => {
                p.transpose();
                for q in [&mut m.mid, &mut m.size, &mut m.delta, &mut m.halo] {
                    *q = (q.1, q.0);
                }
                log.push_str("transpose; ");
            }
        }
        ctx.set_input(log.clone());
        check_pos(&p, &m, big, &log)?;
        ctx.count("position_operations", 1);
    }
    Ok(())
}

fn geometry(ctx: &mut Ctx) -> R {
    let mut rng = ctx.rng.clone();
    for _ in 0..8 {
        match rng.below(8) {
            0 => vectors(ctx, &mut rng)?,
            1 => circle(ctx, &mut rng)?,
            2 => rect(ctx, &mut rng)?,
            3 => passing(ctx, &mut rng)?,
            4 => boxes(ctx, &mut rng)?,
            5 => segments(ctx, &mut rng)?,
            6 => sizes(ctx, &mut rng)?,
            _ => positions(ctx, &mut rng)?,
        }
        ctx.nontrivial(hash_str(ctx.input()));
    }
    let s = ctx.input().to_string();
    ctx.sample(s);
    Ok(())
}

static PROPS: &[Prop] = &[Prop {
    id: "C21",
    quick: 1_000_000,
    thorough: 25_000_000,
    fuel: 2_000_000_000,
    run: geometry,
    rule: "a distinct input of one primitive",
    assumptions: &[
        "coordinates and sizes of magnitude up to a billion; differences that are zero or not below the rounding of the coordinates",
        "touching boxes and segments are not judged",
    ],
}];

fn main() {
    vh::runner::main(PROPS)
}
