//! Graphs that are built through the API.

mod lower;

use layout::core::base::Orientation;
use layout::core::color::Color;
use layout::core::format::Visible;
use layout::core::geometry::Point;
use layout::core::style::{LineStyleKind, StyleAttr};
use layout::std_shapes::render::get_shape_size;
use layout::std_shapes::shapes::*;
use layout::topo::layout::VisualGraph;
use std::collections::BTreeMap;
use vh::ck;
use vh::ctx::*;
use vh::drive::{self, Flags};
use vh::gen;
use vh::rec::{Look, Op, P2};
use vh::rng::{hash_str, Rng};
use vh::runner::Prop;
use vh::scene::{extent, outline_dist};

#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
    Box,
    Circle,
    Double,
    Record,
}

#[derive(Clone, Debug)]
struct N {
    kind: K,
    label: String,
    rec: Option<RecordDef>,
    size: P2,
    look: StyleAttr,
    dir: Orientation,
    props: Option<String>,
}

#[derive(Clone, Debug)]
struct Ed {
    from: usize,
    to: usize,
    arrow: Arrow,
}

fn look(rng: &mut Rng) -> StyleAttr {
    if rng.pct(25) {
        return StyleAttr::simple();
    }
    let c = |rng: &mut Rng| match rng.below(4) {
        0 => Color::fast("red"),
        1 => Color::transparent(),
        2 => Color::new(rng.next() as u32),
        _ => Color::fast("#10aB7c"),
    };
    let fill = if rng.pct(25) { None } else { Some(c(rng)) };
    let line = c(rng);
    StyleAttr::new(line, rng.range(0, 9), fill, rng.below(3), rng.range(1, 40))
}

fn record(rng: &mut Rng, tag: &str, depth: usize, next: &mut usize) -> RecordDef {
    if depth == 0 || (depth < 3 && rng.pct(50)) {
        *next += 1;
        let t = match rng.below(10) {
            0 => format!("{}f{}\nsecond line", tag, next),
            1 => format!("{}f{} some wide text", tag, next),
            _ => format!("{}f{}.", tag, next),
        };
        return match rng.below(3) {
            0 => RecordDef::new_text(&t),
            _ => RecordDef::new_text_with_port(&t, &format!("p{}", next)),
        };
    }
    let n = rng.range(1, 4);
    RecordDef::Array((0..n).map(|_| record(rng, tag, depth - 1, next)).collect())
}

fn leaves(r: &RecordDef, out: &mut Vec<(String, Option<String>)>) -> usize {
    match r {
        RecordDef::Text(t, p) => {
            out.push((t.clone(), p.clone()));
            1
        }
        RecordDef::Array(v) => 1 + v.iter().map(|x| leaves(x, out)).sum::<usize>(),
    }
}

fn shape(n: &N) -> ShapeKind {
    match n.kind {
        K::Box => ShapeKind::new_box(&n.label),
        K::Circle => ShapeKind::new_circle(&n.label),
        K::Double => ShapeKind::new_double_circle(&n.label),
        K::Record => ShapeKind::new_record(n.rec.as_ref().unwrap()),
    }
}

fn orient(rng: &mut Rng) -> Orientation {
    if rng.pct(50) {
        Orientation::TopToBottom
    } else {
        Orientation::LeftToRight
    }
}

fn extent1(rng: &mut Rng) -> f64 {
    match rng.below(12) {
        0 => 0.,
        1 => 1.,
        2 => rng.frange(0.1, 5.),
        3 => rng.frange(200., 3000.),
        4..=6 => rng.range(20, 120) as f64,
        _ => rng.frange(10., 200.),
    }
}

fn node(rng: &mut Rng, i: usize) -> N {
    let kind = *rng.pick(&[K::Box, K::Box, K::Circle, K::Double, K::Record]);
    let tag = format!("n{}t", i);
    let mut next = 0;
    let depth = rng.below(4);
    let rec = if kind == K::Record {
        Some(record(rng, &tag, depth, &mut next))
    } else {
        None
    };
    let mut n = N {
        kind,
        label: tag,
        rec,
        size: (extent1(rng), extent1(rng)),
        look: look(rng),
        dir: orient(rng),
        props: None,
    };
    if rng.pct(30) {
        // The size that the library suggests.
        let s = get_shape_size(n.dir, &shape(&n), n.look.font_size, rng.pct(30));
        n.size = (s.x, s.y);
    }
    if rng.pct(50) {
        n.props = Some(format!("id=\"node{}_\" class=\"c{}\"", i, rng.below(3)));
    }
    n
}

fn element(n: &N) -> Element {
    let size = Point::new(n.size.0, n.size.1);
    match &n.props {
        Some(p) => Element::create_with_properties(
            shape(n),
            n.look.clone(),
            n.dir,
            size,
            p.clone(),
        ),
        None => Element::create(shape(n), n.look.clone(), n.dir, size),
    }
}

fn head(rng: &mut Rng) -> LineEndKind {
    if rng.pct(50) {
        LineEndKind::Arrow
    } else {
        LineEndKind::None
    }
}

fn style(rng: &mut Rng) -> LineStyleKind {
    match rng.below(6) {
        0 => LineStyleKind::Dashed,
        1 => LineStyleKind::Dotted,
        2 => LineStyleKind::None,
        _ => LineStyleKind::Normal,
    }
}

/// Edge looks carry the number of the edge in their line width.
const EDGE: usize = 1000;

fn port(rng: &mut Rng, n: &N) -> Option<String> {
    let r = n.rec.as_ref()?;
    let mut l = Vec::new();
    leaves(r, &mut l);
    match rng.below(5) {
        0 => None,
        1 => Some("no such port".into()),
        _ => rng.pick(&l).1.clone(),
    }
}

fn arrow(rng: &mut Rng, i: usize, a: &N, b: &N) -> Arrow {
    let mut lk = look(rng);
    lk.line_width = EDGE + i;
    let mut st = style(rng);
    let invisible = matches!(st, LineStyleKind::None);
    let text = match rng.below(4) {
        0 if !invisible => format!("e{}L", i),
        1 if !invisible && rng.pct(40) => format!("e{}L a longer\ntext", i),
        _ => String::new(),
    };
    let (sp, dp) = (port(rng, a), port(rng, b));
    let mut r = match rng.below(6) {
        0 => {
            let mut r = Arrow::simple(&text);
            r.look.line_width = EDGE + i;
            r
        }
        1 => {
            let mut r = Arrow::simple_with_properties(&text, format!("id=\"edge{}_\"", i));
            r.look.line_width = EDGE + i;
            r
        }
        2 if invisible => {
            let mut r = Arrow::invisible();
            r.look.line_width = EDGE + i;
            r
        }
        3 => {
            let mut r = Arrow::default();
            r.look = lk;
            r.text = text;
            r
        }
        4 => {
            let (x, y) = (head(rng), head(rng));
            Arrow::with_properties(x, y, st, &text, &lk, format!("id=\"edge{}_\"", i), &sp, &dp)
        }
        _ => {
            let (x, y) = (head(rng), head(rng));
            Arrow::new(x, y, st, &text, &lk, &sp, &dp)
        }
    };
    if rng.pct(15) {
        st = LineStyleKind::Dashed;
        r.line_style = st;
    }
    if matches!(r.line_style, LineStyleKind::None) {
        r.text = String::new();
    }
    r
}

/// What the constructors of edges and styles make of their arguments.
fn constructors(rng: &mut Rng) -> R {
    let same_look = |a: &StyleAttr, b: &StyleAttr| Look::of(a) == Look::of(b);
    let is = |k: LineStyleKind| match k {
        LineStyleKind::Normal => 0,
        LineStyleKind::Dashed => 1,
        LineStyleKind::Dotted => 2,
        LineStyleKind::None => 3,
    };
    // Styles.
    let (a, b) = (Color::new(rng.next() as u32), Color::new(rng.next() as u32));
    let (w, r, f) = (rng.below(9), 10 + rng.below(9), 20 + rng.below(9));
    let fill = if rng.pct(30) { None } else { Some(b) };
    let l = StyleAttr::new(a, w, fill, r, f);
    ck!(
        l.line_color.to_web_color() == a.to_web_color()
            && l.line_width == w
            && l.fill_color.map(|x| x.to_web_color()) == fill.map(|x| x.to_web_color())
            && l.rounded == r
            && l.font_size == f,
        "constructor",
        "StyleAttr::new({:?}, {}, {:?}, {}, {}) is {:?}",
        a,
        w,
        fill,
        r,
        f,
        l
    );
    // Edges.
    let (x, y, st) = (head(rng), head(rng), style(rng));
    let port = |rng: &mut Rng, s: &str| if rng.pct(30) { None } else { Some(s.to_string()) };
    let (sp, dp) = (port(rng, "s"), port(rng, "d"));
    let text = if rng.pct(30) { "" } else { "te\nxt" };
    let (sl, none) = (StyleAttr::simple(), None);
    type Want<'a> = (
        LineEndKind,
        LineEndKind,
        LineStyleKind,
        &'a str,
        &'a StyleAttr,
        Option<&'a str>,
        &'a Option<String>,
        &'a Option<String>,
    );
    let (n, h, o) = (LineEndKind::None, LineEndKind::Arrow, LineStyleKind::Normal);
    let all: [(&str, Arrow, Want); 6] = [
        ("new", Arrow::new(x, y, st, text, &l, &sp, &dp), (x, y, st, text, &l, None, &sp, &dp)),
        (
            "with_properties",
            Arrow::with_properties(x, y, st, text, &l, "pr", &sp, &dp),
            (x, y, st, text, &l, Some("pr"), &sp, &dp),
        ),
        ("simple", Arrow::simple(text), (n, h, o, text, &sl, None, &none, &none)),
        (
            "simple_with_properties",
            Arrow::simple_with_properties(text, "pr"),
            (n, h, o, text, &sl, Some("pr"), &none, &none),
        ),
        ("default", Arrow::default(), (n, h, o, "", &sl, None, &none, &none)),
        (
            "reverse",
            Arrow::with_properties(x, y, st, text, &l, "pr", &sp, &dp).reverse(),
            (y, x, st, text, &l, Some("pr"), &dp, &sp),
        ),
    ];
    for (name, g, w) in &all {
        ck!(
            is_arrow(g.start) == is_arrow(w.0)
                && is_arrow(g.end) == is_arrow(w.1)
                && is(g.line_style) == is(w.2)
                && g.text == w.3
                && same_look(&g.look, w.4)
                && g.properties.as_deref() == w.5
                && g.src_port == *w.6
                && g.dst_port == *w.7,
            "constructor",
            "Arrow::{} gives {:?} instead of {:?}",
            name,
            g,
            w
        );
    }
    ck!(
        is(Arrow::invisible().line_style) == 3,
        "constructor",
        "an invisible edge is {:?}",
        Arrow::invisible()
    );
    Ok(())
}

fn is_arrow(h: LineEndKind) -> bool {
    matches!(h, LineEndKind::Arrow)
}

struct Seen {
    path: Vec<P2>,
    dashed: bool,
    head: (bool, bool),
    look: Look,
    props: Option<String>,
    text: String,
}

fn near(a: P2, b: P2, t: f64) -> bool {
    (a.0 - b.0).abs() <= t && (a.1 - b.1).abs() <= t
}

fn describe(lr: bool, f: Flags, ns: &[N], es: &[Ed]) -> String {
    let mut s = format!("left to right: {}, {:?}\n", lr, f);
    for n in ns {
        s.push_str(&format!("{:?}\n", n));
    }
    for e in es {
        s.push_str(&format!("{:?}\n", e));
    }
    s
}

fn specified(ctx: &mut Ctx) -> R {
    let mut rng = ctx.rng.clone();
    let th = ctx.thorough();
    let size = gen::small_size(&mut rng, th);
    let acyclic = rng.pct(60);
    let topo = gen::topology(&mut rng, size, acyclic);
    let dag = gen::is_acyclic(topo.n, &topo.edges);
    let ns: Vec<N> = (0..topo.n).map(|i| node(&mut rng, i)).collect();
    // Each label is a node more, and the rows of a huge graph are dear.
    let many = topo.edges.len() > 250;
    let es: Vec<Ed> = topo
        .edges
        .iter()
        .enumerate()
        .map(|(i, e)| {
            let mut arrow = arrow(&mut rng, i, &ns[e.0], &ns[e.1]);
            if many && i > 12 {
                arrow.text = String::new();
            }
            Ed {
                from: e.0,
                to: e.1,
                arrow,
            }
        })
        .collect();
    let lr = rng.pct(40);
    let f = Flags::from_bits(*rng.pick(&[0, 0, 0, 2, 4, 6, 1]));
    ctx.set_input(describe(lr, f, &ns, &es));
    constructors(&mut rng.clone())?;

    let mut vg = VisualGraph::new(if lr {
        Orientation::LeftToRight
    } else {
        Orientation::TopToBottom
    });
    let mut hs = Vec::new();
    let mut next_edge = 0;
    let late = rng.pct(50);
    for n in &ns {
        hs.push(vg.add_node(element(n)));
        // Edges may come before later nodes, in their order.
        while !late && next_edge < es.len() {
            let e = &es[next_edge];
            if e.from.max(e.to) >= hs.len() {
                break;
            }
            vg.add_edge(e.arrow.clone(), hs[e.from], hs[e.to]);
            next_edge += 1;
        }
    }
    for e in &es[next_edge..] {
        vg.add_edge(e.arrow.clone(), hs[e.from], hs[e.to]);
    }
    ck!(vg.num_nodes() == ns.len(), "node-count", "{}", vg.num_nodes());
    ck!(
        vg.iter_nodes().count() == ns.len(),
        "node-count",
        "{}",
        vg.iter_nodes().count()
    );
    ck!(
        vg.orientation().is_left_right() == lr,
        "orientation",
        "{:?}",
        vg.orientation()
    );
    for (h, n) in hs.iter().zip(&ns) {
        let s = vg.element(*h).position().size(false);
        ck!((s.x, s.y) == n.size, "size", "{:?} before the layout, of {:?}", s, n);
    }
    let (ops, doc) = drive::both(&mut vg, f);
    ctx.count("nodes", ns.len() as u64);
    ctx.count("edges", es.len() as u64);
    let scale = extent(&ops)?;
    let tol = 1e-7 * (1. + scale);

    // --- nodes
    let mut shapes = 0;
    for (h, n) in hs.iter().zip(&ns) {
        let p = vg.pos(*h);
        let s = p.size(false);
        ck!(
            near((s.x, s.y), n.size, tol),
            "size",
            "{:?} has the size {:?} after the layout",
            n,
            s
        );
        let c = (p.center().x, p.center().y);
        let want = Look::of(&n.look);
        let mut texts = Vec::new();
        shapes += match n.kind {
            K::Box | K::Circle => 1,
            K::Double => 2,
            K::Record => 1 + leaves(n.rec.as_ref().unwrap(), &mut texts),
        };
        if texts.is_empty() {
            texts.push((n.label.clone(), None));
        }
        for (t, _) in &texts {
            let at: Vec<(P2, usize)> = ops
                .iter()
                .filter_map(|o| match o {
                    Op::Text { c, text, look } if text == t => Some((*c, look.font)),
                    _ => None,
                })
                .collect();
            ck!(at.len() == 1, "text-count", "{:?} is drawn {} times", t, at.len());
            ck!(
                at[0].1 == want.font,
                "text-font",
                "{:?} has size {} instead of {}",
                t,
                at[0].1,
                want.font
            );
            let d = ((at[0].0 .0 - c.0).abs(), (at[0].0 .1 - c.1).abs());
            let ok = if n.kind == K::Record {
                d.0 <= n.size.0 / 2. + tol && d.1 <= n.size.1 / 2. + tol
            } else {
                d.0 <= tol && d.1 <= tol
            };
            ck!(ok, "text-place", "{:?} is {:?} off its node at {:?}", t, d, c);
        }
        // The shape, as asked for.
        let hits: Vec<(&Look, &Option<String>)> = ops
            .iter()
            .filter_map(|o| match o {
                Op::Rect {
                    xy, size, look, props, clip,
                } if clip.is_none()
                    && near((xy.0 + size.0 / 2., xy.1 + size.1 / 2.), c, tol)
                    && near(*size, n.size, tol)
                    && matches!(n.kind, K::Box | K::Record) =>
                {
                    Some((look, props))
                }
                Op::Circle {
                    c: c2,
                    size,
                    look,
                    props,
                } if near(*c2, c, tol)
                    && near(*size, n.size, tol)
                    && matches!(n.kind, K::Circle | K::Double) =>
                {
                    Some((look, props))
                }
                _ => None,
            })
            .collect();
        let good = hits
            .iter()
            .filter(|x| {
                let fill_ok = if n.kind == K::Record {
                    // The cells are filled, the outline is not.
                    x.0.fill.is_none()
                } else {
                    x.0.fill == want.fill
                };
                x.0.stroke == want.stroke
                    && x.0.width == want.width
                    && x.0.rounded == want.rounded
                    && fill_ok
                    && *x.1 == n.props
            })
            .count();
        // A record without fill may have cells like its outline.
        let same = n.kind == K::Record && want.fill.is_none() && n.props.is_none();
        // The inner ring of a tiny double circle may coincide with the outer.
        let tiny = n.kind == K::Double && n.size.0.min(n.size.1) <= tol;
        ck!(
            good == 1 || ((same || tiny) && good > 1),
            "node-shape",
            "{:?} at {:?} is drawn {} times as asked for; at its place: {:?}",
            n,
            c,
            good,
            hits
        );
        if let Some(p) = &n.props {
            let k = doc.matches(&p[..]).count();
            ck!(
                k == 1 || (f.debug && k > 0),
                "properties",
                "the properties of {:?} are {} times in the document",
                n,
                k
            );
            ctx.count("node_properties_checked", 1);
        }
        if n.kind == K::Double {
            let inner = ops
                .iter()
                .filter(|o| match o {
                    Op::Circle { c: c2, size, .. } => {
                        near(*c2, c, tol)
                            && size.0 >= 0.
                            && size.1 >= 0.
                            && (size.0 < n.size.0 || n.size.0 == 0.)
                            && (size.1 < n.size.1 || n.size.1 == 0.)
                    }
                    _ => false,
                })
                .count();
            ck!(
                inner >= 1,
                "inner-ring",
                "the double circle {:?} has no ring inside",
                n
            );
        }
        ctx.count("nodes_checked", 1);
    }
    if !f.debug {
        let drawn = ops
            .iter()
            .filter(|o| matches!(o, Op::Rect { .. } | Op::Circle { .. }))
            .count();
        ck!(
            drawn == shapes,
            "shape-count",
            "{} shapes are drawn, {} were asked for",
            drawn,
            shapes
        );
    }

    // --- edges
    let mut seen: BTreeMap<usize, Seen> = BTreeMap::new();
    for o in &ops {
        if let Op::Arrow {
            path,
            dashed,
            head,
            look,
            props,
            text,
        } = o
        {
            let mut v = vec![path[0].0];
            v.extend(path[1..].iter().map(|s| s.1));
            let s = Seen {
                path: v,
                dashed: *dashed,
                head: *head,
                look: look.clone(),
                props: props.clone(),
                text: text.clone(),
            };
            ck!(
                look.width >= EDGE && look.width - EDGE < es.len(),
                "stray-edge",
                "an edge of width {}",
                look.width
            );
            let i = look.width - EDGE;
            ck!(
                seen.insert(i, s).is_none(),
                "edge-twice",
                "edge {} is drawn twice",
                i
            );
        }
    }
    for (i, e) in es.iter().enumerate() {
        let a = &e.arrow;
        let inv = matches!(a.line_style, LineStyleKind::None);
        if dag && e.from != e.to {
            // Drawn or not, the edge shapes the layout.
            let (p, q) = (vg.pos(hs[e.from]), vg.pos(hs[e.to]));
            let ok = if lr {
                p.right(false) < q.left(false) + tol
            } else {
                p.bottom(false) < q.top(false) + tol
            };
            ck!(
                ok,
                "flow",
                "edge {} ({:?}) runs from {:?} to {:?}",
                i,
                a.line_style,
                p.bbox(false),
                q.bbox(false)
            );
            ctx.count(if inv { "invisible_flow" } else { "visible_flow" }, 1);
        }
        let s = match seen.get(&i) {
            Some(s) => s,
            None => {
                ck!(inv, "edge-missing", "edge {} is not drawn", i);
                continue;
            }
        };
        ck!(!inv, "invisible-drawn", "the invisible edge {} is drawn", i);
        let want_dash = matches!(a.line_style, LineStyleKind::Dashed | LineStyleKind::Dotted);
        ck!(s.dashed == want_dash, "dash", "edge {}: dashed is {}", i, s.dashed);
        ck!(
            s.look == Look::of(&a.look),
            "edge-look",
            "edge {}: {:?} instead of {:?}",
            i,
            s.look,
            a.look
        );
        ck!(
            s.props == a.properties,
            "edge-properties",
            "edge {}: {:?} instead of {:?}",
            i,
            s.props,
            a.properties
        );
        if let Some(p) = &a.properties {
            ck!(
                doc.contains(&p[..]),
                "edge-properties",
                "{:?} is not in the document",
                p
            );
            ctx.count("edge_properties_checked", 1);
        }
        // The label.
        let mut labels = 0;
        for o in &ops {
            if let Op::Text { text, look, .. } = o {
                if !text.is_empty() && *text == a.text {
                    labels += 1;
                    ck!(
                        look.font == a.look.font_size,
                        "label-font",
                        "the label of edge {} has size {}",
                        i,
                        look.font
                    );
                }
            }
        }
        labels += (!s.text.is_empty() && s.text == a.text) as usize;
        let want = (!a.text.is_empty()) as usize;
        ck!(
            labels == want && (s.text.is_empty() || s.text == a.text),
            "label",
            "the label of edge {} ({:?}) is drawn {} times",
            i,
            a.text,
            labels
        );
        // The ends.
        let spot = |n: usize, port: &Option<String>| -> (P2, P2, bool) {
            let p = vg.pos(hs[n]);
            let whole = (
                (p.center().x, p.center().y),
                ns[n].size,
                matches!(ns[n].kind, K::Circle | K::Double),
            );
            let (r, port) = match (&ns[n].rec, port) {
                (Some(r), Some(p)) => (r, p),
                _ => return whole,
            };
            let mut l = Vec::new();
            leaves(r, &mut l);
            let t = match l.iter().find(|x| x.1.as_ref() == Some(port)) {
                Some(x) => &x.0,
                None => return whole,
            };
            let at = ops
                .iter()
                .find_map(|o| match o {
                    Op::Text { c, text, .. } if text == t => Some(*c),
                    _ => None,
                })
                .unwrap();
            // The smallest rectangle around the text of the field.
            let mut best: Option<P2> = None;
            for o in &ops {
                if let Op::Rect { xy, size, .. } = o {
                    let c = (xy.0 + size.0 / 2., xy.1 + size.1 / 2.);
                    if near(c, at, tol)
                        && best.is_none_or(|b| size.0 * size.1 < b.0 * b.1)
                    {
                        best = Some(*size);
                    }
                }
            }
            match best {
                Some(b) => (at, b, false),
                _ => whole,
            }
        };
        let touches = |p: P2, x: (P2, P2, bool)| {
            let flat = x.1 .0 == 0. || x.1 .1 == 0.;
            if flat {
                (p.0 - x.0 .0).abs() <= x.1 .0 / 2. + tol
                    && (p.1 - x.0 .1).abs() <= x.1 .1 / 2. + tol
            } else {
                outline_dist(x.0, x.1, x.2, p) <= 10. * tol
            }
        };
        let (p, q) = (s.path[0], s.path[s.path.len() - 1]);
        let (x, y) = (spot(e.from, &a.src_port), spot(e.to, &a.dst_port));
        let want = (is_arrow(a.start), is_arrow(a.end));
        let along = touches(p, x) && touches(q, y) && s.head == want;
        let back = touches(p, y) && touches(q, x) && s.head == (want.1, want.0);
        ck!(
            // Debug mode draws marks over the fields of a record.
            along || back || (f.debug && (a.src_port.is_some() || a.dst_port.is_some())),
            "ends",
            "edge {} from {:?} to {:?} with the heads {:?} is drawn from {:?} to {:?} \
             with the heads {:?}",
            i,
            x,
            y,
            want,
            p,
            q,
            s.head
        );
        ctx.count("edges_checked", 1);
        if back && !along {
            ctx.count("edges_turned_around", 1);
        }
        if a.src_port.is_some() || a.dst_port.is_some() {
            ctx.count("edges_with_ports", 1);
        }
    }
    ctx.count("invisible_edges", es.len() as u64 - seen.len() as u64);
    // Texts that nobody asked for.
    for o in &ops {
        if let Op::Text { text, .. } = o {
            let known = text.is_empty()
                || ns.iter().any(|n| text.starts_with(&n.label))
                || es.iter().any(|e| e.arrow.text == *text);
            ck!(known, "stray-text", "{:?}", text);
        }
    }
    if ns.len() > 1 {
        ctx.nontrivial(hash_str(ctx.input()));
        if ns.len() < 4 {
            let s = ctx.input().to_string();
            ctx.sample(s);
        }
    }
    Ok(())
}

// ------------------------------------------------------------ transposition

type Boxes = BTreeMap<String, (P2, P2)>;
type Inner = BTreeMap<usize, Vec<P2>>;

fn boxes_of(ops: &[Op]) -> Result<(Boxes, Inner), Fail> {
    let scale = extent(ops)?;
    let tol = 1e-9 * (1. + scale);
    let mut r = Boxes::new();
    let mut e = Inner::new();
    for o in ops {
        match o {
            Op::Text { c, text, .. } if !text.is_empty() => {
                for o2 in ops {
                    let (c2, size) = match o2 {
                        Op::Rect { xy, size, .. } => {
                            ((xy.0 + size.0 / 2., xy.1 + size.1 / 2.), *size)
                        }
                        Op::Circle { c, size, .. } => (*c, *size),
                        _ => continue,
                    };
                    if near(*c, c2, tol) {
                        r.insert(text.clone(), (c2, size));
                    }
                }
            }
            Op::Arrow { path, look, .. } => {
                let v: Vec<P2> = path[1..path.len() - 1].iter().map(|s| s.1).collect();
                e.insert(look.width, v);
            }
            _ => {}
        }
    }
    Ok((r, e))
}

fn same_transposed(tb: &(Boxes, Inner), lr: &(Boxes, Inner), tol: f64, ctx: &mut Ctx) -> R {
    ck!(
        tb.0.len() == lr.0.len(),
        "boxes",
        "{} boxes top-to-bottom and {} left-to-right",
        tb.0.len(),
        lr.0.len()
    );
    let t = |p: P2| (p.1, p.0);
    for (k, (c, s)) in &tb.0 {
        let (c2, s2) = match lr.0.get(k) {
            Some(x) => *x,
            None => return fail("boxes", format!("no {:?} left-to-right", k)),
        };
        ck!(
            near(t(*c), c2, tol) && near(t(*s), s2, tol),
            "not-transposed",
            "box {:?} is {:?} {:?} top-to-bottom and {:?} {:?} left-to-right",
            k,
            c,
            s,
            c2,
            s2
        );
        ctx.count("boxes_compared", 1);
    }
    for (k, v) in &tb.1 {
        let w = match lr.1.get(k) {
            Some(x) => x,
            None => return fail("edges", format!("no edge {} left-to-right", k)),
        };
        ck!(
            v.len() == w.len() && v.iter().zip(w).all(|(a, b)| near(t(*a), *b, tol)),
            "way-not-transposed",
            "edge {} passes {:?} top-to-bottom and {:?} left-to-right",
            k,
            v,
            w
        );
        ctx.count("passing_points_compared", v.len() as u64);
    }
    Ok(())
}

fn transposed(ctx: &mut Ctx) -> R {
    let mut rng = ctx.rng.clone();
    let th = ctx.thorough();
    let size = gen::small_size(&mut rng, th);
    let topo = {
        let a = rng.pct(40);
        gen::topology(&mut rng, size, a)
    };
    let f = Flags::from_bits(*rng.pick(&[0, 0, 0, 2, 4, 6]));
    let (tb, lr);
    if rng.pct(30) {
        // Through the language: double circles are as wide as high.
        let mut body = String::new();
        for i in 0..topo.n {
            let k = rng.below(6);
            let font = if rng.pct(30) { rng.range(5, 60) } else { 14 };
            body.push_str(&format!(
                "  n{} [shape=doublecircle, label=\"n{}{}\", fontsize={}];\n",
                i,
                i,
                "x".repeat(k),
                font
            ));
        }
        for (k, e) in topo.edges.iter().enumerate() {
            body.push_str(&format!("  n{} -> n{} [penwidth={}];\n", e.0, e.1, EDGE + k));
        }
        let a = format!("digraph {{\n{}}}\n", body);
        let b = format!("digraph {{\n  rankdir=LR;\n{}}}\n", body);
        ctx.set_input(format!("{:?}\n{}", f, b));
        let get = |t: &str| match drive::ops_of(t, f) {
            Ok(x) => Ok(x),
            Err(e) => fail("rejected", e),
        };
        tb = get(&a)?;
        lr = get(&b)?;
    } else {
        let mut ns: Vec<N> = (0..topo.n).map(|i| node(&mut rng, i)).collect();
        for n in ns.iter_mut() {
            n.kind = K::Box;
            n.rec = None;
        }
        let es: Vec<Ed> = topo
            .edges
            .iter()
            .enumerate()
            .map(|(i, e)| {
                let mut a = arrow(&mut rng, i, &ns[e.0], &ns[e.1]);
                a.text = String::new();
                Ed {
                    from: e.0,
                    to: e.1,
                    arrow: a,
                }
            })
            .collect();
        ctx.set_input(describe(true, f, &ns, &es));
        let run = |lr: bool| {
            let o = Orientation::TopToBottom;
            let mut vg = VisualGraph::new(if lr { o.flip() } else { o });
            let mut hs = Vec::new();
            for n in &ns {
                let mut n = n.clone();
                if !lr {
                    n.dir = n.dir.flip();
                    n.size = (n.size.1, n.size.0);
                }
                hs.push(vg.add_node(element(&n)));
            }
            for e in &es {
                vg.add_edge(e.arrow.clone(), hs[e.from], hs[e.to]);
            }
            drive::record(&mut vg, f)
        };
        lr = run(true);
        tb = run(false);
    }
    let tol = 1e-9 * (1. + extent(&tb)?);
    let (a, b) = (boxes_of(&tb)?, boxes_of(&lr)?);
    same_transposed(&a, &b, tol, ctx)?;
    if topo.n > 1 {
        ctx.nontrivial(hash_str(ctx.input()));
        if topo.n < 4 {
            let s = ctx.input().to_string();
            ctx.sample(s);
        }
    }
    Ok(())
}

const G: u64 = 1_000_000_000;

static PROPS: &[Prop] = &[
    Prop {
        id: "C26",
        quick: 60_000,
        thorough: 1_200_000,
        fuel: 10 * G,
        run: specified,
        rule: "a distinct graph of two or more nodes",
        assumptions: &[
            "sizes from 0 to 3000; properties are well-formed attributes",
            "graphs of up to 45 (quick) or 60 (thorough) nodes",
            "what debug mode draws in addition is not judged",
        ],
    },
    Prop {
        id: "C27",
        quick: 60_000,
        thorough: 1_200_000,
        fuel: 10 * G,
        run: transposed,
        rule: "a distinct graph of two or more nodes, laid out in both directions",
        assumptions: &[
            "edges carry no labels (a text is not transposed)",
            "graphs of up to 45 (quick) or 60 (thorough) nodes",
        ],
    },
    Prop {
        id: "C28",
        quick: 30_000,
        thorough: 1_200_000,
        fuel: 10 * G,
        run: lower::lowered,
        rule: "a distinct graph of two or more edges, lowered step by step and at once",
        assumptions: &["graphs of up to 45 (quick) or 60 (thorough) nodes"],
    },
    Prop {
        id: "C29",
        quick: 60_000,
        thorough: 1_200_000,
        fuel: 10 * G,
        run: lower::rows,
        rule: "a distinct graph of two or more nodes, laid out",
        assumptions: &["graphs of up to 45 (quick) or 60 (thorough) nodes"],
    },
    Prop {
        id: "C35",
        quick: 40_000,
        thorough: 1_000_000,
        fuel: 10 * G,
        run: lower::room,
        rule: "a distinct graph of two or more nodes, laid out",
        assumptions: &[
            "graphs of up to 45 (quick) or 60 (thorough) nodes",
            "what debug mode draws in addition is not judged",
        ],
    },
    Prop {
        id: "C36",
        quick: 30_000,
        thorough: 700_000,
        fuel: 10 * G,
        run: lower::optimised,
        rule: "a distinct graph of two or more edges, laid out with and without optimisation",
        assumptions: &[
            "graphs of up to 45 (quick) or 60 (thorough) nodes",
            "crossings are compared where both runs have the same ranks",
        ],
    },
];

fn main() {
    vh::runner::main(PROPS)
}
