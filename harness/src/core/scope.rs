//! Monitor of attribute scoping (C04) and of colours (C22): what the drawn
//! shapes look like, compared with an independent reading of the program.

use vh::ck;
use vh::css::CSS;
use vh::ctx::*;
use vh::drive::{self, Flags};
use vh::gen;
use vh::prog::*;
use vh::rec::{Op, P2};
use vh::rng::{hash_str, Rng};
use vh::scene::outline_dist;

fn value_for(rng: &mut Rng, key: &str) -> String {
    match key {
        "color" | "fillcolor" => gen::color_text(rng),
        "shape" => rng
            .pick::<&str>(&["box", "circle", "doublecircle", "house", "Box"])
            .to_string(),
        "fontsize" => gen::font_text(rng, 40),
        "penwidth" => rng.range(1, 9).to_string(),
        "style" => rng
            .pick::<&str>(&["filled", "dashed", "solid", "bold", ""])
            .to_string(),
        "label" => match rng.below(8) {
            0 => String::new(),
            _ => format!("L{}", rng.below(6)),
        },
        "rankdir" => rng.pick::<&str>(&["LR", "TB", "LR", "LR", "lr", "RL", "LRX", "XLR", ""]).to_string(),
        _ => rng.pick::<&str>(&["x", "LR", "box", "red"]).to_string(),
    }
}

fn some_attrs(rng: &mut Rng, keys: &[&str], max: usize) -> Attrs {
    let n = if rng.below(300) == 0 { rng.range(10, 300) } else { rng.below(max + 1) };
    (0..n)
        .map(|_| {
            let k = *rng.pick(keys);
            (k.to_string(), value_for(rng, k))
        })
        .collect()
}

const NODE_KEYS: &[&str] =
    &["color", "fillcolor", "shape", "fontsize", "style", "label", "bogus"];
const EDGE_KEYS: &[&str] =
    &["color", "penwidth", "style", "fontsize", "label", "bogus"];
const GRAPH_KEYS: &[&str] =
    &["rankdir", "color", "label", "shape", "fontsize", "style", "bogus"];

fn body(rng: &mut Rng, names: usize, depth: usize, len: usize) -> Vec<S> {
    let mut v = Vec::new();
    let n = if rng.pct(12) { 0 } else { rng.range(1, len) };
    for _ in 0..n {
        let name = |i: usize| (format!("n{}", i), None);
        v.push(match rng.below(20) {
            0..=2 => S::Attr(Target::Node, some_attrs(rng, NODE_KEYS, 3)),
            3..=5 => S::Attr(Target::Edge, some_attrs(rng, EDGE_KEYS, 3)),
            6 => S::Attr(Target::Graph, some_attrs(rng, GRAPH_KEYS, 2)),
            7 => {
                let k = *rng.pick(GRAPH_KEYS);
                S::Assign(k.to_string(), value_for(rng, k))
            }
            8..=11 => {
                let n = name(rng.below(names));
                let a = if rng.pct(75) {
                    some_attrs(rng, NODE_KEYS, 4)
                } else {
                    Vec::new()
                };
                S::Node(n, a)
            }
            12..=15 if names > 1 => {
                // From lower to higher: no cycles.
                let mut at = rng.below(names - 1);
                let from = name(at);
                let mut to = Vec::new();
                while at + 1 < names && (to.is_empty() || rng.pct(35)) {
                    at = rng.range(at + 1, names - 1);
                    to.push((name(at), rng.pct(75)));
                }
                S::Edge(from, to, some_attrs(rng, EDGE_KEYS, 3))
            }
            _ if depth > 0 => {
                let kw = rng.pct(60);
                S::Sub {
                    kw,
                    name: if kw && rng.pct(50) { Some("c".into()) } else { None },
                    body: body(rng, names, depth - 1, len),
                }
            }
            _ => S::Node(name(rng.below(names)), Vec::new()),
        });
    }
    v
}

/// What can be seen of a node: shape, text, outline, fill, font.
type Seen = (String, String, String, String, usize);

fn want_node(n: &RNode) -> Seen {
    let v = node_view(n);
    (
        match v.shape {
            ShapeK::Box => "box",
            ShapeK::Double => "double",
            _ => "circle",
        }
        .to_string(),
        v.label,
        v.stroke,
        v.fill,
        v.font,
    )
}

struct Drawn {
    c: P2,
    size: P2,
    round: bool,
    rings: usize,
    stroke: String,
    fill: String,
    /// The font of the shape and of the text in it.
    font: usize,
    text: String,
}

/// (label, stroke, dashed, width, font of the label, directed, from, to)
type SeenEdge = (String, bool, usize, bool, Seen, Seen);

pub fn scoping(ctx: &mut Ctx) -> R {
    let names = if ctx.rng.pct(4) {
        ctx.rng.range(7, 40)
    } else {
        ctx.rng.range(1, 6)
    };
    let (d, l) = (ctx.rng.below(4), ctx.rng.range(3, 9));
    let mut all = body(&mut ctx.rng, names, d, l);
    if ctx.rng.pct(3) {
        // Many scopes in each other.
        for _ in 0..ctx.rng.range(4, 60) {
            let inner = std::mem::replace(&mut all, body(&mut ctx.rng, names, 0, 3));
            let kw = ctx.rng.pct(50);
            all.push(S::Sub { kw, name: None, body: inner });
            if ctx.rng.pct(30) {
                all.extend(body(&mut ctx.rng, names, 0, 3));
            }
        }
    }
    let p = Prog {
        strict: ctx.rng.pct(10),
        digraph: ctx.rng.pct(85),
        name: None,
        body: all,
    };
    let g = RGraph::of(&p);
    if g.edges.len() > 90 {
        return Ok(());
    }
    let text = gen::text_of(&p, &mut ctx.rng);
    ctx.set_input(text.clone());
    let f = Flags {
        debug: false,
        no_opt: true,
        no_layout: ctx.rng.pct(90),
    };
    let ops = match drive::ops_of(&text, f) {
        Ok(x) => x,
        Err(e) => return fail("rejected", e),
    };
    judge_looks(ctx, &g, &ops)?;
    if g.nodes.len() > 1 {
        ctx.nontrivial(hash_str(&text));
        if text.len() < 300 {
            ctx.sample(text);
        }
    }
    Ok(())
}

fn judge_looks(ctx: &mut Ctx, g: &RGraph, ops: &[Op]) -> R {
    let scale = vh::scene::extent(ops)?;
    let tol = 1e-6 * (1. + scale);
    let mut drawn: Vec<Drawn> = Vec::new();
    let mut add = |c: P2, size: P2, round: bool, look: &vh::rec::Look| {
        for d in drawn.iter_mut() {
            if (d.c.0 - c.0).abs() < tol && (d.c.1 - c.1).abs() < tol {
                d.rings += 1;
                if size.0 > d.size.0 {
                    d.size = size;
                }
                return;
            }
        }
        drawn.push(Drawn {
            c,
            size,
            round,
            rings: 1,
            stroke: look.stroke.clone(),
            fill: look.fill.clone().unwrap_or_default(),
            font: 0,
            text: String::new(),
        });
    };
    for o in ops {
        match o {
            Op::Rect { xy, size, look, .. } => add(
                (xy.0 + size.0 / 2., xy.1 + size.1 / 2.),
                *size,
                false,
                look,
            ),
            Op::Circle { c, size, look, .. } => add(*c, *size, true, look),
            Op::Line { .. } | Op::Clip { .. } => {
                return fail("stray-shape", format!("{:?}", o));
            }
            _ => {}
        }
    }
    // The texts: in the middle of a shape, or a label of an edge.
    let mut labels: Vec<(String, usize)> = Vec::new();
    for o in ops {
        if let Op::Text { c, text, look } = o {
            match drawn.iter_mut().find(|d| {
                (d.c.0 - c.0).abs() < tol && (d.c.1 - c.1).abs() < tol
            }) {
                Some(d) => {
                    d.text = text.clone();
                    d.font = look.font;
                }
                None => {
                    if !text.is_empty() {
                        labels.push((text.clone(), look.font))
                    }
                }
            }
        }
        if let Op::Arrow { text, look, .. } = o {
            if !text.is_empty() {
                labels.push((text.clone(), look.font));
            }
        }
    }
    let seen_of = |d: &Drawn| -> Seen {
        (
            match (d.round, d.rings) {
                (false, 1) => "box",
                (true, 1) => "circle",
                (true, 2) => "double",
                _ => "other",
            }
            .to_string(),
            d.text.clone(),
            d.stroke.clone(),
            d.fill.clone(),
            d.font,
        )
    };
    // A text that is not drawn has no font.
    let norm = |mut s: Seen| -> Seen {
        if s.1.is_empty() {
            s.4 = 0;
        }
        s
    };
    let mut got: Vec<Seen> = drawn.iter().map(|d| norm(seen_of(d))).collect();
    let mut want: Vec<Seen> =
        g.nodes.iter().map(|n| norm(want_node(n))).collect();
    got.sort();
    want.sort();
    ck!(
        got == want,
        "node-look",
        "the nodes look like\n{:?}\ninstead of\n{:?}",
        got,
        want
    );
    ctx.count("nodes_compared", want.len() as u64);

    let mut got: Vec<SeenEdge> = Vec::new();
    for o in ops {
        if let Op::Arrow {
            path,
            dashed,
            head,
            look,
            ..
        } = o
        {
            let at = |p: P2| -> Vec<&Drawn> {
                drawn
                    .iter()
                    .filter(|d| outline_dist(d.c, d.size, d.round, p) <= tol)
                    .collect()
            };
            let a = at(path[0].0);
            let b = at(path[path.len() - 1].1);
            ck!(
                a.len() == 1 && b.len() == 1,
                "edge-ends",
                "an edge from {:?} to {:?}",
                path[0],
                path[path.len() - 1]
            );
            ck!(!head.0, "reversed", "an edge with a head at its start");
            // The direction of the drawing.
            let gap = if g.lr {
                (b[0].c.0 - b[0].size.0 / 2.) - (a[0].c.0 + a[0].size.0 / 2.)
            } else {
                (b[0].c.1 - b[0].size.1 / 2.) - (a[0].c.1 + a[0].size.1 / 2.)
            };
            ck!(
                gap > 0.,
                "direction",
                "the drawing does not run {}",
                if g.lr { "left to right" } else { "top to bottom" }
            );
            got.push((
                look.stroke.clone(),
                *dashed,
                look.width,
                head.1,
                norm(seen_of(a[0])),
                norm(seen_of(b[0])),
            ));
        }
    }
    let mut want: Vec<SeenEdge> = Vec::new();
    let mut want_labels: Vec<(String, usize)> = Vec::new();
    for e in &g.edges {
        let v = edge_view(e);
        if !v.label.is_empty() {
            want_labels.push((v.label.clone(), v.font));
        }
        want.push((
            v.stroke,
            v.dashed,
            v.width,
            e.directed,
            norm(want_node(&g.nodes[e.from])),
            norm(want_node(&g.nodes[e.to])),
        ));
    }
    got.sort();
    want.sort();
    ck!(
        got == want,
        "edge-look",
        "the edges look like\n{:?}\ninstead of\n{:?}",
        got,
        want
    );
    labels.sort();
    want_labels.sort();
    ck!(
        labels == want_labels,
        "edge-labels",
        "the labels are {:?} instead of {:?}",
        labels,
        want_labels
    );
    ctx.count("edges_compared", want.len() as u64);
    Ok(())
}

// ------------------------------------------------------------------- colours

fn odd_color(rng: &mut Rng) -> String {
    let c = ["nosuch", "Reds", "rgb(1,2,3)", "", " ", "redd", "é", "##", "blackk", "0x00", "12", "light gray", "\n", "none"];
    match rng.below(4) {
        0 => {
            let mut s = String::new();
            for _ in 0..rng.range(1, 12) {
                s.push(*rng.pick(&['z', 'q', 'x', '-', 'é', 'y', 'k']));
            }
            s
        }
        _ => rng.pick::<&str>(&c).to_string(),
    }
}

pub fn colours(ctx: &mut Ctx) -> R {
    use layout::core::color::Color;
    let n = CSS.len() as u64;
    // Each name in turn, as a line, a fill and an edge.
    let mut cols: Vec<String> = vec![CSS[(ctx.case % n) as usize].0.to_string()];
    for _ in 0..3 {
        let c = match ctx.rng.below(8) {
            0 | 1 => format!("#{:06x}", ctx.rng.below(1 << 24)),
            2 => format!("#{:06X}", ctx.rng.below(1 << 24)),
            3 | 4 => format!("#{:08x}", ctx.rng.next() as u32),
            5 => format!("#{:08X}", ctx.rng.next() as u32),
            6 => odd_color(&mut ctx.rng),
            _ => ctx.rng.pick(&CSS).0.to_string(),
        };
        cols.push(c);
    }
    // A colour that is not one for sure must fall back.
    for c in &cols {
        let hexlike = c.starts_with('#') && c.len() != 7 && c.len() != 9;
        if hexlike {
            continue;
        }
        let want = ref_color(c);
        let got = Color::fast(c).to_web_color();
        ck!(
            got.to_lowercase() == want,
            "colour",
            "{:?} is {} instead of {}",
            c,
            got,
            want
        );
        ctx.count("colours_compared", 1);
        ctx.nontrivial(hash_str(c));
    }
    let word = ctx.rng.next() as u32;
    let got = Color::new(word).to_web_color();
    ck!(
        got.to_lowercase() == format!("#{:08x}", word),
        "colour-value",
        "{:08x} is {}",
        word,
        got
    );
    // The same through a program and the SVG document.
    cols.retain(|c| {
        !(c.starts_with('#') && c.len() != 7 && c.len() != 9) && !c.contains(':')
    });
    if ctx.rng.pct(20) {
        // Drawn in the colour of the page.
        cols.push("transparent".into());
    }
    let mut b = Vec::new();
    // The first of a list of colours counts.
    let list = |rng: &mut Rng, c: &String| {
        let mut s = c.clone();
        if rng.pct(12) {
            for _ in 0..rng.range(1, 3) {
                s.push(':');
                s.push_str(rng.pick::<&str>(&["red", "#00ff00", "blue;0.3", "", "nosuch"]));
            }
        }
        s
    };
    for (i, c) in cols.iter().enumerate() {
        b.push(S::Node(
            (format!("n{}", i), None),
            vec![
                ("shape".into(), "box".into()),
                ("color".into(), list(&mut ctx.rng, c)),
                ("fillcolor".into(), list(&mut ctx.rng, &cols[cols.len() - 1 - i])),
            ],
        ));
        b.push(S::Edge(
            (format!("n{}", i), None),
            vec![((format!("m{}", i), None), true)],
            vec![
                ("color".into(), list(&mut ctx.rng, c)),
                ("penwidth".into(), (i + 10).to_string()),
            ],
        ));
    }
    let p = Prog {
        strict: false,
        digraph: true,
        name: None,
        body: b,
    };
    let text = gen::text_of(&p, &mut ctx.rng);
    ctx.set_input(text.clone());
    let f = Flags {
        debug: false,
        no_opt: true,
        no_layout: true,
    };
    let svg = match drive::svg_of(&text, f) {
        Ok(x) => x,
        Err(e) => return fail("rejected", e),
    };
    let root = match vh::xml::parse(&svg) {
        Ok(x) => x,
        Err(e) => return fail("svg-xml", e),
    };
    let mut all = Vec::new();
    root.walk(&mut all);
    let rects: Vec<_> = all.iter().filter(|e| e.name == "rect").collect();
    let mut got: Vec<(String, String)> = rects
        .iter()
        .map(|e| {
            let g = |k| e.attr(k).unwrap_or("").to_lowercase();
            (g("stroke"), g("fill"))
        })
        .collect();
    let mut want: Vec<(String, String)> = (0..cols.len())
        .map(|i| (ref_color(&cols[i]), ref_color(&cols[cols.len() - 1 - i])))
        .collect();
    got.sort();
    want.sort();
    ck!(
        got == want,
        "svg-colour",
        "the boxes have (line, fill)\n{:?} instead of\n{:?}",
        got,
        want
    );
    for (i, c) in cols.iter().enumerate() {
        let w = (i + 10).to_string();
        let e = all.iter().find(|e| {
            e.name == "path" && e.attr("stroke-width") == Some(&w[..])
        });
        let got = e.and_then(|e| e.attr("stroke")).unwrap_or("").to_lowercase();
        ck!(
            got == ref_color(c),
            "svg-colour",
            "an edge of colour {:?} is drawn in {:?}",
            c,
            got
        );
    }
    ctx.count("svg_colours_compared", 3 * cols.len() as u64);
    if text.len() < 500 {
        ctx.sample(text);
    }
    Ok(())
}
