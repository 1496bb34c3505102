//! Programs that must draw alike: with other looks, and in flat form.

use super::meta::{draw, same};
use super::text::some_prog;
use vh::ck;
use vh::ctx::*;
use vh::drive::{self, Flags};
use vh::gen::{self, Opts};
use vh::prog::*;
use vh::rec::{Op, P2};
use vh::rng::{hash_str, Rng};

// ------------------------------------------------------------------- looks

/// Attributes that say how things look, not how large they are.
const NODE_LOOKS: &[&str] = &["color", "fillcolor", "style", "width", "penwidth"];
const EDGE_LOOKS: &[&str] = &["color", "fillcolor", "style", "width", "penwidth"];
/// Attributes of other tools.
const FOREIGN: &[&str] = &[
    "URL", "href", "tooltip", "group", "weight", "constraint", "minlen", "rank", "class", "id",
    "comment", "arrowhead", "arrowtail", "dir", "headport", "tailport", "headlabel", "xlabel",
    "Label", "LABEL", "Shape", "font", "fontname", "FontSize", "fontcolor", "labelfontsize",
    "nodesep", "ranksep", "size", "ratio", "bgcolor", "splines", "margin", "height", "peripheries",
    "orientation", "rankDir", "layout", "x y", "é", "7",
];

fn look_value(k: &str, rng: &mut Rng) -> String {
    match k {
        "color" | "fillcolor" => gen::color_text(rng),
        "style" => rng
            .pick::<&str>(&["dashed", "solid", "filled", "bold", "rounded", "invis", "dotted", ""])
            .to_string(),
        _ => match rng.below(5) {
            0 => "wide".into(),
            1 => "0".into(),
            2 => rng.range(1, 1000).to_string(),
            _ => rng.range(1, 12).to_string(),
        },
    }
}

fn new_looks(a: &mut Attrs, looks: &[&str], rng: &mut Rng) {
    a.retain(|(k, _)| !looks.contains(&k.as_str()) || rng.pct(30));
    for (k, v) in a.iter_mut() {
        if looks.contains(&k.as_str()) {
            *v = look_value(k, rng);
        }
    }
    for k in looks {
        if rng.pct(25) {
            let at = rng.below(a.len() + 1);
            let v = look_value(k, rng);
            a.insert(at, (k.to_string(), v));
        }
    }
    if rng.pct(25) {
        let at = rng.below(a.len() + 1);
        let k = rng.pick::<&str>(FOREIGN).to_string();
        let v = rng.pick::<&str>(&["", "1", "LR", "record", "false", "a long text", "#fff"]).to_string();
        a.insert(at, (k, v));
    }
}

/// Other letters in the places of the letters.
fn new_letters(a: &mut Attrs, rng: &mut Rng) {
    for (k, v) in a.iter_mut() {
        // The letters between < and > are the name of a port.
        if k == "label" && !v.contains('<') && rng.pct(70) {
            *v = v
                .chars()
                .map(|c| {
                    if c.is_ascii_lowercase() {
                        (b'a' + rng.below(26) as u8) as char
                    } else if c.is_ascii_digit() {
                        (b'0' + rng.below(10) as u8) as char
                    } else {
                        c
                    }
                })
                .collect();
        }
    }
}

fn relook(body: &mut [S], letters: bool, rng: &mut Rng) {
    for s in body {
        match s {
            S::Attr(Target::Graph, _) | S::Assign(..) => {}
            S::Attr(t, a) => {
                new_looks(a, if *t == Target::Node { NODE_LOOKS } else { EDGE_LOOKS }, rng);
                if letters {
                    new_letters(a, rng);
                }
            }
            S::Node(_, a) => {
                new_looks(a, NODE_LOOKS, rng);
                if letters {
                    new_letters(a, rng);
                }
            }
            S::Edge(_, to, a) => {
                new_looks(a, EDGE_LOOKS, rng);
                if letters {
                    new_letters(a, rng);
                }
                for t in to {
                    if rng.pct(50) {
                        t.1 = !t.1;
                    }
                }
            }
            S::Sub { body, .. } => relook(body, letters, rng),
        }
    }
}

/// What is drawn where.
fn places(ops: &[Op]) -> Vec<(&'static str, Vec<P2>)> {
    ops.iter()
        .map(|o| match o {
            Op::Rect { xy, size, look, .. } => {
                ("box", vec![*xy, *size, (look.rounded as f64, 0.)])
            }
            Op::Circle { c, size, .. } => ("ellipse", vec![*c, *size]),
            Op::Line { a, b, .. } => ("line", vec![*a, *b]),
            Op::Text { c, text, look } => {
                ("text", vec![*c, (text.chars().count() as f64, look.font as f64)])
            }
            Op::Arrow { path, .. } => ("edge", path.iter().flat_map(|p| [p.0, p.1]).collect()),
            Op::Clip { xy, size, rounded, .. } => {
                ("clip", vec![*xy, *size, (*rounded as f64, 0.)])
            }
        })
        .collect()
}

fn page(svg: &str) -> &str {
    let at = svg.find("<svg").unwrap_or(0);
    let end = svg[at..].find('>').unwrap_or(0);
    &svg[at..at + end]
}

pub fn looks(ctx: &mut Ctx) -> R {
    let th = ctx.thorough();
    let mut o = Opts::usual(&mut ctx.rng, th);
    o.size = o.size.min(30);
    let p = gen::program(&mut ctx.rng, &o);
    let f = Flags::from_bits(*ctx.rng.pick(&[0, 0, 0, 1, 2, 4, 6, 7]));
    let text = gen::text_of(&p, &mut ctx.rng);
    let run = |t: &str| match drive::parse(t) {
        Ok(g) => Ok(drive::both(&mut drive::build(&g), f)),
        Err(e) => fail("rejected", format!("{}\n{}", e, t)),
    };
    ctx.set_input(format!("// {:?}\n{}", f, text));
    let (ops, svg) = run(&text)?;
    let was = places(&ops);
    for k in 0..2 {
        let mut q = p.clone();
        // Letters may be escapes in some places, so they change apart.
        relook(&mut q.body, k == 1, &mut ctx.rng);
        if ctx.rng.pct(30) {
            let k = ctx.rng.pick::<&str>(FOREIGN).to_string();
            let at = ctx.rng.below(q.body.len() + 1);
            q.body.insert(at, S::Assign(k, "LR".into()));
        }
        let t2 = gen::text_of(&q, &mut ctx.rng);
        let (ops2, svg2) = run(&t2)?;
        let now = places(&ops2);
        if was != now {
            let at = was.iter().zip(&now).position(|(a, b)| a != b);
            return fail(
                "moved",
                format!(
                    "{} and {} things are drawn, the first that differs: {:?} with the other looks {:?}; the other text:\n{}",
                    was.len(),
                    now.len(),
                    at.map(|i| &ops[i]),
                    at.map(|i| &ops2[i]),
                    t2
                ),
            );
        }
        ck!(
            page(&svg) == page(&svg2),
            "page",
            "the page is {} and with the other looks {}; the other text:\n{}",
            page(&svg),
            page(&svg2),
            t2
        );
        ctx.count("drawings_compared", 1);
        ctx.count("places_compared", was.len() as u64);
    }
    if !ops.is_empty() {
        ctx.nontrivial(hash_str(&text));
        if text.len() < 300 {
            ctx.sample(text);
        }
    }
    Ok(())
}

// --------------------------------------------------------------- flat form

fn flat_attrs(m: &AttrMap, rng: &mut Rng) -> Attrs {
    let mut a: Attrs = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    a.sort();
    rng.shuffle(&mut a);
    a
}

/// Every node with all of its attributes, then every edge with all of its.
pub fn flatten(g: &RGraph, rng: &mut Rng) -> Prog {
    let mut body = Vec::new();
    for n in &g.nodes {
        body.push(S::Node((n.name.clone(), None), flat_attrs(&n.attrs, rng)));
    }
    for e in &g.edges {
        body.push(S::Edge(
            (g.nodes[e.from].name.clone(), e.fport.clone()),
            vec![((g.nodes[e.to].name.clone(), e.tport.clone()), e.directed)],
            flat_attrs(&e.attrs, rng),
        ));
    }
    if g.lr {
        let at = rng.below(body.len() + 1);
        body.insert(at, S::Assign("rankdir".into(), "LR".into()));
    }
    Prog { strict: rng.pct(20), digraph: rng.pct(50), name: None, body }
}

pub fn flat(ctx: &mut Ctx) -> R {
    let mut p = some_prog(ctx, true);
    // Repeat and share: what follows a subgraph, and names that come again.
    if ctx.rng.pct(30) && !p.body.is_empty() {
        let at = ctx.rng.below(p.body.len());
        let s = p.body[at].clone();
        let to = ctx.rng.below(p.body.len() + 1);
        if let S::Node(..) | S::Attr(..) | S::Assign(..) = s {
            p.body.insert(to, s);
        } else if ctx.rng.pct(50) {
            p.body[at] = S::Sub { kw: ctx.rng.pct(50), name: None, body: vec![s] };
        }
    }
    let g = RGraph::of(&p);
    if g.nodes.len() > 40 || g.edges.len() > 80 {
        return Ok(());
    }
    let text = gen::text_of(&p, &mut ctx.rng);
    let f = Flags::from_bits(*ctx.rng.pick(&[0, 0, 0, 1, 2, 4, 6, 7]));
    ctx.set_input(format!("// {:?}\n{}", f, text));
    let q = flatten(&g, &mut ctx.rng);
    let t2 = gen::text_of(&q, &mut ctx.rng);
    same("flat", &draw(&text, f)?, &draw(&t2, f)?, &t2)?;
    ctx.count("drawings_compared", 1);
    ctx.count("nodes", g.nodes.len() as u64);
    ctx.count("edges", g.edges.len() as u64);
    if g.nodes.len() > 1 {
        ctx.nontrivial(hash_str(&text));
        if text.len() < 300 {
            ctx.sample(text);
        }
    }
    Ok(())
}
