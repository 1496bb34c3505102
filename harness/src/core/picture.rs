//! Monitors over the recorded picture of a random graph.

use layout::core::geometry::Point;
use layout::std_shapes::shapes::{Element, ShapeKind};
use layout::topo::layout::VisualGraph;
use vh::ck;
use vh::ctx::*;
use vh::drive::{self, Flags};
use vh::gen::{self, Opts};
use vh::prog::*;
use vh::rec::{Op, P2};
use vh::rng::hash_str;
use vh::scene::{self, Arr, Scene};
use vh::xml;

pub struct Case {
    pub text: String,
    pub g: RGraph,
    pub flags: Flags,
    pub scene: Scene,
}

/// The graph of a program, sometimes with shapes of other sizes than the text
/// asks for, as users of the API give them.
fn built(ctx: &mut Ctx, text: &str, flags: Flags) -> Result<VisualGraph, Fail> {
    let ast = match drive::parse(text) {
        Ok(x) => x,
        Err(e) => return fail("rejected", format!("parse error: {}", e)),
    };
    let mut vg = drive::build(&ast);
    if !ctx.rng.pct(20) {
        return Ok(vg);
    }
    let all = ctx.rng.pct(50);
    let top = *ctx.rng.pick(&[30., 100., 600., 4000.]);
    let mut note = String::new();
    for h in vg.iter_nodes() {
        if !all && ctx.rng.pct(60) {
            continue;
        }
        let e = vg.element(h).clone();
        let old = e.pos.size(false);
        let record = matches!(e.shape, ShapeKind::Record(_));
        let rng = &mut ctx.rng;
        let mut one = |old: f64| match rng.below(8) {
            _ if record => old * rng.frange(1., 4.),
            0 => 1.,
            1 | 2 => old * rng.frange(0.1, 10.),
            3 => old,
            4 => rng.range(1, 50) as f64,
            _ => rng.frange(1., top),
        };
        let size = Point::new(one(old.x), one(old.y));
        note += &format!("// {:?}: {} x {}\n", h, size.x, size.y);
        *vg.element_mut(h) = Element::create(e.shape, e.look, e.orientation, size);
        ctx.count("sizes_given_by_the_caller", 1);
    }
    ctx.set_input(format!("// {:?}\n{}{}", flags, note, text));
    Ok(vg)
}

/// Generate a program, run it through the pipeline and read the picture.
pub fn make(ctx: &mut Ctx, o: &Opts, flags: Flags) -> Result<Case, Fail> {
    let p = gen::program(&mut ctx.rng, o);
    let g = RGraph::of(&p);
    let text = gen::text_of(&p, &mut ctx.rng);
    ctx.set_input(format!("// {:?}\n{}", flags, text));
    let ops = drive::record(&mut built(ctx, &text, flags)?, flags);
    ctx.count("draw_calls", ops.len() as u64);
    ctx.count("nodes", g.nodes.len() as u64);
    ctx.count("edges", g.edges.len() as u64);
    let scene = scene::read(&ops, &g)?;
    if g.nodes.len() > 1 {
        ctx.nontrivial(hash_str(&text));
        if ctx.samples.len() < 2 && text.len() < 400 {
            ctx.sample(text.clone());
        }
    }
    Ok(Case {
        text,
        g,
        flags,
        scene,
    })
}

pub fn usual(ctx: &mut Ctx) -> Result<Case, Fail> {
    let th = ctx.thorough();
    let o = Opts::usual(&mut ctx.rng, th);
    let f = Flags::from_bits(*ctx.rng.pick(&[0, 0, 0, 2, 4, 6]));
    make(ctx, &o, f)
}

// ------------------------------------------------------------------- nodes

/// A graph whose nodes have fills of their own, and labels that are empty,
/// blank, equal to each other, or left to the name.
fn same_labels(ctx: &mut Ctx) -> R {
    let th = ctx.thorough();
    let mut o = Opts::usual(&mut ctx.rng, th);
    o.records = false;
    o.edge_labels = 0;
    o.scopes = false;
    let mut p = gen::program(&mut ctx.rng, &o);
    let names: Vec<String> =
        p.body.iter().filter_map(|s| match s {
            S::Node(r, _) => Some(r.0.clone()),
            _ => None,
        }).collect();
    for (i, s) in p.body.iter_mut().enumerate() {
        if let S::Node(_, a) = s {
            let rng = &mut ctx.rng;
            a.retain(|x| x.0 != "fillcolor" && x.0 != "label");
            a.push(("fillcolor".into(), format!("#{:06x}", i)));
            if rng.pct(80) {
                let l = match rng.below(6) {
                    0 | 1 => String::new(),
                    2 => rng.pick(&names).clone(),
                    _ => rng
                        .pick::<&str>(&[
                            " ", "  ", "a", "A", "a ", "\n", "0", "\\N", "label",
                            "null", "\t", "a\na", "a\n", "\na", "\n\n", "\u{a0}",
                        ])
                        .to_string(),
                };
                a.push(("label".into(), l));
            }
            rng.shuffle(a);
        }
    }
    let g = RGraph::of(&p);
    let text = gen::text_of(&p, &mut ctx.rng);
    let flags = Flags::from_bits(*ctx.rng.pick(&[0, 0, 0, 2, 4, 6]));
    ctx.set_input(format!("// {:?}\n{}", flags, text));
    let ops = match drive::ops_of(&text, flags) {
        Ok(x) => x,
        Err(e) => return fail("rejected", format!("parse error: {}", e)),
    };
    let tol = 1e-7 * (1. + scene::extent(&ops)?);
    let mut shapes = 0;
    for n in &g.nodes {
        let v = node_view(n);
        let mut at: Vec<P2> = Vec::new();
        for o in &ops {
            let (c, look, round) = match o {
                Op::Rect { xy, size, look, .. } => {
                    ((xy.0 + size.0 / 2., xy.1 + size.1 / 2.), look, false)
                }
                Op::Circle { c, look, .. } => (*c, look, true),
                _ => continue,
            };
            if look.fill.as_deref() != Some(&v.fill[..]) {
                continue;
            }
            ck!(
                round == (v.shape != ShapeK::Box) && look.stroke == v.stroke,
                "node-shape",
                "node {:?} ({:?}) is drawn with {:?}",
                n.name,
                v,
                o
            );
            at.push(c);
        }
        shapes += at.len();
        let count = if v.shape == ShapeK::Double { 2 } else { 1 };
        ck!(
            at.len() == count,
            "node-shape",
            "node {:?} ({:?}) is drawn with {} shapes",
            n.name,
            v.shape,
            at.len()
        );
        let shown: Vec<(&str, usize)> = ops
            .iter()
            .filter_map(|o| match o {
                Op::Text { c, text, look }
                    if !text.is_empty()
                        && at.iter().all(|p| {
                            (p.0 - c.0).abs() < tol && (p.1 - c.1).abs() < tol
                        }) =>
                {
                    Some((&text[..], look.font))
                }
                _ => None,
            })
            .collect();
        let want = if v.label.is_empty() { vec![] } else { vec![(&v.label[..], v.font)] };
        ck!(
            shown == want,
            "node-text",
            "node {:?} shows {:?} instead of {:?}",
            n.name,
            shown,
            want
        );
        ctx.count("node_shapes_checked", 1);
    }
    let all = ops.iter().filter(|o| matches!(o, Op::Rect { .. } | Op::Circle { .. })).count();
    ck!(all == shapes, "stray-shape", "{} shapes, {} of nodes", all, shapes);
    let texts = ops
        .iter()
        .filter(|o| matches!(o, Op::Text { text, .. } if !text.is_empty()))
        .count();
    let want = g.nodes.iter().filter(|n| !node_view(n).label.is_empty()).count();
    ck!(texts == want, "stray-text", "{} texts instead of {}", texts, want);
    if g.nodes.len() > 1 {
        ctx.nontrivial(hash_str(&text));
    }
    Ok(())
}

pub fn nodes(ctx: &mut Ctx) -> R {
    if ctx.rng.pct(20) {
        return same_labels(ctx);
    }
    let c = usual(ctx)?;
    for s in &c.scene.nodes {
        let n = &c.g.nodes[s.idx];
        let v = node_view(n);
        ck!(
            s.look.stroke == v.stroke,
            "node-stroke",
            "node {:?}: stroke {} instead of {}",
            n.name,
            s.look.stroke,
            v.stroke
        );
        let rec = s.outline.is_some();
        if !rec {
            ck!(
                s.look.fill.as_deref() == Some(&v.fill[..]),
                "node-fill",
                "node {:?}: fill {:?} instead of {}",
                n.name,
                s.look.fill,
                v.fill
            );
        }
        ctx.count("node_shapes_checked", 1);
    }
    Ok(())
}

// ------------------------------------------------------------------- edges

/// The node whose outline (or field) `p` touches.
pub fn touching(s: &Scene, p: P2, tol: f64) -> Vec<usize> {
    let mut v = Vec::new();
    for n in &s.nodes {
        let b = n.bbox();
        if p.0 < b.0 .0 - tol
            || p.0 > b.1 .0 + tol
            || p.1 < b.0 .1 - tol
            || p.1 > b.1 .1 + tol
        {
            continue;
        }
        // Record ports lie inside of the outline.
        if n.outline.is_some() || n.outline_dist(p) <= tol {
            v.push(n.idx);
        }
    }
    v
}

pub fn ends(c: &Case, a: &Arr) -> Result<(usize, usize), Fail> {
    let tol = 1e-6 * (1. + c.scene.scale);
    let s = a.path[0].0;
    let e = a.path[a.path.len() - 1].1;
    let f = touching(&c.scene, s, tol);
    let t = touching(&c.scene, e, tol);
    if f.len() != 1 || t.len() != 1 {
        return fail(
            "edge-ends",
            format!(
                "edge {} runs from {:?} (touches nodes {:?}) to {:?} (touches {:?})",
                a.look.width, s, f, e, t
            ),
        );
    }
    Ok((f[0], t[0]))
}

pub fn edges(ctx: &mut Ctx) -> R {
    let c = usual(ctx)?;
    ck!(
        c.scene.arrows.len() == c.g.edges.len(),
        "edge-count",
        "{} edges are drawn, the graph has {}",
        c.scene.arrows.len(),
        c.g.edges.len()
    );
    // Each arrow must show an edge that no other arrow shows.
    let mut open: Vec<bool> = vec![true; c.g.edges.len()];
    for a in &c.scene.arrows {
        let (s, t) = ends(&c, a)?;
        let mut why = String::new();
        let mut hit = None;
        for (i, e) in c.g.edges.iter().enumerate() {
            let v = edge_view(e);
            if !open[i] || v.width != a.look.width {
                continue;
            }
            let fwd = e.from == s && e.to == t && a.head == (false, e.directed);
            let bwd = e.from == t && e.to == s && a.head == (e.directed, false);
            if (fwd || bwd) && a.dashed == v.dashed && a.look.stroke == v.stroke {
                hit = Some(i);
                break;
            }
            why = format!("{:?} {:?}", e, v);
        }
        match hit {
            Some(i) => open[i] = false,
            None => {
                return fail(
                    "edge-mismatch",
                    format!(
                        "drawn: {} -> {} heads {:?} dashed {} stroke {} \
                         penwidth {}; expected one like {}",
                        c.g.nodes[s].name,
                        c.g.nodes[t].name,
                        a.head,
                        a.dashed,
                        a.look.stroke,
                        a.look.width,
                        why
                    ),
                )
            }
        }
        ctx.count("edge_paths_checked", 1);
    }
    Ok(())
}

pub fn edge_labels(ctx: &mut Ctx) -> R {
    let th = ctx.thorough();
    let mut o = Opts::usual(&mut ctx.rng, th);
    if o.edge_labels == 0 {
        o.edge_labels = 60;
    }
    let f = Flags::from_bits(*ctx.rng.pick(&[0, 0, 0, 2, 4, 6]));
    let c = make(ctx, &o, f)?;
    labels(ctx, &c)
}

/// Every edge label is drawn once, beside a joint of its own edge.
pub fn labels(ctx: &mut Ctx, c: &Case) -> R {
    let mut loose: Vec<(bool, &scene::Txt)> =
        c.scene.loose.iter().map(|t| (t.text.is_empty(), t)).collect();
    for e in &c.g.edges {
        let v = edge_view(e);
        let arrows: Vec<&Arr> = c
            .scene
            .arrows
            .iter()
            .filter(|a| a.look.width == v.width)
            .collect();
        if v.label.is_empty() {
            if let Some(a) = arrows.iter().find(|a| !a.text.is_empty()) {
                return fail("stray-text", format!("{:?} along {:?}", a.text, e));
            }
            continue;
        }
        ck!(arrows.len() == 1, "edge-count", "{} arrows for {:?}", arrows.len(), e);
        let n = loose.iter().filter(|t| t.1.text == v.label).count();
        let along =
            c.scene.arrows.iter().filter(|a| a.text == v.label).count();
        ck!(
            n + along == 1,
            "label-count",
            "the label {:?} is drawn {} times",
            v.label,
            n + along
        );
        ctx.count("edge_labels_checked", 1);
        if along == 1 {
            // Drawn along the path itself.
            ck!(
                arrows[0].text == v.label && arrows[0].look.font == v.font,
                "label-far",
                "the label {:?} is along another edge",
                v.label
            );
            continue;
        }
        let t = loose.iter_mut().find(|t| t.1.text == v.label).unwrap();
        t.0 = true;
        let t = t.1;
        ck!(
            t.look.font == v.font,
            "label-font",
            "label {:?} has font {} instead of {}",
            v.label,
            t.look.font,
            v.font
        );
        // The text takes the room beside a point that the path passes.
        let j = arrows[0].joints();
        let inner = &j[1..j.len() - 1];
        let (lw, lh) = text_size(&v.label, v.font);
        let tol = 1e-6 * (1. + c.scene.scale);
        let ok = inner.iter().any(|p| {
            (p.0 - t.c.0).abs() <= (lw + 10.) / 2. + tol
                && (p.1 - t.c.1).abs() <= (lh + 10.) / 2. + tol
        });
        ck!(
            ok,
            "label-far",
            "label {:?} at {:?} (about {}x{}) is away from its edge, {:?}",
            v.label,
            t.c,
            lw,
            lh,
            inner
        );
    }
    if let Some(t) = loose.iter().find(|t| !t.0) {
        return fail(
            "stray-text",
            format!("text {:?} belongs to no node or edge", t.1.text),
        );
    }
    if let Some(a) = c.scene.arrows.iter().find(|a| {
        !a.text.is_empty()
            && !c.g.edges.iter().any(|e| edge_view(e).label == a.text)
    }) {
        return fail("stray-text", format!("{:?} along an edge", a.text));
    }
    Ok(())
}

/// The estimate of the area that a text takes.
pub fn text_size(s: &str, font: usize) -> (f64, f64) {
    let w = s.lines().map(|l| l.chars().count()).max().unwrap_or(0).max(1);
    let h = s.lines().count().max(1);
    ((w * font) as f64, (h * font) as f64)
}

// ---------------------------------------------------------------- disjoint

pub fn disjoint(ctx: &mut Ctx) -> R {
    let c = usual(ctx)?;
    let tol = 1e-6 * (1. + c.scene.scale);
    let n = &c.scene.nodes;
    for i in 0..n.len() {
        for j in 0..i {
            let (a, b) = (n[i].bbox(), n[j].bbox());
            let x = a.1 .0.min(b.1 .0) - a.0 .0.max(b.0 .0);
            let y = a.1 .1.min(b.1 .1) - a.0 .1.max(b.0 .1);
            ck!(
                x < tol || y < tol,
                "overlap",
                "{:?} {:?} and {:?} {:?}",
                c.g.nodes[n[i].idx].name,
                a,
                c.g.nodes[n[j].idx].name,
                b
            );
            ctx.count("node_pairs_checked", 1);
        }
    }
    // Labels against nodes.
    for t in &c.scene.loose {
        let (w, h) = text_size(&t.text, t.look.font);
        for m in n {
            let b = m.bbox();
            let x = (t.c.0 + w / 2.).min(b.1 .0) - (t.c.0 - w / 2.).max(b.0 .0);
            let y = (t.c.1 + h / 2.).min(b.1 .1) - (t.c.1 - h / 2.).max(b.0 .1);
            ck!(
                x < tol || y < tol,
                "label-node-overlap",
                "label {:?} {:?} {}x{} and {:?} {:?}: {} {}",
                t.text, t.c, w, h,
                c.g.nodes[m.idx].name, b, x, y
            );
            ctx.count("label_node_pairs", 1);
        }
    }
    for (i, t) in c.scene.loose.iter().enumerate() {
        let (w, h) = text_size(&t.text, t.look.font);
        for u in &c.scene.loose[..i] {
            let (w2, h2) = text_size(&u.text, u.look.font);
            let x = (w + w2) / 2. - (t.c.0 - u.c.0).abs();
            let y = (h + h2) / 2. - (t.c.1 - u.c.1).abs();
            ck!(
                x < tol || y < tol,
                "label-label-overlap",
                "{:?} {:?} {:?} {:?}",
                t.text, t.c, u.text, u.c
            );
        }
    }
    // Joints against nodes.
    for a in &c.scene.arrows {
        let js = a.joints();
        for j in &js[1..js.len() - 1] {
            for m in n {
                let b = m.bbox();
                let x = (j.0 - b.0 .0).min(b.1 .0 - j.0);
                let y = (j.1 - b.0 .1).min(b.1 .1 - j.1);
                ck!(
                    x < tol || y < tol,
                    "joint-on-node",
                    "edge {} has a joint at {:?}, on {:?} {:?}",
                    a.look.width,
                    j,
                    c.g.nodes[m.idx].name,
                    b
                );
            }
            for t in &c.scene.loose {
                let (w, h) = text_size(&t.text, t.look.font);
                let x = w / 2. - (j.0 - t.c.0).abs();
                let y = h / 2. - (j.1 - t.c.1).abs();
                ck!(
                    x < tol || y < tol,
                    "joint-on-label",
                    "edge {} has a joint at {:?}, on the label {:?} at {:?}",
                    a.look.width,
                    j,
                    t.text,
                    t.c
                );
                ctx.count("joint_label_pairs", 1);
            }
            ctx.count("joints_checked", 1);
        }
    }
    Ok(())
}

// -------------------------------------------------------------------- flow

pub fn flow(ctx: &mut Ctx) -> R {
    let th = ctx.thorough();
    let mut o = Opts::usual(&mut ctx.rng, th);
    o.acyclic = true;
    let f = Flags::from_bits(*ctx.rng.pick(&[0, 0, 0, 2, 4, 6]));
    let c = make(ctx, &o, f)?;
    for e in &c.g.edges {
        if e.from == e.to {
            continue;
        }
        let (a, b) = (c.scene.nodes[e.from].bbox(), c.scene.nodes[e.to].bbox());
        let gap = if c.g.lr { b.0 .0 - a.1 .0 } else { b.0 .1 - a.1 .1 };
        ck!(
            gap > 0.,
            "against-flow",
            "{} -> {}: gap {}",
            c.g.nodes[e.from].name,
            c.g.nodes[e.to].name,
            gap
        );
        ctx.count("edge_directions_checked", 1);
    }
    for a in &c.scene.arrows {
        let (s, t) = ends(&c, a)?;
        let _ = (s, t);
        ck!(!a.head.0, "reversed", "edge {} has a head at its start", a.look.width);
    }
    Ok(())
}

// ---------------------------------------------------------------- viewport

/// The numbers of an attribute of the svg element.
fn nums(e: &xml::Elem, k: &str) -> Result<Vec<f64>, Fail> {
    let v = match e.attr(k) {
        Some(v) => v,
        None => return fail("svg-size", format!("the svg element has no {}", k)),
    };
    let mut r = Vec::new();
    for w in v.split([' ', ',']).filter(|w| !w.is_empty()) {
        match w.trim_end_matches("px").parse::<f64>() {
            Ok(x) if x.is_finite() => r.push(x),
            _ => return fail("svg-size", format!("{} is {:?}", k, v)),
        }
    }
    Ok(r)
}

/// The view box (x0, y0, x1, y1) of a document.
pub fn page_of(root: &xml::Elem) -> Result<[f64; 4], Fail> {
    let w = nums(root, "width")?;
    let h = nums(root, "height")?;
    let v = nums(root, "viewBox")?;
    ck!(
        w.len() == 1 && h.len() == 1 && v.len() == 4,
        "svg-size",
        "width {:?} height {:?} viewBox {:?}",
        w,
        h,
        v
    );
    let tol = 1e-6 * (1. + w[0].abs() + h[0].abs());
    ck!(
        (v[2] - w[0]).abs() <= tol && (v[3] - h[0]).abs() <= tol,
        "svg-size",
        "width {:?} height {:?} viewBox {:?}",
        w,
        h,
        v
    );
    Ok([v[0], v[1], v[0] + v[2], v[1] + v[3]])
}

pub fn viewport(ctx: &mut Ctx) -> R {
    let th = ctx.thorough();
    let o = Opts::usual(&mut ctx.rng, th);
    let f = Flags::from_bits(*ctx.rng.pick(&[0, 0, 0, 2, 4, 6]));
    let p = gen::program(&mut ctx.rng, &o);
    let g = RGraph::of(&p);
    let text = gen::text_of(&p, &mut ctx.rng);
    ctx.set_input(format!("// {:?}\n{}", f, text));
    let (ops, svg) = drive::both(&mut built(ctx, &text, f)?, f);
    let sc = scene::read(&ops, &g)?;
    let root = match xml::parse(&svg) {
        Ok(x) => x,
        Err(e) => return fail("svg-xml", e),
    };
    let page = page_of(&root)?;
    let tol = 1e-6 * (1. + sc.scale);
    let mut seen = 0;
    let mut inside = |what: &str, a: P2, b: P2, curve: bool| -> R {
        seen += 1;
        ck!(
            curve || a.0 >= -tol && a.1 >= -tol,
            "negative",
            "{} has negative coordinates: {:?}..{:?}",
            what,
            a,
            b
        );
        ck!(
            a.0 >= page[0] - tol
                && a.1 >= page[1] - tol
                && b.0 <= page[2] + tol
                && b.1 <= page[3] + tol,
            "off-page",
            "{} at {:?}..{:?} leaves the page {:?}",
            what,
            a,
            b,
            page
        );
        Ok(())
    };
    for n in &sc.nodes {
        let b = n.bbox();
        inside(&format!("node {:?}", g.nodes[n.idx].name), b.0, b.1, false)?;
    }
    for t in &sc.loose {
        let (w, h) = text_size(&t.text, t.look.font);
        let (a, b) = (t.c.0 - w / 2., t.c.1 - h / 2.);
        inside(&format!("label {:?}", t.text), (a, b), (a + w, b + h), false)?;
    }
    for a in &sc.arrows {
        for j in a.joints() {
            inside(&format!("edge {}", a.look.width), j, j, false)?;
        }
    }
    for a in &sc.arrows {
        for c in a.beziers() {
            for i in 1..24 {
                let t = i as f64 / 24.;
                let u = 1. - t;
                let at = |f: fn(P2) -> f64| {
                    u * u * u * f(c[0]) + 3. * u * u * t * f(c[1]) + 3. * u * t * t * f(c[2]) + t * t * t * f(c[3])
                };
                let q = (at(|p| p.0), at(|p| p.1));
                inside(&format!("the curve of edge {}", a.look.width), q, q, true)?;
            }
        }
    }
    // Whatever else the document draws is finite too.
    let mut all = Vec::new();
    root.walk(&mut all);
    for e in all {
        for (k, v) in &e.attrs {
            if matches!(
                &k[..],
                "x" | "y" | "x1" | "x2" | "y1" | "y2" | "cx" | "cy" | "rx"
                    | "ry" | "width" | "height" | "d" | "viewBox"
            ) {
                for w in v.split([' ', ',']).filter(|w| !w.is_empty()) {
                    if let Ok(x) = w.parse::<f64>() {
                        ck!(
                            x.is_finite(),
                            "non-finite",
                            "<{}> {}={:?}",
                            e.name,
                            k,
                            v
                        );
                    }
                }
            }
        }
    }
    ctx.count("extents_checked", seen);
    ctx.count("draw_calls", ops.len() as u64);
    if g.nodes.len() > 1 {
        ctx.nontrivial(hash_str(&text));
        if text.len() < 400 {
            ctx.sample(text);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- sizes

/// A node with a label of any shape.
pub fn sizes(ctx: &mut Ctx) -> R {
    let k = ctx.rng.range(1, 5);
    let lr = ctx.rng.pct(40);
    let mut body = Vec::new();
    if lr {
        body.push(S::Assign("rankdir".into(), "LR".into()));
    }
    for i in 0..k {
        let mut label = String::new();
        let lines = match ctx.rng.below(6) {
            0 if ctx.rng.pct(8) => ctx.rng.range(13, 300),
            0 => ctx.rng.range(1, 12),
            1 | 2 => ctx.rng.range(1, 4),
            _ => 1,
        };
        for l in 0..lines {
            if l > 0 {
                label.push('\n');
            }
            if l == lines - 1 {
                label.push_str(&format!("n{}t", i));
            }
            let n = match ctx.rng.below(8) {
                0 => 0,
                1 if ctx.rng.pct(3) => ctx.rng.range(250, 1200),
                1 => ctx.rng.range(20, 200),
                _ => ctx.rng.range(0, 20),
            };
            for _ in 0..n {
                label.push(*ctx.rng.pick(&['a', 'W', ' ', 'é', '日', '𝄞', '&', '"']));
            }
        }
        let mut a: Attrs = vec![
            ("label".into(), label),
            (
                "shape".into(),
                ctx.rng
                    .pick::<&str>(&["box", "circle", "doublecircle", "oval"])
                    .to_string(),
            ),
        ];
        if ctx.rng.pct(70) {
            let f = match ctx.rng.below(5) {
                0 => ctx.rng.range(1, 5),
                1 if ctx.rng.pct(10) => ctx.rng.range(5000, 1_000_000),
                1 => ctx.rng.range(100, 5000),
                _ => ctx.rng.range(5, 60),
            };
            a.push(("fontsize".into(), f.to_string()));
        }
        body.push(S::Node((format!("v{}", i), None), a));
    }
    for _ in 0..ctx.rng.below(k + 1) {
        let (x, y) = (ctx.rng.below(k), ctx.rng.below(k));
        body.push(S::Edge(
            (format!("v{}", x), None),
            vec![((format!("v{}", y), None), true)],
            Vec::new(),
        ));
    }
    let p = Prog {
        strict: false,
        digraph: true,
        name: None,
        body,
    };
    let g = RGraph::of(&p);
    let text = gen::text_of(&p, &mut ctx.rng);
    ctx.set_input(text.clone());
    let f = Flags::from_bits(*ctx.rng.pick(&[0, 2, 4, 6]));
    let ops = match drive::ops_of(&text, f) {
        Ok(x) => x,
        Err(e) => return fail("rejected", e),
    };
    let sc = scene::read(&ops, &g)?;
    for n in &sc.nodes {
        let v = node_view(&g.nodes[n.idx]);
        let (w, h) = text_size(&v.label, v.font);
        let tol = 1e-9 * (1. + w + h);
        ck!(
            n.size.0 >= w - tol && n.size.1 >= h - tol,
            "too-small",
            "the text {:?} needs {}x{}, the {:?} is {:?}",
            v.label,
            w,
            h,
            n.kind,
            n.size
        );
        if n.kind == ShapeK::Double {
            let inner = n.cells[0].size;
            ck!(
                (n.size.0 - n.size.1).abs() <= tol
                    && (inner.0 - inner.1).abs() <= tol,
                "not-round",
                "a double circle of {:?} around {:?}",
                n.size,
                inner
            );
            ck!(
                inner.0 >= w - tol && inner.1 >= h - tol,
                "inner-ring",
                "the text {:?} needs {}x{}, the inner ring is {:?}",
                v.label,
                w,
                h,
                inner
            );
        }
        ctx.count("shape_sizes_checked", 1);
    }
    ctx.nontrivial(hash_str(&text));
    if text.len() < 300 {
        ctx.sample(text);
    }
    Ok(())
}
