//! Records: the cells, and the ends of the edges that name them.

use super::picture::{make, text_size, Case};
use vh::ck;
use vh::ctx::*;
use vh::drive::{self, Flags};
use vh::gen::{self, Opts, Rec};
use vh::prog::*;
use vh::rec::P2;
use vh::rng::hash_str;
use vh::scene::{self, outline_dist, SNode, Scene, Shape};

/// x0, y0, x1, y1
type Box4 = [f64; 4];

fn box_of(s: &Shape) -> Box4 {
    [
        s.center.0 - s.size.0 / 2.,
        s.center.1 - s.size.1 / 2.,
        s.center.0 + s.size.0 / 2.,
        s.center.1 + s.size.1 / 2.,
    ]
}

fn same(a: Box4, b: Box4, tol: f64) -> bool {
    (0..4).all(|i| (a[i] - b[i]).abs() <= tol)
}

/// The innermost rectangle of the record around `p`.
fn cell_at(n: &SNode, p: P2) -> Shape {
    let mut best = n.outline.clone().unwrap();
    for s in &n.cells {
        let b = box_of(s);
        if p.0 > b[0]
            && p.0 < b[2]
            && p.1 > b[1]
            && p.1 < b[3]
            && s.size.0 * s.size.1 < best.size.0 * best.size.1
        {
            best = s.clone();
        }
    }
    best
}

/// The place of each leaf of the record, in the order of the label. `None`
/// when the places of the empty ones are unknown.
fn leaf_places(n: &SNode) -> Option<Vec<P2>> {
    let mut leaves = Vec::new();
    n.rec.as_ref().unwrap().leaves(&mut leaves);
    let empties: Vec<&(P2, String)> =
        n.texts.iter().filter(|t| t.1.is_empty()).collect();
    if leaves.iter().filter(|l| l.0.is_empty()).count() != empties.len()
        || empties.len() > 1
    {
        return None;
    }
    let mut v = Vec::new();
    for l in &leaves {
        v.push(n.texts.iter().find(|t| t.1 == l.0)?.0);
    }
    Some(v)
}

struct Walk<'a> {
    n: &'a SNode,
    font: usize,
    places: Vec<P2>,
    next: usize,
    tol: f64,
    regions: Vec<Box4>,
}

impl Walk<'_> {
    /// The region that the leaves of `r` cover; checks the tiling below.
    fn visit(&mut self, r: &Rec, horizontal: bool) -> Result<Box4, Fail> {
        match r {
            Rec::Leaf(text, _) => {
                let p = self.places[self.next];
                self.next += 1;
                let c = cell_at(self.n, p);
                ck!(
                    (c.center.0 - p.0).abs() <= self.tol
                        && (c.center.1 - p.1).abs() <= self.tol,
                    "cell-text",
                    "the text {:?} at {:?} is not in the middle of its cell {:?}",
                    text,
                    p,
                    box_of(&c)
                );
                let (w, h) = text_size(text, self.font);
                ck!(
                    c.size.0 >= w - self.tol && c.size.1 >= h - self.tol,
                    "cell-small",
                    "the text {:?} needs {}x{}, its cell is {:?}",
                    text,
                    w,
                    h,
                    c.size
                );
                let b = box_of(&c);
                self.regions.push(b);
                Ok(b)
            }
            Rec::Row(v) => {
                let mut parts = Vec::new();
                for x in v {
                    parts.push(self.visit(x, !horizontal)?);
                }
                let (a, b) = if horizontal { (0, 2) } else { (1, 3) };
                let (c, d) = if horizontal { (1, 3) } else { (0, 2) };
                for w in parts.windows(2) {
                    ck!(
                        (w[0][b] - w[1][a]).abs() <= self.tol
                            && (w[0][c] - w[1][c]).abs() <= self.tol
                            && (w[0][d] - w[1][d]).abs() <= self.tol,
                        "cell-tiling",
                        "{} cells {:?} and {:?}",
                        if horizontal { "side by side" } else { "stacked" },
                        w[0],
                        w[1]
                    );
                }
                let mut whole = parts[0];
                whole[b] = parts[parts.len() - 1][b];
                self.regions.push(whole);
                Ok(whole)
            }
        }
    }
}

fn check_record(ctx: &mut Ctx, sc: &Scene, g: &RGraph, n: &SNode) -> R {
    let v = node_view(&g.nodes[n.idx]);
    let out = n.outline.as_ref().unwrap();
    let tol = sc.tol();
    ck!(
        (out.look.rounded > 0) == (v.shape == ShapeK::MRecord),
        "record-corners",
        "a {:?} with the corner radius {}",
        v.shape,
        out.look.rounded
    );
    for c in &n.cells {
        ck!(
            c.look.stroke == v.stroke,
            "cell-stroke",
            "cell {:?} of a record with the colour {}",
            c,
            v.stroke
        );
        if let Some(f) = &c.look.fill {
            ck!(*f == v.fill, "cell-fill", "cell {:?} instead of {}", c, v.fill);
        }
        if v.shape == ShapeK::MRecord {
            // Rounded corners cut the inner boxes.
            let clip = c.clip.and_then(|h| sc.clips.iter().find(|k| k.3 == h));
            let at_corner = {
                let (a, b) = (box_of(c), box_of(out));
                ((a[0] - b[0]).abs() <= tol || (a[2] - b[2]).abs() <= tol)
                    && ((a[1] - b[1]).abs() <= tol || (a[3] - b[3]).abs() <= tol)
            };
            match clip {
                None => ck!(!at_corner, "record-clip", "cell {:?} is not clipped", c),
                Some(k) => {
                    let b = [k.0 .0, k.0 .1, k.0 .0 + k.1 .0, k.0 .1 + k.1 .1];
                    ck!(
                        same(b, box_of(out), tol) && k.2 == out.look.rounded,
                        "record-clip",
                        "clipped to {:?} (radius {}), the outline is {:?} ({})",
                        b,
                        k.2,
                        box_of(out),
                        out.look.rounded
                    );
                }
            }
        } else {
            ck!(c.clip.is_none(), "record-clip", "cell {:?} is clipped", c);
        }
    }
    // Some box shows the fill.
    ck!(
        std::iter::once(out)
            .chain(&n.cells)
            .any(|c| c.look.fill.as_deref() == Some(&v.fill[..])
                && same(box_of(c), box_of(out), tol))
            || n.cells.iter().all(|c| c.look.fill.is_some()),
        "cell-fill",
        "the record is not filled with {}",
        v.fill
    );
    ctx.count("records", 1);
    let places = match leaf_places(n) {
        Some(p) => p,
        None => {
            ctx.count("records_with_several_empty_fields", 1);
            return Ok(());
        }
    };
    let rec = n.rec.as_ref().unwrap();
    let mut w = Walk {
        n,
        font: v.font,
        places,
        next: 0,
        tol,
        regions: Vec::new(),
    };
    let all = w.visit(rec, !g.lr)?;
    ck!(
        same(all, box_of(out), tol),
        "cell-tiling",
        "the cells cover {:?}, the outline is {:?}",
        all,
        box_of(out)
    );
    for c in &n.cells {
        ck!(
            w.regions.iter().any(|r| same(*r, box_of(c), tol)),
            "stray-cell",
            "the box {:?} is no field or row of the record",
            box_of(c)
        );
    }
    ctx.count("record_fields", w.next as u64);
    ctx.max("record_depth", rec.depth() as u64);
    Ok(())
}

pub fn records(ctx: &mut Ctx) -> R {
    let k = ctx.rng.range(1, 3);
    let mut body = Vec::new();
    let lr = ctx.rng.pct(50);
    if lr {
        body.push(S::Assign("rankdir".into(), "LR".into()));
    }
    for i in 0..k {
        let d = if ctx.rng.pct(4) {
            ctx.rng.range(6, 60)
        } else {
            ctx.rng.below(6)
        };
        let tag = format!("n{}t", i);
        let mut label = gen::record_label(&mut ctx.rng, &tag, d);
        for _ in 0..20 {
            if label.len() < 600 || label.len() < 8000 && ctx.rng.pct(50) {
                break;
            }
            label = gen::record_label(&mut ctx.rng, &tag, 3);
        }
        let mut a: Attrs = vec![
            ("label".into(), label),
            (
                "shape".into(),
                ctx.rng.pick::<&str>(&["record", "Mrecord"]).to_string(),
            ),
        ];
        if ctx.rng.pct(40) {
            a.push(("fontsize".into(), ctx.rng.range(1, 80).to_string()));
        }
        if ctx.rng.pct(40) {
            a.push(("color".into(), gen::color_text(&mut ctx.rng)));
        }
        if ctx.rng.pct(40) {
            a.push(("fillcolor".into(), gen::color_text(&mut ctx.rng)));
        }
        if ctx.rng.pct(20) {
            a.push(("style".into(), "filled".into()));
        }
        body.push(S::Node((format!("v{}", i), None), a));
    }
    for _ in 0..ctx.rng.below(k + 1) {
        let (x, y) = (ctx.rng.below(k), ctx.rng.below(k));
        body.push(S::Edge(
            (format!("v{}", x), None),
            vec![((format!("v{}", y), None), true)],
            Vec::new(),
        ));
    }
    let p = Prog {
        strict: false,
        digraph: true,
        name: None,
        body,
    };
    let g = RGraph::of(&p);
    let text = gen::text_of(&p, &mut ctx.rng);
    let f = Flags::from_bits(*ctx.rng.pick(&[0, 0, 2, 4, 6]));
    ctx.set_input(format!("// {:?}\n{}", f, text));
    let ops = match drive::ops_of(&text, f) {
        Ok(x) => x,
        Err(e) => return fail("rejected", e),
    };
    let sc = scene::read(&ops, &g)?;
    for n in &sc.nodes {
        check_record(ctx, &sc, &g, n)?;
    }
    ctx.nontrivial(hash_str(&text));
    if text.len() < 300 {
        ctx.sample(text);
    }
    Ok(())
}

// ------------------------------------------------------------- attachment

/// The boxes that an end with this port may attach to, or the outline (None).
fn target_cells(n: &SNode, port: &Option<String>) -> Option<Vec<Shape>> {
    let (rec, port) = match (&n.rec, port) {
        (Some(r), Some(p)) => (r, p),
        _ => return None,
    };
    let mut leaves = Vec::new();
    rec.leaves(&mut leaves);
    let hits: Vec<_> =
        leaves.iter().filter(|l| l.1 == Some(&port[..])).collect();
    if hits.is_empty() {
        return None;
    }
    let mut v = Vec::new();
    for h in hits {
        // Empty fields are known by their place only.
        for t in n.texts.iter().filter(|t| t.1 == h.0) {
            v.push(cell_at(n, t.0));
        }
    }
    Some(v)
}

/// How far is `p` from where an end with `port` must be?
fn miss(n: &SNode, port: &Option<String>, p: P2) -> f64 {
    match target_cells(n, port) {
        None => n.outline_dist(p),
        Some(v) => v
            .iter()
            .map(|c| outline_dist(c.center, c.size, false, p))
            .fold(f64::INFINITY, f64::min),
    }
}

/// Is `p` on the side of the shape away from `next`?
fn far_side(n: &SNode, p: P2, next: P2, tol: f64) -> bool {
    let (c, s) = (n.center, n.size);
    let d = (p.0 - c.0) * (next.0 - c.0) + (p.1 - c.1) * (next.1 - c.1);
    d < -tol * (s.0 + s.1)
}

pub fn judge_ends(ctx: &mut Ctx, c: &Case) -> R {
    let tol = 1e-6 * (1. + c.scene.scale);
    for a in &c.scene.arrows {
        let s = a.path[0].0;
        let e = a.path[a.path.len() - 1].1;
        let j = a.joints();
        let mut best = f64::INFINITY;
        let mut why = String::new();
        for x in c.g.edges.iter().filter(|x| edge_view(x).width == a.look.width) {
            let fwd = a.head == (false, x.directed);
            let bwd = a.head == (x.directed, false);
            for (ok, from, to, fp, tp) in [
                (fwd, x.from, x.to, &x.fport, &x.tport),
                (bwd, x.to, x.from, &x.tport, &x.fport),
            ] {
                if !ok {
                    continue;
                }
                let (n, m) = (&c.scene.nodes[from], &c.scene.nodes[to]);
                let mut d = miss(n, fp, s).max(miss(m, tp, e));
                let what = format!(
                    "{} (port {:?}) -> {} (port {:?}): off by {}",
                    c.g.nodes[from].name, fp, c.g.nodes[to].name, tp, d
                );
                // Without ports, the ends face each other.
                if d <= tol
                    && from != to
                    && target_cells(n, fp).is_none()
                    && target_cells(m, tp).is_none()
                    && (far_side(n, s, j[1], tol)
                        || far_side(m, e, j[j.len() - 2], tol))
                {
                    d = 1e9;
                }
                if d < best {
                    best = d;
                    why = what;
                }
            }
        }
        ck!(
            best <= tol,
            if best == 1e9 { "far-side" } else { "edge-end" },
            "edge {} from {:?} to {:?}: {}",
            a.look.width,
            s,
            e,
            why
        );
        ctx.count("edge_ends_checked", 2);
    }
    let named = |n: usize, p: &Option<String>| {
        target_cells(&c.scene.nodes[n], p).is_some() as u64
    };
    for e in &c.g.edges {
        ctx.count(
            "ends_at_a_port",
            named(e.from, &e.fport) + named(e.to, &e.tport),
        );
    }
    Ok(())
}

pub fn attach(ctx: &mut Ctx) -> R {
    let th = ctx.thorough();
    let mut o = Opts::usual(&mut ctx.rng, th);
    if ctx.rng.pct(50) {
        o.records = true;
    }
    let f = Flags::from_bits(*ctx.rng.pick(&[0, 0, 0, 2, 4, 6]));
    let c = make(ctx, &o, f)?;
    judge_ends(ctx, &c)
}
