//! What lowering makes of a graph, and where the rows are placed.

use super::{arrow, describe, element, node, Ed, N};
use layout::adt::dag::NodeHandle;
use layout::core::base::Orientation;
use layout::core::format::Visible;
use layout::std_shapes::shapes::*;
use layout::topo::layout::VisualGraph;
use std::collections::BTreeMap;
use vh::ck;
use vh::ctx::*;
use vh::drive::{self, Flags};
use vh::gen::{self, Opts};
use vh::rec::{Op, P2};
use vh::rng::{hash_str, Rng};
use vh::xml;

struct G {
    ns: Vec<N>,
    es: Vec<Ed>,
    lr: bool,
    vg: VisualGraph,
    hs: Vec<NodeHandle>,
}

fn graph(rng: &mut Rng, thorough: bool) -> G {
    let size = gen::small_size(rng, thorough);
    let acyclic = rng.pct(40);
    let mut topo = gen::topology(rng, size, acyclic);
    if rng.pct(30) {
        for _ in 0..rng.range(1, 3) {
            let a = rng.below(topo.n);
            let at = rng.below(topo.edges.len() + 1);
            topo.edges.insert(at, (a, a));
        }
    }
    let ns: Vec<N> = (0..topo.n).map(|i| node(rng, i)).collect();
    // Each label is a node more, and the rows of a huge graph are dear.
    let labels = if topo.edges.len() > 250 {
        0
    } else {
        *rng.pick(&[0, 20, 50, 100])
    };
    let es: Vec<Ed> = topo
        .edges
        .iter()
        .enumerate()
        .map(|(i, e)| {
            let mut arrow = super::arrow(rng, i, &ns[e.0], &ns[e.1]);
            arrow.text = if rng.pct(labels) {
                match rng.below(8) {
                    // Nothing to see, but a label.
                    0 => " ".repeat(i + 1),
                    1 => format!("e{}L\nw", i),
                    _ => format!("e{}L", i),
                }
            } else {
                String::new()
            };
            Ed {
                from: e.0,
                to: e.1,
                arrow,
            }
        })
        .collect();
    assemble(ns, es, rng.pct(40))
}

fn assemble(ns: Vec<N>, es: Vec<Ed>, lr: bool) -> G {
    let mut vg = VisualGraph::new(if lr {
        Orientation::LeftToRight
    } else {
        Orientation::TopToBottom
    });
    let hs: Vec<NodeHandle> = ns.iter().map(|n| vg.add_node(element(n))).collect();
    for e in &es {
        vg.add_edge(e.arrow.clone(), hs[e.from], hs[e.to]);
    }
    G { ns, es, lr, vg, hs }
}

/// All edges of the ranked graph, by node index.
fn dag_edges(vg: &VisualGraph) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    for n in vg.iter_nodes() {
        for s in vg.succ(n) {
            v.push((n.get_index(), s.get_index()));
        }
    }
    v
}

fn reaches(n: usize, edges: &[(usize, usize)], from: usize, to: usize) -> bool {
    let mut succ = vec![Vec::new(); n];
    for e in edges {
        succ[e.0].push(e.1);
    }
    let mut seen = vec![false; n];
    let mut work = vec![from];
    while let Some(x) = work.pop() {
        if x == to {
            return true;
        }
        if !std::mem::replace(&mut seen[x], true) {
            work.extend(&succ[x]);
        }
    }
    false
}

fn label_of(vg: &VisualGraph, h: NodeHandle) -> Option<String> {
    match &vg.element(h).shape {
        ShapeKind::Connector(Some(t)) if !t.is_empty() => Some(t.clone()),
        _ => None,
    }
}

/// The edges between different nodes, in the direction of the ranked graph,
/// each with its label.
type Want = Vec<(usize, usize, String)>;

/// After the first step: which way does each edge go?
fn oriented(g: &G) -> Result<Want, Fail> {
    let n = g.ns.len();
    ck!(g.vg.num_nodes() == n, "node-count", "{} nodes", g.vg.num_nodes());
    let de = dag_edges(&g.vg);
    ck!(gen::is_acyclic(n, &de) && de.iter().all(|e| e.0 != e.1), "cycle", "the graph has a cycle: {:?}", de);
    let mut count: BTreeMap<(usize, usize), i64> = BTreeMap::new();
    for e in &de {
        *count.entry((e.0.min(e.1), e.0.max(e.1))).or_insert(0) += 1;
    }
    for e in g.es.iter().filter(|e| e.from != e.to) {
        *count.entry((e.from.min(e.to), e.from.max(e.to))).or_insert(0) -= 1;
    }
    if let Some((k, c)) = count.iter().find(|x| *x.1 != 0) {
        return fail(
            "edges-changed",
            format!("{:+} edges between {:?} after the cycles are gone", c, k),
        );
    }
    let mut want = Vec::new();
    for e in g.es.iter().filter(|e| e.from != e.to) {
        let text = e.arrow.text.clone();
        if de.contains(&(e.from, e.to)) {
            want.push((e.from, e.to, text));
            continue;
        }
        // Turned around: only to break a cycle.
        let others: Vec<(usize, usize)> =
            de.iter().copied().filter(|x| *x != (e.to, e.from)).collect();
        let twin = g.es.iter().any(|x| (x.from, x.to) == (e.to, e.from));
        ck!(
            twin || reaches(n, &others, e.to, e.from),
            "needless-turn",
            "the edge {} -> {} is turned around, but it closes no cycle",
            e.from,
            e.to
        );
        want.push((e.to, e.from, text));
    }
    Ok(want)
}

/// After the second step every labelled edge goes through a node of its own.
fn labelled(g: &G, want: &Want) -> R {
    let n = g.ns.len();
    let labels = want.iter().filter(|w| !w.2.is_empty()).count();
    ck!(
        g.vg.num_nodes() == n + labels,
        "label-count",
        "{} nodes for {} nodes and {} labels",
        g.vg.num_nodes(),
        n,
        labels
    );
    let got = chains(g, true)?;
    same_edges(&got, want)
}

/// Follow every edge from one node to the next through the connectors.
fn chains(g: &G, levels: bool) -> Result<Want, Fail> {
    let n = g.ns.len();
    let vg = &g.vg;
    let all: Vec<NodeHandle> = vg.iter_nodes().collect();
    let mut used = vec![0usize; all.len()];
    for (i, h) in all.iter().enumerate() {
        ck!(
            vg.is_connector(*h) == (i >= n),
            "kind",
            "node {} of {} is a connector: {}",
            i,
            n,
            vg.is_connector(*h)
        );
        if i >= n {
            let (p, s) = (vg.preds(*h).len(), vg.succ(*h).len());
            ck!(
                (p, s) == (1, 1) || (p, s) == (0, 0),
                "connector-degree",
                "a connector has {} edges in and {} out",
                p,
                s
            );
        }
    }
    let mut got = Vec::new();
    for u in &all[..n] {
        for s in vg.succ(*u) {
            let mut at = *s;
            let mut text = String::new();
            while at.get_index() >= n {
                used[at.get_index()] += 1;
                ck!(
                    used[at.get_index()] == 1,
                    "connector-shared",
                    "two edges pass one connector"
                );
                if let Some(t) = label_of(vg, at) {
                    ck!(text.is_empty(), "two-labels", "{:?} and {:?} on one edge", text, t);
                    text = t;
                }
                at = vg.succ(at)[0];
            }
            got.push((u.get_index(), at.get_index(), text));
        }
    }
    if levels {
        for (i, k) in used.iter().enumerate().skip(n) {
            let lone = vg.preds(all[i]).is_empty();
            ck!(*k == 1 || lone, "stray-connector", "a connector that no edge passes");
        }
    }
    Ok(got)
}

fn same_edges(got: &Want, want: &Want) -> R {
    let (mut a, mut b) = (got.clone(), want.clone());
    a.sort();
    b.sort();
    ck!(
        a == b,
        "edges-changed",
        "the edges are {:?} instead of {:?}",
        a.iter().filter(|x| !b.contains(x)).take(4).collect::<Vec<_>>(),
        b.iter().filter(|x| !a.contains(x)).take(4).collect::<Vec<_>>()
    );
    Ok(())
}

/// After the last step edges join adjacent rows, and the self loops have
/// connectors beside their nodes.
fn unit_edges(g: &G, want: &Want, ctx: &mut Ctx) -> R {
    let vg = &g.vg;
    let n = g.ns.len();
    let mut level = vec![usize::MAX; vg.num_nodes()];
    for l in 0..vg.dag.num_levels() {
        for h in vg.dag.row(l) {
            ck!(
                level[h.get_index()] == usize::MAX,
                "row-twice",
                "a node is in rows {} and {}",
                level[h.get_index()],
                l
            );
            level[h.get_index()] = l;
        }
    }
    ck!(!level.contains(&usize::MAX), "no-row", "a node is in no row");
    for (a, b) in dag_edges(vg) {
        ck!(
            level[a] + 1 == level[b],
            "long-edge",
            "an edge leads from row {} to row {}",
            level[a],
            level[b]
        );
    }
    same_edges(&chains(g, true)?, want)?;
    // Self loops.
    let mut loops: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    for e in g.es.iter().filter(|e| e.from == e.to) {
        loops.entry(e.from).or_default().push(e.arrow.text.clone());
    }
    let mut lone = 0;
    for h in vg.iter_nodes().skip(n) {
        lone += vg.preds(h).is_empty() as usize;
    }
    ck!(
        lone == loops.values().map(|v| v.len()).sum::<usize>(),
        "loop-count",
        "{} connectors for the self loops {:?}",
        lone,
        loops
    );
    for (k, texts) in &loops {
        let row = vg.dag.row(level[*k]);
        let at = row.iter().position(|h| h.get_index() == *k).unwrap();
        // The connectors next to the node.
        let mut near = Vec::new();
        let is_lone = |h: &NodeHandle| h.get_index() >= n && vg.preds(*h).is_empty();
        for h in row[..at].iter().rev().take_while(|h| is_lone(h)) {
            near.push(label_of(vg, *h).unwrap_or_default());
        }
        for t in texts {
            let i = near.iter().position(|x| x == t);
            ck!(
                i.is_some(),
                "loop-place",
                "the self loop {:?} of node {} is not before its node",
                t,
                k
            );
            near.remove(i.unwrap());
        }
        ctx.count("self_loops", texts.len() as u64);
    }
    ctx.count("edges_followed", want.len() as u64);
    ctx.count("connectors", (vg.num_nodes() - n) as u64);
    ctx.max("rows", vg.dag.num_levels() as u64);
    Ok(())
}

pub fn lowered(ctx: &mut Ctx) -> R {
    let mut rng = ctx.rng.clone();
    let th = ctx.thorough();
    let mut g = graph(&mut rng, th);
    let f = Flags::from_bits(*rng.pick(&[0, 0, 2, 4, 6]));
    ctx.set_input(describe(g.lr, f, &g.ns, &g.es));
    g.vg.to_valid_dag();
    let want = oriented(&g)?;
    g.vg.split_text_edges();
    labelled(&g, &want)?;
    g.vg.split_long_edges(f.no_opt);
    unit_edges(&g, &want, ctx)?;
    if !g.ns.is_empty() {
        // The same in one go. (The edges turn the same way again.)
        let mut vg = VisualGraph::new(g.vg.orientation());
        let hs: Vec<NodeHandle> = g.ns.iter().map(|n| vg.add_node(element(n))).collect();
        for e in &g.es {
            vg.add_edge(e.arrow.clone(), hs[e.from], hs[e.to]);
        }
        g.vg = vg;
        let _ = drive::record(&mut g.vg, f);
        unit_edges(&g, &want, ctx)?;
    }
    ctx.count("graphs", 1);
    if g.es.len() > 1 {
        ctx.nontrivial(hash_str(ctx.input()));
        if g.ns.len() < 4 {
            let s = ctx.input().to_string();
            ctx.sample(s);
        }
    }
    Ok(())
}

// ----------------------------------------------------------------------- rows

/// A graph from a program or built through the API.
fn any_graph(ctx: &mut Ctx, rng: &mut Rng, f: Flags) -> Result<VisualGraph, Fail> {
    let th = ctx.thorough();
    if rng.pct(50) {
        let o = Opts::usual(rng, th);
        let p = gen::program(rng, &o);
        let text = gen::text_of(&p, rng);
        ctx.set_input(format!("// {:?}\n{}", f, text));
        match drive::parse(&text) {
            Ok(g) => Ok(drive::build(&g)),
            Err(e) => fail("rejected", e),
        }
    } else {
        let g = graph(rng, th);
        ctx.set_input(describe(g.lr, f, &g.ns, &g.es));
        Ok(g.vg)
    }
}

/// Nodes in single file: each has edges to the next one only.
fn file(ctx: &mut Ctx, rng: &mut Rng, f: Flags) -> VisualGraph {
    let th = ctx.thorough();
    let mut g = graph(rng, th);
    g.es.clear();
    g.ns.truncate(rng.range(2, 14));
    let o = if g.lr { Orientation::LeftToRight } else { Orientation::TopToBottom };
    let mut vg = VisualGraph::new(o);
    let back = rng.pct(20);
    for i in 1..g.ns.len() {
        let times = if rng.pct(15) { 2 } else { 1 };
        for k in 0..times {
            let (a, b) = if back || k == 1 && rng.pct(50) { (i, i - 1) } else { (i - 1, i) };
            let mut e = arrow(rng, g.es.len(), &g.ns[a], &g.ns[b]);
            if times == 2 {
                e.text = String::new();
            }
            g.es.push(Ed { from: a, to: b, arrow: e });
        }
    }
    let hs: Vec<NodeHandle> = g.ns.iter().map(|n| vg.add_node(element(n))).collect();
    for e in &g.es {
        vg.add_edge(e.arrow.clone(), hs[e.from], hs[e.to]);
    }
    ctx.set_input(describe(g.lr, f, &g.ns, &g.es));
    vg
}

pub fn rows(ctx: &mut Ctx) -> R {
    let mut rng = ctx.rng.clone();
    let f = Flags::from_bits(*rng.pick(&[0, 0, 0, 2, 4, 6]));
    let mut vg = if rng.pct(10) { file(ctx, &mut rng, f) } else { any_graph(ctx, &mut rng, f)? };
    let n = vg.num_nodes();
    if n == 0 {
        return Ok(());
    }
    let _ = drive::record(&mut vg, f);
    let lr = vg.orientation().is_left_right();
    // Boxes as if the drawing went from top to bottom.
    let boxes = |h: NodeHandle, halo: bool| {
        let (a, b) = vg.pos(h).bbox(halo);
        if lr {
            ((a.y, a.x), (b.y, b.x))
        } else {
            ((a.x, a.y), (b.x, b.y))
        }
    };
    let mut scale = 1f64;
    let mut left = f64::INFINITY;
    for h in vg.iter_nodes() {
        let b = boxes(h, true);
        for v in [b.0 .0, b.0 .1, b.1 .0, b.1 .1] {
            ck!(v.is_finite(), "finite", "a coordinate is {}", v);
            scale = scale.max(v.abs());
        }
        left = left.min(b.0 .0);
    }
    let tol = 1e-8 * scale + 1e-6;
    ck!(
        left >= -tol && left <= 0.01 + tol,
        "margin",
        "the drawing begins at {} across its direction",
        left
    );
    let mut above = f64::NEG_INFINITY;
    let mut seen = 0;
    for l in 0..vg.dag.num_levels() {
        let row = vg.dag.row(l);
        let mut last: Option<((f64, f64), (f64, f64))> = None;
        let mut mid: Option<f64> = None;
        let mut low = above;
        for h in row {
            seen += 1;
            let b = boxes(*h, false);
            if let Some(p) = last {
                ck!(
                    p.1 .0 <= b.0 .0 + tol,
                    "row-order",
                    "row {}: {:?} comes before {:?}",
                    l,
                    p,
                    b
                );
                ctx.count("neighbours", 1);
            }
            last = Some(b);
            if h.get_index() >= n {
                continue;
            }
            let m = (b.0 .1 + b.1 .1) / 2.;
            if let Some(x) = mid {
                ck!(
                    (x - m).abs() <= tol,
                    "row-line",
                    "row {}: nodes are centred at {} and at {}",
                    l,
                    x,
                    m
                );
                ctx.count("nodes_on_a_line", 1);
            }
            mid = Some(m);
            ck!(
                b.0 .1 >= above - tol,
                "rows-overlap",
                "a node of row {} begins at {}, one above it ends at {}",
                l,
                b.0 .1,
                above
            );
            low = low.max(b.1 .1);
        }
        above = low;
    }
    // A drawing in single file is straight.
    let single = (0..vg.dag.num_levels()).all(|l| vg.dag.row(l).len() == 1);
    if single && !f.no_layout {
        let at = |h: NodeHandle| {
            let c = vg.pos(h).center();
            if lr {
                c.y
            } else {
                c.x
            }
        };
        let first = at(NodeHandle::from(0));
        for h in vg.iter_nodes() {
            ck!(
                (at(h) - first).abs() <= tol,
                "single-file",
                "one element in each row, at {} and at {}",
                first,
                at(h)
            );
        }
        ctx.count("single_files", 1);
    }
    ck!(seen == vg.num_nodes(), "rows-miss", "{} of {} nodes are in rows", seen, vg.num_nodes());
    ctx.count("rows", vg.dag.num_levels() as u64);
    ctx.count("elements", vg.num_nodes() as u64);
    if n > 1 {
        ctx.nontrivial(hash_str(ctx.input()));
        if n < 4 {
            let s = ctx.input().to_string();
            ctx.sample(s);
        }
    }
    Ok(())
}

// ----------------------------------------------------------------------- room

/// How far the page may go on after the last thing that is drawn.
const MARGIN: f64 = 10.;

/// The upper left (at most zero) and the lower right end of what is drawn.
fn drawn(ops: &[Op]) -> (P2, P2) {
    let (mut start, mut end) = ((0f64, 0f64), (0f64, 0f64));
    let mut see = |p: P2| {
        start = (start.0.min(p.0), start.1.min(p.1));
        end = (end.0.max(p.0), end.1.max(p.1));
    };
    for op in ops {
        match op {
            Op::Rect { xy, size, .. } => {
                see(*xy);
                see((xy.0 + size.0, xy.1 + size.1));
            }
            Op::Circle { c, size, .. } => {
                see((c.0 - size.0 / 2., c.1 - size.1 / 2.));
                see((c.0 + size.0 / 2., c.1 + size.1 / 2.));
            }
            Op::Line { a, b, .. } => {
                see(*a);
                see(*b);
            }
            Op::Text { c, text, look } => {
                let wide = text.lines().map(|l| l.chars().count()).max().unwrap_or(0);
                let high = text.lines().count().max(1);
                let f = look.font as f64;
                let half = (wide as f64 * f / 2., high as f64 * f / 2.);
                see((c.0 - half.0, c.1 - half.1));
                see((c.0 + half.0, c.1 + half.1));
            }
            Op::Arrow { path, .. } => {
                for (i, s) in path.iter().enumerate() {
                    see(s.0);
                    see(s.1);
                    if i > 0 && i + 1 < path.len() {
                        see((2. * s.1 .0 - s.0 .0, 2. * s.1 .1 - s.0 .1));
                    }
                }
            }
            Op::Clip { .. } => {}
        }
    }
    (start, end)
}

pub fn room(ctx: &mut Ctx) -> R {
    let mut rng = ctx.rng.clone();
    let f = Flags::from_bits(*rng.pick(&[0, 0, 0, 2, 4, 6]));
    let mut vg = any_graph(ctx, &mut rng, f)?;
    let n = vg.num_nodes();
    if n == 0 {
        return Ok(());
    }
    let (ops, doc) = drive::both(&mut vg, f);
    let lr = vg.orientation().is_left_right();
    let boxes = |h: NodeHandle, halo: bool| {
        let (a, b) = vg.pos(h).bbox(halo);
        if lr {
            ((a.y, a.x), (b.y, b.x))
        } else {
            ((a.x, a.y), (b.x, b.y))
        }
    };
    // Across the direction of the drawing all elements side by side, along it
    // the rows one after the other, are enough.
    let (mut wide, mut high) = (0., 0.);
    let (mut left, mut right) = (f64::INFINITY, f64::NEG_INFINITY);
    let (mut top, mut bottom) = (f64::INFINITY, f64::NEG_INFINITY);
    for l in 0..vg.dag.num_levels() {
        let mut tall = 0f64;
        for h in vg.dag.row(l) {
            let b = boxes(*h, true);
            wide += b.1 .0 - b.0 .0;
            tall = tall.max(b.1 .1 - b.0 .1);
            left = left.min(b.0 .0);
            right = right.max(b.1 .0);
            if h.get_index() < n {
                top = top.min(b.0 .1);
                bottom = bottom.max(b.1 .1);
            }
        }
        high += tall;
    }
    let tol = 0.01 * (vg.num_nodes() + 1) as f64 + 1e-8 * (right.abs() + bottom.abs());
    ck!(
        right - left <= wide + tol,
        "too-wide",
        "the drawing takes {} across its direction, all its elements side by side {}",
        right - left,
        wide
    );
    ck!(
        top >= -tol && bottom <= high + tol,
        "too-high",
        "the nodes stand from {} to {} along the direction, the rows take {}",
        top,
        bottom,
        high
    );
    // The page.
    let root = match xml::parse(&doc) {
        Ok(r) => r,
        Err(e) => return fail("not-xml", e),
    };
    let view: Vec<f64> = root
        .attr("viewBox")
        .unwrap_or_default()
        .split_whitespace()
        .filter_map(|x| x.parse().ok())
        .collect();
    ck!(view.len() == 4, "view-box", "{:?}", root.attr("viewBox"));
    let (start, end) = drawn(&ops);
    let page = (view[0] + view[2], view[1] + view[3]);
    ck!(
        page.0 <= end.0 + MARGIN + tol && page.1 <= end.1 + MARGIN + tol,
        "empty-page",
        "the page ends at {:?}, what is drawn on it at {:?}",
        page,
        end
    );
    ck!(
        view[0] >= start.0 - MARGIN - tol && view[1] >= start.1 - MARGIN - tol,
        "empty-page",
        "the page starts at {:?}, what is drawn on it at {:?}",
        (view[0], view[1]),
        start
    );
    if view[0] < 0. || view[1] < 0. {
        ctx.count("pages_that_start_before_the_origin", 1);
    }
    ctx.count("elements", vg.num_nodes() as u64);
    ctx.count("draw_calls", ops.len() as u64);
    ctx.max("percent_of_width_used", (100. * (right - left) / wide) as u64);
    ctx.max("percent_of_height_used", (100. * (bottom - top) / high) as u64);
    if n > 1 {
        ctx.nontrivial(hash_str(ctx.input()));
        if n < 4 {
            let s = ctx.input().to_string();
            ctx.sample(s);
        }
    }
    Ok(())
}

// --------------------------------------------------------------- optimisation

/// Rows in which no edges cross, each edge from one row to the next, with the
/// nodes named row by row.
fn flat_rows(rng: &mut Rng, thorough: bool) -> (usize, Vec<(usize, usize)>) {
    let size = gen::small_size(rng, thorough).max(2);
    let mut rows: Vec<Vec<usize>> = Vec::new();
    let mut next = 0;
    while next < size {
        let k = rng.range(1, (size - next).min(9));
        rows.push((next..next + k).collect());
        next += k;
    }
    let trees = rng.pct(40);
    let mut edges = Vec::new();
    for w in rows.windows(2) {
        let (up, low) = (&w[0], &w[1]);
        let mut i = 0;
        for j in low {
            // Every node but those of the first row has an edge from above.
            i = if rng.pct(60) { i } else { rng.range(i, up.len() - 1) };
            edges.push((up[i], *j));
            let more = if trees { 0 } else { rng.below(3) };
            for _ in 0..more {
                let to = rng.range(i, up.len() - 1);
                // The next node goes on from there.
                if to != i || rng.pct(30) {
                    edges.push((up[to], *j));
                }
                i = i.max(to);
            }
        }
    }
    (next, edges)
}

/// The rows, without the connectors of self loops.
fn rows_of(vg: &VisualGraph, n: usize) -> Vec<Vec<usize>> {
    (0..vg.dag.num_levels())
        .map(|l| {
            vg.dag
                .row(l)
                .iter()
                .filter(|h| h.get_index() < n || !vg.preds(**h).is_empty())
                .map(|h| h.get_index())
                .collect()
        })
        .collect()
}

fn crossings(rows: &[Vec<usize>], edges: &[(usize, usize)]) -> usize {
    let mut at: BTreeMap<usize, (usize, usize)> = BTreeMap::new();
    for (l, r) in rows.iter().enumerate() {
        for (k, x) in r.iter().enumerate() {
            at.insert(*x, (l, k));
        }
    }
    let mut by: Vec<Vec<(usize, usize)>> = vec![Vec::new(); rows.len()];
    let mut es = edges.to_vec();
    es.sort();
    es.dedup();
    for (a, b) in es {
        by[at[&a].0].push((at[&a].1, at[&b].1));
    }
    let mut sum = 0;
    for v in &by {
        for i in 0..v.len() {
            for j in 0..i {
                let (p, q) = (v[i], v[j]);
                sum += ((p.0 < q.0 && p.1 > q.1) || (p.0 > q.0 && p.1 < q.1)) as usize;
            }
        }
    }
    sum
}

/// A pair of neighbours in a row that would save crossings if they were
/// exchanged.
fn improvable(rows: &[Vec<usize>], edges: &[(usize, usize)]) -> Option<(usize, usize)> {
    let mut at: BTreeMap<usize, usize> = BTreeMap::new();
    for r in rows {
        for (k, x) in r.iter().enumerate() {
            at.insert(*x, k);
        }
    }
    let mut es = edges.to_vec();
    es.sort();
    es.dedup();
    let mut near: BTreeMap<usize, (Vec<usize>, Vec<usize>)> = BTreeMap::new();
    for (a, b) in es {
        near.entry(a).or_default().1.push(at[&b]);
        near.entry(b).or_default().0.push(at[&a]);
    }
    let cross = |l: &[usize], r: &[usize]| -> usize {
        l.iter().map(|x| r.iter().filter(|y| x > *y).count()).sum()
    };
    for r in rows {
        for w in r.windows(2) {
            let (a, b) = match (near.get(&w[0]), near.get(&w[1])) {
                (Some(a), Some(b)) => (a, b),
                _ => continue,
            };
            if cross(&b.0, &a.0) + cross(&b.1, &a.1) < cross(&a.0, &b.0) + cross(&a.1, &b.1) {
                return Some((w[0], w[1]));
            }
        }
    }
    None
}

/// The row of each node.
fn levels_of(rows: &[Vec<usize>], n: usize) -> Vec<usize> {
    let mut v = vec![0; n];
    for (l, r) in rows.iter().enumerate() {
        for x in r {
            if *x < n {
                v[*x] = l;
            }
        }
    }
    v
}

pub fn optimised(ctx: &mut Ctx) -> R {
    let mut rng = ctx.rng.clone();
    let th = ctx.thorough();
    let flat = rng.pct(30);
    let g = if flat {
        let (n, mut edges) = flat_rows(&mut rng, th);
        // The order of the statements does not matter, that of the names does.
        if rng.pct(50) {
            for i in (1..edges.len()).rev() {
                edges.swap(i, rng.below(i + 1));
            }
        }
        let ns: Vec<N> = (0..n).map(|i| node(&mut rng, i)).collect();
        let mut es: Vec<Ed> = edges
            .iter()
            .enumerate()
            .map(|(i, e)| Ed {
                from: e.0,
                to: e.1,
                arrow: super::arrow(&mut rng, i, &ns[e.0], &ns[e.1]),
            })
            .collect();
        for e in es.iter_mut() {
            e.arrow.text = String::new();
        }
        let lr = rng.pct(40);
        assemble(ns, es, lr)
    } else {
        graph(&mut rng, th)
    };
    let n = g.ns.len();
    if n == 0 {
        return Ok(());
    }
    let f = Flags::from_bits(*rng.pick(&[0, 0, 4]));
    ctx.set_input(describe(g.lr, f, &g.ns, &g.es));
    let again = || assemble(g.ns.clone(), g.es.clone(), g.lr).vg;
    let (mut on, mut off) = (again(), again());
    let _ = drive::record(&mut on, f);
    let _ = drive::record(&mut off, Flags { no_opt: true, ..f });
    let (es_on, es_off) = (dag_edges(&on), dag_edges(&off));
    ck!(
        es_on.len() <= es_off.len(),
        "longer",
        "the edges pass {} rows with optimisation, {} without",
        es_on.len(),
        es_off.len()
    );
    let (r_on, r_off) = (rows_of(&on, n), rows_of(&off, n));
    let (c_on, c_off) = (crossings(&r_on, &es_on), crossings(&r_off, &es_off));
    // Where the ranks are the same, so are the edges between the rows.
    let same = r_on.len() == r_off.len()
        && levels_of(&r_on, on.num_nodes()) == levels_of(&r_off, off.num_nodes());
    if same {
        ck!(
            c_on <= c_off,
            "more-crossings",
            "{} crossings with optimisation, {} without",
            c_on,
            c_off
        );
        if let Some((a, b)) = improvable(&r_off, &es_off) {
            ck!(
                c_on < c_off,
                "not-improved",
                "{} crossings with optimisation as without, though exchanging {} and {} alone saves some",
                c_on,
                a,
                b
            );
            ctx.count("rows_to_improve", 1);
        }
        ctx.count("same_ranks", 1);
        ctx.count("crossings_saved", (c_off - c_on) as u64);
    }
    if flat {
        ck!(
            c_on == 0 && c_off == 0,
            "flat-crossed",
            "{} crossings ({} without optimisation) in rows that need none: {:?}",
            c_on,
            c_off,
            r_on
        );
        ctx.count("flat_graphs", 1);
    }
    ctx.count("rows_saved", (es_off.len() - es_on.len()) as u64);
    // Nothing is left to sink.
    let mut vg = again();
    vg.to_valid_dag();
    vg.split_text_edges();
    let m = vg.num_nodes();
    let edges = dag_edges(&vg);
    vg.split_long_edges(false);
    let level = levels_of(&rows_of(&vg, m), m);
    for x in 0..m {
        let ins = edges.iter().filter(|e| e.1 == x).count();
        let outs: Vec<usize> = edges.iter().filter(|e| e.0 == x).map(|e| level[e.1]).collect();
        if outs.is_empty() || ins > outs.len() {
            continue;
        }
        let next = *outs.iter().min().unwrap();
        ck!(
            next == level[x] + 1,
            "not-sunk",
            "node {} with {} edges in and {} out is in row {}, its nearest successor in {}",
            x,
            ins,
            outs.len(),
            level[x],
            next
        );
        ctx.count("nodes_at_rest", 1);
    }
    if g.es.len() > 1 {
        ctx.nontrivial(hash_str(ctx.input()));
        if n < 4 {
            let s = ctx.input().to_string();
            ctx.sample(s);
        }
    }
    Ok(())
}
