//! Reads a recorded list of draw calls as a picture: which node shapes, edge
//! paths and labels does it show? Everything is matched by content and by
//! place, never by the order of the calls.

use crate::ctx::{fail, Fail};
use crate::gen::{ref_record, Rec};
use crate::prog::*;
use crate::rec::{Look, Op, P2};

#[derive(Clone, Debug)]
pub struct Shape {
    pub round: bool,
    pub center: P2,
    pub size: P2,
    pub look: Look,
    pub clip: Option<usize>,
    /// The number of the draw call.
    pub at: usize,
}

#[derive(Clone, Debug)]
pub struct Txt {
    pub c: P2,
    pub text: String,
    pub look: Look,
    pub used: bool,
    /// The number of the draw call.
    pub at: usize,
}

#[derive(Clone, Debug)]
pub struct Arr {
    pub path: Vec<(P2, P2)>,
    pub dashed: bool,
    pub head: (bool, bool),
    pub look: Look,
    pub text: String,
}

impl Arr {
    /// The points that the path passes through.
    pub fn joints(&self) -> Vec<P2> {
        let mut v = vec![self.path[0].0];
        for s in &self.path[1..] {
            v.push(s.1);
        }
        v
    }
    /// The curves between the joints: their ends and control points.
    pub fn beziers(&self) -> Vec<[P2; 4]> {
        let p = &self.path;
        let mut v = vec![[p[0].0, p[0].1, p[1].0, p[1].1]];
        for i in 2..p.len() {
            // The way on from a joint mirrors the way in.
            let (c, j) = p[i - 1];
            v.push([j, (2. * j.0 - c.0, 2. * j.1 - c.1), p[i].0, p[i].1]);
        }
        v
    }
}

#[derive(Clone, Debug)]
pub struct SNode {
    /// Index in the reference graph.
    pub idx: usize,
    pub kind: ShapeK,
    pub center: P2,
    pub size: P2,
    pub look: Look,
    /// For records: every rectangle of the record but the outline.
    pub cells: Vec<Shape>,
    /// For records: the reference structure and the place of each text.
    pub rec: Option<Rec>,
    pub texts: Vec<(P2, String)>,
    /// For records: the outline
    pub outline: Option<Shape>,
}

impl SNode {
    pub fn bbox(&self) -> (P2, P2) {
        (
            (self.center.0 - self.size.0 / 2., self.center.1 - self.size.1 / 2.),
            (self.center.0 + self.size.0 / 2., self.center.1 + self.size.1 / 2.),
        )
    }
    pub fn round(&self) -> bool {
        matches!(self.kind, ShapeK::Circle | ShapeK::Double)
    }
    /// How far is `p` from the outline?
    pub fn outline_dist(&self, p: P2) -> f64 {
        outline_dist(self.center, self.size, self.round(), p)
    }
}

pub fn outline_dist(c: P2, size: P2, round: bool, p: P2) -> f64 {
    let (dx, dy) = (p.0 - c.0, p.1 - c.1);
    let (a, b) = (size.0 / 2., size.1 / 2.);
    if round {
        // Compare along the ray from the center.
        let r = (dx * dx + dy * dy).sqrt();
        if r == 0. {
            return a.min(b);
        }
        let (ux, uy) = (dx / r, dy / r);
        let k = 1. / ((ux / a).powi(2) + (uy / b).powi(2)).sqrt();
        (r - k).abs()
    } else {
        let ox = dx.abs() - a;
        let oy = dy.abs() - b;
        if ox <= 0. && oy <= 0. {
            // Inside.
            (-ox).min(-oy)
        } else {
            let x = ox.max(0.);
            let y = oy.max(0.);
            (x * x + y * y).sqrt()
        }
    }
}

pub struct Scene {
    pub nodes: Vec<SNode>,
    pub arrows: Vec<Arr>,
    /// Texts that belong to no node.
    pub loose: Vec<Txt>,
    pub clips: Vec<(P2, P2, usize, usize)>,
    /// All coordinates are below this magnitude.
    pub scale: f64,
}

impl Scene {
    pub fn tol(&self) -> f64 {
        1e-7 * (1. + self.scale)
    }
}

fn near(a: P2, b: P2, tol: f64) -> bool {
    (a.0 - b.0).abs() <= tol && (a.1 - b.1).abs() <= tol
}

fn is_rec(k: ShapeK) -> bool {
    matches!(k, ShapeK::Record | ShapeK::MRecord)
}

/// The largest magnitude among the coordinates; fails on non-finite ones.
pub fn extent(ops: &[Op]) -> Result<f64, Fail> {
    let mut m = 0f64;
    let mut add = |p: P2, what: &str| -> Result<(), Fail> {
        if !p.0.is_finite() || !p.1.is_finite() {
            return fail("non-finite", format!("{}: {:?}", what, p));
        }
        m = m.max(p.0.abs()).max(p.1.abs());
        Ok(())
    };
    for o in ops {
        match o {
            Op::Rect { xy, size, .. } => {
                add(*xy, "rect")?;
                add(*size, "rect size")?;
            }
            Op::Circle { c, size, .. } => {
                add(*c, "circle")?;
                add(*size, "circle size")?;
            }
            Op::Line { a, b, .. } => {
                add(*a, "line")?;
                add(*b, "line")?;
            }
            Op::Text { c, .. } => add(*c, "text")?,
            Op::Arrow { path, .. } => {
                for s in path {
                    add(s.0, "arrow")?;
                    add(s.1, "arrow")?;
                }
            }
            Op::Clip { xy, size, .. } => {
                add(*xy, "clip")?;
                add(*size, "clip size")?;
            }
        }
    }
    Ok(m)
}

/// Read the picture of the graph `g`, whose nodes have unique labels. Fails
/// when a node is not drawn exactly once with its shape and label, or when
/// something is drawn that belongs to no node and no edge.
pub fn read(ops: &[Op], g: &RGraph) -> Result<Scene, Fail> {
    let scale = extent(ops)?;
    let tol = 1e-7 * (1. + scale);
    let mut shapes: Vec<(Shape, bool)> = Vec::new();
    let mut texts: Vec<Txt> = Vec::new();
    let mut arrows = Vec::new();
    let mut clips = Vec::new();
    for (at, o) in ops.iter().enumerate() {
        match o {
            Op::Rect {
                xy,
                size,
                look,
                clip,
                ..
            } => shapes.push((
                Shape {
                    round: false,
                    center: (xy.0 + size.0 / 2., xy.1 + size.1 / 2.),
                    size: *size,
                    look: look.clone(),
                    clip: *clip,
                    at,
                },
                false,
            )),
            Op::Circle { c, size, look, .. } => shapes.push((
                Shape {
                    round: true,
                    center: *c,
                    size: *size,
                    look: look.clone(),
                    clip: None,
                    at,
                },
                false,
            )),
            Op::Text { c, text, look } => texts.push(Txt {
                c: *c,
                text: text.clone(),
                look: look.clone(),
                used: false,
                at,
            }),
            Op::Arrow {
                path,
                dashed,
                head,
                look,
                text,
                ..
            } => {
                if path.len() < 2 {
                    return fail("short-path", format!("{:?}", path));
                }
                arrows.push(Arr {
                    path: path.clone(),
                    dashed: *dashed,
                    head: *head,
                    look: look.clone(),
                    text: text.clone(),
                })
            }
            Op::Line { a, b, .. } => {
                return fail("stray-line", format!("{:?}-{:?}", a, b))
            }
            Op::Clip {
                xy,
                size,
                rounded,
                handle,
            } => clips.push((*xy, *size, *rounded, *handle)),
        }
    }
    // Paint covers what was drawn before it.
    for t in texts.iter().filter(|t| !t.text.is_empty()) {
        let hides = |s: &Shape| {
            let opaque =
                s.look.fill.as_ref().is_some_and(|f| f.ends_with("ff"));
            let d = (
                (t.c.0 - s.center.0).abs() / s.size.0,
                (t.c.1 - s.center.1).abs() / s.size.1,
            );
            let inside = if s.round {
                d.0 * d.0 + d.1 * d.1 < 0.25 - 1e-9
            } else {
                d.0.max(d.1) < 0.5 - 1e-9
            };
            opaque && inside && s.at > t.at
        };
        if let Some(s) = shapes.iter().find(|s| hides(&s.0)) {
            return fail(
                "text-hidden",
                format!("the text {:?} is painted over by {:?}", t.text, s.0),
            );
        }
    }
    let mut nodes = Vec::new();
    for (idx, n) in g.nodes.iter().enumerate() {
        let v = node_view(n);
        let rec = if is_rec(v.shape) {
            match ref_record(&v.label) {
                Some(r) => Some(r),
                None => panic!("generator: bad record label {:?}", v.label),
            }
        } else {
            None
        };
        // The texts that this node must show.
        let want: Vec<String> = match &rec {
            Some(r) => {
                let mut l = Vec::new();
                r.leaves(&mut l);
                l.iter().map(|x| x.0.to_string()).collect()
            }
            None => vec![v.label.clone()],
        };
        let mut at: Vec<(P2, String)> = Vec::new();
        for w in want.iter().filter(|w| !w.is_empty()) {
            let hits: Vec<usize> = (0..texts.len())
                .filter(|i| texts[*i].text == *w && !texts[*i].used)
                .collect();
            if hits.len() != 1 {
                return fail(
                    "node-text-count",
                    format!(
                        "text {:?} of node {:?} is drawn {} times",
                        w,
                        n.name,
                        hits.len()
                    ),
                );
            }
            let t = &mut texts[hits[0]];
            t.used = true;
            if t.look.font != v.font {
                return fail(
                    "node-font",
                    format!(
                        "text of node {:?} has font size {} instead of {}",
                        n.name, t.look.font, v.font
                    ),
                );
            }
            at.push((t.c, w.clone()));
        }
        let anchor = at[0].0;
        if is_rec(v.shape) {
            // The outline is the largest rectangle around the text.
            let mut best: Option<usize> = None;
            for (i, (s, used)) in shapes.iter().enumerate() {
                if *used || s.round {
                    continue;
                }
                let inside = (anchor.0 - s.center.0).abs() <= s.size.0 / 2. + tol
                    && (anchor.1 - s.center.1).abs() <= s.size.1 / 2. + tol;
                if inside
                    && best.is_none_or(|b| {
                        let bs = &shapes[b].0;
                        let (x, y) = (s.size.0 * s.size.1, bs.size.0 * bs.size.1);
                        x > y * (1. + 1e-9)
                            || (x > y * (1. - 1e-9)
                                && s.look.fill.is_none()
                                && bs.look.fill.is_some())
                    })
                {
                    best = Some(i);
                }
            }
            let best = match best {
                Some(b) => b,
                None => {
                    return fail(
                        "node-shape",
                        format!("record {:?} has no outline", n.name),
                    )
                }
            };
            shapes[best].1 = true;
            let outline = shapes[best].0.clone();
            let mut cells = Vec::new();
            for (s, used) in shapes.iter_mut() {
                if *used || s.round {
                    continue;
                }
                let inside = (s.center.0 - outline.center.0).abs() + s.size.0 / 2.
                    <= outline.size.0 / 2. + tol
                    && (s.center.1 - outline.center.1).abs() + s.size.1 / 2.
                        <= outline.size.1 / 2. + tol;
                if inside {
                    *used = true;
                    cells.push(s.clone());
                }
            }
            // Texts without content have no place of their own.
            let empties = want.iter().filter(|w| w.is_empty()).count();
            let mut dropped = 0;
            for t in texts.iter_mut() {
                if !t.used
                    && t.text.is_empty()
                    && dropped < empties
                    && (t.c.0 - outline.center.0).abs() <= outline.size.0 / 2. + tol
                    && (t.c.1 - outline.center.1).abs() <= outline.size.1 / 2. + tol
                {
                    t.used = true;
                    dropped += 1;
                    at.push((t.c, String::new()));
                }
            }
            nodes.push(SNode {
                idx,
                kind: v.shape,
                center: outline.center,
                size: outline.size,
                look: outline.look.clone(),
                cells,
                rec,
                texts: at,
                outline: Some(outline),
            });
            continue;
        }
        let mut mine: Vec<usize> = (0..shapes.len())
            .filter(|i| !shapes[*i].1 && near(shapes[*i].0.center, anchor, tol))
            .collect();
        mine.sort_by(|a, b| {
            shapes[*b].0.size.0.total_cmp(&shapes[*a].0.size.0)
        });
        let want_n = if v.shape == ShapeK::Double { 2 } else { 1 };
        let round = v.shape != ShapeK::Box;
        if mine.len() != want_n || mine.iter().any(|i| shapes[*i].0.round != round)
        {
            return fail(
                "node-shape",
                format!(
                    "node {:?} ({:?}) is drawn with {:?}",
                    n.name,
                    v.shape,
                    mine.iter().map(|i| &shapes[*i].0).collect::<Vec<_>>()
                ),
            );
        }
        for i in &mine {
            shapes[*i].1 = true;
        }
        let s = shapes[mine[0]].0.clone();
        if want_n == 2 {
            let inner = &shapes[mine[1]].0;
            if !(inner.size.0 < s.size.0 && inner.size.1 < s.size.1) {
                return fail(
                    "double-circle",
                    format!("rings {:?} and {:?}", s.size, inner.size),
                );
            }
        }
        nodes.push(SNode {
            idx,
            kind: v.shape,
            center: s.center,
            size: s.size,
            look: s.look.clone(),
            cells: if want_n == 2 {
                vec![shapes[mine[1]].0.clone()]
            } else {
                Vec::new()
            },
            rec: None,
            texts: at,
            outline: None,
        });
    }
    if let Some(s) = shapes.iter().find(|s| !s.1) {
        return fail("stray-shape", format!("{:?} belongs to no node", s.0));
    }
    let loose = texts.into_iter().filter(|t| !t.used).collect();
    Ok(Scene {
        nodes,
        arrows,
        loose,
        clips,
        scale,
    })
}
