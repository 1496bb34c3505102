//! An independent model of DOT programs: the abstract program, its token
//! stream, its concrete text with randomised surface syntax, and its meaning
//! (the graph it describes) under the DOT scoping rules.

use crate::css::CSS;
use crate::rng::Rng;
use std::collections::HashMap;

pub type Attrs = Vec<(String, String)>;
pub type NRef = (String, Option<String>);

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Target {
    Graph,
    Node,
    Edge,
}

#[derive(Clone, Debug, PartialEq)]
pub enum S {
    /// graph|node|edge [ .. ]
    Attr(Target, Attrs),
    /// key = value
    Assign(String, String),
    Node(NRef, Attrs),
    /// from, (to, is_arrow)*, attributes
    Edge(NRef, Vec<(NRef, bool)>, Attrs),
    Sub {
        kw: bool,
        name: Option<String>,
        body: Vec<S>,
    },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Prog {
    pub strict: bool,
    pub digraph: bool,
    pub name: Option<String>,
    pub body: Vec<S>,
}

// ------------------------------------------------------------------ tokens

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    /// An identifier, number or string with this value.
    Id(String),
    /// A keyword.
    Kw(&'static str),
    /// Punctuation: { } [ ] = ; : , -> --
    P(&'static str),
}

fn push_attrs(out: &mut Vec<Tok>, attrs: &Attrs, rng: &mut Rng) {
    let empty = |out: &mut Vec<Tok>, rng: &mut Rng| {
        while rng.pct(3) {
            out.push(Tok::P("["));
            out.push(Tok::P("]"));
        }
    };
    empty(out, rng);
    out.push(Tok::P("["));
    for (i, (k, v)) in attrs.iter().enumerate() {
        out.push(Tok::Id(k.clone()));
        out.push(Tok::P("="));
        out.push(Tok::Id(v.clone()));
        match rng.below(6) {
            0 => out.push(Tok::P(";")),
            1 => {}
            2 if i + 1 < attrs.len() => {
                // a_list split over two bracketed lists.
                out.push(Tok::P("]"));
                empty(out, rng);
                out.push(Tok::P("["));
            }
            _ => {
                if i + 1 < attrs.len() || rng.pct(20) {
                    out.push(Tok::P(","))
                }
            }
        }
    }
    out.push(Tok::P("]"));
    empty(out, rng);
}

fn push_nref(out: &mut Vec<Tok>, n: &NRef) {
    out.push(Tok::Id(n.0.clone()));
    if let Some(p) = &n.1 {
        out.push(Tok::P(":"));
        out.push(Tok::Id(p.clone()));
    }
}

fn push_body(out: &mut Vec<Tok>, body: &[S], rng: &mut Rng) {
    for s in body {
        match s {
            S::Attr(t, a) => {
                out.push(Tok::Kw(match t {
                    Target::Graph => "graph",
                    Target::Node => "node",
                    Target::Edge => "edge",
                }));
                push_attrs(out, a, rng);
            }
            S::Assign(k, v) => {
                out.push(Tok::Id(k.clone()));
                out.push(Tok::P("="));
                out.push(Tok::Id(v.clone()));
            }
            S::Node(n, a) => {
                push_nref(out, n);
                if !a.is_empty() || rng.pct(10) {
                    push_attrs(out, a, rng);
                }
            }
            S::Edge(f, to, a) => {
                push_nref(out, f);
                for (t, arrow) in to {
                    out.push(Tok::P(if *arrow { "->" } else { "--" }));
                    push_nref(out, t);
                }
                if !a.is_empty() || rng.pct(10) {
                    push_attrs(out, a, rng);
                }
            }
            S::Sub { kw, name, body } => {
                if *kw {
                    out.push(Tok::Kw("subgraph"));
                    if let Some(n) = name {
                        out.push(Tok::Id(n.clone()));
                    }
                }
                out.push(Tok::P("{"));
                push_body(out, body, rng);
                out.push(Tok::P("}"));
            }
        }
        if rng.pct(60) {
            out.push(Tok::P(";"));
        }
    }
}

impl Prog {
    pub fn tokens(&self, rng: &mut Rng) -> Vec<Tok> {
        let mut out = Vec::new();
        if self.strict {
            out.push(Tok::Kw("strict"));
        }
        out.push(Tok::Kw(if self.digraph { "digraph" } else { "graph" }));
        if let Some(n) = &self.name {
            out.push(Tok::Id(n.clone()));
        }
        out.push(Tok::P("{"));
        push_body(&mut out, &self.body, rng);
        out.push(Tok::P("}"));
        out
    }
}

pub fn is_keyword_ci(s: &str) -> bool {
    matches!(
        s.to_ascii_lowercase().as_str(),
        "graph" | "digraph" | "node" | "edge" | "strict" | "subgraph"
    )
}

pub fn is_bare_ident(s: &str) -> bool {
    let mut c = s.chars();
    match c.next() {
        Some(x) if x.is_ascii_alphabetic() => {}
        _ => return false,
    }
    c.all(|x| x.is_ascii_alphanumeric() || x == '_') && !is_keyword_ci(s)
}

/// [-]? digits [ . digits* ]?
pub fn is_bare_number(s: &str) -> bool {
    let t = s.strip_prefix('-').unwrap_or(s);
    let mut it = t.splitn(2, '.');
    let a = it.next().unwrap();
    let b = it.next().unwrap_or("");
    !a.is_empty()
        && a.bytes().all(|x| x.is_ascii_digit())
        && b.bytes().all(|x| x.is_ascii_digit())
}

fn quoted(s: &str, rng: &mut Rng) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str(match rng.below(3) {
                0 => "\\n",
                1 => "\\l",
                _ => "\n",
            }),
            // A needless escape stands for the character itself.
            c if !c.is_ascii_alphanumeric() && c != '\0' && rng.pct(4) => {
                r.push('\\');
                r.push(c);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn id_text(s: &str, rng: &mut Rng) -> String {
    if is_bare_ident(s) && !rng.pct(20) {
        return s.to_string();
    }
    if is_bare_number(s) && !rng.pct(20) {
        return s.to_string();
    }
    quoted(s, rng)
}

fn comment_text(rng: &mut Rng, line: bool) -> String {
    let frag = [
        "x", " ", "{", "}", "->", "\"", "*", "/", "a=b", "\t", "//", "[",
        "é", "**", "\\", "graph", ";", "→", "'",
    ];
    let mut s = String::new();
    for _ in 0..rng.below(7) {
        s.push_str(rng.pick::<&str>(&frag));
    }
    if line {
        if rng.pct(10) {
            s.push_str(rng.pick::<&str>(&["\r", "\rx", "\x0c}"]));
        }
        s
    } else {
        if rng.pct(30) {
            s.push('\n');
        }
        s.push_str(rng.pick::<&str>(&["", "*", "**", " "]));
        s.replace("*/", "* /")
    }
}

/// Some separator; `need` demands at least one character of separation.
fn sep(rng: &mut Rng, need: bool, plain: bool) -> String {
    if plain {
        return " ".to_string();
    }
    let mut s = String::new();
    let n = if need { 1 + rng.below(2) } else { rng.below(3) };
    for _ in 0..n {
        match rng.below(14) {
            0 => s.push('\n'),
            1 => s.push(if rng.pct(80) { '\t' } else { '\x0c' }),
            2 => s.push_str(if rng.pct(80) { "\r\n" } else { "\r" }),
            3 => {
                s.push_str("/*");
                s.push_str(&comment_text(rng, false));
                s.push_str("*/");
            }
            4 => {
                s.push_str("//");
                s.push_str(&comment_text(rng, true));
                s.push('\n');
            }
            _ => s.push(' '),
        }
    }
    s
}

/// Print a token stream. `plain` uses single spaces only.
pub fn render(toks: &[Tok], rng: &mut Rng, plain: bool) -> String {
    let mut out = sep(rng, false, plain);
    for (i, t) in toks.iter().enumerate() {
        let txt = match t {
            Tok::Id(s) => id_text(s, rng),
            Tok::Kw(s) => s.to_string(),
            Tok::P(s) => s.to_string(),
        };
        if i > 0 {
            let prev = &toks[i - 1];
            let prev_word = !matches!(prev, Tok::P(_));
            let cur_word = !matches!(t, Tok::P(_));
            let prev_dash = matches!(prev, Tok::P("--") | Tok::P("->"));
            let need = (prev_word && cur_word)
                || (txt.starts_with('-'))
                || prev_dash && txt.starts_with('-');
            out.push_str(&sep(rng, need, plain));
        }
        out.push_str(&txt);
    }
    if plain {
        return out;
    }
    out.push_str(&sep(rng, false, plain));
    if rng.pct(6) {
        // A trailing comment that the end of the file closes.
        out.push_str("//");
        out.push_str(&comment_text(rng, true));
    }
    out
}

// --------------------------------------------------------------- semantics

pub type AttrMap = HashMap<String, String>;

#[derive(Clone, Debug)]
pub struct RNode {
    pub name: String,
    pub attrs: AttrMap,
}
#[derive(Clone, Debug)]
pub struct REdge {
    pub from: usize,
    pub to: usize,
    pub fport: Option<String>,
    pub tport: Option<String>,
    pub directed: bool,
    pub attrs: AttrMap,
}
#[derive(Clone, Debug, Default)]
pub struct RGraph {
    pub lr: bool,
    pub nodes: Vec<RNode>,
    pub edges: Vec<REdge>,
}

impl RGraph {
    fn touch(
        &mut self,
        name: &str,
        defaults: &AttrMap,
        explicit: Option<&Attrs>,
    ) -> usize {
        let idx = match self.nodes.iter().position(|n| n.name == name) {
            Some(i) => i,
            None => {
                self.nodes.push(RNode {
                    name: name.to_string(),
                    attrs: defaults.clone(),
                });
                self.nodes.len() - 1
            }
        };
        if let Some(ex) = explicit {
            for (k, v) in ex {
                self.nodes[idx].attrs.insert(k.clone(), v.clone());
            }
        }
        idx
    }

    fn run(
        &mut self,
        body: &[S],
        mut nd: AttrMap,
        mut ed: AttrMap,
        mut gd: AttrMap,
    ) -> AttrMap {
        for s in body {
            match s {
                S::Attr(t, a) => {
                    let m = match t {
                        Target::Graph => &mut gd,
                        Target::Node => &mut nd,
                        Target::Edge => &mut ed,
                    };
                    for (k, v) in a {
                        m.insert(k.clone(), v.clone());
                    }
                }
                S::Assign(k, v) => {
                    gd.insert(k.clone(), v.clone());
                }
                S::Node(n, a) => {
                    self.touch(&n.0, &nd, Some(a));
                }
                S::Edge(f, to, a) => {
                    let mut attrs = ed.clone();
                    for (k, v) in a {
                        attrs.insert(k.clone(), v.clone());
                    }
                    let mut prev = self.touch(&f.0, &nd, None);
                    let mut pport = f.1.clone();
                    for (t, arrow) in to {
                        let cur = self.touch(&t.0, &nd, None);
                        self.edges.push(REdge {
                            from: prev,
                            to: cur,
                            fport: pport,
                            tport: t.1.clone(),
                            directed: *arrow,
                            attrs: attrs.clone(),
                        });
                        prev = cur;
                        pport = t.1.clone();
                    }
                }
                S::Sub { body, .. } => {
                    self.run(body, nd.clone(), ed.clone(), gd.clone());
                }
            }
        }
        gd
    }

    /// The graph that the program describes.
    pub fn of(p: &Prog) -> RGraph {
        let mut g = RGraph::default();
        let gd = g.run(
            &p.body,
            AttrMap::new(),
            AttrMap::new(),
            AttrMap::new(),
        );
        g.lr = gd.get("rankdir").map(|x| x == "LR").unwrap_or(false);
        g
    }

    /// A directed cycle exists (self loops not counted).
    pub fn is_cyclic(&self) -> bool {
        let n = self.nodes.len();
        let mut indeg = vec![0; n];
        for e in &self.edges {
            if e.from != e.to {
                indeg[e.to] += 1;
            }
        }
        let mut work: Vec<usize> =
            (0..n).filter(|i| indeg[*i] == 0).collect();
        let mut seen = 0;
        while let Some(i) = work.pop() {
            seen += 1;
            for e in &self.edges {
                if e.from == i && e.from != e.to {
                    indeg[e.to] -= 1;
                    if indeg[e.to] == 0 {
                        work.push(e.to);
                    }
                }
            }
        }
        seen != n
    }
}

// ------------------------------------------------------------- visual view

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ShapeK {
    Box,
    Circle,
    Double,
    Record,
    MRecord,
}

#[derive(Clone, Debug)]
pub struct NodeView {
    pub shape: ShapeK,
    pub label: String,
    pub stroke: String,
    pub fill: String,
    pub font: usize,
}

#[derive(Clone, Debug)]
pub struct EdgeView {
    pub label: String,
    pub stroke: String,
    pub dashed: bool,
    pub width: usize,
    pub font: usize,
}

/// The colour of a DOT colour attribute, as an 8-digit web colour.
pub fn ref_color(s: &str) -> String {
    let s = s.split(':').next().unwrap();
    let s = if s == "transparent" { "white" } else { s };
    for (n, v) in CSS.iter() {
        if *n == s {
            return format!("#{:06x}ff", v);
        }
    }
    if let Some(h) = s.strip_prefix('#') {
        if h.bytes().all(|b| b.is_ascii_hexdigit()) {
            if h.len() == 6 {
                return format!("#{}ff", h.to_ascii_lowercase());
            }
            if h.len() == 8 {
                return format!("#{}", h.to_ascii_lowercase());
            }
        }
    }
    "#000000ff".to_string()
}

pub fn node_view(n: &RNode) -> NodeView {
    let g = |k: &str| n.attrs.get(k).cloned();
    let shape = match g("shape").as_deref() {
        Some("box") => ShapeK::Box,
        Some("doublecircle") => ShapeK::Double,
        Some("record") => ShapeK::Record,
        Some("Mrecord") => ShapeK::MRecord,
        _ => ShapeK::Circle,
    };
    let fill = if let Some(f) = g("fillcolor") {
        ref_color(&f)
    } else if g("style").as_deref() == Some("filled") {
        ref_color("lightgray")
    } else {
        ref_color("white")
    };
    NodeView {
        shape,
        label: g("label").unwrap_or_else(|| n.name.clone()),
        stroke: ref_color(&g("color").unwrap_or_else(|| "black".into())),
        fill,
        font: g("fontsize").and_then(|x| x.parse().ok()).unwrap_or(14),
    }
}

pub fn edge_view(e: &REdge) -> EdgeView {
    let g = |k: &str| e.attrs.get(k).cloned();
    EdgeView {
        label: g("label").unwrap_or_default(),
        stroke: ref_color(&g("color").unwrap_or_else(|| "black".into())),
        dashed: g("style").as_deref() == Some("dashed"),
        width: g("penwidth").and_then(|x| x.parse().ok()).unwrap_or(1),
        font: g("fontsize").and_then(|x| x.parse().ok()).unwrap_or(14),
    }
}
