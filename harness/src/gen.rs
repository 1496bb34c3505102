//! Workload generators: graph topologies, labels, records and whole DOT
//! programs over them.

use crate::prog::*;
use crate::rng::Rng;

// ------------------------------------------------------------------ topology

#[derive(Clone, Debug)]
pub struct Topo {
    pub n: usize,
    pub edges: Vec<(usize, usize)>,
}

/// Much of one kind: what only shows beyond some number.
fn extreme(rng: &mut Rng) -> (usize, Vec<(usize, usize)>) {
    let mut e = Vec::new();
    let n;
    // Rarely more than what fits into a byte.
    let big = rng.pct(12);
    match rng.below(9) {
        0 => {
            n = if big { rng.range(257, 320) } else { rng.range(30, 140) };
            for i in 1..n {
                e.push(if rng.pct(97) { (0, i) } else { (i, 0) });
            }
        }
        1 => {
            n = if big { rng.range(257, 320) } else { rng.range(30, 140) };
            for i in 1..n {
                e.push((i, 0));
            }
        }
        2 => {
            n = if big { rng.range(257, 300) } else { rng.range(30, 120) };
            for i in 1..n {
                e.push((i - 1, i));
            }
        }
        3 => {
            n = rng.range(2, 4);
            let k = match (big, rng.pct(30)) {
                (true, true) => rng.range(301, 400),
                (true, _) => rng.range(257, 300),
                _ => rng.range(8, 50),
            };
            for _ in 0..k {
                e.push((0, rng.range(1, n - 1)));
            }
            if rng.pct(40) {
                for _ in 0..rng.range(1, 8) {
                    e.push((n - 1, 0));
                }
            }
        }
        4 => {
            n = rng.range(1, 4);
            let k = if big { rng.range(257, 300) } else { rng.range(5, 40) };
            for _ in 0..k {
                let a = rng.below(n);
                e.push((a, a));
            }
            for i in 1..n {
                e.push((i - 1, i));
            }
        }
        5 => {
            n = rng.range(20, 50);
            for i in 1..n {
                e.push((i - 1, i));
            }
            for _ in 0..rng.range(1, 4) {
                let a = rng.below(5);
                let b = n - 1 - rng.below(5);
                e.push(if rng.pct(85) { (a, b) } else { (b, a) });
            }
        }
        6 => {
            n = if big { rng.range(260, 400) } else { rng.range(60, 260) };
            for _ in 0..rng.below(6) {
                e.push((rng.below(n), rng.below(n)));
            }
        }
        7 => {
            let k = rng.range(8, 20);
            n = 2 * k;
            for i in 0..k {
                for j in 0..k {
                    if i == j || rng.pct(8) {
                        e.push((i, k + j));
                    }
                }
            }
        }
        _ => {
            // Many small pieces.
            n = if big { rng.range(121, 200) } else { rng.range(30, 120) };
            for i in 1..n {
                if i % 3 != 0 {
                    e.push((i - 1, i));
                } else if big && i % 2 == 0 {
                    // Into the end of the piece before.
                    e.push((i, i - 1));
                }
            }
        }
    }
    (n, e)
}

/// A random graph on about `size` nodes. With `acyclic` the edges have no
/// directed cycle (and no self loop).
pub fn topology(rng: &mut Rng, size: usize, acyclic: bool) -> Topo {
    let mut n = size.max(1);
    let mut e: Vec<(usize, usize)> = Vec::new();
    let mut kind = rng.below(13);
    if size > 3 && rng.below(100) == 0 {
        kind = 99;
    }
    match kind {
        99 => {
            let (m, x) = extreme(rng);
            n = m;
            e = x;
        }
        0 | 1 => {
            let m = rng.below(2 * n + 1);
            for _ in 0..m {
                e.push((rng.below(n), rng.below(n)));
            }
        }
        2 => {
            for i in 1..n {
                e.push((rng.below(i), i));
            }
        }
        3 => {
            // Chains.
            for i in 1..n {
                if !rng.pct(20) {
                    e.push((i - 1, i));
                }
            }
        }
        4 => {
            // Star, in or out, with a few extra edges.
            for i in 1..n {
                e.push(if rng.pct(50) { (0, i) } else { (i, 0) });
            }
        }
        5 => {
            // Ladders / diamonds.
            let mut i = 0;
            while i + 2 < n {
                e.push((i, i + 1));
                e.push((i, i + 2));
                if i + 3 < n {
                    e.push((i + 1, i + 3));
                    e.push((i + 2, i + 3));
                }
                i += 3;
            }
        }
        6 => {
            for i in 0..n {
                e.push((i, (i + 1) % n));
            }
            for _ in 0..rng.below(n + 1) {
                e.push((rng.below(n), rng.below(n)));
            }
        }
        7 => {
            // Bipartite.
            let k = rng.range(1, n);
            for i in 0..k {
                for j in k..n {
                    if rng.pct(45) && e.len() < 3 * n + 6 {
                        e.push((i, j));
                    }
                }
            }
        }
        8 | 9 => {
            // Layers, with edges that skip some.
            let layers = rng.range(1, n.min(7));
            let lv: Vec<usize> = (0..n).map(|_| rng.below(layers)).collect();
            let m = rng.below(2 * n + 2);
            for _ in 0..m {
                let a = rng.below(n);
                let b = rng.below(n);
                if lv[a] < lv[b] {
                    e.push((a, b));
                } else if lv[b] < lv[a] {
                    e.push(if acyclic || rng.pct(85) { (b, a) } else { (a, b) });
                }
            }
        }
        10 => {
            // A backbone with long skip edges.
            for i in 1..n {
                e.push((i - 1, i));
            }
            for _ in 0..rng.below(n / 2 + 2) {
                let a = rng.below(n);
                let b = rng.below(n);
                e.push((a.min(b), a.max(b)));
            }
        }
        11 => {
            // Multi-edges and self loops.
            for _ in 0..rng.below(n + 2) {
                let a = rng.below(n);
                let b = rng.below(n);
                for _ in 0..rng.range(1, 3) {
                    e.push((a, b));
                }
            }
            for _ in 0..rng.below(3) {
                let a = rng.below(n);
                e.push((a, a));
            }
        }
        _ => {
            // Mostly isolated nodes.
            for _ in 0..rng.below(3) {
                e.push((rng.below(n), rng.below(n)));
            }
        }
    }
    if acyclic {
        // Orient by a hidden order.
        e.retain(|x| x.0 != x.1);
        if !matches!(kind, 8 | 9) {
            for x in e.iter_mut() {
                if x.0 > x.1 {
                    *x = (x.1, x.0);
                }
            }
        }
    }
    // Hide the order of creation.
    if rng.pct(70) {
        let mut perm: Vec<usize> = (0..n).collect();
        rng.shuffle(&mut perm);
        for x in e.iter_mut() {
            *x = (perm[x.0], perm[x.1]);
        }
    }
    if rng.pct(50) {
        rng.shuffle(&mut e);
    }
    Topo { n, edges: e }
}

/// Is the graph on `n` nodes free of directed cycles (self loops aside)?
pub fn is_acyclic(n: usize, edges: &[(usize, usize)]) -> bool {
    let mut indeg = vec![0; n];
    let mut succ = vec![Vec::new(); n];
    for &(a, b) in edges {
        if a != b {
            indeg[b] += 1;
            succ[a].push(b);
        }
    }
    let mut work: Vec<usize> = (0..n).filter(|i| indeg[*i] == 0).collect();
    let mut seen = 0;
    while let Some(i) = work.pop() {
        seen += 1;
        for &j in &succ[i] {
            indeg[j] -= 1;
            if indeg[j] == 0 {
                work.push(j);
            }
        }
    }
    seen == n
}

pub fn small_size(rng: &mut Rng, thorough: bool) -> usize {
    let r = rng.below(1000);
    if r < 550 {
        rng.range(1, 6)
    } else if r < 900 {
        rng.range(4, 14)
    } else if r < 990 {
        rng.range(10, 30)
    } else if thorough {
        rng.range(25, 60)
    } else {
        rng.range(20, 45)
    }
}

// -------------------------------------------------------------------- labels

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TextStyle {
    /// Letters and digits.
    Plain,
    /// Spaces, punctuation, several lines, other scripts.
    Rich,
}

/// Text that contains `tag` exactly once, and never another tag.
pub fn tagged_text(rng: &mut Rng, tag: &str, style: TextStyle) -> String {
    let long = rng.below(150) == 0;
    if style == TextStyle::Plain {
        let mut s = tag.to_string();
        let n = if long { rng.range(40, 600) } else { rng.below(4) };
        for _ in 0..n {
            s.push(*rng.pick(&['x', 'y', 'z']));
        }
        return s;
    }
    let frag = [
        " ", "w", "word", "\n", "&", "<", ">", "\"", "'", "é", "日本", "→",
        "(", ")", "%", ";", "#", "/", "\\", "]]>", "&amp;", "=", "-", ".",
        "𝄞", "\t", "--", "$", "{", "}", "|", "long line of text",
    ];
    let mut a = String::new();
    for _ in 0..rng.below(4) {
        a.push_str(rng.pick::<&str>(&frag));
    }
    a.push_str(tag);
    let n = if long { rng.range(20, 120) } else { rng.below(6) };
    for _ in 0..n {
        a.push_str(rng.pick::<&str>(&frag));
    }
    a
}

// ------------------------------------------------------------------- records

/// The structure that a record label describes.
#[derive(Clone, Debug, PartialEq)]
pub enum Rec {
    Leaf(String, Option<String>),
    Row(Vec<Rec>),
}

impl Rec {
    pub fn leaves<'a>(&'a self, out: &mut Vec<(&'a str, Option<&'a str>)>) {
        match self {
            Rec::Leaf(t, p) => out.push((t, p.as_deref())),
            Rec::Row(v) => {
                for r in v {
                    r.leaves(out);
                }
            }
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Rec::Leaf(..) => 0,
            Rec::Row(v) => 1 + v.iter().map(|r| r.depth()).max().unwrap_or(0),
        }
    }
}

/// Reads a well-formed record label: fields separated by '|', a field is
/// "{ fields }" or "[<port>] text".
pub fn ref_record(label: &str) -> Option<Rec> {
    fn row(s: &[char], i: &mut usize) -> Option<Vec<Rec>> {
        let mut v = Vec::new();
        loop {
            // One field.
            while *i < s.len() && s[*i].is_whitespace() {
                *i += 1;
            }
            if *i < s.len() && s[*i] == '{' {
                *i += 1;
                v.push(Rec::Row(row(s, i)?));
                if *i >= s.len() || s[*i] != '}' {
                    return None;
                }
                *i += 1;
                while *i < s.len() && s[*i].is_whitespace() {
                    *i += 1;
                }
            } else {
                let mut t = String::new();
                while *i < s.len() && !"{}|".contains(s[*i]) {
                    t.push(s[*i]);
                    *i += 1;
                }
                if *i < s.len() && s[*i] == '{' {
                    return None;
                }
                let t = t.trim();
                if t.is_empty() {
                    return None;
                }
                v.push(if let Some(r) = t.strip_prefix('<') {
                    let (p, r) = r.split_once('>')?;
                    Rec::Leaf(r.trim().to_string(), Some(p.to_string()))
                } else {
                    Rec::Leaf(t.to_string(), None)
                });
            }
            if *i < s.len() && s[*i] == '|' {
                *i += 1;
                continue;
            }
            return Some(v);
        }
    }
    let s: Vec<char> = label.chars().collect();
    let mut i = 0;
    let v = row(&s, &mut i)?;
    if i != s.len() {
        return None;
    }
    Some(Rec::Row(v))
}

/// Port names that differ in little.
pub const PORTS: &[&str] = &[
    "p0", "P0", "p00", "p1", "P1", "p", "P", "0", "é", "É", "p0x", "x", "X", "00",
    "a_port_with_a_longer_name_0", "a_port_with_a_longer_name_1",
];

fn rec_text(rng: &mut Rng, tag: &str) -> String {
    let frag = [
        "w", "a b", "é", "&", "\"", "'", "(x)", "日", "-", "::", "=", "\n", "->",
        " > ", " < ",
    ];
    let mut s = String::new();
    if rng.pct(20) {
        s.push_str(rng.pick::<&str>(&["w", "é", "(", "&"]));
    }
    s.push_str(tag);
    for _ in 0..rng.below(4) {
        s.push_str(rng.pick::<&str>(&frag));
    }
    s.trim().to_string()
}

/// A record label whose texts are unique (they start with tags made of `tag`)
/// together with its ports.
pub fn record_label(rng: &mut Rng, tag: &str, max_depth: usize) -> String {
    fn row(
        rng: &mut Rng,
        tag: &str,
        k: &mut usize,
        depth: usize,
        ports: &[&str],
        out: &mut String,
    ) {
        let mut n = if depth == 0 { rng.range(1, 3) } else { rng.range(1, 4) };
        if *k == 0 && rng.below(100) == 0 {
            n = rng.range(10, 40);
        } else if *k == 0 && rng.below(500) == 0 {
            n = rng.range(257, 280);
        } else if depth > 5 {
            n = rng.range(1, 2);
        }
        // Deep records have one long spine.
        let spine = if depth > 5 { rng.below(n) } else { n };
        for i in 0..n {
            if i > 0 {
                out.push('|');
            }
            let sp = |rng: &mut Rng| rng.pick::<&str>(&["", "", " ", "  "]).to_string();
            out.push_str(&sp(rng));
            if i == spine || depth > 0 && rng.pct(if n > 40 { 3 } else { 40 }) {
                let d = if depth > 5 && i != spine { 2 } else { depth - 1 };
                out.push('{');
                row(rng, tag, k, d, ports, out);
                out.push('}');
            } else {
                let id = *k;
                *k += 1;
                let port = rng.pct(50);
                if port {
                    match ports.get(id) {
                        Some(p) => out.push_str(&format!("<{}>", p)),
                        None => out.push_str(&format!("<p{}>", id)),
                    }
                    out.push_str(&sp(rng));
                }
                if !port || id == 0 || !rng.pct(15) {
                    out.push_str(&rec_text(rng, &format!("{}f{}q", tag, id)));
                }
            }
            out.push_str(&sp(rng));
        }
    }
    let mut out = String::new();
    let mut k = 0;
    let mut ports: Vec<&str> = Vec::new();
    if rng.pct(25) {
        ports = PORTS.to_vec();
        rng.shuffle(&mut ports);
    }
    row(rng, tag, &mut k, max_depth, &ports, &mut out);
    out
}

// ------------------------------------------------------------ whole programs

#[derive(Clone, Debug)]
pub struct Opts {
    pub size: usize,
    pub acyclic: bool,
    pub self_loops: bool,
    pub records: bool,
    pub style: TextStyle,
    /// Upper bound of the font sizes that appear.
    pub max_font: usize,
    pub edge_labels: usize,
    pub scopes: bool,
    pub undirected: bool,
    pub lr: Option<bool>,
}

impl Opts {
    pub fn usual(rng: &mut Rng, thorough: bool) -> Opts {
        Opts {
            size: small_size(rng, thorough),
            acyclic: rng.pct(40),
            self_loops: true,
            records: rng.pct(60),
            style: if rng.pct(35) { TextStyle::Rich } else { TextStyle::Plain },
            max_font: if rng.pct(30) { *rng.pick(&[20, 60, 200]) } else { 14 },
            edge_labels: *rng.pick(&[0, 15, 40, 80]),
            scopes: rng.pct(50),
            undirected: rng.pct(30),
            lr: None,
        }
    }
}

/// Penwidths from here on identify the edge statements of a program.
pub const EDGE_TAG: usize = 1000;

fn node_attrs(rng: &mut Rng, i: usize, o: &Opts) -> Attrs {
    let tag = format!("n{}t", i);
    let mut a: Attrs = Vec::new();
    let shape: &str = if o.records && rng.pct(45) {
        rng.pick::<&str>(&["record", "Mrecord"])
    } else {
        rng.pick::<&str>(&[
            "box",
            "circle",
            "doublecircle",
            "ellipse",
            "diamond",
            "box",
            "",
        ])
    };
    let is_rec = shape == "record" || shape == "Mrecord";
    if !shape.is_empty() {
        a.push(("shape".into(), shape.into()));
    }
    if is_rec {
        let d = if rng.pct(1) { rng.range(6, 40) } else { rng.below(4) };
        a.push(("label".into(), record_label(rng, &tag, d)));
    } else {
        let mut t = tagged_text(rng, &tag, o.style);
        if rng.pct(if o.style == TextStyle::Rich { 15 } else { 6 }) {
            // Higher than wide.
            let k = if rng.pct(5) { rng.range(20, 80) } else { rng.range(2, 14) };
            for _ in 0..k {
                t.push_str(rng.pick::<&str>(&["\ni", "\n", "\nw", "\nij"]));
            }
            if rng.pct(25) {
                t.push_str("\nthe widest of all the lines");
            }
            if t.ends_with('\n') {
                t.push('i');
            }
        }
        a.push(("label".into(), t));
    }
    if rng.pct(40) {
        a.push(("color".into(), color_text(rng)));
    }
    if rng.pct(30) {
        a.push(("fillcolor".into(), color_text(rng)));
    }
    if rng.pct(25) {
        a.push(("style".into(), rng.pick::<&str>(&["filled", "bold"]).to_string()));
    }
    if rng.pct(25) {
        a.push(("fontsize".into(), font_text(rng, o.max_font)));
    }
    idle(rng, &mut a);
    rng.shuffle(&mut a);
    a
}

/// Sometimes attributes that mean nothing here.
fn idle(rng: &mut Rng, a: &mut Attrs) {
    if rng.pct(8) {
        for k in ["tooltip", "URL", "group", "margin", "weight", "x", "comment"] {
            if rng.pct(40) {
                let v = *rng.pick(&["", "1", "0.5", "red", "a b", "filled", "true"]);
                a.push((k.into(), v.into()));
            }
        }
    }
}

pub fn font_text(rng: &mut Rng, max: usize) -> String {
    if rng.pct(8) {
        return rng.pick::<&str>(&["big", "12.5", "-3", ""]).to_string();
    }
    rng.range(1, max).to_string()
}

pub fn color_text(rng: &mut Rng) -> String {
    match rng.below(12) {
        0 => format!("#{:06x}", rng.below(1 << 24)),
        1 => format!("#{:08X}", rng.below(1 << 32)),
        2 => "transparent".into(),
        3 => format!("{}:{}", rng.pick(&crate::css::CSS).0, "red"),
        4 => "nosuchcolor".into(),
        _ => rng.pick(&crate::css::CSS).0.to_string(),
    }
}

fn edge_attrs(rng: &mut Rng, k: usize, o: &Opts) -> Attrs {
    let mut a: Attrs = vec![("penwidth".into(), (EDGE_TAG + k).to_string())];
    if rng.pct(o.edge_labels) {
        a.push((
            "label".into(),
            tagged_text(rng, &format!("e{}t", k), o.style),
        ));
    }
    if rng.pct(30) {
        a.push(("color".into(), color_text(rng)));
    }
    if rng.pct(30) {
        a.push((
            "style".into(),
            rng.pick::<&str>(&["dashed", "dashed", "bold", "solid"]).to_string(),
        ));
    }
    if rng.pct(20) {
        a.push(("fontsize".into(), font_text(rng, o.max_font)));
    }
    idle(rng, &mut a);
    rng.shuffle(&mut a);
    a
}

/// Names that differ in little: blanks, letter case, leading zeros, quotes.
fn confusable(rng: &mut Rng, n: usize) -> Vec<String> {
    const V: &[&str] = &[
        "x", " x", "x ", " x ", "x  ", "X", "\tx", "x\n", "\nx", "x\\n", "\"x\"",
        "1", "01", "1.0", "1.", "-1", "-1.", "1 ", "x:p", "x:p:p", "x_", "xx",
        "x.", "x-", "x y", "x  y", "x\ny", "XY", "xy", "node", "graph", "edge",
        "Node", "NODE", "subgraph", "strict", "digraph", "e\u{301}", "\u{e9}",
        "", " ", "  ", ";", "->", "a->b", "[x]", "{x}", "//x", "/*x*/", "#x",
        "null", "0", "-0", "00", "0.0", "\u{a0}x", "x\u{200b}", "x\\", "\\x",
    ];
    let mut v: Vec<String> = V.iter().map(|x| x.to_string()).collect();
    rng.shuffle(&mut v);
    for i in 0..n.saturating_sub(v.len()) {
        v.push(format!("v{}", i));
    }
    v.truncate(n);
    v
}

/// A program in which every node has a unique label (it contains "n<i>t") and
/// every edge statement a unique penwidth; chains make edges that share one,
/// and then carry no label.
pub fn program(rng: &mut Rng, o: &Opts) -> Prog {
    let mut t = topology(rng, o.size, o.acyclic);
    // Every label is one more element to place.
    let many = t.edges.len() > 250;
    if !o.self_loops {
        t.edges.retain(|e| e.0 != e.1);
    }
    let names: Vec<String> = (0..t.n)
        .map(|i| match rng.below(8) {
            0 => format!("{}", 100 + i),
            1 => format!("node {}", i),
            2 => format!("-{}.5", i + 1),
            3 => format!("é{}", i),
            _ => format!("v{}", i),
        })
        .collect();
    let names = if rng.pct(12) { confusable(rng, t.n) } else { names };
    let attrs: Vec<Attrs> = (0..t.n).map(|i| node_attrs(rng, i, o)).collect();
    let port_of = |rng: &mut Rng, i: usize| -> Option<String> {
        let rec = attrs[i]
            .iter()
            .any(|a| a.0 == "shape" && a.1.to_lowercase().ends_with("record"));
        if rec && rng.pct(60) || rng.pct(5) {
            Some(if rng.pct(70) {
                format!("p{}", rng.below(5))
            } else {
                rng.pick::<&str>(PORTS).to_string()
            })
        } else {
            None
        }
    };
    let mut stmts: Vec<S> = Vec::new();
    for (i, a) in attrs.iter().enumerate() {
        stmts.push(S::Node((names[i].clone(), None), a.clone()));
    }
    let mut es: Vec<S> = Vec::new();
    let mut k = 0;
    let mut j = 0;
    while j < t.edges.len() {
        let (a, b) = t.edges[j];
        let arrow = |rng: &mut Rng| !(o.undirected && rng.pct(40));
        let from = (names[a].clone(), port_of(rng, a));
        let mut to = vec![((names[b].clone(), port_of(rng, b)), arrow(rng))];
        let mut last = b;
        let mut len = 1;
        while j + 1 < t.edges.len() && t.edges[j + 1].0 == last && rng.pct(50) {
            j += 1;
            last = t.edges[j].1;
            to.push(((names[last].clone(), port_of(rng, last)), arrow(rng)));
            len += 1;
        }
        let mut at = edge_attrs(rng, k, o);
        if len > 1 || many && !rng.pct(5) {
            at.retain(|x| x.0 != "label");
        }
        es.push(S::Edge(from, to, at));
        k += 1;
        j += 1;
    }
    // Declare first, connect first, or mix.
    match rng.below(3) {
        0 => stmts.extend(es),
        1 => {
            let d = std::mem::replace(&mut stmts, es);
            stmts.extend(d);
        }
        _ => {
            stmts.extend(es);
            rng.shuffle(&mut stmts);
        }
    }
    if o.scopes {
        // Defaults, assignments and nested scopes.
        let mut i = 0;
        while i < stmts.len() {
            if rng.pct(12) {
                let a = match rng.below(3) {
                    0 => S::Attr(
                        Target::Node,
                        vec![("color".into(), color_text(rng))],
                    ),
                    1 => S::Attr(
                        Target::Edge,
                        vec![
                            ("color".into(), color_text(rng)),
                            (
                                "style".into(),
                                rng.pick::<&str>(&["dashed", "solid"]).to_string(),
                            ),
                        ],
                    ),
                    _ => S::Attr(
                        Target::Node,
                        vec![
                            ("fillcolor".into(), color_text(rng)),
                            ("fontsize".into(), font_text(rng, o.max_font)),
                        ],
                    ),
                };
                stmts.insert(i, a);
                i += 1;
            }
            i += 1;
        }
        for _ in 0..rng.below(4) {
            if stmts.len() < 2 {
                break;
            }
            let a = rng.below(stmts.len());
            let b = rng.range(a, stmts.len() - 1);
            let body: Vec<S> = stmts.drain(a..=b).collect();
            let kw = rng.pct(70);
            stmts.insert(
                a,
                S::Sub {
                    kw,
                    name: if kw && rng.pct(70) {
                        Some(format!("cluster_{}", rng.below(9)))
                    } else {
                        None
                    },
                    body,
                },
            );
        }
    }
    if o.scopes && rng.pct(25) {
        // Scopes without a statement.
        for _ in 0..rng.range(1, 3) {
            let at = rng.below(stmts.len() + 1);
            let kw = rng.pct(70);
            let name = if kw && rng.pct(50) { Some("empty".into()) } else { None };
            stmts.insert(at, S::Sub { kw, name, body: Vec::new() });
        }
    }
    let lr = o.lr.unwrap_or_else(|| rng.pct(35));
    if lr {
        let s = if rng.pct(50) {
            S::Assign("rankdir".into(), "LR".into())
        } else {
            S::Attr(Target::Graph, vec![("rankdir".into(), "LR".into())])
        };
        let at = rng.below(stmts.len() + 1);
        stmts.insert(at, s);
    }
    Prog {
        strict: rng.pct(10),
        digraph: rng.pct(85),
        name: if rng.pct(60) { Some("G".into()) } else { None },
        body: stmts,
    }
}

/// Print a program: mostly plainly, sometimes with wild surface syntax.
pub fn text_of(p: &Prog, rng: &mut Rng) -> String {
    let toks = p.tokens(rng);
    let plain = rng.pct(60);
    render(&toks, rng, plain)
}
