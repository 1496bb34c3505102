//! Monitors of the SVG backend: the document as such (C11), and the document
//! as a transcript of the draw calls (C12).

use layout::backends::svg::SVGWriter;
use layout::core::color::Color;
use layout::core::format::RenderBackend;
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
use std::collections::HashMap;
use vh::ck;
use vh::ctx::*;
use vh::drive::{self, Flags};
use vh::gen::{self, Opts};
use vh::rng::{hash_str, Rng};
use vh::xml::{self, Elem};

// ------------------------------------------------------------------ documents

/// The class names that the style sheet of the document defines, with their
/// font sizes.
fn classes(all: &[&Elem]) -> HashMap<String, Option<f64>> {
    let mut m = HashMap::new();
    for e in all.iter().filter(|e| e.name == "style") {
        let t = e.text();
        for rule in t.split('}') {
            let (sel, body) = match rule.split_once('{') {
                Some(x) => x,
                None => continue,
            };
            let mut font = None;
            for d in body.split(';') {
                if let Some((k, v)) = d.split_once(':') {
                    if k.trim() == "font-size" {
                        font = v.trim().trim_end_matches("px").parse().ok();
                    }
                }
            }
            for s in sel.split(',') {
                if let Some(c) = s.trim().strip_prefix('.') {
                    m.insert(c.to_string(), font);
                }
            }
        }
    }
    m
}

/// Check a document on its own; returns its root.
pub fn check_doc(svg: &str) -> Result<Elem, Fail> {
    let root = match xml::parse(svg) {
        Ok(x) => x,
        Err(e) => return fail("not-well-formed", e),
    };
    ck!(root.name == "svg", "root", "the root is <{}>", root.name);
    ck!(
        root.attr("xmlns") == Some("http://www.w3.org/2000/svg"),
        "root",
        "the root has the name space {:?}",
        root.attr("xmlns")
    );
    super::picture::page_of(&root)?;
    let mut all = Vec::new();
    root.walk(&mut all);
    let mut ids: HashMap<&str, &Elem> = HashMap::new();
    for e in &all {
        ck!(
            matches!(
                &e.name[..],
                "svg" | "defs" | "marker" | "polygon" | "style" | "clipPath"
                    | "g" | "rect" | "ellipse" | "circle" | "line" | "path"
                    | "polyline" | "text" | "tspan" | "textPath" | "title"
            ),
            "element",
            "an element <{}>",
            e.name
        );
        if let Some(i) = e.attr("id") {
            ck!(
                !i.is_empty() && ids.insert(i, e).is_none(),
                "duplicate-id",
                "two elements have the id {:?}",
                i
            );
        }
    }
    let cls = classes(&all);
    for e in &all {
        for (k, v) in &e.attrs {
            if let Some(i) = v.find("url(") {
                let r = v[i + 4..].split(')').next().unwrap_or("");
                let r = r.trim_matches(|c| c == '\'' || c == '"' || c == ' ');
                let t = r.strip_prefix('#').and_then(|r| ids.get(r));
                let want = match &k[..] {
                    "clip-path" => "clipPath",
                    "marker-start" | "marker-end" | "marker-mid" => "marker",
                    _ => "",
                };
                ck!(
                    t.is_some_and(|t| want.is_empty() || t.name == want),
                    "dangling",
                    "<{}> {}={:?} does not resolve",
                    e.name,
                    k,
                    v
                );
            }
            if k == "href" || k == "xlink:href" {
                let t = v.strip_prefix('#').and_then(|r| ids.get(r));
                ck!(
                    t.is_some_and(|t| e.name != "textPath" || t.name == "path"),
                    "dangling",
                    "<{}> {}={:?} does not resolve",
                    e.name,
                    k,
                    v
                );
            }
            if k == "class" {
                for c in v.split_whitespace() {
                    ck!(
                        cls.contains_key(c),
                        "dangling",
                        "the class {:?} has no style",
                        c
                    );
                }
            }
            ck!(
                !k.to_ascii_lowercase().starts_with("on"),
                "handler",
                "<{}> has an attribute {}",
                e.name,
                k
            );
        }
    }
    numbers(&all)?;
    heads(&all, &ids)?;
    Ok(root)
}

/// A number with an optional unit.
fn length(v: &str) -> Option<f64> {
    let v = v.trim();
    let n = v.trim_end_matches(|c: char| c.is_ascii_alphabetic() || c == '%');
    if v[n.len()..].contains("inf") || v[n.len()..].contains("NaN") {
        return None;
    }
    n.parse::<f64>().ok().filter(|x| x.is_finite())
}

/// Attributes that are numbers hold numbers.
fn numbers(all: &[&Elem]) -> R {
    for e in all {
        for (k, v) in &e.attrs {
            let sign = match &k[..] {
                "x" | "y" | "x1" | "y1" | "x2" | "y2" | "cx" | "cy" | "refX" | "refY" => true,
                "width" | "height" | "rx" | "ry" | "r" | "markerWidth" | "markerHeight"
                | "stroke-width" | "font-size" => false,
                "points" => {
                    let n: Vec<_> = v
                        .split([' ', ','])
                        .filter(|w| !w.is_empty())
                        .map(|w| w.parse::<f64>().ok().filter(|x| x.is_finite()))
                        .collect();
                    ck!(
                        !n.is_empty() && n.len() % 2 == 0 && n.iter().all(|x| x.is_some()),
                        "number",
                        "<{}> {}={:?}",
                        e.name,
                        k,
                        v
                    );
                    continue;
                }
                _ => continue,
            };
            let n = length(v);
            ck!(
                n.is_some_and(|n| sign || n >= 0.),
                "number",
                "<{}> {}={:?}",
                e.name,
                k,
                v
            );
        }
    }
    Ok(())
}

/// The tip of an arrow head is at the end of the path that carries it, and the
/// head is not cut off.
fn heads(all: &[&Elem], ids: &HashMap<&str, &Elem>) -> R {
    let mut seen: Vec<(&str, bool)> = Vec::new();
    for e in all {
        for (k, v) in &e.attrs {
            let start = match &k[..] {
                "marker-start" => true,
                "marker-end" => false,
                _ => continue,
            };
            let id = v
                .split_once('#')
                .map_or("", |x| x.1)
                .trim_end_matches([')', '"', '\'', ' ']);
            let m = match ids.get(id) {
                Some(m) if !seen.contains(&(id, start)) => m,
                _ => continue,
            };
            seen.push((id, start));
            let mut sub = Vec::new();
            m.walk(&mut sub);
            let poly: Vec<&&Elem> = sub.iter().filter(|e| e.name == "polygon").collect();
            ck!(!poly.is_empty() || sub.len() > 1, "head", "the head {:?} is empty", id);
            if poly.len() != 1 || m.attr("viewBox").is_some() {
                continue;
            }
            let c: Vec<f64> = poly[0]
                .attr("points")
                .unwrap_or("")
                .split([' ', ','])
                .filter_map(|w| w.parse().ok())
                .collect();
            let pts: Vec<(f64, f64)> = c.chunks_exact(2).map(|p| (p[0], p[1])).collect();
            let num = |k: &str, d: f64| m.attr(k).map_or(Some(d), length).unwrap_or(f64::NAN);
            let (w, h) = (num("markerWidth", 3.), num("markerHeight", 3.));
            ck!(
                pts.len() >= 3 && pts.iter().all(|p| p.0 >= 0. && p.0 <= w && p.1 >= 0. && p.1 <= h),
                "head",
                "the head {:?} is cut off by {} x {}: {:?}",
                id,
                w,
                h,
                pts
            );
            let back = match m.attr("orient") {
                Some("auto") => start,
                Some("auto-start-reverse") => false,
                o => return fail("head", format!("the head {:?} is turned by {:?}", id, o)),
            };
            // The foremost corner.
            let tip = pts
                .iter()
                .copied()
                .reduce(|a, b| if (b.0 > a.0) != back { b } else { a })
                .unwrap();
            let ref_ = (num("refX", 0.), num("refY", 0.));
            ck!(
                (tip.0 - ref_.0).abs() < 1e-9 && (tip.1 - ref_.1).abs() < 1e-9,
                "head",
                "the tip of the head {:?} is {:?}, it is put at {:?}",
                id,
                tip,
                ref_
            );
        }
    }
    Ok(())
}

fn hostile_text(rng: &mut Rng, newline: bool) -> String {
    let frag = [
        "</text>", "<script>", "\"", "'", "\" onload=\"x", "]]>", "&#x0;",
        "<!--", "-->", "&", "&amp;", "<", ">", "<![CDATA[", "%s", "{}", "é",
        "日本", "𝄞", "\u{1}", "\u{b}", "\u{1f}", "\u{fffe}", "\u{ffff}",
        "\u{7f}", "\u{85}", "\t", " ", "a", "word", "</svg>", "<?xml?>", "`",
        "\\", "#", ";", "url(#x)", "\u{200b}", "\u{202e}", "\u{fffd}",
        "\u{1fffe}", "\u{e000}",
    ];
    let mut s = String::new();
    for _ in 0..rng.below(7) {
        s.push_str(rng.pick::<&str>(&frag));
        if newline && rng.pct(20) {
            // Empty lines are lines too.
            for _ in 0..*rng.pick(&[1, 1, 1, 2, 3]) {
                s.push('\n');
            }
        }
    }
    if newline && rng.pct(10) {
        s.insert(0, '\n');
    }
    s
}

pub fn document(ctx: &mut Ctx) -> R {
    if ctx.rng.pct(50) {
        let calls = some_calls(&mut ctx.rng);
        ctx.set_input(format!("{:#?}", calls));
        let svg = play(&calls);
        check_doc(&svg)?;
        ctx.count("documents_of_draw_calls", 1);
        ctx.count("bytes", svg.len() as u64);
        if calls.len() > 2 {
            ctx.nontrivial(hash_str(&svg));
        }
        return Ok(());
    }
    // A graph with hostile texts everywhere.
    use vh::prog::*;
    let mut o = Opts::usual(&mut ctx.rng, false);
    o.size = ctx.rng.range(1, 12);
    o.style = gen::TextStyle::Rich;
    let mut p = gen::program(&mut ctx.rng, &o);
    fn poison(rng: &mut Rng, b: &mut [S]) {
        for s in b {
            let a = match s {
                S::Node(_, a) | S::Edge(_, _, a) | S::Attr(_, a) => a,
                S::Sub { body, .. } => {
                    poison(rng, body);
                    continue;
                }
                S::Assign(..) => continue,
            };
            for (k, v) in a.iter_mut() {
                let is_label = k == "label" || k == "xlabel";
                if rng.pct(if is_label { 50 } else { 12 }) {
                    *v = hostile_text(rng, true);
                }
            }
            if rng.pct(20) {
                let k = rng.pick::<&str>(&[
                    "style", "fontname", "color", "fillcolor", "id", "class",
                    "href", "URL", "tooltip", "width", "label",
                ]);
                a.push((k.to_string(), hostile_text(rng, true)));
            }
        }
    }
    poison(&mut ctx.rng, &mut p.body);
    let text = gen::text_of(&p, &mut ctx.rng);
    let f = Flags::from_bits(ctx.rng.below(8));
    ctx.set_input(format!("// {:?}\n{}", f, text));
    let svg = match drive::svg_of(&text, f) {
        Ok(x) => x,
        Err(e) => return fail("rejected", e),
    };
    check_doc(&svg)?;
    ctx.count("documents_of_graphs", 1);
    ctx.count("bytes", svg.len() as u64);
    ctx.nontrivial(hash_str(&svg));
    if text.len() < 300 {
        ctx.sample(text);
    }
    Ok(())
}

// ----------------------------------------------------------------- draw calls

#[derive(Clone, Debug)]
struct Style {
    line: u32,
    width: usize,
    fill: Option<u32>,
    rounded: usize,
    font: usize,
}

type P2 = (f64, f64);

#[derive(Clone, Debug)]
enum Call {
    /// The index among the clips that were made so far.
    Rect(P2, P2, Style, Option<usize>, Option<usize>),
    Circle(P2, P2, Style, Option<usize>),
    Line(P2, P2, Style, Option<usize>),
    Text(P2, String, Style),
    Arrow(Vec<(P2, P2)>, bool, (bool, bool), Style, Option<usize>, String),
    Clip(P2, P2, usize),
}

fn num(rng: &mut Rng) -> f64 {
    match rng.below(6) {
        0 => rng.irange(-50, 500) as f64,
        1 => rng.frange(0., 2000.),
        2 => rng.frange(0., 1.),
        3 => rng.irange(0, 4000) as f64 / 8.,
        4 => rng.frange(-30., 30.),
        _ => rng.irange(0, 100_000) as f64 + 0.1,
    }
}
fn point(rng: &mut Rng) -> P2 {
    (num(rng), num(rng))
}
fn area(rng: &mut Rng) -> P2 {
    let a = (num(rng).abs(), num(rng).abs());
    match rng.below(24) {
        0 => (0., a.1),
        1 => (a.0, 0.),
        2 => (0., 0.),
        _ => a,
    }
}

fn some_style(rng: &mut Rng) -> Style {
    Style {
        line: rng.next() as u32,
        width: rng.below(9),
        fill: if rng.pct(70) { Some(rng.next() as u32) } else { None },
        rounded: if rng.pct(50) { 0 } else { rng.range(1, 30) },
        font: if rng.pct(8) {
            rng.range(1, 600)
        } else {
            *rng.pick(&[1, 8, 10, 12, 14, 14, 14, 20, 33, 144])
        },
    }
}

fn some_calls(rng: &mut Rng) -> Vec<Call> {
    let n = match rng.below(5) {
        0 => rng.range(0, 2),
        4 if rng.pct(1) => rng.range(1000, 4000),
        4 => rng.range(10, 60),
        _ => rng.range(1, 15),
    };
    let mut clips = 0;
    let mut tag = 0;
    let mut v = Vec::new();
    for _ in 0..n {
        let mut prop = |rng: &mut Rng| {
            tag += 1;
            if rng.pct(40) {
                Some(tag)
            } else {
                None
            }
        };
        v.push(match rng.below(12) {
            0..=2 => {
                let c = if clips > 0 && rng.pct(60) {
                    Some(rng.below(clips))
                } else {
                    None
                };
                Call::Rect(point(rng), area(rng), some_style(rng), prop(rng), c)
            }
            3 | 4 => Call::Circle(point(rng), area(rng), some_style(rng), prop(rng)),
            5 => {
                let a = point(rng);
                let b = match rng.below(12) {
                    0 => a,
                    1 => (a.0, num(rng)),
                    2 => (num(rng), a.1),
                    _ => point(rng),
                };
                Call::Line(a, b, some_style(rng), prop(rng))
            }
            6 | 7 => Call::Text(point(rng), hostile_text(rng, true), some_style(rng)),
            8..=10 => {
                let k = if rng.pct(1) { rng.range(10, 300) } else { rng.range(2, 6) };
                let mut path: Vec<(P2, P2)> =
                    (0..k).map(|_| (point(rng), point(rng))).collect();
                if rng.pct(5) {
                    // Nowhere, or twice the same way.
                    let i = rng.below(k);
                    let p = path[i];
                    path = vec![*rng.pick(&[p, (p.0, p.0)]); k];
                }
                let t = if rng.pct(50) {
                    String::new()
                } else {
                    hostile_text(rng, false)
                };
                Call::Arrow(
                    path,
                    rng.pct(40),
                    (rng.pct(40), rng.pct(60)),
                    some_style(rng),
                    prop(rng),
                    t,
                )
            }
            _ => {
                clips += 1;
                Call::Clip(point(rng), area(rng), rng.below(20))
            }
        });
    }
    v
}

fn pt(p: P2) -> Point {
    Point::new(p.0, p.1)
}

fn prop_text(p: &Option<usize>) -> Option<String> {
    p.map(|t| format!("data-t=\"{}\" data-u=\"a&amp;b\"", t))
}

fn play(calls: &[Call]) -> String {
    let st = |s: &Style| {
        StyleAttr::new(
            Color::new(s.line),
            s.width,
            s.fill.map(Color::new),
            s.rounded,
            s.font,
        )
    };
    let mut w = SVGWriter::new();
    let mut clips = Vec::new();
    for c in calls {
        match c {
            Call::Rect(a, b, s, p, c) => w.draw_rect(
                pt(*a),
                pt(*b),
                &st(s),
                prop_text(p),
                c.map(|c| clips[c]),
            ),
            Call::Circle(a, b, s, p) => {
                w.draw_circle(pt(*a), pt(*b), &st(s), prop_text(p))
            }
            Call::Line(a, b, s, p) => {
                w.draw_line(pt(*a), pt(*b), &st(s), prop_text(p))
            }
            Call::Text(a, t, s) => w.draw_text(pt(*a), t, &st(s)),
            Call::Arrow(path, dash, head, s, p, t) => {
                let path: Vec<(Point, Point)> =
                    path.iter().map(|x| (pt(x.0), pt(x.1))).collect();
                w.draw_arrow(&path, *dash, *head, &st(s), prop_text(p), t)
            }
            Call::Clip(a, b, r) => {
                clips.push(w.create_clip(pt(*a), pt(*b), *r))
            }
        }
    }
    w.finalize()
}

// ----------------------------------------------------------------- transcript

struct Item<'a> {
    e: &'a Elem,
    /// The attributes of the groups around it.
    groups: Vec<(&'a str, &'a str)>,
}

/// The drawing elements in document order, without definitions.
fn items<'a>(
    e: &'a Elem,
    groups: &mut Vec<(&'a str, &'a str)>,
    out: &mut Vec<Item<'a>>,
) {
    for k in e.elems() {
        match &k.name[..] {
            "defs" | "style" | "clipPath" | "marker" | "title" => {}
            "g" => {
                let n = groups.len();
                for (a, v) in &k.attrs {
                    groups.push((a, v));
                }
                items(k, groups, out);
                groups.truncate(n);
            }
            _ => out.push(Item {
                e: k,
                groups: groups.clone(),
            }),
        }
    }
}

fn same_num(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-6 * (1. + a.abs().max(b.abs()))
}

impl<'a> Item<'a> {
    fn num(&self, k: &str) -> Result<f64, Fail> {
        match self.e.attr(k) {
            None => Ok(0.),
            Some(v) => match v.trim().trim_end_matches("px").parse() {
                Ok(x) => Ok(x),
                Err(_) => fail("number", format!("{}={:?}", k, v)),
            },
        }
    }
    fn is(&self, k: &str, want: f64) -> R {
        let x = self.num(k)?;
        ck!(
            same_num(x, want),
            &format!("{}-{}", self.e.name, k),
            "<{}> has {}={} instead of {}",
            self.e.name,
            k,
            x,
            want
        );
        Ok(())
    }
    fn colour(&self, k: &str, want: Option<u32>) -> R {
        let got = self.e.attr(k).unwrap_or("none").to_lowercase();
        let ok = match want {
            Some(c) => got == format!("#{:08x}", c),
            None => {
                got == "none"
                    || got == "transparent"
                    || got.len() == 9 && got.ends_with("00")
            }
        };
        ck!(
            ok,
            &format!("{}-{}", self.e.name, k),
            "<{}> has {}={:?} instead of {:08x?}",
            self.e.name,
            k,
            got,
            want
        );
        Ok(())
    }
    fn props(&self, p: &Option<usize>) -> R {
        let mut got: Vec<&str> = self
            .groups
            .iter()
            .filter(|g| g.0 == "data-t")
            .map(|g| g.1)
            .collect();
        if let Some(x) = self.e.attr("data-t") {
            got.push(x);
        }
        let want: Vec<String> = p.iter().map(|t| t.to_string()).collect();
        ck!(
            got == want,
            "properties",
            "<{}> has the properties {:?} instead of {:?}",
            self.e.name,
            got,
            want
        );
        if p.is_some() {
            let u = self
                .groups
                .iter()
                .find(|g| g.0 == "data-u")
                .map(|g| g.1)
                .or(self.e.attr("data-u"));
            ck!(u == Some("a&b"), "properties", "data-u is {:?}", u);
        }
        Ok(())
    }
    fn font(&self, e: &Elem, cls: &HashMap<String, Option<f64>>, want: usize) -> R {
        let direct = |e: &Elem| -> Option<f64> {
            e.attr("font-size")
                .and_then(|v| v.trim_end_matches("px").parse().ok())
                .or_else(|| {
                    e.attr("class").and_then(|c| {
                        c.split_whitespace()
                            .filter_map(|c| cls.get(c).copied().flatten())
                            .next()
                    })
                })
        };
        let got = direct(e).or_else(|| direct(self.e));
        ck!(
            got == Some(want as f64),
            "font-size",
            "a text has the font size {:?} instead of {}",
            got,
            want
        );
        Ok(())
    }
}

/// The cubic segments of a path: start, and (control, control, end) each.
fn read_path(d: &str) -> Result<(P2, Vec<(P2, P2, P2)>), Fail> {
    let mut toks: Vec<String> = Vec::new();
    let mut cur = String::new();
    for c in d.chars() {
        if c == 'e' || c == 'E' || c.is_ascii_digit() || c == '.' {
            cur.push(c);
        } else if (c == '-' || c == '+')
            && (cur.is_empty() || cur.ends_with(['e', 'E']))
        {
            cur.push(c);
        } else {
            if !cur.is_empty() {
                toks.push(std::mem::take(&mut cur));
            }
            if c == '-' || c == '+' {
                cur.push(c);
            } else if c.is_ascii_alphabetic() {
                toks.push(c.to_string());
            } else if !(c == ',' || c.is_whitespace()) {
                return fail("path", format!("{:?} in {:?}", c, d));
            }
        }
    }
    if !cur.is_empty() {
        toks.push(cur);
    }
    let mut i = 0;
    let mut cmd = ' ';
    let mut start = (0., 0.);
    let mut at = (0., 0.);
    let mut last: Option<P2> = None;
    let mut segs = Vec::new();
    while i < toks.len() {
        if toks[i].len() == 1 && toks[i].as_bytes()[0].is_ascii_alphabetic() {
            cmd = toks[i].chars().next().unwrap();
            i += 1;
        }
        let n = match cmd {
            'M' => 2,
            'C' => 6,
            'S' => 4,
            'L' => 2,
            _ => return fail("path", format!("command {:?} in {:?}", cmd, d)),
        };
        let mut v = Vec::new();
        for k in 0..n {
            match toks.get(i + k).and_then(|t| t.parse::<f64>().ok()) {
                Some(x) => v.push(x),
                None => return fail("path", format!("numbers of {:?}", d)),
            }
        }
        i += n;
        match cmd {
            'M' => {
                if !segs.is_empty() {
                    return fail("path", format!("broken path {:?}", d));
                }
                start = (v[0], v[1]);
                at = start;
            }
            'L' => {
                let to = (v[0], v[1]);
                segs.push((at, to, to));
                last = None;
                at = to;
            }
            'C' => {
                segs.push(((v[0], v[1]), (v[2], v[3]), (v[4], v[5])));
                last = Some((v[2], v[3]));
                at = (v[4], v[5]);
            }
            _ => {
                let c = match last {
                    Some(l) => (2. * at.0 - l.0, 2. * at.1 - l.1),
                    None => at,
                };
                segs.push((c, (v[0], v[1]), (v[2], v[3])));
                last = Some((v[0], v[1]));
                at = (v[2], v[3]);
            }
        }
    }
    Ok((start, segs))
}

fn shown(c: &str) -> String {
    c.chars()
        .map(|c| if xml::legal_char(c) { c } else { '\u{fffd}' })
        .collect()
}

pub fn transcript(ctx: &mut Ctx) -> R {
    let calls = some_calls(&mut ctx.rng);
    ctx.set_input(format!("{:#?}", calls));
    let svg = play(&calls);
    let root = match xml::parse(&svg) {
        Ok(x) => x,
        Err(e) => return fail("not-well-formed", e),
    };
    let mut all = Vec::new();
    root.walk(&mut all);
    let cls = classes(&all);
    let mut its = Vec::new();
    items(&root, &mut Vec::new(), &mut its);
    let clips: Vec<(P2, P2, usize)> = calls
        .iter()
        .filter_map(|c| match c {
            Call::Clip(a, b, r) => Some((*a, *b, *r)),
            _ => None,
        })
        .collect();
    let mut i = 0;
    for c in &calls {
        if matches!(c, Call::Clip(..)) {
            continue;
        }
        let it = match its.get(i) {
            Some(x) => x,
            None => return fail("missing", format!("nothing shows {:?}", c)),
        };
        i += 1;
        let name = &it.e.name[..];
        let kind_ok = matches!(
            (c, name),
            (Call::Rect(..), "rect")
                | (Call::Circle(..), "ellipse")
                | (Call::Circle(..), "circle")
                | (Call::Line(..), "line")
                | (Call::Text(..), "text")
                | (Call::Arrow(..), "path")
        );
        ck!(kind_ok, "order", "<{}> is where {:?} should be", name, c);
        match c {
            Call::Clip(..) => {}
            Call::Rect(a, b, s, p, clip) => {
                it.is("x", a.0)?;
                it.is("y", a.1)?;
                it.is("width", b.0)?;
                it.is("height", b.1)?;
                it.is("rx", s.rounded as f64)?;
                it.is("stroke-width", s.width as f64)?;
                it.colour("stroke", Some(s.line))?;
                it.colour("fill", s.fill)?;
                it.props(p)?;
                let got = it.e.attr("clip-path").or_else(|| {
                    it.groups.iter().find(|g| g.0 == "clip-path").map(|g| g.1)
                });
                match (clip, got) {
                    (None, None) => {}
                    (Some(k), Some(u)) => {
                        let id = u
                            .trim()
                            .strip_prefix("url(#")
                            .and_then(|u| u.strip_suffix(')'))
                            .unwrap_or("");
                        let e = all.iter().find(|e| {
                            e.name == "clipPath" && e.attr("id") == Some(id)
                        });
                        let r = e.and_then(|e| {
                            e.elems().find(|e| e.name == "rect")
                        });
                        let r = match r {
                            Some(r) => Item {
                                e: r,
                                groups: Vec::new(),
                            },
                            None => {
                                return fail("clip", format!("{:?} is not there", u))
                            }
                        };
                        let w = clips[*k];
                        r.is("x", w.0 .0)?;
                        r.is("y", w.0 .1)?;
                        r.is("width", w.1 .0)?;
                        r.is("height", w.1 .1)?;
                        r.is("rx", w.2 as f64)?;
                        ctx.count("clips_compared", 1);
                    }
                    _ => {
                        return fail(
                            "clip",
                            format!("clip {:?} instead of {:?}", got, clip),
                        )
                    }
                }
            }
            Call::Circle(a, b, s, p) => {
                it.is("cx", a.0)?;
                it.is("cy", a.1)?;
                if name == "ellipse" {
                    it.is("rx", b.0 / 2.)?;
                    it.is("ry", b.1 / 2.)?;
                } else {
                    it.is("r", b.0 / 2.)?;
                    it.is("r", b.1 / 2.)?;
                }
                it.is("stroke-width", s.width as f64)?;
                it.colour("stroke", Some(s.line))?;
                it.colour("fill", s.fill)?;
                it.props(p)?;
            }
            Call::Line(a, b, s, p) => {
                it.is("x1", a.0)?;
                it.is("y1", a.1)?;
                it.is("x2", b.0)?;
                it.is("y2", b.1)?;
                it.is("stroke-width", s.width as f64)?;
                it.colour("stroke", Some(s.line))?;
                it.props(p)?;
            }
            Call::Text(a, t, s) => {
                let want: Vec<String> = t.lines().map(shown).collect();
                let spans: Vec<&Elem> =
                    it.e.elems().filter(|e| e.name == "tspan").collect();
                let mut got: Vec<String> =
                    spans.iter().map(|e| e.text()).collect();
                if spans.is_empty() && want.len() <= 1 {
                    got = vec![it.e.text()];
                }
                let blank = want.iter().all(|x| x.is_empty())
                    && got.iter().all(|x| x.is_empty());
                ck!(
                    got == want || blank,
                    "text",
                    "the text {:?} became {:?}",
                    t,
                    got
                );
                it.props(&None)?;
                it.font(it.e, &cls, s.font)?;
                if !blank {
                    // Where do the lines go?
                    let mut y = it.num("y")?;
                    let mut sum = 0.;
                    if spans.is_empty() {
                        it.is("x", a.0)?;
                        sum = y;
                    }
                    for e in &spans {
                        let sp = Item {
                            e,
                            groups: Vec::new(),
                        };
                        sp.is("x", a.0)?;
                        if e.attr("y").is_some() {
                            y = sp.num("y")?;
                        }
                        if let Some(d) = e.attr("dy") {
                            let em = d
                                .strip_suffix("em")
                                .and_then(|d| d.parse::<f64>().ok())
                                .map(|d| d * s.font as f64)
                                .or_else(|| d.trim_end_matches("px").parse().ok());
                            match em {
                                Some(x) => y += x,
                                None => return fail("text-place", d.to_string()),
                            }
                        }
                        sum += y;
                    }
                    let mid = sum / spans.len().max(1) as f64;
                    ck!(
                        (mid - a.1).abs() <= 0.6 * s.font as f64 + 1e-6 * (1. + a.1.abs()),
                        "text-place",
                        "a text at {:?} has its lines around y={}",
                        a,
                        mid
                    );
                    ck!(
                        it.e.attr("text-anchor") == Some("middle"),
                        "text-place",
                        "text-anchor is {:?}",
                        it.e.attr("text-anchor")
                    );
                }
            }
            Call::Arrow(path, dash, head, s, p, t) => {
                it.is("stroke-width", s.width as f64)?;
                it.colour("stroke", Some(s.line))?;
                it.colour("fill", None)?;
                it.props(p)?;
                ck!(
                    it.e.attr("stroke-dasharray").is_some() == *dash,
                    "dash",
                    "stroke-dasharray is {:?}",
                    it.e.attr("stroke-dasharray")
                );
                ck!(
                    (
                        it.e.attr("marker-start").is_some(),
                        it.e.attr("marker-end").is_some()
                    ) == *head,
                    "heads",
                    "markers {:?} {:?} instead of {:?}",
                    it.e.attr("marker-start"),
                    it.e.attr("marker-end"),
                    head
                );
                let (start, segs) = read_path(it.e.attr("d").unwrap_or(""))?;
                let same =
                    |a: P2, b: P2| same_num(a.0, b.0) && same_num(a.1, b.1);
                let mut ok =
                    same(start, path[0].0) && segs.len() == path.len() - 1;
                if ok {
                    ok = same(segs[0].0, path[0].1);
                    for (g, w) in segs.iter().zip(&path[1..]) {
                        ok = ok && same(g.1, w.0) && same(g.2, w.1);
                    }
                    // The curve goes on smoothly.
                    for k in 1..segs.len() {
                        let (l, j) = (path[k].0, path[k].1);
                        let m = (2. * j.0 - l.0, 2. * j.1 - l.1);
                        ok = ok && same(segs[k].0, m);
                    }
                }
                ck!(
                    ok,
                    "path",
                    "{:?} became {:?}",
                    path,
                    it.e.attr("d").unwrap_or("")
                );
                // The text along the path.
                let along = its.get(i).filter(|n| {
                    n.e.name == "text"
                        && n.e.elems().any(|e| e.name == "textPath")
                });
                match along {
                    Some(n) => {
                        i += 1;
                        let tp =
                            n.e.elems().find(|e| e.name == "textPath").unwrap();
                        let href = tp
                            .attr("href")
                            .or(tp.attr("xlink:href"))
                            .and_then(|h| h.strip_prefix('#'));
                        ck!(
                            href.is_some() && href == it.e.attr("id"),
                            "arrow-text",
                            "the text is along {:?}, the path is {:?}",
                            href,
                            it.e.attr("id")
                        );
                        ck!(
                            tp.text() == shown(t),
                            "arrow-text",
                            "{:?} became {:?}",
                            t,
                            tp.text()
                        );
                        if !t.is_empty() {
                            n.font(tp, &cls, s.font)?;
                        }
                    }
                    None => {
                        ck!(t.is_empty(), "arrow-text", "{:?} is missing", t);
                    }
                }
            }
        }
        ctx.count("calls_compared", 1);
    }
    ck!(
        i == its.len(),
        "extra",
        "<{}> shows none of the draw calls",
        its[i].e.name
    );
    if calls.len() > 2 {
        ctx.nontrivial(hash_str(&svg));
        if calls.len() < 4 {
            ctx.sample(format!("{:?}", calls));
        }
    }
    Ok(())
}
