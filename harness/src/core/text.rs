//! Monitors of the text side: lexer, parser, graph builder scoping.

use layout::gv::parser::ast;
use layout::gv::DotParser;
use vh::ck;
use vh::ctx::*;
use vh::drive;
use vh::fuel;
use vh::gen::{self, Opts};
use vh::prog::*;
use vh::refparse::{judge, Verdict};
use vh::rng::{hash_str, Rng};

/// DOT files that come with the project, and other hand-written ones.
pub static CORPUS: &[&str] = &[
    include_str!("../../../corpus/1.dot"),
    include_str!("../../../corpus/2.dot"),
    include_str!("../../../corpus/3.dot"),
    include_str!("../../../corpus/4.dot"),
    include_str!("../../../corpus/5.dot"),
    include_str!("../../../corpus/6.dot"),
    include_str!("../../../corpus/7.dot"),
    include_str!("../../../corpus/8.dot"),
    include_str!("../../../corpus/9.dot"),
    include_str!("../../../corpus/bk.dot"),
    include_str!("../../../corpus/cross_prio.dot"),
    include_str!("../../../corpus/diamond.dot"),
    include_str!("../../../corpus/ella.dot"),
    include_str!("../../../corpus/expr.dot"),
    include_str!("../../../corpus/heb.dot"),
    include_str!("../../../corpus/noa.dot"),
    include_str!("../../../corpus/prof.dot"),
    include_str!("../../../corpus/sched0.dot"),
    include_str!("../../../corpus/sched1.dot"),
    include_str!("../../../corpus/self.dot"),
    include_str!("../../../corpus/small.dot"),
];

// ------------------------------------------------------------- AST comparison

fn nref(n: &ast::NodeId) -> NRef {
    (n.name.clone(), n.port.clone())
}

fn attrs(l: &ast::AttributeList) -> Attrs {
    l.iter().cloned().collect()
}

/// How many attributes does an AST hold? (`x = y` is one of them.)
fn show(s: &S) -> String {
    let t = format!("{:?}", s);
    if t.chars().count() > 300 {
        let c: String = t.chars().take(300).collect();
        return c + "…";
    }
    t
}

/// Compare the statements of a program with those of an AST. An assignment
/// `k = v` and `graph [k = v]` say the same.
fn same_body(want: &[S], got: &ast::StmtList, n: &mut u64) -> R {
    ck!(
        want.len() == got.list.len(),
        "ast-length",
        "{} statements instead of {}: {:?}",
        got.list.len(),
        want.len(),
        got.list.iter().map(|x| format!("{:.60}", format!("{:?}", x))).collect::<Vec<_>>()
    );
    for (w, g) in want.iter().zip(&got.list) {
        *n += 1;
        let ok = match (w, g) {
            (S::Attr(t, a), ast::Stmt::Attribute(x)) => {
                let k = match x.target {
                    ast::AttrStmtTarget::Graph => Target::Graph,
                    ast::AttrStmtTarget::Node => Target::Node,
                    ast::AttrStmtTarget::Edge => Target::Edge,
                };
                k == *t && attrs(&x.list) == *a
            }
            (S::Assign(k, v), ast::Stmt::Attribute(x)) => {
                matches!(x.target, ast::AttrStmtTarget::Graph)
                    && attrs(&x.list) == [(k.clone(), v.clone())]
            }
            (S::Node(r, a), ast::Stmt::Node(x)) => {
                nref(&x.id) == *r && attrs(&x.list) == *a
            }
            (S::Edge(f, to, a), ast::Stmt::Edge(x)) => {
                nref(&x.from) == *f
                    && attrs(&x.list) == *a
                    && x.to.len() == to.len()
                    && x.to.iter().zip(to).all(|(g, w)| {
                        nref(&g.0) == w.0
                            && matches!(g.1, ast::ArrowKind::Arrow) == w.1
                    })
            }
            (S::Sub { kw, name, body }, ast::Stmt::SubGraph(x)) => {
                if let (true, Some(nm)) = (*kw, name) {
                    ck!(
                        x.name == *nm,
                        "ast-subgraph-name",
                        "{:?} instead of {:?}",
                        x.name,
                        nm
                    );
                }
                same_body(body, &x.list, n)?;
                true
            }
            _ => false,
        };
        ck!(
            ok,
            "ast-statement",
            "the program says {}\nthe AST says {:.400}",
            show(w),
            format!("{:?}", g)
        );
    }
    Ok(())
}

fn same(name: &Option<String>, body: &[S], g: &ast::Graph, n: &mut u64) -> R {
    if let Some(nm) = name {
        ck!(g.name == *nm, "ast-name", "{:?} instead of {:?}", g.name, nm);
    }
    same_body(body, &g.list, n)
}

// -------------------------------------------------------------- free programs

fn word(rng: &mut Rng) -> String {
    match rng.below(12) {
        0 => format!("{}", rng.below(1000)),
        1 => format!("-{}", rng.below(50)),
        2 => format!("{}.{}", rng.below(50), rng.below(100)),
        3 => format!("-{}.", rng.below(9)),
        4 => gen::tagged_text(rng, "", gen::TextStyle::Rich),
        5 => rng
            .pick::<&str>(&["graph", "node", "Edge", "strict", "digraph", "subgraph", "", " ", "->", "--", "//", "/*", "*/", "a=b", "\\", "\"", "\\\"", "\\n", "'", "a\r\nb", "\r", "\n\r\n", "\t"])
            .to_string(),
        6 => {
            let n = rng.range(1, 40);
            (0..n)
                .map(|_| *rng.pick(&['a', 'Z', '_', '0', '9', 'x']))
                .collect()
        }
        _ => rng.pick::<&str>(&["a", "b", "c", "d1", "B", "x_y", "label", "color", "A_0", "n", "l", "e", "e1", "E5"]).to_string(),
    }
}

fn free_attrs(rng: &mut Rng) -> Attrs {
    (0..rng.below(4)).map(|_| (word(rng), word(rng))).collect()
}

fn free_ref(rng: &mut Rng) -> NRef {
    (word(rng), if rng.pct(25) { Some(word(rng)) } else { None })
}

fn free_body(rng: &mut Rng, size: usize, depth: usize) -> Vec<S> {
    let n = rng.below(size + 1);
    (0..n)
        .map(|_| match rng.below(10) {
            0 => S::Attr(
                *rng.pick(&[Target::Graph, Target::Node, Target::Edge]),
                free_attrs(rng),
            ),
            1 => S::Assign(word(rng), word(rng)),
            2..=4 => {
                let r = free_ref(rng);
                S::Node(r, free_attrs(rng))
            }
            5 if depth > 0 => {
                let kw = rng.pct(60);
                S::Sub {
                    kw,
                    name: if kw && rng.pct(60) { Some(word(rng)) } else { None },
                    body: free_body(rng, size, depth - 1),
                }
            }
            _ => {
                let f = free_ref(rng);
                let k = rng.range(1, 4);
                let to = (0..k).map(|_| (free_ref(rng), rng.pct(70))).collect();
                S::Edge(f, to, free_attrs(rng))
            }
        })
        .collect()
}

/// Much of one kind: what only shows beyond some number.
fn stretch(rng: &mut Rng, body: &mut Vec<S>, draw: bool) {
    let k = rng.range(257, 300);
    let at = rng.below(body.len() + 1);
    // Hundreds of edges are too much to draw.
    let kind = if draw { rng.range(2, 5) } else { rng.below(6) };
    match kind {
        0 => {
            for _ in 0..k {
                let s = match rng.below(3) {
                    0 => S::Assign(word(rng), word(rng)),
                    1 => S::Node(free_ref(rng), Vec::new()),
                    _ => S::Edge(
                        free_ref(rng),
                        vec![(free_ref(rng), rng.pct(70))],
                        Vec::new(),
                    ),
                };
                body.insert(at, s);
            }
        }
        1 => {
            let f = free_ref(rng);
            let to = (0..k).map(|_| (free_ref(rng), rng.pct(70))).collect();
            body.insert(at, S::Edge(f, to, free_attrs(rng)));
        }
        2 => {
            let a = (0..k).map(|_| (word(rng), word(rng))).collect();
            let s = match rng.below(3) {
                0 => S::Attr(Target::Node, a),
                1 => S::Node(free_ref(rng), a),
                _ => S::Edge(free_ref(rng), vec![(free_ref(rng), rng.pct(70))], a),
            };
            body.insert(at, s);
        }
        3 => {
            for _ in 0..rng.range(10, 150) {
                let inner = std::mem::take(body);
                let kw = rng.pct(50);
                let name = if kw && rng.pct(50) { Some(word(rng)) } else { None };
                if rng.pct(30) {
                    body.push(S::Node(free_ref(rng), Vec::new()));
                }
                body.push(S::Sub { kw, name, body: inner });
                if rng.pct(30) {
                    body.push(S::Node(free_ref(rng), Vec::new()));
                }
            }
        }
        4 => {
            for _ in 0..k {
                let kw = rng.pct(50);
                let name = if kw && rng.pct(50) { Some(word(rng)) } else { None };
                let few = if draw { 0 } else { rng.below(2) };
                let inner = free_body(rng, few, 0);
                body.insert(at, S::Sub { kw, name, body: inner });
            }
        }
        _ => {
            let set: &[char] = if rng.pct(50) {
                &['a', 'Z', '_', '0', '9', 'x']
            } else {
                &['a', ' ', '"', 'é', '\n', '-', '日', '\\', ']', '}']
            };
            let mut w = String::from("w");
            for _ in 0..rng.range(200, 3000) {
                w.push(*rng.pick(set));
            }
            body.insert(
                at,
                match rng.below(3) {
                    0 => S::Assign(word(rng), w),
                    1 => S::Node((w, None), free_attrs(rng)),
                    _ => S::Edge(
                        free_ref(rng),
                        vec![((word(rng), Some(w)), true)],
                        Vec::new(),
                    ),
                },
            );
        }
    }
}

/// A program with arbitrary names and values. (An attribute statement needs
/// its brackets, so an empty list is printed as "[]".)
pub fn free_prog(rng: &mut Rng, size: usize, draw: bool) -> Prog {
    let mut body = free_body(rng, size, 3);
    if rng.pct(1) {
        stretch(rng, &mut body, draw);
    }
    Prog {
        strict: rng.pct(15),
        digraph: rng.pct(70),
        name: if rng.pct(60) { Some(word(rng)) } else { None },
        body,
    }
}

/// With `draw`, not more than what can be drawn.
pub fn some_prog(ctx: &mut Ctx, draw: bool) -> Prog {
    if ctx.rng.pct(35) {
        let th = ctx.thorough();
        let o = Opts::usual(&mut ctx.rng, th);
        gen::program(&mut ctx.rng, &o)
    } else {
        let n = ctx.rng.range(1, 9);
        free_prog(&mut ctx.rng, n, draw)
    }
}

// ------------------------------------------------------------------- fidelity

pub fn fidelity(ctx: &mut Ctx) -> R {
    let p = some_prog(ctx, false);
    let toks = p.tokens(&mut ctx.rng);
    // The same program in several surface syntaxes.
    for k in 0..3 {
        let text = render(&toks, &mut ctx.rng, k == 0 && ctx.case % 4 == 0);
        ctx.set_input(text.clone());
        match drive::parse(&text) {
            Err(e) => {
                return fail("rejects-valid", format!("{}\n{}", e, text));
            }
            Ok(g) => {
                let mut n = 0;
                same(&p.name, &p.body, &g, &mut n)?;
                ctx.count("statements_compared", n);
            }
        }
        ctx.count("texts", 1);
        if toks.len() > 5 {
            ctx.nontrivial(hash_str(&text));
            if text.len() < 300 {
                ctx.sample(text);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ rejection

const PUNCT: &[&str] = &["{", "}", "[", "]", "=", ";", ":", ",", "->", "--"];

fn mutate_tokens(rng: &mut Rng, t: &mut Vec<Tok>) {
    if t.is_empty() {
        return;
    }
    let i = rng.below(t.len());
    let any = |rng: &mut Rng| match rng.below(4) {
        0 => Tok::Id(word(rng)),
        1 => Tok::Kw(rng.pick::<&'static str>(&[
            "graph", "digraph", "node", "edge", "strict", "subgraph",
        ])),
        _ => Tok::P(rng.pick::<&'static str>(PUNCT)),
    };
    match rng.below(7) {
        0 | 1 => {
            t.remove(i);
        }
        2 => {
            let x = any(rng);
            t.insert(i, x);
        }
        3 => {
            t[i] = any(rng);
        }
        4 => {
            let x = t[i].clone();
            t.insert(i, x);
        }
        5 => {
            let j = rng.below(t.len());
            t.swap(i, j);
        }
        _ => t.truncate(i),
    }
}

fn mutate_chars(rng: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let soup: Vec<char> =
        "{}[]=;:,->-\"\\/*\n aZ09._@!$%^&()|~'`?é".chars().collect();
    for _ in 0..rng.range(1, 3) {
        if c.is_empty() {
            break;
        }
        let i = rng.below(c.len());
        match rng.below(6) {
            0 | 1 => {
                c.remove(i);
            }
            2 => c.insert(i, *rng.pick(&soup)),
            3 => c[i] = *rng.pick(&soup),
            4 => c.truncate(i),
            _ => {
                let j = rng.below(c.len());
                c.swap(i, j)
            }
        }
    }
    c.into_iter().collect()
}

/// A text near the language: a valid one with a few mutations.
pub fn near_text(ctx: &mut Ctx, draw: bool) -> String {
    if ctx.rng.pct(6) {
        let s = *ctx.rng.pick(CORPUS);
        return mutate_chars(&mut ctx.rng, s);
    }
    let p = if ctx.rng.pct(70) {
        let n = ctx.rng.range(1, 5);
        free_prog(&mut ctx.rng, n, draw)
    } else {
        some_prog(ctx, draw)
    };
    let mut t = p.tokens(&mut ctx.rng);
    let kind = ctx.rng.below(10);
    if kind < 6 {
        for _ in 0..ctx.rng.range(1, 3) {
            mutate_tokens(&mut ctx.rng, &mut t);
        }
    }
    let plain = ctx.rng.pct(50);
    let s = render(&t, &mut ctx.rng, plain);
    if kind >= 6 && kind < 9 {
        return mutate_chars(&mut ctx.rng, &s);
    }
    s
}

pub fn rejection(ctx: &mut Ctx) -> R {
    for _ in 0..4 {
        let text = near_text(ctx, false);
        ctx.set_input(text.clone());
        let got = drive::parse(&text);
        match judge(&text) {
            Verdict::Unspecified(w) => {
                ctx.count(&format!("unspecified: {}", w), 1);
            }
            Verdict::Reject(w) => {
                ctx.count(&format!("malformed: {}", w), 1);
                ck!(
                    got.is_err(),
                    "accepts-malformed",
                    "malformed ({}) but accepted",
                    w
                );
                ctx.nontrivial(hash_str(&text));
                if text.len() < 160 {
                    ctx.sample(format!("malformed ({}): {}", w, text));
                }
            }
            Verdict::Accept(p) => {
                ctx.count("well-formed", 1);
                match got {
                    Err(e) => return fail("rejects-valid", e),
                    Ok(g) => {
                        let mut n = 0;
                        same(&p.name, &p.body, &g, &mut n)?;
                        ctx.count("statements_compared", n);
                    }
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- totality

fn noise(rng: &mut Rng) -> String {
    let n = match rng.below(10) {
        0 => rng.below(4),
        9 => rng.range(200, 2000),
        _ => rng.range(1, 120),
    };
    let mut s = String::new();
    match rng.below(5) {
        0 => {
            for _ in 0..n {
                if let Some(c) = char::from_u32((rng.next() % 0x11_0000) as u32) {
                    s.push(c)
                }
            }
        }
        1 => {
            for _ in 0..n {
                s.push((rng.next() % 128) as u8 as char)
            }
        }
        2 => {
            // Characters that the lexer treats in some way.
            let v: Vec<char> =
                "{}[]=;:,->-\"\\/*\n\r\t aZ09._<#+\0é٣²".chars().collect();
            for _ in 0..n {
                s.push(*rng.pick(&v))
            }
        }
        _ => {
            let v = [
                "graph", "digraph", "strict", "subgraph", "node", "edge", "{",
                "}", "[", "]", "=", ";", ":", ",", "->", "--", "\"", "\\", "a",
                "b", "1", "-1", "1.5", ".", "/*", "*/", "//", "\n", " ", "\0",
                "é", "٣", "<", ">", "#", "+", "-", "/", "\"x\"", "\\\"", "²",
            ];
            if rng.pct(60) {
                s.push_str(rng.pick::<&str>(&["digraph {", "graph G{", "strict digraph{"]));
            }
            for _ in 0..n {
                s.push_str(rng.pick::<&str>(&v));
                if rng.pct(40) {
                    s.push(' ')
                }
            }
        }
    }
    s
}

/// Texts that stress one thing at a large size.
fn extreme(rng: &mut Rng, thorough: bool) -> String {
    let big = if thorough { 1_000_000 } else { 300_000 };
    let n = match rng.below(6) {
        0 => rng.range(1, 400),
        1 | 2 => rng.range(100, 3000),
        3 | 4 => rng.range(1000, 20_000),
        _ => rng.range(20_000, big),
    };
    let rep = |x: &str| x.repeat(n);
    match rng.below(26) {
        19 => format!("digraph {{ a{} }}", rep(" -> b:c")),
        20 => format!("graph {{ a{} }}", rep("--a")),
        21 => format!("digraph {{ \"{}\" }}", rep("é")),
        22 => format!("digraph {{ a[x=\"{}\"] }}", rep("\\\"x")),
        23 => format!("digraph {{ /*{}*/ }}", rep("*")),
        24 => format!("digraph {{ node{} }}", rep("[a=b]")),
        25 => format!("digraph {{ {} }}", rep("{}")),
        0 => format!("digraph {{{}{}", rep("{"), rep("}")),
        1 => format!("digraph {}", rep("{")),
        2 => format!("digraph {{{}{}", rep("subgraph s {"), rep("}")),
        3 => format!("digraph {{ a{} }}", rep("->a")),
        4 => format!("digraph {{ a[{}] }}", rep("b=c,")),
        5 => format!("digraph {{ a{} }}", rep("[b=c]")),
        6 => format!("digraph {{ {} }}", rep("/*x*/")),
        7 => format!("digraph {{ {}", rep("//")),
        8 => format!("digraph {{ \"{}", rep("\\\"")),
        9 => format!("digraph {{ {} }}", rep("x")),
        10 => format!("digraph {{ -{} }}", rep("1")),
        11 => format!("digraph {{ a{} }}", rep(";")),
        12 => format!("digraph {{ {} }}", rep("a;")),
        13 => format!("digraph {{ {} }}", rep("a=b;")),
        14 => format!("digraph {{ \"{}\" }}", rep("\n")),
        15 => format!("digraph {{ {}", rep("/*")),
        16 => format!("{}digraph {{}}", rep(" \n")),
        17 => format!("digraph {{ a{} }}", rep(":b")),
        _ => format!("digraph {{ {} ", rep("a [b=\"c\"] ")),
    }
}

pub fn totality(ctx: &mut Ctx) -> R {
    let th = ctx.thorough();
    let kind = ctx.rng.below(20);
    let text = match kind {
        0 => extreme(&mut ctx.rng, th),
        1..=9 => noise(&mut ctx.rng),
        10 => {
            // A valid text that ends too early, or with garbage spliced in.
            let p = some_prog(ctx, false);
            let s = gen::text_of(&p, &mut ctx.rng);
            let v: Vec<char> = s.chars().collect();
            let i = ctx.rng.below(v.len());
            v[..i].iter().collect()
        }
        11 | 12 => {
            let p = some_prog(ctx, false);
            let s = gen::text_of(&p, &mut ctx.rng);
            let v: Vec<char> = s.chars().collect();
            let i = ctx.rng.below(v.len());
            let a: String = v[..i].iter().collect();
            let b: String = v[i..].iter().collect();
            format!("{}{}{}", a, noise(&mut ctx.rng), b)
        }
        _ => near_text(ctx, false),
    };
    ctx.set_input(text.clone());
    let before = fuel::steps();
    let before_bytes = fuel::bytes();
    let before_time = fuel::cpu_micros();
    let mut p = DotParser::new(&text);
    let r = p.process();
    let used = fuel::steps() - before;
    let bytes = fuel::bytes() - before_bytes;
    let time = fuel::cpu_micros() - before_time;
    let len = text.chars().count() as u64;
    ck!(
        used <= 600 * len + 20_000,
        "superlinear",
        "{} steps for {} characters",
        used,
        len
    );
    ck!(
        bytes <= 2_000 * len + 200_000,
        "superlinear-memory",
        "{} bytes asked for for {} characters",
        bytes,
        len
    );
    // Work that is hidden in library calls shows in the time alone: the bound
    // leaves a factor of thirty, and three seconds.
    ck!(
        time <= 3_000_000 + 10 * len,
        "superlinear-time",
        "{} ms of CPU time for {} characters",
        time / 1000,
        len
    );
    ctx.max("bytes_per_char_of_long_texts", if len > 2000 { bytes / len } else { 0 });
    ctx.max("cpu_ns_per_char_of_long_texts", if len > 20000 { 1000 * time / len } else { 0 });
    ctx.max("longest_text", len);
    ctx.max("steps_per_char_of_long_texts", if len > 2000 { used / len } else { 0 });
    match r {
        Ok(g) => {
            ctx.count("accepted", 1);
            // The AST must be safe to walk and to throw away.
            let mut n = 0usize;
            fn walk(g: &ast::Graph, n: &mut usize) {
                for s in &g.list.list {
                    *n += 1;
                    if let ast::Stmt::SubGraph(g) = s {
                        walk(g, n)
                    }
                }
            }
            walk(&g, &mut n);
            ctx.count("statements", n as u64);
            drop(g);
        }
        Err(e) => {
            ctx.count("rejected", 1);
            ck!(!e.is_empty(), "no-message", "an error without a message");
            // What the command line tool does next.
            p.print_error();
        }
    }
    ctx.count("chars", len);
    if len > 8 {
        ctx.nontrivial(hash_str(&text));
        if text.len() < 120 {
            ctx.sample(text);
        }
    }
    Ok(())
}
