//! Hostile workloads: whatever parses must render, under every flag.

use super::text::{near_text, some_prog};
use vh::ck;
use vh::ctx::*;
use vh::drive::{self, Flags};
use vh::gen;
use vh::prog::*;
use vh::rng::{hash_str, Rng};

fn soup(rng: &mut Rng, frag: &[&str], max: usize) -> String {
    let n = rng.below(max + 1);
    (0..n).map(|_| *rng.pick(frag)).collect()
}

/// A label that need not make sense.
fn wild_label(rng: &mut Rng, record: bool) -> String {
    if record && rng.pct(80) {
        return soup(
            rng,
            &[
                "{", "}", "|", "<", ">", "\\", "a", "b c", "<p>", "<p> x", "{|}",
                "||", "{}", "\n", " ", "<>", "é", "\\{", "{a|b}", "<q>y", "\\|",
                "日本", "\t", "{{", "}}",
            ],
            24,
        );
    }
    match rng.below(8) {
        0 => String::new(),
        1 => " ".into(),
        2 => "\n".repeat(rng.range(1, 30)),
        3 => "x".repeat(rng.range(1, 3000)),
        4 => "l\n".repeat(rng.range(1, 300)),
        5 => soup(rng, &["é", "\u{0}", "\u{1}", "\u{FFFE}", "日", "𝄞", "\u{301}", "\r", "\u{85}", "\u{2028}"], 12),
        _ => soup(rng, &["a", "b", " ", "\n", "&", "<", ">", "\"", "\\"], 12),
    }
}

fn wild_number(rng: &mut Rng) -> String {
    rng.pick::<&str>(&[
        "0", "1", "2", "14", "60", "999", "100000", "4294967295", "4294967296",
        "9223372036854775807", "18446744073709551615", "18446744073709551616",
        "-1", "-0", "1.5", "", " ", "x", "1e9", "0x10", "NaN", "inf", "+5",
        "007", "99999999999999999999999999", "９",
    ])
    .to_string()
}

fn wild_color(rng: &mut Rng) -> String {
    match rng.below(4) {
        0 => rng
            .pick::<&str>(&[
                "", "#", "#1", "#12", "#123", "#1234", "#12345", "#123456",
                "#1234567", "#12345678", "#123456789", "#gggggg", "red:blue",
                ":", ":red", "transparent", "#éé", "#€€", "#日本", "none",
                "0.5 0.5 0.5", "/x/red", "#+12345", "#-1", "# 12345", "RED",
            ])
            .to_string(),
        1 => soup(rng, &["#", "a", "f", "0", "9", ":", "é", " ", "g", "\n"], 10),
        _ => gen::color_text(rng),
    }
}

fn wild_attrs(rng: &mut Rng, edge: bool) -> Attrs {
    let mut a: Attrs = Vec::new();
    let mut record = false;
    if !edge && rng.pct(75) {
        let s = rng.pick::<&str>(&[
            "box", "circle", "doublecircle", "record", "Mrecord", "record",
            "Mrecord", "none", "point", "plaintext", "", "Record", "BOX",
            "polygon", "é",
        ]);
        record = s.ends_with("record");
        a.push(("shape".into(), s.to_string()));
    }
    if rng.pct(if edge { 40 } else { 80 }) {
        let rec = record || rng.pct(10);
        a.push(("label".into(), wild_label(rng, rec)));
    }
    for k in ["fontsize", "penwidth", "width", "height", "weight", "minlen"] {
        if rng.pct(15) {
            let n = if k == "fontsize" && rng.pct(40) {
                rng.range(0, 300).to_string()
            } else {
                wild_number(rng)
            };
            a.push((k.into(), n));
        }
    }
    for k in ["color", "fillcolor"] {
        if rng.pct(25) {
            a.push((k.into(), wild_color(rng)));
        }
    }
    if rng.pct(25) {
        a.push((
            "style".into(),
            rng.pick::<&str>(&["dashed", "dotted", "invis", "filled", "bold", "", "é", "filled,rounded"])
                .to_string(),
        ));
    }
    if rng.pct(10) {
        a.push((
            rng.pick::<&str>(&["rank", "dir", "URL", "rankdir", "constraint", "", "é"])
                .to_string(),
            rng.pick::<&str>(&["same", "LR", "back", "false", ""]).to_string(),
        ));
    }
    rng.shuffle(&mut a);
    a
}

fn port(rng: &mut Rng) -> Option<String> {
    if rng.pct(70) {
        return None;
    }
    Some(
        rng.pick::<&str>(&["p", "q", "", "zz", "n", "sw", "é", "p:", "<p>"])
            .to_string(),
    )
}

/// Nodes and edges with nonsensical attributes.
fn hostile(rng: &mut Rng) -> Prog {
    let size = if rng.pct(85) { rng.range(1, 8) } else { rng.range(5, 20) };
    let acyclic = rng.pct(30);
    let t = gen::topology(rng, size, acyclic);
    let name = |i: usize| match i % 5 {
        3 => String::new() + "\"" + &"q".repeat(i),
        4 => format!("\n{}", i),
        _ => format!("v{}", i),
    };
    let mut body = Vec::new();
    if rng.pct(10) {
        body.push(S::Node((String::new(), None), wild_attrs(rng, false)));
    }
    if rng.pct(40) {
        body.push(S::Assign(
            "rankdir".into(),
            rng.pick::<&str>(&["LR", "LR", "LR", "TB", "BT", "RL", "lr", ""])
                .to_string(),
        ));
    }
    for (tg, e) in [(Target::Node, false), (Target::Edge, true), (Target::Graph, true)] {
        if rng.pct(15) {
            body.push(S::Attr(tg, wild_attrs(rng, e)));
        }
    }
    for i in 0..t.n {
        if rng.pct(85) {
            body.push(S::Node((name(i), port(rng)), wild_attrs(rng, false)));
        }
    }
    for &(a, b) in &t.edges {
        body.push(S::Edge(
            (name(a), port(rng)),
            vec![((name(b), port(rng)), rng.pct(80))],
            if rng.pct(60) { wild_attrs(rng, true) } else { Vec::new() },
        ));
    }
    if rng.pct(30) {
        rng.shuffle(&mut body);
    }
    if rng.pct(15) && !body.is_empty() {
        let k = rng.below(body.len());
        let inner = body.split_off(k);
        body.push(S::Sub {
            kw: rng.pct(50),
            name: None,
            body: inner,
        });
    }
    Prog {
        strict: rng.pct(20),
        digraph: rng.pct(70),
        name: None,
        body,
    }
}

/// Topologies that blow up a careless algorithm.
fn extreme(rng: &mut Rng, thorough: bool) -> (usize, Vec<(usize, usize)>) {
    let big = if thorough { 2 } else { 1 };
    let mut e = Vec::new();
    let n;
    match rng.below(14) {
        0 => {
            // The complete acyclic graph.
            n = rng.range(2, 7 + 2 * big);
            for i in 0..n {
                for j in i + 1..n {
                    e.push((i, j));
                }
            }
        }
        1 => {
            // Both directions of everything.
            n = rng.range(2, 5 + big);
            for i in 0..n {
                for j in 0..n {
                    e.push((i, j));
                }
            }
        }
        2 => {
            // Ladder of diamonds: exponentially many paths.
            let k = rng.range(2, 30 * big);
            n = 2 * k;
            for i in 0..k - 1 {
                for (a, b) in [(0, 0), (0, 1), (1, 0), (1, 1)] {
                    e.push((2 * i + a, 2 * i + 2 + b));
                }
            }
        }
        3 => {
            n = rng.range(50, 150 * big);
            for i in 1..n {
                e.push((i - 1, i));
            }
        }
        4 => {
            n = rng.range(2, 100 * big);
            for i in 1..n {
                e.push((i - 1, i));
            }
            e.push((n - 1, 0));
        }
        5 => {
            n = rng.range(10, 100 * big);
            let out = rng.pct(50);
            for i in 1..n {
                e.push(if out { (0, i) } else { (i, 0) });
            }
        }
        6 => {
            n = rng.range(1, 3);
            for _ in 0..rng.range(5, 25 * big) {
                e.push((rng.below(n), rng.below(n)));
            }
        }
        7 => {
            n = rng.range(1, 4);
            for _ in 0..rng.range(3, 20 * big) {
                let x = rng.below(n);
                e.push((x, x));
            }
        }
        8 => {
            let k = rng.range(2, 5 + big);
            n = 2 * k;
            for i in 0..k {
                for j in 0..k {
                    e.push((i, k + j));
                }
            }
        }
        9 => {
            let k = rng.range(2, 5 + big);
            n = k * k;
            for i in 0..k {
                for j in 0..k {
                    if i + 1 < k {
                        e.push((i * k + j, i * k + k + j));
                    }
                    if j + 1 < k {
                        e.push((i * k + j, i * k + j + 1));
                    }
                }
            }
        }
        10 => {
            n = rng.range(20, 60 * big);
            for i in 1..n {
                e.push(((i - 1) / 2, i));
            }
        }
        11 => {
            // Unconnected nodes.
            n = rng.range(20, 100 * big);
        }
        12 => {
            // A chain with edges that skip most of it.
            n = rng.range(10, 30 * big);
            for i in 1..n {
                e.push((i - 1, i));
            }
            for _ in 0..rng.below(8) {
                let a = rng.below(n);
                let b = rng.below(n);
                e.push((a, b));
            }
        }
        _ => {
            n = rng.range(10, 40 * big);
            for _ in 0..n {
                e.push((rng.below(n), rng.below(n)));
            }
        }
    }
    (n, e)
}

fn extreme_prog(rng: &mut Rng, thorough: bool) -> Prog {
    let (n, e) = extreme(rng, thorough);
    let mut body = Vec::new();
    if rng.pct(35) {
        body.push(S::Assign("rankdir".into(), "LR".into()));
    }
    for i in 0..n {
        let mut a: Attrs = Vec::new();
        if rng.pct(20) {
            a.push(("shape".into(), rng.pick::<&str>(&["box", "record", "doublecircle"]).to_string()));
        }
        if rng.pct(10) {
            a.push(("fontsize".into(), rng.range(1, 90).to_string()));
        }
        body.push(S::Node((format!("v{}", i), None), a));
    }
    let labels = *rng.pick(&[0, 0, 10, 100]);
    for (a, b) in e {
        let mut at: Attrs = Vec::new();
        if rng.pct(labels) {
            at.push(("label".into(), wild_label(rng, false).chars().take(20).collect()));
        }
        body.push(S::Edge(
            (format!("v{}", a), None),
            vec![((format!("v{}", b), None), true)],
            at,
        ));
    }
    Prog {
        strict: false,
        digraph: true,
        name: None,
        body,
    }
}

pub fn renders(ctx: &mut Ctx) -> R {
    let th = ctx.thorough();
    let kind = ctx.rng.below(20);
    let text = match kind {
        0..=8 => {
            let p = hostile(&mut ctx.rng);
            gen::text_of(&p, &mut ctx.rng)
        }
        9 => {
            let p = extreme_prog(&mut ctx.rng, th);
            gen::text_of(&p, &mut ctx.rng)
        }
        10..=12 => near_text(ctx, true),
        _ => {
            let p = some_prog(ctx, true);
            gen::text_of(&p, &mut ctx.rng)
        }
    };
    let f = Flags::from_bits(ctx.rng.below(8));
    ctx.set_input(format!("// {:?}\n{}", f, text));
    let g = match drive::parse(&text) {
        Ok(g) => g,
        Err(_) => {
            ctx.count("did_not_parse", 1);
            return Ok(());
        }
    };
    ctx.count("parsed", 1);
    let mut vg = drive::build(&g);
    let n = vg.num_nodes();
    let (ops, svg) = drive::both(&mut vg, f);
    ck!(!svg.is_empty(), "no-output", "no output");
    ck!(n == 0 || !ops.is_empty(), "no-output", "nothing is drawn of {} nodes", n);
    ctx.count("draw_calls", ops.len() as u64);
    ctx.count(&format!("flags_{:?}{:?}{:?}", f.debug as u8, f.no_opt as u8, f.no_layout as u8), 1);
    ctx.max("nodes", n as u64);
    if n > 0 {
        ctx.nontrivial(hash_str(&format!("{:?}{}", f, text)));
        if text.len() < 300 {
            ctx.sample(text);
        }
    }
    Ok(())
}
