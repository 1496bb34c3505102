//! What the library prints for people: where the error is, and the AST.

use layout::gv::DotParser;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use vh::ck;
use vh::ctx::*;
use vh::drive;
use vh::gen;
use vh::prog::*;
use vh::rng::{hash_str, Rng};

use super::text::{free_prog, some_prog};

extern "C" {
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
    fn close(fd: i32) -> i32;
}

thread_local! {
    static SINK: std::cell::RefCell<Option<std::fs::File>> =
        const { std::cell::RefCell::new(None) };
}

/// What `f` prints to the standard output.
pub fn printed(f: impl FnOnce()) -> String {
    SINK.with(|s| {
        let mut s = s.borrow_mut();
        let file = s.get_or_insert_with(|| unsafe {
            let fd = memfd_create(c"printed".as_ptr() as *const u8, 0);
            assert!(fd > 2);
            std::fs::File::from_raw_fd(fd)
        });
        let _ = std::io::stdout().flush();
        file.set_len(0).unwrap();
        file.seek(SeekFrom::Start(0)).unwrap();
        struct Back(i32);
        impl Drop for Back {
            fn drop(&mut self) {
                let _ = std::io::stdout().flush();
                unsafe {
                    dup2(self.0, 1);
                    close(self.0);
                }
            }
        }
        let back = unsafe {
            let b = Back(dup(1));
            dup2(file.as_raw_fd(), 1);
            b
        };
        f();
        drop(back);
        let mut v = Vec::new();
        file.seek(SeekFrom::Start(0)).unwrap();
        file.read_to_end(&mut v).unwrap();
        String::from_utf8_lossy(&v).into_owned()
    })
}

// ------------------------------------------------------------- error location

/// An error at a known place, and where its first and last chars are.
struct Planted {
    text: String,
    first: usize,
    last: usize,
    what: &'static str,
}

fn plant(ctx: &mut Ctx) -> Planted {
    let p = if ctx.rng.pct(60) {
        let n = ctx.rng.range(1, 6);
        free_prog(&mut ctx.rng, n, false)
    } else {
        some_prog(ctx, false)
    };
    let rng = &mut ctx.rng;
    let t = p.tokens(rng);
    let k = rng.below(t.len() + 1);
    let mut open = 0;
    for x in &t[..k] {
        match x {
            Tok::P("[") => open += 1,
            Tok::P("]") => open -= 1,
            _ => {}
        }
    }
    let plain = rng.pct(25);
    let mut s = if k == 0 { String::new() } else { render(&t[..k], rng, plain) };
    // A line break also ends a comment that is still open.
    s.push_str(rng.pick::<&str>(&["\n", "\n  ", "\n\t", "\n\n", "\r\n "]));
    if plain && rng.pct(70) {
        s.pop();
        s = s.trim_end().to_string();
        s.push(' ');
    }
    let first = s.chars().count();
    if k < t.len() && rng.pct(15) {
        // The text ends too early.
        return Planted {
            last: first,
            first,
            text: s,
            what: "early end",
        };
    }
    let (bad, what): (&str, _) = if rng.pct(50) {
        (
            rng.pick::<&str>(&["!", "@", "%", "$", "(", ")", "^", "&", "|", "~", "'", "?", "→", "é"]),
            "illegal character",
        )
    } else if rng.pct(60) {
        // What can't follow depends on what came before.
        let w: &[&str] = match k.checked_sub(1).map(|i| &t[i]) {
            None => &["diagraph", "node", "{", "5", "\"digraph\"", ";", "edge"],
            Some(Tok::Kw("strict")) => &["g", "{", "strict", "\"graph\""],
            Some(Tok::P("->" | "--")) => &[
                "node", "graph", "edge", ";", "]", "=", ",", ":", "->", "}", "strict",
                "digraph",
            ],
            Some(Tok::P(":")) => &["node", ";", "]", "=", ":", "->", "}", "{", "graph"],
            Some(Tok::P("=")) => &["=", ";", "]", ",", "->", "{", "}", "edge", "--"],
            Some(Tok::P("[")) => &["=", "{", "}", "->", ":", "node", "["],
            Some(Tok::Kw("subgraph")) => &["=", "[", ";", "node", "->", "]"],
            Some(Tok::Kw(_)) if k <= 2 => &["=", "[", ";", "node", "]"],
            Some(Tok::Kw(_)) => &["x", "=", ";", "{", "->", "7", "\"y z\""],
            _ if k == t.len() => &["x", "{", "}", ";", "digraph", "1.5", "\"}\""],
            _ => &["]"],
        };
        if open > 0 && w == ["]"] {
            (rng.pick::<&str>(&["->", "--", "{", "}", ":"]), "wrong token")
        } else {
            (rng.pick::<&str>(w), "wrong token")
        }
    } else if open > 0 {
        (rng.pick::<&str>(&["->", "--", "{", "}", ":"]), "wrong token")
    } else {
        ("]", "wrong token")
    };
    s.push_str(bad);
    let last = first + bad.chars().count() - 1;
    if rng.pct(85) {
        s.push_str(rng.pick::<&str>(&["\n", " ", " \n", "\r\n", " x y z\n", " // c\n"]));
        if k < t.len() {
            s.push_str(&render(&t[k..], rng, plain));
        }
        if rng.pct(50) {
            s.push('\n');
        }
    }
    Planted {
        text: s,
        first,
        last,
        what,
    }
}

/// The report of a syntax error shows the text up to the line of the error,
/// and a mark below the error.
pub fn located(ctx: &mut Ctx) -> R {
    for _ in 0..3 {
        let p = plant(ctx);
        ctx.set_input(p.text.clone());
        let mut d = DotParser::new(&p.text);
        match d.process() {
            Ok(_) => {
                return fail("accepts-malformed", format!("{} at {}", p.what, p.first))
            }
            Err(e) => ck!(!e.is_empty(), "no-message", "an error without a message"),
        }
        let out = printed(|| d.print_error());
        let chars: Vec<char> = p.text.chars().collect();
        // The line of the error: [begin, end), without its line break.
        let at = p.last.min(chars.len());
        let begin = if p.what == "early end" && at > 0 {
            // The end of the text belongs to the last line with anything in it.
            let upto = if chars[at - 1] == '\n' { at - 1 } else { at };
            chars[..upto].iter().rposition(|c| *c == '\n').map_or(0, |x| x + 1)
        } else {
            chars[..at].iter().rposition(|c| *c == '\n').map_or(0, |x| x + 1)
        };
        let end = chars[begin..]
            .iter()
            .position(|c| *c == '\n')
            .map_or(chars.len(), |x| begin + x);
        let echo: String = chars[..end].iter().collect();
        ck!(
            out.starts_with(&echo),
            "echo",
            "the report does not begin with the text up to the line of the error:\n{}",
            out
        );
        let rest = &out[echo.len()..];
        let lines: Vec<&str> = rest.lines().filter(|l| !l.trim().is_empty()).collect();
        ck!(
            lines.len() == 1 && lines[0].trim() == "^",
            "mark",
            "after the line of the error comes {:?}",
            rest
        );
        let col = lines[0].chars().position(|c| c == '^').unwrap();
        let (lo, hi) = match p.what {
            "illegal character" => (p.first - begin, p.first - begin),
            "wrong token" => (p.first - begin, p.last - begin + 1),
            _ => ((end - begin).saturating_sub(1), end - begin),
        };
        ck!(
            (lo..=hi).contains(&col),
            "column",
            "the {} is at column {} of its line, the mark at column {}:\n{}",
            p.what,
            p.first - begin,
            col,
            out
        );
        ctx.count(p.what, 1);
        ctx.nontrivial(hash_str(&p.text));
        if p.text.len() < 120 {
            ctx.sample(out);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- AST dump

struct Words(usize);
impl Words {
    fn next(&mut self, rng: &mut Rng) -> String {
        self.0 += 1;
        let mut s = format!("q{}", self.0);
        // Printed as it is.
        if rng.pct(10) {
            s.push_str(rng.pick::<&str>(&["Z z", "é", "Z\\", "日本", "Z.5"]));
        }
        s
    }
}

fn rename(body: &mut [S], w: &mut Words, rng: &mut Rng) {
    let list = |a: &mut Attrs, w: &mut Words, rng: &mut Rng| {
        for x in a.iter_mut() {
            *x = (w.next(rng), w.next(rng));
        }
    };
    let nref = |r: &mut NRef, w: &mut Words, rng: &mut Rng| {
        r.0 = w.next(rng);
        if r.1.is_some() {
            r.1 = Some(w.next(rng));
        }
    };
    for s in body {
        match s {
            S::Attr(_, a) => list(a, w, rng),
            S::Assign(k, v) => {
                *k = w.next(rng);
                *v = w.next(rng);
            }
            S::Node(r, a) => {
                nref(r, w, rng);
                list(a, w, rng);
            }
            S::Edge(f, to, a) => {
                nref(f, w, rng);
                for x in to.iter_mut() {
                    nref(&mut x.0, w, rng);
                }
                list(a, w, rng);
            }
            S::Sub { kw, name, body } => {
                if *kw {
                    *name = if rng.pct(70) { Some(w.next(rng)) } else { None };
                }
                rename(body, w, rng);
            }
        }
    }
}

struct Dump<'a> {
    lines: Vec<&'a str>,
    at: usize,
}

impl Dump<'_> {
    /// The next lines up to the first that contains all of `w`.
    fn find(&mut self, what: &str, w: &[&str]) -> Result<usize, Fail> {
        if self.at < self.lines.len() {
            let l = self.lines[self.at];
            if w.iter().all(|x| l.contains(x)) {
                self.at += 1;
                return Ok(l.len() - l.trim_start().len());
            }
        }
        fail(
            "ast-dump",
            format!(
                "line {} of the dump is {:?}, and not {} {:?}",
                self.at,
                self.lines.get(self.at),
                what,
                w
            ),
        )
    }

    fn attrs(&mut self, a: &Attrs) -> R {
        for (k, v) in a {
            let (k, v) = (format!("\"{}\"", k), format!("\"{}\"", v));
            self.find("the attribute", &[&k, &v])?;
        }
        Ok(())
    }

    fn nref(&mut self, r: &NRef) -> R {
        let l = match &r.1 {
            Some(p) => format!("{}:{}", r.0, p),
            None => r.0.clone(),
        };
        let start = self.at;
        self.find("the node", &[&l])?;
        let got = self.lines[start].trim_end();
        ck!(
            got.ends_with(&l),
            "ast-dump",
            "the node {:?} is dumped as {:?}",
            l,
            got
        );
        Ok(())
    }

    fn body(&mut self, body: &[S], depth: usize, n: &mut u64) -> R {
        for s in body {
            *n += 1;
            match s {
                S::Attr(t, a) => {
                    let w = match t {
                        Target::Graph => "Graph",
                        Target::Node => "Node",
                        Target::Edge => "Edge",
                    };
                    self.find("the target", &["Attribute", w])?;
                    self.attrs(a)?;
                }
                S::Assign(k, v) => {
                    self.find("the target", &["Attribute", "Graph"])?;
                    self.attrs(&vec![(k.clone(), v.clone())])?;
                }
                S::Node(r, a) => {
                    self.nref(r)?;
                    self.attrs(a)?;
                }
                S::Edge(f, to, a) => {
                    self.nref(f)?;
                    for (r, arrow) in to {
                        self.find("the arrow", &[if *arrow { "->" } else { "--" }])?;
                        self.nref(r)?;
                    }
                    self.attrs(a)?;
                }
                S::Sub { name, body, .. } => {
                    let name = name.clone().unwrap_or_default();
                    let d = self.find("the graph", &["Graph:", &name])?;
                    ck!(
                        d > depth,
                        "ast-indent",
                        "a graph inside another is not further to the right: {:?}",
                        self.lines[self.at - 1]
                    );
                    self.body(body, d, n)?;
                }
            }
        }
        Ok(())
    }
}

/// The dump of the AST shows every statement of the program, in order.
pub fn dumped(ctx: &mut Ctx) -> R {
    let size = ctx.rng.range(1, 9);
    let mut p = free_prog(&mut ctx.rng, size, false);
    let mut w = Words(0);
    if p.name.is_some() {
        p.name = Some(w.next(&mut ctx.rng));
    }
    rename(&mut p.body, &mut w, &mut ctx.rng);
    let text = gen::text_of(&p, &mut ctx.rng);
    ctx.set_input(text.clone());
    let g = match drive::parse(&text) {
        Ok(g) => g,
        Err(e) => return fail("rejects-valid", e),
    };
    let out = printed(|| layout::gv::dump_ast(&g));
    let mut d = Dump {
        lines: out.lines().collect(),
        at: 0,
    };
    let name = p.name.clone().unwrap_or_default();
    let depth = d.find("the graph", &["Graph:", &name])?;
    let mut n = 0;
    d.body(&p.body, depth, &mut n)?;
    ck!(
        d.at == d.lines.len(),
        "ast-dump",
        "the dump goes on with {:?}",
        d.lines[d.at]
    );
    ctx.count("statements_dumped", n);
    ctx.count("lines", d.lines.len() as u64);
    if n > 1 {
        ctx.nontrivial(hash_str(&text));
        if text.len() < 160 {
            ctx.sample(format!("{}\n{}", text, out));
        }
    }
    Ok(())
}
