//! Relations between several renderings of the same program.

use super::text::{near_text, some_prog};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::fd::AsRawFd;
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdout, Command, Stdio};
use vh::ck;
use vh::ctx::*;
use vh::drive::{self, Flags};
use vh::gen::{self, Opts};
use vh::prog::*;
use vh::rec::{Look, Op};
use vh::rng::{hash_str, Rng};

// ------------------------------------------------------------- determinism

/// Every node of the program gets an explicit label and another name.
fn rename(p: &Prog, rng: &mut Rng) -> Prog {
    fn names(body: &[S], out: &mut Vec<String>) {
        for s in body {
            match s {
                S::Node(n, _) => out.push(n.0.clone()),
                S::Edge(f, to, _) => {
                    out.push(f.0.clone());
                    out.extend(to.iter().map(|t| t.0 .0.clone()));
                }
                S::Sub { body, .. } => names(body, out),
                _ => {}
            }
        }
    }
    let mut all = Vec::new();
    names(&p.body, &mut all);
    all.sort();
    all.dedup();
    let mut map: HashMap<String, String> = HashMap::new();
    let style = rng.below(4);
    let mut order: Vec<usize> = (0..all.len()).collect();
    rng.shuffle(&mut order);
    for (n, k) in all.iter().zip(order) {
        map.insert(
            n.clone(),
            match style {
                0 => format!("z{}", k),
                1 => format!("{}", 9000 + k),
                2 => format!("name {} \"é\"", k),
                _ => all[k].clone(),
            },
        );
    }
    fn apply(body: &mut [S], map: &HashMap<String, String>) {
        for s in body {
            match s {
                S::Node(n, _) => n.0 = map[&n.0].clone(),
                S::Edge(f, to, _) => {
                    f.0 = map[&f.0].clone();
                    for t in to {
                        t.0 .0 = map[&t.0 .0].clone();
                    }
                }
                S::Sub { body, .. } => apply(body, map),
                _ => {}
            }
        }
    }
    let mut q = p.clone();
    apply(&mut q.body, &map);
    q
}

pub fn draw(text: &str, f: Flags) -> Result<String, Fail> {
    match drive::svg_of(text, f) {
        Ok(s) => Ok(s),
        Err(e) => fail("rejected", format!("{}\n{}", e, text)),
    }
}

pub fn same(what: &str, a: &str, b: &str, other: &str) -> R {
    if a == b {
        return Ok(());
    }
    let at = a.lines().zip(b.lines()).find(|x| x.0 != x.1);
    fail(
        what,
        format!(
            "the drawings differ ({} and {} bytes), first in {:?}; the other text:\n{}",
            a.len(),
            b.len(),
            at,
            other
        ),
    )
}

/// A logger that formats every message and throws it away.
struct Formatting;
static LOGGED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
impl log::Log for Formatting {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let n = format!("{} {}", r.target(), r.args()).len();
        LOGGED.fetch_add(n as u64, std::sync::atomic::Ordering::Relaxed);
    }
    fn flush(&self) {}
}
static LOGGER: Formatting = Formatting;

fn logged(text: &str, f: Flags) -> Result<String, Fail> {
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(log::LevelFilter::Trace);
    let r = draw(text, f);
    log::set_max_level(log::LevelFilter::Off);
    r
}

/// The build without features, debug assertions or instrumentation, which
/// check.sh makes from the tree under test.
struct Plain {
    child: Child,
    answers: BufReader<ChildStdout>,
}

extern "C" {
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn poll(fds: *mut PollFd, n: u64, timeout: i32) -> i32;
}
#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}

thread_local! {
    static PLAIN: RefCell<Option<Plain>> = const { RefCell::new(None) };
}

impl Plain {
    fn start() -> Plain {
        let path = match std::env::var("VH_PLAIN") {
            Ok(p) => p.into(),
            Err(_) => {
                let exe = std::env::current_exe().unwrap();
                exe.parent().unwrap().parent().unwrap().join("plain/release/vh_plain")
            }
        };
        let mut c = Command::new(path);
        c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        // It goes when its worker goes.
        unsafe {
            c.pre_exec(|| {
                prctl(1, 9, 0, 0, 0);
                Ok(())
            });
        }
        let mut child = c.spawn().expect("the plain build");
        let answers = BufReader::new(child.stdout.take().unwrap());
        Plain { child, answers }
    }

    /// What it answers, or nothing when it went away.
    fn ask(&mut self, text: &str, bits: usize) -> Option<(bool, String)> {
        let to = self.child.stdin.as_mut().unwrap();
        write!(to, "{} {}\n{}", bits, text.len(), text).ok()?;
        to.flush().ok()?;
        let mut p = PollFd { fd: self.answers.get_ref().as_raw_fd(), events: 1, revents: 0 };
        // Far longer than the monitored build is given.
        if unsafe { poll(&mut p, 1, 240_000) } == 0 {
            let _ = self.child.kill();
            return None;
        }
        let mut head = String::new();
        self.answers.read_line(&mut head).ok()?;
        let (kind, len) = head.trim_end().split_once(' ')?;
        let mut s = vec![0; len.parse().ok()?];
        self.answers.read_exact(&mut s).ok()?;
        Some((kind == "ok", String::from_utf8(s).ok()?))
    }
}

/// The build that users have says the same.
fn plain_build(ctx: &mut Ctx, text: &str, f: Flags, expect: &Result<String, String>) -> R {
    let got = PLAIN.with(|p| {
        let mut p = p.borrow_mut();
        let r = p.get_or_insert_with(Plain::start).ask(text, bits(f));
        if r.is_none() {
            *p = None;
        }
        r
    });
    let got = match got {
        Some((true, s)) => Ok(s),
        Some((false, s)) => Err(s),
        None => {
            return fail(
                "plain-build",
                format!("the build without logging and debug assertions failed or hung on:\n{}", text),
            )
        }
    };
    match (expect, &got) {
        (Ok(a), Ok(b)) => {
            same("plain-build", a, b, text)?;
            ctx.count("drawn_by_the_plain_build", 1);
        }
        (a, b) => {
            ck!(
                a == b,
                "plain-build",
                "one build rejects, or reports another error: {:?} but {:?}",
                a.as_ref().err(),
                b.as_ref().err()
            );
            ctx.count("rejected_by_the_plain_build", 1);
        }
    }
    Ok(())
}

pub fn deterministic(ctx: &mut Ctx) -> R {
    let th = ctx.thorough();
    let mut o = Opts::usual(&mut ctx.rng, th);
    o.size = o.size.min(30);
    // Labels are explicit in these programs, so names do not show.
    let p = gen::program(&mut ctx.rng, &o);
    let text = gen::text_of(&p, &mut ctx.rng);
    let f = Flags::from_bits(*ctx.rng.pick(&[0, 0, 0, 1, 2, 4, 6, 7]));
    ctx.set_input(format!("// {:?}\n{}", f, text));
    let first = draw(&text, f)?;
    // Again, at once and after other uses of the library.
    same("repeat", &first, &draw(&text, f)?, "")?;
    let q = some_prog(ctx, true);
    let other = gen::text_of(&q, &mut ctx.rng);
    let theirs = draw(&other, f)?;
    let _ = drive::parse("digraph { a -> [ }");
    same("after-others", &first, &draw(&text, f)?, &other)?;
    if ctx.rng.pct(30) {
        // A builder that is asked again, a writer that is asked again.
        match drive::again(&text, f) {
            Err(e) => return fail("rejected", e),
            Ok(v) => {
                for s in &v {
                    same("asked-again", &first, s, "")?;
                }
                ctx.count("asked_again", v.len() as u64);
            }
        }
    }
    ctx.count("repeated", 2);
    if ctx.rng.pct(30) {
        let before = LOGGED.load(std::sync::atomic::Ordering::Relaxed);
        same("logging", &first, &logged(&text, f)?, "")?;
        let n = LOGGED.load(std::sync::atomic::Ordering::Relaxed) - before;
        ctx.count("drawn_with_logging", 1);
        ctx.count("bytes_logged", n);
    }
    plain_build(ctx, &text, f, &Ok(first.clone()))?;
    plain_build(ctx, &other, f, &Ok(theirs.clone()))?;
    if ctx.rng.pct(30) {
        let broken = near_text(ctx, true);
        let r = match drive::parse(&broken) {
            // These may be too much to draw.
            Ok(_) => None,
            Err(e) => Some(Err(e)),
        };
        if let Some(r) = r {
            plain_build(ctx, &broken, f, &r)?;
        }
    }
    // Other names, other layout of the text.
    let r = rename(&p, &mut ctx.rng);
    let t2 = gen::text_of(&r, &mut ctx.rng);
    same("renamed", &first, &draw(&t2, f)?, &t2)?;
    let t3 = gen::text_of(&p, &mut ctx.rng);
    same("surface", &first, &draw(&t3, f)?, &t3)?;
    ctx.count("renamed", 1);
    ctx.count("other_surface", 1);
    if ctx.rng.pct(25) {
        // Threads that draw at the same time.
        let k = 3;
        let out: Vec<(bool, std::thread::Result<Result<String, String>>)> =
            std::thread::scope(|s| {
                let hs: Vec<_> = (0..k)
                    .map(|i| {
                        let mine = i != 1;
                        let t = if mine { &text } else { &other };
                        (
                            mine,
                            std::thread::Builder::new()
                                .stack_size(8 << 20)
                                .spawn_scoped(s, move || drive::svg_of(t, f))
                                .expect("thread"),
                        )
                    })
                    .collect();
                hs.into_iter().map(|(m, h)| (m, h.join())).collect()
            });
        for (mine, r) in out {
            let s = match r {
                Ok(Ok(s)) => s,
                Ok(Err(e)) => return fail("rejected", e),
                Err(_) => return fail("thread-panic", "a thread panicked".into()),
            };
            if mine {
                same("threads", &first, &s, "")?;
            } else {
                same("threads", &theirs, &s, &other)?;
            }
            ctx.count("drawn_in_concurrent_threads", 1);
        }
    }
    if ctx.rng.pct(6) {
        // Another process, with other hash seeds.
        let mut c = Command::new(std::env::current_exe().unwrap())
            .args(["svg", &bits(f).to_string()])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn");
        let _ = c.stdin.take().unwrap().write_all(text.as_bytes());
        let out = c.wait_with_output().expect("wait");
        ck!(out.status.success(), "process", "the other process failed: {}", out.status);
        same("process", &first, &String::from_utf8_lossy(&out.stdout), "")?;
        ctx.count("drawn_in_another_process", 1);
    }
    ctx.nontrivial(hash_str(&text));
    if text.len() < 300 {
        ctx.sample(text);
    }
    Ok(())
}

fn bits(f: Flags) -> usize {
    f.debug as usize | (f.no_opt as usize) << 1 | (f.no_layout as usize) << 2
}

/// The other process: draws its standard input.
pub fn svg_main(bits: &str) -> ! {
    let s = std::io::read_to_string(std::io::stdin()).unwrap();
    let f = Flags::from_bits(bits.parse().unwrap());
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || drive::svg_of(&s, f).unwrap())
        .unwrap();
    let svg = h.join().unwrap();
    std::io::stdout().write_all(svg.as_bytes()).unwrap();
    std::process::exit(0)
}

// ------------------------------------------------------------------- flags

type Sizes = Vec<(f64, f64)>;

/// What is drawn, places aside: a description of each thing, with the sizes
/// of all things that have this description.
fn content(ops: &[Op]) -> BTreeMap<String, Sizes> {
    let mut m: BTreeMap<String, Sizes> = BTreeMap::new();
    let l = |k: &Look| format!("{:?}", k);
    for o in ops {
        let (k, s) = match o {
            Op::Rect { size, look, props, clip, .. } => (
                format!("box {} {:?} clipped {}", l(look), props, clip.is_some()),
                *size,
            ),
            Op::Circle { size, look, props, .. } => {
                (format!("ellipse {} {:?}", l(look), props), *size)
            }
            Op::Line { look, props, .. } => {
                (format!("line {} {:?}", l(look), props), (0., 0.))
            }
            Op::Text { text, look, .. } => {
                (format!("text {:?} {}", text, l(look)), (0., 0.))
            }
            Op::Arrow { dashed, head, look, props, text, .. } => (
                // The path may run either way.
                format!(
                    "edge {} dashed {} heads {} {:?} {:?}",
                    l(look),
                    dashed,
                    head.0 as u8 + head.1 as u8,
                    props,
                    text
                ),
                (0., 0.),
            ),
            Op::Clip { size, rounded, .. } => (format!("clip {}", rounded), *size),
        };
        m.entry(k).or_default().push(s);
    }
    for v in m.values_mut() {
        v.sort_by(|a, b| a.0.total_cmp(&b.0).then(a.1.total_cmp(&b.1)));
    }
    m
}

fn close(a: &Sizes, b: &Sizes) -> bool {
    // Sizes may differ by rounding, which may change their order: sort each
    // axis alone too.
    let axis = |v: &Sizes, k: usize| {
        let mut x: Vec<f64> =
            v.iter().map(|p| if k == 0 { p.0 } else { p.1 }).collect();
        x.sort_by(f64::total_cmp);
        x
    };
    a.len() == b.len()
        && (0..2).all(|k| {
            axis(a, k)
                .iter()
                .zip(axis(b, k))
                .all(|(x, y)| (x - y).abs() <= 1e-6 * (1. + x.abs()))
        })
}

/// Is `short` a subsequence of `long`? The ones that were not matched.
fn extras<'a>(short: &[Op], long: &'a [Op]) -> Result<Vec<&'a Op>, usize> {
    let mut i = 0;
    let mut e = Vec::new();
    for o in long {
        if i < short.len() && near(&short[i], o) {
            i += 1;
        } else {
            e.push(o);
        }
    }
    if i == short.len() {
        Ok(e)
    } else {
        Err(i)
    }
}

fn near(a: &Op, b: &Op) -> bool {
    match (a, b) {
        // Handles are only names.
        (
            Op::Rect { xy, size, look, props, clip },
            Op::Rect { xy: x2, size: s2, look: l2, props: p2, clip: c2 },
        ) => {
            xy == x2
                && size == s2
                && look == l2
                && props == p2
                && clip.is_some() == c2.is_some()
        }
        (
            Op::Clip { xy, size, rounded, .. },
            Op::Clip { xy: x2, size: s2, rounded: r2, .. },
        ) => xy == x2 && size == s2 && rounded == r2,
        _ => a == b,
    }
}

pub fn flags(ctx: &mut Ctx) -> R {
    let th = ctx.thorough();
    let mut o = Opts::usual(&mut ctx.rng, th);
    o.size = o.size.min(30);
    let p = gen::program(&mut ctx.rng, &o);
    let text = gen::text_of(&p, &mut ctx.rng);
    ctx.set_input(text.clone());
    let ops = |f: Flags| match drive::ops_of(&text, f) {
        Ok(x) => Ok(x),
        Err(e) => fail("rejected", e),
    };
    let mut plain: Vec<Vec<Op>> = Vec::new();
    for b in [0, 2, 4, 6] {
        let f = Flags::from_bits(b);
        plain.push(ops(f)?);
    }
    let k = ctx.rng.below(4);
    let f = Flags::from_bits(1 + 2 * k);
    let dbg = ops(f)?;
    match extras(&plain[k], &dbg) {
        Err(i) => {
            return fail(
                "debug-lost",
                format!("with {:?} this is not drawn as without: {:?}", f, plain[k][i]),
            )
        }
        Ok(e) => {
            for o in &e {
                ck!(
                    !matches!(o, Op::Text { .. } | Op::Arrow { .. } | Op::Clip { .. }),
                    "debug-extra",
                    "an annotation of {:?} is {:?}",
                    f,
                    o
                );
            }
            ctx.count("debug_annotations", e.len() as u64);
        }
    }
    let base = content(&plain[0]);
    for (i, other) in plain.iter().enumerate().skip(1) {
        let c = content(other);
        for (k, v) in &base {
            let w = c.get(k).cloned().unwrap_or_default();
            ck!(
                close(v, &w),
                "flag-content",
                "{}: sizes {:?} without flags, {:?} with {:?}",
                k,
                v,
                w,
                Flags::from_bits(2 * i)
            );
        }
        if let Some(k) = c.keys().find(|k| !base.contains_key(*k)) {
            return fail(
                "flag-content",
                format!("only with {:?}: {}", Flags::from_bits(2 * i), k),
            );
        }
        ctx.count("drawings_compared", 1);
    }
    ctx.count("draw_calls", dbg.len() as u64);
    ctx.nontrivial(hash_str(&text));
    if text.len() < 300 {
        ctx.sample(text);
    }
    Ok(())
}
