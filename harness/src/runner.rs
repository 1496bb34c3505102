//! The parent process spreads the cases over worker processes, watches how
//! each worker ends, and turns what it saw into a three-valued verdict:
//!
//! * violated: a monitor reported it, or the code under test panicked, crashed
//!   (stack overflow, abort, fatal signal), ran out of its address space, or
//!   exceeded its step budget;
//! * held on what was observed;
//! * inconclusive (exit 2): the wall-clock watchdog fired, a worker was killed
//!   from outside, or nothing was observed.

use crate::ctx::{Ctx, Fail, Tier, R};
use crate::fuel;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    /// Cases in the quick and thorough tiers.
    pub quick: u64,
    pub thorough: u64,
    /// Step budget of one case.
    pub fuel: u64,
    pub run: fn(&mut Ctx) -> R,
    /// What counts as a distinct non-trivial case.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

fn esc(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        match c {
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\r' => r.push_str("\\r"),
            c => r.push(c),
        }
    }
    r
}
fn unesc(s: &str) -> String {
    let mut r = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => r.push('\n'),
                Some('r') => r.push('\r'),
                Some(c) => r.push(c),
                None => {}
            }
        } else {
            r.push(c)
        }
    }
    r
}

pub fn json_str(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\r' => r.push_str("\\r"),
            '\t' => r.push_str("\\t"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => {
                r.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> =
        const { std::cell::RefCell::new(String::new()) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        LAST_PANIC.with(|p| {
            if let Ok(mut x) = p.try_borrow_mut() {
                *x = s;
            }
        });
    }));
}

pub fn take_panic() -> String {
    LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()))
}

/// A panic message with its line numbers removed, as a stable signature.
fn panic_sig(s: &str) -> String {
    let one: String = s
        .lines()
        .last()
        .unwrap_or("")
        .chars()
        .filter(|c| !c.is_ascii_digit())
        .take(60)
        .collect();
    format!("panic:{}", one)
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
}

/// The code under test may print. Keep its output away from the report: the
/// report goes to a copy of the standard output, what is printed to a file
/// that nobody reads.
fn take_stdout() -> std::fs::File {
    use std::os::fd::{AsRawFd, FromRawFd};
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
    unsafe {
        let fd = dup(1);
        assert!(fd > 2);
        dup2(null.as_raw_fd(), 1);
        std::fs::File::from_raw_fd(fd)
    }
}

const WORKER_MEMORY: u64 = 3 << 30;

fn limit_memory() {
    // RLIMIT_AS = 9 on Linux. RLIMIT_CORE = 4.
    unsafe {
        setrlimit(9, &[WORKER_MEMORY, WORKER_MEMORY]);
        setrlimit(4, &[0, 0]);
    }
}

pub fn run_one(p: &Prop, ctx: &mut Ctx, i: u64) -> R {
    ctx.begin(i);
    fuel::refill(p.fuel);
    let r = catch_unwind(AssertUnwindSafe(|| (p.run)(ctx)));
    let steps = fuel::steps();
    fuel::unlimited();
    ctx.max("steps_per_case", steps);
    ctx.count("evaluations", 1);
    match r {
        Ok(r) => r,
        Err(_) => {
            let m = take_panic();
            Err(Fail {
                sig: panic_sig(&m),
                msg: format!("panicked: {}", m),
            })
        }
    }
}

fn soft_cap(tier: Tier) -> Duration {
    let dflt = if tier == Tier::Quick { 300 } else { 640 };
    let s = std::env::var("VH_SOFT_CAP").ok().and_then(|x| x.parse().ok());
    Duration::from_secs(s.unwrap_or(dflt))
}

fn worker(p: &'static Prop, tier: Tier, seed: u64, from: u64, step: u64, to: u64) {
    limit_memory();
    install_hook();
    let h = std::thread::Builder::new()
        // The default stack of a main thread.
        .stack_size(8 << 20)
        .spawn(move || {
            let mut out = take_stdout();
            let mut ctx = Ctx::new(p.id, seed, tier);
            let mut i = from;
            let mut fails = 0;
            let t0 = Instant::now();
            while i < to {
                if t0.elapsed() > soft_cap(tier) {
                    // Report what was observed so far.
                    ctx.count("workers_stopped_by_soft_cap", 1);
                    break;
                }
                let _ = out.write_all(format!("B {}\n", i).as_bytes());
                let _ = out.flush();
                if let Err(f) = run_one(p, &mut ctx, i) {
                    let line = format!(
                        "F {} {} | {}\n",
                        i,
                        esc(&f.sig),
                        esc(&format!("{}\n--- input ---\n{}", f.msg, ctx.input()))
                    );
                    let _ = out.write_all(line.as_bytes());
                    let _ = out.flush();
                    fails += 1;
                    if fails >= 20 {
                        break;
                    }
                }
                i += step;
            }
            let mut s = String::new();
            for (k, v) in ctx.counters() {
                s.push_str(&format!("C {} {}\n", v, k));
            }
            for (k, v) in ctx.maxima() {
                s.push_str(&format!("M {} {}\n", v, k));
            }
            for d in &ctx.distinct {
                s.push_str(&format!("D {:x}\n", d));
            }
            for d in &ctx.samples {
                s.push_str(&format!("S {}\n", esc(d)));
            }
            s.push_str(&format!("G {}\n", fuel::num_guards()));
            s.push_str("V");
            for e in fuel::edges_hit() {
                s.push_str(&format!(" {}", e));
            }
            s.push_str("\nEND\n");
            let _ = out.write_all(s.as_bytes());
            let _ = out.flush();
        })
        .unwrap();
    let _ = h.join();
}

enum Ev {
    Line(usize, String),
    Done(usize),
}

struct Slot {
    child: Child,
    begun: Option<u64>,
    last: Instant,
    /// The CPU time of the worker, some time into a long case.
    cpu0: Option<f64>,
    ended: bool,
    killed: bool,
    err: std::thread::JoinHandle<String>,
}

fn spawn(
    w: usize,
    tx: &mpsc::Sender<Ev>,
    args: &[String],
) -> Slot {
    let exe = std::env::current_exe().unwrap();
    let mut child = Command::new(exe)
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("spawn worker");
    let so = child.stdout.take().unwrap();
    let se = child.stderr.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
        for line in BufReader::new(so).split(b'\n') {
            match line {
                Ok(l) => {
                    let l = String::from_utf8_lossy(&l).into_owned();
                    if tx.send(Ev::Line(w, l)).is_err() {
                        return;
                    }
                }
                Err(_) => break,
            }
        }
        let _ = tx.send(Ev::Done(w));
    });
    let err = std::thread::spawn(move || {
        use std::io::Read;
        let mut keep = String::new();
        let mut se = se;
        let mut buf = [0u8; 4096];
        while let Ok(n) = se.read(&mut buf) {
            if n == 0 {
                break;
            }
            keep.push_str(&String::from_utf8_lossy(&buf[..n]));
            if keep.len() > 16384 {
                let mut cut = keep.len() - 8192;
                while !keep.is_char_boundary(cut) {
                    cut += 1;
                }
                keep = keep[cut..].to_string();
            }
        }
        keep
    });
    Slot {
        child,
        begun: None,
        last: Instant::now(),
        cpu0: None,
        ended: false,
        killed: false,
        err,
    }
}

pub struct Found {
    pub case: u64,
    pub sig: String,
    pub msg: String,
}

/// The signatures of the findings that are recorded for this property.
fn known_findings(prop: &str) -> Vec<(String, String)> {
    // Lines: "known: property=C05 sig=<sig> what=<text>"
    let path = std::env::var("VH_KNOWN").unwrap_or_default();
    let txt = std::fs::read_to_string(path).unwrap_or_default();
    let mut v = Vec::new();
    for l in txt.lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            if let Some((id, rest)) = r.split_once(' ') {
                if id == prop {
                    if let Some(rest) = rest.strip_prefix("sig=") {
                        if let Some((s, w)) = rest.split_once(" what=") {
                            v.push((s.to_string(), w.to_string()));
                        }
                    }
                }
            }
        }
    }
    v
}

/// The CPU time that one of our workers has used.
fn cpu_seconds(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.);
    // In hundredths of a second.
    (n(11) + n(12)) / 100.
}

fn parent(p: &'static Prop, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let tname = if tier == Tier::Quick { "quick" } else { "thorough" };
    let mut total = if tier == Tier::Quick { p.quick } else { p.thorough };
    if let Ok(x) = std::env::var("VH_CASES") {
        total = x.parse().unwrap();
    }
    let soft = soft_cap(tier) + Duration::from_secs(60);
    // Generous: the step budget decides, this only keeps a run from hanging.
    let watchdog = Duration::from_secs(240);
    let nw = std::thread::available_parallelism()
        .map(|x| x.get())
        .unwrap_or(4)
        .clamp(1, 16) as u64;
    let nw = nw.min(total.max(1));
    let (tx, rx) = mpsc::channel();
    let mk = |from: u64| -> Vec<String> {
        vec![
            "worker".into(),
            p.id.into(),
            tname.into(),
            seed.to_string(),
            from.to_string(),
            nw.to_string(),
            total.to_string(),
        ]
    };
    let mut slots: Vec<Option<Slot>> = Vec::new();
    for w in 0..nw {
        slots.push(Some(spawn(w as usize, &tx, &mk(w))));
    }
    let mut live = nw;
    let mut found: Vec<Found> = Vec::new();
    let mut inconclusive: Vec<String> = Vec::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut maxima: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<String> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut edges: HashSet<u32> = HashSet::new();
    let mut guards = 0u64;
    let mut begun_total = 0u64;
    let mut restarts = 0;
    let mut stop = false;
    let known = known_findings(p.id);
    let is_known = |sig: &str| known.iter().any(|k| k.0 == sig);

    while live > 0 {
        let ev = rx.recv_timeout(Duration::from_millis(500));
        let over = t0.elapsed() > soft;
        if over && !stop {
            // Soft cap: report what was observed so far.
            stop = true;
        }
        for s in slots.iter_mut().flatten() {
            if !s.ended && !s.killed && s.last.elapsed() > Duration::from_secs(2) {
                // On a busy machine a case may wait for long without running.
                let now = cpu_seconds(s.child.id());
                let used = now - *s.cpu0.get_or_insert(now);
                if s.last.elapsed() > watchdog && used > watchdog.as_secs_f64() / 2.
                    || s.last.elapsed() > 3 * watchdog
                {
                    s.killed = true;
                    let _ = s.child.kill();
                }
            }
            if over && !s.killed && t0.elapsed() > soft + Duration::from_secs(5)
            {
                s.killed = true;
                let _ = s.child.kill();
            }
        }
        let ev = match ev {
            Ok(e) => e,
            Err(_) => continue,
        };
        match ev {
            Ev::Line(w, l) => {
                let s = slots[w].as_mut().unwrap();
                s.last = Instant::now();
                s.cpu0 = None;
                let (k, rest) = l.split_once(' ').unwrap_or((&l, ""));
                match k {
                    "B" => {
                        s.begun = rest.parse().ok();
                        begun_total += 1;
                    }
                    "F" => {
                        let (i, r) = rest.split_once(' ').unwrap_or((rest, ""));
                        let (sig, msg) = r.split_once(" | ").unwrap_or((r, ""));
                        found.push(Found {
                            case: i.parse().unwrap_or(0),
                            sig: unesc(sig),
                            msg: unesc(msg),
                        });
                    }
                    "C" => {
                        let (v, n) = rest.split_once(' ').unwrap();
                        *counters.entry(n.into()).or_insert(0) +=
                            v.parse::<u64>().unwrap_or(0);
                    }
                    "M" => {
                        let (v, n) = rest.split_once(' ').unwrap();
                        let e = maxima.entry(n.into()).or_insert(0);
                        *e = (*e).max(v.parse::<u64>().unwrap_or(0));
                    }
                    "D" => {
                        distinct.insert(rest.to_string());
                    }
                    "S" => samples.push(unesc(rest)),
                    "G" => guards = rest.parse().unwrap_or(0),
                    "V" => {
                        for x in rest.split(' ') {
                            if let Ok(x) = x.parse() {
                                edges.insert(x);
                            }
                        }
                    }
                    "END" => s.ended = true,
                    _ => {}
                }
            }
            Ev::Done(w) => {
                let mut s = slots[w].take().unwrap();
                let st = s.child.wait().unwrap();
                let err = s.err.join().unwrap_or_default();
                if s.ended {
                    live -= 1;
                    continue;
                }
                let case = s.begun;
                let mut again = false;
                if s.killed {
                    if over {
                        counters
                            .entry("workers_stopped_by_soft_cap".into())
                            .and_modify(|x| *x += 1)
                            .or_insert(1);
                    } else {
                        inconclusive.push(format!(
                            "watchdog: case {:?} gave no answer in {} s",
                            case,
                            watchdog.as_secs()
                        ));
                    }
                } else if st.code() == Some(fuel::FUEL_EXIT) {
                    found.push(Found {
                        case: case.unwrap_or(0),
                        sig: "step-budget".into(),
                        msg: format!(
                            "exceeded the budget of {} executed edges",
                            p.fuel
                        ),
                    });
                    again = true;
                } else {
                    use std::os::unix::process::ExitStatusExt;
                    let sig = st.signal();
                    let what = if err.contains("has overflowed its stack") {
                        Some("stack-overflow")
                    } else if err.contains("memory allocation of") {
                        Some("address-space")
                    } else if matches!(sig, Some(4 | 6 | 7 | 8 | 11)) {
                        Some("fatal-signal")
                    } else {
                        None
                    };
                    match (what, case) {
                        (Some(x), Some(c)) => {
                            found.push(Found {
                                case: c,
                                sig: x.to_string(),
                                msg: format!(
                                    "{}: {} {}",
                                    x,
                                    st,
                                    err.lines().take(4).collect::<Vec<_>>().join(" / ")
                                ),
                            });
                            again = true;
                        }
                        _ => inconclusive.push(format!(
                            "worker ended with {} at case {:?}: {}",
                            st, case, err
                        )),
                    }
                }
                let fresh =
                    found.iter().filter(|f| !is_known(&f.sig)).count();
                if again && restarts < 40 && fresh < 5 && !stop {
                    restarts += 1;
                    slots[w] =
                        Some(spawn(w, &tx, &mk(case.unwrap_or(0) + nw)));
                } else {
                    live -= 1;
                }
            }
        }
    }

    // --- verdict
    let wall = t0.elapsed().as_secs_f64();
    found.sort_by_key(|f| f.case);
    let evals = counters.remove("evaluations").unwrap_or(0).max(
        // Workers that were stopped did not report; count what they began.
        if stop || !found.is_empty() { begun_total.saturating_sub(nw) } else { 0 },
    );
    let mut code = 0;
    let mut printed = Vec::new();
    let mut known_seen: Vec<&str> = Vec::new();
    let mut fresh: Vec<&Found> = Vec::new();
    for f in &found {
        match known.iter().find(|k| k.0 == f.sig) {
            Some(k) => {
                if !known_seen.contains(&&k.0[..]) {
                    known_seen.push(&k.0);
                }
            }
            None => fresh.push(f),
        }
    }
    // The listed findings are reported whether or not this run met them.
    for k in &known {
        println!("KNOWN-FINDING: property={} {} ({})", p.id, k.1, k.0);
    }
    let rdir = std::env::var("VH_REPLAYS").unwrap_or("/verif/replays".into());
    let _ = std::fs::create_dir_all(&rdir);
    let mut seen_sig: HashSet<String> = HashSet::new();
    for f in fresh.iter() {
        if !seen_sig.insert(f.sig.clone()) || printed.len() >= 10 {
            continue;
        }
        let path = format!("{}/{}-{}-{}-{}.txt", rdir, p.id, tname, seed, f.case);
        let exe = std::env::current_exe().unwrap();
        let mut msg = f.msg.clone();
        if !msg.contains("--- input ---") {
            // The worker died: fetch the input from a second, disposable run.
            let tmp = format!("{}.input", path);
            let _ = Command::new(&exe)
                .args(["worker", p.id, tname])
                .args([seed.to_string(), f.case.to_string(), "1".into()])
                .arg((f.case + 1).to_string())
                .env("VH_DUMP", &tmp)
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .status();
            let s = std::fs::read(&tmp).unwrap_or_default();
            let _ = std::fs::remove_file(&tmp);
            msg.push_str("\n--- input ---\n");
            msg.push_str(&String::from_utf8_lossy(&s));
        }
        let body = format!(
            "property: {}\nseed: {}\ntier: {}\ncase: {}\nsignature: {}\n\
             replay: {} case {} {} {} {}\n\n{}\n",
            p.id,
            seed,
            tname,
            f.case,
            f.sig,
            exe.display(),
            p.id,
            tname,
            seed,
            f.case,
            msg
        );
        let _ = std::fs::write(&path, body);
        println!("VIOLATION property={} replay={}", p.id, path);
        let head: String = msg.chars().take(600).collect();
        println!("  [{}] {}", f.sig, head.replace('\n', "\n  "));
        printed.push((path, f.sig.clone()));
        code = 1;
    }
    if code == 0 {
        if !inconclusive.is_empty() {
            for m in &inconclusive {
                eprintln!("INCONCLUSIVE property={} {}", p.id, m);
            }
            code = 2;
        } else if evals == 0 || distinct.is_empty() {
            eprintln!(
                "INCONCLUSIVE property={} nothing was observed ({} cases)",
                p.id, evals
            );
            code = 2;
        }
    }

    // --- evidence
    samples.sort();
    samples.dedup();
    // Spread the samples that are kept.
    let keep = 6.min(samples.len());
    let kept: Vec<String> = (0..keep)
        .map(|k| samples[k * samples.len() / keep.max(1)].clone())
        .collect();
    let mut ev = String::from("{\n");
    ev.push_str(&format!("  \"property\": {},\n", json_str(p.id)));
    ev.push_str(&format!("  \"tier\": {},\n", json_str(tname)));
    ev.push_str(&format!("  \"seed\": {},\n", seed));
    ev.push_str("  \"level\": \"exploration\",\n");
    ev.push_str("  \"coverage\": {\n");
    ev.push_str(&format!("    \"evaluations\": {},\n", evals));
    ev.push_str(&format!(
        "    \"distinct_nontrivial\": {},\n",
        distinct.len()
    ));
    ev.push_str(&format!("    \"rule\": {},\n", json_str(p.rule)));
    ev.push_str("    \"samples\": [");
    ev.push_str(
        &kept.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
    );
    ev.push_str("],\n");
    ev.push_str("    \"observed\": {");
    let mut parts: Vec<String> = counters
        .iter()
        .map(|(k, v)| format!("{}: {}", json_str(k), v))
        .collect();
    parts.extend(
        maxima
            .iter()
            .map(|(k, v)| format!("{}: {}", json_str(&format!("max_{}", k)), v)),
    );
    ev.push_str(&parts.join(", "));
    ev.push_str("},\n");
    ev.push_str(&format!(
        "    \"code_edges_executed\": {},\n    \"code_edges_total\": {},\n    \"step_budget_per_case\": {}\n",
        edges.len(),
        guards,
        p.fuel
    ));
    ev.push_str("  },\n");
    ev.push_str(&format!("  \"wall_s\": {:.2},\n", wall));
    ev.push_str(&format!("  \"violations\": {},\n", seen_sig.len()));
    ev.push_str("  \"assumptions\": [");
    ev.push_str(
        &p.assumptions
            .iter()
            .map(|s| json_str(s))
            .collect::<Vec<_>>()
            .join(", "),
    );
    ev.push_str("]\n}\n");
    if let Ok(path) = std::env::var("VH_EVIDENCE") {
        if let Err(e) = std::fs::write(&path, &ev) {
            eprintln!("cannot write {}: {}", path, e);
            return 2;
        }
    }
    println!(
        "{} {} seed={} cases={} distinct={} edges={}/{} max_steps={} \
         known={} violations={} {:.1}s",
        p.id,
        tname,
        seed,
        evals,
        distinct.len(),
        edges.len(),
        guards,
        maxima.get("steps_per_case").unwrap_or(&0),
        known_seen.len(),
        seen_sig.len(),
        wall
    );
    if std::env::var("VH_VERBOSE").is_ok() {
        println!("  {}", parts.join(" "));
    }
    code
}

pub fn main(props: &'static [Prop]) -> ! {
    let a: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!(
            "usage: {} run|case|worker|list PROPERTY quick|thorough SEED ..",
            a[0]
        );
        std::process::exit(3)
    };
    if a.get(1).map(|x| x == "list").unwrap_or(false) {
        for p in props {
            println!("{}", p.id);
        }
        std::process::exit(0);
    }
    if a.len() < 5 {
        usage();
    }
    let p = match props.iter().find(|p| p.id == a[2]) {
        Some(p) => p,
        None => usage(),
    };
    let tier = if a[3] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let seed: u64 = a[4].parse().unwrap_or(1);
    match a[1].as_str() {
        "run" => std::process::exit(parent(p, tier, seed)),
        "worker" => {
            let n = |k: usize| a[k].parse::<u64>().unwrap();
            worker(p, tier, seed, n(5), n(6), n(7));
            std::process::exit(0)
        }
        "case" => {
            let i: u64 = a[5].parse().unwrap();
            let h = std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    limit_memory();
                    install_hook();
                    let mut out = take_stdout();
                    let mut ctx = Ctx::new(p.id, seed, tier);
                    let r = run_one(p, &mut ctx, i);
                    let v = match r {
                        Ok(()) => "held".to_string(),
                        Err(f) => format!("violated [{}] {}", f.sig, f.msg),
                    };
                    let _ = writeln!(
                        out,
                        "--- input ---\n{}\n--- verdict ---\n{}",
                        ctx.input(),
                        v
                    );
                })
                .unwrap();
            let _ = h.join();
            std::process::exit(0)
        }
        _ => usage(),
    }
}
