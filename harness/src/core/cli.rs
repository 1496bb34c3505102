//! The command line tool, run for real, with working and failing files.

use super::diag::printed;
use super::text::near_text;
use std::fs;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Output, Stdio};
use vh::ck;
use vh::ctx::*;
use vh::drive::{self, Flags};
use vh::gen::{self, Opts};
use vh::rng::hash_str;

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn signal(signum: i32, handler: usize) -> usize;
}

/// The tool, which check.sh builds from the tree under test.
fn tool() -> PathBuf {
    if let Ok(p) = std::env::var("VH_CLI") {
        return p.into();
    }
    let exe = std::env::current_exe().unwrap();
    exe.parent().unwrap().parent().unwrap().join("cli/debug/layout")
}

struct Scratch(PathBuf);

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn scratch(case: u64) -> Scratch {
    let d = std::env::temp_dir()
        .join(format!("vh-cli-{}-{}", std::process::id(), case));
    let _ = fs::remove_dir_all(&d);
    fs::create_dir(&d).expect("scratch directory");
    fs::set_permissions(&d, fs::Permissions::from_mode(0o755)).unwrap();
    Scratch(d)
}

/// Arguments for these flags, in some spelling and order.
fn args(ctx: &mut Ctx, f: Flags, input: &Path, output: &Path) -> Vec<String> {
    let s = |p: &Path| p.to_str().unwrap().to_string();
    let mut groups: Vec<Vec<String>> = Vec::new();
    if f.debug {
        groups.push(vec![ctx.rng.pick(&["-d", "--debug"]).to_string()]);
    }
    if f.no_opt {
        groups.push(vec!["--no-optz".into()]);
    }
    if f.no_layout {
        groups.push(vec!["--no-layout".into()]);
    }
    groups.push(match ctx.rng.below(4) {
        0 => vec![format!("--output={}", s(output))],
        1 => vec!["--output".into(), s(output)],
        2 => vec![format!("-o{}", s(output))],
        _ => vec!["-o".into(), s(output)],
    });
    groups.push(vec![s(input)]);
    ctx.rng.shuffle(&mut groups);
    groups.concat()
}

fn run(args: &[String], nobody: bool, file_limit: Option<u64>) -> std::io::Result<Output> {
    run_in(Path::new("/"), None, args, nobody, file_limit)
}

fn run_in(
    place: &Path,
    log: Option<&str>,
    args: &[String],
    nobody: bool,
    file_limit: Option<u64>,
) -> std::io::Result<Output> {
    let mut c = Command::new(tool());
    c.args(args)
        .env_remove("RUST_LOG")
        .env_remove("RUST_LOG_STYLE")
        .current_dir(place)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    if let Some(l) = log {
        c.env("RUST_LOG", l);
    }
    if nobody {
        c.uid(65534).gid(65534);
    }
    if let Some(n) = file_limit {
        unsafe {
            c.pre_exec(move || {
                // SIGXFSZ is ignored; RLIMIT_FSIZE cuts the file.
                signal(25, 1);
                setrlimit(1, &[n, n]);
                Ok(())
            });
        }
    }
    c.output()
}

fn told(o: &Output) -> bool {
    !o.stdout.is_empty() || !o.stderr.is_empty()
}

fn show(o: &Output) -> String {
    format!(
        "{}; stdout {:?}; stderr {:?}",
        o.status,
        String::from_utf8_lossy(&o.stdout).chars().take(300).collect::<String>(),
        String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>()
    )
}

pub fn tool_writes(ctx: &mut Ctx) -> R {
    if !tool().exists() {
        panic!("harness: there is no tool at {}", tool().display());
    }
    let dir = scratch(ctx.case);
    let kind = ctx.rng.below(10);
    let th = ctx.thorough();
    let text = if kind < 3 {
        // Often not a program.
        near_text(ctx, true)
    } else {
        let mut o = Opts::usual(&mut ctx.rng, th);
        o.size = o.size.min(12);
        let p = gen::program(&mut ctx.rng, &o);
        gen::text_of(&p, &mut ctx.rng)
    };
    let f = Flags::from_bits(ctx.rng.below(8));
    let input = dir.0.join(*ctx.rng.pick(&["in.dot", "in put.gv", "é.txt", "x"]));
    fs::write(&input, &text).unwrap();
    let mut output = dir.0.join(*ctx.rng.pick(&["out.svg", "o u t", "é.svg", "in.dot.svg"]));
    // What is there before.
    let before: Option<Vec<u8>> = match ctx.rng.below(4) {
        0 => Some(b"short".to_vec()),
        1 => Some(vec![b'#'; 200_000]),
        _ => None,
    };
    if let Some(b) = &before {
        fs::write(&output, b).unwrap();
    }
    let want = drive::svg_of(&text, f);
    let fault = if want.is_ok() { ctx.rng.below(16) } else { 99 };
    let mut note = format!("// {:?} fault {}\n", f, fault);
    note.push_str(&text);
    ctx.set_input(note);
    let untouched = |out: &Path| -> R {
        let now = fs::read(out).ok();
        ck!(
            now == before,
            "output-touched",
            "the output file changed from {:?} to {:?} bytes",
            before.as_ref().map(|b| b.len()),
            now.map(|b| b.len())
        );
        Ok(())
    };
    let mut count = "";
    match fault {
        0 | 1 => {
            // No such directory, or a directory.
            count = "fault_no_such_place";
            let out = if fault == 0 {
                dir.0.join("missing/out.svg")
            } else {
                dir.0.clone()
            };
            let a = args(ctx, f, &input, &out);
            let r = run(&a, false, None).expect("run");
            ck!(told(&r), "silent-failure", "{:?} was not written: {}", out, show(&r));
        }
        2 => {
            count = "fault_device_full";
            let full = Path::new("/dev/full");
            if full.exists() {
                let a = args(ctx, f, &input, full);
                let r = run(&a, false, None).expect("run");
                ck!(told(&r), "silent-failure", "/dev/full: {}", show(&r));
            } else {
                ctx.count("no_dev_full", 1);
            }
        }
        3 => {
            // The file system takes a part of the file only.
            count = "fault_file_limit";
            let whole = want.as_ref().unwrap().len();
            let n = ctx.rng.below(whole) as u64;
            let a = args(ctx, f, &input, &output);
            let r = run(&a, false, Some(n)).expect("run");
            ck!(
                told(&r),
                "silent-failure",
                "only {} of {} bytes were written: {}",
                n,
                whole,
                show(&r)
            );
        }
        4 => {
            count = "fault_read_only";
            let first = b"read only".to_vec();
            fs::write(&output, &first).unwrap();
            fs::set_permissions(&output, fs::Permissions::from_mode(0o444)).unwrap();
            let a = args(ctx, f, &input, &output);
            match run(&a, true, None) {
                Err(_) => ctx.count("cannot_run_as_nobody", 1),
                Ok(r) => {
                    ck!(told(&r), "silent-failure", "read-only file: {}", show(&r));
                    ck!(
                        fs::read(&output).ok() == Some(first),
                        "output-touched",
                        "a read-only file changed"
                    );
                }
            }
        }
        5 => {
            count = "fault_no_input";
            let a = args(ctx, f, &dir.0.join("nothing"), &output);
            let r = run(&a, false, None).expect("run");
            ck!(told(&r), "silent-failure", "no input: {}", show(&r));
            untouched(&output)?;
        }
        6 => {
            count = "fault_input_not_text";
            fs::write(&input, [&b"digraph { a \xff\xfe"[..], text.as_bytes()].concat())
                .unwrap();
            let a = args(ctx, f, &input, &output);
            let r = run(&a, false, None).expect("run");
            ck!(told(&r), "silent-failure", "input is not UTF-8: {}", show(&r));
            untouched(&output)?;
        }
        99 => {
            count = "input_does_not_parse";
            let a = args(ctx, f, &input, &output);
            let r = run(&a, false, None).expect("run");
            ck!(told(&r), "silent-failure", "not a program: {}", show(&r));
            let report = printed(|| {
                let mut p = layout::gv::DotParser::new(&text);
                let _ = p.process();
                p.print_error();
            });
            let said = [&r.stdout[..], &r.stderr[..]].concat();
            ck!(
                String::from_utf8_lossy(&said).contains(report.trim_end()),
                "no-report",
                "the place of the error, {:?}, is not in the report: {}",
                report,
                show(&r)
            );
            untouched(&output)?;
        }
        _ => {
            if fault == 7 {
                // Through a link.
                let link = dir.0.join("link");
                std::os::unix::fs::symlink(&output, &link).unwrap();
                std::mem::swap(&mut output, &mut link.clone());
            }
            if fault == 8 && before.is_none() {
                // In the place of the program.
                output = input.clone();
                ctx.count("drawn_over_the_input", 1);
            }
            // Names that start from the current directory.
            let near = fault != 7 && ctx.rng.pct(30);
            let mut a = if near {
                ctx.count("relative_names", 1);
                let pre = |ctx: &mut Ctx| *ctx.rng.pick(&["", "./", "sub/../"]);
                let (x, y) = (pre(ctx), pre(ctx));
                fs::create_dir(dir.0.join("sub")).unwrap();
                let rel = |p: &Path, x: &str| {
                    PathBuf::from(format!("{}{}", x, p.file_name().unwrap().to_str().unwrap()))
                };
                args(ctx, f, &rel(&input, x), &rel(&output, y))
            } else {
                args(ctx, f, &input, &output)
            };
            let log = if ctx.rng.pct(10) {
                Some(*ctx.rng.pick(&["off", "info", "trace", "layout=debug", "nonsense=="]))
            } else {
                None
            };
            let dump = ctx.rng.pct(15);
            if dump {
                let i = if ctx.rng.pct(50) { "-a" } else { "--ast" };
                a.insert(0, i.to_string());
            }
            let place = if near { &dir.0 } else { Path::new("/") };
            let r = run_in(place, log, &a, false, None).expect("run");
            let got = match fs::read(&output) {
                Ok(x) => x,
                Err(e) => {
                    return fail("no-output", format!("{}: {}", e, show(&r)));
                }
            };
            let want = want.unwrap();
            ck!(
                got == want.as_bytes(),
                "wrong-output",
                "the tool wrote {} bytes, the library draws {} ({}): {:?}",
                got.len(),
                want.len(),
                show(&r),
                String::from_utf8_lossy(&got)
                    .lines()
                    .zip(want.lines())
                    .find(|x| x.0 != x.1)
            );
            // The AST when asked for, and only then.
            let ast = drive::parse(&text).expect("parsed before");
            let ast = printed(|| layout::gv::dump_ast(&ast));
            let out = String::from_utf8_lossy(&r.stdout);
            ck!(
                out.contains(ast.trim_end()) == dump,
                "ast",
                "asked for the AST: {}; {}; the AST is {:?}",
                dump,
                show(&r),
                ast
            );
            ctx.count(if dump { "ast_dumped" } else { "no_ast_asked_for" }, 1);
            // Nothing else appears.
            let mut names: Vec<_> = fs::read_dir(&dir.0)
                .unwrap()
                .map(|e| e.unwrap().path())
                .filter(|p| *p != input && *p != output && !p.ends_with("link"))
                .filter(|p| !(near && p.ends_with("sub")))
                .collect();
            names.retain(|p| !p.is_symlink());
            ck!(
                names.is_empty() || fault == 7,
                "stray-file",
                "the tool left {:?}",
                names
            );
            ctx.count("drawings_compared", 1);
        }
    }
    if !count.is_empty() {
        ctx.count(count, 1);
    }
    ctx.nontrivial(hash_str(&format!("{}{:?}{}", fault, f, text)));
    if text.len() < 300 {
        ctx.sample(format!("fault {} {:?}: {}", fault, f, text));
    }
    Ok(())
}
