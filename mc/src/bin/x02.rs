//! X02: a file that could not be written completely is reported as an error.
use layout::core::utils::save_to_file;
use mc::cli::{self, Scratch};
use mc::engine::*;
use mc::rec::Flags;

extern "C" {
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn getrlimit(r: i32, l: *mut [u64; 2]) -> i32;
    fn signal(s: i32, h: usize) -> usize;
}
const FSIZE: i32 = 1;
const NOFILE: i32 = 7;
const SIGXFSZ: i32 = 25;

/// Runs `f` with a limit that is taken back afterwards.
fn limited<T>(what: i32, n: u64, f: impl FnOnce() -> T) -> T {
    unsafe {
        signal(SIGXFSZ, 1);
        let mut old = [0u64; 2];
        getrlimit(what, &mut old);
        setrlimit(what, &[n, old[1]]);
        let r = f();
        setrlimit(what, &old);
        r
    }
}
const CONTENTS: usize = 10;
fn content(k: usize) -> String {
    match k {
        0 => String::new(),
        1 => "x".into(),
        2 => "<svg>\u{e9}\u{4e2d}\u{1f600}\n</svg>".into(),
        3 => "{} {0} %s \u{0} \r\n\t".into(),
        4 => "0123456789".repeat(30),
        5 => "a line of some text\n".repeat(700),
        6 => "x".repeat(1 << 16),
        7 => "a line of some text\n".repeat(5000),
        8 => "\u{e9}\u{4e2d}\u{1f600}".repeat(40000),
        _ => "0123456\n".repeat(300000),
    }
}
/// The bytes a file must keep are those of the content, or an error is told.
fn judge(r: Result<(), std::io::Error>, path: &std::path::Path, want: &str) -> Result<(), String> {
    let got = std::fs::read(path).unwrap_or_default();
    match r {
        Ok(()) if got != want.as_bytes() => Err(format!("success is reported, but {} of {} bytes are in the file", got.len(), want.len())),
        Err(e) if got == want.as_bytes() && !want.is_empty() => Err(format!("the file is complete, but {} is reported", e)),
        _ => Ok(()),
    }
}
const OLD: [Option<usize>; 3] = [None, Some(3), Some(20000)];
/// Every offset of the short contents, every seventh of the longer one, and of
/// the longest ones those around the ends and sizes of blocks.
fn offsets(k: usize) -> Vec<u64> {
    let n = content(k).len() as u64;
    if n < 400 {
        return (0..n + 2).collect();
    }
    if n < 20000 {
        return (0..n / 7 + 2).map(|o| (o * 7).min(n + 1)).collect();
    }
    let mut v = vec![0, 1, n / 2, n - 1, n, n + 1];
    for b in (9..22).map(|b| 1 << b).filter(|b| *b < n) {
        v.extend([b - 1, b, b + 1, n / b * b, n / b * b - 1]);
    }
    v.retain(|x| *x <= n + 1);
    v.sort();
    v.dedup();
    v
}
fn fault_cases() -> Vec<(usize, u64, usize)> {
    let mut v = Vec::new();
    for k in 0..CONTENTS {
        for o in offsets(k) {
            for old in 0..3 {
                v.push((k, o, old));
            }
        }
    }
    v
}
fn short_write(c: (usize, u64, usize), x: &mut Ctx) -> Result<(), String> {
    let (k, lim, old) = c;
    let s = Scratch::new();
    let p = s.path("file");
    if let Some(n) = OLD[old] {
        std::fs::write(&p, "o".repeat(n)).map_err(|e| e.to_string())?;
    }
    let w = content(k);
    x.transitions += 1;
    x.state(h(&c));
    let name = p.to_string_lossy().to_string();
    let r = limited(FSIZE, lim, || save_to_file(&name, &w));
    x.outcome(r.is_ok() as u64);
    if r.is_ok() && lim < w.len() as u64 {
        return Err(format!("success is reported with room for {} of {} bytes", lim, w.len()));
    }
    judge(r, &p, &w)
}
const PLACES: [&str; 12] = ["plain", "missing/dir", "sub", "sub/file", "", "link", "dangling", "full", "no-handles", "long", "sub/../x \u{e9}", "file/below"];
fn place(i: u64, x: &mut Ctx) -> Result<(), String> {
    let (pl, k, old) = (PLACES[(i % 12) as usize], (i / 12) as usize % CONTENTS, (i / 12) as usize / CONTENTS);
    let s = Scratch::new();
    let w = content(k);
    let e = |e: std::io::Error| e.to_string();
    std::fs::create_dir(s.path("sub")).map_err(e)?;
    std::fs::write(s.path("file"), "f").map_err(e)?;
    std::os::unix::fs::symlink("target", s.path("link")).map_err(e)?;
    std::fs::write(s.path("target"), "t").map_err(e)?;
    std::os::unix::fs::symlink("sub/none", s.path("dangling")).map_err(e)?;
    let p = match pl {
        "" => std::path::PathBuf::new(),
        "full" => "/dev/full".into(),
        "long" => s.path(&"n".repeat(300)),
        x => s.path(x),
    };
    if matches!(pl, "plain" | "sub/file") {
        if let Some(n) = OLD[old] {
            std::fs::write(&p, "o".repeat(n)).map_err(e)?;
        }
    }
    x.transitions += 1;
    x.state(i);
    let name = p.to_string_lossy().to_string();
    let r = if pl == "no-handles" { limited(NOFILE, 3, || save_to_file(&name, &w)) } else { save_to_file(&name, &w) };
    let fails = matches!(pl, "missing/dir" | "sub" | "" | "no-handles" | "long" | "file/below") || (pl == "full" && !w.is_empty());
    if fails != r.is_err() {
        return Err(format!("{:?} is {} for {:?}", r.map_err(|e| e.to_string()), if fails { "success" } else { "failure" }, pl));
    }
    if fails {
        return Ok(());
    }
    if pl != "full" {
        judge(r, &p, &w)?;
    }
    // Links are followed, not replaced.
    if pl == "link" && std::fs::read(s.path("target")).map_err(e)? != w.as_bytes() {
        return Err("the target of the link is not written".into());
    }
    if pl == "dangling" && std::fs::read(s.path("sub/none")).map_err(e)? != w.as_bytes() {
        return Err("the target of the link is not made".into());
    }
    Ok(())
}

/// The command line tool at every offset: it says that the file is not complete.
const PROG: &str = "digraph { a -> b [label=x]; r [shape=record label=\"f|g\"] }";
fn tool(lim: u64, step: u64, x: &mut Ctx) -> Result<(), String> {
    use std::os::unix::process::CommandExt;
    let s = Scratch::new();
    let w = mc::rec::svg(PROG, Flags::default())?;
    let lim = (lim * step).min(w.len() as u64 + 1);
    std::fs::write(s.path("in"), PROG).map_err(|e| e.to_string())?;
    let mut c = cli::command(&s.0, &["in".into(), "-o".into(), "out".into()]);
    // Its own output goes to pipes, which have no size limit.
    c.stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
    unsafe {
        c.pre_exec(move || {
            signal(SIGXFSZ, 1);
            setrlimit(FSIZE, &[lim, lim]);
            Ok(())
        });
    }
    x.transitions += 1;
    x.state(lim);
    let o = c.output().map_err(|e| e.to_string())?;
    let got = std::fs::read(s.path("out")).unwrap_or_default();
    if got == w.as_bytes() {
        return if lim >= w.len() as u64 && o.status.success() { Ok(()) } else { Err(format!("complete, but ends with {}", o.status)) };
    }
    if lim >= w.len() as u64 {
        return Err(format!("{} of {} bytes are written without a fault", got.len(), w.len()));
    }
    if o.stderr.is_empty() && o.status.success() {
        return Err(format!("{} of {} bytes are written, and the tool says nothing", got.len(), w.len()));
    }
    Ok(())
}
fn plan_(t: Tier) -> Plan {
    let v = std::sync::Arc::new(fault_cases());
    let v2 = v.clone();
    let step = t.pick(5, 1);
    let len = mc::rec::svg(PROG, Flags::default()).map(|s| s.len() as u64).unwrap_or(4000);
    let mut p = plan(
        vec![
            family(
                "short-writes",
                "ten contents (empty to 2.4 MB, multi-byte characters), a file system that takes no more than every number of bytes (every seventh of 14 kB; around the sizes of blocks for the longer ones), three previous states of the file",
                v.len() as u64,
                move |i| format!("content {} room {} before {:?}", v[i as usize].0, v[i as usize].1, OLD[v[i as usize].2]),
                move |i, c| short_write(v2[i as usize], c),
            ),
            family(
                "places",
                &format!("{:?}: each with every content and previous state", PLACES),
                12 * CONTENTS as u64 * 3,
                |i| format!("{:?} content {} before {:?}", PLACES[(i % 12) as usize], i / 12 % CONTENTS as u64, OLD[(i / 12) as usize / CONTENTS]),
                place,
            ),
            family("tool", &format!("the command line tool, writing one drawing, with room for every number of bytes (in steps of {})", step), len / step + 3, move |i| format!("room for {} bytes", i * step), move |i, c| tool(i, step, c)),
        ],
        "state = one fault (number of bytes that are taken, place of the file) with the content and the previous file; transition = one save; success is only reported if the file holds the content",
        &["faults are injected by resource limits, /dev/full, and paths that can't be opened"],
    );
    p.procs = 8;
    p
}
fn main() {
    mc::engine::main("X02", plan_)
}
