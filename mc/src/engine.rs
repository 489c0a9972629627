//! The explorer: enumerates every case of every family of a property, on all
//! cores, in a child process that the parent watches for crashes and hangs.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- hashing --
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = 0u64;
            for (i, v) in c.iter().enumerate() {
                x |= (*v as u64) << (8 * i);
            }
            self.write_u64(x ^ ((c.len() as u64) << 60));
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(23) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.0 ^= self.0 >> 31;
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxSet<T> = HashSet<T, FxB>;
pub type FxMap<K, V> = std::collections::HashMap<K, V, FxB>;
pub fn h<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut f = Fx::default();
    t.hash(&mut f);
    f.finish()
}

// ----------------------------------------------------------------- checks --
/// What one family of cases is: `total` cases, each a function of its index.
pub struct Family {
    pub name: String,
    pub bound: String,
    pub total: u64,
    pub describe: Box<dyn Fn(u64) -> String + Sync + Send>,
    pub run: Box<dyn Fn(u64, &mut Ctx) -> Result<(), String> + Sync + Send>,
}

pub fn family<D, R>(name: &str, bound: &str, total: u64, describe: D, run: R) -> Family
where
    D: Fn(u64) -> String + Sync + Send + 'static,
    R: Fn(u64, &mut Ctx) -> Result<(), String> + Sync + Send + 'static,
{
    Family {
        name: name.to_string(),
        bound: bound.to_string(),
        total,
        describe: Box::new(describe),
        run: Box::new(run),
    }
}

/// Counters one worker keeps.
#[derive(Default)]
pub struct Ctx {
    states: FxSet<u64>,
    outcomes: FxSet<u64>,
    pub transitions: u64,
    validated: u64,
    pub notes: BTreeMap<String, u64>,
    skipped: bool,
}
impl Ctx {
    /// The model has no opinion on this case: the code ran, nothing was compared.
    pub fn skip(&mut self, why: &str) {
        self.skipped = true;
        self.note(why, 1);
    }
    pub fn state(&mut self, s: u64) {
        self.states.insert(s);
    }
    pub fn outcome(&mut self, s: u64) {
        if self.outcomes.len() < 2_000_000 {
            self.outcomes.insert(s);
        }
    }
    pub fn note(&mut self, k: &str, n: u64) {
        if let Some(x) = self.notes.get_mut(k) {
            *x += n;
        } else {
            self.notes.insert(k.to_string(), n);
        }
    }
}

pub struct Plan {
    pub families: Vec<Family>,
    /// What the counters mean, for the evidence file.
    pub rule: String,
    pub assumptions: Vec<String>,
    /// One thread per child process (for checks that own process-wide state).
    pub procs: usize,
}

pub fn plan(mut families: Vec<Family>, rule: &str, assumptions: &[&str]) -> Plan {
    // Names identify families, and their replays.
    let mut seen = std::collections::BTreeMap::new();
    for f in &mut families {
        let k = seen.entry(f.name.clone()).or_insert(0);
        *k += 1;
        if *k > 1 {
            f.name = format!("{}-{}", f.name, k);
        }
    }
    Plan {
        families,
        rule: rule.to_string(),
        assumptions: assumptions.iter().map(|x| x.to_string()).collect(),
        procs: 1,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i
            .location()
            .map(|l| format!("{}:{}", l.file().rsplit("/layout/src/").next().unwrap_or(""), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{} ({})", msg, loc)));
    }));
}

/// Runs `f`, turning a panic of the code under test into an Err.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(format!(
            "panicked: {}",
            PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
        )),
    }
}

fn run_case(f: &Family, idx: u64, ctx: &mut Ctx) -> Result<(), String> {
    match guard(|| (f.run)(idx, ctx)) {
        Ok(r) => r,
        Err(e) => Err(e),
    }
}

// ----------------------------------------------------- shared progress page --
extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}
const SLOTS: usize = 64;
const PAGE: usize = 4096;
/// Per worker: sequence number, family, index, busy.
struct Page(*mut u8);
unsafe impl Sync for Page {}
unsafe impl Send for Page {}
impl Page {
    fn open(path: &str) -> Page {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len(PAGE as u64).unwrap();
        let p = unsafe { mmap(std::ptr::null_mut(), PAGE, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1);
        Page(p)
    }
    fn slot(&self, i: usize) -> [&AtomicU64; 4] {
        let b = unsafe { self.0.add(i * 32) } as *const AtomicU64;
        unsafe { [&*b, &*b.add(1), &*b.add(2), &*b.add(3)] }
    }
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\t', "\\t").replace('\n', "\\n").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut r = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('t') => r.push('\t'),
                Some('n') => r.push('\n'),
                Some('r') => r.push('\r'),
                Some(x) => r.push(x),
                None => {}
            }
        } else {
            r.push(c)
        }
    }
    r
}
pub fn json_str(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\r' => r.push_str("\\r"),
            '\t' => r.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub fam: usize,
    pub idx: u64,
    pub what: String,
}

const MAX_VIOL: usize = 40;

/// Child process: explore every case (of shard `shard` of `shards`).
pub fn child(plan: &Plan, page: &str, out: &str, shard: usize, shards: usize, single: Option<(usize, u64)>) {
    install_panic_hook();
    let page = Page::open(page);
    // A runaway allocation must not take the sandbox down.
    let lim: u64 = 12 << 30;
    unsafe { setrlimit(9, &[lim, lim]) };
    let threads = if shards > 1 || single.is_some() { 1 } else { ncpu() };
    let viols: Mutex<Vec<Viol>> = Mutex::new(Vec::new());
    let stop = AtomicBool::new(false);
    let cursors: Vec<AtomicU64> = plan.families.iter().map(|_| AtomicU64::new(0)).collect();
    let done: Vec<AtomicU64> = plan.families.iter().map(|_| AtomicU64::new(0)).collect();
    let busy: Vec<AtomicU64> = plan.families.iter().map(|_| AtomicU64::new(0)).collect();
    let all: Mutex<Ctx> = Mutex::new(Ctx::default());
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (page, viols, stop, cursors, done, all, busy) = (&page, &viols, &stop, &cursors, &done, &all, &busy);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(sc, move || {
                    let slot = page.slot(shard * 8 % SLOTS + t);
                    let mut ctx = Ctx::default();
                    'fam: for (fi, f) in plan.families.iter().enumerate() {
                        if let Some((sf, _)) = single {
                            if sf != fi {
                                continue;
                            }
                        }
                        let chunk = (f.total / (ncpu() as u64 * 32)).clamp(1, 512);
                        loop {
                            let c = cursors[fi].fetch_add(1, SeqCst);
                            let c = c * shards as u64 + shard as u64;
                            let mut lo = c.saturating_mul(chunk);
                            let mut hi = lo.saturating_add(chunk).min(f.total);
                            if let Some((_, si)) = single {
                                if cursors[fi].load(SeqCst) > 1 {
                                    break;
                                }
                                lo = si;
                                hi = si + 1;
                            }
                            if lo >= f.total {
                                break;
                            }
                            let t0 = Instant::now();
                            for idx in lo..hi {
                                if stop.load(Relaxed) {
                                    break 'fam;
                                }
                                slot[1].store(fi as u64, Relaxed);
                                slot[2].store(idx, Relaxed);
                                slot[3].store(1, Relaxed);
                                slot[0].fetch_add(1, Release);
                                ctx.skipped = false;
                                let r = run_case(f, idx, &mut ctx);
                                if r.is_ok() && !ctx.skipped {
                                    ctx.validated += 1;
                                }
                                slot[3].store(0, Release);
                                done[fi].fetch_add(1, Relaxed);
                                if let Err(what) = r {
                                    let mut v = viols.lock().unwrap();
                                    v.push(Viol { fam: fi, idx, what });
                                    if v.len() >= MAX_VIOL {
                                        stop.store(true, SeqCst);
                                    }
                                }
                            }
                            busy[fi].fetch_add(t0.elapsed().as_millis() as u64, Relaxed);
                        }
                    }
                    let mut a = all.lock().unwrap();
                    a.states.extend(ctx.states.iter());
                    a.outcomes.extend(ctx.outcomes.iter());
                    a.transitions += ctx.transitions;
                    a.validated += ctx.validated;
                    for (k, n) in ctx.notes {
                        *a.notes.entry(k).or_default() += n;
                    }
                })
                .unwrap();
        }
    });
    let a = all.into_inner().unwrap();
    let mut s = String::new();
    s.push_str(&format!("transitions\t{}\nvalidated\t{}\n", a.transitions, a.validated));
    if shards == 1 {
        s.push_str(&format!("nstates\t{}\nnoutcomes\t{}\n", a.states.len(), a.outcomes.len()));
    } else {
        for x in &a.states {
            s.push_str(&format!("state\t{}\n", x));
        }
        for x in &a.outcomes {
            s.push_str(&format!("outcome\t{}\n", x));
        }
    }
    for (k, n) in &a.notes {
        s.push_str(&format!("note\t{}\t{}\n", esc(k), n));
    }
    for (i, d) in done.iter().enumerate() {
        s.push_str(&format!("done\t{}\t{}\n", i, d.load(SeqCst)));
    }
    for (i, d) in busy.iter().enumerate() {
        s.push_str(&format!("busy\t{}\t{}\n", i, d.load(SeqCst)));
    }
    for v in viols.into_inner().unwrap() {
        s.push_str(&format!("viol\t{}\t{}\t{}\n", v.fam, v.idx, esc(&v.what)));
    }
    s.push_str("end\n");
    std::fs::write(out, s).unwrap();
}

pub fn ncpu() -> usize {
    std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8)
}

struct Child {
    proc_: std::process::Child,
    page: Page,
    out: String,
    seen: Vec<(u64, Instant)>,
}

fn spawn(dir: &str, shard: usize, shards: usize, single: Option<(usize, u64)>) -> Child {
    let page = format!("{}/page{}", dir, shard);
    let out = format!("{}/out{}", dir, shard);
    let _ = std::fs::remove_file(&page);
    let _ = std::fs::remove_file(&out);
    let p = Page::open(&page);
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("child").arg(&page).arg(&out).arg(shard.to_string()).arg(shards.to_string());
    if let Some((f, i)) = single {
        c.arg(f.to_string()).arg(i.to_string());
    }
    // The code under test prints; nothing of that is ours to show.
    c.stdin(Stdio::null()).stdout(Stdio::null());
    c.stderr(std::fs::File::create(format!("{}/err{}", dir, shard)).unwrap());
    let proc_ = c.spawn().expect("spawn");
    Child { proc_, page: p, out, seen: vec![(0, Instant::now()); SLOTS] }
}

enum End {
    Ok(String),
    Crash(String),
    /// The cases that take too long.
    Stall(Vec<(usize, u64)>),
}

/// In-flight cases of a child.
fn in_flight(c: &Child) -> Vec<(usize, u64)> {
    let mut r = Vec::new();
    for i in 0..SLOTS {
        let s = c.page.slot(i);
        if s[3].load(Acquire) == 1 {
            r.push((s[1].load(Acquire) as usize, s[2].load(Acquire)));
        }
    }
    r
}

fn watch(cs: &mut [Child], stall: Duration, cap: Duration) -> Vec<End> {
    let start = Instant::now();
    let mut ends: Vec<Option<End>> = cs.iter().map(|_| None).collect();
    loop {
        let mut open = false;
        for (i, c) in cs.iter_mut().enumerate() {
            if ends[i].is_some() {
                continue;
            }
            if let Some(st) = c.proc_.try_wait().unwrap() {
                let o = std::fs::read_to_string(&c.out).unwrap_or_default();
                ends[i] = Some(if st.success() && o.ends_with("end\n") {
                    End::Ok(o)
                } else {
                    End::Crash(format!("{}", st))
                });
                continue;
            }
            open = true;
            let mut late = false;
            for s in 0..SLOTS {
                let sl = c.page.slot(s);
                if sl[3].load(Acquire) == 0 {
                    c.seen[s] = (u64::MAX, Instant::now());
                    continue;
                }
                let q = sl[0].load(Acquire);
                if c.seen[s].0 != q {
                    c.seen[s] = (q, Instant::now());
                } else if c.seen[s].1.elapsed() > stall {
                    late = true;
                }
            }
            if late {
                // The largest of the cases that are late goes first.
                let mut l: Vec<(usize, u64)> = (0..SLOTS)
                    .filter(|s| {
                        let sl = c.page.slot(*s);
                        sl[3].load(Acquire) == 1 && sl[0].load(Acquire) == c.seen[*s].0 && c.seen[*s].1.elapsed() > stall / 2
                    })
                    .map(|s| (c.page.slot(s)[1].load(Acquire) as usize, c.page.slot(s)[2].load(Acquire)))
                    .collect();
                l.sort();
                l.reverse();
                ends[i] = Some(End::Stall(l));
            }
            if start.elapsed() > cap && ends[i].is_none() {
                ends[i] = Some(End::Crash("exploration exceeded the time cap".into()));
            }
            if ends[i].is_some() {
                let _ = c.proc_.kill();
                let _ = c.proc_.wait();
            }
        }
        // One child's hang or crash settles the run.
        if ends.iter().any(|e| matches!(e, Some(End::Crash(_)) | Some(End::Stall(..)))) {
            for (i, c) in cs.iter_mut().enumerate() {
                if ends[i].is_none() {
                    let _ = c.proc_.kill();
                    let _ = c.proc_.wait();
                    ends[i] = Some(End::Ok("end\n".into()));
                }
            }
            open = false;
        }
        if !open {
            return ends.into_iter().map(|x| x.unwrap()).collect();
        }
        std::thread::sleep(Duration::from_millis(15));
    }
}

fn parse_viols(o: &str) -> Vec<Viol> {
    o.lines()
        .filter_map(|l| {
            let p: Vec<&str> = l.split('\t').collect();
            if p[0] == "viol" {
                Some(Viol { fam: p[1].parse().unwrap(), idx: p[2].parse().unwrap(), what: unesc(p[3]) })
            } else {
                None
            }
        })
        .collect()
}

/// Re-run one case alone; Some(what) if it fails there too.
fn confirm(dir: &str, fam: usize, idx: u64, patience: Duration) -> Option<String> {
    let mut c = [spawn(dir, 0, 1, Some((fam, idx)))];
    let e = watch(&mut c, patience, patience * 2).pop().unwrap();
    match e {
        End::Ok(o) => parse_viols(&o).first().map(|v| v.what.clone()),
        End::Crash(s) => Some(format!("the process was ended by a fatal error ({})", s)),
        End::Stall(..) => Some(format!("did not finish within {} s", patience.as_secs())),
    }
}

fn sanitize(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii_alphanumeric() || c == '-' { c } else { '_' }).collect()
}

/// The entry point of every check binary.
pub fn main(prop: &str, mk: fn(Tier) -> Plan) {
    let args: Vec<String> = std::env::args().collect();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    if args.get(1).map(|x| x == "child").unwrap_or(false) {
        let plan = mk(tier);
        let n = |i: usize| args.get(i).and_then(|x| x.parse::<u64>().ok());
        let single = n(6).map(|f| (f as usize, n(7).unwrap()));
        child(&plan, &args[2], &args[3], n(4).unwrap() as usize, n(5).unwrap() as usize, single);
        return;
    }
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let replay = if args.get(1).map(|x| x == "--replay").unwrap_or(false) {
        Some((args[2].parse().unwrap(), args[3].parse().unwrap()))
    } else {
        None
    };
    std::process::exit(run(prop, tier, seed, &root, &mk, replay));
}

pub fn run(prop: &str, tier: Tier, seed: u64, root: &str, mk: &dyn Fn(Tier) -> Plan, replay: Option<(usize, u64)>) -> i32 {
    let stall = Duration::from_secs(tier.pick(20, 60));
    match run_within(prop, tier, seed, root, mk, replay, stall) {
        // Slow under load, but not beyond the limit: once more, with patience.
        Err(Late) => run_within(prop, tier, seed, root, mk, replay, stall * 4).unwrap_or_else(|_| {
            println!("ERROR property={} cases stalled but finished when run alone", prop);
            3
        }),
        Ok(x) => x,
    }
}
/// Cases took too long, but none of them when run alone.
struct Late;

fn run_within(prop: &str, tier: Tier, seed: u64, root: &str, mk: &dyn Fn(Tier) -> Plan, replay: Option<(usize, u64)>, stall: Duration) -> Result<i32, Late> {
    let t0 = Instant::now();
    let plan = mk(tier);
    let dir = format!("{}/target/run/{}-{}", root, prop, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let cap = Duration::from_secs(tier.pick(600, 6 * 3600));

    if let Some((f, i)) = replay {
        println!("replaying {} case {}: {}", plan.families[f].name, i, (plan.families[f].describe)(i));
        let r = confirm(&dir, f, i, stall * 3);
        let _ = std::fs::remove_dir_all(&dir);
        return Ok(match r {
            Some(w) => {
                println!("VIOLATION property={} replay=- {}", prop, w);
                1
            }
            None => {
                println!("held");
                0
            }
        });
    }

    let shards = plan.procs.max(1);
    let mut cs: Vec<Child> = (0..shards).map(|s| spawn(&dir, s, shards, None)).collect();
    let ends = watch(&mut cs, stall, cap);
    let mut viols: Vec<Viol> = Vec::new();
    let mut complete = true;
    let mut error: Option<String> = None;
    let mut late = false;
    let (mut transitions, mut validated) = (0u64, 0u64);
    let mut states: FxSet<u64> = FxSet::default();
    let mut outcomes: FxSet<u64> = FxSet::default();
    let (mut nstates, mut noutcomes) = (0u64, 0u64);
    let mut notes: BTreeMap<String, u64> = BTreeMap::new();
    let mut done = vec![0u64; plan.families.len()];
    let mut busy = vec![0u64; plan.families.len()];
    for (c, e) in cs.iter().zip(ends) {
        match e {
            End::Ok(o) => {
                viols.extend(parse_viols(&o));
                for l in o.lines() {
                    let p: Vec<&str> = l.split('\t').collect();
                    let n = |i: usize| p[i].parse::<u64>().unwrap();
                    match p[0] {
                        "transitions" => transitions += n(1),
                        "validated" => validated += n(1),
                        "nstates" => nstates += n(1),
                        "noutcomes" => noutcomes += n(1),
                        "state" => {
                            states.insert(n(1));
                        }
                        "outcome" => {
                            outcomes.insert(n(1));
                        }
                        "note" => *notes.entry(unesc(p[1])).or_default() += n(2),
                        "done" => done[n(1) as usize] += n(2),
                        "busy" => busy[n(1) as usize] += n(2),
                        _ => {}
                    }
                }
            }
            End::Crash(s) => {
                complete = false;
                let cand = in_flight(c);
                let mut hit = false;
                for (f, i) in cand {
                    if let Some(w) = confirm(&dir, f, i, stall) {
                        viols.push(Viol { fam: f, idx: i, what: w });
                        hit = true;
                    }
                }
                if !hit {
                    let stderr = std::fs::read_to_string(format!("{}/err0", dir)).unwrap_or_default();
                    error = Some(format!("explorer ended: {} {}", s, stderr));
                }
            }
            End::Stall(l) => {
                complete = false;
                let slow = l.into_iter().find_map(|(f, i)| confirm(&dir, f, i, stall * 2).map(|w| Viol { fam: f, idx: i, what: w }));
                match slow {
                    Some(v) => viols.push(v),
                    None => late = true,
                }
            }
        }
    }
    if late && viols.is_empty() && error.is_none() {
        let _ = std::fs::remove_dir_all(&dir);
        return Err(Late);
    }
    nstates += states.len() as u64;
    noutcomes += outcomes.len() as u64;
    viols.sort_by_key(|v| (v.fam, v.idx));

    // Known findings are identified by the input that fails.
    let known = known_findings(root, prop);
    let mut fresh = Vec::new();
    let mut known_hit: BTreeMap<String, String> = BTreeMap::new();
    for v in &viols {
        let d = (plan.families[v.fam].describe)(v.idx);
        if let Some(k) = known.iter().find(|k| k.0 == d) {
            known_hit.insert(k.0.clone(), format!("{} ({})", k.1, v.what));
        } else {
            fresh.push(v.clone());
        }
    }
    for (k, w) in &known_hit {
        println!("KNOWN-FINDING: property={} {} : {}", prop, esc(k), w);
    }
    let total: u64 = plan.families.iter().map(|f| f.total).sum();
    let ran: u64 = done.iter().sum();
    if complete && ran != total && fresh.is_empty() && error.is_none() {
        error = Some(format!("explored {} of {} cases", ran, total));
    }
    if complete && !fresh.is_empty() && ran != total {
        complete = false;
    }

    // Replay files.
    let mut first = String::new();
    if !fresh.is_empty() {
        let rd = format!("{}/replays", root);
        let _ = std::fs::create_dir_all(&rd);
        for v in fresh.iter().take(5) {
            let f = &plan.families[v.fam];
            let path = format!("{}/{}-{}-{}.json", rd, prop, sanitize(&f.name), v.idx);
            let d = (f.describe)(v.idx);
            let s = format!(
                "{{\n \"property\": {},\n \"tier\": {},\n \"family\": {},\n \"family_index\": {},\n \"case\": {},\n \"input\": {},\n \"what\": {},\n \"rerun\": {}\n}}\n",
                json_str(prop),
                json_str(tier.pick("quick", "thorough")),
                json_str(&f.name),
                v.fam,
                v.idx,
                json_str(&d),
                json_str(&v.what),
                json_str(&format!("./check {} {} --replay {} {}", prop, tier.pick("quick", "thorough"), v.fam, v.idx)),
            );
            std::fs::write(&path, s).unwrap();
            println!("VIOLATION property={} replay={}", prop, path);
            println!("  input: {}", esc(&d));
            println!("  what:  {}", esc(&v.what));
            if first.is_empty() {
                first = path;
            }
        }
        if fresh.len() > 5 {
            println!("  ... and {} more", fresh.len() - 5);
        }
    }

    // Evidence.
    let mut samples = Vec::new();
    for f in &plan.families {
        if f.total > 0 {
            for i in [f.total / 3, f.total - 1] {
                if let Ok(s) = guard(|| (f.describe)(i)) {
                    let s: String = s.chars().take(400).collect();
                    samples.push(json_str(&format!("{} #{}: {}", f.name, i, s)));
                }
            }
        }
    }
    samples.dedup();
    let fams: Vec<String> = plan
        .families
        .iter()
        .enumerate()
        .map(|(i, f)| {
            format!(
                "{{\"name\": {}, \"bound\": {}, \"cases\": {}, \"explored\": {}, \"cpu_ms\": {}}}",
                json_str(&f.name),
                json_str(&f.bound),
                f.total,
                done[i],
                busy[i]
            )
        })
        .collect();
    let notes_s: Vec<String> = notes.iter().map(|(k, n)| format!("{}: {}", json_str(k), n)).collect();
    let wall = t0.elapsed().as_secs_f64();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"evaluations\": {},\n  \"distinct_observed_outcomes\": {},\n  \"exhaustive\": {},\n  \"rule\": {},\n  \"families\": [\n   {}\n  ],\n  \"counters\": {{{}}},\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str(prop),
        json_str(tier.pick("quick", "thorough")),
        seed,
        nstates,
        transitions,
        validated,
        ran,
        noutcomes,
        complete && ran == total,
        json_str(&plan.rule),
        fams.join(",\n   "),
        notes_s.join(", "),
        samples.join(",\n   "),
        plan.assumptions.iter().map(|a| json_str(a)).collect::<Vec<_>>().join(", "),
        wall,
        fresh.len()
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    std::fs::write(format!("{}/evidence/{}.json", root, prop), ev).unwrap();
    let _ = std::fs::remove_dir_all(&dir);

    if !fresh.is_empty() {
        return Ok(1);
    }
    if let Some(e) = error {
        println!("ERROR property={} {}", prop, e);
        return Ok(3);
    }
    println!(
        "OK property={} cases={} states={} transitions={} validated={} outcomes={} wall={:.1}s {}",
        prop,
        ran,
        nstates,
        transitions,
        validated,
        noutcomes,
        wall,
        notes.iter().map(|(k, n)| format!("{}={}", k, n)).collect::<Vec<_>>().join(" ")
    );
    std::io::stdout().flush().unwrap();
    Ok(0)
}

/// Lines `finding: property=<id> input=<escaped input> -- <what fails>`.
fn known_findings(root: &str, prop: &str) -> Vec<(String, String)> {
    let s = std::fs::read_to_string(format!("{}/known_findings.txt", root)).unwrap_or_default();
    let mut r = Vec::new();
    for l in s.lines() {
        if let Some(x) = l.strip_prefix(&format!("finding: property={} input=", prop)) {
            if let Some((a, b)) = x.split_once(" -- ") {
                r.push((unesc(a), b.to_string()));
            }
        }
    }
    r
}

// ------------------------------------------------------------ enumeration --
/// The digits of `idx`, least significant first.
pub fn digits(mut idx: u64, base: usize, len: usize) -> Vec<usize> {
    let mut r = Vec::with_capacity(len);
    for _ in 0..len {
        r.push((idx % base as u64) as usize);
        idx /= base as u64;
    }
    r
}
/// How many sequences of length lo..=hi there are.
pub fn seq_total(base: usize, lo: usize, hi: usize) -> u64 {
    (lo..=hi).map(|l| (base as u64).pow(l as u32)).sum()
}
/// The idx-th sequence of length lo..=hi.
pub fn seq(mut idx: u64, base: usize, lo: usize, hi: usize) -> Vec<usize> {
    for l in lo..=hi {
        let n = (base as u64).pow(l as u32);
        if idx < n {
            return digits(idx, base, l);
        }
        idx -= n;
    }
    unreachable!()
}
/// Mixed radix digits.
pub fn mixed(mut idx: u64, radix: &[usize]) -> Vec<usize> {
    let mut r = Vec::new();
    for b in radix {
        r.push((idx % *b as u64) as usize);
        idx /= *b as u64;
    }
    r
}
pub fn mixed_total(radix: &[usize]) -> u64 {
    radix.iter().map(|x| *x as u64).product()
}
/// A family whose cases are texts.
pub fn text_family<G, R>(name: &str, bound: &str, total: u64, gen: G, run: R) -> Family
where
    G: Fn(u64) -> String + Sync + Send + Clone + 'static,
    R: Fn(&str, &mut Ctx) -> Result<(), String> + Sync + Send + 'static,
{
    let g2 = gen.clone();
    family(name, bound, total, move |i| g2(i), move |i, c| run(&gen(i), c))
}
