//! X01: the command line tool writes what the library draws.
use mc::cli::{self, Scratch};
use mc::engine::*;
use mc::gen::*;
use mc::rec::{svg, Flags};

const STMTS: &[&str] = &[
    "a",
    "a -> b [label=\"x & y\"]",
    "b -> a -> b",
    "rankdir=LR",
    "r [shape=Mrecord label=\"a|{b|<p>c}\"]; a -> r:p",
    "node [shape=box fontsize=20 color=red]",
    "\u{e9}\u{4e2d} [label=\"\\n\"]",
    "a -> a [label=self]",
    "a ->",
    "\"open",
    "x [label=",
    "}",
    "; ;",
    "-",
    "t [label=\"a\tb  c\u{a0}d\u{2003}e\"]",
    "u [label=\"a\\\nb\nc\r\nd\"]\r\n",
    "node /* c \n \t*/ [label=\"\u{feff}\"] // x\n",
];
fn program(i: u64, len: usize) -> String {
    format!("digraph {{ {} }}", seq(i, STMTS.len(), 0, len).into_iter().map(|x| STMTS[x]).collect::<Vec<_>>().join("; "))
}

/// What was at the output path before.
const OLD: [Option<&str>; 3] = [None, Some("old"), Some("LONG")];

fn run(prog: &str, d: &[usize], x: &mut Ctx) -> Result<(), String> {
    let s = Scratch::new();
    let f = Flags::from_bits(d[0] & 7);
    let ast = d[0] & 8 != 0;
    let (input, output) = [("in.dot", "out.svg"), ("with space.gv", "o-\u{e9} x.svg"), ("noext", "sub/out")][d[2]];
    std::fs::create_dir(s.path("sub")).map_err(|e| e.to_string())?;
    std::fs::write(s.path(input), prog).map_err(|e| e.to_string())?;
    let old = match OLD[d[1]] {
        Some("LONG") => Some("previous content ".repeat(5000)),
        o => o.map(|x| x.to_string()),
    };
    if let Some(o) = &old {
        std::fs::write(s.path(output), o).map_err(|e| e.to_string())?;
    }
    let mut args = Vec::new();
    let fl = cli::flags(f, ast, d[3] % 2 == 1);
    let out = match d[3] {
        0 => vec!["-o".to_string(), output.to_string()],
        1 => vec!["--output".to_string(), output.to_string()],
        2 => vec![format!("--output={}", output)],
        _ => vec!["-o".to_string(), s.path(output).to_string_lossy().to_string()],
    };
    // The input comes first, last or between.
    match d[3] % 3 {
        0 => {
            args.push(input.to_string());
            args.extend(fl);
            args.extend(out);
        }
        1 => {
            args.extend(out);
            args.extend(fl);
            args.push(input.to_string());
        }
        _ => {
            args.extend(fl);
            args.push(input.to_string());
            args.extend(out);
        }
    }
    let want = svg(prog, f);
    x.transitions += 1;
    x.state(h(&(prog, d)));
    let o = cli::run(&s.0, &args);
    let got = std::fs::read(s.path(output)).ok();
    match want {
        Ok(w) => {
            if !o.status.success() {
                return Err(format!("{:?} ends with {}: {}", args, o.status, String::from_utf8_lossy(&o.stderr)));
            }
            if got.as_deref() != Some(w.as_bytes()) {
                return Err(format!("{:?} wrote {} bytes, not the {} bytes of the drawing: {:?}", args, got.as_ref().map(|g| g.len()).unwrap_or(0), w.len(), String::from_utf8_lossy(&got.unwrap_or_default()).chars().take(200).collect::<String>()));
            }
        }
        Err(_) => {
            if got.as_deref() != old.as_ref().map(|x| x.as_bytes()) {
                return Err(format!("{:?} changed the output file although the input is not a program", args));
            }
            if o.stderr.is_empty() && o.stdout.is_empty() {
                return Err(format!("{:?} does not say that the input is not a program", args));
            }
        }
    }
    if ast {
        // The tree is the same, whatever else is asked for.
        let plain = cli::run(&s.0, &["-a".to_string(), input.to_string(), "-o".to_string(), output.to_string()]);
        if plain.stdout != o.stdout || (o.stdout.is_empty() && got != old.as_ref().map(|x| x.clone().into_bytes())) {
            return Err(format!("{:?} prints {:?}, with -a alone it is {:?}", args, String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&plain.stdout)));
        }
    }
    // Nothing else changed.
    if std::fs::read(s.path(input)).ok().as_deref() != Some(prog.as_bytes()) {
        return Err(format!("{:?} changed its input", args));
    }
    let mut n: Vec<String> = Vec::new();
    for dir in [s.0.clone(), s.path("sub")] {
        n.extend(std::fs::read_dir(dir).map_err(|e| e.to_string())?.map(|e| e.unwrap().path().to_string_lossy().to_string()));
    }
    let files = 2 + got.is_some() as usize;
    if n.len() != files {
        return Err(format!("{:?} made other files: {:?}", args, n));
    }
    Ok(())
}

/// Command lines that can't be followed: the tool says so, and writes nothing.
const BAD: [&[&str]; 14] = [
    &["bom.dot", "-o", "out.svg"],
    &["utf16.dot", "-o", "out.svg"],
    &["empty.dot", "-o", "out.svg"],
    &["blank.dot", "-o", "out.svg"],
    &["front.dot", "-o", "out.svg"],
    &["missing.dot", "-o", "out.svg"],
    &["-o", "out.svg"],
    &["in.dot", "-o", "out.svg", "--nonsense"],
    &["in.dot", "in.dot", "-o", "out.svg"],
    &["in.dot", "-o", "out.svg", "-o", "out2.svg"],
    &["bad-utf8.dot", "-o", "out.svg"],
    &["sub", "-o", "out.svg"],
    &["in.dot", "--no-layout=3", "-o", "out.svg"],
    &["in.dot", "--output"],
];
fn bad(i: u64, x: &mut Ctx) -> Result<(), String> {
    let s = Scratch::new();
    std::fs::create_dir(s.path("sub")).map_err(|e| e.to_string())?;
    std::fs::write(s.path("in.dot"), "digraph { a }").map_err(|e| e.to_string())?;
    std::fs::write(s.path("bad-utf8.dot"), b"digraph { a\xff }").map_err(|e| e.to_string())?;
    // A byte order mark is no blank of the grammar.
    for (name, text) in [("bom.dot", "\u{feff}digraph { a }"), ("empty.dot", ""), ("blank.dot", " \n\t\n"), ("front.dot", "x digraph { a }")] {
        std::fs::write(s.path(name), text).map_err(|e| e.to_string())?;
    }
    let wide: Vec<u8> = "\u{feff}digraph { a }".encode_utf16().flat_map(|x| x.to_le_bytes()).collect();
    std::fs::write(s.path("utf16.dot"), wide).map_err(|e| e.to_string())?;
    let args: Vec<String> = BAD[i as usize].iter().map(|x| x.to_string()).collect();
    x.transitions += 1;
    x.state(i);
    let o = cli::run(&s.0, &args);
    // What is no program is reported on either stream.
    let said = !o.stderr.is_empty() || (i < 5 && !o.stdout.is_empty());
    if (o.status.success() && i >= 5) || !said {
        return Err(format!("{:?} ends with {} and says {:?}", args, o.status, String::from_utf8_lossy(&o.stderr)));
    }
    if s.path("out.svg").exists() || s.path("out2.svg").exists() {
        return Err(format!("{:?} wrote an output file", args));
    }
    Ok(())
}
/// Large inputs, long paths and settings of the environment.
const ENV: [Option<&str>; 5] = [None, Some("off"), Some("error"), Some("trace"), Some("layout=debug")];
const LARGE: [&str; 4] = ["// comment\n", "a [label=\"\u{e9}\u{4e2d}\"]; ", "a; ", "\t \n"];
fn large(d: &[usize], x: &mut Ctx) -> Result<(), String> {
    let n = [0, 1, 100, 1000, 3000, 10000, 70000][d[0]];
    let prog = format!("digraph {{ a -> b; {} c }}", LARGE[d[1]].repeat(n));
    let s = Scratch::new();
    let dir = s.path(["", "d", &"long".repeat(60)][d[3]]);
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let input = dir.join("in.dot");
    std::fs::write(&input, &prog).map_err(|e| e.to_string())?;
    let f = Flags::from_bits(d[4]);
    let mut args = vec![input.to_string_lossy().to_string(), "-o".into(), dir.join("out.svg").to_string_lossy().to_string()];
    args.extend(cli::flags(f, false, false));
    let mut c = cli::command(&s.0, &args);
    if let Some(v) = ENV[d[2]] {
        c.env("RUST_LOG", v);
    }
    let o = c.output().map_err(|e| e.to_string())?;
    x.transitions += 1;
    x.state(h(&d));
    let want = svg(&prog, f)?;
    if !o.status.success() || std::fs::read(dir.join("out.svg")).ok().as_deref() != Some(want.as_bytes()) {
        return Err(format!("{:?} with a log level of {:?} ends with {} and does not write the drawing: {}", args, ENV[d[2]], o.status, String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>()));
    }
    Ok(())
}
/// Graphs of all kinds, drawn by the tool (with its log) and by the library (without).
fn graph(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let prog = c.text();
    let s = Scratch::new();
    std::fs::write(s.path("in.dot"), &prog).map_err(|e| e.to_string())?;
    let mut args = vec!["in.dot".to_string(), "-o".into(), "out.svg".into()];
    args.extend(cli::flags(c.flags, false, false));
    x.transitions += 1;
    x.state(h(&(&prog, &args)));
    let o = cli::run(&s.0, &args);
    let want = svg(&prog, c.flags)?;
    if !o.status.success() || std::fs::read(s.path("out.svg")).ok().as_deref() != Some(want.as_bytes()) {
        return Err(format!("{:?} ends with {} and does not write the drawing: {}", args, o.status, String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>()));
    }
    Ok(())
}
fn plan_(t: Tier) -> Plan {
    let len = t.pick(1, 2);
    let n = seq_total(STMTS.len(), 0, len);
    let radix = [16, 3, 3, 4];
    let m = mixed_total(&radix);
    let n2 = seq_total(STMTS.len(), 0, t.pick(2, 3));
    let l2 = t.pick(2, 3);
    let lr = [7, LARGE.len(), ENV.len(), 3, t.pick(2, 8)];
    let mut graphs = vec![
        graphs(2, 2, ALL),
        graphs(3, 3, t.pick(&[0, 1], ALL)),
        labelled(2, 2, &[0, 1, 2, 3, 5], ALL),
        shaped(2, 1, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], true, ALL),
        acyclic(4, true, t.pick(BOTH, ALL)),
        bipartite(2, 4, BOTH),
        structures(t.pick(5, 11), t.pick(28, 40), t.pick(&[0, 7], PLAIN)),
    ];
    if t == Tier::Thorough {
        graphs.push(labelled(3, 3, &[0, 2], BOTH));
        graphs.push(shaped(3, 2, &[0, 2, 3, 5], true, BOTH));
    }
    let mut v =
        vec![
            family(
                "options",
                &format!("every program of up to {} of {:?}, with every set of options, 3 previous states of the output file, 3 pairs of file names, 4 forms and 3 orders of the arguments", len, STMTS),
                n * m,
                move |i| format!("{} {:?}", program(i / m, len), mixed(i % m, &radix)),
                move |i, c| run(&program(i / m, len), &mixed(i % m, &radix), c),
            ),
            family(
                "programs",
                &format!("every program of up to {} of the same statements, with every set of options", l2),
                n2 * 16,
                move |i| format!("{} {:?}", program(i / 16, l2), i % 16),
                move |i, c| run(&program(i / 16, l2), &[(i % 16) as usize, (i % 3) as usize, 0, 0], c),
            ),
            family(
                "large",
                &format!("programs with up to 70000 times each of {:?}, log levels {:?}, paths of 3 lengths, all options", LARGE, ENV),
                mixed_total(&lr),
                move |i| format!("{:?}", mixed(i, &lr)),
                move |i, c| large(&mixed(i, &lr), c),
            ),
            family("command-lines", &format!("every one of {:?}", BAD), BAD.len() as u64, |i| format!("{:?}", BAD[i as usize]), bad),
        ];
    v.extend(graphs.into_iter().map(|g| fam(g, graph)));
    plan(
        v,
        "state = one command line with its files; transition = one run of the real tool; the file it leaves is compared byte by byte with what the library draws from the same text and options, or with what was there before if the text is not a program",
        &["the default output path /tmp/out.svg is not exercised"],
    )
}
fn main() {
    mc::engine::main("X01", plan_)
}
