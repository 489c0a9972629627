//! P03: the front end never panics and always terminates.
use layout::gv::{dump_ast, DotParser, GraphBuilder};
use mc::engine::*;

fn run(text: &str, c: &mut Ctx) -> Result<(), String> {
    let mut p = DotParser::new(text);
    c.transitions += 1;
    match guard(|| p.process())? {
        Err(e) => {
            c.note("rejected", 1);
            c.state(h(&(0u8, e)));
            guard(|| p.print_error()).map_err(|e| format!("reporting the error {}", e))?;
            c.transitions += 1;
        }
        Ok(g) => {
            c.note("accepted", 1);
            c.state(h(&(1u8, format!("{:?}", g))));
            guard(|| dump_ast(&g)).map_err(|e| format!("dumping the tree {}", e))?;
            guard(|| {
                let mut b = GraphBuilder::new();
                b.visit_graph(&g);
                let v = b.get();
                v.num_nodes()
            })
            .map_err(|e| format!("building the graph {}", e))?;
            c.transitions += 2;
        }
    }
    Ok(())
}

fn words(name: &'static str, pre: &'static str, alpha: &'static [&'static str], post: &'static str, hi: usize) -> Family {
    text_family(
        name,
        &format!("{:?} + every concatenation of up to {} of {:?} + {:?}", pre, hi, alpha, post),
        seq_total(alpha.len(), 0, hi),
        move |i| format!("{}{}{}", pre, seq(i, alpha.len(), 0, hi).iter().map(|x| alpha[*x]).collect::<String>(), post),
        run,
    )
}

const CORPUS: &[&str] = &[
    "digraph { a -> b [label=\"foo\"]; }",
    "strict graph \"g\" {\n rankdir=LR; node [shape=Mrecord, width=3];\n s [label=\"{<p> a|b}|<q> c\"];\n s:p -- t:q -- s:zz [color=\"red:blue\", style=dashed penwidth=7];\n subgraph x { edge [fontsize=-1]; { rank = same; t } }\n // c\n /* d */\n}",
    "digraph g {\n1 -> -2.50 -> _x [color=\"#12345\"];\"\" -> \"\\\"\\\\\\n\";\nnode[fillcolor=transparent][style=filled];y[label=\"\\l\\l\"]}\n",
];
const PIECES: &[&str] = &[
    "", "{", "}", "[", "]", "\"", "\\", "/", "*", "//", "/*", "-", "->", "=", ";", ",", ":", "<", "|", "é", "\u{1F600}", "\0", "\n", "\r", "node", "#", ".", "9999999999999999999999",
];

fn corpus_family() -> Family {
    // (text, position, piece, how much is dropped: nothing, one char, the rest)
    let lens: Vec<u64> = CORPUS.iter().map(|x| x.chars().count() as u64 + 1).collect();
    let total: u64 = lens.iter().sum::<u64>() * PIECES.len() as u64 * 3;
    text_family(
        "damaged-texts",
        &format!("3 texts with each of {} pieces inserted at, replacing the character at, or replacing everything after every position", PIECES.len()),
        total,
        move |i| {
            let d = mixed(i, &[3, PIECES.len()]);
            let mut k = i / (3 * PIECES.len() as u64);
            let mut t = 0;
            while k >= lens[t] {
                k -= lens[t];
                t += 1;
            }
            let c: Vec<char> = CORPUS[t].chars().collect();
            let k = k as usize;
            let mut s: String = c[..k].iter().collect();
            s.push_str(PIECES[d[1]]);
            match d[0] {
                0 => s.extend(&c[k..]),
                1 => s.extend(c[k..].iter().skip(1)),
                _ => {}
            }
            s
        },
        run,
    )
}

fn nested(kind: u64, n: usize) -> String {
    match kind {
        0 => format!("digraph {}a{}", "{".repeat(n), "}".repeat(n)),
        1 => format!("digraph {}a", "{".repeat(n)),
        2 => format!("digraph {{ {} a {} }}", "subgraph s {".repeat(n), "}".repeat(n)),
        3 => format!("digraph {{ a {} }}", "[k=v]".repeat(n)),
        4 => format!("digraph {{ a [shape=record label=\"{}x{}\"] }}", "{".repeat(n), "}".repeat(n)),
        5 => format!("digraph {{ a [shape=record label=\"{}x\"] }}", "{a|".repeat(n)),
        6 => format!("digraph {{ a {} }}", "-> a:b".repeat(n)),
        _ => format!("digraph {{ a [shape=record label=\"{}\"] }}", "a}|".repeat(n)),
    }
}

/// Nesting that may need more than the stack: in a process of its own.
fn very_deep() -> Family {
    const N: usize = 100_000;
    const SHOW: [&str; 8] = [
        "digraph {{{...a...}}}",
        "digraph {{{...a",
        "digraph { subgraph s {...subgraph s { a }...} }",
        "digraph { a [k=v][k=v]... }",
        "digraph { a [shape=record label=\"{{{...x...}}}\"] }",
        "digraph { a [shape=record label=\"{a|{a|...x\"] }",
        "digraph { a -> a:b -> a:b... }",
        "digraph { a [shape=record label=\"a}|a}|...\"] }",
    ];
    family(
        "very-deep",
        &format!("braces, attribute lists, record braces and chains nested or repeated {} times, closed and not closed, with a stack of 8 MB", N),
        8,
        |i| format!("{} (... stands for {} times)", SHOW[i as usize], N),
        |i, c| {
            c.transitions += 1;
            c.state(i);
            let me = std::env::current_exe().map_err(|e| e.to_string())?;
            let r = std::process::Command::new(me)
                .args(["deep", &i.to_string(), &N.to_string()])
                .stdin(std::process::Stdio::null())
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .status()
                .map_err(|e| e.to_string())?;
            match r.code() {
                Some(0) => Ok(()),
                Some(1) => Err("the front end panics".into()),
                _ => Err("the stack overflows".into()),
            }
        },
    )
}
fn deep(kind: u64, n: usize) -> ! {
    let t = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        let text = nested(kind, n);
        let mut p = DotParser::new(&text);
        match p.process() {
            Err(_) => p.print_error(),
            Ok(g) => {
                dump_ast(&g);
                let mut b = GraphBuilder::new();
                b.visit_graph(&g);
                b.get();
            }
        }
    });
    std::process::exit(match t.map(|t| t.join()) {
        Ok(Ok(())) => 0,
        _ => 1,
    })
}

fn plan_(t: Tier) -> Plan {
    let names = ["label", "shape", "color", "fillcolor", "style", "fontsize", "width", "penwidth", "rankdir"];
    const CH: &[&str] = &["", "#", ":", "1", "-", "é", "f", "<", "{", "|", "}", "%", " ", "\n", "record", "99999999999999999999"];
    let hi = t.pick(3, 4);
    let vals = seq_total(CH.len(), 0, hi);
    let mut f = vec![
        words("characters", "", &["d", "{", "}", "[", "]", "\"", "\\", "/", "*", "-", ">", "=", "1", ".", "\n", ";"], "", t.pick(5, 6)),
        words("body-characters", "digraph {", &["a", "{", "}", "[", "]", "\"", "\\", "/", "*", "-", ">", "=", "1", "\n", ";", ":", ","], "}", t.pick(4, 5)),
        words("body-tokens", "digraph {", &["a", "{", "}", "[", "]", "\"\"", "->", "--", "=", " node ", " edge ", " graph ", " subgraph ", ";", ":", ","], "}", t.pick(5, 6)),
        words("body-unclosed", "graph {", &["a ", "{", "}", "[", "]", "\"", "->", "=", "k=v", ";", ":", ","], "", t.pick(5, 6)),
        words("record-labels", "digraph { a [shape=record label=\"", &["{", "}", "|", "<", ">", "a", " ", "é", "\\n"], "\"]; a:a -> a:b }", t.pick(5, 6)),
        words("record-labels-in-defaults", "digraph { node [shape=Mrecord]; \"", &["{", "}", "|", "<", ">", "a", " ", "\\\""], "\" -> b }", t.pick(5, 6)),
        corpus_family(),
        text_family(
            "attribute-values",
            &format!("every attribute of {:?}, on the graph, a node, an edge and as defaults, with every concatenation of up to {} of {:?}", names, hi, CH),
            vals * names.len() as u64 * 3,
            move |i| {
                let d = mixed(i, &[3, names.len()]);
                let v: String = seq(i / (3 * names.len() as u64), CH.len(), 0, hi).iter().map(|x| CH[*x]).collect();
                let k = names[d[1]];
                match d[0] {
                    0 => format!("digraph {{ {}=\"{}\"; a [{}=\"{}\"]; b -> c [{}=\"{}\"] }}", k, v, k, v, k, v),
                    1 => format!("digraph {{ node [{}=\"{}\" shape=record]; edge [{}=\"{}\"]; a -> b }}", k, v, k, v),
                    _ => format!("digraph {{ a [shape=box {}=\"{}\"]; a [style=filled]; a -> a [{}=\"{}\"] }}", k, v, k, v),
                }
            },
            run,
        ),
    ];
    f.push(very_deep());
    let depth = t.pick(200u64, 400);
    f.push(text_family(
        "nesting",
        &format!("braces, attribute lists, record braces and chains nested or repeated up to {} times, closed and not closed", depth),
        depth * 8,
        |i| nested(i % 8, (i / 8) as usize + 1),
        run,
    ));
    f.push(mc::scale::family(1026, mc::scale::TEXTS, run));
    let mut p = plan(
        f,
        "state = outcome of the front end on a text (the error, or the tree); transition = one stage (parse, report the error; or parse, dump the tree, build the graph) completed without a panic; a stage that does not return is found by the watchdog",
        &[],
    );
    // One process per core: printing takes a lock.
    p.procs = 8;
    p
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|x| x == "deep").unwrap_or(false) {
        deep(a[2].parse().unwrap(), a[3].parse().unwrap());
    }
    mc::engine::main("P03", plan_)
}
