//! L08: the same input gives the same drawing.
use mc::engine::*;
use mc::gen::*;
use mc::rec::{svg, Flags};

/// Every map of the code under test hashes with keys of its own, each time.
fn run(c: &Case, x: &mut Ctx) -> Result<(), String> {
    text(&c.text(), c.flags, x)
}
fn text(t: &str, f: mc::rec::Flags, x: &mut Ctx) -> Result<(), String> {
    let a = svg(t, f)?;
    x.state(h(&a));
    for k in 0..4 {
        x.transitions += 1;
        let b = svg(t, f)?;
        if a != b {
            let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
            let w = |s: &str| s.chars().skip(i.saturating_sub(40)).take(120).collect::<String>();
            return Err(format!("run {} draws something else: {:?} became {:?}", k + 2, w(&a), w(&b)));
        }
    }
    // A second pair of eyes on the parser: what it builds has one meaning.
    Ok(())
}
const ATTRS: [&str; 8] = ["color=red", "fillcolor=blue", "style=filled", "fontsize=20", "fontsize=9", "width=3", "shape=box", "label=\"p\\nq\""];
fn attrs(len: usize) -> Family {
    let total = seq_total(8, 1, len) * 2;
    let gen = move |i: u64| {
        let v = seq(i / 2, 8, 1, len);
        let k = if i % 2 == 0 { "node" } else { "edge" };
        let mut s = format!("digraph {{ a; {} [", k);
        for x in &v {
            s.push_str(&format!("{}; ", ATTRS[*x]));
        }
        s.push_str("]; b -> c -> d; d -> b; a -> c [fontsize=33 label=u]; subgraph { ");
        for x in v.iter().rev() {
            s.push_str(&format!("{} [{}]; e{} [{}]; ", k, ATTRS[*x], x, ATTRS[(*x + 3) % 8]));
        }
        s.push_str("} d }");
        s
    };
    text_family("attributes", &format!("every sequence of up to {} of {:?} as defaults of nodes or edges, nested and repeated", len, ATTRS), total, gen, |t, c| text(t, Default::default(), c))
}
/// Programs that share labels, names, ports, sizes and structures, so that what one drawing leaves behind could be
/// taken up by another one.
fn programs() -> Vec<(String, Flags)> {
    let mut v: Vec<(String, Flags)> = Vec::new();
    let mut put = |s: String| v.push((s, Flags::default()));
    let labels = ["x", "a label of one long line of text", "l1\\nl2\\nl3", "a long label of several\\nlong lines of text, too", "", "<p>x|{<q>y|a long field of text}"];
    for l in labels {
        for k in 0..7 {
            put(match k {
                0 => format!("digraph {{ a [label=\"{}\" shape=box]; a -> b }}", l),
                1 => format!("digraph {{ a [label=\"{}\" fontsize=30]; a -> b }}", l),
                2 => format!("digraph {{ a [label=\"{}\" shape=record]; a:q -> b }}", l),
                3 => format!("digraph {{ rankdir=LR; a [label=\"{}\" shape=record fontsize=30]; a:q -> b }}", l),
                4 => format!("digraph {{ a -> b [label=\"{}\"] }}", l),
                5 => format!("digraph {{ rankdir=LR; a -> b [label=\"{}\" fontsize=20 color=red]; b -> a; a -> a }}", l),
                _ => format!("digraph {{ a [label=\"{}\" shape=doublecircle fontsize=9 color=red]; b [label=\"{}\" shape=Mrecord fillcolor=blue]; a -> b -> a }}", l, l),
            });
        }
    }
    for (a, b) in [("a", "b"), ("b", "a"), ("A", "B"), ("a ", "b")] {
        for e in ["->", "--"] {
            put(format!("digraph {{ \"{}\" {} \"{}\" }}", a, e, b));
        }
        put(format!("digraph {{ node [shape=box]; \"{}\"; subgraph {{ node [fontsize=30]; \"{}\" }} edge [color=blue]; \"{}\" -> \"{}\" }}", a, b, b, a));
        put(format!("digraph {{ edge [color=red penwidth=3 style=dashed]; \"{}\" -> \"{}\" -> \"{}\"; color=red }}", a, b, a));
    }
    for s in [
        "digraph { }",
        "digraph { node [shape=box] edge [color=red] rankdir=LR }",
        "digraph { a [",
        "digraph { a -> \"b",
        "digraph { node [color=red]; subgraph { node [shape=box]; a -> ; }",
        "digraph { a -> b -> c -> d; a -> c; a -> d; b -> d }",
        "digraph { d -> c -> b -> a; a -> d; b -> b }",
        "digraph { a -> x; a -> y; a -> z; b -> x; b -> y; b -> z; c -> x; c -> y; c -> z }",
        "digraph { a -> z; b -> y; c -> x; a -> y; c -> z }",
        "digraph { a [color=\"#102030\"]; a -> b [color=\"#102030\"] }",
        "digraph { a [color=\"#10203040\" fillcolor=transparent]; b [fillcolor=nothing color=\"red:blue\"] }",
        "digraph { a [shape=Mrecord label=\"a|b\"]; b [shape=Mrecord label=\"c|d\"]; a -> b }",
        "digraph { c [shape=Mrecord label=\"a|b\"] }",
    ] {
        put(s.to_string());
    }
    for n in [5, 30] {
        put(format!("digraph {{ {} }}", (0..n).map(|i| format!("n{} -> n{}; n0 -> n{};", i, i + 1, i + 1)).collect::<String>()));
        put(format!("digraph {{ {} }}", (0..n).map(|i| format!("n{} -> n{} [label=\"{}\" fontsize={}];", i, (i * 3 + 1) % n, i, 5 + i)).collect::<String>()));
    }
    let k = v.len();
    for b in 1..8 {
        for i in [1, 10, 40, k - 4, k - 1] {
            let s = v[i].0.clone();
            v.push((s, Flags::from_bits(b)));
        }
    }
    v
}
/// Draws the programs in a process of their own.
fn history(v: &[&(String, Flags)]) -> Result<Vec<String>, String> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut c = Command::new(exe).arg("--history").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
    let all: Vec<String> = v.iter().map(|(t, f)| format!("{}{}", f.debug as usize * 4 + f.no_layout as usize * 2 + f.no_opt as usize, t)).collect();
    c.stdin.take().unwrap().write_all(all.join("\0").as_bytes()).map_err(|e| e.to_string())?;
    let o = c.wait_with_output().map_err(|e| e.to_string())?;
    let d: Vec<String> = String::from_utf8_lossy(&o.stdout).split('\0').map(String::from).collect();
    if !o.status.success() || d.len() != v.len() {
        return Err(format!("the process that draws them one after the other ended with {}", o.status));
    }
    Ok(d)
}
fn draw_history() {
    use std::io::{Read, Write};
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let d: Vec<String> = s.split('\0').map(|t| svg(&t[1..], Flags::from_bits(t[..1].parse().unwrap())).unwrap_or_else(|e| format!("error: {}", e))).collect();
    std::io::stdout().write_all(d.join("\0").as_bytes()).unwrap();
}
fn histories(len: usize, step: usize) -> Family {
    let p: std::sync::Arc<Vec<(String, Flags)>> = std::sync::Arc::new(programs().into_iter().step_by(step).collect());
    let base: Vec<std::sync::OnceLock<Result<String, String>>> = p.iter().map(|_| Default::default()).collect();
    let (n, q) = (p.len(), p.clone());
    let show = move |i: u64| digits(i, n, len).into_iter().map(|k| format!("{}{}", q[k].0, q[k].1.show())).collect::<Vec<_>>().join("\n  then ");
    family(
        &format!("histories-{}", len),
        &format!("every sequence of {} out of {} programs (that share labels, names and structures), drawn in one process of its own; the last one is drawn as in a process that draws nothing else", len, n),
        (n as u64).pow(len as u32),
        show,
        move |i, x| {
            let v: Vec<&(String, Flags)> = digits(i, n, len).into_iter().map(|k| &p[k]).collect();
            let k = digits(i, n, len)[len - 1];
            let alone = base[k].get_or_init(|| history(&[&p[k]]).map(|mut d| d.remove(0))).clone()?;
            let got = history(&v)?.pop().unwrap();
            x.transitions += len as u64;
            x.state(h(&(i, &got)));
            if got != alone {
                let i = alone.bytes().zip(got.bytes()).take_while(|(x, y)| x == y).count();
                let w = |s: &str| s.chars().skip(i.saturating_sub(40)).take(120).collect::<String>();
                return Err(format!("the last one is drawn differently after the others: {:?} became {:?}", w(&alone), w(&got)));
            }
            Ok(())
        },
    )
}
fn plan_(t: Tier) -> Plan {
    let mut v = vec![attrs(t.pick(4, 5)), histories(2, 1), histories(3, t.pick(7, 3))];
    let mut gens = vec![
        graphs(3, 3, PLAIN),
        graphs(2, 3, PLAIN),
        graphs(4, 3, BOTH),
        labelled(2, 2, &[0, 1, 2, 3, 4, 5, 6], PLAIN),
        labelled(3, 3, &[0, 5], BOTH),
        shaped(2, 2, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], true, BOTH),
        shaped(3, 2, &[0, 2, 3, 5, 7], true, BOTH),
        acyclic(5, true, ALL),
        bipartite(3, 3, BOTH),
        structures(t.pick(8, 14), t.pick(28, 100), t.pick(BOTH, PLAIN)),
    ];
    if t == Tier::Thorough {
        gens.push(graphs(4, 4, BOTH));
        gens.push(graphs(3, 5, BOTH));
        gens.push(labelled(3, 3, &[0, 1, 3, 5, 6], BOTH));
        gens.push(bipartite(4, 4, DEFAULT));
        gens.push(acyclic(6, true, DEFAULT));
    }
    for g in gens {
        v.push(fam(g, run));
    }
    plan(v, "state = one SVG document; transition = one more run of the whole pipeline from the same text, whose document must be the same, byte by byte", &["hash maps of the standard library take new random keys whenever one is made"])
}
fn main() {
    if std::env::args().nth(1).as_deref() == Some("--history") {
        return draw_history();
    }
    mc::engine::main("L08", plan_)
}
