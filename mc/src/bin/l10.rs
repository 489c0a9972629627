//! L10: drawing a graph takes time polynomial in its size.
use mc::engine::*;
use mc::gen::*;

/// Graphs whose paths, subsets of nodes or orders of a rank are too many to
/// be walked one by one; a step that does so hits the time limit.
fn list(max: usize, edges: usize) -> Vec<(usize, Case)> {
    let mut v = Vec::new();
    for kind in 0..KINDS {
        let mut k = 8;
        while k <= max {
            if let Some(c) = structure(kind, k) {
                // The wide layers have few paths of one edge, and very many long ones.
                if c.edges.len() <= edges * if kind >= 19 { 3 } else { 1 } && c.n <= edges {
                    for lab in 0..3 {
                        for mode in [0usize, 1, 2, 4] {
                            let mut c = c.clone();
                            apply(&mut c, mode);
                            for i in 0..c.edges.len() {
                                c.estyle[i] = [0, [1, 0, 0][i % 3], [0, 2, 3][i % 3]][lab];
                            }
                            for i in 0..c.n {
                                c.nstyle[i] = [0, 1, [3, 2, 4][i % 3]][lab];
                            }
                            v.push((kind, c));
                        }
                    }
                }
            }
            k = k * 5 / 4;
        }
    }
    v
}
fn run(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let t = std::time::Instant::now();
    let calls = c.calls()?;
    let ms = t.elapsed().as_millis() as u64;
    x.state(h(&c.show()));
    x.transitions += calls.len() as u64;
    x.note("milliseconds", ms);
    if std::env::var("L10_SHOW").is_ok() && ms > 300 {
        eprintln!("{} ms: {} nodes {} edges {}", ms, c.n, c.edges.len(), &c.show()[..120.min(c.show().len())]);
    }
    Ok(())
}
/// Attributes, strings, braces and records in bulk.
fn bulk(i: u64) -> String {
    let n = [10usize, 100, 400][(i % 3) as usize];
    let rep = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
    match i / 3 {
        0 => format!("digraph {{ {} }}", rep(&|i| format!("a{} [label=\"{}\"]; ", i, "x".repeat(i % 50)))),
        1 => format!("digraph {{ a [{}] }}", rep(&|i| format!("k{}=v{}, ", i, i))),
        2 => format!("digraph {{ {} a {} }}", rep(&|_| "{".into()), rep(&|_| "}".into())),
        3 => format!("digraph {{ a [shape=record label=\"{}\"] }}", rep(&|i| format!("<p{}> f{} | ", i, i)) + "end"),
        4 => format!("digraph {{ a [shape=record label=\"{}x{}\"] }}", "{a|".repeat(n.min(150)), "}".repeat(n.min(150))),
        5 => format!("digraph {{ {} }}", rep(&|i| format!("{} node [color=red] n{} ", if i % 2 == 0 { "{" } else { "}" }, i)) + if n % 2 == 1 { "}" } else { "" }),
        6 => format!("digraph {{ a -> {} z }}", rep(&|_| "b -> a -> ".into())),
        7 => format!("digraph {{ {} }}", rep(&|i| format!("/* {} */ # ", i).replace("# ", "") + &format!("// {}\n x{};", i, i % 7))),
        8 => format!("digraph {{ a [label=\"{}\"] }}", "line\\n".repeat(n)),
        9 => format!("digraph {{ a [label=\"{}\"] }}", "w".repeat(n * 20)),
        10 => format!("digraph {{ {} }}", rep(&|i| format!("s{0} -> s{0}; s{0} -> s{0} [label=x]; ", i % 20))),
        _ => format!("digraph {{ {} }}", rep(&|i| format!("u{} -> u{} [label=\"l{}\"]; ", i % 9, (i * i + 1) % 9, i))),
    }
}
fn text(t: &str, x: &mut Ctx) -> Result<(), String> {
    let out = mc::rec::svg(t, Default::default())?;
    x.state(h(&out));
    x.transitions += t.len() as u64;
    Ok(())
}
fn plan_(t: Tier) -> Plan {
    let (max, edges) = t.pick((60, 90), (120, 200));
    let v = std::sync::Arc::new(list(max, edges));
    let v2 = v.clone();
    plan(
        vec![
            family(
                "structures",
                &format!("chains, cycles, stars, trees, diamonds, ladders, complete and bipartite graphs, grids, long and back edges, self edges and components of sizes 8 to {}, growing by a quarter, with at most {} edges (complete layers: three times as many); three patterns of labels and shapes, four modes; each within the time limit", max, edges),
                v.len() as u64,
                move |i| v[i as usize].1.show(),
                move |i, c| run(&v2[i as usize].1, c),
            ),
            text_family("bulk", "12 kinds of long texts (statements, attributes, nesting, records, chains, comments, labels, repeated edges) of 10, 100 and 400 parts, to SVG", 36, bulk, text),
        ],
        "state = one large graph; transition = one drawing call; a case that does not end within the time limit of 20 s (60 s thorough), tens of times what it takes, is a violation",
        &["time is bounded by a limit far from what the cases take, not counted"],
    )
}
fn main() {
    mc::engine::main("L10", plan_)
}
