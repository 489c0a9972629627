//! P05: the printed syntax tree shows the whole program, in order.
use layout::gv::{dump_ast, DotParser};
use mc::capture;
use mc::engine::*;
use mc::refdot::{self, NodeId, Stmt, Target};
use std::collections::BTreeMap;

/// What a line shows, and how deep it is nested.
#[derive(Debug, Clone, PartialEq)]
struct Line {
    kind: &'static str,
    text: String,
}

const ANY: &str = "\u{1}any";

fn id(n: &NodeId) -> String {
    match &n.port {
        Some(p) => format!("{}:{}", n.name, p),
        None => n.name.clone(),
    }
}
fn attrs(l: &refdot::Attrs, d: usize, out: &mut Vec<(Line, usize)>) {
    for (k, v) in l {
        out.push((Line { kind: "attribute", text: format!("{:?} {:?}", k, v) }, d));
    }
}
fn expect(b: &[Stmt], d: usize, out: &mut Vec<(Line, usize)>) {
    let line = |kind, text: String, out: &mut Vec<(Line, usize)>| out.push((Line { kind, text }, d));
    for s in b {
        match s {
            Stmt::Node(n, a) => {
                line("node", id(n), out);
                attrs(a, d, out);
            }
            Stmt::Edge(n, to, a) => {
                line("end", id(n), out);
                for (t, arrow) in to {
                    line("arrow", if *arrow { "->" } else { "--" }.to_string(), out);
                    line("end", id(t), out);
                }
                attrs(a, d, out);
            }
            Stmt::Attr(t, a) => {
                let t = match t {
                    Target::Graph => "Graph",
                    Target::Node => "Node",
                    Target::Edge => "Edge",
                };
                line("default", t.to_string(), out);
                attrs(a, d, out);
            }
            Stmt::Sub(n, b) => {
                // What a scope without a name is called is not specified.
                line("graph", n.clone().unwrap_or(ANY.into()), out);
                expect(b, d + 1, out);
            }
        }
    }
}

/// Reads the printed lines: what they show, and their indentation.
fn read(out: &str) -> Result<Vec<(Line, usize)>, String> {
    let mut r = Vec::new();
    for l in out.lines() {
        let t = l.trim();
        let mut indent = l.len() - l.trim_start().len();
        let (kind, text) = if let Some(n) = t.strip_prefix("Graph:") {
            ("graph", n.trim().to_string())
        } else if let Some(n) = t.strip_prefix("Attribute ") {
            ("default", n.trim().trim_end_matches(':').to_string())
        } else if let Some(n) = t.strip_prefix("Node ") {
            indent += n.len() - n.trim_start().len();
            ("node", n.trim().to_string())
        } else if t == "->" || t == "--" {
            ("arrow", t.to_string())
        } else if let Some((k, v)) = t.split_once('=') {
            let k = k.trim().trim_start_matches(|c: char| c.is_ascii_digit() || c == ')');
            let un = |s: &str| s.trim().strip_prefix('"').and_then(|s| s.strip_suffix('"')).map(|s| s.to_string());
            match (un(k), un(v)) {
                (Some(k), Some(v)) => ("attribute", format!("{:?} {:?}", k, v)),
                _ => return Err(format!("line {:?}", l)),
            }
        } else {
            ("end", t.to_string())
        };
        r.push((Line { kind, text }, indent));
    }
    Ok(r)
}

fn run(text: &str, c: &mut Ctx) -> Result<(), String> {
    let m = match refdot::parse(text) {
        Ok(m) => m,
        Err(_) => {
            c.skip("not a program");
            return Ok(());
        }
    };
    let mut want = vec![(Line { kind: "graph", text: m.name.clone().unwrap_or_default() }, 0)];
    expect(&m.body, 1, &mut want);
    let g = DotParser::new(text).process()?;
    let out = capture::stdout(|| dump_ast(&g));
    let out = String::from_utf8_lossy(&out).to_string();
    let mut got = read(&out)?;
    for (g, w) in got.iter_mut().zip(&want) {
        if w.0.text == ANY {
            g.0.text = ANY.into();
        }
    }
    c.state(h(&out));
    c.transitions += want.len() as u64;
    c.outcome(want.len() as u64);
    let (a, b): (Vec<&Line>, Vec<&Line>) = (got.iter().map(|x| &x.0).collect(), want.iter().map(|x| &x.0).collect());
    if a != b {
        return Err(format!("printed {:?}, read as {:?}, expected {:?}", out, a, b));
    }
    // Nesting: of two lines of a kind the deeper one is indented more.
    let mut by: BTreeMap<(&str, usize), usize> = BTreeMap::new();
    for ((l, ind), (_, d)) in got.iter().zip(&want) {
        if *by.entry((l.kind, *d)).or_insert(*ind) != *ind {
            return Err(format!("printed {:?}: lines of one depth are not aligned", out));
        }
    }
    for (a, x) in &by {
        for (b, y) in &by {
            if a.0 == b.0 && a.1 < b.1 && x >= y {
                return Err(format!("printed {:?}: a nested {} is not indented", out, a.0));
            }
        }
    }
    Ok(())
}

const STMTS: &[&str] = &[
    "a",
    "b:p [k=v, w=\"x y\"]",
    "a -> b:q",
    "a:p -- c -> d:r [color=red][z=1]",
    "graph [rankdir=LR]",
    "node [shape=box; label=\"\"]",
    "edge [k=1]",
    "x = y",
    "subgraph s { ",
    "subgraph { ",
    "{ ",
    "} ",
];

fn program(w: &[usize]) -> String {
    let mut s = String::from("digraph G {\n");
    let mut depth = 0;
    for x in w {
        s.push_str(STMTS[*x]);
        match *x {
            8..=10 => depth += 1,
            11 => depth -= 1,
            _ => s.push(';'),
        }
        s.push('\n');
    }
    for _ in 0..depth.max(0) {
        s.push_str("} ");
    }
    s.push('}');
    s
}

fn plan_(t: Tier) -> Plan {
    let len = t.pick(5, 7);
    let n = STMTS.len();
    let mut p = plan(
        vec![
            mc::scale::family(t.pick(200, 1026), mc::scale::ONE_LINE, run),
            text_family(
                "programs",
                &format!("every sequence of up to {} of {:?}, closed", len, STMTS),
                seq_total(n, 0, len),
                move |i| program(&seq(i, n, 0, len)),
                run,
            ),
            text_family(
                "attributes",
                &format!("every list of up to {} attributes of four, on a node, an edge, a default and the graph", t.pick(6, 8)),
                seq_total(4, 0, t.pick(6, 8)) * 4,
                move |i| {
                    let l = seq(i / 4, 4, 0, t.pick(6, 8)).into_iter().map(|k| ["x=1", "x=2", "y=1", "\"\"=\"\""][k]).collect::<Vec<_>>().join(", ");
                    format!("digraph {{ {} [{}]; }}", ["a", "a -- b:c", "node", "graph"][(i % 4) as usize], l)
                },
                run,
            ),
            text_family(
                "names",
                "every graph name, node name, port, key and value of a list, quoted and plain",
                6 * 6 * 6 * 6 * 2,
                move |i| {
                    let names = ["a", "\"x y\"", "_1", "\"é\"", "\"a \\\" b\"", "42"];
                    let d = mixed(i, &[6, 6, 6, 6, 2]);
                    let (a, b, k, v) = (names[d[0]], names[d[1]], names[d[2]], names[d[3]]);
                    if d[4] == 0 {
                        format!("graph {} {{ {} [{}={}] }}", a, b, k, v)
                    } else {
                        format!("digraph {{ subgraph {} {{ {}:{} -> {} }} }}", a, b, k, v)
                    }
                },
                run,
            ),
        ],
        "state = one printed syntax tree; transition = one line read back and compared with the tree of the reference parser: kind, names, ports, keys and values in the order of the program, lines of a kind and depth aligned, nested ones indented deeper",
        &["names with line breaks are excluded; the exact widths of indentation are not specified"],
    );
    p.procs = 8;
    p
}
fn main() {
    mc::engine::main("P05", plan_)
}
