//! B01: where attributes apply.
use mc::engine::*;
use mc::meaning::means;
use mc::rec::build;
use mc::refdot;

fn run(text: &str, c: &mut Ctx) -> Result<(), String> {
    let g = match refdot::parse(text) {
        Ok(g) => g,
        Err(e) => {
            c.skip("not a program");
            if cfg!(debug_assertions) && e == refdot::Fail::Unspecified {
                c.note("unspecified", 1);
            }
            return Ok(());
        }
    };
    let m = refdot::interpret(&g);
    c.state(h(&m));
    c.transitions += text.matches(';').count() as u64;
    means(&m, build(text)?)
}

fn words(name: &'static str, alpha: &'static [&'static str], len: usize) -> Family {
    text_family(
        name,
        &format!("every sequence of up to {} of {:?}, with the open braces closed at the end", len, alpha),
        seq_total(alpha.len(), 1, len),
        move |i| {
            let mut s = String::from("digraph { ");
            let mut open = 1;
            for x in seq(i, alpha.len(), 1, len) {
                s.push_str(alpha[x]);
                s.push(' ');
                if alpha[x].ends_with('{') {
                    open += 1;
                }
                if alpha[x] == "}" {
                    open -= 1;
                }
            }
            for _ in 0..open {
                s.push('}');
            }
            s
        },
        run,
    )
}

/// Defaults of two scopes, used far inside and after some of them are closed.
fn nested(max: usize) -> Family {
    let n = max as u64;
    text_family("nested", &format!("scopes nested 1 to {} deep, with defaults in one of them, others in another one, and uses in the innermost and, after it, in any other one", max), n.pow(4), move |i| {
        let (d, i) = (1 + (i % n) as usize, i / n);
        let (x, y, z) = ((i % n) as usize, (i / n % n) as usize, (i / n / n) as usize);
        if x > d || y > d || z >= d {
            return String::from("{");
        }
        let mut s = String::from("digraph {");
        for l in 0..=d {
            if l > 0 {
                s.push_str([" {", " subgraph {", " subgraph s {"][l % 3]);
            }
            if l == x {
                s.push_str(" node [shape=box color=blue]; edge [penwidth=3 color=blue];");
            }
            if l == y {
                s.push_str(" node [color=red fontsize=20]; edge [color=red fontsize=20];");
            }
        }
        s.push_str(" a -> b [label=l]; c [width=2];");
        for l in (0..=d).rev() {
            if l == z {
                s.push_str(" e -> f; a -> g;");
            }
            s.push_str(" }");
        }
        s
    }, run)
}
fn plan_(t: Tier) -> Plan {
    plan(
        vec![
            nested(t.pick(16, 30)),
            mc::scale::family(t.pick(130, 514), mc::scale::ALL, run),
            words("node-defaults", &["node [color=red];", "node [color=blue];", "a;", "a [color=green];", "a -> b;", "{", "}"], t.pick(7, 8)),
            words("edge-defaults", &["edge [color=red];", "edge [color=blue];", "a -> b;", "a -> b -> c [color=green];", "a -> a [penwidth=4];", "subgraph s {", "}"], t.pick(6, 8)),
            words(
                "all",
                &[
                    "node [color=red];", "node [fontsize=20 color=blue];", "node [shape=box];", "edge [color=red];", "edge [penwidth=5 label=x];", "a;",
                    "a [color=green];", "a [width=3 label=z];", "a -> b;", "b -> c [color=green label=y];", "{", "}", "subgraph {",
                    "graph [color=pink];", "color=cyan; label=q; shape=box;",
                ],
                t.pick(5, 6),
            ),
            words("rankdir", &["rankdir=LR;", "rankdir=TB;", "graph [rankdir=LR];", "graph [rankdir=TB; color=red];", "node [rankdir=LR];", "a [rankdir=LR];", "a -> b;", "{", "}"], t.pick(5, 7)),
            words("repeat", &["a [color=red];", "a [color=blue width=2];", "a [width=3];", "a;", "node [color=green];", "node [width=4];", "a -> a;", "{", "}"], t.pick(5, 7)),
            words(
                "overrides",
                &["a [color=red, color=blue];", "node [color=red; color=green];", "edge [color=red][color=blue];", "a -> b [label=x label=y];", "a;", "{", "}", "node [];", "a -> c [];"],
                t.pick(5, 6),
            ),
            words(
                "empty",
                &["edge [label=x color=red];", "edge [label=\"\"];", "a -> b [label=\"\"];", "a -> b [label=y color=\"\"];", "node [label=q shape=box];", "node [label=\"\"];", "a [label=\"\"];", "b [shape=\"\" label=z];", "b -> b;", "{", "}"],
                t.pick(4, 5),
            ),
            words(
                "defaults",
                // Values that are those of the crate's own defaults.
                &["edge [color=red penwidth=3 style=dashed fontsize=30];", "edge [color=black penwidth=1];", "a -> b [color=black];", "a -> b [style=solid];", "a -> b [penwidth=1 fontsize=14 label=w];", "node [color=red fontsize=30 shape=box width=5];", "node [color=black width=2];", "a [fontsize=14];", "a [shape=circle];", "b [shape=ellipse width=0];", "{", "}"],
                t.pick(4, 5),
            ),
        ],
        "state = result of the reference interpreter (nodes in order with their attributes, edges, graph attributes); transition = one statement interpreted; the orientation and the style of every drawn node, edge and label are compared with what the reference attributes mean",
        &["programs whose braces do not balance are skipped"],
    )
}
fn main() {
    mc::engine::main("B01", plan_)
}
