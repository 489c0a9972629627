//! L16: what takes no space moves nothing.
use mc::api::{self, G};
use mc::engine::*;
use mc::gen::*;
use mc::rec::{draw, draw_vg, Call, Flags, P};

fn at(p: &P) -> String {
    format!("{:.4},{:.4}", p.0, p.1)
}
/// Where things are drawn; without the edges of one colour.
fn places(calls: &[Call], without: Option<&str>) -> Vec<String> {
    let mut v: Vec<String> = calls
        .iter()
        .filter_map(|c| match c {
            Call::Rect { xy, size, .. } => Some(format!("box at {} of {}", at(xy), at(size))),
            Call::Circle { xy, size, .. } => Some(format!("ellipse at {} of {}", at(xy), at(size))),
            Call::Line { a, b, .. } => Some(format!("line from {} to {}", at(a), at(b))),
            Call::Text { xy, text, .. } => Some(format!("text {:?} at {}", text, at(xy))),
            Call::Arrow { look, .. } if Some(look.line.as_str()) == without => None,
            Call::Arrow { path, text, .. } => Some(format!("edge {:?} along {}", text, path.iter().map(|(a, b)| format!("{} {}", at(a), at(b))).collect::<Vec<_>>().join(" "))),
            Call::Clip { .. } => None,
        })
        .collect();
    v.sort();
    v
}
fn same(a: &[String], b: &[String], what: &str) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    let k = (0..a.len().min(b.len())).find(|k| a[*k] != b[*k]).unwrap_or(a.len().min(b.len()));
    Err(format!("with {}, the drawing has {:?} in the place of {:?}", what, b.get(k), a.get(k)))
}

const EDGE: [&str; 3] = ["style=dashed penwidth=20", "penwidth=0", "style=dotted"];
const NODE: [&str; 2] = ["color=red fillcolor=yellow width=40", "style=filled width=0 color=transparent"];
fn nth(s: &str, from: &str, k: usize, to: &str) -> String {
    match s.match_indices(from).nth(k) {
        Some((i, _)) => format!("{}{}{}", &s[..i], to, &s[i + from.len()..]),
        None => s.to_string(),
    }
}
fn text(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let t = c.text();
    x.state(h(&(&t, c.flags.show())));
    let base = places(&draw(&t, c.flags)?.calls, None);
    let mut go = |u: String| -> Result<(), String> {
        if u == t {
            return Ok(());
        }
        x.transitions += 1;
        let d = places(&draw(&u, c.flags)?.calls, None);
        same(&base, &d, &u)
    };
    let (m, line) = (c.edges.len(), if c.directed { " -> " } else { " -- " });
    let other = if c.directed { " -- " } else { " -> " };
    go(t.replace(line, other))?;
    go(t.replace("=record", "=Mrecord"))?;
    go(t.replace("=Mrecord", "=record"))?;
    for e in EDGE {
        go(t.replace(" color=", &format!(" {} color=", e)))?;
    }
    go(t.replacen('{', "{ edge [color=blue style=dashed penwidth=5]; node [color=green fillcolor=\"#00000000\" width=9 style=filled];", 1))?;
    let few = m <= 6;
    for k in 0..m {
        if few || k % 7 == m % 7 {
            go(nth(&t, line, k, other))?;
            for e in &EDGE[..if few { 3 } else { 1 }] {
                go(nth(&t, " color=", k, &format!(" {} color=", e)))?;
            }
        }
    }
    for i in 0..c.n {
        if few || i % 7 == m % 7 {
            for s in NODE {
                go(t.replacen(&format!(" n{} [", i), &format!(" n{} [{} ", i, s), 1))?;
            }
        }
    }
    Ok(())
}

fn graph(g: &G, x: &mut Ctx) -> Result<(), String> {
    x.state(h(&g.show()));
    let drawn = |g: &G| draw_vg(g.build(), g.flags).calls;
    let base = drawn(g);
    let all = places(&base, None);
    for k in 0..g.edges.len() {
        let color = mc::rec::look(&api::style(g.edges[k].look)).line;
        for v in 0..12 {
            let mut o = g.clone();
            let e = &mut o.edges[k];
            match v {
                0..=3 => {
                    e.start = v & 1 == 1;
                    e.end = v & 2 == 2;
                }
                4..=6 => e.line = v - 4,
                // An invisible edge has the place of a visible one.
                7 if e.text.is_empty() => e.line = 3,
                8 => e.look.1 = 0,
                9 => e.look.1 = 60,
                10 => e.props = if e.props.is_some() { None } else { Some("class=\"x\"".into()) },
                11 => {
                    e.look.2 = Some(0x12345678);
                    e.look.3 = 33;
                }
                _ => continue,
            }
            x.transitions += 1;
            let d = drawn(&o);
            if v == 7 || g.edges[k].line == 3 {
                same(&places(&base, Some(&color)), &places(&d, Some(&color)), &o.show())?;
            } else {
                same(&all, &places(&d, None), &o.show())?;
            }
        }
    }
    for i in 0..g.nodes.len() {
        for v in 0..6 {
            let mut o = g.clone();
            let n = &mut o.nodes[i];
            match v {
                0 => n.look.1 = 0,
                1 => n.look.1 = 60,
                2 => n.look.2 = if n.look.2.is_some() { None } else { Some(0xff) },
                3 => n.look.3 = if n.look.3 == 0 { 20 } else { 0 },
                4 => n.props = if n.props.is_some() { None } else { Some("class=\"x\"".into()) },
                // The size of the element is given; but the cells of a record follow their texts.
                5 if n.kind != 3 => n.look.4 = if n.look.4 == 14 { 300 } else { 14 },
                _ => continue,
            }
            x.transitions += 1;
            same(&all, &places(&drawn(&o), None), &o.show())?;
        }
    }
    Ok(())
}

fn plan_(t: Tier) -> Plan {
    let gens = vec![
        graphs(2, 2, ALL),
        graphs(2, 3, BOTH),
        graphs(3, 2, PLAIN),
        graphs(3, 3, BOTH),
        graphs(4, 3, t.pick(DEFAULT, BOTH)),
        labelled(2, 2, &[0, 1, 2, 3, 5], PLAIN),
        labelled(3, 3, &[0, 2], BOTH),
        labelled(4, 3, &[0, 2], t.pick(&[], BOTH)),
        shaped(2, 2, &[0, 1, 2, 3, 4, 5, 6, 7], false, BOTH),
        shaped(3, 2, &[0, 2, 3, 5], true, BOTH),
        acyclic(5, true, DEFAULT),
        bipartite(3, 3, BOTH),
        structures(t.pick(6, 12), t.pick(14, 40), BOTH),
        sparse(&[18], t.pick(&[], DEFAULT)),
        copies(t.pick(&[], BOTH)),
    ];
    let mut v: Vec<Family> = gens.into_iter().filter(|g| g.total > 0).map(|g| fam(g, text)).collect();
    v.push(api::arrows(graph, 2, t.pick(1, 2), &[0, 1, 2, 3, 4]));
    if t == Tier::Thorough {
        v.push(api::arrows(graph, 2, 2, &[0]));
    }
    v.push(api::shapes(graph, 1, 1, &[0, 1, 4]));
    v.push(api::shapes(graph, 2, 1, &[0]));
    v.push(api::many(graph, t.pick(12, 40), &[0, 1]));
    let _ = Flags::default();
    plan(
        v,
        "state = one graph with its options; transition = one change of a look (colours, line widths, dashes, directions of edges, heads, fillings, roundings, properties, invisible edges) of one or of all edges or nodes, after which everything must be drawn at the same places",
        &["labels of invisible edges are not specified"],
    )
}
fn main() {
    mc::engine::main("L16", plan_)
}
