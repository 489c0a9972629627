//! L01: every graph is laid out: no panic, no endless loop, finite numbers.
use layout::backends::svg::SVGWriter;
use layout::core::base::Orientation;
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
use layout::std_shapes::shapes::*;
use layout::topo::layout::VisualGraph;
use mc::engine::*;
use mc::gen::*;
use mc::rec::{draw_vg, Flags};

fn run(c: &Case, x: &mut Ctx) -> Result<(), String> {
    x.transitions += c.size();
    x.state(h(&c.show()));
    let calls = c.calls()?;
    if calls.is_empty() {
        return Err("nothing was drawn".into());
    }
    for k in &calls {
        if k.numbers().iter().any(|v| !v.is_finite()) {
            return Err(format!("a number that is not finite in {:?}", k));
        }
        if k.numbers().iter().any(|v| v.abs() > 1e7) {
            return Err(format!("a runaway coordinate in {:?}", k));
        }
    }
    x.outcome(calls.len() as u64);
    Ok(())
}

/// Through the API, with sizes and shapes that DOT does not make.
fn api(i: u64, n: usize, m: usize, x: &mut Ctx) -> Result<(), String> {
    let ne = ((n * n) as u64).pow(m as u32);
    let e = edge_list(i % ne, n, m);
    let d = mixed(i / ne, &[2, 8, 6, 2]);
    let o = if d[0] == 0 { Orientation::TopToBottom } else { Orientation::LeftToRight };
    let mut vg = VisualGraph::new(o);
    let sizes = [(0.01, 0.01), (1., 1.), (1000., 1.), (0.001, 500.), (1e5, 1e5), (33.3, 66.6)];
    let mut hs = Vec::new();
    for k in 0..n {
        let s = sizes[(d[2] + k) % sizes.len()];
        let shape = match (d[2] + k) % 3 {
            0 => ShapeKind::new_box(""),
            1 => ShapeKind::new_circle("x"),
            _ => ShapeKind::new_double_circle("x"),
        };
        hs.push(vg.add_node(Element::create(shape, StyleAttr::simple(), o, Point::new(s.0, s.1))));
    }
    for (k, (a, b)) in e.iter().enumerate() {
        let arrow = match (k + d[3]) % 3 {
            0 => Arrow::simple(""),
            1 => Arrow::simple("some\ntext"),
            _ => Arrow::invisible(),
        };
        vg.add_edge(arrow, hs[*a], hs[*b]);
    }
    x.transitions += (n + m) as u64;
    x.state(i ^ ((n * 10 + m) as u64) << 40);
    let dr = draw_vg(vg, Flags::from_bits(d[1]));
    for k in &dr.calls {
        if k.numbers().iter().any(|v| v.is_nan()) {
            return Err(format!("not a number in {:?}", k));
        }
    }
    Ok(())
}

/// Records as trees that DOT cannot write: rows without fields.
fn trees(depth: usize) -> Vec<RecordDef> {
    let mut r = vec![RecordDef::new_text(""), RecordDef::new_text_with_port("a", "p"), RecordDef::Array(vec![])];
    if depth > 0 {
        let sub = trees(depth - 1);
        for a in &sub {
            r.push(RecordDef::Array(vec![a.clone()]));
        }
        for a in &sub {
            for b in &sub {
                r.push(RecordDef::Array(vec![a.clone(), b.clone()]));
            }
        }
    }
    r
}
fn record(i: u64, all: &[RecordDef], x: &mut Ctx) -> Result<(), String> {
    let d = mixed(i, &[all.len(), 2, 4, 3, 3]);
    let o = if d[1] == 0 { Orientation::TopToBottom } else { Orientation::LeftToRight };
    let mut vg = VisualGraph::new(o);
    let size = [(0., 0.), (60., 0.), (0., 60.), (80., 60.)][d[2]];
    let mut look = StyleAttr::simple();
    look.font_size = [15, 0, 40][d[3]];
    look.rounded = [0, 15, 0][d[4]];
    let dir = if d[4] == 2 { o } else { o.flip() };
    let mut hs = Vec::new();
    for _ in 0..2 {
        hs.push(vg.add_node(Element::create(ShapeKind::new_record(&all[d[0]]), look.clone(), dir, Point::new(size.0, size.1))));
    }
    let port = Some("p".to_string());
    for (a, b) in [(0, 1), (1, 1), (1, 0)] {
        vg.add_edge(Arrow::new(LineEndKind::None, LineEndKind::Arrow, layout::core::style::LineStyleKind::Normal, "", &look, &port, &port), hs[a], hs[b]);
    }
    finite(vg, 1, i, x)
}
fn finite(vg: VisualGraph, salt: u64, i: u64, x: &mut Ctx) -> Result<(), String> {
    x.transitions += 1;
    x.state(h(&(salt, i)));
    let dr = draw_vg(vg, Flags::from_bits(((i + i / 8 + i / 64 + i / 512 + i / 4096) % 8) as usize));
    for k in &dr.calls {
        if k.numbers().iter().any(|v| !v.is_finite()) {
            return Err(format!("a number that is not finite in {:?}", k));
        }
    }
    Ok(())
}
const FLAT: [(f64, f64); 4] = [(0., 0.), (50., 0.), (0., 50.), (60., 40.)];
/// Shapes without width or height, and invisible ones.
fn flat(i: u64, n: usize, m: usize, x: &mut Ctx) -> Result<(), String> {
    let ne = ((n * n) as u64).pow(m as u32);
    let e = edge_list(i % ne, n, m);
    let d = mixed(i / ne, &[2, 2, 20usize.pow(n as u32)]);
    let o = if d[0] == 0 { Orientation::TopToBottom } else { Orientation::LeftToRight };
    let mut vg = VisualGraph::new(o);
    let mut hs = Vec::new();
    for k in digits(d[2] as u64, 20, n) {
        let s = FLAT[k / 5];
        let shape = match k % 5 {
            0 => ShapeKind::new_box("x"),
            1 => ShapeKind::new_circle("x"),
            2 => ShapeKind::new_double_circle("x"),
            3 => ShapeKind::new_record(&RecordDef::Array(vec![RecordDef::new_text("x"), RecordDef::Array(vec![])])),
            _ => ShapeKind::None,
        };
        hs.push(vg.add_node(Element::create(shape, StyleAttr::simple(), o.flip(), Point::new(s.0, s.1))));
    }
    for (k, (a, b)) in e.iter().enumerate() {
        vg.add_edge(Arrow::simple(["", "text"][(d[1] + k) % 2]), hs[*a], hs[*b]);
    }
    finite(vg, 2 + (n * 10 + m) as u64, i, x)
}

/// Degenerate programs through to the SVG text.
fn text(s: &str, x: &mut Ctx) -> Result<(), String> {
    x.transitions += 1;
    for bits in 0..8 {
        let mut vg = match mc::rec::build(s) {
            Ok(v) => v,
            Err(_) => {
                x.skip("not a program");
                return Ok(());
            }
        };
        let f = Flags::from_bits(bits);
        let mut w = SVGWriter::new();
        vg.do_it(f.debug, f.no_opt, f.no_layout, &mut w);
        let out = w.finalize();
        x.state(h(&out));
        if !out.contains("<svg") {
            return Err("no svg".into());
        }
        for b in ["NaN", "inf"] {
            if out.contains(&format!("\"{}", b)) || out.contains(&format!(" {} ", b)) {
                return Err(format!("{} in the drawing", b));
            }
        }
    }
    Ok(())
}

const ATOMS: &[&str] = &[
    "a", "a -> b", "a -> a", "node [shape=record label=\"\"]", "b [label=\"\"]", "c [label=\"\\n\"]", "node [shape=Mrecord label=\"{|}\"]",
    "a [shape=record label=\"{{{x}|y}|z}\"]", "a:p -> b:q", "b -> a [label=\"\\n\\n\"]", "node [fontsize=0]", "edge [fontsize=0 label=x]",
    "node [fontsize=4000000000 width=4000000000]", "edge [penwidth=99999999999 label=\"\"]", "node [shape=doublecircle label=\"\"]", "rankdir=LR", "{ a -> c -> b }",
];

fn plan_(t: Tier) -> Plan {
    let mut v: Vec<Family> = Vec::new();
    let mut gens = vec![
        graphs(1, 2, ALL),
        graphs(2, 3, ALL),
        graphs(3, 3, ALL),
        graphs(4, 3, ALL),
        graphs(3, 5, BOTH),
        labelled(2, 2, &[0, 1, 2, 3, 4, 5, 6], ALL),
        labelled(3, 3, &[0, 2], ALL),
        shaped(2, 2, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], false, ALL),
        shaped(3, 3, &[0, 2, 5], true, BOTH),
        acyclic(5, true, ALL),
        bipartite(3, 4, BOTH),
        larger(t.pick(&[130, 260], &[101, 130, 200, 260, 300, 515]), t.pick(BOTH, PLAIN)),
        structures(t.pick(8, 16), t.pick(28, 150), t.pick(&[0, 1, 2, 8, 15], ALL)),
    ];
    if t == Tier::Thorough {
        gens.push(graphs(3, 6, DEFAULT));
        gens.push(graphs(4, 4, ALL));
        gens.push(graphs(4, 5, BOTH));
        gens.push(graphs(5, 4, BOTH));
        gens.push(labelled(4, 4, &[0, 2], BOTH));
        gens.push(labelled(3, 4, &[0, 2, 3], PLAIN));
        gens.push(acyclic(6, true, BOTH));
    }
    for g in gens {
        v.push(fam(g, run));
    }
    for (n, m) in [(1, 2), (2, 2), (3, 2), (2, 3)] {
        let total = ((n * n) as u64).pow(m as u32) * 2 * 8 * 6 * 2;
        v.push(family(
            &format!("api-{}-{}", n, m),
            &format!("every sequence of {} edges over {} nodes built through the API with shapes of tiny, huge and mixed sizes, visible, labelled and invisible edges, in every mode", m, n),
            total,
            move |i| format!("{:?} {:?}", edge_list(i % ((n * n) as u64).pow(m as u32), n, m), mixed(i / ((n * n) as u64).pow(m as u32), &[2, 8, 6, 2])),
            move |i, c| api(i, n, m, c),
        ));
    }
    for (n, m) in if t == Tier::Quick { vec![(1, 2), (2, 2)] } else { vec![(1, 3), (2, 3), (3, 2)] } {
        let ne = ((n * n) as u64).pow(m as u32);
        let dims = [2, 2, 20usize.pow(n as u32)];
        v.push(family(
            &format!("flat-{}-{}", n, m),
            &format!("every sequence of {} edges over {} nodes built through the API, each a box, circle, double circle, record or invisible element with any of the sizes {:?}, in both directions, one mode per case", m, n, FLAT),
            ne * mixed_total(&dims),
            move |i| format!("{:?} {:?}", edge_list(i % ne, n, m), mixed(i / ne, &dims)),
            move |i, c| flat(i, n, m, c),
        ));
    }
    let all = trees(t.pick(2, 3));
    let dims = [all.len(), 2, 4, 3, 3];
    let all2 = all.clone();
    v.push(family(
        "record-trees",
        &format!("every record with up to {} levels of rows of at most two fields, fields with and without text and rows without fields, of four sizes, three font sizes and three styles, in both directions, with ports", t.pick(2, 3)),
        mixed_total(&dims),
        move |i| format!("{:?} {:?}", mixed(i, &dims), all2[mixed(i, &dims)[0]]),
        move |i, c| record(i, &all, c),
    ));
    let len = t.pick(3, 4);
    v.push(text_family(
        "degenerate",
        &format!("every sequence of up to {} of {:?}, in every mode, to SVG", len, ATOMS),
        seq_total(ATOMS.len(), 0, len),
        move |i| format!("digraph {{ {} }}", seq(i, ATOMS.len(), 0, len).into_iter().map(|x| ATOMS[x]).collect::<Vec<_>>().join("; ")),
        text,
    ));
    plan(v, "state = one graph with its styles and options; transition = one node or edge laid out and drawn; a panic, an endless loop (watchdog) or a number that is not finite is a violation", &[])
}
fn main() {
    mc::engine::main("L01", plan_)
}
