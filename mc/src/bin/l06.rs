//! L06: left to right is top to bottom, turned.
use layout::core::base::Orientation;
use layout::core::format::Visible;
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
use layout::std_shapes::shapes::*;
use layout::topo::layout::VisualGraph;
use mc::dags::Edges;
use mc::engine::*;
use mc::gen::*;
use mc::rec::{Flags, Recorder};

type Box4 = (f64, f64, f64, f64);

/// Node boxes by number, (x, y, width, height); as if top to bottom.
fn place(n: usize, e: &Edges, sizes: &[(f64, f64)], lr: bool, flip: bool, f: Flags) -> Vec<Box4> {
    let o = if lr { Orientation::LeftToRight } else { Orientation::TopToBottom };
    let eo = if flip { o.flip() } else { o };
    let mut vg = VisualGraph::new(o);
    let mut hs = Vec::new();
    for k in 0..n {
        let (w, h) = sizes[k];
        let p = if lr { Point::new(h, w) } else { Point::new(w, h) };
        let text = format!("n{}", k);
        let shape = match k % 3 {
            0 => ShapeKind::new_box(&text),
            1 => ShapeKind::new_circle(&text),
            _ => ShapeKind::new_double_circle(&text),
        };
        hs.push(vg.add_node(Element::create(shape, StyleAttr::simple(), eo, p)));
    }
    for (a, b) in e {
        vg.add_edge(Arrow::simple(""), hs[*a], hs[*b]);
    }
    let mut r = Recorder::default();
    vg.do_it(f.debug, f.no_opt, f.no_layout, &mut r);
    hs.iter()
        .map(|h| {
            let p = vg.element(*h).position();
            let (m, s) = (p.middle(), p.size(false));
            if lr {
                (m.y, m.x, s.y, s.x)
            } else {
                (m.x, m.y, s.x, s.y)
            }
        })
        .collect()
}
const SIZES: [[(f64, f64); 5]; 3] = [
    [(40., 40.), (40., 40.), (40., 40.), (40., 40.), (40., 40.)],
    [(200., 30.), (30., 90.), (20., 20.), (120., 60.), (50., 140.)],
    [(1., 300.), (500., 2.), (64., 64.), (17.5, 33.25), (90., 45.)],
];
fn case(n: usize, e: &Edges, d: &[usize], x: &mut Ctx) -> Result<(), String> {
    let f = Flags::from_bits(d[0]);
    let sizes: Vec<(f64, f64)> = (0..n).map(|k| SIZES[d[1]][k % 5]).collect();
    x.state(h(&format!("{} {:?} {:?}", n, e, d)));
    x.transitions += n as u64;
    let tb = place(n, e, &sizes, false, d[2] == 1, f);
    let lr = place(n, e, &sizes, true, d[2] == 1, f);
    for k in 0..n {
        if (tb[k].2, tb[k].3) != sizes[k] || (lr[k].2, lr[k].3) != sizes[k] {
            return Err(format!("the size of node {} changed from {:?} to {:?} and {:?}", k, sizes[k], tb[k], lr[k]));
        }
        if (tb[k].0 - lr[k].0).abs() > 1e-6 || (tb[k].1 - lr[k].1).abs() > 1e-6 {
            return Err(format!("node {} is at {:?} top to bottom, and at (y, x) = {:?} left to right", k, (tb[k].0, tb[k].1), (lr[k].0, lr[k].1)));
        }
    }
    Ok(())
}
fn api(name: &str, bound: &str, list: Vec<(usize, Edges)>, radix: [usize; 3]) -> Family {
    let m = mixed_total(&radix);
    let total = list.len() as u64 * m;
    let list = std::sync::Arc::new(list);
    let l2 = list.clone();
    family(
        name,
        &format!("{}, with {} patterns of sizes and shapes, {} option sets", bound, radix[1], radix[0]),
        total,
        move |i| {
            let d = mixed(i % m, &radix);
            let (n, e) = &list[(i / m) as usize];
            format!("{} nodes, edges {:?}, sizes {}, {} {}", n, e, d[1], Flags::from_bits(d[0]).show(), d[2])
        },
        move |i, c| {
            let (n, e) = &l2[(i / m) as usize];
            case(*n, e, &mixed(i % m, &radix), c)
        },
    )
}

/// The same from text: nodes of one character are square boxes and circles.
fn dot(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let draw = |lr: bool| -> Result<Vec<(String, f64, f64)>, String> {
        let mut t = format!("digraph {{ {}node [shape=box];", if lr { "rankdir=LR;" } else { "" });
        for i in 0..c.n {
            t.push_str(&format!(" {} [fontsize={} shape={}];", (b'a' + i as u8) as char, [14, 40, 9][i % 3], ["box", "circle", "doublecircle"][i % 3]));
        }
        for (a, b) in &c.edges {
            t.push_str(&format!(" {} -> {};", (b'a' + *a as u8) as char, (b'a' + *b as u8) as char));
        }
        t.push('}');
        let s = mc::scene::read(&mc::rec::draw(&t, c.flags)?.calls)?;
        let mut v: Vec<(String, f64, f64)> = s.nodes.iter().map(|n| (n.label.clone(), if lr { n.center.1 } else { n.center.0 }, if lr { n.center.0 } else { n.center.1 })).collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        Ok(v)
    };
    x.state(h(&c.show()));
    x.transitions += c.n as u64;
    let (tb, lr) = (draw(false)?, draw(true)?);
    if tb.len() != lr.len() {
        return Err("other nodes are drawn left to right".into());
    }
    for (a, b) in tb.iter().zip(&lr) {
        if a.0 != b.0 || (a.1 - b.1).abs() > 1e-6 || (a.2 - b.2).abs() > 1e-6 {
            return Err(format!("node {} is at {:?} top to bottom, node {} at (y, x) = {:?} left to right", a.0, (a.1, a.2), b.0, (b.1, b.2)));
        }
    }
    Ok(())
}
/// Texts of w by h characters, which turned are texts of h by w characters.
const GRIDS: [(usize, usize); 5] = [(1, 1), (7, 1), (1, 5), (4, 2), (2, 3)];
fn grid(k: usize, ch: char, turn: bool) -> String {
    let (w, h) = if turn { (GRIDS[k].1, GRIDS[k].0) } else { GRIDS[k] };
    vec![ch.to_string().repeat(w); h].join("\\n")
}
struct Turn {
    c: Case,
    /// Per node: the kind of node and its text.
    node: Vec<(usize, usize)>,
    /// Per edge: its text.
    edge: Vec<Option<usize>>,
}
fn turned_text(t: &Turn, lr: bool) -> String {
    let mut s = format!("digraph {{ {}", if lr { "rankdir=LR;" } else { "" });
    for i in 0..t.c.n {
        let ch = (b'a' + i as u8 % 26) as char;
        let (kind, g) = t.node[i];
        let g = grid(g, ch, lr);
        let l = if kind >= 3 { format!("{}|{{{}|{}}}", g, ch, grid(3, ch, lr)) } else { g };
        s.push_str(&format!(" n{} [shape={} label=\"{}\"];", i, ["box", "circle", "doublecircle", "record", "Mrecord"][kind], l));
    }
    for (k, (a, b)) in t.c.edges.iter().enumerate() {
        let l = match t.edge[k] {
            Some(g) => format!(" label=\"{}\"", grid(g, 'x', lr)),
            None => String::new(),
        };
        s.push_str(&format!(" n{} -> n{} [color=\"{}\"{}];", a, b, t.c.color(k), l));
    }
    s.push('}');
    s
}
/// Nodes, cells, labels and bends of edges, as if top to bottom.
fn places(t: &Turn, lr: bool) -> Result<Vec<(String, f64, f64)>, String> {
    let s = mc::scene::read(&mc::rec::draw(&turned_text(t, lr), t.c.flags)?.calls)?;
    let mut v = Vec::new();
    for (i, n) in s.nodes.iter().enumerate() {
        v.push((format!("node {}", i), n.center));
        v.push((format!("size of node {}", i), n.size));
        for (k, c) in n.cells.iter().enumerate() {
            v.push((format!("cell {} of node {}", k, i), c.center));
            v.push((format!("size of cell {} of node {}", k, i), c.size));
        }
    }
    for (i, l) in s.labels.iter().enumerate() {
        v.push((format!("label {}", i), l.xy));
    }
    for e in &s.edges {
        for (k, p) in e.path.iter().enumerate().skip(1).rev().skip(1) {
            v.push((format!("bend {} of {}", k, e.look.line), p.1));
        }
    }
    Ok(v.into_iter().map(|(w, p)| if lr { (w, p.1, p.0) } else { (w, p.0, p.1) }).collect())
}
fn turned(t: &Turn, x: &mut Ctx) -> Result<(), String> {
    x.state(h(&turned_text(t, false)));
    x.transitions += t.c.size();
    let (a, b) = (places(t, false)?, places(t, true)?);
    if a.len() != b.len() {
        return Err("something else is drawn left to right".into());
    }
    for (a, b) in a.iter().zip(&b) {
        if a.0 != b.0 || (a.1 - b.1).abs() > 1e-6 || (a.2 - b.2).abs() > 1e-6 {
            return Err(format!("{} is at {:?} top to bottom, {} at (y, x) = {:?} left to right", a.0, (a.1, a.2), b.0, (b.1, b.2)));
        }
    }
    Ok(())
}
fn turned_family(name: &str, bound: &str, total: u64, get: impl Fn(u64) -> Turn + Clone + Sync + Send + 'static) -> Family {
    let g2 = get.clone();
    family(
        name,
        bound,
        total,
        move |i| {
            let t = get(i);
            format!("{}{}", turned_text(&t, false), t.c.flags.show())
        },
        move |i, c| turned(&g2(i), c),
    )
}
/// Every sequence of m edges over n nodes, with every choice of texts.
fn turned_all(n: usize, m: usize, kinds: &'static [usize], ng: usize, eg: usize, modes: &'static [usize]) -> Family {
    let ne = ((n * n) as u64).pow(m as u32);
    let nn = ((kinds.len() * ng) as u64).pow(n as u32);
    let nl = (eg as u64).pow(m as u32);
    turned_family(
        &format!("turned-{}-{}-{}-{}-{}", n, m, kinds.len(), ng, eg),
        &format!("every sequence of {} edges over {} nodes, every choice of {} shapes and {} texts (of {:?} characters) per node and {} per edge, {} option sets", m, n, kinds.len(), ng, GRIDS, eg, modes.len()),
        ne * nn * nl * modes.len() as u64,
        move |i| {
            let mut c = Case::new(n, edge_list(i % ne, n, m));
            let i = i / ne;
            let node = digits(i % nn, kinds.len() * ng, n).into_iter().map(|x| (kinds[x % kinds.len()], x / kinds.len())).collect();
            let i = i / nn;
            let edge = digits(i % nl, eg, m).into_iter().map(|x| x.checked_sub(1)).collect();
            c.flags = Flags::from_bits(modes[(i / nl) as usize]);
            Turn { c, node, edge }
        },
    )
}
fn turned_structures(list: Vec<(usize, Edges)>) -> Family {
    let n = list.len() as u64;
    let list = std::sync::Arc::new(list);
    turned_family("turned-structures", "chains, cycles, stars, trees, diamonds, ladders, complete and bipartite graphs, grids, long and back edges, self edges and components, with 4 patterns of shapes and texts and 4 option sets", n * 16, move |i| {
        let (n, e) = &list[(i / 16) as usize];
        let (p, f) = (i as usize % 4, i as usize / 4 % 4);
        let mut c = Case::new(*n, e.clone());
        c.flags = Flags::from_bits(f);
        Turn {
            node: (0..*n).map(|k| ([0, k % 3, k % 5, 3][p], [(k * 2) % 5, k % 5, (k * 3 + 1) % 5, (k + 2) % 5][p])).collect(),
            edge: (0..e.len()).map(|k| [Some(k % 5), None, [None, Some(1), Some(2)][k % 3], [None, Some(k % 5)][k % 2]][p]).collect(),
            c,
        }
    })
}
fn seqs(n: usize, m: usize) -> Vec<(usize, Edges)> {
    (0..((n * n) as u64).pow(m as u32)).map(|i| (n, edge_list(i, n, m))).collect()
}
fn plan_(t: Tier) -> Plan {
    let mut v = vec![
        api("api-3-3", "every sequence of 3 edges over 3 nodes", seqs(3, 3), [4, 3, 2]),
        api("api-2-4", "every sequence of 4 edges over 2 nodes", seqs(2, 4), [4, 3, 2]),
        api("api-4-3", "every sequence of 3 edges over 4 nodes", seqs(4, 3), [4, 3, 1]),
        api("api-5", "every acyclic graph over 5 nodes", (0..1u64 << 10).map(|i| (5, mc::dags::pairs(5).into_iter().enumerate().filter(|(k, _)| i & (1 << k) != 0).map(|x| x.1).collect())).collect(), [4, 3, 1]),
    ];
    let mut st = Vec::new();
    for kind in 0..KINDS {
        for k in SIZES_.iter().filter(|k| **k <= t.pick(8, 16)) {
            if let Some(c) = structure(kind, *k) {
                if c.edges.len() <= t.pick(40, 150) {
                    st.push((c.n, c.edges));
                }
            }
        }
    }
    v.push(turned_structures(st.clone()));
    v.push(turned_all(2, 2, &[0, 1, 2, 3, 4], 5, 3, &[0]));
    v.push(turned_all(2, 2, &[0, 2, 3], 3, 3, &[0, 1, 2, 3]));
    v.push(turned_all(2, 3, &[0, 1], 2, 6, &[0]));
    v.push(turned_all(3, 3, &[0], 1, 3, &[0, 1]));
    v.push(turned_all(3, 2, &[0, 3], 3, 4, &[0]));
    v.push(api("api-structures", "chains, cycles, stars, trees, diamonds, ladders, complete and bipartite graphs, grids, long and back edges, self edges and components", st, [4, 3, 2]));
    for g in [graphs(3, 3, &[0, 2, 4]), graphs(2, 3, &[0, 2, 4]), graphs(4, 3, &[0]), acyclic(5, false, &[0, 2]), bipartite(3, 3, &[0])] {
        v.push(fam(g, dot));
    }
    if t == Tier::Thorough {
        v.push(api("api-3-5", "every sequence of 5 edges over 3 nodes", seqs(3, 5), [2, 3, 1]));
        v.push(api("api-4-4", "every sequence of 4 edges over 4 nodes", seqs(4, 4), [2, 3, 1]));
        v.push(turned_all(3, 3, &[0, 3], 2, 4, &[0, 1]));
        v.push(turned_all(3, 2, &[0, 1, 2, 3, 4], 5, 3, &[0]));
        v.push(turned_all(4, 3, &[0], 1, 6, &[0, 2]));
        v.push(turned_all(2, 3, &[0, 3], 5, 6, &[0]));
        v.push(fam(graphs(4, 4, &[0, 2]), dot));
        v.push(fam(graphs(3, 5, &[0, 4]), dot));
        v.push(fam(acyclic(6, false, &[0]), dot));
    }
    plan(v, "state = one graph with its sizes and options; transition = one node placed in both directions; the box of every node left to right must be the transposed box of top to bottom", &["text does not turn: a text of w by h characters is compared with one of h by w characters"])
}
const SIZES_: &[usize] = mc::gen::SIZES;
fn main() {
    mc::engine::main("L06", plan_)
}
