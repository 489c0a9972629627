//! L14: lowering a graph keeps every edge, as a chain from rank to rank.
use layout::adt::dag::NodeHandle;
use layout::core::base::Orientation;
use layout::core::color::Color;
use layout::core::geometry::Point;
use layout::core::style::{LineStyleKind, StyleAttr};
use layout::std_shapes::shapes::*;
use layout::topo::layout::VisualGraph;
use mc::dags::{closure, cyclic, pairs, Edges};
use mc::engine::*;
use mc::gen::edge_list;
use mc::rec::look;

struct Low {
    n: usize,
    e: Edges,
    /// Labelled edges.
    text: Vec<bool>,
    /// What the labels are made of.
    kind: usize,
    /// Arrow heads: bit 0 at the start, bit 1 at the end; of edge k the kind (head + k) % 4 or head.
    head: usize,
    no_opt: bool,
}
const HEADS: [&str; 4] = ["--", "<-", "->", "<->"];
const TEXTS: [&str; 6] = ["e", " ", "\n", "a\nb ", "\u{e9}", "\\n"];
impl Low {
    /// Different labels for different edges.
    fn label(&self, k: usize) -> String {
        match self.kind {
            0 => format!("e{}", k),
            i => TEXTS[i].repeat(k + 1),
        }
    }
    fn head(&self, k: usize) -> usize {
        match self.head {
            0 => 2,
            1 => (k + 1) % 4,
            _ => [1, 0][k % 2],
        }
    }
    fn show(&self) -> String {
        let e: Vec<String> = self.e.iter().enumerate().map(|(k, (a, b))| format!("{}->{}{}", a, b, if self.text[k] { format!(" {:?}", self.label(k)) } else { String::new() })).collect();
        format!("{} nodes, heads {}, {}{}", self.n, (0..e.len()).map(|k| HEADS[self.head(k)]).collect::<Vec<_>>().join(" "), e.join(", "), if self.no_opt { ", without optimization" } else { "" })
    }
}
fn color(k: usize) -> Color {
    Color::new(((k as u32 + 1) << 8) | 0xff)
}
/// Pairs (from, to) of the graph, as a sorted list with repetitions.
fn connections(vg: &VisualGraph) -> Edges {
    let mut r = Edges::new();
    for k in vg.iter_nodes() {
        for s in vg.succ(k) {
            r.push((k.get_index(), s.get_index()));
        }
    }
    r.sort();
    r
}
fn nodes_intact(vg: &VisualGraph, n: usize) -> Result<(), String> {
    for i in 0..n {
        let e = vg.element(NodeHandle::new(i));
        match &e.shape {
            ShapeKind::Box(t) if *t == format!("n{}", i) => {}
            s => return Err(format!("node {} has become {:?}", i, s)),
        }
    }
    if (n..vg.num_nodes()).any(|i| !vg.is_connector(NodeHandle::new(i))) {
        return Err("an added element is no connector".into());
    }
    Ok(())
}
fn label(vg: &VisualGraph, i: usize) -> Option<String> {
    match &vg.element(NodeHandle::new(i)).shape {
        ShapeKind::Connector(t) => t.clone(),
        _ => None,
    }
}

fn run(g: &Low, x: &mut Ctx) -> Result<(), String> {
    x.state(h(&g.show()));
    let o = Orientation::TopToBottom;
    let mut vg = VisualGraph::new(o);
    let hs: Vec<_> = (0..g.n).map(|i| vg.add_node(Element::create(ShapeKind::new_box(&format!("n{}", i)), StyleAttr::simple(), o, Point::new(50., 50.)))).collect();
    for (k, (a, b)) in g.e.iter().enumerate() {
        let t = if g.text[k] { g.label(k) } else { String::new() };
        let st = StyleAttr::new(color(k), 1, None, 0, 14);
        let end = |b: bool| if b { LineEndKind::Arrow } else { LineEndKind::None };
        vg.add_edge(Arrow::new(end(g.head(k) & 1 != 0), end(g.head(k) & 2 != 0), LineStyleKind::Normal, &t, &st, &None, &None), hs[*a], hs[*b]);
    }
    // First: no cycles.
    vg.to_valid_dag();
    x.transitions += 1;
    nodes_intact(&vg, g.n)?;
    let plain: Edges = g.e.iter().copied().filter(|(a, b)| a != b).collect();
    let con = connections(&vg);
    if cyclic(g.n, &con) || con.iter().any(|(a, b)| a == b) {
        return Err(format!("the connections {:?} have a cycle", con));
    }
    let und = |e: &Edges| {
        let mut v: Edges = e.iter().map(|(a, b)| (*a.min(b), *a.max(b))).collect();
        v.sort();
        v
    };
    if und(&con) != und(&plain) {
        return Err(format!("the connections {:?} are not those of the edges", con));
    }
    let reach = closure(g.n, &plain);
    for &(a, b) in &plain {
        if !reach[b][a] && !con.contains(&(a, b)) {
            return Err(format!("the edge {}->{} is on no cycle but was reversed: {:?}", a, b, con));
        }
    }
    // Second: labels become elements.
    vg.split_text_edges();
    x.transitions += 1;
    nodes_intact(&vg, g.n)?;
    let labelled: Vec<usize> = (0..g.e.len()).filter(|k| g.text[*k] && g.e[*k].0 != g.e[*k].1).collect();
    if vg.num_nodes() != g.n + labelled.len() {
        return Err(format!("{} elements for {} labels", vg.num_nodes() - g.n, labelled.len()));
    }
    for k in 0..g.e.len() {
        let (a, b) = g.e[k];
        if a == b {
            continue;
        }
        if !g.text[k] {
            continue;
        }
        let t = g.label(k);
        let f: Vec<usize> = (g.n..vg.num_nodes()).filter(|i| label(&vg, *i).as_deref() == Some(&t)).collect();
        if f.len() != 1 {
            return Err(format!("{} elements for the label {}", f.len(), t));
        }
        let m = NodeHandle::new(f[0]);
        let (p, s) = (vg.preds(m).clone(), vg.succ(m).clone());
        let ends = (p.first().map(|x| x.get_index()), s.first().map(|x| x.get_index()));
        if p.len() != 1 || s.len() != 1 || (ends != (Some(a), Some(b)) && ends != (Some(b), Some(a))) {
            return Err(format!("the label {} of {}->{} is between {:?}", t, a, b, ends));
        }
    }
    let mut c2 = und(&connections(&vg).into_iter().filter(|(a, b)| *a < g.n && *b < g.n).collect());
    let mut unl = und(&(0..g.e.len()).filter(|k| !g.text[*k]).map(|k| g.e[k]).filter(|(a, b)| a != b).collect());
    c2.sort();
    unl.sort();
    if c2 != unl {
        return Err(format!("between nodes there are {:?}, expected {:?}", c2, unl));
    }
    // Third: ranks, and a place in every rank between.
    vg.split_long_edges(g.no_opt);
    x.transitions += 1;
    nodes_intact(&vg, g.n)?;
    let lvl: Vec<usize> = (0..vg.num_nodes()).map(|i| vg.dag.level(NodeHandle::new(i))).collect();
    let mut rows = vec![0; vg.num_nodes()];
    for r in 0..vg.dag.num_levels() {
        for k in vg.dag.row(r) {
            rows[k.get_index()] += 1;
        }
    }
    if rows.iter().any(|k| *k != 1) {
        return Err(format!("the elements are in {:?} rows", rows));
    }
    for (a, b) in connections(&vg) {
        if lvl[b] != lvl[a] + 1 {
            return Err(format!("a connection leads from rank {} to rank {}", lvl[a], lvl[b]));
        }
    }
    // The chains, from node to node.
    let mut chains: Vec<(usize, usize, Option<String>)> = vec![];
    let mut used = vec![false; vg.num_nodes()];
    for i in 0..g.n {
        for s in vg.succ(NodeHandle::new(i)) {
            let (mut at, mut t) = (*s, None);
            while at.get_index() >= g.n {
                let k = at.get_index();
                if used[k] || vg.preds(at).len() != 1 || vg.succ(at).len() != 1 {
                    return Err(format!("connector {} has the neighbours {:?} and {:?}", k, vg.preds(at), vg.succ(at)));
                }
                used[k] = true;
                if let Some(l) = label(&vg, k) {
                    if t.is_some() {
                        return Err(format!("two labels on one edge: {:?} and {}", t, l));
                    }
                    t = Some(l);
                }
                at = vg.succ(at)[0];
            }
            chains.push((i.min(at.get_index()), i.max(at.get_index()), t));
        }
    }
    let mut want: Vec<(usize, usize, Option<String>)> = (0..g.e.len())
        .filter(|k| g.e[*k].0 != g.e[*k].1)
        .map(|k| {
            let (a, b) = g.e[k];
            (a.min(b), a.max(b), Some(g.label(k)).filter(|_| g.text[k]))
        })
        .collect();
    chains.sort();
    want.sort();
    if chains != want {
        return Err(format!("the chains are {:?}, expected {:?}", chains, want));
    }
    // Self edges: one place each, next to their node.
    let selfs: Vec<usize> = (0..g.e.len()).filter(|k| g.e[*k].0 == g.e[*k].1).collect();
    let free: Vec<usize> = (g.n..vg.num_nodes()).filter(|i| !used[*i]).collect();
    if free.len() != selfs.len() {
        return Err(format!("{} loose connectors for {} self edges", free.len(), selfs.len()));
    }
    let owner = |i: usize| {
        let c = look(&vg.element(NodeHandle::new(i)).look).line;
        selfs.iter().copied().find(|k| look(&StyleAttr::new(color(*k), 1, None, 0, 14)).line == c)
    };
    for &i in &free {
        let k = owner(i).ok_or(format!("connector {} has no style of a self edge", i))?;
        let node = g.e[k].0;
        if lvl[i] != lvl[node] || label(&vg, i) != Some(g.label(k)).filter(|_| g.text[k]) {
            return Err(format!("the connector of the self edge {} is at rank {} with the label {:?}", k, lvl[i], label(&vg, i)));
        }
        let row: Vec<usize> = vg.dag.row(lvl[i]).iter().map(|x| x.get_index()).collect();
        let (p, q) = (row.iter().position(|x| *x == i).unwrap(), row.iter().position(|x| *x == node).unwrap());
        for b in &row[p.min(q)..=p.max(q)] {
            if *b != node && !(free.contains(b) && owner(*b).map(|k| g.e[k].0) == Some(node)) {
                return Err(format!("element {} is between node {} and its self edge in {:?}", b, node, row));
            }
        }
    }
    x.outcome(h(&(vg.num_nodes(), vg.dag.num_levels())));
    Ok(())
}

fn lows(n: usize, m: usize) -> Family {
    let ne = ((n * n) as u64).pow(m as u32);
    let get = move |i: u64| Low { n, e: edge_list(i % ne, n, m), text: (0..m).map(|k| (i / ne) >> k & 1 == 1).collect(), no_opt: (i / ne) >> m & 1 == 1, kind: 0, head: (i / (ne << (m + 1))) as usize };
    family(
        &format!("edges-{}-{}", n, m),
        &format!("every sequence of {} edges over {} nodes with every choice of labels, with and without optimization, with heads at their ends, and with other patterns of heads", m, n),
        3 * (ne << (m + 1)),
        move |i| get(i).show(),
        move |i, x| run(&get(i), x),
    )
}
/// Every set of directed pairs, at most one per pair of nodes, in order.
fn simple(n: usize) -> Family {
    let ps = pairs(n);
    let radix = vec![3usize; ps.len()];
    let total = mixed_total(&radix);
    let get = move |i: u64| {
        let d = mixed(i / 4 / 3, &radix);
        let mut e = Edges::new();
        for (k, (a, b)) in ps.iter().enumerate() {
            match d[k] {
                1 => e.push((*a, *b)),
                2 => e.push((*b, *a)),
                _ => {}
            }
        }
        let text = (0..e.len()).map(|k| i & 2 == 2 && k % 2 == 0).collect();
        Low { n, e, text, kind: 0, no_opt: i & 1 == 1, head: (i / 4 % 3) as usize }
    };
    let g2 = get.clone();
    family(
        &format!("oriented-{}", n),
        &format!("every oriented graph over {} nodes, with and without labels on every second edge, with and without optimization", n),
        total * 4 * 3,
        move |i| g2(i).show(),
        move |i, x| run(&get(i), x),
    )
}
/// Labels of blanks, of several lines, and empty ones.
fn labels(n: usize, m: usize) -> Family {
    let ne = ((n * n) as u64).pow(m as u32);
    let get = move |i: u64| {
        let d = mixed(i / ne, &[1 << m, 2, TEXTS.len()]);
        Low { n, e: edge_list(i % ne, n, m), text: (0..m).map(|k| d[0] >> k & 1 == 1).collect(), no_opt: d[1] == 1, kind: d[2], head: 0 }
    };
    family(
        &format!("texts-{}-{}", n, m),
        &format!("every sequence of {} edges over {} nodes, every choice of labelled ones, the labels repetitions of each of {:?}, with and without optimization", m, n, TEXTS),
        (ne << (m + 1)) * TEXTS.len() as u64,
        move |i| get(i).show(),
        move |i, x| run(&get(i), x),
    )
}
/// Few edges between many nodes.
fn few(sizes: &'static [usize]) -> Family {
    let g = mc::gen::sparse(sizes, &[0, 2]);
    let get = g.get;
    let low = move |i: u64| {
        let c = get(i);
        Low { n: c.n, text: vec![false, false, i % 2 == 1], e: c.edges, kind: 0, no_opt: c.flags.no_opt, head: 0 }
    };
    let l2 = low.clone();
    family("few-edges", &g.bound, g.total, move |i| l2(i).show(), move |i, x| run(&low(i), x))
}
fn plan_(t: Tier) -> Plan {
    let mut f = vec![lows(1, 3), lows(2, 3), lows(2, 4), lows(3, 3), lows(3, 4), lows(4, 3), simple(4), simple(5), labels(1, 2), labels(2, 2), labels(3, 3), few(t.pick(&[18, 20], &[17, 18, 19, 20, 33, 66]))];
    if t == Tier::Thorough {
        f.push(lows(3, 5));
        f.push(lows(4, 4));
        f.push(lows(5, 4));
        f.push(simple(6));
    }
    plan(
        f,
        "state = one graph; transition = one lowering pass; after each of them the layered graph is compared with the edges it was made from: acyclic, every edge once, chains from rank to rank with their label, self edges next to their node",
        &[],
    )
}
fn main() {
    mc::engine::main("L14", plan_)
}
