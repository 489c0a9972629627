//! Small graphs with shapes and labels, enumerated, and their drawings.
use crate::dags::Edges;
use crate::engine::*;
use crate::rec::{self, Call, Flags};
use crate::scene::{self, Scene};
use layout::topo::layout::VisualGraph;

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub n: usize,
    pub edges: Edges,
    /// Per edge: index into EDGE_STYLES.
    pub estyle: Vec<usize>,
    /// Per node: index into NODE_STYLES.
    pub nstyle: Vec<usize>,
    pub lr: bool,
    pub flags: Flags,
    pub directed: bool,
}

/// What is written after `n<i>`, with @ for the node's name.
pub const NODE_STYLES: &[&str] = &[
    "label=\"@\"",
    "label=\"@\" shape=box",
    "label=\"@ is a wide node\" shape=box",
    "label=\"@\\nx\\ny\\nz\" shape=box",
    "label=\"@\" shape=doublecircle",
    "label=\"@|{b|c}\" shape=record",
    "label=\"{@|wide cell}|d\" shape=Mrecord",
    "label=\"@\" shape=box fontsize=40",
    "label=\"@ is an ellipse\"",
    "label=\"@\" fontsize=3",
    "label=\"<p>@|{<q>b|<r>c}|<s>d\" shape=record",
    "label=\"@ with a label of more than sixty-four characters, on a single line\"",
    "label=\"@\n1\n2\n3\n4\n5\n6\n7\n8\n9\n10\n11\n12\" shape=box",
    "label=\"@|{b|{c|{d|e}|f}|g}|h|{i|j}\" shape=record width=7",
    "label=\"@\" fontsize=1",
    "label=\"@\" shape=box fontsize=1 width=0",
    "label=\"@\" shape=doublecircle fontsize=2",
    "label=\"{<p>@|<q>b}\" shape=record fontsize=1",
    // Almost, but not quite, as high as wide.
    "label=\"@ 3456789\n2\n3\n4\n5\n6\n7\n8\"",
    "label=\"@ wide\nand\nthree lines\" shape=doublecircle width=30",
    "label=\"@ huge\" fontsize=200",
    "label=\"@ \u{e9}\u{4e2d}\u{1f600}\" shape=box fontsize=35",
    "label=\"<p>@ \u{e9}|<q>b\n\nc|{<r>d|<s>eeeeeeeeeeee}\" shape=Mrecord fontsize=9 width=4",
];
/// With @ for the edge's name.
pub const EDGE_STYLES: &[&str] = &[
    "",
    "label=\"@\"",
    "label=\"@ has a long label\"",
    "label=\"@\\nx\\ny\\nz\"",
    "style=dashed",
    "label=\"@\" fontsize=30",
    "label=\"@\" fontsize=3 style=dashed",
    "label=\"@ with a label of more than sixty-four characters, on a single line\"",
    "label=\"@\n1\n2\n3\n4\n5\n6\n7\n8\n9\n10\n11\n12\"",
    "label=\"@\" penwidth=12",
    "label=\"@\" fontsize=1",
    "label=\"@\nb\" fontsize=100 penwidth=0",
    "label=\"@ \u{e9}\u{4e2d}\u{1f600}\n\nx\" style=dashed",
    "style=dashed penwidth=30",
    "label=\"@\" fontsize=300",
    "label=\"@ with\nseveral\nlines\" fontsize=65",
];

impl Case {
    pub fn new(n: usize, edges: Edges) -> Case {
        let m = edges.len();
        Case { n, edges, estyle: vec![0; m], nstyle: vec![0; n], lr: false, flags: Flags::default(), directed: true }
    }
    pub fn text(&self) -> String {
        let mut s = String::from(if self.directed { "digraph {" } else { "graph {" });
        if self.lr {
            s.push_str(" rankdir=LR;");
        }
        for i in 0..self.n {
            let st = NODE_STYLES[self.nstyle[i]].replace('@', &format!("n{}", i));
            s.push_str(&format!(" n{} [{}];", i, st));
        }
        for (k, (a, b)) in self.edges.iter().enumerate() {
            let st = EDGE_STYLES[self.estyle[k]].replace('@', &format!("e{}", k));
            s.push_str(&format!(" n{} {} n{} [{} color=\"{}\"];", a, if self.directed { "->" } else { "--" }, b, st, self.color(k)));
        }
        s.push_str(" }");
        s
    }
    /// The colour that identifies an edge.
    pub fn color(&self, k: usize) -> String {
        format!("#{:06x}", k + 1)
    }
    pub fn show(&self) -> String {
        format!("{}{}", self.text(), self.flags.show())
    }
    pub fn build(&self) -> Result<VisualGraph, String> {
        rec::build(&self.text())
    }
    pub fn calls(&self) -> Result<Vec<Call>, String> {
        Ok(rec::draw_vg(self.build()?, self.flags).calls)
    }
    /// The drawing, read back, with nodes and edges matched to the case.
    pub fn drawn(&self) -> Result<Drawn, String> {
        let d = rec::draw_vg(self.build()?, self.flags);
        let s = scene::read(&d.calls)?;
        Drawn::new(self, s, d.vg)
    }
    pub fn size(&self) -> u64 {
        (self.n + self.edges.len()) as u64
    }
    pub fn label_font(&self, k: usize) -> usize {
        match self.estyle[k] {
            5 => 30,
            6 => 3,
            10 => 1,
            11 => 100,
            14 => 300,
            15 => 65,
            _ => 14,
        }
    }
    pub fn has_label(&self, k: usize) -> bool {
        EDGE_STYLES[self.estyle[k]].contains("label")
    }
}

pub struct Drawn {
    pub scene: Scene,
    pub vg: VisualGraph,
    /// Per node of the case: index in the scene.
    pub node: Vec<usize>,
    pub edge: Vec<usize>,
    /// Per edge of the case: its label.
    pub label: Vec<Option<usize>>,
}
impl Drawn {
    fn new(c: &Case, s: Scene, vg: VisualGraph) -> Result<Drawn, String> {
        if s.nodes.len() != c.n || s.edges.len() != c.edges.len() {
            return Err(format!("{} nodes and {} edges are drawn, expected {} and {}", s.nodes.len(), s.edges.len(), c.n, c.edges.len()));
        }
        let name = |t: &str, p: &str, i: usize| {
            let w = format!("{}{}", p, i);
            t.split(|c: char| !c.is_ascii_alphanumeric()).next() == Some(&w)
        };
        let mut node = Vec::new();
        for i in 0..c.n {
            let f: Vec<usize> = (0..s.nodes.len()).filter(|k| name(&s.nodes[*k].label, "n", i)).collect();
            if f.len() != 1 {
                return Err(format!("node n{} is drawn {} times", i, f.len()));
            }
            node.push(f[0]);
        }
        let mut edge = Vec::new();
        let mut label = Vec::new();
        for k in 0..c.edges.len() {
            let col = format!("{}ff", c.color(k));
            let f: Vec<usize> = (0..s.edges.len()).filter(|x| s.edges[*x].look.line == col).collect();
            if f.len() != 1 {
                return Err(format!("edge e{} is drawn {} times", k, f.len()));
            }
            edge.push(f[0]);
            let f: Vec<usize> = (0..s.labels.len()).filter(|x| name(&s.labels[*x].text, "e", k)).collect();
            let want = c.has_label(k) as usize;
            if f.len() != want {
                return Err(format!("the label of edge e{} is drawn {} times, expected {}", k, f.len(), want));
            }
            label.push(f.first().copied());
        }
        let nl = (0..c.edges.len()).filter(|k| c.has_label(*k)).count();
        if s.labels.len() != nl {
            return Err(format!("{} labels are drawn, expected {}", s.labels.len(), nl));
        }
        Ok(Drawn { scene: s, vg, node, edge, label })
    }
    pub fn n(&self, i: usize) -> &scene::Node {
        &self.scene.nodes[self.node[i]]
    }
    pub fn e(&self, k: usize) -> &scene::Edge {
        &self.scene.edges[self.edge[k]]
    }
    pub fn l(&self, k: usize) -> Option<&scene::Label> {
        self.label[k].map(|x| &self.scene.labels[x])
    }
}

/// Flags, and both directions: the radix of `apply`.
pub fn apply(c: &mut Case, x: usize) {
    c.lr = x & 1 == 1;
    c.flags = Flags::from_bits(x >> 1 & 7);
    c.directed = x & 16 == 0;
}

/// A list of cases, by index.
pub struct Gen {
    pub name: String,
    pub bound: String,
    pub total: u64,
    pub get: std::sync::Arc<dyn Fn(u64) -> Case + Sync + Send>,
}
pub fn gen(name: &str, bound: &str, total: u64, get: impl Fn(u64) -> Case + Sync + Send + 'static) -> Gen {
    Gen { name: name.into(), bound: bound.into(), total, get: std::sync::Arc::new(get) }
}
pub fn fam(g: Gen, run: impl Fn(&Case, &mut Ctx) -> Result<(), String> + Sync + Send + 'static) -> Family {
    let g2 = g.get.clone();
    let g1 = g.get;
    family(&g.name, &g.bound, g.total, move |i| g2(i).show(), move |i, c| run(&g1(i), c))
}
pub fn edge_list(i: u64, n: usize, m: usize) -> Edges {
    digits(i, n * n, m).into_iter().map(|x| (x / n, x % n)).collect()
}
fn modes_text(modes: &[usize]) -> String {
    modes.iter().map(|m| format!("{}{}{}", if m & 1 == 1 { "LR" } else { "TB" }, if m & 16 != 0 { " undirected" } else { "" }, Flags::from_bits(m >> 1 & 7).show())).collect::<Vec<_>>().join(", ")
}

/// Every sequence of exactly m edges over n nodes.
pub fn graphs(n: usize, m: usize, modes: &'static [usize]) -> Gen {
    let ne = ((n * n) as u64).pow(m as u32);
    gen(
        &format!("graphs-{}-{}", n, m),
        &format!("every sequence of {} edges (self edges, parallel edges and cycles included) over {} nodes; modes: {}", m, n, modes_text(modes)),
        ne * modes.len() as u64,
        move |i| {
            let mut c = Case::new(n, edge_list(i % ne, n, m));
            apply(&mut c, modes[(i / ne) as usize]);
            c
        },
    )
}
/// ... with every choice of edge styles.
pub fn labelled(n: usize, m: usize, styles: &'static [usize], modes: &'static [usize]) -> Gen {
    let ne = ((n * n) as u64).pow(m as u32);
    let ns = (styles.len() as u64).pow(m as u32);
    gen(
        &format!("labels-{}-{}-{}", n, m, styles.len()),
        &format!("every sequence of {} edges over {} nodes with every choice of {:?} per edge; modes: {}", m, n, styles.iter().map(|s| EDGE_STYLES[*s]).collect::<Vec<_>>(), modes_text(modes)),
        ne * ns * modes.len() as u64,
        move |i| {
            let mut c = Case::new(n, edge_list(i % ne, n, m));
            let i = i / ne;
            c.estyle = digits(i % ns, styles.len(), m).into_iter().map(|x| styles[x]).collect();
            apply(&mut c, modes[(i / ns) as usize]);
            c
        },
    )
}
/// ... with every choice of node styles; and alternating edge labels if asked for.
pub fn shaped(n: usize, m: usize, styles: &'static [usize], label: bool, modes: &'static [usize]) -> Gen {
    let ne = ((n * n) as u64).pow(m as u32);
    let ns = (styles.len() as u64).pow(n as u32);
    gen(
        &format!("shapes-{}-{}-{}{}", n, m, styles.len(), if label { "-labels" } else { "" }),
        &format!(
            "every sequence of {} edges over {} nodes with every choice of {:?} per node{}; modes: {}",
            m,
            n,
            styles.iter().map(|s| NODE_STYLES[*s]).collect::<Vec<_>>(),
            if label { ", every second edge labelled" } else { "" },
            modes_text(modes)
        ),
        ne * ns * modes.len() as u64,
        move |i| {
            let mut c = Case::new(n, edge_list(i % ne, n, m));
            let i = i / ne;
            c.nstyle = digits(i % ns, styles.len(), n).into_iter().map(|x| styles[x]).collect();
            if label {
                for k in 0..m {
                    c.estyle[k] = [2, 0, 3, 1][k % 4];
                }
            }
            apply(&mut c, modes[(i / ns) as usize]);
            c
        },
    )
}
/// Every acyclic graph over n nodes given by a set of forward pairs.
pub fn acyclic(n: usize, label: bool, modes: &'static [usize]) -> Gen {
    let ps = crate::dags::pairs(n);
    let ne = 1u64 << ps.len();
    gen(
        &format!("acyclic-{}{}", n, if label { "-labels" } else { "" }),
        &format!("every acyclic graph over {} numbered nodes{}; modes: {}", n, if label { ", every second edge labelled" } else { "" }, modes_text(modes)),
        ne * modes.len() as u64,
        move |i| {
            let e: Edges = ps.iter().enumerate().filter(|(k, _)| (i % ne) & (1 << k) != 0).map(|(_, p)| *p).collect();
            let mut c = Case::new(n, e);
            if label {
                for k in 0..c.edges.len() {
                    c.estyle[k] = [1, 0, 2, 0, 3, 0][k % 6];
                }
            }
            apply(&mut c, modes[(i / ne) as usize]);
            c
        },
    )
}
/// Every bipartite graph between two ranks of a and b nodes.
pub fn bipartite(a: usize, b: usize, modes: &'static [usize]) -> Gen {
    let ne = 1u64 << (a * b);
    gen(
        &format!("bipartite-{}-{}", a, b),
        &format!("every set of edges from {} to {} other nodes; modes: {}", a, b, modes_text(modes)),
        ne * modes.len() as u64,
        move |i| {
            let mut e = Edges::new();
            for x in 0..a {
                for y in 0..b {
                    if (i % ne) & (1 << (x * b + y)) != 0 {
                        e.push((x, a + y));
                    }
                }
            }
            let mut c = Case::new(a + b, e);
            apply(&mut c, modes[(i / ne) as usize]);
            c
        },
    )
}

/// Structured graphs of growing size.
pub fn structure(kind: usize, k: usize) -> Option<Case> {
    let mut e = Edges::new();
    let n;
    match kind {
        // Chain, also of both directions, and a cycle.
        0 => {
            n = k + 1;
            for i in 0..k {
                e.push((i, i + 1));
            }
        }
        1 => {
            n = k + 1;
            for i in 0..k {
                e.push((i + 1, i));
                e.push((i, i + 1));
            }
        }
        2 => {
            n = k;
            for i in 0..k {
                e.push((i, (i + 1) % k));
            }
        }
        // Stars.
        3 => {
            n = k + 1;
            for i in 0..k {
                e.push((0, i + 1));
            }
        }
        4 => {
            n = k + 1;
            for i in 0..k {
                e.push((i, k));
            }
        }
        // Binary tree.
        5 => {
            n = k;
            for i in 1..k {
                e.push(((i - 1) / 2, i));
            }
        }
        // Diamonds.
        6 => {
            n = 3 * k + 1;
            for i in 0..k {
                let b = 3 * i;
                e.extend([(b, b + 1), (b, b + 2), (b + 1, b + 3), (b + 2, b + 3)]);
            }
        }
        // Ladder.
        7 => {
            n = 2 * k;
            for i in 0..k {
                e.push((2 * i, 2 * i + 1));
                if i + 1 < k {
                    e.push((2 * i, 2 * i + 2));
                    e.push((2 * i + 1, 2 * i + 3));
                }
            }
        }
        // Complete acyclic.
        8 => {
            n = k;
            e = crate::dags::pairs(k);
        }
        // Complete, both directions.
        9 => {
            n = k;
            for a in 0..k {
                for b in 0..k {
                    if a != b {
                        e.push((a, b));
                    }
                }
            }
        }
        // Complete bipartite.
        10 => {
            n = 2 * k;
            for a in 0..k {
                for b in 0..k {
                    e.push((a, k + b));
                }
            }
        }
        // Grid.
        11 => {
            n = k * k;
            for y in 0..k {
                for x in 0..k {
                    if x + 1 < k {
                        e.push((y * k + x, y * k + x + 1));
                    }
                    if y + 1 < k {
                        e.push((y * k + x, y * k + x + k));
                    }
                }
            }
        }
        // Long edges over a chain.
        12 => {
            n = k + 1;
            for i in 0..k {
                e.push((i, i + 1));
                e.push((0, i + 1));
                e.push((i, k));
            }
        }
        // Parallel edges, in both directions, and self edges.
        13 => {
            n = 2;
            for i in 0..k {
                e.push((i % 2, 1 - i % 2));
                e.push((i % 2, i % 2));
            }
        }
        14 => {
            n = 1;
            for _ in 0..k {
                e.push((0, 0));
            }
        }
        // Nodes without edges.
        15 => n = k,
        // Two levels of fans that cross.
        16 => {
            n = 3 * k;
            for i in 0..k {
                e.push((i, k + (i * 2 + 1) % k));
                e.push((i, k + (k - 1 - i)));
                e.push((k + i, 2 * k + (i * 3 + 2) % k));
                e.push((i, 2 * k + (k - 1 - i)));
            }
        }
        // Back edges over a chain.
        17 => {
            n = k + 1;
            for i in 0..k {
                e.push((i, i + 1));
                if i % 2 == 0 {
                    e.push((i + 1, i / 2));
                }
            }
        }
        // Several components.
        18 => {
            n = 3 * k;
            for i in 0..k {
                e.extend([(3 * i, 3 * i + 1), (3 * i + 1, 3 * i + 2), (3 * i, 3 * i + 2)]);
            }
        }
        // Complete layers of three, and of five nodes.
        19 | 20 => {
            let w = if kind == 19 { 3 } else { 5 };
            n = w * k;
            for l in 0..k - 1 {
                for a in 0..w {
                    for b in 0..w {
                        e.push((l * w + a, l * w + w + b));
                    }
                }
            }
        }
        _ => return None,
    }
    if n == 0 {
        return None;
    }
    Some(Case::new(n, e))
}
pub const KINDS: usize = 21;
pub const SIZES: &[usize] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 20, 24, 30];

/// Every structure up to a size, with edge labels and node shapes by pattern.
pub fn structures(max_size: usize, max_edges: usize, modes: &'static [usize]) -> Gen {
    let mut v = Vec::new();
    for kind in 0..KINDS {
        for k in SIZES.iter().filter(|k| **k <= max_size) {
            if let Some(c) = structure(kind, *k) {
                if c.edges.len() > max_edges {
                    continue;
                }
                for lab in 0..4usize {
                    for sh in 0..4usize {
                        for rot in 0..3usize {
                            if rot > 0 && lab == 0 && sh == 0 {
                                continue;
                            }
                            for m in modes {
                                let mut c = c.clone();
                                apply(&mut c, *m);
                                for k in 0..c.edges.len() {
                                    c.estyle[k] = match lab {
                                        0 => 0,
                                        1 => [1, 0][(k + rot) % 2],
                                        2 => [2, 3, 0, 5, 6][(k + rot) % 5],
                                        _ => [3, 2, 1][(k + rot) % 3],
                                    };
                                }
                                for i in 0..c.n {
                                    c.nstyle[i] = match sh {
                                        0 => 0,
                                        1 => [1, 2][(i + rot) % 2],
                                        2 => [3, 4, 9, 6, 2][(i * 2 + rot) % 5],
                                        _ => [7, 5, 8][(i + rot) % 3],
                                    };
                                }
                                v.push(c);
                            }
                        }
                    }
                }
            }
        }
    }
    let total = v.len() as u64;
    gen(
        "structures",
        &format!("chains, cycles, stars, trees, diamonds, ladders, complete and bipartite graphs, grids, long and back edges, self edges, components of sizes {:?} up to {} (at most {} edges), each with 40 patterns of labels and shapes; modes: {}", SIZES, max_size, max_edges, modes_text(modes)),
        total,
        move |i| v[i as usize].clone(),
    )
}

/// Large structures, a few patterns of labels and shapes each.
pub fn large(sizes: &'static [usize], max_edges: usize, modes: &'static [usize]) -> Gen {
    let mut v = Vec::new();
    for kind in 0..KINDS {
        for k in sizes {
            let c = match structure(kind, *k) {
                Some(c) if c.edges.len() <= max_edges && c.n <= 100 => c,
                _ => continue,
            };
            for pat in 0..3usize {
                for m in modes {
                    let mut c = c.clone();
                    apply(&mut c, *m);
                    for x in 0..c.edges.len() {
                        c.estyle[x] = [0, [0, 1, 0][x % 3], [3, 0, 0, 2, 0, 7, 9][x % 7]][pat];
                    }
                    for x in 0..c.n {
                        c.nstyle[x] = [0, [0, 2, 1][x % 3], [5, 0, 4, 12, 0, 8, 13][x % 7]][pat];
                    }
                    v.push(c);
                }
            }
        }
    }
    let total = v.len() as u64;
    gen(
        "large",
        &format!("the same structures of sizes {:?} (at most 100 nodes and {} edges), each with 3 patterns of labels and shapes; modes: {}", sizes, max_edges, modes_text(modes)),
        total,
        move |i| v[i as usize].clone(),
    )
}

/// Structures of hundreds of nodes with few edges, and few with many edges.
pub fn larger(sizes: &'static [usize], modes: &'static [usize]) -> Gen {
    let mut v = Vec::new();
    for kind in [0, 1, 2, 3, 4, 5, 7, 13, 14, 15, 17] {
        for k in sizes {
            let k = if [1, 7, 17].contains(&kind) { k / 4 } else { *k };
            let c = structure(kind, k).unwrap();
            for pat in 0..2usize {
                for m in modes {
                    let mut c = c.clone();
                    apply(&mut c, *m);
                    for x in 0..c.edges.len() {
                        c.estyle[x] = [0, [3, 0, 0, 2, 0, 7, 9][x % 7]][pat];
                    }
                    for x in 0..c.n {
                        c.nstyle[x] = [0, [5, 0, 4, 12, 0, 8, 13][x % 7]][pat];
                    }
                    v.push(c);
                }
            }
        }
    }
    let total = v.len() as u64;
    gen(
        "larger",
        &format!("chains, cycles, stars, trees, ladders, parallel edges, self edges, nodes without edges, back edges of sizes {:?}, plain, and with labels and shapes by a pattern; modes: {}", sizes, modes_text(modes)),
        total,
        move |i| v[i as usize].clone(),
    )
}

/// One style for all nodes, and one for all edges.
pub fn uniform(sizes: &'static [usize], max_edges: usize, modes: &'static [usize]) -> Gen {
    let mut base = Vec::new();
    for kind in 0..KINDS {
        for k in sizes {
            if let Some(c) = structure(kind, *k) {
                if c.edges.len() <= max_edges {
                    base.push(c);
                }
            }
        }
    }
    let r = [base.len(), modes.len(), NODE_STYLES.len(), EDGE_STYLES.len()];
    gen(
        "uniform",
        &format!("the structures of sizes {:?} with at most {} edges, with every style for all nodes and every style for all edges; modes: {}", sizes, max_edges, modes_text(modes)),
        mixed_total(&r),
        move |i| {
            let d = mixed(i, &r);
            let mut c = base[d[0]].clone();
            apply(&mut c, modes[d[1]]);
            c.nstyle.fill(d[2]);
            c.estyle.fill(d[3]);
            c
        },
    )
}
/// Many copies of two edges over three nodes.
pub fn copies(modes: &'static [usize]) -> Gen {
    const N: [usize; 7] = [1, 2, 3, 5, 8, 12, 17];
    let r = [9, 9, N.len(), N.len(), 5, modes.len()];
    gen(
        "copies",
        &format!("every two edges over 3 nodes, {:?} copies of either; no labels, labels on the first, the last, on every second or on all edges; modes: {}", N, modes_text(modes)),
        mixed_total(&r),
        move |i| {
            let d = mixed(i, &r);
            let mut e = vec![(d[0] / 3, d[0] % 3); N[d[2]]];
            e.extend(vec![(d[1] / 3, d[1] % 3); N[d[3]]]);
            let mut c = Case::new(3, e);
            let m = c.edges.len();
            for k in 0..m {
                c.estyle[k] = match d[4] {
                    0 => 0,
                    1 => (k == 0) as usize,
                    2 => (k == m - 1) as usize,
                    3 => k % 2,
                    _ => 1,
                };
            }
            apply(&mut c, modes[d[5]]);
            c
        },
    )
}

/// Few edges between many nodes: a pair in both directions, and one more edge.
pub fn sparse(sizes: &'static [usize], modes: &'static [usize]) -> Gen {
    let ends = |n: usize| {
        let mut v: Vec<usize> = [0, 1, 2, n / 2 - 1, n / 2, n - 3, n - 2, n - 1].into();
        v.extend([15, 16, 31, 32, 63, 64].into_iter().filter(|x| x + 1 < n));
        v.sort();
        v.dedup();
        v
    };
    let per: Vec<u64> = sizes.iter().map(|n| (ends(*n).len() as u64).pow(4) * 4).collect();
    let total: u64 = per.iter().sum();
    gen(
        "sparse",
        &format!("{:?} nodes, an edge between every two of some of them (the first, the last, those in the middle and around powers of two), one back or one in parallel, and one more edge between every two before or behind that; modes: {}", sizes, modes_text(modes)),
        total * modes.len() as u64,
        move |i| {
            let mut k = i % total;
            let mut z = 0;
            while k >= per[z] {
                k -= per[z];
                z += 1;
            }
            let p = ends(sizes[z]);
            let d = mixed(k, &[p.len(), p.len(), p.len(), p.len(), 4]);
            let (a, b) = (p[d[0]], p[d[1]]);
            let (x, y) = (if d[4] % 2 == 0 { (b, a) } else { (a, b) }, (p[d[2]], p[d[3]]));
            let e = if d[4] < 2 { vec![(a, b), x, y] } else { vec![(a, b), y, x] };
            let mut c = Case::new(sizes[z], e);
            apply(&mut c, modes[(i / total) as usize]);
            c
        },
    )
}

/// Modes: bit 0 left to right, bit 1 no optimization, bit 2 no layout, bit 3 debug, bit 4 undirected.
pub const DEFAULT: &[usize] = &[0];
pub const BOTH: &[usize] = &[0, 1];
pub const PLAIN: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7];
pub const LINES: &[usize] = &[16, 17, 18, 21];
pub const ALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];

/// The graphs most drawing checks look at.
/// Small acyclic graphs, one after another.
pub fn series(times: &'static [usize], modes: &'static [usize]) -> Gen {
    const P: [(usize, usize); 6] = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)];
    let r = [729, times.len(), modes.len()];
    gen(
        "series",
        &format!("every acyclic graph of 4 nodes, each edge missing, plain, or with a long label, {:?} of them one after another (the last node of one is the first of the next); modes: {}", times, modes_text(modes)),
        mixed_total(&r),
        move |i| {
            let d = mixed(i, &r);
            let k = times[d[1]];
            let mut e = vec![];
            let mut st = vec![];
            for g in 0..k {
                let mut w = d[0];
                for (a, b) in P {
                    if w % 3 > 0 {
                        e.push((3 * g + a, 3 * g + b));
                        st.push([0, 2][w % 3 - 1]);
                    }
                    w /= 3;
                }
            }
            let mut c = Case::new(3 * k + 1, e);
            c.estyle = st;
            apply(&mut c, modes[d[2]]);
            c
        },
    )
}
/// Nodes without edges among others that need more space.
pub fn loose(modes: &'static [usize]) -> Gen {
    const L: [usize; 4] = [3, 10, 30, 70];
    const K: [usize; 4] = [1, 3, 8, 20];
    let r = [L.len(), K.len(), 3, 3, 3, modes.len()];
    gen(
        "loose",
        &format!("{:?} nodes without edges to others before, among and behind {:?} pairs of nodes with edges that are plain, with wide labels, or to and from a common node; nodes that are small, of several sizes, or have edges to themselves; modes: {}", L, K, modes_text(modes)),
        mixed_total(&r),
        move |i| {
            let d = mixed(i, &r);
            let (l, k) = (L[d[0]], K[d[1]]);
            // Which nodes are loose: each pair takes two.
            let n = l + 2 * k;
            let mut free: Vec<bool> = match d[2] {
                0 => (0..n).map(|i| i < l).collect(),
                1 => (0..n).map(|i| i >= 2 * k).collect(),
                _ => {
                    let mut have = 0;
                    (0..n)
                        .map(|i| {
                            let f = have * n < (i + 1) * l && have < l;
                            have += f as usize;
                            f
                        })
                        .collect()
                }
            };
            while free.iter().filter(|f| !**f).count() > 2 * k {
                let at = free.iter().rposition(|f| !*f).unwrap();
                free[at] = true;
            }
            let tied: Vec<usize> = (0..n).filter(|i| !free[*i]).collect();
            let mut e = vec![];
            let mut st = vec![];
            for p in tied.chunks_exact(2) {
                e.push((p[0], if d[3] == 2 { tied[tied.len() - 1] } else { p[1] }));
                st.push([0, 2, 7][d[3]]);
                if d[3] == 2 {
                    e.push((tied[0], p[1]));
                    st.push(0);
                }
            }
            if d[4] == 2 {
                for i in (0..n).filter(|i| free[*i]) {
                    e.push((i, i));
                    st.push([0, 2][i % 2]);
                }
            }
            let mut c = Case::new(n, e);
            c.estyle = st;
            if d[4] == 1 {
                c.nstyle = (0..n).map(|i| [0, 2, 9, 8][i % 4]).collect();
            }
            apply(&mut c, modes[d[5]]);
            c
        },
    )
}
/// A chain of nodes of different widths and an edge with a label beside it.
pub fn ladder(k: usize, modes: &'static [usize]) -> Gen {
    const W: [usize; 4] = [0, 2, 11, 7];
    const L: [usize; 4] = [1, 2, 7, 10];
    let total = 4u64.pow(k as u32) * 4 * 3 * modes.len() as u64;
    gen(&format!("ladder-{}", k), "a chain of nodes of four widths each, and one edge with one of four labels from its first to its last node or back, or to a node in the middle", total, move |i| {
        let (m, i) = (modes[(i % modes.len() as u64) as usize], i / modes.len() as u64);
        let (kind, i) = (i % 3, i / 3);
        let (l, mut i) = (L[(i % 4) as usize], i / 4);
        let n = k + 2;
        let mut e: Edges = (1..n).map(|v| (v - 1, v)).collect();
        e.push(match kind {
            0 => (0, n - 1),
            1 => (n - 1, 0),
            _ => (1.min(n - 1), n - 1),
        });
        let mut c = Case::new(n, e);
        for v in 1..=k {
            c.nstyle[v] = W[(i % 4) as usize];
            i /= 4;
        }
        *c.estyle.last_mut().unwrap() = l;
        apply(&mut c, m);
        c
    })
}
pub fn standard(t: Tier) -> Vec<Gen> {
    let mut v = vec![
        graphs(1, 1, PLAIN),
        graphs(1, 3, PLAIN),
        graphs(2, 1, PLAIN),
        graphs(2, 2, PLAIN),
        graphs(2, 4, BOTH),
        graphs(3, 2, PLAIN),
        graphs(3, 3, PLAIN),
        graphs(3, 4, BOTH),
        graphs(4, 2, PLAIN),
        graphs(4, 3, PLAIN),
        graphs(4, 4, DEFAULT),
        labelled(2, 2, &[0, 1, 2, 3, 5], PLAIN),
        labelled(3, 3, &[0, 2], PLAIN),
        labelled(2, 3, &[0, 1, 3, 6], BOTH),
        labelled(4, 3, &[0, 2], BOTH),
        shaped(2, 2, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], false, BOTH),
        shaped(3, 2, &[0, 2, 3, 5], true, BOTH),
        shaped(3, 3, &[0, 2, 7], true, BOTH),
        graphs(2, 3, LINES),
        labelled(3, 3, &[0, 1], LINES),
        acyclic(5, false, PLAIN),
        acyclic(5, true, PLAIN),
        bipartite(3, 3, BOTH),
        bipartite(2, 5, BOTH),
        labelled(2, 2, &[0, 7, 8, 9], BOTH),
        shaped(2, 2, &[0, 11, 12, 13], true, BOTH),
        labelled(2, 2, &[0, 1, 10, 11, 12, 13], BOTH),
        labelled(2, 2, &[0, 1, 14, 15], PLAIN),
        labelled(3, 3, &[0, 14, 15], BOTH),
        shaped(2, 2, &[0, 2, 14, 15, 16, 17, 18, 19, 20, 21, 22], false, BOTH),
        shaped(2, 1, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22], true, PLAIN),
        uniform(t.pick(&[3, 7], &[2, 3, 5, 7, 10, 13]), t.pick(24, 60), t.pick(BOTH, PLAIN)),
        copies(t.pick(BOTH, PLAIN)),
        large(t.pick(&[11, 17, 26, 40, 63], &[11, 13, 17, 19, 23, 26, 33, 40, 52, 65, 99]), t.pick(130, 260), t.pick(&[0, 1, 2], PLAIN)),
        sparse(t.pick(&[18], &[18, 20, 40]), t.pick(BOTH, PLAIN)),
        structures(t.pick(8, 20), t.pick(28, 200), t.pick(&[0, 1, 2, 5], PLAIN)),
        larger(t.pick(&[130], &[130, 260]), DEFAULT),
        series(t.pick(&[2, 7], &[2, 3, 7, 20]), t.pick(&[0, 1, 2], PLAIN)),
        loose(t.pick(&[0, 1, 2], PLAIN)),
        ladder(3, t.pick(&[0, 1, 2], PLAIN)),
    ];
    if t == Tier::Thorough {
        v.push(graphs(3, 5, BOTH));
        v.push(graphs(5, 4, BOTH));
        v.push(graphs(4, 5, DEFAULT));
        v.push(labelled(3, 4, &[0, 1, 3], BOTH));
        v.push(labelled(4, 4, &[0, 2], DEFAULT));
        v.push(labelled(3, 3, &[0, 1, 2, 3, 5, 6], BOTH));
        v.push(shaped(3, 3, &[0, 1, 2, 3, 4, 5, 7], true, BOTH));
        v.push(shaped(4, 3, &[0, 2, 3], true, BOTH));
        v.push(acyclic(6, false, BOTH));
        v.push(acyclic(6, true, BOTH));
        v.push(bipartite(4, 4, BOTH));
        v.push(bipartite(3, 5, DEFAULT));
    }
    v
}
pub fn standard_families(t: Tier, run: fn(&Case, &mut Ctx) -> Result<(), String>) -> Vec<Family> {
    standard(t).into_iter().map(|g| fam(g, run)).collect()
}
