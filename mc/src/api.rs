//! Graphs built through the API, enumerated.
use crate::dags::Edges;
use crate::engine::*;
use crate::gen::edge_list;
use crate::rec::{Flags, P};
use layout::core::base::Orientation;
use layout::core::color::Color;
use layout::core::geometry::Point;
use layout::core::style::{LineStyleKind, StyleAttr};
use layout::std_shapes::shapes::*;
use layout::topo::layout::VisualGraph;

#[derive(Clone, Debug)]
pub struct ENode {
    pub kind: usize,
    pub size: P,
    pub props: Option<String>,
    pub look: StyleAttrDesc,
    pub text: String,
}
pub type StyleAttrDesc = (u32, usize, Option<u32>, usize, usize);
pub fn style(d: StyleAttrDesc) -> StyleAttr {
    StyleAttr::new(Color::new(d.0), d.1, d.2.map(Color::new), d.3, d.4)
}
#[derive(Clone, Debug)]
pub struct EEdge {
    pub from: usize,
    pub to: usize,
    pub start: bool,
    pub end: bool,
    pub line: usize,
    pub text: String,
    pub props: Option<String>,
    pub ports: (Option<String>, Option<String>),
    pub look: StyleAttrDesc,
}
#[derive(Clone, Debug)]
pub struct G {
    pub lr: bool,
    pub flags: Flags,
    pub nodes: Vec<ENode>,
    pub edges: Vec<EEdge>,
}

pub const KINDS: &[&str] = &["box", "circle", "doublecircle", "record"];
pub fn shape(n: &ENode) -> ShapeKind {
    match n.kind {
        0 => ShapeKind::new_box(&n.text),
        1 => ShapeKind::new_circle(&n.text),
        2 => ShapeKind::new_double_circle(&n.text),
        _ => ShapeKind::new_record(&RecordDef::Array(vec![
            RecordDef::new_text_with_port(&n.text, "p"),
            RecordDef::Array(vec![RecordDef::new_text("u"), RecordDef::new_text_with_port("v", "q")]),
        ])),
    }
}

impl G {
    pub fn show(&self) -> String {
        let n: Vec<String> = self.nodes.iter().map(|n| format!("{} {:?} size {:?} props {:?} look {:?}", KINDS[n.kind], n.text, n.size, n.props, n.look)).collect();
        let e: Vec<String> = self
            .edges
            .iter()
            .map(|e| {
                format!(
                    "{}{}{} {} {:?} props {:?} ports {:?} look {:?}",
                    e.from,
                    if e.start { "<-" } else { "--" },
                    if e.end { format!("->{}", e.to) } else { format!("--{}", e.to) },
                    ["normal", "dashed", "dotted", "invisible"][e.line],
                    e.text,
                    e.props,
                    e.ports,
                    e.look
                )
            })
            .collect();
        format!("{}{} nodes [{}] edges [{}]", if self.lr { "left to right" } else { "top to bottom" }, self.flags.show(), n.join("; "), e.join("; "))
    }
    pub fn build(&self) -> VisualGraph {
        let o = if self.lr { Orientation::LeftToRight } else { Orientation::TopToBottom };
        let mut vg = VisualGraph::new(o);
        let hs: Vec<_> = self
            .nodes
            .iter()
            .map(|n| {
                let s = Point::new(n.size.0, n.size.1);
                vg.add_node(match &n.props {
                    Some(p) => Element::create_with_properties(shape(n), style(n.look), o.flip(), s, p.clone()),
                    None => Element::create(shape(n), style(n.look), o.flip(), s),
                })
            })
            .collect();
        for e in &self.edges {
            let head = |b| if b { LineEndKind::Arrow } else { LineEndKind::None };
            let line = [LineStyleKind::Normal, LineStyleKind::Dashed, LineStyleKind::Dotted, LineStyleKind::None][e.line];
            let l = style(e.look);
            let a = match &e.props {
                Some(p) => Arrow::with_properties(head(e.start), head(e.end), line, &e.text, &l, p.clone(), &e.ports.0, &e.ports.1),
                None => Arrow::new(head(e.start), head(e.end), line, &e.text, &l, &e.ports.0, &e.ports.1),
            };
            vg.add_edge(a, hs[e.from], hs[e.to]);
        }
        vg
    }
}


pub type Run = fn(&G, &mut Ctx) -> Result<(), String>;
pub fn line_color(i: usize) -> u32 {
    ((i as u32 + 1) << 8) | 0xff
}
pub fn node(i: usize, kind: usize) -> ENode {
    ENode { kind, size: (80., 60.), props: None, look: (line_color(i), 1, Some(0xffffffff), 0, 14), text: format!("n{}", i) }
}
pub fn edge(k: usize, from: usize, to: usize) -> EEdge {
    EEdge { from, to, start: false, end: true, line: 0, text: String::new(), props: None, ports: (None, None), look: (line_color(k) << 8 | 0xff, 1, None, 0, 14) }
}
pub fn nodes(n: usize) -> Vec<ENode> {
    (0..n).map(|i| node(i, 0)).collect()
}
pub fn edges(e: &Edges) -> Vec<EEdge> {
    e.iter().enumerate().map(|(k, (a, b))| edge(k, *a, *b)).collect()
}

pub fn gfam(run: Run, name: &str, bound: &str, total: u64, get: impl Fn(u64) -> G + Clone + Sync + Send + 'static) -> Family {
    let g2 = get.clone();
    family(name, bound, total, move |i| g2(i).show(), move |i, x| run(&get(i), x))
}

/// Every line, fill and text style at its extremes, of nodes and of edges.
pub fn looks(run: Run, modes: &'static [usize]) -> Family {
    const W: [usize; 6] = [0, 1, 2, 3, 50, 1000];
    const F: [usize; 6] = [1, 2, 13, 72, 300, 1000];
    const FILL: [Option<u32>; 5] = [None, Some(0), Some(0x00000001), Some(0xffffff00), Some(0x123456ff)];
    const R: [usize; 4] = [0, 1, 15, 200];
    let r = [W.len(), F.len(), FILL.len(), R.len(), KINDS.len(), 3, 4, 2, 2, modes.len()];
    gfam(
        run,
        "looks",
        &format!("an edge between two elements, or of one, or two edges: line widths {:?}, font sizes {:?}, fillings {:?}, roundings {:?} for edges or for nodes of every shape, every line style, labelled or not, both directions, modes {:?}", W, F, FILL, R, modes),
        mixed_total(&r),
        move |i| {
            let d = mixed(i, &r);
            let mut ns: Vec<ENode> = (0..2).map(|i| node(i, d[4])).collect();
            let mut es = edges(&[vec![(0, 1)], vec![(0, 0)], vec![(0, 1), (1, 0)]][d[5]].clone());
            let l = |c: u32| (c, W[d[0]], FILL[d[2]], R[d[3]], F[d[1]]);
            if d[6] == 0 {
                ns[0].look = l(ns[0].look.0);
            }
            for (k, e) in es.iter_mut().enumerate() {
                e.line = d[6] % 3;
                if d[6] > 0 {
                    e.look = l(e.look.0);
                }
                if d[7] == 1 {
                    e.text = format!("e{}", k);
                }
            }
            G { lr: d[8] == 1, flags: Flags::from_bits(modes[d[9]]), nodes: ns, edges: es }
        },
    )
}
/// Many edges between two nodes and of one, with texts, heads and lines by turns.
pub fn many(run: Run, max: usize, modes: &'static [usize]) -> Family {
    let z: Vec<usize> = crate::scale::sizes(max);
    let r = [z.len(), 4, 3, 2, modes.len()];
    gfam(
        run,
        "many-edges",
        &format!("up to {} edges between two elements, one way, back and forth or from one to itself, between elements of two shapes, with lines, heads and labels by three patterns, both directions, modes {:?}", max, modes),
        mixed_total(&r),
        move |i| {
            let d = mixed(i, &r);
            let e: Edges = (0..z[d[0]]).map(|k| [(0, 1), [(0, 1), (1, 0)][k % 2], (0, 0), [(0, 1), (1, 1), (1, 2), (2, 0)][k % 4]][d[1]]).collect();
            let mut es = edges(&e);
            for (k, e) in es.iter_mut().enumerate() {
                e.start = d[2] > 0 && k % 3 == 0;
                e.end = d[2] == 0 || k % 2 == 0;
                e.line = if d[2] == 2 { k % 4 } else { 0 };
                if d[2] > 0 && k % 5 < 2 && e.line != 3 {
                    e.text = format!("e{}", k);
                }
            }
            let ns = (0..3).map(|i| node(i, [0, 3, 1][i])).collect();
            G { lr: d[3] == 1, flags: Flags::from_bits(modes[d[4]]), nodes: ns, edges: es }
        },
    )
}

/// Every sequence of edges with the ends, line styles, texts and properties of all of them.
pub fn arrows(run: Run, n: usize, m: usize, modes: &'static [usize]) -> Family {
    // Per edge: the heads, the line, a text and properties.
    let per = [4usize, 4, 2, 2];
    let pn: usize = per.iter().product();
    let ne = ((n * n) as u64).pow(m as u32);
    let ns = (pn as u64).pow(m as u32);
    gfam(
        run,
        &format!("arrows-{}-{}", n, m),
        &format!("every sequence of {} edges over {} boxes, each with every combination of heads at both ends, line styles (also invisible), with and without a label, with and without properties, both directions, modes {:?}", m, n, modes),
        ne * ns * 2 * modes.len() as u64,
        move |i| {
            let e = edge_list(i % ne, n, m);
            let st = digits((i / ne) % ns, pn, m);
            let r = i / ne / ns;
            let mut es = edges(&e);
            for (k, e) in es.iter_mut().enumerate() {
                let d = mixed(st[k] as u64, &per);
                e.start = d[0] & 1 == 1;
                e.end = d[0] & 2 == 2;
                e.line = d[1];
                if d[2] == 1 {
                    e.text = format!("e{}", k);
                }
                if d[3] == 1 {
                    e.props = Some(format!("data-e=\"{}\"", k));
                }
            }
            G { lr: r % 2 == 1, flags: Flags::from_bits(modes[(r / 2) as usize]), nodes: nodes(n), edges: es }
        },
    )
}

pub const LOOKS: &[StyleAttrDesc] = &[(0, 1, Some(0xff0000ff), 0, 14), (0, 3, None, 0, 7), (0, 0, Some(0x00ff0080), 15, 100)];
pub const SIZES: &[P] = &[(80., 60.), (200., 30.5), (25., 300.)];

pub fn shapes(run: Run, n: usize, m: usize, modes: &'static [usize]) -> Family {
    let per = [KINDS.len(), SIZES.len(), LOOKS.len(), 2];
    let pn: usize = per.iter().product();
    let ne = ((n * n) as u64).pow(m as u32);
    let ns = (pn as u64).pow(n as u32);
    gfam(
        run,
        &format!("shapes-{}-{}", n, m),
        &format!("{} elements, each of every shape, with each of the sizes {:?}, {} styles, with and without properties, with every sequence of {} edges, both directions, modes {:?}", n, SIZES, LOOKS.len(), m, modes),
        ne * ns * 2 * modes.len() as u64,
        move |i| {
            let e = edge_list(i % ne, n, m);
            let st = digits((i / ne) % ns, pn, n);
            let r = i / ne / ns;
            let ns: Vec<ENode> = (0..n)
                .map(|i| {
                    let d = mixed(st[i] as u64, &per);
                    let mut e = node(i, d[0]);
                    e.size = SIZES[d[1]];
                    let c = e.look.0;
                    e.look = LOOKS[d[2]];
                    e.look.0 = c;
                    if d[3] == 1 {
                        e.props = Some(format!("class=\"n{}\" data-x=\"1\"", i));
                    }
                    e
                })
                .collect();
            G { lr: r % 2 == 1, flags: Flags::from_bits(modes[(r / 2) as usize]), nodes: ns, edges: edges(&e) }
        },
    )
}

/// Ports at both ends of edges between records, also of edges that are drawn backwards.
pub fn ports(run: Run, n: usize, m: usize, modes: &'static [usize]) -> Family {
    let per = [3usize, 3, 4, 2];
    let pn: usize = per.iter().product();
    let ne = ((n * n) as u64).pow(m as u32);
    let ns = (pn as u64).pow(m as u32);
    gfam(
        run,
        &format!("ports-{}-{}", n, m),
        &format!("every sequence of {} edges over {} records, each with every combination of the ports at both ends, heads at both ends, with and without a label, both directions, modes {:?}", m, n, modes),
        ne * ns * 2 * modes.len() as u64,
        move |i| {
            let e = edge_list(i % ne, n, m);
            let st = digits((i / ne) % ns, pn, m);
            let r = i / ne / ns;
            let port = |k: usize| [None, Some("p".to_string()), Some("q".to_string())][k].clone();
            let mut es = edges(&e);
            for (k, e) in es.iter_mut().enumerate() {
                let d = mixed(st[k] as u64, &per);
                e.ports = (port(d[0]), port(d[1]));
                e.start = d[2] & 1 == 1;
                e.end = d[2] & 2 == 2;
                if d[3] == 1 {
                    e.text = format!("e{}", k);
                }
            }
            G { lr: r % 2 == 1, flags: Flags::from_bits(modes[(r / 2) as usize]), nodes: (0..n).map(|i| node(i, 3)).collect(), edges: es }
        },
    )
}


/// Elements of unusual sizes.
pub fn sizes(run: Run, modes: &'static [usize]) -> Family {
    const Z: [f64; 8] = [1., 5., 14., 15., 16., 40.5, 300., 2000.];
    const O: [P; 4] = [(80., 60.), (1., 1.), (2000., 3.), (3., 700.)];
    const E: [&[(usize, usize)]; 6] = [&[], &[(0, 1)], &[(1, 0)], &[(0, 1), (1, 0), (0, 1)], &[(0, 0), (1, 1)], &[(0, 1), (1, 2), (0, 2)]];
    let r = [Z.len(), Z.len(), O.len(), KINDS.len(), 2, E.len(), 2, modes.len()];
    gfam(
        run,
        "sizes",
        &format!("three elements, the first of every shape and every width and height of {:?}, the second of the sizes {:?}, six patterns of edges, both directions, modes {:?}", Z, O, modes),
        mixed_total(&r),
        move |i| {
            let d = mixed(i, &r);
            let mut ns: Vec<ENode> = vec![node(0, d[3]), node(1, [0, d[3]][d[4]]), node(2, 0)];
            ns[0].size = (Z[d[0]], Z[d[1]]);
            ns[1].size = O[d[2]];
            G { lr: d[6] == 1, flags: Flags::from_bits(modes[d[7]]), nodes: ns, edges: edges(&E[d[5]].to_vec()) }
        },
    )
}
