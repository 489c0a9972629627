//! L17: ranks are rows, one after another at the margin.
use mc::api::{self, G};
use mc::engine::*;
use mc::gen::*;
use mc::rec::draw_vg;
use mc::scene::{self, Scene};

/// The margin of 30 pixels of both neighbours.
const MARGIN: f64 = 60.;
/// How far a label or bend may be moved out of the way of an edge.
const MOVED: f64 = 95.;

fn rows(s: &Scene, lr: bool, no_layout: bool, x: &mut Ctx) -> Result<(), String> {
    let along = |p: (f64, f64)| if lr { p.0 } else { p.1 };
    let across = |p: (f64, f64)| if lr { p.1 } else { p.0 };
    // Nodes of one row are centred on one line.
    let mut nodes: Vec<&scene::Node> = s.nodes.iter().collect();
    nodes.sort_by(|a, b| (along(a.center), across(a.center)).partial_cmp(&(along(b.center), across(b.center))).unwrap());
    let mut bands: Vec<Vec<&scene::Node>> = Vec::new();
    for n in nodes {
        match bands.last_mut() {
            Some(b) if (along(n.center) - along(b[0].center)).abs() < 1e-6 => b.push(n),
            _ => bands.push(vec![n]),
        }
    }
    let mut end: Option<(f64, &scene::Node)> = None;
    for b in &bands {
        let top = b.iter().map(|n| along(n.center) - along(n.size) / 2.).fold(f64::INFINITY, f64::min);
        if let Some((e, n)) = end {
            if top < e - 1e-6 {
                return Err(format!("{:?} at {:?} is beside of {:?} at {:?}, but not centred on its line", b[0].label, b[0].center, n.label, n.center));
            }
        }
        for n in b {
            let bottom = along(n.center) + along(n.size) / 2.;
            if end.map_or(true, |e| bottom > e.0) {
                end = Some((bottom, n));
            }
        }
        x.transitions += b.len() as u64;
    }
    // Rows follow each other at the margin.
    let plain = s.labels.is_empty() && s.edges.iter().all(|e| e.path.len() == 2);
    let mut v: Vec<(f64, f64)> = s.nodes.iter().map(|n| (along(n.center) - along(n.size) / 2., along(n.center) + along(n.size) / 2.)).collect();
    for l in &s.labels {
        let z = scene::text_extent(&l.text, l.look.font);
        v.push((along(l.xy) - along(z) / 2. - MOVED, along(l.xy) + along(z) / 2. + MOVED));
    }
    for e in &s.edges {
        for p in &e.path[1..e.path.len() - 1] {
            v.push((along(p.1) - MOVED, along(p.1) + MOVED));
        }
    }
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut to = f64::INFINITY;
    for i in &v {
        x.transitions += 1;
        if i.0 > to + MARGIN + 0.1 {
            return Err(format!("between {} and {} along the direction of the drawing there is nothing", to, i.0));
        }
        to = if to.is_finite() { to.max(i.1) } else { i.1 };
    }
    // Without a layout, so do the nodes of a row, from one side.
    if no_layout && plain {
        let mut first: Option<f64> = None;
        for b in &bands {
            let at = across(b[0].center) - across(b[0].size) / 2.;
            if (at - *first.get_or_insert(at)).abs() > 0.1 {
                return Err(format!("without layout, one row starts at {}, and another one at {}", first.unwrap(), at));
            }
            for w in b.windows(2) {
                let g = across(w[1].center) - across(w[0].center) - across(w[0].size) / 2. - across(w[1].size) / 2.;
                if (g - MARGIN).abs() > 0.1 {
                    return Err(format!("without layout, {:?} and {:?} are {} apart", w[0].label, w[1].label, g));
                }
            }
        }
    }
    x.outcome(h(&(bands.len(), plain)));
    Ok(())
}
fn run(c: &Case, x: &mut Ctx) -> Result<(), String> {
    x.state(h(&c.show()));
    rows(&c.drawn()?.scene, c.lr, c.flags.no_layout, x)
}
fn built(g: &G, x: &mut Ctx) -> Result<(), String> {
    x.state(h(&g.show()));
    rows(&scene::read(&draw_vg(g.build(), g.flags).calls)?, g.lr, g.flags.no_layout, x)
}
fn plan_(t: Tier) -> Plan {
    let mut f = standard_families(t, run);
    f.push(api::shapes(built, 2, 1, &[0, 1, 2, 3]));
    f.push(api::ports(built, 3, 1, &[0, 2]));
    f.push(api::sizes(built, t.pick(&[0, 2], &[0, 1, 2, 3, 4])));
    if t == Tier::Thorough {
        f.push(api::shapes(built, 2, 2, &[0, 2]));
        f.push(api::shapes(built, 3, 1, &[0, 2]));
    }
    plan(
        f,
        "state = one graph with its styles and options; transition = one node, label or bend compared with the row before",
        &["the margin is the crate's own: 60 px between the outlines of two nodes", "labels and bends count as everywhere within the 95 px by which the crate may move them out of the way of edges"],
    )
}
fn main() {
    mc::engine::main("L17", plan_)
}
