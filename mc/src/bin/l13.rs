//! L13: nodes keep their distance.
use layout::adt::dag::NodeHandle;
use layout::core::format::Visible;
use layout::topo::layout::VisualGraph;
use mc::api::{ports, shapes, sizes, G};
use mc::engine::*;
use mc::gen::*;
use mc::rec::draw_vg;
use mc::scene;

const MARGIN: f64 = 60.;

fn nodes(v: &[scene::Node], x: &mut Ctx) -> Result<(), String> {
    let mut least = f64::INFINITY;
    for i in 0..v.len() {
        for j in 0..i {
            let (a, b) = (&v[i], &v[j]);
            let gx = (a.center.0 - b.center.0).abs() - (a.size.0 + b.size.0) / 2.;
            let gy = (a.center.1 - b.center.1).abs() - (a.size.1 + b.size.1) / 2.;
            let g = gx.max(gy);
            x.transitions += 1;
            if g < MARGIN - 1e-6 {
                return Err(format!("{:?} at {:?} and {:?} at {:?} are only {} apart", a.label, a.center, b.label, b.center, g));
            }
            least = least.min(g);
        }
    }
    x.outcome((least * 8.) as u64);
    Ok(())
}
/// What no edge ties to another rank stands next to its neighbour.
fn loose(c: &Case, vg: &VisualGraph, x: &mut Ctx) -> Result<(), String> {
    let free = |k: NodeHandle| vg.dag.successors(k).is_empty() && vg.dag.predecessors(k).is_empty();
    let tied = |k: NodeHandle| vg.is_connector(k) && !free(k);
    // The space that an element takes across the drawing, with its margin.
    let span = |k: NodeHandle| {
        let b = vg.element(k).position().bbox(true);
        if c.lr {
            (b.0.y, b.1.y)
        } else {
            (b.0.x, b.1.x)
        }
    };
    for r in 0..vg.dag.num_levels() {
        let row = vg.dag.row(r);
        for (i, k) in row.iter().enumerate().filter(|(_, k)| free(**k)) {
            // The first one stands before its right neighbour, and a bend of a
            // self edge before its node.
            let (a, b) = match i {
                0 if row.len() == 1 => continue,
                _ if vg.is_connector(*k) => continue,
                0 => (*k, row[1]),
                _ => (row[i - 1], *k),
            };
            // Bends may move away later.
            if tied(a) || tied(b) {
                continue;
            }
            x.transitions += 1;
            let gap = span(b).0 - span(a).1;
            if gap > 0.5 {
                return Err(format!("element {} has no edges to other ranks, but stands {} beside its neighbour, apart from the margin", k.get_index(), gap));
            }
        }
    }
    Ok(())
}
fn run(c: &Case, x: &mut Ctx) -> Result<(), String> {
    x.state(h(&c.show()));
    let d = c.drawn()?;
    loose(c, &d.vg, x)?;
    nodes(&d.scene.nodes, x)
}
fn built(g: &G, x: &mut Ctx) -> Result<(), String> {
    x.state(h(&g.show()));
    nodes(&scene::read(&draw_vg(g.build(), g.flags).calls)?.nodes, x)
}
fn plan_(t: Tier) -> Plan {
    let mut f = standard_families(t, run);
    f.push(shapes(built, 2, 1, &[0, 1, 2, 3]));
    f.push(ports(built, 3, 1, &[0, 2]));
    f.push(sizes(built, &[0, 2]));
    if t == Tier::Thorough {
        f.push(shapes(built, 2, 2, &[0, 2]));
        f.push(shapes(built, 3, 1, &[0, 2]));
    }
    plan(
        f,
        "state = one graph with its styles and options; transition = one pair of drawn nodes whose distance is measured",
        &["the margin is the crate's own: 60 px between the outlines of two nodes, along or across the ranks"],
    )
}
fn main() {
    mc::engine::main("L13", plan_)
}
