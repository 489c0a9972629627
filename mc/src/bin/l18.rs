//! L18: nodes stand in the order in which they are mentioned.
use mc::api::{self, G};
use mc::engine::*;
use mc::gen::*;
use mc::rec::{draw_vg, look};
use mc::scene::{self, Node};

/// Per node: its line along the direction of the drawing, and its place on it.
fn places(v: &[&Node], lr: bool) -> Vec<(f64, f64)> {
    v.iter().map(|n| if lr { n.center } else { (n.center.1, n.center.0) }).collect()
}
fn same(a: f64, b: f64) -> bool {
    (a - b).abs() < 1e-6
}
fn ordered(v: &[&Node], at: &[(f64, f64)], why: &str, x: &mut Ctx) -> Result<(), String> {
    // Neighbours suffice: the order on a line is transitive.
    let mut last: Vec<(f64, usize)> = Vec::new();
    for (i, p) in at.iter().enumerate() {
        x.transitions += 1;
        match last.iter_mut().find(|l| same(l.0, p.0)) {
            Some(l) => {
                if at[l.1].1 >= p.1 {
                    return Err(format!("{:?} at {:?} stands behind {:?} at {:?}, {}", v[l.1].label, v[l.1].center, v[i].label, v[i].center, why));
                }
                l.1 = i;
            }
            None => last.push((p.0, i)),
        }
    }
    Ok(())
}
fn rank(at: &[(f64, f64)]) -> Vec<usize> {
    let mut l: Vec<f64> = at.iter().map(|p| p.0).collect();
    l.sort_by(|a, b| a.partial_cmp(b).unwrap());
    l.dedup_by(|a, b| same(*a, *b));
    at.iter().map(|p| l.iter().position(|q| same(*q, p.0)).unwrap()).collect()
}
fn run(c: &Case, x: &mut Ctx) -> Result<(), String> {
    x.state(h(&c.show()));
    let drawn = c.drawn()?;
    let s = &drawn.scene;
    // The nodes are mentioned by number.
    let nodes: Vec<&Node> = (0..c.n).map(|i| drawn.n(i)).collect();
    let at = places(&nodes, c.lr);
    if c.flags.no_opt {
        x.outcome(0);
        return ordered(&nodes, &at, "without optimization", x);
    }
    // With optimization the order is kept if it has no crossings.
    let ends = |e: &scene::Edge| e.path.len() == 2;
    if !s.labels.is_empty() || !s.edges.iter().all(ends) {
        x.skip("with connectors");
        return Ok(());
    }
    let mut d = c.clone();
    d.flags.no_opt = true;
    let drawn = d.drawn()?;
    let t = &drawn.scene;
    if !t.labels.is_empty() || !t.edges.iter().all(ends) {
        x.skip("with connectors");
        return Ok(());
    }
    let before: Vec<&Node> = (0..c.n).map(|i| drawn.n(i)).collect();
    let other = places(&before, c.lr);
    ordered(&before, &other, "without optimization", x)?;
    let (r, q) = (rank(&at), rank(&other));
    if r != q {
        x.skip("nodes of other ranks");
        return Ok(());
    }
    let mut seg: Vec<(usize, usize)> = c.edges.iter().map(|&(a, b)| if r[a] < r[b] { (a, b) } else { (b, a) }).collect();
    seg.sort();
    seg.dedup();
    for (i, a) in seg.iter().enumerate() {
        if seg[i + 1..].iter().any(|b| r[a.0] == r[b.0] && a.0 < b.0 && a.1 > b.1) {
            x.skip("with crossings");
            return Ok(());
        }
    }
    x.outcome(1);
    ordered(&nodes, &at, "although no edges cross", x)
}
fn built(g: &G, x: &mut Ctx) -> Result<(), String> {
    x.state(h(&g.show()));
    if !g.flags.no_opt {
        x.skip("with optimization");
        return Ok(());
    }
    let s = scene::read(&draw_vg(g.build(), g.flags).calls)?;
    // Nodes are identified by their line colour.
    let mut nodes = Vec::new();
    for n in &g.nodes {
        let line = look(&api::style(n.look)).line;
        nodes.push(s.nodes.iter().find(|k| k.look.line == line).ok_or("a node is missing")?);
    }
    ordered(&nodes, &places(&nodes, g.lr), "without optimization", x)
}
fn plan_(t: Tier) -> Plan {
    let mut f = standard_families(t, run);
    f.push(api::shapes(built, 2, 1, &[1, 3]));
    f.push(api::ports(built, 3, 1, &[1, 3]));
    f.push(api::arrows(built, 2, 1, &[1, 3]));
    f.push(api::sizes(built, t.pick(&[1], &[1, 3])));
    plan(
        f,
        "state = one graph with its styles and options; transition = one node compared with the node mentioned before it in its rank",
        &["with optimization, graphs are considered whose edges all lead from one rank to the next, if the optimization of ranks changes nothing"],
    )
}
fn main() {
    mc::engine::main("L18", plan_)
}
