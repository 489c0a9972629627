//! L02: boxes do not overlap, ranks are bands.
use mc::engine::*;
use mc::gen::*;
use mc::scene::{overlap, text_extent};

fn run(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let d = c.drawn()?;
    x.transitions += c.size();
    x.state(h(&c.show()));
    // The boxes of nodes and of edge labels.
    let mut b: Vec<(String, (f64, f64), (f64, f64))> = Vec::new();
    for i in 0..c.n {
        let n = d.n(i);
        b.push((format!("n{}", i), n.center, n.size));
    }
    for k in 0..c.edges.len() {
        if let Some(l) = d.l(k) {
            b.push((format!("the label of e{}", k), l.xy, text_extent(&l.text, l.look.font)));
        }
    }
    for i in 0..b.len() {
        for j in i + 1..b.len() {
            if overlap(b[i].1, b[i].2, b[j].1, b[j].2) {
                return Err(format!("{} and {} overlap: {:?} {:?}", b[i].0, b[j].0, b[i], b[j]));
            }
        }
    }
    // Ranks: groups of nodes along the direction of the drawing. Nodes share
    // the middle line of their rank, and different ranks do not reach into
    // each other.
    let ax = |p: (f64, f64)| if c.lr { p.0 } else { p.1 };
    let mut rank: Vec<(usize, f64, f64, f64)> = Vec::new();
    for i in 0..c.n {
        let lvl = d.vg.dag.level(layout::adt::dag::NodeHandle::new(i));
        let n = d.n(i);
        rank.push((lvl, ax(n.center), ax(n.center) - ax(n.size) / 2., ax(n.center) + ax(n.size) / 2.));
    }
    for i in 0..c.n {
        for j in 0..c.n {
            let (p, q) = (rank[i], rank[j]);
            if p.0 == q.0 && (p.1 - q.1).abs() > 1e-6 {
                return Err(format!("n{} and n{} of the same rank are not in line: {:?} {:?}", i, j, p, q));
            }
            if p.0 < q.0 && p.3 > q.2 + 1e-6 {
                return Err(format!("n{} of rank {} reaches into rank {} (n{}): {:?} {:?}", i, p.0, q.0, j, p, q));
            }
        }
    }
    x.outcome(h(&rank.iter().map(|r| r.0).collect::<Vec<_>>()));
    Ok(())
}
fn plan_(t: Tier) -> Plan {
    plan(
        standard_families(t, run),
        "state = one graph with its styles and options; transition = one node or edge laid out; every pair of drawn boxes (nodes and edge labels) is tested for overlap, and nodes for their place in the bands of the ranks",
        &["the box of an edge label is the crate's own estimate of its text (one font size per character and line)"],
    )
}
fn main() {
    mc::engine::main("L02", plan_)
}
