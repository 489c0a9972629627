//! L12: edges are straight where nothing crosses them.
use layout::adt::dag::NodeHandle;
use layout::core::format::Visible;
use layout::core::geometry::Point;
use layout::topo::layout::VisualGraph;
use mc::engine::*;
use mc::gen::*;
use mc::scene::meets;

fn run(c: &Case, x: &mut Ctx) -> Result<(), String> {
    if c.flags.no_layout {
        x.skip("no layout");
        return Ok(());
    }
    let d = c.drawn()?;
    x.state(h(&c.show()));
    let lvl = |i: usize| d.vg.dag.level(NodeHandle::new(i));
    let across = |p: (f64, f64)| if c.lr { p.1 } else { p.0 };
    // Per rank: the segments to the next one, by their places across; and
    // whether both ends are bends.
    let ranks = d.vg.dag.num_levels();
    let mut segs: Vec<Vec<(f64, f64, bool, usize, bool)>> = vec![vec![]; ranks];
    // How many edges go up and down from each node.
    let (mut ups, mut downs) = (vec![0; c.n], vec![0; c.n]);
    for &(a, b) in c.edges.iter().filter(|(a, b)| a != b) {
        let (top, bot) = if lvl(a) < lvl(b) { (a, b) } else { (b, a) };
        downs[top] += 1;
        ups[bot] += 1;
    }
    for (k, &(a, b)) in c.edges.iter().enumerate() {
        if a == b {
            continue;
        }
        let e = d.e(k);
        let (la, lb) = (lvl(a), lvl(b));
        if la == lb {
            return Err(format!("edge e{} connects nodes of one rank", k));
        }
        let mut pts: Vec<f64> = e.path[1..e.path.len() - 1].iter().map(|s| across(s.1)).collect();
        if pts.len() + 1 != la.abs_diff(lb) {
            return Err(format!("edge e{} spans {} ranks and has {} bends", k, la.abs_diff(lb), pts.len()));
        }
        // The path may be drawn from either end; from the upper one here.
        let (top, bot) = if la < lb { (a, b) } else { (b, a) };
        let end = if d.n(top).on_outline(e.first()) { top } else { bot };
        if end == bot {
            pts.reverse();
        }
        let mut all = vec![across(d.n(top).center)];
        all.extend(pts);
        all.push(across(d.n(bot).center));
        for (i, w) in all.windows(2).enumerate() {
            // Either both ends are bends, or nothing else is attached to the
            // node on this side. The bend of an edge with a single one goes to
            // the middle.
            let inner = i > 0 && i + 2 < all.len();
            let lone = (i > 0 || downs[top] == 1) && (i + 2 < all.len() || ups[bot] == 1) && all.len() != 3;
            segs[lvl(top) + i].push((w[0], w[1], inner || lone, k, inner));
        }
    }
    let mut straight = 0u64;
    for s in &segs {
        for p in s.iter().filter(|p| p.2) {
            let crossed = s.iter().any(|q| (q.4 || !p.4) && ((p.0 < q.0 && p.1 > q.1) || (p.0 > q.0 && p.1 < q.1)));
            x.transitions += 1;
            if crossed {
                continue;
            }
            if (p.0 - p.1).abs() > 1e-6 {
                return Err(format!("edge e{} bends from {} to {} although nothing crosses it there", p.3, p.0, p.1));
            }
            straight += 1;
        }
    }
    single(c, &d.vg, x)?;
    x.note("straight segments", straight);
    x.outcome(straight);
    Ok(())
}
/// The only bend or label of an edge between two nodes is on the straight line
/// between them, if it has the space there. (Only in ranks where nothing else
/// can move.)
fn single(c: &Case, vg: &VisualGraph, x: &mut Ctx) -> Result<(), String> {
    let turn = |p: Point| if c.lr { (p.y, p.x) } else { (p.x, p.y) };
    let mid = |k: NodeHandle| turn(vg.element(k).position().center());
    let bbox = |k: NodeHandle, halo: bool| {
        let b = vg.element(k).position().bbox(halo);
        (turn(b.0), turn(b.1))
    };
    for r in 1..vg.dag.num_levels() {
        let row = vg.dag.row(r);
        let Some(i) = row.iter().position(|k| vg.is_connector(*k)) else { continue };
        if row.iter().filter(|k| vg.is_connector(**k)).count() != 1 {
            continue;
        }
        let k = row[i];
        let (Some(a), Some(b)) = (vg.dag.single_pred(k), vg.dag.single_succ(k)) else { continue };
        if vg.is_connector(a) || vg.is_connector(b) {
            continue;
        }
        let (p, q, m) = (mid(a), mid(b), mid(k));
        let want = (p.0 + q.0) / 2.;
        if (m.0 - want).abs() < 1e-6 {
            x.outcome(1);
            continue;
        }
        x.transitions += 1;
        // Another node is in the way, or there is no space.
        if row.iter().any(|n| *n != k && meets(p, q, bbox(*n, false), 1.)) {
            continue;
        }
        let w = bbox(k, true);
        let (l, h) = (want - (m.0 - w.0 .0), want + (w.1 .0 - m.0));
        if i > 0 && l < bbox(row[i - 1], true).1 .0 + 1. || i + 1 < row.len() && h > bbox(row[i + 1], true).0 .0 - 1. {
            continue;
        }
        // It is close to the line. It may have been moved along the drawing
        // since, away from the line on which the nodes of the rank are.
        let mut own = bbox(k, false);
        if let Some(n) = row.iter().find(|n| **n != k) {
            let dy = mid(*n).1 - m.1;
            own.0 .1 += dy;
            own.1 .1 += dy;
        }
        if meets(p, q, own, 1.) {
            continue;
        }
        return Err(format!("the only bend of the edge from {:?} to {:?} is at {:?}, although nothing is in its way at {}", p, q, m, want));
    }
    Ok(())
}
fn plan_(t: Tier) -> Plan {
    let mut f: Vec<Family> = vec![];
    for g in standard(t) {
        f.push(fam(g, run));
    }
    f.push(fam(acyclic(6, false, t.pick(DEFAULT, BOTH)), run));
    f.push(fam(labelled(3, 4, &[0, 2], t.pick(DEFAULT, BOTH)), run));
    plan(
        f,
        "state = one graph with its styles; transition = one segment of an edge between neighbouring ranks, between two bends or at nodes with no other edge on that side, tested against all other segments between these ranks",
        &["without the layout phase nothing is straightened"],
    )
}
fn main() {
    mc::engine::main("L12", plan_)
}
