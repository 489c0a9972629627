//! L19: edges keep out of the nodes beside their bends.
use layout::adt::dag::NodeHandle;
use layout::core::format::Visible;
use layout::core::geometry::Point;
use layout::topo::layout::VisualGraph;
use mc::api::{self, G};
use mc::engine::*;
use mc::gen::*;
use mc::rec::draw_vg;
use mc::scene::meets;

/// How far a bend may move along the direction of the drawing.
const FAR: f64 = 95.;
type P = (f64, f64);
type B = (P, P);

fn lower(b: B, dy: f64) -> B {
    ((b.0 .0, b.0 .1 + dy), (b.1 .0, b.1 .1 + dy))
}
/// Do the boxes come within `by` of each other?
fn touch(a: B, b: B, by: f64) -> bool {
    a.0 .0 < b.1 .0 + by && b.0 .0 < a.1 .0 + by && a.0 .1 < b.1 .1 + by && b.0 .1 < a.1 .1 + by
}

fn bends(vg: &VisualGraph, lr: bool, x: &mut Ctx) -> Result<(), String> {
    let dag = &vg.dag;
    let turn = |p: Point| if lr { (p.y, p.x) } else { (p.x, p.y) };
    let mid = |k: NodeHandle| turn(vg.element(k).position().center());
    let bbox = |k: NodeHandle| {
        let b = vg.element(k).position().bbox(false);
        (turn(b.0), turn(b.1))
    };
    let height = |k: NodeHandle| (bbox(k).0 .1 + bbox(k).1 .1) / 2.;
    // How far each element is from the line of its rank, where the nodes are.
    let shift: Vec<Option<f64>> = vg
        .iter_nodes()
        .map(|k| dag.row(dag.level(k)).iter().find(|n| !vg.is_connector(**n)).map(|n| height(k) - height(*n)))
        .collect();
    let of = |k: NodeHandle| shift[k.get_index()];
    // What else is in the ranks before and after.
    let around = |r: usize, a: NodeHandle, b: NodeHandle| -> Vec<NodeHandle> {
        let v = [r.wrapping_sub(1), r + 1];
        v.iter().filter(|r| **r < dag.num_levels()).flat_map(|r| dag.row(*r).iter().copied()).filter(|n| *n != a && *n != b).collect()
    };
    for r in 0..dag.num_levels() {
        let row = dag.row(r);
        for (i, &k) in row.iter().enumerate().filter(|(_, k)| vg.is_connector(**k)) {
            let (Some(a), Some(b)) = (dag.single_pred(k), dag.single_succ(k)) else { continue };
            let (Some(s), Some(sa), Some(sb)) = (of(k), of(a), of(b)) else {
                x.skip("rank of bends only");
                continue;
            };
            x.transitions += 1;
            let (p, m, q) = (mid(a), mid(k), mid(b));
            let (p, m, q) = ((p.0, p.1 - sa), (m.0, m.1 - s), (q.0, q.1 - sb));
            // The neighbours, where they were.
            let mut beside: Vec<B> = vec![];
            if i > 0 {
                beside.push(lower(bbox(row[i - 1]), -of(row[i - 1]).unwrap()));
            }
            if i + 1 < row.len() {
                beside.push(lower(bbox(row[i + 1]), -of(row[i + 1]).unwrap()));
            }
            let hits = |m: P, v: &[B], by: f64| v.iter().any(|b| meets(p, m, *b, by) || meets(m, q, *b, by));
            if s.abs() > 1e-6 {
                if s.abs() > FAR + 1e-6 {
                    return Err(format!("the bend at {:?} is {} away from the line of its rank", mid(k), s));
                }
                if !hits(m, &beside, 1.) {
                    return Err(format!("the bend at {:?} is {} away from the line of its rank, although the edge from {:?} to {:?} meets no neighbour there", mid(k), s, p, q));
                }
                if hits((m.0, m.1 + s), &beside, -1.) {
                    return Err(format!("the bend at {:?} was moved by {} away from the line of its rank, but the edge from {:?} to {:?} still runs through its neighbour", mid(k), s, p, q));
                }
                // Nor may it run through something of the ranks next to it now.
                for n in around(r, a, b) {
                    let Some(sn) = of(n) else { continue };
                    if hits((m.0, m.1 + s), &[lower(bbox(n), -sn)], -1.) && !hits(m, &[lower(bbox(n), -sn)], 1.) {
                        return Err(format!("the bend at {:?} was moved by {} away from the line of its rank, but there the edge from {:?} to {:?} runs through {:?}", mid(k), s, p, q, bbox(n)));
                    }
                }
                x.note("bends moved", 1);
                x.outcome(s.to_bits());
                continue;
            }
            if !hits(m, &beside, -1.) {
                continue;
            }
            x.note("bends in the way", 1);
            for o in (15..=95).step_by(10).map(|o| o as f64) {
                let mut all = beside.clone();
                for n in around(r, a, b) {
                    all.push(bbox(n));
                    all.push(lower(bbox(n), -of(n).unwrap_or(0.)));
                }
                let to = lower(bbox(k), o);
                let free = !vg.iter_nodes().any(|n| n != k && (touch(to, bbox(n), 1.) || touch(to, lower(bbox(n), -of(n).unwrap_or(0.)), 1.)));
                if free && !hits((m.0, m.1 + o), &all, 1.) {
                    return Err(format!("the edge from {:?} to {:?} runs through a neighbour of its bend {:?}, but not if that is moved by {}", p, q, m, o));
                }
            }
        }
    }
    Ok(())
}
fn run(c: &Case, x: &mut Ctx) -> Result<(), String> {
    if c.flags.no_layout {
        x.skip("no layout");
        return Ok(());
    }
    x.state(h(&c.show()));
    bends(&c.drawn()?.vg, c.lr, x)
}
fn built(g: &G, x: &mut Ctx) -> Result<(), String> {
    if g.flags.no_layout {
        x.skip("no layout");
        return Ok(());
    }
    x.state(h(&g.show()));
    bends(&draw_vg(g.build(), g.flags).vg, g.lr, x)
}
fn plan_(t: Tier) -> Plan {
    let mut f = standard_families(t, run);
    f.push(fam(labelled(4, 4, &[0, 2], t.pick(DEFAULT, BOTH)), run));
    f.push(api::sizes(built, t.pick(&[0], &[0, 2])));
    plan(
        f,
        "state = one graph with its styles and options; transition = one bend or label whose edge is compared with its neighbours, where it is and where it could be",
        &["ranks in which there are only bends are not checked", "a bend that could have moved is only demanded to if it comes within a pixel of nothing"],
    )
}
fn main() {
    mc::engine::main("L19", plan_)
}
