//! L20: the labels of long edges stand where there is room.
use layout::adt::dag::{NodeHandle, DAG};
use layout::core::format::Visible;
use layout::std_shapes::shapes::ShapeKind;
use layout::topo::layout::VisualGraph;
use mc::dags::Edges;
use mc::engine::*;
use mc::gen::*;
use mc::rec::draw_vg;

/// How many bends are behind the label.
fn below(dag: &DAG, vg: &VisualGraph, label: NodeHandle) -> usize {
    let (mut at, mut n) = (label, 0);
    while let Some(s) = dag.single_succ(at).filter(|s| vg.is_connector(*s)) {
        at = s;
        n += 1;
    }
    n
}
fn run(c: &Case, x: &mut Ctx) -> Result<(), String> {
    if (0..c.edges.len()).filter(|k| c.has_label(*k)).count() != 1 {
        x.skip("not exactly one label");
        return Ok(());
    }
    x.state(h(&c.show()));
    let vg = draw_vg(c.build()?, c.flags).vg;
    let dag = &vg.dag;
    let width = |k: NodeHandle| {
        let s = vg.element(k).position().size(true);
        if c.lr {
            s.y
        } else {
            s.x
        }
    };
    let row: Vec<f64> = (0..dag.num_levels()).map(|r| dag.row(r).iter().map(|k| width(*k)).sum()).collect();
    for k in vg.iter_nodes() {
        let ShapeKind::Connector(Some(_)) = &vg.element(k).shape else { continue };
        let r = dag.level(k);
        // A label of a self edge is connected with nothing.
        let (Some(p), Some(s)) = (dag.single_pred(k), dag.single_succ(k)) else { continue };
        for (n, far) in [(p, "before"), (s, "behind")] {
            if !vg.is_connector(n) {
                continue;
            }
            x.transitions += 1;
            // The rank optimizer puts the label as low as it can be.
            if !c.flags.no_opt && below(dag, &vg, k) > 3 {
                return Err(format!("the label climbed {} rows", below(dag, &vg, k)));
            }
            let there = row[dag.level(n)];
            let w = width(k);
            // The few pixels are what a bend without a label takes.
            if there + w + 4. < row[r] {
                // The label climbs at most three rows.
                if below(dag, &vg, k) >= 3 {
                    x.skip("three rows up");
                    continue;
                }
                return Err(format!("the label stands in row {}, which is {} wide, but row {} {} it, where its edge bends, is {} wide and the label {}", r, row[r], dag.level(n), far, there, w));
            }
            x.note("labels compared", 1);
            x.outcome(h(&(r, there < row[r])));
        }
    }
    Ok(())
}

/// Rows of many nodes and an edge with a label beside them.
fn crowds(step: usize, modes: &'static [usize]) -> Gen {
    const L: [usize; 3] = [1, 2, 7];
    let z = 32 / step as u64;
    gen("crowds", &format!("two rows of up to 32 nodes each, in steps of {}, in both orders, and an edge with one of three labels beside them", step), z * z * 3 * 2 * modes.len() as u64, move |i| {
        let (m, i) = (modes[(i % modes.len() as u64) as usize], i / modes.len() as u64);
        let (l, i) = (L[(i % 3) as usize], i / 3);
        let (first, i) = (i % 2 == 0, i / 2);
        let (a, b) = ((1 + i % z) as usize * step, (1 + i / z) as usize * step);
        let n = a + b + 2;
        let mut e = Edges::new();
        if first {
            e.push((0, n - 1));
        }
        e.extend((1..=a).map(|v| (0, v)));
        e.extend((a + 1..=a + b).flat_map(|v| [(1, v), (v, n - 1)]));
        if !first {
            e.push((0, n - 1));
        }
        let k = if first { 0 } else { e.len() - 1 };
        let mut c = Case::new(n, e);
        c.estyle[k] = l;
        apply(&mut c, m);
        c
    })
}
/// A chain whose rows have more and more, or less and less, nodes, and an edge
/// with a label from its first to its last node.
fn stairs(max: usize, modes: &'static [usize]) -> Gen {
    const L: [usize; 3] = [1, 2, 7];
    let z = max as u64 - 3;
    gen(&format!("stairs-{}", max), &format!("chains of 4 to {} ranks, each with one or every second one with two nodes more or less than the one before, and an edge with one of three labels beside them", max), z * 3 * 4 * modes.len() as u64, move |i| {
        let (m, i) = (modes[(i % modes.len() as u64) as usize], i / modes.len() as u64);
        let (l, i) = (L[(i % 3) as usize], i / 3);
        let (grow, twos, k) = (i % 2 == 0, i / 2 % 2 == 1, 4 + (i / 4) as usize);
        let mut e: Edges = (0..k - 1).map(|v| (v, v + 1)).collect();
        e.push((0, k - 1));
        let mut n = k;
        for v in 1..k - 1 {
            let s = if grow { v } else { k - 1 - v };
            for _ in 0..if twos { s / 2 * 2 } else { s } {
                e.extend([(v - 1, n), (n, v + 1)]);
                n += 1;
            }
        }
        let mut c = Case::new(n, e);
        c.estyle[k - 1] = l;
        apply(&mut c, m);
        c
    })
}
fn plan_(t: Tier) -> Plan {
    let mut f = standard_families(t, run);
    for k in (2..=t.pick(5, 7)).filter(|k| *k != 3) {
        f.push(fam(ladder(k, t.pick(&[0, 1, 2, 3], PLAIN)), run));
    }
    f.push(fam(crowds(t.pick(3, 1), t.pick(BOTH, PLAIN)), run));
    f.push(fam(stairs(t.pick(16, 20), PLAIN), run));
    plan(
        f,
        "state = one graph with one label and its styles and options; transition = the row of a label compared with the next row in which its edge bends",
        &["graphs with more than one label are not checked", "labels that climbed three rows are not demanded to climb further"],
    )
}
fn main() {
    mc::engine::main("L20", plan_)
}
