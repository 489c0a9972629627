//! L21: nodes stand below the middle of what leads to them.
use layout::core::format::Visible;
use mc::api::{self, G};
use mc::dags::Edges;
use mc::engine::*;
use mc::gen::*;
use mc::rec::draw_vg;
use layout::topo::layout::VisualGraph;

fn middles(vg: &VisualGraph, lr: bool, x: &mut Ctx) -> Result<(), String> {
    let dag = &vg.dag;
    for r in 1..dag.num_levels() {
        let (above, row) = (dag.row(r - 1), dag.row(r));
        let at = |k| above.iter().position(|n| *n == k);
        // Everything that leads from one row to the other.
        let all: Vec<(usize, usize)> = row.iter().enumerate().flat_map(|(j, k)| dag.predecessors(*k).iter().filter_map(|p| at(*p)).map(move |i| (i, j)).collect::<Vec<_>>()).collect();
        for (j, v) in row.iter().enumerate() {
            if vg.is_connector(*v) {
                continue;
            }
            let mut from: Vec<usize> = all.iter().filter(|e| e.1 == j).map(|e| e.0).collect();
            let n = from.len();
            from.sort();
            from.dedup();
            if n == 0 || from.len() != n || from.iter().any(|i| dag.successors(above[*i]).len() != 1) {
                continue;
            }
            // Of an even number either one of the two in the middle.
            let middle = [above[from[n / 2]], above[from[(n - 1) / 2]]];
            if middle.iter().any(|k| vg.is_connector(*k)) {
                continue;
            }
            if all.iter().any(|e| e.1 != j && from.iter().any(|i| !(e.0 < *i && e.1 < j || e.0 > *i && e.1 > j))) {
                x.note("crossed", 1);
                continue;
            }
            x.transitions += 1;
            let across = |k| {
                let c = vg.element(k).position().center();
                if lr {
                    c.y
                } else {
                    c.x
                }
            };
            let off = middle.map(|k| across(*v) - across(k));
            if off.iter().all(|d| d.abs() > 1e-6 * (1. + across(*v).abs())) {
                return Err(format!("element {} in row {} is {:?} off the middle ({}, {}) of the {} that lead to it", v.get_index(), r, off, middle[0].get_index(), middle[1].get_index(), n));
            }
            x.outcome(h(&(n, r)));
        }
    }
    Ok(())
}
fn run(c: &Case, x: &mut Ctx) -> Result<(), String> {
    if c.flags.no_layout {
        x.skip("no layout");
        return Ok(());
    }
    x.state(h(&c.show()));
    middles(&draw_vg(c.build()?, c.flags).vg, c.lr, x)
}
fn built(g: &G, x: &mut Ctx) -> Result<(), String> {
    if g.flags.no_layout {
        x.skip("no layout");
        return Ok(());
    }
    x.state(h(&g.show()));
    middles(&draw_vg(g.build(), g.flags).vg, g.lr, x)
}
/// Every node but the last leads to one after it, with nodes of three widths.
fn forests(n: usize, styles: &'static [usize], modes: &'static [usize]) -> Gen {
    let trees: u64 = (1..n as u64).product::<u64>() * n as u64;
    let s = styles.len() as u64;
    gen(&format!("in-forests-{}-{}", n, styles.len()), &format!("every graph of {} nodes in which every node leads to one later node at most, with each of {} styles in turn", n, s), trees * s * modes.len() as u64, move |i| {
        let (m, i) = (modes[(i % modes.len() as u64) as usize], i / modes.len() as u64);
        let (k, mut i) = ((i % s) as usize, i / s);
        let mut e = Edges::new();
        // Node v leads to one of the n - 1 - v nodes after it, or to none.
        for v in 0..n {
            let c = (n - v) as u64;
            let d = (i % c) as usize;
            i /= c;
            if d > 0 {
                e.push((v, v + d));
            }
        }
        let mut c = Case::new(n, e);
        for v in 0..n {
            c.nstyle[v] = styles[(v * 7 + v / 3 + k) % styles.len()];
        }
        apply(&mut c, m);
        c
    })
}
/// Nodes that lead to one, in some rows, with a long edge beside them.
fn fans(max: usize, modes: &'static [usize]) -> Gen {
    let z = max as u64;
    gen("fans", &format!("up to {} fans of up to {} nodes that lead to one each, one below the other or beside each other, with a long edge on one of both sides or between them", 4, max), z * 4 * 2 * 4 * 2 * modes.len() as u64, move |i| {
        let (m, i) = (modes[(i % modes.len() as u64) as usize], i / modes.len() as u64);
        let (k, i) = ((i % z) as usize + 1, i / z);
        let (fans, i) = ((i % 4) as usize + 1, i / 4);
        let (below, i) = (i % 2 == 0, i / 2);
        let (side, label) = ((i % 4) as usize, i / 4 == 1);
        let mut e = Edges::new();
        let mut n = 0;
        // The long edge, and a chain that makes it long.
        let long = |e: &mut Edges, n: &mut usize| {
            let c = *n;
            e.extend([(c, c + 4), (c, c + 1), (c + 1, c + 2), (c + 2, c + 3), (c + 3, c + 4)]);
            *n += 5;
        };
        if side & 1 == 1 {
            long(&mut e, &mut n);
        }
        let mut last = None;
        for f in 0..fans {
            let to = n + k;
            e.extend((n..to).map(|v| (v, to)));
            if let (true, Some(l)) = (below, last) {
                e.push((l, n + k / 2));
            }
            last = Some(to);
            n = to + 1;
            if side == 3 && f == 0 {
                long(&mut e, &mut n);
            }
        }
        if side == 2 {
            long(&mut e, &mut n);
        }
        let mut c = Case::new(n, e);
        if label {
            c.estyle[0] = 2;
        }
        for v in 0..n {
            c.nstyle[v] = [0, 2, 0, 1, 8][v % 5];
        }
        apply(&mut c, m);
        c
    })
}
fn plan_(t: Tier) -> Plan {
    let mut f = standard_families(t, run);
    f.push(fam(forests(7, &[0, 2, 8], t.pick(&[0, 1, 2, 3], PLAIN)), run));
    f.push(fam(forests(8, &[0, 2, 8], t.pick(&[0, 1], &[0, 1, 2, 3])), run));
    f.push(fam(fans(t.pick(13, 40), PLAIN), run));
    f.push(api::sizes(built, t.pick(&[0], &[0, 2])));
    plan(
        f,
        "state = one graph with its styles and options; transition = one node whose place is compared with that of the middle one of the nodes that lead to it",
        &["only nodes whose predecessors have no other successors are checked, and whose edges cross nothing", "below an even number of predecessors either one of the two in the middle will do"],
    )
}
fn main() {
    mc::engine::main("L21", plan_)
}
