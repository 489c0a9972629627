//! L11: the ranks of the drawing, and the order within them.
use layout::adt::dag::NodeHandle;
use layout::core::format::Visible;
use mc::dags::{cyclic, longest, Edges};
use mc::engine::*;
use mc::gen::*;
use mc::rec::draw_vg;

/// The total length in ranks of the edges of a graph.
fn length(lvl: &[usize], e: &Edges) -> usize {
    e.iter().map(|(a, b)| lvl[*a].abs_diff(lvl[*b])).sum()
}
fn levels(vg: &layout::topo::layout::VisualGraph, n: usize) -> Vec<usize> {
    (0..n).map(|i| vg.dag.level(NodeHandle::new(i))).collect()
}

fn run(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let d = draw_vg(c.build()?, c.flags);
    let vg = d.vg;
    let dag = &vg.dag;
    x.transitions += c.size();
    x.state(h(&c.show()));
    // Every element is in one row, and rows are drawn in their order.
    let mut seen = vec![0; vg.num_nodes()];
    for r in 0..dag.num_levels() {
        let row = dag.row(r);
        for k in row {
            seen[k.get_index()] += 1;
            if dag.level(*k) != r {
                return Err(format!("element {} of row {} has the rank {}", k.get_index(), r, dag.level(*k)));
            }
        }
        for w in row.windows(2) {
            let (a, b) = (vg.element(w[0]).position(), vg.element(w[1]).position());
            let ok = if c.lr { a.center().y < b.center().y && a.bbox(false).1.y <= b.bbox(false).0.y + 1e-6 } else { a.center().x < b.center().x && a.bbox(false).1.x <= b.bbox(false).0.x + 1e-6 };
            if !ok {
                return Err(format!("elements {} and {} of row {} are drawn at {:?} and {:?}, not in their order", w[0].get_index(), w[1].get_index(), r, a.bbox(false), b.bbox(false)));
            }
        }
    }
    if let Some(i) = seen.iter().position(|k| *k != 1) {
        return Err(format!("element {} is in {} rows", i, seen[i]));
    }
    // Connections lead from one row to the next.
    for k in vg.iter_nodes() {
        for s in vg.succ(k) {
            if dag.level(*s) != dag.level(k) + 1 {
                return Err(format!("a connection leads from row {} to row {}", dag.level(k), dag.level(*s)));
            }
        }
    }
    // The ranks of acyclic graphs are known.
    let e: Edges = c.edges.iter().copied().filter(|(a, b)| a != b).collect();
    if cyclic(c.n, &e) {
        return Ok(());
    }
    // Labels take a rank of their own.
    let mut long = Edges::new();
    let mut n = c.n;
    for (k, (a, b)) in c.edges.iter().enumerate() {
        if a == b {
            continue;
        }
        if c.has_label(k) {
            long.extend([(*a, n), (n, *b)]);
            n += 1;
        } else {
            long.push((*a, *b));
        }
    }
    let want = longest(n, &long);
    let got = levels(&vg, c.n);
    if c.flags.no_opt {
        if got != want[..c.n] {
            return Err(format!("without optimization the ranks of the nodes are {:?}, expected {:?}", got, &want[..c.n]));
        }
    } else {
        for (i, l) in got.iter().enumerate() {
            if *l < want[i] {
                return Err(format!("n{} has the rank {}, but a path of length {} leads to it", i, l, want[i]));
            }
        }
        if length(&got, &e) > length(&want, &e) {
            return Err(format!("the edges span {} ranks with optimization and {} without", length(&got, &e), length(&want, &e)));
        }
    }
    let last = want.iter().max().unwrap();
    let rows = (0..dag.num_levels()).filter(|r| !dag.row(*r).is_empty()).count();
    if rows != last + 1 || dag.num_levels() != rows {
        return Err(format!("{} rows ({} not empty), expected {}", dag.num_levels(), rows, last + 1));
    }
    x.outcome(h(&got));
    Ok(())
}
fn plan_(t: Tier) -> Plan {
    let mut f: Vec<Family> = vec![];
    for g in standard(t) {
        f.push(fam(g, run));
    }
    f.push(fam(acyclic(6, false, t.pick(&[0, 2], PLAIN)), run));
    f.push(fam(acyclic(4, true, PLAIN), run));
    plan(
        f,
        "state = one graph with its styles and options; transition = one node or edge laid out; the rows of the layered graph are compared with the places in the drawing, and for acyclic graphs with the longest paths (labels counted as elements)",
        &["the ranks of graphs with cycles are only checked for consistency"],
    )
}
fn main() {
    mc::engine::main("L11", plan_)
}
