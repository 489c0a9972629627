//! L03: direction: edges go down the ranks, heads are at the declared end.
use mc::dags::closure;
use mc::engine::*;
use mc::gen::*;

fn run(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let d = c.drawn()?;
    x.transitions += c.edges.len() as u64;
    x.state(h(&c.show()));
    let reach = closure(c.n, &c.edges);
    for (k, &(a, b)) in c.edges.iter().enumerate() {
        let (na, nb) = (d.n(a), d.n(b));
        let (ta, tb) = if c.lr { (na.right(), nb.left()) } else { (na.bottom(), nb.top()) };
        if a != b && !reach[b][a] && ta > tb + 1e-6 {
            return Err(format!("e{} n{}->n{} does not go {}: {} {}", k, a, b, if c.lr { "right" } else { "down" }, ta, tb));
        }
        let e = d.e(k);
        let (p, q) = (e.first(), e.last());
        let fwd = na.on_outline(p) && nb.on_outline(q);
        let back = nb.on_outline(p) && na.on_outline(q);
        if !fwd && !back {
            return Err(format!("e{} n{}->n{} is drawn from {:?} to {:?}: not between its nodes", k, a, b, p, q));
        }
        let want = if !c.directed {
            (false, false)
        } else if fwd {
            (false, true)
        } else {
            (true, false)
        };
        if a == b {
            // Either end of a self edge will do.
            if c.directed && (e.head.0 == e.head.1) || (!c.directed && e.head != (false, false)) {
                return Err(format!("self edge e{} has heads {:?}", k, e.head));
            }
        } else if e.head != want {
            return Err(format!("e{} n{}->n{} has heads {:?} at {:?} and {:?}, expected {:?}", k, a, b, e.head, p, q, want));
        }
        x.outcome(h(&(fwd, e.head, c.lr)));
    }
    Ok(())
}
fn plan_(t: Tier) -> Plan {
    let mut f = standard_families(t, run);
    // The same graphs without directions.
    for g in [graphs(2, 2, PLAIN), graphs(3, 3, BOTH), labelled(3, 2, &[0, 1], BOTH)] {
        let get = g.get.clone();
        let g2 = gen(&format!("undirected-{}", g.name), &format!("{}, undirected", g.bound), g.total, move |i| {
            let mut c = get(i);
            c.directed = false;
            c
        });
        f.push(fam(g2, run));
    }
    plan(
        f,
        "state = one graph with its styles and options; transition = one edge drawn, compared with the reachability relation of the graph, the outlines of its nodes and its declared direction",
        &["edges on a cycle may be drawn either way"],
    )
}
fn main() {
    mc::engine::main("L03", plan_)
}
