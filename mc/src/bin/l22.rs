//! L22: self edges stand beside their nodes.
use layout::adt::dag::NodeHandle;
use layout::core::format::Visible;
use layout::std_shapes::shapes::ShapeKind;
use mc::engine::*;
use mc::gen::*;
use mc::rec::draw_vg;

fn run(c: &Case, x: &mut Ctx) -> Result<(), String> {
    if c.edges.iter().all(|(a, b)| a != b) {
        x.skip("no self edges");
        return Ok(());
    }
    x.state(h(&c.show()));
    let vg = draw_vg(c.build()?, c.flags).vg;
    let dag = &vg.dag;
    // From the left to the right side with the margin.
    let span = |k: NodeHandle| {
        let b = vg.element(k).position().bbox(true);
        if c.lr {
            (b.0.y, b.1.y)
        } else {
            (b.0.x, b.1.x)
        }
    };
    for v in 0..c.n {
        let own: Vec<usize> = (0..c.edges.len()).filter(|k| c.edges[*k] == (v, v)).collect();
        let node = NodeHandle::new(v);
        let row = dag.row(dag.level(node));
        let at = row.iter().position(|k| *k == node).unwrap();
        if at < own.len() {
            return Err(format!("n{} has {} self edges, but {} elements are before it", v, own.len(), at));
        }
        let mut texts = vec![];
        for i in (at - own.len()..at).rev() {
            let (l, r) = (span(row[i]), span(row[i + 1]));
            x.transitions += 1;
            let ShapeKind::Connector(t) = &vg.element(row[i]).shape else {
                return Err(format!("n{} has {} self edges, but the elements before it are others", v, own.len()));
            };
            if !dag.predecessors(row[i]).is_empty() || !dag.successors(row[i]).is_empty() {
                return Err(format!("n{} has {} self edges, but the bends before it are of other edges", v, own.len()));
            }
            texts.extend(t.clone());
            let gap = r.0 - l.1;
            if gap.abs() > 0.01 {
                return Err(format!("a self edge of n{} bends {} pixels away from what is beside it", v, gap));
            }
        }
        // The labels are those of the node.
        let want: Vec<usize> = own.iter().copied().filter(|k| c.has_label(*k)).collect();
        for k in &want {
            let name = format!("e{}", k);
            if !texts.iter().any(|t| t.split(|c: char| !c.is_ascii_alphanumeric()).any(|w| w == name)) {
                return Err(format!("the label of e{} is not beside n{}: {:?}", k, v, texts));
            }
        }
        x.outcome(h(&(own.len(), want.len())));
    }
    Ok(())
}

/// Rows of nodes of which some have self edges, and a node that pulls them.
fn loops(n: usize, styles: &'static [usize], modes: &'static [usize]) -> Gen {
    let z = 4u64.pow(n as u32);
    let s = styles.len() as u64;
    gen(&format!("loops-{}", n), &format!("{} nodes in a row, each with no, one labelled, one bare or three self edges, tied to the nodes of the next row in one of 4 ways, with {} styles of labels", n, s), z * s * 4 * modes.len() as u64, move |i| {
        let (m, i) = (modes[(i % modes.len() as u64) as usize], i / modes.len() as u64);
        let (l, i) = (styles[(i % s) as usize], i / s);
        let (tie, mut i) = (i % 4, i / 4);
        let mut c = Case::new(n + 3, vec![]);
        let put = |c: &mut Case, a: usize, b: usize, s: usize| {
            c.edges.push((a, b));
            c.estyle.push(s);
        };
        for v in 0..n {
            match i % 4 {
                0 => {}
                1 => put(&mut c, v, v, l),
                2 => put(&mut c, v, v, 0),
                _ => {
                    put(&mut c, v, v, l);
                    put(&mut c, v, v, 0);
                    put(&mut c, v, v, 1);
                }
            }
            i /= 4;
        }
        for v in 0..n {
            let to = match tie {
                0 => continue,
                1 => n + 2 * (v % 2),
                2 if v + 1 == n => n,
                2 => continue,
                _ => n + v * 3 / n,
            };
            put(&mut c, v, to, 0);
        }
        c.nstyle[n] = 11;
        c.nstyle[n + 1] = 2;
        apply(&mut c, m);
        c
    })
}
/// The same, many ranks below the first one.
fn below(g: Gen, ranks: usize) -> Gen {
    let of = g.get;
    gen(&format!("{}-below-{}", g.name, ranks), &format!("{}, {} ranks below the first one", g.bound, ranks), g.total, move |i| {
        let mut c = of(i);
        let first = c.n;
        c.n += ranks;
        c.nstyle.resize(c.n, 0);
        for k in 0..ranks - 1 {
            c.edges.push((first + k, first + k + 1));
            c.estyle.push(0);
        }
        for v in 0..2 {
            c.edges.push((c.n - 1, v));
            c.estyle.push(0);
        }
        c
    })
}
fn plan_(t: Tier) -> Plan {
    let mut f = standard_families(t, run);
    f.push(fam(loops(3, &[1, 2, 3], PLAIN), run));
    f.push(fam(loops(5, &[1, 2], t.pick(&[0, 1, 2], PLAIN)), run));
    f.push(fam(below(loops(2, &[1, 2, 3], PLAIN), 40), run));
    if t == Tier::Thorough {
        f.push(fam(below(loops(3, &[1, 2, 3], PLAIN), 100), run));
        f.push(fam(loops(7, &[2], &[0, 1, 2]), run));
    }
    plan(
        f,
        "state = one graph with self edges, its styles and options; transition = one self edge whose place is compared with that of its node",
        &[],
    )
}
fn main() {
    mc::engine::main("L22", plan_)
}
