//! O01: the rank optimizer.
use layout::topo::optimizer::RankOptimizer;
use mc::dags::*;
use mc::engine::*;

fn edges(n: usize, mult: usize, pm: &[usize], mut sub: u64) -> Edges {
    let mut e = Vec::new();
    for (a, b) in pairs(n) {
        for _ in 0..sub % (mult as u64 + 1) {
            e.push((pm[a], pm[b]));
        }
        sub /= mult as u64 + 1;
    }
    e
}
fn ordered(i: u64) -> Edges {
    let mut e = edges(4, 4, &[0, 1, 2, 3], i % 5u64.pow(6));
    match i / 5u64.pow(6) {
        1 => e.reverse(),
        2 => e.sort_by_key(|x| (x.1, x.0)),
        3 => {
            // The parallel edges one after the other.
            let mut r = Edges::new();
            while !e.is_empty() {
                let mut d = e.clone();
                d.dedup();
                for x in &d {
                    let k = e.iter().position(|y| y == x).unwrap();
                    e.remove(k);
                }
                r.extend(d);
            }
            e = r;
        }
        _ => {}
    }
    e
}
fn length(e: &Edges, l: &[usize]) -> usize {
    e.iter().map(|(a, b)| l[*b] - l[*a]).sum()
}
fn run(n: usize, e: &Edges, c: &mut Ctx) -> Result<(), String> {
    c.state(h(&(n, e)));
    let mut d = dag(n, e);
    d.recompute_node_ranks();
    let before = level_of(&rows(&d), n)?;
    RankOptimizer::new(&mut d).optimize();
    let r = rows(&d);
    let l = level_of(&r, n)?;
    c.outcome(h(&l));
    c.transitions += l.iter().zip(&before).filter(|(a, b)| a != b).count() as u64 + 1;
    for &(a, b) in e {
        if l[a] >= l[b] {
            return Err(format!("edge {}->{} goes from rank {} to {} in {:?}", a, b, l[a], l[b], r));
        }
    }
    if length(e, &l) > length(e, &before) {
        return Err(format!("total edge length grew from {} to {}: {:?} to {:?}", length(e, &before), length(e, &l), before, l));
    }
    if r.len() > before.iter().max().unwrap() + 1 {
        return Err(format!("{} ranks instead of {}", r.len(), before.iter().max().unwrap() + 1));
    }
    if r.iter().any(|x| x.is_empty()) {
        return Err(format!("empty rank in {:?}", r));
    }
    for i in 0..n {
        let mut s: Vec<usize> = d.successors(hnd(i)).iter().map(|x| x.get_index()).collect();
        let mut w: Vec<usize> = e.iter().filter(|x| x.0 == i).map(|x| x.1).collect();
        s.sort();
        w.sort();
        if s != w {
            return Err(format!("edges of {} changed to {:?}", i, s));
        }
        // Nothing is left to gain by moving a node down.
        let outs: Vec<usize> = e.iter().filter(|x| x.0 == i).map(|x| l[x.1]).collect();
        let ins = e.iter().filter(|x| x.1 == i).count();
        if outs.len() > ins && *outs.iter().min().unwrap() > l[i] + 1 {
            return Err(format!("moving node {} down still shortens edges: ranks {:?}", i, r));
        }
    }
    RankOptimizer::new(&mut d).optimize();
    let again = level_of(&rows(&d), n)?;
    if length(e, &again) > length(e, &l) {
        return Err("a second run made the edges longer".into());
    }
    Ok(())
}
fn plan_(t: Tier) -> Plan {
    let fam = |name: &str, n: usize, mult: usize, perms: bool| {
        let np = (mult as u64 + 1).pow(pairs(n).len() as u32);
        let total = np * if perms { fact(n) } else { 2 };
        let get = move |i: u64| {
            let pm = if perms {
                perm(i / np, n)
            } else if i / np == 0 {
                (0..n).collect()
            } else {
                (0..n).rev().collect()
            };
            edges(n, mult, &pm, i % np)
        };
        family(
            name,
            &format!("every acyclic graph of {} nodes with up to {} parallel edges per pair, {}", n, mult, if perms { "all numberings of the nodes" } else { "numbered along and against the edges" }),
            total,
            move |i| format!("{} nodes {:?}", n, get(i)),
            move |i, c| run(n, &get(i), c),
        )
    };
    let mut f = vec![
        fam("n1", 1, 1, true),
        fam("n2", 2, 3, true),
        fam("n3", 3, 3, true),
        fam("n4", 4, 2, true),
        fam("n5", 5, 1, true),
        fam("n5-multi", 5, 2, false),
        fam("n6", 6, 1, false),
        fam("n7", 7, 1, false),
        fam("n5-multi-perm", 5, 2, true),
    ];
    f.push(list("big", BIG_BOUND, big(t.pick(&[3, 5, 8, 11, 13, 17, 24, 33], &[3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 31, 33, 48, 63, 65, 99]), t.pick(70, 200), t.pick(300, 900)), run));
    let n = t.pick(14, 20);
    f.push(list("sparse", &format!("every acyclic graph with 1 or 2 edges over {} nodes", n), sparse(n), run));
    f.push(family(
        "orders",
        "every acyclic graph of 4 nodes with up to 4 parallel edges per pair, the edges listed in 4 orders",
        5u64.pow(6) * 4,
        |i| format!("{:?}", ordered(i)),
        |i, c| run(4, &ordered(i), c),
    ));
    if t == Tier::Thorough {
        f.push(fam("n6-perm", 6, 1, true));
        f.push(fam("n6-multi", 6, 2, false));
    }
    plan(
        f,
        "state = one acyclic multigraph with its numbering; transition = one node moved to another rank by the optimizer; the ranks before and after are compared",
        &["the optimizer starts from the ranks of recompute_node_ranks, as in the pipeline"],
    )
}
fn main() {
    mc::engine::main("O01", plan_)
}
