//! D03: ranks are the lengths of the longest paths.
use mc::dags::*;
use mc::engine::*;

/// A DAG over n nodes: per pair 0..=mult parallel edges, node names permuted,
/// optionally edges listed backwards.
fn case(n: usize, mult: usize, perms: bool, i: u64) -> (usize, Edges) {
    let ps = pairs(n);
    let np = (mult as u64 + 1).pow(ps.len() as u32);
    let (mut sub, rest) = (i % np, i / np);
    let pm = if perms { perm(rest % fact(n), n) } else { (0..n).collect() };
    let rev = (if perms { rest / fact(n) } else { rest }) == 1;
    let mut e = Vec::new();
    for &(a, b) in &ps {
        for _ in 0..sub % (mult as u64 + 1) {
            e.push((pm[a], pm[b]));
        }
        sub /= mult as u64 + 1;
    }
    if rev {
        e.reverse();
    }
    (n, e)
}
fn run(n: usize, e: &Edges, c: &mut Ctx) -> Result<(), String> {
    c.state(h(&(n, e)));
    c.transitions += e.len() as u64;
    let mut d = dag(n, e);
    for round in 0..2 {
        d.recompute_node_ranks();
        let r = rows(&d);
        let l = level_of(&r, n)?;
        if l != longest(n, e) {
            return Err(format!("levels {:?}, longest paths {:?} (round {})", l, longest(n, e), round));
        }
        if r.iter().any(|x| x.is_empty()) {
            return Err(format!("empty rank in {:?}", r));
        }
        c.outcome(h(&r));
        d.verify();
        // Start the second round from other ranks.
        for i in 0..n {
            d.update_node_rank_level(hnd(i), (i * 2) % 3, None);
        }
    }
    for i in 0..n {
        let s: Vec<usize> = d.successors(hnd(i)).iter().map(|x| x.get_index()).collect();
        let w: Vec<usize> = e.iter().filter(|x| x.0 == i).map(|x| x.1).collect();
        let (mut s2, mut w2) = (s.clone(), w.clone());
        s2.sort();
        w2.sort();
        if s2 != w2 {
            return Err(format!("ranking changed the edges of {}: {:?}, expected {:?}", i, s, w));
        }
    }
    Ok(())
}
fn plan_(t: Tier) -> Plan {
    let fam = |name: &str, n: usize, mult: usize, perms: bool| {
        let np = (mult as u64 + 1).pow(pairs(n).len() as u32);
        let total = np * 2 * if perms { fact(n) } else { 1 };
        family(
            name,
            &format!("every acyclic graph of {} nodes with up to {} parallel edges per pair{}, edges added in both orders", n, mult, if perms { ", all numberings of the nodes" } else { "" }),
            total,
            move |i| format!("{:?}", case(n, mult, perms, i)),
            move |i, c| {
                let (n, e) = case(n, mult, perms, i);
                run(n, &e, c)
            },
        )
    };
    let mut f = vec![
        fam("n1", 1, 1, true),
        fam("n2", 2, 2, true),
        fam("n3", 3, 2, true),
        fam("n4", 4, 2, true),
        fam("n5", 5, 1, true),
        fam("n6", 6, 1, false),
        fam("n7", 7, 1, false),
    ];
    // Self edges do not change ranks.
    f.push(family(
        "self-edges",
        "every acyclic graph of 4 nodes, all numberings, with every subset of self edges",
        64 * 24 * 16,
        |i| format!("{:?} self edges {:b}", case(4, 1, true, i / 16), i % 16),
        |i, c| {
            let (n, mut e) = case(4, 1, true, i / 16 % (64 * 24));
            for k in 0..4 {
                if i % 16 & (1 << k) != 0 {
                    e.push((k, k));
                }
            }
            run(n, &e, c)
        },
    ));
    f.push(list("big", BIG_BOUND, big(t.pick(&[3, 5, 8, 11, 13, 17, 24, 33], &[3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 31, 33, 48, 63, 65, 99]), t.pick(70, 200), t.pick(300, 900)), run));
    f.push(list("huge", BIG_BOUND, big(t.pick(&[127, 128, 129, 254, 255, 256, 257, 258, 299], &[126, 127, 128, 129, 130, 199, 254, 255, 256, 257, 258, 299, 510, 512, 514, 600]), t.pick(300, 600), t.pick(700, 1800)), run));
    let n = t.pick(17, 24);
    f.push(list("sparse", &format!("every acyclic graph with 1 or 2 edges over {} nodes", n), sparse(n), run));
    if t == Tier::Thorough {
        f.push(fam("n6-perm", 6, 1, true));
        f.push(fam("n5-multi", 5, 2, true));
    }
    plan(
        f,
        "state = one acyclic multigraph with its numbering; transition = one edge added; ranks are recomputed twice (the second time from other ranks) and compared with the longest paths",
        &[],
    )
}
fn main() {
    mc::engine::main("D03", plan_)
}
