//! Small graphs, enumerated.
use layout::adt::dag::{NodeHandle, DAG};

pub fn hnd(i: usize) -> NodeHandle {
    NodeHandle::new(i)
}

/// The pairs (i,j), i<j, of n nodes.
pub fn pairs(n: usize) -> Vec<(usize, usize)> {
    let mut r = Vec::new();
    for i in 0..n {
        for j in i + 1..n {
            r.push((i, j));
        }
    }
    r
}

/// The idx-th permutation of 0..n.
pub fn perm(mut idx: u64, n: usize) -> Vec<usize> {
    let mut items: Vec<usize> = (0..n).collect();
    let mut r = Vec::new();
    for k in (1..=n).rev() {
        r.push(items.remove((idx % k as u64) as usize));
        idx /= k as u64;
    }
    r
}
pub fn fact(n: usize) -> u64 {
    (1..=n as u64).product()
}

pub type Edges = Vec<(usize, usize)>;

/// Is `b` reachable from `a` (every node from itself)?
pub fn closure(n: usize, e: &Edges) -> Vec<Vec<bool>> {
    let mut r = vec![vec![false; n]; n];
    for i in 0..n {
        r[i][i] = true;
    }
    for &(a, b) in e {
        r[a][b] = true;
    }
    for k in 0..n {
        for i in 0..n {
            for j in 0..n {
                r[i][j] |= r[i][k] && r[k][j];
            }
        }
    }
    r
}
/// Has the graph a cycle, self edges aside?
pub fn cyclic(n: usize, e: &Edges) -> bool {
    let c = closure(n, e);
    e.iter().any(|&(a, b)| a != b && c[b][a])
}
/// Length of the longest path that ends in each node (self edges aside).
pub fn longest(n: usize, e: &Edges) -> Vec<usize> {
    let mut l = vec![0; n];
    for _ in 0..=n {
        for &(a, b) in e {
            if a != b {
                l[b] = l[b].max(l[a] + 1);
            }
        }
    }
    l
}
pub fn dag(n: usize, e: &Edges) -> DAG {
    let mut d = DAG::new();
    for _ in 0..n {
        d.new_node();
    }
    for &(a, b) in e {
        d.add_edge(hnd(a), hnd(b));
    }
    d
}
pub fn rows(d: &DAG) -> Vec<Vec<usize>> {
    d.ranks().iter().map(|r| r.iter().map(|x| x.get_index()).collect()).collect()
}
pub fn level_of(rows: &[Vec<usize>], n: usize) -> Result<Vec<usize>, String> {
    let mut l = vec![usize::MAX; n];
    for (i, r) in rows.iter().enumerate() {
        for &x in r {
            if x >= n || l[x] != usize::MAX {
                return Err(format!("node {} is not in exactly one place of {:?}", x, rows));
            }
            l[x] = i;
        }
    }
    if l.contains(&usize::MAX) {
        return Err(format!("a node is missing from {:?}", rows));
    }
    Ok(l)
}

/// Structured acyclic graphs of growing size: numbering of the nodes, order of
/// the edges and repeated edges by pattern.
pub fn big(sizes: &[usize], max_n: usize, max_e: usize) -> Vec<(usize, Edges)> {
    let mut v = Vec::new();
    let gcd = |mut a: usize, mut b: usize| {
        while b > 0 {
            (a, b) = (b, a % b);
        }
        a
    };
    for kind in [0, 3, 4, 5, 6, 7, 8, 10, 11, 12, 15, 16, 18] {
        for k in sizes {
            let Some(c) = crate::gen::structure(kind, *k) else { continue };
            if c.n > max_n || c.edges.len() > max_e {
                continue;
            }
            let n = c.n;
            let stride = (2..n).rev().find(|s| gcd(*s, n) == 1 && *s * 3 < n * 2).unwrap_or(1);
            for num in 0..4 {
                let at = |i: usize| match num {
                    0 => i,
                    1 => n - 1 - i,
                    2 => (i + n / 2) % n,
                    _ => i * stride % n,
                };
                for mult in 0..4 {
                    let mut e = Edges::new();
                    for (x, (a, b)) in c.edges.iter().enumerate() {
                        let times = match mult {
                            0 => 1,
                            1 => [3, 1][x % 2],
                            2 => [1, 2, 4, 1, 1][x % 5],
                            _ => 6,
                        };
                        for _ in 0..times {
                            e.push((at(*a), at(*b)));
                        }
                    }
                    for order in 0..3 {
                        let mut e = e.clone();
                        match order {
                            1 => e.reverse(),
                            2 => {
                                let m = e.len() / 2;
                                let b = e.split_off(m);
                                let mut r = Edges::new();
                                for x in 0..b.len() {
                                    r.push(b[x]);
                                    r.extend(e.get(x));
                                }
                                e = r;
                            }
                            _ => {}
                        }
                        v.push((n, e));
                    }
                }
            }
        }
    }
    v.dedup();
    v
}
/// Every acyclic graph with one or two edges over n nodes.
pub fn sparse(n: usize) -> Vec<(usize, Edges)> {
    let mut v = Vec::new();
    let all: Vec<(usize, usize)> = (0..n * n).map(|x| (x / n, x % n)).filter(|(a, b)| a != b).collect();
    for a in &all {
        v.push((n, vec![*a]));
        for b in &all {
            if (a.1, a.0) != *b {
                v.push((n, vec![*a, *b]));
            }
        }
    }
    v
}
pub fn list(name: &str, bound: &str, l: Vec<(usize, Edges)>, run: fn(usize, &Edges, &mut crate::engine::Ctx) -> Result<(), String>) -> crate::engine::Family {
    let l = std::sync::Arc::new(l);
    let l2 = l.clone();
    crate::engine::family(
        name,
        bound,
        l.len() as u64,
        move |i| format!("{} nodes {:?}", l[i as usize].0, l[i as usize].1),
        move |i, c| run(l2[i as usize].0, &l2[i as usize].1, c),
    )
}
pub const BIG_BOUND: &str = "chains, stars, trees, diamonds, ladders, complete, bipartite and grid graphs, long edges, crossing fans and components of growing size, each with 4 numberings of the nodes, 4 patterns of repeated edges and 3 orders of the edges";
