//! O02: the edge crossing optimizer.
use layout::adt::dag::DAG;
use layout::topo::optimizer::EdgeCrossOptimizer;
use mc::dags::*;
use mc::engine::*;

/// Rank and place of every node.
fn places(r: &[Vec<usize>]) -> Vec<(usize, usize)> {
    let mut at = vec![(0, 0); r.iter().map(|x| x.len()).sum()];
    for (k, row) in r.iter().enumerate() {
        for (i, x) in row.iter().enumerate() {
            at[*x] = (k, i);
        }
    }
    at
}
/// Crossings between neighbouring ranks, counted from the definition.
fn crossings(r: &[Vec<usize>], e: &Edges) -> usize {
    let at = places(r);
    let mut sum = 0;
    for k in 1..r.len() {
        let seg: Vec<(usize, usize)> = e.iter().filter(|x| at[x.0].0 + 1 == k && at[x.1].0 == k).map(|(a, b)| (at[*a].1, at[*b].1)).collect();
        for i in 0..seg.len() {
            for j in i + 1..seg.len() {
                let (p, q) = (seg[i], seg[j]);
                if (p.0 < q.0 && p.1 > q.1) || (p.0 > q.0 && p.1 < q.1) {
                    sum += 1;
                }
            }
        }
    }
    sum
}
/// Does swapping two neighbours remove crossings? Only those between the edges
/// of the two change.
fn improvable(r: &[Vec<usize>], e: &Edges) -> bool {
    let at = places(r);
    let mut next = vec![Vec::new(); at.len()];
    for &(a, b) in e {
        next[a].push((1, at[b].1));
        next[b].push((0, at[a].1));
    }
    r.iter().any(|row| {
        row.windows(2).any(|w| {
            let mut gain = 0i64;
            for (s, p) in &next[w[0]] {
                for (t, q) in &next[w[1]] {
                    if s == t {
                        gain += (p > q) as i64 - (p < q) as i64;
                    }
                }
            }
            gain > 0
        })
    })
}

/// Ranks of the given sizes; edges between neighbouring ranks by bit mask.
fn graph(sizes: &[usize], mask: u64) -> (Vec<Vec<usize>>, Edges) {
    let mut rows = Vec::new();
    let mut n = 0;
    for s in sizes {
        rows.push((n..n + s).collect::<Vec<_>>());
        n += s;
    }
    let mut e = Vec::new();
    let mut bit = 0;
    for w in rows.windows(2) {
        for &a in &w[0] {
            for &b in &w[1] {
                if mask & (1 << bit) != 0 {
                    e.push((a, b));
                }
                bit += 1;
            }
        }
    }
    (rows, e)
}
fn bits(sizes: &[usize]) -> u32 {
    sizes.windows(2).map(|w| (w[0] * w[1]) as u32).sum()
}

fn run(rows0: &[Vec<usize>], e: &Edges, c: &mut Ctx) -> Result<(), String> {
    c.state(h(&(rows0, e)));
    let n: usize = rows0.iter().map(|x| x.len()).sum();
    let mut d: DAG = dag(n, e);
    for (k, r) in rows0.iter().enumerate() {
        for x in r {
            d.update_node_rank_level(hnd(*x), k, None);
        }
    }
    if rows(&d) != rows0 {
        return Err(format!("could not set up the ranks: {:?}", rows(&d)));
    }
    let before = crossings(rows0, e);
    EdgeCrossOptimizer::new(&mut d).optimize();
    let r = rows(&d);
    let after = crossings(&r, e);
    c.transitions += 1 + (r != rows0) as u64;
    c.outcome(h(&r));
    if r.len() != rows0.len() {
        return Err(format!("{} ranks became {}", rows0.len(), r.len()));
    }
    for (a, b) in rows0.iter().zip(&r) {
        let (mut a, mut b) = (a.clone(), b.clone());
        a.sort();
        b.sort();
        if a != b {
            return Err(format!("ranks {:?} became {:?}", rows0, r));
        }
    }
    if after > before {
        return Err(format!("crossings grew from {} to {}: {:?} to {:?}", before, after, rows0, r));
    }
    if before == 0 && r != rows0 {
        return Err(format!("an order without crossings is changed: {:?} to {:?}", rows0, r));
    }
    if after == before && r != rows0 {
        return Err(format!("the order is changed but has {} crossings as before: {:?} to {:?}", before, rows0, r));
    }
    if before > 0 && improvable(rows0, e) && after >= before {
        return Err(format!("{} crossings stay although swapping two neighbours removes some: {:?}", before, r));
    }
    if after > 0 {
        c.note("crossings left", 1);
    }
    for i in 0..n {
        let s: Vec<usize> = d.successors(hnd(i)).iter().map(|x| x.get_index()).collect();
        let w: Vec<usize> = e.iter().filter(|x| x.0 == i).map(|x| x.1).collect();
        if s != w {
            return Err(format!("edges of {} changed to {:?}", i, s));
        }
    }
    Ok(())
}
/// The same with none, one or two edges from each node to each of the next rank.
fn doubled(sizes: &[usize], i: u64) -> (Vec<Vec<usize>>, Edges) {
    let (rows, all) = graph(sizes, u64::MAX);
    let times = digits(i, 3, all.len());
    (rows, all.iter().zip(times).flat_map(|(x, n)| vec![*x; n]).collect())
}
/// Wide rows and many of them: crossings by pattern.
fn stretched(i: u64, max: usize) -> Option<(Vec<Vec<usize>>, Edges)> {
    let d = mixed(i, &[PATTERNS, WIDE, TALL]);
    let (p, w, l) = (d[0], d[1] + 2, [2, 3, 4, 5, 6, 8, 12, 13, 16, 17, 24, 33, 40, 65][d[2]]);
    if w * l > max {
        return None;
    }
    let mut rows = Vec::new();
    let mut n = 0;
    for k in 0..l {
        let z = if p == 13 && k % 2 == 1 { 2 } else { w };
        rows.push((n..n + z).collect::<Vec<_>>());
        n += z;
    }
    let mut e = Edges::new();
    for k in 0..l - 1 {
        let (a, b) = (&rows[k], &rows[k + 1]);
        let last = k + 2 == l;
        for i in 0..a.len() {
            let m = b.len();
            let to: Vec<usize> = match p {
                0 => vec![m - 1 - i],
                1 => vec![(i + 1) % m],
                2 => vec![(i + m / 2) % m],
                3 => vec![i ^ 1],
                4 => vec![if last && i + 2 >= m { 2 * m - 3 - i } else { i }],
                5 => vec![if k == 0 && i < 2 { 1 - i } else { i }],
                6 => vec![if last { m - 1 - i } else { i }],
                7 => vec![i, (i + 2) % m],
                8 => vec![if i + 1 == m { 0 } else { m - 1 }],
                9 => (0..m).filter(|j| (i + j) % 3 == 0).collect(),
                10 => vec![i / 2 * 2 + 1, m - 1 - i],
                11 => if i == m / 2 || i + 1 == m { vec![m - 1 - i] } else { vec![] },
                12 => if k == l / 2 && i < 2 { vec![1 - i] } else if i > m / 2 { vec![i] } else { vec![] },
                13 => (0..m).filter(|j| if m == 2 { *j == (i + 1) % 2 } else { (i + j) % 2 == 0 }).collect(),
                _ => vec![(i * 3 + 1) % m],
            };
            for j in to {
                if j < m && !e.contains(&(a[i], b[j])) {
                    e.push((a[i], b[j]));
                }
            }
        }
    }
    Some((rows, e))
}
const PATTERNS: usize = 15;
const WIDE: usize = 44;
const TALL: usize = 14;

fn plan_(t: Tier) -> Plan {
    let fam = |sizes: &'static [usize]| {
        family(
            &format!("ranks-{}", sizes.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("-")),
            &format!("every set of edges between neighbouring ranks of sizes {:?}", sizes),
            1 << bits(sizes),
            move |i| format!("ranks and edges {:?}", graph(sizes, i)),
            move |i, c| {
                let (r, e) = graph(sizes, i);
                run(&r, &e, c)
            },
        )
    };
    let twice = |sizes: &'static [usize]| {
        family(
            &format!("parallel-{}", sizes.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("-")),
            &format!("none, one or two edges between any nodes of neighbouring ranks of sizes {:?}", sizes),
            3u64.pow(bits(sizes)),
            move |i| format!("ranks and edges {:?}", doubled(sizes, i)),
            move |i, c| {
                let (r, e) = doubled(sizes, i);
                run(&r, &e, c)
            },
        )
    };
    let mut f: Vec<Family> = vec![
        twice(&[2, 2]),
        twice(&[2, 3]),
        twice(&[3, 2]),
        twice(&[3, 3]),
        twice(&[2, 2, 2]),
        twice(&[2, 4]),
        fam(&[1]),
        fam(&[3]),
        fam(&[1, 1]),
        fam(&[2, 2]),
        fam(&[1, 4]),
        fam(&[4, 2]),
        fam(&[3, 3]),
        fam(&[3, 4]),
        fam(&[2, 6]),
        fam(&[2, 2, 2]),
        fam(&[2, 3, 2]),
        fam(&[3, 2, 2]),
        fam(&[1, 3, 3]),
        fam(&[3, 2, 3]),
        fam(&[2, 2, 2, 2]),
        fam(&[1, 2, 1, 2, 1]),
        fam(&[4, 4]),
        fam(&[3, 3, 2]),
        fam(&[2, 2, 2, 2, 2]),
        fam(&[3, 5]),
        fam(&[3, 3, 3]),
        fam(&[2, 8]),
    ];
    let max = t.pick(160, 400);
    f.push(family(
        "stretched",
        &format!("15 patterns of edges (reversed, rotated, swapped, sparse, dense, ...) between 2 to 65 ranks of 2 to 45 nodes, up to {} nodes in all", max),
        (PATTERNS * WIDE * TALL) as u64,
        move |i| format!("ranks and edges {:?}", stretched(i, max)),
        move |i, c| match stretched(i, max) {
            Some((r, e)) => run(&r, &e, c),
            None => {
                c.skip("too many nodes");
                Ok(())
            }
        },
    ));
    if t == Tier::Thorough {
        f.push(twice(&[2, 3, 2]));
        f.push(twice(&[2, 2, 2, 2]));
        f.push(fam(&[4, 5]));
        f.push(fam(&[3, 3, 2, 2]));
        f.push(fam(&[3, 4, 3]));
        f.push(fam(&[5, 2, 2, 2]));
    }
    plan(
        f,
        "state = one ranked graph (order of every rank and set of edges); transition = one change of the order by the optimizer; crossings before and after are counted from the definition",
        &[],
    )
}
fn main() {
    mc::engine::main("O02", plan_)
}
