//! D02: the ranked DAG against a reference model, over operation sequences.
use layout::adt::dag::DAG;
use mc::dags::*;
use mc::engine::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    New,
    Add(usize, usize),
    Remove(usize, usize),
    Recompute,
    /// Move to a level, in front of a node or at the end.
    Move(usize, usize, Option<usize>),
}

/// The operations over `n` node names and `l` levels.
fn ops(n: usize, l: usize, back: bool) -> Vec<Op> {
    let mut r = vec![Op::New, Op::Recompute];
    for i in 0..n {
        for j in 0..n {
            if back || i < j {
                r.push(Op::Add(i, j));
                r.push(Op::Remove(i, j));
            }
        }
        for k in 0..l {
            r.push(Op::Move(i, k, None));
        }
        for m in 0..n {
            if m != i {
                // The level is the one of the marker.
                r.push(Op::Move(i, usize::MAX, Some(m)));
            }
        }
    }
    r
}

#[derive(Clone, Debug, Hash, Default)]
struct Model {
    n: usize,
    edges: Vec<(usize, usize)>,
    rows: Vec<Vec<usize>>,
}
impl Model {
    fn level(&self, x: usize) -> usize {
        self.rows.iter().position(|r| r.contains(&x)).unwrap()
    }
    fn take(&mut self, x: usize) {
        for r in self.rows.iter_mut() {
            r.retain(|y| *y != x);
        }
    }
}
fn trim(r: &[Vec<usize>]) -> Vec<Vec<usize>> {
    let mut v = r.to_vec();
    while v.last().map(|x| x.is_empty()).unwrap_or(false) {
        v.pop();
    }
    v
}

fn compare(d: &DAG, m: &Model) -> Result<(), String> {
    if d.len() != m.n || d.is_empty() != (m.n == 0) {
        return Err(format!("{} nodes, expected {}", d.len(), m.n));
    }
    let it: Vec<usize> = d.iter().map(|x| x.get_index()).collect();
    if it != (0..m.n).collect::<Vec<_>>() {
        return Err(format!("iterates over {:?}", it));
    }
    let r = rows(d);
    if trim(&r) != trim(&m.rows) {
        return Err(format!("ranks {:?}, expected {:?}", r, m.rows));
    }
    if d.num_levels() != r.len() {
        return Err(format!("{} levels, expected {}", d.num_levels(), r.len()));
    }
    let reach = closure(m.n, &m.edges);
    for i in 0..m.n {
        let mut s: Vec<usize> = d.successors(hnd(i)).iter().map(|x| x.get_index()).collect();
        let mut p: Vec<usize> = d.predecessors(hnd(i)).iter().map(|x| x.get_index()).collect();
        s.sort();
        p.sort();
        let mut ws: Vec<usize> = m.edges.iter().filter(|e| e.0 == i).map(|e| e.1).collect();
        let mut wp: Vec<usize> = m.edges.iter().filter(|e| e.1 == i).map(|e| e.0).collect();
        ws.sort();
        wp.sort();
        if s != ws || p != wp {
            return Err(format!("node {} has successors {:?} and predecessors {:?}, expected {:?} and {:?}", i, s, p, ws, wp));
        }
        let one = |v: &Vec<usize>| if v.len() == 1 { Some(hnd(v[0])) } else { None };
        if d.single_succ(hnd(i)) != one(&ws) || d.single_pred(hnd(i)) != one(&wp) {
            return Err(format!("node {} single successor {:?}, single predecessor {:?}", i, d.single_succ(hnd(i)), d.single_pred(hnd(i))));
        }
        let l = m.level(i);
        if d.level(hnd(i)) != l {
            return Err(format!("node {} on level {}, expected {}", i, d.level(hnd(i)), l));
        }
        for k in 0..r.len() + 1 {
            let (f, z) = match m.rows.get(k) {
                Some(x) => (x.first() == Some(&i), x.last() == Some(&i)),
                None => (false, false),
            };
            if d.is_first_in_row(hnd(i), k) != f || d.is_last_in_row(hnd(i), k) != z {
                return Err(format!("node {} first/last in row {}: {}/{}", i, k, d.is_first_in_row(hnd(i), k), d.is_last_in_row(hnd(i), k)));
            }
        }
        for j in 0..m.n {
            if d.is_reachable(hnd(i), hnd(j)) != reach[i][j] {
                return Err(format!("{} reaches {}: {}, expected {}", i, j, !reach[i][j], reach[i][j]));
            }
        }
    }
    // The verifier finds cycles, and nothing else.
    let bad = guard(|| d.verify()).is_err();
    let want = cyclic(m.n, &m.edges);
    if bad != want {
        return Err(format!("the verifier rejected: {}, expected {}", bad, want));
    }
    Ok(())
}

fn run(start: usize, ops: &[Op], c: &mut Ctx) -> Result<(), String> {
    let mut d = DAG::new();
    let mut m = Model::default();
    if start > 0 {
        d.new_nodes(start);
        m.n = start;
        m.rows = vec![(0..start).collect()];
    }
    compare(&d, &m).map_err(|e| format!("at the start: {}", e))?;
    for (step, op) in ops.iter().enumerate() {
        match *op {
            Op::New => {
                let x = d.new_node();
                if x.get_index() != m.n {
                    return Err(format!("new node is {}", x.get_index()));
                }
                if m.rows.is_empty() {
                    m.rows.push(vec![]);
                }
                m.rows[0].push(m.n);
                m.n += 1;
            }
            Op::Add(a, b) => {
                if a >= m.n || b >= m.n {
                    return Ok(());
                }
                d.add_edge(hnd(a), hnd(b));
                m.edges.push((a, b));
            }
            Op::Remove(a, b) => {
                if a >= m.n || b >= m.n {
                    return Ok(());
                }
                let got = d.remove_edge(hnd(a), hnd(b));
                let pos = m.edges.iter().position(|e| *e == (a, b));
                if let Some(p) = pos {
                    m.edges.remove(p);
                }
                if got != pos.is_some() {
                    return Err(format!("removing {}->{} said {}", a, b, got));
                }
            }
            Op::Recompute => {
                if m.n == 0 || cyclic(m.n, &m.edges) {
                    return Ok(());
                }
                d.recompute_node_ranks();
                let r = rows(&d);
                if level_of(&r, m.n)? != longest(m.n, &m.edges) {
                    return Err(format!("ranks {:?} are not the longest paths {:?}", r, longest(m.n, &m.edges)));
                }
                // The order in a fresh rank is not specified.
                m.rows = r;
            }
            Op::Move(x, l, before) => {
                if x >= m.n || before.map(|b| b >= m.n).unwrap_or(false) {
                    return Ok(());
                }
                let l = before.map(|b| m.level(b)).unwrap_or(l);
                d.update_node_rank_level(hnd(x), l, before.map(hnd));
                m.take(x);
                while m.rows.len() <= l {
                    m.rows.push(vec![]);
                }
                let at = before.map(|b| m.rows[l].iter().position(|y| *y == b).unwrap()).unwrap_or(m.rows[l].len());
                m.rows[l].insert(at, x);
            }
        }
        c.transitions += 1;
        c.state(h(&m));
        compare(&d, &m).map_err(|e| format!("after step {} {:?}: {}", step + 1, op, e))?;
    }
    c.outcome(h(&m));
    d.clear();
    compare(&d, &Model::default()).map_err(|e| format!("after clear: {}", e))
}

fn plan_(t: Tier) -> Plan {
    let fam = |name: &str, start: usize, n: usize, l: usize, back: bool, len: usize| {
        let o = ops(n, l, back);
        let total = (o.len() as u64).pow(len as u32);
        let o2 = o.clone();
        let dec = move |i: u64| digits(i, o2.len(), len).into_iter().map(|x| o2[x]).collect::<Vec<_>>();
        let dec2 = dec.clone();
        family(
            name,
            &format!("{} nodes, then every sequence of {} of the {} operations {:?}", start, len, o.len(), o),
            total,
            move |i| format!("{} nodes {:?}", start, dec(i)),
            move |i, c| run(start, &dec2(i), c),
        )
    };
    plan(
        vec![
            fam("two-nodes", 2, 2, 3, true, t.pick(5, 6)),
            fam("three-nodes", 3, 3, 2, false, t.pick(4, 5)),
            fam("four-nodes", 4, 4, 3, false, t.pick(3, 4)),
            fam("cyclic", 3, 3, 1, true, t.pick(3, 4)),
            fam("from-nothing", 0, 2, 2, false, t.pick(6, 7)),
        ],
        "state = (nodes, multiset of edges, order of every rank) of the reference model; transition = one operation, after which every query of the real structure (edges, reachability, levels, first/last in row, single neighbours, the verifier) is compared for all arguments",
        &["a sequence stops where an operation names a node that does not exist, or ranks are recomputed for a cyclic or empty graph"],
    )
}
fn main() {
    mc::engine::main("D02", plan_)
}
