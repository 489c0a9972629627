//! B05: programs that mean the same are drawn the same.
use mc::engine::*;
use mc::rec::{self, Call, Flags};

/// A program in parts, to be written in different ways.
#[derive(Clone, Debug)]
enum S {
    Node(&'static str, Attrs),
    /// Nodes with ports, joined.
    Edge(Vec<(&'static str, &'static str)>, Attrs),
    Default(&'static str, Attrs),
    Open,
    Close,
}
type Attrs = Vec<(&'static str, &'static str)>;

fn atoms() -> Vec<S> {
    use S::*;
    vec![
        Node("a", vec![]),
        Node("b", vec![("label", "x y"), ("shape", "box"), ("color", "red")]),
        Node("c", vec![("shape", "record"), ("label", "<p> u|{v|w}")]),
        Edge(vec![("a", ""), ("b", "")], vec![]),
        Edge(vec![("c", "p"), ("a", ""), ("d", "")], vec![("label", "t"), ("style", "dashed")]),
        Edge(vec![("b", ""), ("b", "")], vec![("color", "blue"), ("penwidth", "3")]),
        Edge(vec![("d", ""), ("c", "p"), ("a", ""), ("c", "")], vec![]),
        Default("node", vec![("shape", "box"), ("fontsize", "20")]),
        Default("edge", vec![("label", "e"), ("color", "green")]),
        Open,
        Close,
    ]
}

/// Ways of writing. Each is a bit.
const WAYS: &[&str] = &[
    "quoted names and values",
    "chains of edges written one by one",
    "one attribute list per attribute",
    "semicolons between attributes",
    "the attributes of a list in reverse",
    "comments and line breaks between all tokens",
    "no semicolons",
    "a strict graph with a name",
    "the whole body in a subgraph",
    "every attribute overridden by itself",
    "every node mentioned again at the end",
    "named subgraphs",
    "a statement of its own for every attribute of a node",
];

struct W {
    out: String,
    way: u64,
    subs: usize,
    depth: usize,
}
impl W {
    fn is(&self, w: usize) -> bool {
        self.way >> w & 1 == 1
    }
    fn tok(&mut self, t: &str) {
        self.out.push_str(t);
        self.out.push_str(if self.is(5) { " /* ; } */\n// ] \"\n\t" } else { " " });
    }
    fn word(&mut self, t: &str) {
        if self.is(0) || !t.chars().all(|c| c.is_ascii_alphanumeric()) {
            self.tok(&format!("\"{}\"", t));
        } else {
            self.tok(t);
        }
    }
    fn end(&mut self) {
        if !self.is(6) {
            self.tok(";");
        }
    }
    fn attrs(&mut self, a: &Attrs) {
        let mut a = a.clone();
        if a.is_empty() {
            return;
        }
        if self.is(4) {
            a.reverse();
        }
        if self.is(9) {
            a = a.iter().map(|(k, _)| (*k, "7")).chain(a.iter().copied()).collect();
        }
        self.tok("[");
        for (i, (k, v)) in a.iter().enumerate() {
            if i > 0 {
                if self.is(2) {
                    self.tok("]");
                    self.tok("[");
                } else {
                    self.tok(if self.is(3) { ";" } else { "," });
                }
            }
            self.word(k);
            self.tok("=");
            self.word(v);
        }
        self.tok("]");
    }
    fn id(&mut self, n: (&str, &str), names: &[&str]) {
        let i = (n.0.as_bytes()[0] - b'a') as usize;
        self.word(names[i]);
        if !n.1.is_empty() {
            self.tok(":");
            self.word(n.1);
        }
    }
    fn program(mut self, p: &[S], names: &[&str]) -> String {
        if self.is(7) {
            self.tok("strict");
        }
        self.tok("digraph");
        if self.is(7) {
            self.tok("G");
        }
        self.tok("{");
        if self.is(8) {
            self.tok("subgraph");
            if self.is(11) {
                self.tok("G");
            }
            self.tok("{");
        }
        let mut mentioned: Vec<&str> = vec![];
        for s in p {
            match s {
                S::Node(n, a) => {
                    if self.is(12) {
                        for x in a {
                            self.id((n, ""), names);
                            self.attrs(&vec![*x]);
                            self.end();
                        }
                    }
                    self.id((n, ""), names);
                    if !self.is(12) {
                        self.attrs(a);
                    }
                    self.end();
                    mentioned.push(n);
                }
                S::Edge(l, a) => {
                    mentioned.extend(l.iter().map(|x| x.0));
                    if self.is(1) {
                        for w in l.windows(2) {
                            self.id(w[0], names);
                            self.tok("->");
                            self.id(w[1], names);
                            self.attrs(a);
                            self.end();
                        }
                    } else {
                        for (i, n) in l.iter().enumerate() {
                            if i > 0 {
                                self.tok("->");
                            }
                            self.id(*n, names);
                        }
                        self.attrs(a);
                        self.end();
                    }
                }
                S::Default(t, a) => {
                    self.tok(t);
                    self.attrs(a);
                    self.end();
                }
                S::Open => {
                    self.tok("subgraph");
                    if self.is(11) {
                        // Names of the graph, of nodes, of nothing: they mean nothing.
                        let n = ["G", "a", "cluster0", "", "G", "node 1"][self.subs % 6].to_string();
                        self.subs += 1;
                        self.word(&n);
                    }
                    self.tok("{");
                    self.depth += 1;
                }
                S::Close if self.depth > 0 => {
                    self.depth -= 1;
                    self.tok("}");
                }
                S::Close => {}
            }
        }
        for _ in 0..self.depth {
            self.tok("}");
        }
        if self.is(10) {
            for n in mentioned {
                self.id((n, ""), names);
                self.end();
            }
        }
        if self.is(8) {
            self.tok("}");
        }
        self.out.push('}');
        self.out
    }
}
fn write(p: &[S], way: u64, names: &[&str]) -> String {
    W { out: String::new(), way, subs: 0, depth: 0 }.program(p, names)
}

const PLAIN: &[&str] = &["a", "b", "c", "d"];
/// Other names of the same length, in other orders.
const NAMES: &[&[&str]] = &[&["d", "c", "b", "a"], &["b", "a", "d", "c"], &["9", "1", "x", "0"], &["Z", "_", "é", "m"], &["c", "d", "a", "b"], &[" ", "a", "A", "\t"], &["o", "ö", "Ö", "O"], &["-", ";", ":", "#"]];

fn texts(calls: &mut [Call], from: &[&str], to: &[&str]) {
    for c in calls {
        if let Call::Text { text, .. } = c {
            if let Some(i) = from.iter().position(|f| f == text) {
                *text = to[i].to_string();
            }
        }
    }
}

fn compare(p: &[S], other: &str, names: &[&str], x: &mut Ctx) -> Result<(), String> {
    same(&write(p, 0, PLAIN), other, names, x)
}
fn same(base: &str, other: &str, names: &[&str], x: &mut Ctx) -> Result<(), String> {
    for bits in [0usize, 1, 4] {
        let f = Flags { debug: bits & 4 != 0, no_opt: bits & 1 != 0, no_layout: false };
        let a = rec::draw(base, f)?.calls;
        let mut b = rec::draw(other, f).map_err(|e| format!("{:?} is rejected: {}", other, e))?.calls;
        texts(&mut b, names, PLAIN);
        x.transitions += a.len() as u64;
        if a != b {
            let k = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)).unwrap();
            return Err(format!("{:?} is drawn with {:?}, but {:?} with {:?}", base, a.get(k), other, b.get(k)));
        }
        x.state(h(&format!("{:?}", a)));
    }
    Ok(())
}

/// Every way in which the nodes of a chain of a length may repeat: each is an
/// earlier one, or the next new one.
fn repeats(len: usize) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..len {
        v = v
            .into_iter()
            .flat_map(|p| {
                let m = p.iter().max().map_or(0, |m| m + 1);
                (0..=m).map(move |k| {
                    let mut q = p.clone();
                    q.push(k);
                    q
                })
            })
            .collect();
    }
    v
}
const CHAIN_ATTRS: [&str; 4] = ["", " [label=t style=dashed]", " [color=red][penwidth=3]", " [shape=box]"];
const CHAIN_BEFORE: [&str; 5] = ["", "n2;", "n3 -> n1;", "node [shape=box]; edge [label=e];", "n3; subgraph {"];
/// The edges of a chain one by one, as a chain, or as two of them.
fn chained(nodes: &[usize], before: usize, attrs: usize, op: &str, cut: Option<usize>) -> String {
    let mut s = format!("{} {{ {} ", ["graph", "digraph"][(op == "->") as usize], CHAIN_BEFORE[before]);
    let names: Vec<String> = nodes.iter().map(|n| format!("n{}", n)).collect();
    let last = nodes.len() - 1;
    match cut {
        None => names.windows(2).for_each(|w| s.push_str(&format!("{} {} {}{}; ", w[0], op, w[1], CHAIN_ATTRS[attrs]))),
        Some(c) => {
            let c = c.min(last);
            for part in [&names[..=c], &names[c..]] {
                if part.len() > 1 {
                    s.push_str(&format!("{}{}; ", part.join(&format!(" {} ", op)), CHAIN_ATTRS[attrs]));
                }
            }
        }
    }
    s + if CHAIN_BEFORE[before].ends_with('{') { "} }" } else { "}" }
}
fn chains_family(t: Tier) -> Family {
    let mut all: Vec<Vec<usize>> = (3..=t.pick(6, 8)).flat_map(repeats).collect();
    for n in mc::scale::sizes(t.pick(130, 514)) {
        if n > 2 {
            all.push((0..n).collect());
            all.push((0..n).map(|i| i % (n / 2 + 1)).collect());
        }
    }
    let r = [all.len(), CHAIN_BEFORE.len(), CHAIN_ATTRS.len(), 2, 3];
    let get = move |i: u64| {
        let d = mixed(i, &r);
        let v = &all[d[0]];
        let op = ["->", "--"][d[3]];
        let cut = [v.len() - 1, 1, v.len() / 2][d[4]];
        (chained(v, d[1], d[2], op, None), chained(v, d[1], d[2], op, Some(cut)))
    };
    let g2 = get.clone();
    family(
        "chains",
        &format!("every chain of up to {} nodes with every way in which they repeat, and longer ones, after {:?}, with {:?}; directed and not; as single edges, one chain and two chains", t.pick(6, 8), CHAIN_BEFORE, CHAIN_ATTRS),
        mixed_total(&r),
        move |i| get(i).1,
        move |i, x| {
            let (a, b) = g2(i);
            same(&a, &b, &[], x)
        },
    )
}

/// How nodes may be called if their labels say what they are.
const CALLED: usize = 8;
fn called(how: usize, i: usize, n: usize) -> String {
    match how {
        0 => format!("n{}", n - 1 - i),
        1 => format!("{}", i),
        2 => format!("{}", (i * 7 + 3) * 13 % 1009),
        3 => format!("\"{}\"", "x".repeat(i + 1)),
        4 => format!("\"{}\"", "y".repeat(300 - i)),
        5 => format!("\"\u{e9} {}\"", char::from_u32(0x4e00 + i as u32 * 77 % 997).unwrap()),
        6 => ["\"node\"", "\"edge\"", "\"graph\"", "\"digraph\"", "\"subgraph\"", "\"strict\"", "\"\"", "\" \"", "\"->\"", "\"a:p\"", "\"a\"", "\"A\"", "\"#\"", "\"}\"", "\"//\""].get(i).map(|s| s.to_string()).unwrap_or(format!("z{}", i)),
        _ => format!("-{}.5", n - i),
    }
}
fn renamed(c: &mc::gen::Case, how: usize, x: &mut Ctx) -> Result<(), String> {
    let a = rec::draw(&c.text(), c.flags)?.calls;
    let t = other_names(c, how);
    let b = rec::draw(&t, c.flags).map_err(|e| format!("{:?} is rejected: {}", t, e))?.calls;
    x.transitions += a.len() as u64;
    x.state(h(&format!("{:?}", a)));
    if a != b {
        let k = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)).unwrap();
        return Err(format!("with other names {:?} becomes {:?}: {}", a.get(k), b.get(k), t));
    }
    Ok(())
}
/// The program of the case, its nodes called differently, with their labels.
fn other_names(c: &mc::gen::Case, how: usize) -> String {
    let mut s = String::from("digraph {");
    if c.lr {
        s.push_str(" rankdir=LR;");
    }
    for i in 0..c.n {
        s.push_str(&format!(" {} [{}];", called(how, i, c.n), mc::gen::NODE_STYLES[c.nstyle[i]].replace('@', &format!("n{}", i))));
    }
    for (k, (a, b)) in c.edges.iter().enumerate() {
        let st = mc::gen::EDGE_STYLES[c.estyle[k]].replace('@', &format!("e{}", k));
        s.push_str(&format!(" {} -> {} [{} color=\"{}\"];", called(how, *a, c.n), called(how, *b, c.n), st, c.color(k)));
    }
    s + " }"
}
fn renamed_family(g: mc::gen::Gen) -> Family {
    let (g1, g2) = (g.get.clone(), g.get);
    family(
        &format!("renamed-{}", g.name),
        &format!("{}; the nodes called in {} ways (numbers in other orders, other lengths, keywords, blanks), with the same labels", g.bound, CALLED),
        g.total * CALLED as u64,
        move |i| other_names(&g1(i / CALLED as u64), (i % CALLED as u64) as usize),
        move |i, x| renamed(&g2(i / CALLED as u64), (i % CALLED as u64) as usize, x),
    )
}
/// Statements about scopes.
fn scopes(i: u64) -> Vec<S> {
    // The index of a sequence doesn't depend on the longest length.
    seq(i, 6, 1, 9).into_iter().map(|k| atoms()[[0, 3, 7, 8, 9, 10][k]].clone()).collect()
}
/// Ways that write scopes differently.
fn scope_way(k: u64) -> u64 {
    let k = k + 1;
    (k & 1) << 7 | (k >> 1 & 1) << 8 | (k >> 2) << 11
}

fn plan_(t: Tier) -> Plan {
    let n = atoms().len();
    let len = t.pick(3, 5);
    let get = move |i: u64, len: usize| -> Vec<S> { seq(i, n, 1, len).into_iter().map(|k| atoms()[k].clone()).collect() };
    // Single ways and all pairs of them.
    let mut ways: Vec<u64> = vec![];
    for a in 0..WAYS.len() {
        ways.push(1 << a);
        for b in 0..a {
            ways.push(1 << a | 1 << b);
        }
    }
    ways.push((1 << WAYS.len()) - 1);
    let nw = ways.len() as u64;
    let w2 = ways.clone();
    let all = t.pick(3, 4);
    plan(
        vec![
            family(
                "ways",
                &format!("every sequence of up to {} of {} statements (nodes, edges, chains, defaults, braces), written plainly and in each of the ways {:?}", len, n, WAYS),
                seq_total(n, 1, len) * WAYS.len() as u64,
                move |i| write(&get(i / WAYS.len() as u64, len), 1 << (i % WAYS.len() as u64), PLAIN),
                move |i, x| {
                    let p = get(i / WAYS.len() as u64, len);
                    compare(&p, &write(&p, 1 << (i % WAYS.len() as u64), PLAIN), PLAIN, x)
                },
            ),
            family(
                "pairs-of-ways",
                &format!("every sequence of up to {} statements, written plainly and in every two ways at once, and in all of them", all),
                seq_total(n, 1, all) * nw,
                move |i| write(&get(i / nw, all), ways[(i % nw) as usize], PLAIN),
                move |i, x| {
                    let p = get(i / nw, all);
                    compare(&p, &write(&p, w2[(i % nw) as usize], PLAIN), PLAIN, x)
                },
            ),
            family(
                "scopes",
                &format!("every sequence of up to {} of nodes, edges, defaults and braces, with named graphs, named subgraphs, the body in a subgraph, and all combinations", t.pick(5, 6)),
                seq_total(6, 1, t.pick(5, 6)) * 7,
                move |i| write(&scopes(i / 7), scope_way(i % 7), PLAIN),
                move |i, x| {
                    let p = scopes(i / 7);
                    compare(&p, &write(&p, scope_way(i % 7), PLAIN), PLAIN, x)
                },
            ),
            chains_family(t),
            renamed_family(mc::gen::graphs(3, 3, mc::gen::BOTH)),
            renamed_family(mc::gen::graphs(4, 3, mc::gen::DEFAULT)),
            renamed_family(mc::gen::structures(t.pick(8, 14), t.pick(28, 80), t.pick(mc::gen::DEFAULT, mc::gen::BOTH))),
            renamed_family(mc::gen::acyclic(5, true, mc::gen::DEFAULT)),
            family(
                "names",
                &format!("every sequence of up to {} statements with the nodes named differently: {:?}", len, NAMES),
                seq_total(n, 1, len) * NAMES.len() as u64,
                move |i| write(&get(i / NAMES.len() as u64, len), 0, NAMES[(i % NAMES.len() as u64) as usize]),
                move |i, x| {
                    let p = get(i / NAMES.len() as u64, len);
                    let names = NAMES[(i % NAMES.len() as u64) as usize];
                    compare(&p, &write(&p, 0, names), names, x)
                },
            ),
        ],
        "state = one drawing; transition = one drawing call compared between two programs that mean the same",
        &["names are exchanged for names of the same length, because they are drawn", "nodes are not mentioned again after a default for nodes, which would apply to them"],
    )
}
fn main() {
    mc::engine::main("B05", plan_)
}
