//! B02: the drawing has exactly the nodes and edges that the text declares.
use mc::engine::*;
use mc::rec::{draw, Flags, P};
use mc::scene::{self, on_box, Scene};
use mc::{refattr, refdot};

fn on(s: &scene::Node, name: &str) -> bool {
    s.label == name || s.label.split('|').next() == Some(name)
}
/// The node that a point belongs to.
fn owner(s: &Scene, p: P) -> Vec<usize> {
    (0..s.nodes.len())
        .filter(|i| {
            let n = &s.nodes[*i];
            p.0 >= n.left() - 1e-6 && p.0 <= n.right() + 1e-6 && p.1 >= n.top() - 1e-6 && p.1 <= n.bottom() + 1e-6
        })
        .collect()
}

fn run(text: &str, flags: Flags, c: &mut Ctx) -> Result<(), String> {
    let g = match refdot::parse(text) {
        Ok(g) => g,
        Err(_) => {
            c.skip("not a program");
            return Ok(());
        }
    };
    let m = refdot::interpret(&g);
    c.state(h(&m));
    c.transitions += (m.nodes.len() + m.edges.len()) as u64;
    let s = scene::read(&draw(text, flags)?.calls)?;
    let (gn, wn) = (s.nodes.iter().map(|n| n.label.split('|').next().unwrap().to_string()).collect::<Vec<_>>(), m.nodes.iter().map(|n| n.0.clone()).collect::<Vec<_>>());
    let (mut a, mut b) = (gn.clone(), wn.clone());
    a.sort();
    b.sort();
    if a != b {
        return Err(format!("the nodes {:?} are drawn, expected {:?}", gn, wn));
    }
    if s.edges.len() != m.edges.len() {
        return Err(format!("{} edges are drawn, expected {}", s.edges.len(), m.edges.len()));
    }
    // Edges of one statement share their colour: match them in any order.
    let mut left: Vec<&refdot::EdgeModel> = m.edges.iter().collect();
    let mut open: Vec<(usize, Vec<usize>)> = Vec::new();
    for (k, e) in s.edges.iter().enumerate() {
        let fits = |w: &refdot::EdgeModel| {
            let a = refattr::edge(&w.props);
            if a.line.as_ref() != Some(&e.look.line) || (e.head.0 as u8 + e.head.1 as u8) != w.arrow as u8 {
                return false;
            }
            let end = |id: &refdot::NodeId, p: P| {
                let i = match owner(&s, p)[..] {
                    [i] => i,
                    _ => return false,
                };
                let n = &s.nodes[i];
                if !on(n, &id.name) {
                    return false;
                }
                // Nodes are declared with this label, or not at all.
                let port = id.port.as_deref().and_then(|p| ["p", "q"].iter().position(|x| *x == p));
                match port {
                    Some(j) if n.kind == refattr::Kind::Record => on_box(n.cells[j].center, n.cells[j].size, p),
                    _ => n.on_outline(p),
                }
            };
            let (p, q) = (e.first(), e.last());
            let fwd = end(&w.from, p) && end(&w.to, q) && !(w.arrow && e.head.0);
            let back = end(&w.to, p) && end(&w.from, q) && !(w.arrow && e.head.1);
            fwd || back
        };
        let f: Vec<usize> = (0..left.len()).filter(|i| fits(left[*i])).collect();
        open.push((k, f));
    }
    // Perfect matching, by augmenting paths.
    let mut owner_of: Vec<Option<usize>> = vec![None; left.len()];
    fn augment(k: usize, open: &[(usize, Vec<usize>)], own: &mut Vec<Option<usize>>, seen: &mut Vec<bool>) -> bool {
        for &i in &open[k].1 {
            if !seen[i] {
                seen[i] = true;
                if own[i].is_none() || augment(own[i].unwrap(), open, own, seen) {
                    own[i] = Some(k);
                    return true;
                }
            }
        }
        false
    }
    for k in 0..open.len() {
        if !augment(k, &open, &mut owner_of, &mut vec![false; left.len()]) {
            let e = &s.edges[k];
            return Err(format!(
                "the edge from {:?} to {:?} (nodes {:?} and {:?}, heads {:?}, colour {}) is not one of the declared edges {:?}",
                e.first(),
                e.last(),
                owner(&s, e.first()).iter().map(|i| &s.nodes[*i].label).collect::<Vec<_>>(),
                owner(&s, e.last()).iter().map(|i| &s.nodes[*i].label).collect::<Vec<_>>(),
                e.head,
                e.look.line,
                left.iter().map(|w| format!("{}:{:?} {} {}:{:?}", w.from.name, w.from.port, if w.arrow { "->" } else { "--" }, w.to.name, w.to.port)).collect::<Vec<_>>()
            ));
        }
    }
    left.clear();
    c.outcome(h(&format!("{:?}", gn)));
    Ok(())
}

/// Statements; @ becomes a colour of its own.
const STMTS: &[&str] = &[
    "a -> b @",
    "b -> a @",
    "a -> a @",
    "a -> b -> c @",
    "c -> b -> a @",
    "a -- b @",
    "b -- c -> a @",
    "a -> b -- b @",
    "a:p -> b:q @",
    "b:q -> c -> a:p @",
    "a -> b:p -> a:q @",
    "\"a\":x -> c:p @",
    "d",
    "b; a",
    "subgraph s {",
    "{",
    "}",
];
const DEFS: [&str; 3] = ["", "a [shape=record label=\"<p>a|<q>aa\"]; b [shape=Mrecord label=\"{<p>b|<q>bb}\"]; ", "rankdir=LR; node [width=2]; b [shape=record label=\"<p>b|<q>bb\"]; node [fontsize=20]; "];

fn stmts(name: &str, alpha: Vec<&'static str>, len: usize, flags: usize) -> Family {
    let base = seq_total(alpha.len(), 1, len);
    let al = alpha.clone();
    let text = move |i: u64| {
        let d = (i / flags as u64 / base) as usize;
        let mut s = format!("digraph {{ {}", DEFS[d]);
        let mut open = 0;
        for (k, x) in seq(i / flags as u64 % base, alpha.len(), 1, len).into_iter().enumerate() {
            s.push_str(&alpha[x].replace('@', &format!("[color=\"#{:06x}\"]", k + 1)));
            s.push_str(if alpha[x].ends_with('{') { " " } else { "; " });
            open += alpha[x].ends_with('{') as i32 - (alpha[x] == "}") as i32;
        }
        for _ in 0..open {
            s.push('}');
        }
        s.push('}');
        s
    };
    let t2 = text.clone();
    family(
        name,
        &format!("every sequence of up to {} of {:?}, with open braces closed, after each of {:?}, with {} option sets", len, al, DEFS, flags),
        base * DEFS.len() as u64 * flags as u64,
        move |i| format!("{}{}", text(i), Flags::from_bits((i % flags as u64) as usize).show()),
        move |i, c| run(&t2(i), Flags::from_bits((i % flags as u64) as usize), c),
    )
}

/// Chains of every length, direction and node sequence.
fn chains(len: usize) -> Family {
    let text = move |i: u64| {
        let v = seq(i / 2, 6, 1, len);
        let mut s = format!("digraph {{ {}a", DEFS[1]);
        for x in v {
            s.push_str(["-> a", " -> b:q", " -> c", "-- a:p", " -- b", "--c"][x]);
        }
        s.push_str(" [color=\"#000001\"]; }");
        if i % 2 == 1 {
            s = s.replace("digraph { ", "digraph { rankdir=LR; ");
        }
        s
    };
    text_family(
        "chains",
        &format!("every chain of up to {} edges, directed or not, over 3 nodes with and without ports, in both directions", len),
        seq_total(6, 1, len) * 2,
        text,
        |t, c| run(t, Flags::default(), c),
    )
}

/// Names that are easily taken for each other, as they are written.
fn names() -> Vec<String> {
    let mut v: Vec<String> = [
        "a", "A", "\"a\"", "\"a \"", "\" a\"", "\"a\t\"", "\"a\\n\"", "\"a\\l\"", "\"\"", "\" \"", "1", "01", "1.0", "\"1.\"", "-1", "_1", "\"-0\"", "0",
        "\"node\"", "\"NODE\"", "\"a:p\"", "\"a:q\"", "\"a->b\"", "\"a;\"", "\"a,b\"", "\"a  b\"", "\"a b\"", "a_b", "\"a\\\\b\"", "\"a\\\"b\"", "\"'a'\"", "\"\\\"a\\\"\"",
        "\"#a\"", "\"&a;\"", "\"%61\"", "\"é\"", "\"e\u{301}\"", "\"É\"", "\"ß\"", "\"ss\"", "\"ı\"", "\"i\"", "\"\u{a0}a\"", "\"\u{200b}a\"", "\"null\"", "\"anonymous\"",
    ]
    .iter()
    .map(|x| x.to_string())
    .collect();
    for n in [8, 16, 31, 32, 33, 64, 100, 255, 256, 257] {
        v.push(format!("{}x", "a".repeat(n)));
        v.push(format!("{}y", "a".repeat(n)));
    }
    v
}
fn named() -> Family {
    let v = names();
    let n = v.len();
    let text = move |i: u64| {
        let d = mixed(i, &[n, n, 6]);
        let (a, b) = (&v[d[0]], &v[d[1]]);
        if d[2] > 2 {
            // Among many others.
            let s: String = (0..70).map(|i| format!("n{};", i)).collect();
            return match d[2] {
                3 => format!("digraph {{ {} {} -> {} }}", s, a, b),
                4 => format!("digraph {{ {}; {} {}; {} -> {} }}", a, s, b, b, a),
                _ => format!("graph {{ {} {} -- n7 -- {} }}", s, b, a),
            };
        }
        match d[2] {
            0 => format!("digraph {{ {} -> {} }}", a, b),
            1 => format!("digraph {{ {} -> c:p; {}; c -> {} [color=red]; {} [shape=box]; subgraph s {{ {} -> {} [color=blue] }} }}", a, b, b, b, b, a),
            _ => format!("graph {{ {} -- {} -- {}; node [shape=doublecircle]; {} }}", b, a, b, a),
        }
    };
    text_family(
        "names",
        &format!("every pair of {} names (white space, quotes, case, numbers, keywords, separators, accents, long common beginnings) in each of 3 programs, and in 3 with many other nodes", n),
        (n * n * 6) as u64,
        text,
        |t, c| run(t, Flags::default(), c),
    )
}

fn plan_(t: Tier) -> Plan {
    plan(
        vec![
            stmts("statements", STMTS.to_vec(), t.pick(3, 4), t.pick(4, 2)),
            stmts("edges", STMTS[..12].iter().copied().filter(|x| !x.contains(":x")).collect(), t.pick(4, 5), 1),
            chains(t.pick(6, 7)),
            named(),
            // Names (and not labels) are drawn, edges of a statement are distinct.
            mc::scale::family(t.pick(66, 202), &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 18, 20, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 35], |t, c| run(t, Flags::default(), c)),
        ],
        "state = result of the reference interpreter (nodes and edges with ports and direction); transition = one node or edge drawn; every drawn edge is matched to a declared edge by its colour, heads and the nodes and cells its ends touch",
        &["programs whose braces do not balance are skipped"],
    )
}
fn main() {
    mc::engine::main("B02", plan_)
}
