//! L04: everything is drawn exactly once, in its own style.
use mc::engine::*;
use mc::gen::*;
use mc::rec::Flags;
use mc::{rec, refattr, refdot, scene};

/// Which node, edge and label texts and styles are drawn, by the reference
/// reading of the same text.
fn run(c: &Case, x: &mut Ctx) -> Result<(), String> {
    x.state(h(&c.show()));
    x.transitions += c.size();
    text(&c.text(), c.flags, x)
}
fn text(t: &str, flags: Flags, x: &mut Ctx) -> Result<(), String> {
    let m = refdot::interpret(&refdot::parse(t).map_err(|e| format!("the harness wrote a bad program: {:?}", e))?);
    let calls = rec::draw(t, flags)?.calls;
    let s = scene::read(&calls)?;
    let mut got: Vec<String> = s
        .nodes
        .iter()
        .map(|n| format!("{:?} {:?} {} {:?} {} font {} rounded {}", n.kind, n.label, n.look.line, n.look.fill, n.look.width, n.text_look.font, n.look.rounded > 0))
        .collect();
    let mut want: Vec<String> = m
        .nodes
        .iter()
        .map(|(name, p)| {
            let w = refattr::node(name, p);
            // Records show the fields of their label.
            let label = if w.kind == refattr::Kind::Record {
                w.label.replace(['{', '}'], "").split('|').map(|f| f.rsplit('>').next().unwrap().to_string()).collect::<Vec<_>>().join("|")
            } else {
                w.label
            };
            format!("{:?} {:?} {} {:?} {} font {} rounded {}", w.kind, label, w.line.unwrap(), w.fill, w.width.unwrap(), w.font.unwrap(), w.rounded)
        })
        .collect();
    got.sort();
    want.sort();
    if got != want {
        return Err(format!("nodes {:?}, expected {:?}", got, want));
    }
    let mut got: Vec<String> = s.edges.iter().map(|e| format!("{} width {} dashed {} heads {}", e.look.line, e.look.width, e.dashed, e.head.0 as u8 + e.head.1 as u8)).collect();
    let mut want: Vec<String> = m
        .edges
        .iter()
        .map(|e| {
            let w = refattr::edge(&e.props);
            format!("{} width {} dashed {} heads {}", w.line.unwrap(), w.width.unwrap(), w.dashed, e.arrow as u8)
        })
        .collect();
    got.sort();
    want.sort();
    if got != want {
        return Err(format!("edges {:?}, expected {:?}", got, want));
    }
    let mut got: Vec<(String, usize)> = s.labels.iter().map(|l| (l.text.clone(), l.look.font)).chain(s.edges.iter().filter(|e| !e.text.is_empty()).map(|e| (e.text.clone(), e.look.font))).collect();
    let mut want: Vec<(String, usize)> = m.edges.iter().map(|e| refattr::edge(&e.props)).filter(|e| !e.label.is_empty()).map(|e| (e.label, e.font.unwrap())).collect();
    got.sort();
    want.sort();
    if got != want {
        return Err(format!("edge labels {:?}, expected {:?}", got, want));
    }
    Ok(())
}
/// The same texts and styles again and again.
const SAME: [&str; 5] = ["label=x", "", "label=y", "label=\"\"", "label=x color=red"];
const NODES: [&str; 4] = ["", "label=x", "label=x shape=box", "label=\"x|x\" shape=record"];
const KIND: [&str; 2] = ["->", "--"];
fn same(n: usize, m: usize, i: u64) -> (String, Flags) {
    let ne = ((n * n) as u64).pow(m as u32);
    let e = edge_list(i % ne, n, m);
    let i = i / ne;
    let d = digits(i % (SAME.len() as u64).pow(m as u32), SAME.len(), m);
    let i = i / (SAME.len() as u64).pow(m as u32);
    let r = mixed(i, &[NODES.len(), 2, 4]);
    let mut s = format!("{} {{ node [{}];", ["digraph", "graph"][r[1]], NODES[r[0]]);
    for k in 0..n {
        s.push_str(&format!(" n{};", k));
    }
    for (k, (a, b)) in e.iter().enumerate() {
        s.push_str(&format!(" n{} {} n{} [{}];", a, KIND[r[1]], b, SAME[d[k]]));
    }
    s.push('}');
    (s, Flags::from_bits(r[2]))
}
fn same_family(n: usize, m: usize) -> Family {
    family(
        &format!("same-{}-{}", n, m),
        &format!("every sequence of {} edges over {} nodes with every choice of {:?} per edge, all nodes of one of {:?}, directed and not, 4 option sets", m, n, SAME, NODES),
        ((n * n * SAME.len()) as u64).pow(m as u32) * 32,
        move |i| {
            let (t, f) = same(n, m, i);
            format!("{}{}", t, f.show())
        },
        move |i, c| {
            let (t, f) = same(n, m, i);
            c.state(h(&t));
            c.transitions += m as u64;
            text(&t, f, c)
        },
    )
}
fn plan_(t: Tier) -> Plan {
    let mut f = standard_families(t, run);
    for g in [labelled(2, 3, &[0, 1, 4, 5, 6], BOTH), labelled(3, 2, &[0, 1, 2, 3, 4, 5, 6], PLAIN), shaped(2, 2, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], true, PLAIN)] {
        f.push(fam(g, run));
    }
    f.push(same_family(1, 3));
    f.push(same_family(2, 2));
    f.push(same_family(2, 3));
    f.push(same_family(3, 2));
    if t == Tier::Thorough {
        f.push(same_family(1, 4));
        f.push(same_family(3, 3));
    }
    plan(
        f,
        "state = one graph with its styles and options; transition = one node or edge drawn; the multisets of drawn nodes, edges and edge labels with their styles are compared with those of the reference interpreter",
        &[],
    )
}
fn main() {
    mc::engine::main("L04", plan_)
}
