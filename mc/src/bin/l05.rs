//! L05: edges are attached to their nodes, start and end at the cells their ports name, and pass by their label.
use mc::engine::*;
use mc::gen::*;
use mc::scene::{on_box, text_extent};

fn run(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let d = c.drawn()?;
    x.transitions += c.edges.len() as u64;
    x.state(h(&c.show()));
    for (k, &(a, b)) in c.edges.iter().enumerate() {
        let e = d.e(k);
        if e.path.len() < 2 {
            return Err(format!("the path of e{} has {} points", k, e.path.len()));
        }
        let (na, nb) = (d.n(a), d.n(b));
        let (p, q) = (e.first(), e.last());
        let fwd = na.on_outline(p) && nb.on_outline(q);
        let back = nb.on_outline(p) && na.on_outline(q);
        if !fwd && !back {
            return Err(format!("e{} between n{} and n{} ends at {:?} and {:?}, which are not on their outlines", k, a, b, p, q));
        }
        // The bends of the path: its first point, and the ends of its pieces.
        let mut bends = vec![p];
        for s in &e.path[1..] {
            bends.push(s.1);
        }
        if let Some(l) = d.l(k) {
            let z = text_extent(&l.text, l.look.font);
            // The text with the crate's padding around it.
            let z = (z.0 + 10., z.1 + 10.);
            let hit = bends[1..bends.len() - 1].iter().any(|b| (b.0 - l.xy.0).abs() <= z.0 / 2. + 1e-6 && (b.1 - l.xy.1).abs() <= z.1 / 2. + 1e-6);
            if !hit {
                return Err(format!("e{} does not pass by its label at {:?}: {:?}", k, l.xy, bends));
            }
        }
    }
    Ok(())
}

/// Records with ports.
const PORT_RADIX: [usize; 9] = [6, 6, 5, 5, 6, 2, 4, 2, 2];
const SHAPES: [(&str, usize); 6] = [
    ("<p>@", 1),
    ("<p>@|<q>b|<r>c", 3),
    ("{<p>@|<q>b}", 2),
    ("<p>@|{<q>b|<r>ccc}|<s>d", 4),
    ("{<p>@|{<q>b|{<r>cc|<s>dd}}}", 4),
    ("@|<p>x|y", 1),
];
const PORTS: [&str; 4] = ["p", "q", "r", "s"];
/// Other names for the same ports.
const NAMES: [[&str; 4]; 14] = [
    ["p", "q", "r", "s"],
    ["f12", "f1", "f", "f123"],
    ["ab", "Ab", "AB", "aB"],
    ["n", "ne", "s", "c"],
    ["p0", "p", "p00", "0"],
    ["a_port_with_a_name_of_some_length", "a_port_with_a_name_of_some_length_1", "a_port_with_a_name_of_some_length_12", "a_port"],
    ["*70", "*71", "*300", "*301"],
    ["*255", "*256", "*257", "*1025"],
    ["é", "e", "éé", "\u{1F600}"],
    [" a", "a", "a ", " "],
    ["1", "01", "1.0", "-1"],
    [":", ";", "--", "#"],
    ["a b", "ab", "a  b", "\u{a0}"],
    ["<", "a<", "&lt;", "a<b"],
];
fn name(n: &str) -> String {
    n.strip_prefix('*').map(|k| "p".repeat(k.parse().unwrap())).unwrap_or(n.to_string())
}
/// Position of the field a port names.
fn field(s: usize, port: usize) -> Option<usize> {
    let (l, n) = SHAPES[s];
    if port >= n {
        return None;
    }
    let l = l.replace(['{', '}'], "");
    l.split('|').position(|f| f.starts_with(&format!("<{}>", PORTS[port])))
}
fn port_text(i: u64) -> (String, Vec<usize>) {
    // Names of the ports, two records, a port (or none) on either end, both ways, rankdir, flags,
    // kind of record, label.
    let names = i / mixed_total(&PORT_RADIX);
    let names = NAMES[names as usize];
    let d = mixed(i, &PORT_RADIX);
    let rename = |l: &str| {
        let mut l = l.to_string();
        for (p, n) in PORTS.iter().zip(names) {
            l = l.replace(&format!("<{}>", p), &format!("<\u{1}{}>", name(n)));
        }
        l.replace('\u{1}', "")
    };
    let pt = |x: usize| if x == 4 { String::new() } else { format!(":\"{}\"", name(names[x])) };
    let lr = if d[5] == 1 { "rankdir=LR; " } else { "" };
    let sh = if d[7] == 1 { "Mrecord" } else { "record" };
    let lab = if d[8] == 1 { " label=\"some label\"" } else { "" };
    let mut s = format!("digraph {{ {}n0 [shape={} label=\"{}\"]; n1 [shape=record label=\"{}\"]; ", lr, sh, rename(SHAPES[d[0]].0).replace('@', "n0"), rename(SHAPES[d[1]].0).replace('@', "n1"));
    let (a, b) = (pt(d[2]), pt(d[3]));
    match d[4] {
        0 => s.push_str(&format!("n0{} -> n1{} [color=\"#000001\"{}]; ", a, b, lab)),
        // A reversed edge.
        1 => s.push_str(&format!("n0 -> n1; n1{} -> n0{} [color=\"#000001\"{}]; ", b, a, lab)),
        // Lines.
        4 => s.push_str(&format!("n0{} -- n1{} [color=\"#000001\"{}]; ", a, b, lab)),
        5 => s.push_str(&format!("n0 -> n1; n1{} -- n0{} [color=\"#000001\"{}]; ", b, a, lab)),
        // A self edge.
        2 => s.push_str(&format!("n0{} -> n0{} [color=\"#000001\"{}]; n0 -> n1; ", a, b, lab)),
        // Over several ranks.
        _ => s.push_str(&format!("n0 -> x -> n1; n0{} -> n1{} [color=\"#000001\"{}]; ", a, b, lab)),
    }
    s.push('}');
    (s, d)
}
fn ports(i: u64, x: &mut Ctx) -> Result<(), String> {
    let (t, d) = port_text(i);
    x.state(i);
    x.transitions += 1;
    let calls = mc::rec::draw(&t, mc::rec::Flags::from_bits(d[6] & 3))?.calls;
    let s = mc::scene::read(&calls)?;
    let get = |n: &str| s.nodes.iter().find(|m| m.label.split('|').next() == Some(n) || m.label == n).cloned().ok_or(format!("{} is not drawn", n));
    let (n0, n1) = (get("n0")?, get("n1")?);
    let e = s.edges.iter().find(|e| e.look.line == "#000001ff").ok_or("the edge is not drawn")?;
    // Which end is at n0? The nodes don't overlap.
    let (mut p, mut q) = (e.first(), e.last());
    let (f0, f1, m1) = match d[4] {
        2 => (field(d[0], d[2]), field(d[0], d[3]), n0.clone()),
        _ => (field(d[0], d[2]), field(d[1], d[3]), n1),
    };
    let in0 = |p: (f64, f64)| (p.0 - n0.center.0).abs() <= n0.size.0 / 2. + 1e-6 && (p.1 - n0.center.1).abs() <= n0.size.1 / 2. + 1e-6;
    if d[4] != 2 && in0(q) && !in0(p) {
        std::mem::swap(&mut p, &mut q);
    }
    let at = |n: &mc::scene::Node, f: Option<usize>, p: (f64, f64), w: &str| {
        let (c, z) = match f {
            Some(k) => (n.cells[k].center, n.cells[k].size),
            // An unknown port, or none: the record itself.
            None => (n.center, n.size),
        };
        if on_box(c, z, p) {
            Ok(())
        } else {
            Err(format!("the {} of the edge at {:?} is not on the outline of its {} {:?} {:?}", w, p, if f.is_some() { "cell" } else { "record" }, c, z))
        }
    };
    at(&n0, f0, p, "start")?;
    at(&m1, f1, q, "end")?;
    Ok(())
}
/// Records with many fields.
const FIELDS: [usize; 7] = [5, 9, 17, 33, 65, 100, 260];
fn many_text(i: u64) -> (String, usize) {
    let (mut i, mut n) = (i, 0);
    while i >= 8 * FIELDS[n] as u64 {
        i -= 8 * FIELDS[n] as u64;
        n += 1;
    }
    let (n, d) = (FIELDS[n], mixed(i, &[FIELDS[n], 2, 2, 2]));
    let f: Vec<String> = (0..n).map(|k| format!("<f{}> t{}", k, k)).collect();
    let l = if d[1] == 0 {
        f.join("|")
    } else {
        // Columns of four.
        f.chunks(4).map(|c| format!("{{{}}}", c.join("|"))).collect::<Vec<_>>().join("|")
    };
    let e = if d[3] == 0 { format!("x -> n:f{}", d[0]) } else { format!("n:f{} -> x", d[0]) };
    (format!("digraph {{ {}n [shape=record label=\"{}\"]; {} [color=\"#000001\"]; y -> n; }}", if d[2] == 1 { "rankdir=LR; " } else { "" }, l, e), d[0])
}
fn many(i: u64, x: &mut Ctx) -> Result<(), String> {
    let (t, k) = many_text(i);
    x.state(i);
    x.transitions += 1;
    let s = mc::scene::read(&mc::rec::draw(&t, mc::rec::Flags::default())?.calls)?;
    let n = s.nodes.iter().find(|n| !n.cells.is_empty()).ok_or("the record is not drawn")?;
    let c = n.cells.iter().find(|c| c.text == format!("t{}", k)).ok_or("the field is not drawn")?;
    let e = s.edges.iter().find(|e| e.look.line == "#000001ff").ok_or("the edge is not drawn")?;
    if !on_box(c.center, c.size, e.first()) && !on_box(c.center, c.size, e.last()) {
        return Err(format!("the edge {:?} does not end at the cell of its port {:?}", e.path, c));
    }
    Ok(())
}
fn plan_(t: Tier) -> Plan {
    let mut f = standard_families(t, run);
    let one = mixed_total(&PORT_RADIX);
    f.push(family(
        "ports",
        "two records of 6 layouts, all ports and none on either end; forward, reversed, self and long edges, lines forward and backward; both directions, options, rounded records, labels",
        one,
        |i| port_text(i).0,
        ports,
    ));
    let (names, plain) = ((NAMES.len() - 1) as u64, one / 16);
    let at = move |i: u64| {
        // No options and labels.
        one * (1 + i / plain) + i % plain
    };
    f.push(family(
        "port-names",
        &format!("the same with port names {:?}, without options and labels", &NAMES[1..]),
        names * plain,
        move |i| port_text(at(i)).0,
        move |i, c| ports(at(i), c),
    ));
    f.push(family(
        "many-fields",
        &format!("records of {:?} fields, in a row or in columns of four, with an edge into or out of every one, both directions", FIELDS),
        8 * FIELDS.iter().sum::<usize>() as u64,
        |i| many_text(i).0,
        many,
    ));
    plan(
        f,
        "state = one graph with its styles and options; transition = one edge drawn, whose ends, bends and label are compared with the outlines of its nodes, the cells its ports name and the box of its label",
        &["the padding of a label box is the crate's own"],
    )
}
fn main() {
    mc::engine::main("L05", plan_)
}
