//! R02: records are drawn as nested rows of cells.
use mc::engine::*;
use mc::rec::{draw, Flags, P};
use mc::refattr::Kind;
use mc::scene::{self, on_box, text_extent, Cell};

#[derive(Clone, Debug)]
enum T {
    Leaf,
    Row(Vec<T>),
}
/// All trees of a depth, with up to n parts per row.
fn trees(depth: usize, n: usize) -> Vec<T> {
    if depth == 0 {
        return vec![T::Leaf];
    }
    let mut r = vec![T::Leaf];
    r.extend(rows(&trees(depth - 1, n), n).into_iter().map(T::Row));
    r
}
fn rows(sub: &[T], n: usize) -> Vec<Vec<T>> {
    let mut r = Vec::new();
    for k in 1..=n {
        for i in 0..(sub.len() as u64).pow(k as u32) {
            r.push(digits(i, sub.len(), k).into_iter().map(|x| sub[x].clone()).collect());
        }
    }
    r
}
const TEXTS: [[&str; 3]; 4] = [["", "", ""], [" wide text", "", "\\nx\\ny"], ["\\nx", " y", ""], ["", " a longer text", "\\nz"]];
fn label(t: &T, pat: usize, k: &mut usize) -> String {
    match t {
        T::Leaf => {
            *k += 1;
            format!("<p{}>t{}{}", *k - 1, *k - 1, TEXTS[pat][*k % 3])
        }
        T::Row(v) => v
            .iter()
            .map(|x| match x {
                T::Leaf => label(x, pat, k),
                _ => format!("{{{}}}", label(x, pat, k)),
            })
            .collect::<Vec<_>>()
            .join("|"),
    }
}
fn nleaves(t: &T) -> usize {
    match t {
        T::Leaf => 1,
        T::Row(v) => v.iter().map(nleaves).sum(),
    }
}

type Rect = (P, P);
/// Smallest box around a subtree, checking how its parts lie.
fn area(t: &T, horizontal: bool, cells: &[Cell], k: &mut usize, all: &mut Vec<Rect>) -> Result<(f64, f64, f64, f64), String> {
    let tol = 1e-6;
    match t {
        T::Leaf => {
            let c = &cells[*k];
            *k += 1;
            all.push((c.center, c.size));
            let z = text_extent(&c.text, c.look.font);
            if c.size.0 + tol < z.0 || c.size.1 + tol < z.1 {
                return Err(format!("the cell of {:?} has the size {:?} and its text {:?}", c.text, c.size, z));
            }
            Ok((c.center.0 - c.size.0 / 2., c.center.1 - c.size.1 / 2., c.center.0 + c.size.0 / 2., c.center.1 + c.size.1 / 2.))
        }
        T::Row(v) => {
            let mut r: Option<(f64, f64, f64, f64)> = None;
            for x in v {
                let a = area(x, !horizontal, cells, k, all)?;
                r = Some(match r {
                    None => a,
                    Some(p) => {
                        let ok = if horizontal {
                            (p.2 - a.0).abs() < tol * 100. && (p.1 - a.1).abs() < tol * 100. && (p.3 - a.3).abs() < tol * 100.
                        } else {
                            (p.3 - a.1).abs() < tol * 100. && (p.0 - a.0).abs() < tol * 100. && (p.2 - a.2).abs() < tol * 100.
                        };
                        if !ok {
                            return Err(format!("the parts {:?} and {:?} of a {} are not side by side", p, a, if horizontal { "row" } else { "column" }));
                        }
                        if horizontal {
                            (p.0, p.1, a.2, p.3)
                        } else {
                            (p.0, p.1, p.2, a.3)
                        }
                    }
                });
            }
            let r = r.unwrap();
            all.push((((r.0 + r.2) / 2., (r.1 + r.3) / 2.), (r.2 - r.0, r.3 - r.1)));
            Ok(r)
        }
    }
}

fn program(t: &T, d: &[usize]) -> String {
    let lab = label(t, d[0], &mut 0);
    let n = nleaves(t);
    format!(
        "digraph {{ {}r [shape={} label=\"{}\"{}]; x -> r:p{}; r:p{} -> y; }}",
        if d[1] == 1 { "rankdir=LR; " } else { "" },
        if d[2] == 1 { "Mrecord" } else { "record" },
        lab,
        ["", " fontsize=30", " fontsize=1"][d[3]],
        0,
        n - 1
    )
}
fn run(t: &T, d: &[usize], x: &mut Ctx) -> Result<(), String> {
    let text = program(t, d);
    x.state(h(&text));
    let n = nleaves(t);
    x.transitions += n as u64;
    let s = scene::read(&draw(&text, Flags::from_bits(d[4]))?.calls)?;
    let r: Vec<_> = s.nodes.iter().filter(|n| n.kind == Kind::Record).collect();
    if r.len() != 1 || s.nodes.len() != 3 {
        return Err(format!("{} records among {} nodes are drawn", r.len(), s.nodes.len()));
    }
    let r = r[0];
    r.check_clips()?;
    if r.cells.len() != n {
        return Err(format!("{} fields are drawn, expected {}", r.cells.len(), n));
    }
    // Sort the cells by the number of their field.
    let mut cells: Vec<Option<Cell>> = vec![None; n];
    for c in &r.cells {
        let k = c.text[1..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse::<usize>().map_err(|_| format!("odd text {:?}", c.text))?;
        if k >= n || cells[k].is_some() {
            return Err(format!("the field {:?} is drawn twice", c.text));
        }
        let want = format!("t{}{}", k, TEXTS[d[0]][(k + 1) % 3].replace("\\n", "\n"));
        if c.text != want {
            return Err(format!("a field shows {:?}, expected {:?}", c.text, want));
        }
        cells[k] = Some(c.clone());
    }
    let cells: Vec<Cell> = cells.into_iter().flatten().collect();
    // Fields of a top to bottom graph lie side by side.
    let mut all = Vec::new();
    let a = area(t, d[1] == 0, &cells, &mut 0, &mut all)?;
    let near = |a: Rect, b: Rect| (a.0 .0 - b.0 .0).abs() + (a.0 .1 - b.0 .1).abs() + (a.1 .0 - b.1 .0).abs() + (a.1 .1 - b.1 .1).abs() < 1e-3;
    let whole = (((a.0 + a.2) / 2., (a.1 + a.3) / 2.), (a.2 - a.0, a.3 - a.1));
    if !near(whole, (r.center, r.size)) {
        return Err(format!("the cells fill {:?} of the record {:?}", whole, (r.center, r.size)));
    }
    for b in &r.rects {
        if !all.iter().any(|c| near(*c, *b)) {
            return Err(format!("the box {:?} is none of the parts of the record", b));
        }
    }
    for (k, c) in cells.iter().enumerate() {
        if !r.rects.iter().any(|b| near(*b, (c.center, c.size))) {
            return Err(format!("no box around field {}", k));
        }
    }
    // The edges: into the first field, out of the last one.
    let by = |l: &str| s.nodes.iter().find(|n| n.label == l).ok_or(format!("{} is not drawn", l));
    for (e, node, k, into) in [(0, by("x")?, 0, true), (1, by("y")?, n - 1, false)] {
        let e = &s.edges[e];
        let (far, here) = if into { (e.first(), e.last()) } else { (e.last(), e.first()) };
        let (e2, far, here) = if node.on_outline(far) { (e, far, here) } else { return Err(format!("edge {:?} does not touch {}", e.path, node.label)) };
        let _ = far;
        if !on_box(cells[k].center, cells[k].size, here) {
            return Err(format!("the edge {:?} does not end on the cell {:?} of its port", e2.path, (cells[k].center, cells[k].size)));
        }
    }
    Ok(())
}
fn fam(name: &str, bound: &str, list: Vec<Vec<T>>, radix: [usize; 5]) -> Family {
    let m = mixed_total(&radix);
    let total = list.len() as u64 * m;
    let list = std::sync::Arc::new(list);
    let l2 = list.clone();
    family(
        name,
        bound,
        total,
        move |i| {
            let d = mixed(i % m, &radix);
            format!("{}{}", program(&T::Row(list[(i / m) as usize].clone()), &d), Flags::from_bits(d[4]).show())
        },
        move |i, c| run(&T::Row(l2[(i / m) as usize].clone()), &mixed(i % m, &radix), c),
    )
}
fn plan_(t: Tier) -> Plan {
    let mut v = vec![
        fam("small", "every record of up to 3 parts of up to 3 parts, in 4 patterns of texts, both directions, both kinds, 3 font sizes and 4 option sets", rows(&trees(1, 3), 3), [4, 2, 2, 3, 4]),
        fam("deep", "every record nested 4 levels with up to 2 parts each, in 4 patterns of texts, both directions", rows(&trees(t.pick(2, 3), 2), 2), [4, 2, t.pick(1, 2), 1, 1]),
        fam("wide", "every record of up to 2 parts nested 3 levels with up to 3 parts each, in 4 patterns of texts, both directions", rows(&trees(2, 3), 2), [4, 2, 1, 1, 1]),
    ];
    // Long rows, alone and inside of others.
    let mut long = Vec::new();
    for n in 4..=t.pick(24, 70) {
        let row = vec![T::Leaf; n];
        long.push(row.clone());
        long.push(vec![T::Row(row.clone())]);
        long.push(vec![T::Leaf, T::Row(row.clone()), T::Leaf]);
        // Every second cell is a row of two; the others have rows inside of rows.
        long.push((0..n).map(|k| if k % 2 == 0 { T::Leaf } else { T::Row(vec![T::Leaf; 2]) }).collect());
        long.push((0..n).map(|k| if k % 3 == 0 { T::Leaf } else { T::Row(vec![T::Leaf, T::Row(vec![T::Leaf; k % 5 + 1])]) }).collect());
        // Rows in rows in rows.
        let mut deep = T::Leaf;
        for k in 0..n.min(12) {
            deep = T::Row(if k % 2 == 0 { vec![T::Leaf, deep] } else { vec![deep, T::Leaf, T::Leaf] });
        }
        long.push(vec![deep, T::Leaf]);
        // Cells inside of many braces.
        let mut single = T::Leaf;
        for _ in 0..n {
            single = T::Row(vec![single]);
        }
        long.push(vec![single.clone(), T::Leaf]);
        long.push(vec![T::Leaf, T::Row(vec![T::Leaf, single.clone()]), single]);
    }
    v.push(fam("long", &format!("rows of 4 to {} cells, alone, in other rows, with every second or third cell a row, nested up to 12 levels, and single cells inside of as many braces; 4 patterns of texts, both directions, both kinds, 3 font sizes", t.pick(24, 70)), long, [4, 2, 2, 3, 1]));
    if t == Tier::Thorough {
        v.push(fam("all", "every record of up to 3 parts nested 3 levels with up to 3 parts each, both directions", rows(&trees(2, 3), 3), [2, 2, 1, 1, 1]));
    }
    plan(v, "state = one record; transition = one field drawn; cells are matched to fields by their texts, and must tile the record row by column by row as the label nests", &[])
}
fn main() {
    mc::engine::main("R02", plan_)
}
