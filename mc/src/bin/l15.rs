//! L15: the picture is no larger than its drawing.
use mc::engine::*;
use mc::gen::*;
use mc::rec::{svg, Flags};
use mc::svgread::{read, Item};

/// The margin that is kept free around nodes.
const HALO: f64 = 30.;

fn text(t: &str, f: Flags, x: &mut Ctx) -> Result<(), String> {
    let out = svg(t, f)?;
    let d = read(&out)?;
    x.state(h(&out));
    let (mut lo, mut hi) = ((f64::INFINITY, f64::INFINITY), (f64::NEG_INFINITY, f64::NEG_INFINITY));
    let mut grow = |p: (f64, f64)| {
        lo = (lo.0.min(p.0), lo.1.min(p.1));
        hi = (hi.0.max(p.0), hi.1.max(p.1));
    };
    for i in &d.items {
        x.transitions += 1;
        match i {
            Item::Rect { x, y, w, h, .. } => {
                grow((*x, *y));
                grow((x + w, y + h));
            }
            Item::Ellipse { c, r, .. } => {
                grow((c.0 - r.0, c.1 - r.1));
                // To the right and below, an ellipse may take half its size again.
                grow((c.0 + 2. * r.0, c.1 + 2. * r.1));
            }
            Item::Line { a, b, .. } => {
                grow(*a);
                grow(*b);
            }
            Item::Text { lines, font, .. } => {
                for (t, p) in lines {
                    // At least as wide and high as one letter, as the crate measures.
                    let w = (t.chars().count() as f64).max(1.) * font / 2.;
                    grow((p.0 - w, p.1 - font / 2.));
                    grow((p.0 + w, p.1 + font / 2.));
                }
            }
            Item::Path { from, segs, .. } => {
                grow(*from);
                // A curve lies within its control points.
                for s in segs {
                    s.iter().for_each(|p| grow(*p));
                }
            }
            Item::PathText { .. } => {}
        }
    }
    let [x0, y0, w, hh] = d.view;
    let gap = [lo.0 - x0, lo.1 - y0, x0 + w - hi.0, y0 + hh - hi.1];
    x.outcome(h(&gap.map(|g| g as i64 / 10)));
    if let Some(k) = (0..4).find(|k| gap[*k] > HALO + 1.) {
        return Err(format!("nothing is drawn in the {} {} pixels of the picture of {}x{}", ["left", "upper", "right", "lower"][k], gap[k], w, hh));
    }
    Ok(())
}
fn run(c: &Case, x: &mut Ctx) -> Result<(), String> {
    text(&c.text(), c.flags, x)
}
/// Labels and nodes that are wider or higher than everything else.
const FORM: [&str; 6] = ["a -> b [label=\"@\"]", "a [label=\"@\"]; a -> b", "a [label=\"@\"] b", "a -> a [label=\"@\"]; a -> b", "a -> b -> c; a -> c [label=\"@\"]; a -> c", "a [label=\"@|b\" shape=record]; b -> a; c -> a [label=\"@\"]"];
fn wide(z: &[usize], i: u64) -> (String, Flags) {
    let d = mixed(i, &[FORM.len(), 3, 3, 2, 8, z.len()]);
    let t = ["x", "x\n", "xxxxx\n"][d[1]].repeat(z[d[5]]);
    let s = format!("digraph {{ {} edge [fontsize={f}]; node [fontsize={f} shape={}]; {} }}", if d[4] & 1 == 1 { "rankdir=LR;" } else { "" }, ["box", "doublecircle"][d[3]], FORM[d[0]].replace('@', &t), f = [14, 3, 60][d[2]]);
    (s, Flags::from_bits(d[4] >> 1))
}
/// Thick lines: of nodes of every shape, and of edges.
fn thick(i: u64) -> (String, Flags) {
    const W: [usize; 7] = [0, 2, 10, 33, 100, 400, 3000];
    const G: [&str; 6] = ["a", "a -> b", "a -> a", "a -> b -> c; a -> c", "a; b; c", "a -> b [label=x]"];
    let d = mixed(i, &[W.len(), W.len(), G.len(), 5, 3, 8]);
    let s = format!(
        "digraph {{ {} node [shape={} width={} fontsize={f}]; edge [penwidth={} fontsize={f}]; {} }}",
        if d[5] & 1 == 1 { "rankdir=LR;" } else { "" },
        ["box", "circle", "doublecircle", "record", "Mrecord"][d[3]],
        W[d[0]],
        W[d[1]],
        G[d[2]],
        f = [14, 2, 200][d[4]]
    );
    (s, Flags::from_bits(d[5] >> 1))
}
fn plan_(t: Tier) -> Plan {
    let mut f = standard_families(t, run);
    let z = mc::scale::sizes(t.pick(514, 1026));
    let n = (FORM.len() * 3 * 3 * 2 * 8 * z.len()) as u64;
    let z2 = z.clone();
    f.push(family(
        "wide",
        &format!("labels of up to {} letters or lines, of 3 font sizes, at 6 places of small graphs; all options", z[z.len() - 1]),
        n,
        move |i| {
            let (t, f) = wide(&z2, i);
            format!("{}{}", t, f.show())
        },
        move |i, c| {
            let (t, f) = wide(&z, i);
            text(&t, f, c)
        },
    ));
    f.push(family(
        "thick",
        "six small graphs with nodes of every shape, widths of lines of nodes and edges from 0 to 3000, 3 font sizes; all options",
        7 * 7 * 6 * 5 * 3 * 8,
        |i| {
            let (t, f) = thick(i);
            format!("{}{}", t, f.show())
        },
        |i, c| {
            let (t, f) = thick(i);
            text(&t, f, c)
        },
    ));
    plan(
        f,
        "state = one drawing; transition = one shape, text or edge of the SVG document read back; the bounding box of all of them, with the control points of curves, must reach to within 30 pixels (the margin of a node) of every side of the picture",
        &["pictures of empty graphs have no size that is specified", "texts are measured as one font size per character, and at least one"],
    )
}
fn main() {
    mc::engine::main("L15", plan_)
}
