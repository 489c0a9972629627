//! L07: everything that is drawn lies inside of the picture.
use mc::engine::*;
use mc::gen::*;
use mc::rec::{svg, Flags};
use mc::svgread::{read, Item};

type P = (f64, f64);
fn bezier(a: P, s: &[P; 3], t: f64) -> P {
    let u = 1. - t;
    let f = |a: f64, b: f64, c: f64, d: f64| u * u * u * a + 3. * u * u * t * b + 3. * u * t * t * c + t * t * t * d;
    (f(a.0, s[0].0, s[1].0, s[2].0), f(a.1, s[0].1, s[1].1, s[2].1))
}
const SLACK: f64 = 1e-6;
/// Between its bends the curve of an edge swings out by less than the length
/// of its control vectors.
const SWING: f64 = 15.;

fn text(t: &str, f: Flags, x: &mut Ctx) -> Result<(), String> {
    let out = svg(t, f)?;
    let d = read(&out)?;
    x.state(h(&out));
    x.transitions += d.items.len() as u64;
    let [x0, y0, w, hh] = d.view;
    if (d.width - w).abs() > 1e-6 || (d.height - hh).abs() > 1e-6 {
        return Err(format!("the picture is {}x{} and its view {:?}", d.width, d.height, d.view));
    }
    let inside = |p: P, what: &str| {
        if p.0 < x0 - SLACK || p.1 < y0 - SLACK || p.0 > x0 + w + SLACK || p.1 > y0 + hh + SLACK {
            Err(format!("{} reaches {:?}, outside of the view {:?}", what, p, d.view))
        } else {
            Ok(())
        }
    };
    for i in &d.items {
        match i {
            Item::Rect { x, y, w, h, width, .. } => {
                let s = (width / 2.).min(2.5);
                inside((x - s, y - s), "a rectangle")?;
                inside((x + w + s, y + h + s), "a rectangle")?;
            }
            Item::Ellipse { c, r, width, .. } => {
                let s = (width / 2.).min(2.5);
                inside((c.0 - r.0 - s, c.1 - r.1 - s), "an ellipse")?;
                inside((c.0 + r.0 + s, c.1 + r.1 + s), "an ellipse")?;
            }
            Item::Line { a, b, .. } => {
                inside(*a, "a line")?;
                inside(*b, "a line")?;
            }
            Item::Text { lines, font, .. } => {
                for (t, p) in lines {
                    // Characters are at most as wide as they are high.
                    let w = t.chars().count() as f64 * font / 2.;
                    inside((p.0 - w, p.1 - font / 2.), &format!("the text {:?}", t))?;
                    inside((p.0 + w, p.1 + font / 2.), &format!("the text {:?}", t))?;
                }
            }
            Item::Path { from, segs, .. } => {
                let mut a = *from;
                for s in segs {
                    inside(a, "the end of an edge")?;
                    inside(s[2], "the bend of an edge")?;
                    for k in 1..16 {
                        let p = bezier(a, s, k as f64 / 16.);
                        // The nearest point of the view.
                        let q = (p.0.clamp(x0, x0 + w), p.1.clamp(y0, y0 + hh));
                        if (p.0 - q.0).hypot(p.1 - q.1) > SWING {
                            inside(p, "the curve of an edge")?;
                        }
                    }
                    a = s[2];
                }
            }
            Item::PathText { .. } => {}
        }
    }
    Ok(())
}
fn run(c: &Case, x: &mut Ctx) -> Result<(), String> {
    text(&c.text(), c.flags, x)
}
fn plan_(t: Tier) -> Plan {
    let mut f = standard_families(t, run);
    for g in [labelled(2, 2, &[0, 1, 2, 3, 4, 5, 6], PLAIN), shaped(2, 2, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], true, PLAIN), labelled(1, 3, &[0, 1, 2, 3, 5], PLAIN)] {
        f.push(fam(g, run));
    }
    plan(
        f,
        "state = one drawing; transition = one shape, text or edge of the SVG document read back; outlines with half their stroke, text boxes by the crate's own measure, and the ends and bends of edges must lie in the viewBox, and the curves between them within 15 pixels of it",
        &["strokes count up to 5 pixels of width", "a character is at most one font size wide"],
    )
}
fn main() {
    mc::engine::main("L07", plan_)
}
