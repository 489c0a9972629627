//! G03: where edges attach to shapes.
use layout::core::base::Orientation;
use layout::core::format::{Renderable, Visible};
use layout::core::geometry::{get_passthrough_path_invisible, Point};
use layout::core::style::StyleAttr;
use layout::std_shapes::shapes::*;
use mc::engine::*;
use mc::scene::{on_box, on_ellipse};

const SIZES: [(f64, f64); 4] = [(40., 40.), (90., 24.), (20., 110.), (7., 5.)];
const LOCS: [(f64, f64); 3] = [(0., 0.), (33.5, -12.25), (-1000., 4096.)];
const FORCE: [f64; 3] = [1., 10., 30.];

fn shape(k: usize) -> ShapeKind {
    match k {
        0 => ShapeKind::new_box("x"),
        1 => ShapeKind::new_circle("x"),
        2 => ShapeKind::new_double_circle("x"),
        _ => ShapeKind::new_record(&RecordDef::Array(vec![
            RecordDef::new_text_with_port("a", "p"),
            RecordDef::Array(vec![RecordDef::new_text_with_port("b", "q"), RecordDef::new_text("c")]),
        ])),
    }
}
/// Offsets from the center, from next to nothing to far away.
const FINE: [f64; 21] = [0., 1e-3, -1e-3, 0.1, -0.1, 0.5, -0.5, 0.9, -0.9, 1.1, -1.1, 2.5, -2.5, 7., -7., 60., -60., 700., -700., 5000., -5000.];
fn attach(i: u64, n: usize, fine: bool, c: &mut Ctx) -> Result<(), String> {
    let d = mixed(i, &[n, n, 4, 3, 3, 4, 2]);
    let (size, loc, force) = (SIZES[d[2]], LOCS[d[3]], FORCE[d[4]]);
    // From points: a grid over four times the shape, which includes its
    // center, sides and corners.
    let k = (n as i64 - 1) / 2;
    let g = |x: usize, s: f64| (x as i64 - k) as f64 * s / 4.;
    let from = if fine { (loc.0 + FINE[d[0]], loc.1 + FINE[d[1]]) } else { (loc.0 + g(d[0], size.0), loc.1 + g(d[1], size.1)) };
    let o = if d[6] == 0 { Orientation::TopToBottom } else { Orientation::LeftToRight };
    c.state(h(&(fine, i)));
    at(d[5], size, loc, from, force, o, c)
}
/// Thin, tiny, huge and nearly regular shapes.
const SIDES: [f64; 14] = [0.3, 1., 2., 5., 38., 39.9, 40., 40.5, 42., 60., 100., 300., 1000., 5000.];
const REL: [f64; 17] = [0., 1e-4, -1e-4, 0.02, -0.02, 0.3, -0.3, 0.49, -0.49, 0.51, -0.51, 0.9, -0.9, 4., -4., 90., -90.];
const RATIO_DIMS: [usize; 6] = [REL.len(), REL.len(), SIDES.len(), SIDES.len(), 4, 2];
fn ratios(i: u64, c: &mut Ctx) -> Result<(), String> {
    let d = mixed(i, &RATIO_DIMS);
    let size = (SIDES[d[2]], SIDES[d[3]]);
    let loc = [(0., 0.), (120.5, -31.)][d[5]];
    let from = (loc.0 + REL[d[0]] * size.0, loc.1 + REL[d[1]] * size.1);
    c.state(h(&("ratio", i)));
    // An approach from next to the center has its direction rounded.
    let o = if (d[0] + d[1]) % 2 == 0 { Orientation::TopToBottom } else { Orientation::LeftToRight };
    at(d[4], size, loc, from, 10., o, c)
}
fn at(kind: usize, size: (f64, f64), loc: (f64, f64), from: (f64, f64), force: f64, o: Orientation, c: &mut Ctx) -> Result<(), String> {
    let mut e = Element::create(shape(kind), StyleAttr::simple(), o, Point::new(size.0, size.1));
    e.move_to(Point::new(loc.0, loc.1));
    let (p, q) = e.get_connector_location(Point::new(from.0, from.1), force, &None);
    c.transitions += 1;
    let ok = if kind == 1 || kind == 2 { on_ellipse(loc, size, (p.x, p.y)) } else { on_box(loc, size, (p.x, p.y)) };
    if !ok {
        return Err(format!("attached at {:?}, which is not on the outline", p));
    }
    let len = ((q.x - p.x).powi(2) + (q.y - p.y).powi(2)).sqrt();
    if (len - force).abs() > 1e-6 * force {
        return Err(format!("control point {:?} of {:?} is {} away instead of {}", q, p, len, force));
    }
    // The control point lies in the direction of the other end.
    let (vx, vy) = (from.0 - p.x, from.1 - p.y);
    let dist = (vx * vx + vy * vy).sqrt();
    if dist > 1e-6 {
        let (wx, wy) = (q.x - p.x, q.y - p.y);
        if (vx * wy - vy * wx).abs() > 1e-5 * dist * force || vx * wx + vy * wy <= 0. {
            return Err(format!("control point {:?} of {:?} does not point to {:?}", q, p, from));
        }
    }
    // Seen from outside, the point is on the visible side: halfway to the other
    // end and a bit beyond the shape nothing of the shape is crossed.
    for s in 1..8 {
        let t = s as f64 / 8.;
        let m = (p.x + vx * t - loc.0, p.y + vy * t - loc.1);
        let inside = |f: f64, x: (f64, f64)| {
            let (a, b) = (x.0.abs() / (size.0 / 2.), x.1.abs() / (size.1 / 2.));
            if kind == 1 || kind == 2 {
                a * a + b * b < f * f
            } else {
                a < f && b < f
            }
        };
        let outside = !inside(1. + 1e-6, (from.0 - loc.0, from.1 - loc.1));
        if outside && inside(1. - 1e-6, m) {
            return Err(format!("the line from {:?} to the attachment {:?} crosses the shape", from, p));
        }
    }
    // Round shapes: on the line to the center.
    if (kind == 1 || kind == 2) && from != loc {
        let (ax, ay) = (p.x - loc.0, p.y - loc.1);
        let (bx, by) = (from.0 - loc.0, from.1 - loc.1);
        let n = ((ax * ax + ay * ay) * (bx * bx + by * by)).sqrt();
        if (ax * by - ay * bx).abs() > 1e-5 * n || ax * bx + ay * by < 0. {
            return Err(format!("{:?} is not on the line from the center to {:?}", p, from));
        }
    }
    Ok(())
}
/// Shapes without width or height are lines or points.
const FLATS: [(f64, f64); 7] = [(0., 0.), (0., 40.), (40., 0.), (0., 0.5), (1000., 0.), (0., 5000.), (60., 40.)];
const AROUND: [f64; 15] = [0., 1e-3, -1e-3, 0.5, -0.5, 20., -20., 20.5, -20.5, 30., -30., 100., -100., 5000., -5000.];
const FLAT_DIMS: [usize; 5] = [AROUND.len(), AROUND.len(), FLATS.len(), 4, 4];
fn flat(i: u64, c: &mut Ctx) -> Result<(), String> {
    let d = mixed(i, &FLAT_DIMS);
    let (size, kind) = (FLATS[d[2]], d[3]);
    let loc = [(0., 0.), (33.5, -12.25)][d[4] / 2];
    let from = (loc.0 + AROUND[d[0]], loc.1 + AROUND[d[1]]);
    let o = if d[4] % 2 == 0 { Orientation::TopToBottom } else { Orientation::LeftToRight };
    c.state(h(&("flat", i)));
    c.transitions += 1;
    let mut e = Element::create(shape(kind), StyleAttr::simple(), o, Point::new(size.0, size.1));
    e.move_to(Point::new(loc.0, loc.1));
    for port in [None, Some("q".to_string())] {
        let (p, q) = e.get_connector_location(Point::new(from.0, from.1), 30., &port);
        let t = 1e-6 * (1. + size.0 + size.1);
        // Not on the outline of a cell, but within the record.
        if !((p.x - loc.0).abs() <= size.0 / 2. + t && (p.y - loc.1).abs() <= size.1 / 2. + t) {
            return Err(format!("attached at {:?}, which is not on the shape", p));
        }
        let len = ((q.x - p.x).powi(2) + (q.y - p.y).powi(2)).sqrt();
        if !((len - 30.).abs() < 1e-4) {
            return Err(format!("control point {:?} of {:?} is {} away instead of 30", q, p, len));
        }
    }
    Ok(())
}
fn through(i: u64, n: usize, c: &mut Ctx) -> Result<(), String> {
    let d = mixed(i, &[n, n, n, n, 3]);
    let k = (n as f64 - 1.) / 2.;
    let g = |x: usize| (x as f64 - k) * 25.;
    let center = Point::new(0., 0.);
    let (from, to) = (Point::new(g(d[0]), g(d[1])), Point::new(g(d[2]), g(d[3])));
    if from == center || to == center {
        c.skip("no direction");
        return Ok(());
    }
    let force = FORCE[d[4]];
    c.state(i);
    c.transitions += 1;
    let mut e = Element::create_connector("", &StyleAttr::simple(), Orientation::TopToBottom);
    e.position_mut().set_size(Point::new(1., 1.));
    for (p, q) in [e.get_passthrough_path(from, to, force), get_passthrough_path_invisible(Point::new(1., 1.), center, from, to, force)] {
        if p != center {
            return Err(format!("the edge goes through {:?} and not through {:?}", p, center));
        }
        let len = (q.x * q.x + q.y * q.y).sqrt();
        if !(len <= force * (1. + 1e-9)) {
            return Err(format!("control point {:?} is farther than {}", q, force));
        }
        // Where one side is vertical or horizontal, the edge leaves along it.
        let straight = |v: Point| v.x == 0. || v.y == 0.;
        // Both sides in (nearly) the same direction: the edge makes a bow.
        let unit = |v: Point| v.scale(1. / (v.x * v.x + v.y * v.y).sqrt());
        let bow = unit(from).sub(unit(to)).length() * force < 1. + 1e-6;
        let side = if bow {
            None
        } else if straight(to) {
            Some((to.x, to.y))
        } else if straight(from) {
            Some((-from.x, -from.y))
        } else {
            None
        };
        if let Some(v) = side {
            let l = (v.0 * v.0 + v.1 * v.1).sqrt();
            // The control point comes before the point, on the line.
            let (wx, wy) = (center.x - v.0 / l * force, center.y - v.1 / l * force);
            if (q.x - wx).abs() > 1e-6 * force || (q.y - wy).abs() > 1e-6 * force {
                return Err(format!("the edge from {:?} to {:?} does not run straight into the axis: {:?}", from, to, q));
            }
        }
        // A straight line stays straight.
        let cross = from.x * to.y - from.y * to.x;
        let dot = from.x * to.x + from.y * to.y;
        if cross == 0. && dot < 0. {
            let off = (q.x * from.y - q.y * from.x).abs() / (from.x * from.x + from.y * from.y).sqrt();
            if off > 1e-6 * force || q.x * from.x + q.y * from.y < 0. {
                return Err(format!("the control point {:?} leaves the straight line from {:?} to {:?}", q, from, to));
            }
        }
    }
    Ok(())
}
fn plan_(t: Tier) -> Plan {
    let n = t.pick(25, 49);
    let m = t.pick(9, 15);
    plan(
        vec![
            family(
                "attachment",
                &format!("box, circle, double circle and record of 4 sizes at 3 places, approached from every point of a {0}x{0} grid with 3 forces", n),
                mixed_total(&[n, n, 4, 3, 3, 4, 2]),
                move |i| format!("{:?}", mixed(i, &[n, n, 4, 3, 3, 4, 2])),
                move |i, c| attach(i, n, false, c),
            ),
            family(
                "fine-attachment",
                &format!("the same shapes, approached from all places with offsets {:?} in both directions, with 3 forces", FINE),
                mixed_total(&[FINE.len(), FINE.len(), 4, 3, 3, 4, 2]),
                move |i| format!("{:?}", mixed(i, &[FINE.len(), FINE.len(), 4, 3, 3, 4, 2])),
                move |i, c| attach(i, FINE.len(), true, c),
            ),
            family(
                "ratios",
                &format!("the same shapes with sides of all pairs of {:?} at 2 places, approached from all places with offsets of {:?} of their size", SIDES, REL),
                mixed_total(&RATIO_DIMS),
                |i| format!("{:?}", mixed(i, &RATIO_DIMS)),
                ratios,
            ),
            family(
                "flat",
                &format!("the same shapes with sizes of {:?}, approached from all places with offsets {:?}", FLATS, AROUND),
                mixed_total(&FLAT_DIMS),
                |i| format!("{:?}", mixed(i, &FLAT_DIMS)),
                flat,
            ),
            family(
                "passing",
                &format!("edges through a connector between all points of a {0}x{0} grid with 3 forces", m),
                mixed_total(&[m, m, m, m, 3]),
                move |i| format!("{:?}", mixed(i, &[m, m, m, m, 3])),
                move |i, c| through(i, m, c),
            ),
        ],
        "state = one (shape, size, place, approach) tuple; transition = one attachment computed and compared with the outline of the shape",
        &[],
    )
}
fn main() {
    mc::engine::main("G03", plan_)
}
