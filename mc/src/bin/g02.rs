//! G02: positions of shapes, over operation sequences.
use layout::core::geometry::{Point, Position};
use mc::engine::*;

type V = (f64, f64);
#[derive(Clone, Copy, Debug)]
enum Op {
    MoveTo(V),
    Top(f64),
    Left(f64),
    Right(f64),
    AlignX(f64, bool),
    SetX(f64),
    SetY(f64),
    Size(V),
    Center(V),
    Translate(V),
    Transpose,
}
use Op::*;
const OPS: &[Op] = &[
    MoveTo((8., -4.)),
    MoveTo((0., 32.)),
    Top(16.),
    Top(-2.),
    Left(5.),
    Right(-7.),
    AlignX(12., true),
    AlignX(12., false),
    SetX(20.),
    SetY(21.),
    Size((40., 24.)),
    Size((16., 48.)),
    Center((6., 0.)),
    Center((0., -7.)),
    Center((0., 0.)),
    Translate((3., -9.)),
    Transpose,
];
/// The model: the box by its edges, the center as a point, the halo on each side.
#[derive(Clone, Debug)]
struct M {
    l: f64,
    t: f64,
    w: f64,
    hgt: f64,
    cx: f64,
    cy: f64,
    hx: f64,
    hy: f64,
}
impl M {
    fn shift(&mut self, dx: f64, dy: f64) {
        self.l += dx;
        self.cx += dx;
        self.t += dy;
        self.cy += dy;
    }
}
fn p(v: V) -> Point {
    Point::new(v.0, v.1)
}
fn compare(x: &Position, m: &M, err: Option<f64>) -> Result<(), String> {
    // Whole numbers are compared exactly.
    let e = err.unwrap_or(0.);
    let q = |a: f64, b: f64, w: &str| if (a - b).abs() <= e.max(if err.is_none() { 1e-9 } else { 0. }) { Ok(()) } else { Err(format!("{} is {}, expected {} in {:?}", w, a, b, m)) };
    let (mx, my) = (m.l + m.w / 2., m.t + m.hgt / 2.);
    q(x.middle().x, mx, "middle x")?;
    q(x.middle().y, my, "middle y")?;
    q(x.center().x, m.cx, "center x")?;
    q(x.center().y, m.cy, "center y")?;
    for (halo, hx, hy) in [(false, 0., 0.), (true, m.hx, m.hy)] {
        let (l, r, t, b) = (m.l - hx, m.l + m.w + hx, m.t - hy, m.t + m.hgt + hy);
        q(x.left(halo), l, "left")?;
        q(x.right(halo), r, "right")?;
        q(x.top(halo), t, "top")?;
        q(x.bottom(halo), b, "bottom")?;
        q(x.size(halo).x, r - l, "width")?;
        q(x.size(halo).y, b - t, "height")?;
        q(x.bbox(halo).0.x, l, "bbox left")?;
        q(x.bbox(halo).0.y, t, "bbox top")?;
        q(x.bbox(halo).1.x, r, "bbox right")?;
        q(x.bbox(halo).1.y, b, "bbox bottom")?;
        q(x.distance_to_left(halo), m.cx - l, "distance to left")?;
        q(x.distance_to_right(halo), r - m.cx, "distance to right")?;
        for (a, z, want) in [(l - e, r + e, true), (l - 1., r + 1., true), (l + (0.5f64).min(m.w / 9.), r + e, false), (l - e, r - (0.5f64).min(m.w / 9.), false)] {
            if x.in_x_range((a, z), halo) != want {
                return Err(format!("in_x_range(({}, {}), {}) is {}", a, z, halo, !want));
            }
        }
    }
    Ok(())
}
fn run(ops: &[Op], c: &mut Ctx) -> Result<(), String> {
    let x = Position::new(p((1., 2.)), p((32., 20.)), p((2., -3.)), p((10., 6.)));
    let m = M { l: -15., t: -8., w: 32., hgt: 20., cx: 3., cy: -1., hx: 5., hy: 3. };
    follow(x, m, ops, true, c)
}
/// Starts at another scale, far away or without a halo, with operations of
/// another scale.
const SCALES: &[f64] = &[0.001, 0.01, 0.1, 0.3, 1., 7., 100., 12345.];
const STARTS: usize = 4;
fn scaled(ops: &[Op], start: usize, z: f64, zo: f64, c: &mut Ctx) -> Result<(), String> {
    let (at, size, center, halo) = match start {
        0 => ((1. * z, 2. * z), (32. * z, 20. * z), (2. * z, -3. * z), (10. * z, 6. * z)),
        1 => ((1000. * z, -3000. * z), (3. * z, 2. * z), (0., 0.), (0., 0.)),
        2 => ((0., 0.), (32. * z, 1. * z), (0., 0.), (1. * z, 1. * z)),
        _ => ((-5. * z, 70. * z), (1. * z, 40. * z), (0.25 * z, -10. * z), (0., 2. * z)),
    };
    let x = Position::new(p(at), p(size), p(center), p(halo));
    let m = M { l: at.0 - size.0 / 2., t: at.1 - size.1 / 2., w: size.0, hgt: size.1, cx: at.0 + center.0, cy: at.1 + center.1, hx: halo.0 / 2., hy: halo.1 / 2. };
    let ops: Vec<Op> = ops.iter().map(|o| scale_op(o, zo)).collect();
    follow(x, m, &ops, false, c)
}
fn scale_op(o: &Op, z: f64) -> Op {
    let v = |a: V| (a.0 * z, a.1 * z);
    match *o {
        MoveTo(a) => MoveTo(v(a)),
        Top(a) => Top(a * z),
        Left(a) => Left(a * z),
        Right(a) => Right(a * z),
        AlignX(a, b) => AlignX(a * z, b),
        SetX(a) => SetX(a * z),
        SetY(a) => SetY(a * z),
        Size(a) => Size(v(a)),
        Center(a) => Center(v(a)),
        Translate(a) => Translate(v(a)),
        Transpose => Transpose,
    }
}
fn follow(mut x: Position, mut m: M, ops: &[Op], exact: bool, c: &mut Ctx) -> Result<(), String> {
    let size = |m: &M| [m.l, m.t, m.w, m.hgt, m.cx, m.cy, m.hx, m.hy].iter().fold(1e-3, |a: f64, b| a.max(b.abs()));
    // Rounding errors are those of the largest number that was seen.
    let mut big = size(&m);
    let mut steps = 1.;
    compare(&x, &m, if exact { None } else { Some(1e-14 * big) })?;
    for (i, op) in ops.iter().enumerate() {
        match *op {
            MoveTo(v) => {
                x.move_to(p(v));
                m.shift(v.0 - m.cx, v.1 - m.cy);
            }
            Top(v) => {
                x.align_to_top(v);
                m.shift(0., v - (m.t - m.hy));
            }
            Left(v) => {
                x.align_to_left(v);
                m.shift(v - (m.l - m.hx), 0.);
            }
            Right(v) | AlignX(v, false) => {
                if let Right(_) = op {
                    x.align_to_right(v);
                } else {
                    x.align_x(v, false);
                }
                m.shift(v - (m.l + m.w + m.hx), 0.);
            }
            AlignX(v, true) => {
                x.align_x(v, true);
                m.shift(v - (m.l - m.hx), 0.);
            }
            SetX(v) => {
                x.set_x(v);
                m.shift(v - m.cx, 0.);
            }
            SetY(v) => {
                x.set_y(v);
                m.shift(0., v - m.cy);
            }
            Size(v) => {
                x.set_size(p(v));
                // The middle stays.
                m.l += (m.w - v.0) / 2.;
                m.t += (m.hgt - v.1) / 2.;
                m.w = v.0;
                m.hgt = v.1;
            }
            Center(v) => {
                if v.0.abs() >= m.w || v.1.abs() >= m.hgt {
                    return Ok(());
                }
                x.set_new_center_point(p(v));
                m.cx = m.l + m.w / 2. + v.0;
                m.cy = m.t + m.hgt / 2. + v.1;
            }
            Translate(v) => {
                x.translate(p(v));
                m.shift(v.0, v.1);
            }
            Transpose => {
                x.transpose();
                m = M { l: m.t, t: m.l, w: m.hgt, hgt: m.w, cx: m.cy, cy: m.cx, hx: m.hy, hy: m.hx };
            }
        }
        c.transitions += 1;
        c.state(h(&[m.l, m.t, m.w, m.hgt, m.cx, m.cy, m.hx, m.hy].map(f64::to_bits)));
        big = big.max(size(&m));
        steps += 1.;
        compare(&x, &m, if exact { None } else { Some(1e-15 * big * (steps + 9.)) }).map_err(|e| format!("after step {} {:?}: {}", i + 1, op, e))?;
    }
    Ok(())
}
fn plan_(t: Tier) -> Plan {
    let len = t.pick(5, 7);
    let dec = move |i: u64| digits(i, OPS.len(), len).into_iter().map(|x| OPS[x]).collect::<Vec<_>>();
    let n = OPS.len();
    let sl = t.pick(3, 4);
    let sdec = move |i: u64| {
        let d = mixed(i, &[STARTS, SCALES.len(), SCALES.len()]);
        let ops: Vec<Op> = digits(i / (STARTS * SCALES.len() * SCALES.len()) as u64, n, sl).into_iter().map(|x| OPS[x]).collect();
        (d[0], SCALES[d[1]], SCALES[d[2]], ops)
    };
    // Two operations in turn, many times.
    let rdec = move |i: u64| {
        let d = mixed(i, &[n, n, SCALES.len(), STARTS]);
        let ops: Vec<Op> = (0..t.pick(60, 400)).map(|k| OPS[d[k % 2]]).collect();
        (d[3], SCALES[d[2]], ops)
    };
    plan(
        vec![
            family(
                "scales",
                &format!("every sequence of {} of the operations at the scales {:?}, from {} positions at the same scales (tiny, far away, thin, without a halo)", sl, SCALES, STARTS),
                (n as u64).pow(sl as u32) * (STARTS * SCALES.len() * SCALES.len()) as u64,
                move |i| format!("start, scale, scale of the operations {:?}", sdec(i)),
                move |i, c| {
                    let (s, z, zo, ops) = sdec(i);
                    scaled(&ops, s, z, zo, c)
                },
            ),
            family(
                "repeated",
                &format!("every two of the operations in turn, {} times, at 8 scales from 4 positions", t.pick(60, 400)),
                (n * n * SCALES.len() * STARTS) as u64,
                move |i| format!("start, scale {:?}", { let d = rdec(i); (d.0, d.1, d.2[0], d.2[1]) }),
                move |i, c| {
                    let (s, z, ops) = rdec(i);
                    scaled(&ops, s, 1., z, c)
                },
            ),
            family("op-sequences", &format!("every sequence of {} of the operations {:?}", len, OPS), (OPS.len() as u64).pow(len as u32), move |i| format!("{:?}", dec(i)), move |i, c| run(&dec(i), c)),
        ],
        "state = (box, center, halo) of the model; transition = one operation, after which every query of the real position is compared",
        &["centers outside of the shape are refused by the code and end a sequence"],
    )
}
fn main() {
    mc::engine::main("G02", plan_)
}
