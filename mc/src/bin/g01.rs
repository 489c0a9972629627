//! G01: geometric predicates against exact integer arithmetic.
use layout::core::geometry::*;
use mc::engine::*;

fn pt(x: i64, y: i64) -> Point {
    Point::new(x as f64, y as f64)
}
/// -1: apart, 0: touching only, 1: the segment meets the inside of the box.
/// The box has a positive area.
fn segment_box(a: (i64, i64), b: (i64, i64), lo: (i64, i64), hi: (i64, i64)) -> i32 {
    // Separating axes: x, y and the normal of the segment.
    let mut touch = false;
    for (s0, s1, r0, r1) in [(a.0.min(b.0), a.0.max(b.0), lo.0, hi.0), (a.1.min(b.1), a.1.max(b.1), lo.1, hi.1)] {
        if s1 < r0 || s0 > r1 {
            return -1;
        }
        if s1 == r0 || s0 == r1 {
            touch = true;
        }
    }
    let n = (-(b.1 - a.1), b.0 - a.0);
    if n != (0, 0) {
        let d = |p: (i64, i64)| n.0 * (p.0 - a.0) + n.1 * (p.1 - a.1);
        let v = [d(lo), d((lo.0, hi.1)), d((hi.0, lo.1)), d(hi)];
        let (mn, mx) = (*v.iter().min().unwrap(), *v.iter().max().unwrap());
        if mn > 0 || mx < 0 {
            return -1;
        }
        if mn == 0 || mx == 0 {
            touch = true;
        }
    }
    if touch {
        0
    } else {
        1
    }
}
fn seg_case(i: u64, n: i64, w: i64, hgt: i64) -> ((i64, i64), (i64, i64), (i64, i64), (i64, i64)) {
    let k = n as usize;
    let d = mixed(i, &[k, k, k, k, 3]);
    let p = |x: usize| x as i64;
    // The box sits in the middle of the grid, elsewhere, or around the origin.
    let (lo, shift) = match d[4] {
        0 => ((n / 2 - w / 2, n / 2 - hgt / 2), (0, 0)),
        1 => ((1, 2), (100, 1000)),
        _ => ((n / 2 - w / 2, n / 2 - hgt / 2), (-n / 2, -n / 2)),
    };
    let s = |q: (i64, i64)| (q.0 + shift.0, q.1 + shift.1);
    (s((p(d[0]), p(d[1]))), s((p(d[2]), p(d[3]))), s(lo), s((lo.0 + w, lo.1 + hgt)))
}
fn seg(i: u64, n: i64, w: i64, hgt: i64, c: &mut Ctx) -> Result<(), String> {
    let (a, b, lo, hi) = seg_case(i, n, w, hgt);
    let want = segment_box(a, b, lo, hi);
    c.state(h(&(a, b, lo, hi)));
    c.transitions += 1;
    let got = segment_rect_intersection((pt(a.0, a.1), pt(b.0, b.1)), (pt(lo.0, lo.1), pt(hi.0, hi.1)));
    c.outcome(h(&(want, got)));
    if want == 0 {
        c.skip("touching only");
        return Ok(());
    }
    if got != (want == 1) {
        return Err(format!("intersection reported: {}, expected {}", got, want == 1));
    }
    Ok(())
}
/// The same, much smaller or larger, and elsewhere. Grid points are exact in binary.
const SCALE: [f64; 6] = [1. / 1024., 0.5, 3., 64., 1024., 65536.];
const MOVE: [(i64, i64); 4] = [(0, 0), (-5, 3), (1000, -2000), (-3, -100000)];
fn scaled(i: u64, c: &mut Ctx) -> Result<(), String> {
    let d = mixed(i, &[SCALE.len(), MOVE.len(), 2]);
    let n = i / (SCALE.len() * MOVE.len() * 2) as u64;
    let (s, m) = (SCALE[d[0]], MOVE[d[1]]);
    let f = |p: (i64, i64)| Point::new((p.0 + m.0) as f64 * s, (p.1 + m.1) as f64 * s);
    c.transitions += 1;
    c.state(i);
    if d[2] == 0 {
        let (a, b, lo, hi) = seg_case(3 * n, 7, 2, 3);
        let want = segment_box(a, b, lo, hi);
        let got = segment_rect_intersection((f(a), f(b)), (f(lo), f(hi)));
        if want == 0 {
            c.skip("touching only");
        } else if got != (want == 1) {
            return Err(format!("segment {:?}-{:?} and box {:?}-{:?}: intersection reported: {}, expected {}", f(a), f(b), f(lo), f(hi), got, want == 1));
        }
    } else {
        // Two boxes, with a point of each from n.
        let v: Vec<i64> = mixed(n, &[7, 7, 7, 7]).into_iter().map(|x| x as i64).collect();
        let (a, b) = ((v[0], v[1]), (v[2], v[3]));
        for (w, hg) in [(1, 1), (3, 1), (2, 5)] {
            let want = a.0 < b.0 + w && b.0 < a.0 + 2 && a.1 < b.1 + hg && b.1 < a.1 + 3;
            let (x, y) = ((f(a), f((a.0 + 2, a.1 + 3))), (f(b), f((b.0 + w, b.1 + hg))));
            if do_boxes_intersect(x, y) != want || do_boxes_intersect(y, x) != want {
                return Err(format!("the boxes {:?} and {:?} intersect: {}, expected {}", x, y, !want, want));
            }
        }
    }
    Ok(())
}
fn boxes(i: u64, n: usize, c: &mut Ctx) -> Result<(), String> {
    let v: Vec<i64> = digits(i, n, 8).into_iter().map(|x| x as i64).collect();
    let a = ((v[0].min(v[1]), v[2].min(v[3])), (v[0].max(v[1]), v[2].max(v[3])));
    let b = ((v[4].min(v[5]), v[6].min(v[7])), (v[4].max(v[5]), v[6].max(v[7])));
    c.transitions += 1;
    let f = |p: ((i64, i64), (i64, i64))| (pt(p.0 .0, p.0 .1), pt(p.1 .0, p.1 .1));
    let (x, y) = (do_boxes_intersect(f(a), f(b)), do_boxes_intersect(f(b), f(a)));
    let want = a.0 .0.max(b.0 .0) < a.1 .0.min(b.1 .0) && a.0 .1.max(b.0 .1) < a.1 .1.min(b.1 .1);
    c.state(h(&(a, b)));
    let empty = |p: ((i64, i64), (i64, i64))| p.0 .0 == p.1 .0 || p.0 .1 == p.1 .1;
    if empty(a) || empty(b) {
        c.skip("box without an area");
        return Ok(());
    }
    if x != want || y != want {
        return Err(format!("{:?} and {:?} intersect: {}/{}, expected {}", a, b, x, y, want));
    }
    Ok(())
}
/// Long lists, in many orders.
const ORDERS: usize = 12;
fn long_list(order: usize, n: usize) -> Vec<f64> {
    (0..n)
        .map(|i| match order {
            0 => i as f64,
            1 => (n - i) as f64,
            2 => ((i * 7 + 3) % n) as f64 * 1.25,
            3 => (i % 2) as f64 * 100. + i as f64,
            4 => (i % 3) as f64,
            5 => 5.,
            6 => ((i + n / 2) % n) as f64,
            7 => -(((i * 11) % 17) as f64) * 0.1,
            8 => (i * i % 101) as f64 - 50.5,
            9 => if i < n / 2 { (2 * i) as f64 } else { (2 * (i - n / 2) + 1) as f64 },
            10 => (i as f64 * 37.) % 1000. * 1e6,
            _ => if i == 0 { n as f64 } else { (i - 1) as f64 },
        })
        .collect()
}
fn median(v: &[usize], c: &mut Ctx) -> Result<(), String> {
    median_of(v.iter().map(|x| *x as f64 * 2.0 - 3.0).collect(), c)
}
fn median_of(f: Vec<f64>, c: &mut Ctx) -> Result<(), String> {
    c.state(h(&format!("{:?}", f)));
    c.transitions += 1;
    let m = weighted_median(&f);
    let mut s = f.clone();
    // Sort by insertion.
    for i in 1..s.len() {
        let mut j = i;
        while j > 0 && s[j - 1] > s[j] {
            s.swap(j - 1, j);
            j -= 1;
        }
    }
    let want = (s[(s.len() - 1) / 2] + s[s.len() / 2]) / 2.;
    if m != want {
        return Err(format!("the median of {:?} is {}, expected {}", f, m, want));
    }
    Ok(())
}
fn text(i: u64, len: usize) -> String {
    seq(i, 4, 0, len).into_iter().map(|x| ['a', '\n', 'é', ' '][x]).collect()
}
fn close(a: f64, b: f64) -> bool {
    (a - b).abs() < 1e-9 * (1. + a.abs() + b.abs())
}
fn vectors(i: u64, c: &mut Ctx) -> Result<(), String> {
    let d = mixed(i, &[7, 7, 7, 7, 5]);
    let g = |x: usize| x as f64 * 1.5 - 4.5;
    let (a, b) = (Point::new(g(d[0]), g(d[1])), Point::new(g(d[2]), g(d[3])));
    let s = [0.5, 1., 2., 30., 1e6][d[4]];
    c.state(i);
    c.transitions += 1;
    let dist = ((a.x - b.x).powi(2) + (a.y - b.y).powi(2)).sqrt();
    let e = |w: &str| Err(format!("{} of {:?} and {:?} (scale {})", w, a, b, s));
    if !close(a.distance_to(b), dist) || !close(b.distance_to(a), dist) {
        return e("distance");
    }
    if a.add(b).sub(b) != a || a.neg().neg() != a || a.transpose().transpose() != a || a.transpose() != Point::new(a.y, a.x) {
        return e("sum, negation or transposition");
    }
    if !close(a.sub(b).length(), dist) || !close(a.scale(s).length(), a.length() * s) {
        return e("length");
    }
    if a.length() > 0. {
        let n = normalize_scale_vector(a, s);
        if !close(n.length(), s) || !close(n.x * a.y - n.y * a.x, 0.) || n.x * a.x + n.y * a.y < 0. {
            return e("normalized vector");
        }
    }
    let (p, q) = create_vector_of_length(a, b, s);
    let q = q.sub(a);
    if p != a || (q.length() - s).abs() > 1e-6 * s {
        return e("vector of a length");
    }
    let r = b.sub(a);
    if dist > 0. && ((q.x * r.y - q.y * r.x).abs() > 1e-6 * s * dist || q.x * r.x + q.y * r.y <= 0.) {
        return e("direction of a vector");
    }
    for k in 0..8 {
        let ang = k as f64 * std::f64::consts::FRAC_PI_4;
        let t = a.rotate_around(b, ang);
        if (t.distance_to(b) - dist).abs() > 1e-9 * (1. + dist) {
            return e("rotation");
        }
        let dot = (t.x - b.x) * (a.x - b.x) + (t.y - b.y) * (a.y - b.y);
        let cross = (a.x - b.x) * (t.y - b.y) - (a.y - b.y) * (t.x - b.x);
        if (dot - dist * dist * ang.cos()).abs() > 1e-6 * (1. + dist * dist) || (cross - dist * dist * ang.sin()).abs() > 1e-6 * (1. + dist * dist) {
            return e("angle of a rotation");
        }
    }
    for k in 0..=4 {
        let w = k as f64 / 4.;
        let m = interpolate(a, b, w);
        if !close(m.x, a.x * w + b.x * (1. - w)) || !close(m.y, a.y * w + b.y * (1. - w)) {
            return e("interpolation");
        }
    }
    let sq = make_size_square(a);
    if sq != Point::splat(a.x.max(a.y)) || pad_shape_scalar(a, s) != Point::new(a.x + s, a.y + s) {
        return e("square or padded size");
    }
    if in_range((a.x, a.y), b.x) != (a.x <= b.x && b.x <= a.y) {
        return e("range");
    }
    Ok(())
}
fn text_size(s: &str, c: &mut Ctx) -> Result<(), String> {
    c.state(h(s));
    for f in [1usize, 14, 99, 1000] {
        c.transitions += 1;
        let z = get_size_for_str(s, f);
        let (w, hg) = mc::scene::text_extent(s, f);
        let want = (w.max(f as f64), hg.max(f as f64));
        if (z.x, z.y) != want {
            return Err(format!("size {:?} at font size {}, expected {:?}", (z.x, z.y), f, want));
        }
    }
    Ok(())
}
fn plan_(t: Tier) -> Plan {
    let segs = |name: &str, n: i64, w: i64, hg: i64| {
        family(
            name,
            &format!("every segment between points of a {0}x{0} grid against a {1}x{2} box, in three places", n, w, hg),
            (n as u64).pow(4) * 3,
            move |i| {
                let (a, b, lo, hi) = seg_case(i, n, w, hg);
                format!("segment {:?}-{:?} box {:?}-{:?}", a, b, lo, hi)
            },
            move |i, c| seg(i, n, w, hg, c),
        )
    };
    let tl = t.pick(6, 8);
    let ml = t.pick(6, 8);
    let bn = t.pick(6, 8);
    plan(
        vec![
            segs("segment-square", t.pick(13, 25), 4, 4),
            segs("segment-wide", t.pick(13, 25), 6, 2),
            segs("segment-high", t.pick(13, 25), 1, 7),
            segs("segment-unit", t.pick(9, 15), 1, 1),
            family("boxes", &format!("every pair of boxes with corners on a {0}x{0} grid", bn), (bn as u64).pow(8), move |i| format!("{:?}", digits(i, bn, 8)), move |i, c| boxes(i, bn, c)),
            family("median", &format!("every list of up to {} of 5 values", ml), seq_total(5, 1, ml), move |i| format!("{:?}", seq(i, 5, 1, ml)), move |i, c| median(&seq(i, 5, 1, ml), c)),
            text_family("text-size", &format!("every text of up to {} of a, newline, é and blank, at 3 font sizes", tl), seq_total(4, 0, tl), move |i| text(i, tl), text_size),
            family("scaled", "every segment between points of a 7x7 grid against a 2x3 box, and every two of boxes at them, at 6 scales in 4 places", 7u64.pow(4) * (SCALE.len() * MOVE.len() * 2) as u64, |i| format!("{:?}", mixed(i, &[SCALE.len(), MOVE.len(), 2])), scaled),
            {
                let z = mc::scale::sizes(1026);
                let z2 = z.clone();
                let r = [ORDERS, z.len()];
                family("long-median", &format!("lists of up to 1026 values in {} orders", ORDERS), mixed_total(&r), move |i| format!("{:?}", long_list(mixed(i, &r)[0], z2[mixed(i, &r)[1]])), move |i, c| median_of(long_list(mixed(i, &r)[0], z[mixed(i, &r)[1]]), c))
            },
            {
                let z = mc::scale::sizes(1026);
                let r = [8, 5, z.len()];
                text_family(
                    "long-text-size",
                    "texts of up to 1026 repeated characters or lines, with and without something before, at 4 font sizes",
                    mixed_total(&r),
                    move |i| {
                        let d = mixed(i, &r);
                        format!("{}{}", ["", "x", "\n", "xyz\n", "\u{e9}"][d[1]], ["a", "\n", "\u{4e2d}", " ", "a\n", "ab\r\n", "\t", "aaaaaaaaaa\n\n"][d[0]].repeat(z[d[2]]))
                    },
                    text_size,
                )
            },
            family("vectors", "every pair of vectors on a 7x7 grid at 5 lengths", 7u64.pow(4) * 5, |i| format!("{:?}", mixed(i, &[7, 7, 7, 7, 5])), vectors),
        ],
        "state = one argument tuple; transition = one call, compared with exact integer arithmetic (vector functions: with their defining equations within rounding)",
        &["segments that only touch a box and boxes without an area may be judged either way"],
    )
}
fn main() {
    mc::engine::main("G01", plan_)
}
