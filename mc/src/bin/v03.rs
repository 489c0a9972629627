//! V03: every drawing call becomes its SVG element.
use layout::backends::svg::SVGWriter;
use layout::core::color::Color;
use layout::core::format::RenderBackend;
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
use mc::engine::*;
use mc::svgread::{near, read, Doc, Item};

type P = (f64, f64);
#[derive(Clone, Debug)]
enum Op {
    Rect(P, P, usize, Option<&'static str>, bool),
    Circle(P, P, usize, Option<&'static str>),
    Line(P, P, usize),
    Text(P, String, usize),
    Arrow(usize, bool, (bool, bool), usize, Option<&'static str>, &'static str),
    Clip(P, P, usize),
}
const LOOKS: usize = 6;
fn looks(i: usize) -> StyleAttr {
    match i {
        0 => StyleAttr::simple(),
        1 => StyleAttr::new(Color::new(0x12ab9f80), 7, None, 15, 8),
        4 => StyleAttr::new(Color::new(0x00000000), 100, Some(Color::new(0xfffefdfc)), 1000, 1),
        5 => StyleAttr::new(Color::fast("#abc"), 2, Some(Color::fast("white")), 1, 200),
        2 => StyleAttr::new(Color::fast("red"), 0, Some(Color::fast("#00ff0001")), 3, 40),
        _ => StyleAttr::new(Color::fast("blue"), 1, Some(Color::fast("transparent")), 0, 15),
    }
}
fn paths(i: usize) -> Vec<(P, P)> {
    match i {
        0 => vec![((10., 10.), (20., 30.)), ((40.5, 50.25), (60., 70.))],
        1 => vec![((1., 2.), (3., 4.)), ((5., 6.), (7., 8.)), ((90., 80.), (70., 60.))],
        3.. => (0..i).map(|k| (((k % 37) as f64 * 10., k as f64), ((k % 11) as f64, k as f64 * 0.5))).collect(),
        _ => vec![((0.125, 900.), (30., 4.)), ((55., 66.), (77., 88.)), ((9., 8.), (7., 6.)), ((300., 2.), (1.5, 0.))],
    }
}
fn ops() -> Vec<Op> {
    vec![
        Op::Rect((1., 2.), (30., 40.), 0, None, false),
        Op::Rect((10.5, 0.), (300., 4.), 1, Some("class=\"k\" data-x='1'"), false),
        Op::Rect((5., 6.), (7., 8.), 2, None, true),
        Op::Rect((0., 100.), (20., 20.), 3, Some(""), true),
        Op::Circle((50., 60.), (20., 30.), 0, None),
        Op::Circle((500., 6.), (1., 11.), 1, Some("id=\"mine\"")),
        Op::Line((1., 1.), (2., 300.), 0),
        Op::Line((70., 3.5), (0., 0.), 2),
        Op::Text((40., 50.), "text".into(), 0),
        Op::Text((400., 5.), "two\nlines".into(), 1),
        Op::Text((4., 500.), "".into(), 2),
        Op::Text((0.1, 0.3), "<&>".into(), 3),
        Op::Text((60., 70.), " x \n  \n\u{a0}".into(), 0),
        Op::Text((40., 50.), "text".into(), 0),
        Op::Arrow(0, true, (true, true), 2, None, "two words"),
        Op::Arrow(0, false, (false, true), 0, None, ""),
        Op::Arrow(1, true, (true, false), 1, Some("class=\"e\""), "label"),
        Op::Arrow(2, false, (true, true), 2, None, "a & b"),
        Op::Arrow(1, false, (false, false), 3, None, "x"),
        Op::Clip((1., 2.), (30., 40.), 15),
        Op::Clip((7., 0.5), (3., 4.), 1),
    ]
}
fn pt(p: P) -> Point {
    Point::new(p.0, p.1)
}
fn eq(a: P, b: P) -> bool {
    near(a.0, b.0) && near(a.1, b.1)
}
fn fill(l: &StyleAttr) -> Option<String> {
    l.fill_color.map(|c| c.to_web_color())
}
/// Without a fill nothing is painted.
fn fills(l: &StyleAttr, got: &str) -> bool {
    match fill(l) {
        Some(f) => f == got,
        None => got == "none" || got == "transparent" || (got.len() == 9 && got.ends_with("00")),
    }
}
fn grouped(props: &Option<&'static str>, g: &[(String, String)]) -> bool {
    let want: Vec<(String, String)> = match props {
        Some("class=\"k\" data-x='1'") => vec![("class".into(), "k".into()), ("data-x".into(), "1".into())],
        Some("id=\"mine\"") => vec![("id".into(), "mine".into())],
        Some("class=\"e\"") => vec![("class".into(), "e".into())],
        _ => vec![],
    };
    want.iter().all(|w| g.contains(w)) && g.len() == want.len()
}

fn run(v: &[usize], x: &mut Ctx) -> Result<(), String> {
    let all = ops();
    go(v.iter().map(|i| all[*i].clone()).collect(), x)
}
/// Parts of texts.
const PIECES: [&str; 12] = ["x", " ", "\n", "\u{a0}", "\t", "&", "\"", "<", "\u{e9}\u{1f600}", "]]>", "\\", "&#10;"];
fn piece_text(i: u64, len: usize) -> Vec<Op> {
    let t: String = seq(i, PIECES.len(), 0, len).into_iter().map(|x| PIECES[x]).collect();
    vec![Op::Text((40., 50.), t, 0)]
}
const PROPS: [Option<&str>; 4] = [None, Some(""), Some("class=\"e\""), Some("id=\"mine\"")];
const ARROW: [usize; 6] = [3, 2, 4, LOOKS, 4, 4];
fn arrow(d: &[usize]) -> Op {
    Op::Arrow(d[0], d[1] == 1, (d[2] & 1 == 1, d[2] & 2 == 2), d[3], PROPS[d[4]], ["", "x", "a & b", "two words"][d[5]])
}
const RECT: [usize; 5] = [3, 3, LOOKS, 4, 2];
const BOXES: [(P, P); 3] = [((1., 2.), (30., 40.)), ((1000.5, 0.), (0.25, 4.)), ((0., 100.), (0., 0.))];
fn shape(d: &[usize]) -> Vec<Op> {
    let b = BOXES[d[1]];
    let s = match d[0] {
        0 => Op::Rect(b.0, b.1, d[2], PROPS[d[3]], d[4] == 1),
        1 => Op::Circle((b.0 .0 + 500., b.0 .1 + 500.), b.1, d[2], PROPS[d[3]]),
        _ => Op::Line(b.0, b.1, d[2]),
    };
    vec![Op::Clip((3., 4.), (5., 6.), 7), s]
}
/// Two calls by turns, many times.
fn many(d: &[usize], z: &[usize]) -> Vec<Op> {
    let o = ops();
    (0..z[d[2]]).map(|k| o[d[k % 2]].clone()).collect()
}
/// Long paths, and long texts.
fn long(d: &[usize], z: &[usize]) -> Vec<Op> {
    let n = z[d[1]];
    vec![match d[0] {
        0 => Op::Arrow(n.max(3), false, (false, true), 0, None, "x"),
        1 => Op::Arrow(n.max(3), true, (true, false), 2, PROPS[2], ""),
        k => Op::Text((40., 50.), ["x", "\n", "x\n", " ", "&", "\u{e9}", "\u{1f600}\n", "ab\r\n"][k - 2].repeat(n), d[2]),
    }]
}
const NUMS: [f64; 12] = [0., 0.001, 0.1, 1. / 3., 1., 2.5, 99.995, 1000., 65536., 123456.789, 1e6, 3e7];
fn place(d: &[usize]) -> Vec<Op> {
    let (a, b) = ((NUMS[d[1]], NUMS[d[2]]), (NUMS[d[3]], NUMS[d[4]]));
    vec![match d[0] {
        0 => Op::Rect(a, b, 0, None, false),
        1 => Op::Circle(a, b, 1, None),
        2 => Op::Line(a, b, 2),
        _ => Op::Text(a, "x\ny".into(), d[3] % LOOKS),
    }]
}
fn go(v: Vec<Op>, x: &mut Ctx) -> Result<(), String> {
    let mut w = SVGWriter::new();
    let mut clips: Vec<(usize, P, P, usize)> = Vec::new();
    let mut want: Vec<(Op, Option<usize>)> = Vec::new();
    for op in v {
        x.transitions += 1;
        let mut clip = None;
        match &op {
            Op::Rect(a, b, l, p, c) => {
                clip = if *c { clips.last().map(|c| c.0) } else { None };
                w.draw_rect(pt(*a), pt(*b), &looks(*l), p.map(|x| x.to_string()), clip);
            }
            Op::Circle(a, b, l, p) => w.draw_circle(pt(*a), pt(*b), &looks(*l), p.map(|x| x.to_string())),
            Op::Line(a, b, l) => w.draw_line(pt(*a), pt(*b), &looks(*l), None),
            Op::Text(a, t, l) => w.draw_text(pt(*a), t, &looks(*l)),
            Op::Arrow(k, d, hd, l, p, t) => {
                let path: Vec<(Point, Point)> = paths(*k).into_iter().map(|(a, b)| (pt(a), pt(b))).collect();
                w.draw_arrow(&path, *d, *hd, &looks(*l), p.map(|x| x.to_string()), t);
            }
            Op::Clip(a, b, r) => {
                let k = w.create_clip(pt(*a), pt(*b), *r);
                if clips.iter().any(|c| c.0 == k && *c != (k, *a, *b, *r)) {
                    return Err(format!("two clip regions are number {}", k));
                }
                clips.push((k, *a, *b, *r));
                continue;
            }
        }
        want.push((op, clip));
    }
    let out = w.finalize();
    if out != w.finalize() {
        return Err("the document changes when it is taken twice".into());
    }
    x.state(h(&out));
    let d = read(&out)?;
    check(&d, &want, &clips)
}
fn check(d: &Doc, want: &[(Op, Option<usize>)], clips: &[(usize, P, P, usize)]) -> Result<(), String> {
    let mut it = d.items.iter();
    let mut ext = (0f64, 0f64);
    let mut grow = |p: P| ext = (ext.0.max(p.0), ext.1.max(p.1));
    for (op, clip) in want {
        let i = it.next().ok_or_else(|| format!("nothing is written for {:?}", op))?;
        let ok = match (op, i) {
            (Op::Rect(a, b, l, p, _), Item::Rect { x, y, w, h, rx, fill, stroke, width, clip: c, group }) => {
                grow((a.0 + b.0, a.1 + b.1));
                let s = looks(*l);
                let cl = match (clip, c) {
                    (None, None) => true,
                    (Some(k), Some(r)) => {
                        let want = clips.iter().find(|c| c.0 == *k).unwrap();
                        let g = d.clips.get(r).ok_or_else(|| format!("no clip region {:?}", r))?;
                        eq(want.1, (g.0, g.1)) && eq(want.2, (g.2, g.3)) && near(want.3 as f64, g.4)
                    }
                    _ => false,
                };
                eq(*a, (*x, *y)) && eq(*b, (*w, *h)) && near(s.rounded as f64, *rx) && fills(&s, fill) && *stroke == s.line_color.to_web_color() && near(s.line_width as f64, *width) && cl && grouped(p, group)
            }
            (Op::Circle(a, b, l, p), Item::Ellipse { c, r, fill, stroke, width, group }) => {
                grow((a.0 + b.0 / 2., a.1 + b.1 / 2.));
                let s = looks(*l);
                eq(*a, *c) && eq((b.0 / 2., b.1 / 2.), *r) && fills(&s, fill) && *stroke == s.line_color.to_web_color() && near(s.line_width as f64, *width) && grouped(p, group)
            }
            (Op::Line(a, b, l), Item::Line { a: p, b: q, stroke, width, .. }) => {
                let s = looks(*l);
                eq(*a, *p) && eq(*b, *q) && *stroke == s.line_color.to_web_color() && near(s.line_width as f64, *width)
            }
            (Op::Text(a, t, l), Item::Text { lines, font, anchor }) => {
                let f = looks(*l).font_size as f64;
                let ls: Vec<&str> = t.lines().collect();
                // The lines are one font size apart, around the point.
                let n = ls.len() as f64;
                let mut ok = lines.len() == ls.len() && near(f, *font) && anchor == "middle";
                for (k, (g, p)) in lines.iter().enumerate() {
                    ok = ok && g == ls[k] && near(p.0, a.0) && (p.1 - (a.1 + (k as f64 - (n - 1.) / 2.) * f)).abs() <= f * 0.01 + 1e-6;
                    let w = ls[k].chars().count() as f64 * f / 2.;
                    grow((p.0 + w, p.1 + f / 2.));
                }
                ok
            }
            (Op::Arrow(k, dash, hd, l, p, t), Item::Path { id, from, segs, stroke, width, dash: gd, head, group }) => {
                let s = looks(*l);
                let pa = paths(*k);
                for (a, b) in &pa[1..] {
                    let _ = a;
                    grow(*b);
                }
                grow(pa[0].0);
                let mut ok = eq(*from, pa[0].0) && segs.len() == pa.len() - 1 && *stroke == s.line_color.to_web_color() && near(s.line_width as f64, *width) && gd == dash && head == hd && grouped(p, group);
                for (k, g) in segs.iter().enumerate() {
                    // Smooth: the first control point mirrors the one before.
                    let a = if k == 0 { pa[0].1 } else { (2. * pa[k].1 .0 - pa[k].0 .0, 2. * pa[k].1 .1 - pa[k].0 .1) };
                    ok = ok && eq(g[0], a) && eq(g[1], pa[k + 1].0) && eq(g[2], pa[k + 1].1);
                }
                if ok && !(t.is_empty() && !matches!(it.clone().next(), Some(Item::PathText { .. }))) {
                    match it.next() {
                        Some(Item::PathText { href, text, font }) => ok = href == id && text == t && near(looks(*l).font_size as f64, *font),
                        _ => ok = false,
                    }
                }
                ok
            }
            _ => false,
        };
        if !ok {
            return Err(format!("{:?} is written as {:?}", op, i));
        }
    }
    if let Some(i) = it.next() {
        return Err(format!("{:?} is written, but was not drawn", i));
    }
    if ext.0 > d.view[0] + d.view[2] + 1e-6 || ext.1 > d.view[1] + d.view[3] + 1e-6 || !near(d.view[2], d.width) || !near(d.view[3], d.height) {
        return Err(format!("what is drawn reaches {:?}, the view is {:?}", ext, d.view));
    }
    Ok(())
}
fn plan_(t: Tier) -> Plan {
    let n = ops().len();
    let len = t.pick(4, 5);
    let tl = t.pick(5, 6);
    let am = mixed_total(&ARROW);
    let sm = mixed_total(&RECT);
    const PLACE: [usize; 5] = [4, NUMS.len(), NUMS.len(), NUMS.len(), NUMS.len()];
    let max = t.pick(302, 1026);
    let (z1, z3) = (mc::scale::sizes(max), mc::scale::sizes(1026));
    let (z2, z4) = (z1.clone(), z3.clone());
    let (mr, lr) = ([n, n, z1.len()], [10, z3.len(), LOOKS]);
    plan(
        vec![
            family(
                "calls",
                &format!("every sequence of up to {} of {} calls: rectangles (with and without clip region, fill, properties), ellipses, lines, texts, arrows (heads, dashes, labels), clip regions", len, n),
                seq_total(n, 0, len),
                move |i| {
                    let o = ops();
                    format!("{:?}", seq(i, n, 0, len).into_iter().map(|x| o[x].clone()).collect::<Vec<_>>())
                },
                move |i, c| run(&seq(i, n, 0, len), c),
            ),
            family(
                "texts",
                &format!("every text of up to {} of {:?}", tl, PIECES),
                seq_total(PIECES.len(), 0, tl),
                move |i| format!("{:?}", piece_text(i, tl)),
                move |i, c| go(piece_text(i, tl), c),
            ),
            family(
                "arrows",
                "every pair of arrows with 3 paths, dashed or not, all heads, 6 styles (widths 0, 1, 2, 7, 100), 4 properties and 4 labels; the first of a pair of 3 kinds",
                am * 3,
                move |i| format!("{} {:?}", i / am, arrow(&mixed(i % am, &ARROW))),
                move |i, c| {
                    let first = [0, 1 + 3 * 5, am - 1][(i / am) as usize];
                    go(vec![arrow(&mixed(first, &ARROW)), arrow(&mixed(i % am, &ARROW))], c)
                },
            ),
            family(
                "many-calls",
                &format!("every two calls by turns, up to {} of them", max),
                mixed_total(&mr),
                move |i| {
                    let d = mixed(i, &mr);
                    format!("{} calls, {:?} and {:?} by turns", z1[d[2]], ops()[d[0]], ops()[d[1]])
                },
                move |i, c| go(many(&mixed(i, &mr), &z2), c),
            ),
            family(
                "long-calls",
                "paths and texts of up to 1026 points, characters and lines",
                mixed_total(&lr),
                move |i| {
                    let d = mixed(i, &lr);
                    format!("kind {} of length {} with style {}", d[0], z3[d[1]], d[2])
                },
                move |i, c| go(long(&mixed(i, &lr), &z4), c),
            ),
            family(
                "places",
                &format!("rectangles, ellipses, lines and texts with every choice of places and sizes of {:?}", NUMS),
                mixed_total(&PLACE),
                |i| format!("{:?}", place(&mixed(i, &PLACE))),
                |i, c| go(place(&mixed(i, &PLACE)), c),
            ),
            family(
                "shapes",
                "every rectangle, ellipse and line of 3 sizes (also nothing), 6 styles, 4 properties, with and without clip region",
                sm,
                move |i| format!("{:?}", shape(&mixed(i, &RECT))),
                move |i, c| go(shape(&mixed(i, &RECT)), c),
            ),
        ],
        "state = one document; transition = one drawing call; the elements read back must be those calls in their order, with their places, sizes, styles, references and texts, inside of the view",
        &[],
    )
}
fn main() {
    mc::engine::main("V03", plan_)
}
