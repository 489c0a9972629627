//! V02: names in the SVG document are unique, and what refers to one finds it.
use layout::backends::svg::SVGWriter;
use layout::core::color::Color;
use layout::core::format::RenderBackend;
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
use mc::engine::*;
use mc::gen::*;
use mc::rec::svg;
use mc::svgread::{read, Item};
use std::collections::BTreeSet;

fn run(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let out = svg(&c.text(), c.flags)?;
    x.state(h(&out));
    // Reading fails if the class of a text has no style, or two.
    let d = read(&out)?;
    x.transitions += (d.ids.len() + d.refs.len()) as u64;
    let mut ids = BTreeSet::new();
    for i in &d.ids {
        if !ids.insert(i.clone()) {
            return Err(format!("two elements have the id {:?}", i));
        }
    }
    for r in &d.refs {
        if !ids.contains(r) {
            return Err(format!("nothing has the id {:?}", r));
        }
    }
    // Every text along an edge runs along its own edge; arrow heads are markers.
    let mut seen = BTreeSet::new();
    let mut last = String::new();
    for i in &d.items {
        match i {
            Item::Path { id, .. } => last = id.clone(),
            Item::PathText { href, .. } => {
                if !seen.insert(href.clone()) || *href != last {
                    return Err(format!("the text after edge {:?} runs along {:?}", last, href));
                }
            }
            _ => {}
        }
    }
    // A rounded record is clipped by a region of its own place.
    let rounded: Vec<usize> = (0..c.n).filter(|i| NODE_STYLES[c.nstyle[*i]].contains("Mrecord")).collect();
    let mut used = BTreeSet::new();
    for i in &d.items {
        if let Item::Rect { x, y, w, h, clip: Some(r), .. } = i {
            used.insert(r.clone());
            let (cx, cy, cw, ch, rx) = d.clips[r];
            let inside = *x >= cx - 1e-6 && *y >= cy - 1e-6 && x + w <= cx + cw + 1e-6 && y + h <= cy + ch + 1e-6;
            if !inside || rx <= 0. {
                return Err(format!("the rectangle {:?} is clipped to {:?}", (x, y, w, h), d.clips[r]));
            }
        }
    }
    if used.len() != rounded.len() || d.clips.len() != rounded.len() {
        return Err(format!("{} clip regions ({} used) for {} rounded records", d.clips.len(), used.len(), rounded.len()));
    }
    Ok(())
}
/// Two font sizes in one document, in the order and by the calls of `how`.
fn fonts(a: usize, b: usize, how: usize, x: &mut Ctx) -> Result<(), String> {
    let st = |f| StyleAttr::new(Color::fast("black"), 1, None, 0, f);
    let mut w = SVGWriter::new();
    let put = |w: &mut SVGWriter, f: usize, arrow: bool| {
        if arrow {
            let (p, q) = (Point::new(10., 10.), Point::new(90., 90.));
            w.draw_arrow(&[(p, q), (p, q)], false, (false, true), &st(f), None, "t");
        } else {
            w.draw_text(Point::new(50., 50.), "t", &st(f));
        }
    };
    put(&mut w, a, how & 1 == 1);
    put(&mut w, b, how & 2 == 2);
    put(&mut w, a, how & 2 == 2);
    let d = read(&w.finalize())?;
    x.state(h(&(a, b, how)));
    x.transitions += 3;
    let got: Vec<f64> = d
        .items
        .iter()
        .filter_map(|i| match i {
            Item::Text { font, .. } | Item::PathText { font, .. } => Some(*font),
            _ => None,
        })
        .collect();
    if got != [a as f64, b as f64, a as f64] {
        return Err(format!("texts of font sizes {} and {} are written with {:?}", a, b, got));
    }
    Ok(())
}
/// What a document may be made of, many times over.
const CALLS: [&str; 5] = ["arrow with a text", "arrow", "clip region and rectangle", "text", "text of another size"];
fn many(pattern: &[usize], n: usize, x: &mut Ctx) -> Result<(), String> {
    let st = |f| StyleAttr::new(Color::fast("black"), 1, None, 0, f);
    let mut w = SVGWriter::new();
    let (p, q) = (Point::new(10., 10.), Point::new(90., 90.));
    let mut want = (0, 0, 0);
    for k in 0..n {
        match pattern[k % pattern.len()] {
            0 => {
                w.draw_arrow(&[(p, q), (p, q)], false, (false, true), &st(14), None, &format!("t{}", k));
                want.0 += 1;
            }
            1 => w.draw_arrow(&[(p, q), (p, q)], k % 3 == 0, (true, true), &st(14), None, ""),
            2 => {
                let c = w.create_clip(Point::new(k as f64, 10.), Point::new(50., 50.), 9);
                w.draw_rect(Point::new(k as f64, 10.), Point::new(50., 50.), &st(14), None, Some(c));
                want.1 += 1;
            }
            3 => {
                w.draw_text(q, &format!("t{}", k), &st(14));
                want.2 += 1;
            }
            _ => {
                w.draw_text(q, &format!("t{}", k), &st(k + 1));
                want.2 += 1;
            }
        }
        x.transitions += 1;
    }
    let d = read(&w.finalize())?;
    x.state(h(&(pattern, n)));
    let ids: BTreeSet<&String> = d.ids.iter().collect();
    if ids.len() != d.ids.len() {
        return Err(format!("only {} of {} ids are different", ids.len(), d.ids.len()));
    }
    if let Some(r) = d.refs.iter().find(|r| !ids.contains(r)) {
        return Err(format!("nothing has the id {:?}", r));
    }
    // The k-th call made what has the text of the k-th call.
    let mut last = String::new();
    let mut got = (0, 0, 0);
    for i in &d.items {
        match i {
            Item::Path { id, .. } => last = id.clone(),
            Item::PathText { href, text, .. } if !text.is_empty() => {
                if *href != last {
                    return Err(format!("the text {:?} of the edge {:?} runs along {:?}", text, last, href));
                }
                got.0 += 1;
            }
            Item::Rect { x, clip: Some(r), .. } => {
                if (d.clips[r].0 - x).abs() > 1e-6 {
                    return Err(format!("the rectangle at {} is clipped to {:?}", x, d.clips[r]));
                }
                got.1 += 1;
            }
            Item::Text { font, lines, .. } => {
                let k: usize = lines[0].0[1..].parse().unwrap();
                let f = if pattern[k % pattern.len()] == 3 { 14 } else { k + 1 };
                if *font != f as f64 {
                    return Err(format!("the text {:?} is written with the font size {}, expected {}", lines[0].0, font, f));
                }
                got.2 += 1;
            }
            _ => {}
        }
    }
    if got != want {
        return Err(format!("{:?} texts along edges, clipped rectangles and texts, expected {:?}", got, want));
    }
    Ok(())
}
fn many_family(len: usize, max: usize) -> Family {
    let z = mc::scale::sizes(max);
    let np = seq_total(CALLS.len(), 1, len);
    let get = move |i: u64| (seq(i % np, CALLS.len(), 1, len), z[(i / np) as usize]);
    let g2 = get.clone();
    family(
        "many-calls",
        &format!("every pattern of up to {} of {:?}, repeated to up to {} calls", len, CALLS, max),
        np * mc::scale::sizes(max).len() as u64,
        move |i| {
            let (p, n) = g2(i);
            format!("{} calls: {}, and so on", n, p.iter().map(|k| CALLS[*k]).collect::<Vec<_>>().join(", "))
        },
        move |i, x| {
            let (p, n) = get(i);
            many(&p, n, x)
        },
    )
}
/// Clip regions that differ in some respects only.
fn regions(k: &[usize], x: &mut Ctx) -> Result<(), String> {
    let reg = |k: usize| ((k % 2 * 40 + 10) as f64, (k / 2 % 2 * 40 + 10) as f64, (k / 4 % 2 * 30 + 50) as f64, (k / 8 % 2 * 30 + 50) as f64, [0, 5, 15][k / 16]);
    let look = StyleAttr::new(Color::fast("black"), 1, None, 0, 14);
    let mut w = SVGWriter::new();
    let handles: Vec<_> = k
        .iter()
        .map(|k| {
            let r = reg(*k);
            w.create_clip(Point::new(r.0, r.1), Point::new(r.2, r.3), r.4)
        })
        .collect();
    for c in handles {
        w.draw_rect(Point::new(20., 20.), Point::new(30., 30.), &look, None, Some(c));
        x.transitions += 1;
    }
    let d = read(&w.finalize())?;
    x.state(h(&k));
    let got: Vec<_> = d
        .items
        .iter()
        .filter_map(|i| match i {
            Item::Rect { clip: Some(r), .. } => Some(d.clips[r]),
            _ => None,
        })
        .collect();
    let want: Vec<_> = k.iter().map(|k| reg(*k)).map(|r| (r.0, r.1, r.2, r.3, r.4 as f64)).collect();
    if got != want {
        return Err(format!("rectangles are clipped to {:?}, expected {:?}", got, want));
    }
    Ok(())
}
fn plan_(t: Tier) -> Plan {
    let mut f = standard_families(t, run);
    for g in [shaped(2, 2, &[0, 5, 6, 7, 9, 10], true, PLAIN), shaped(3, 1, &[0, 5, 6, 7], true, PLAIN), shaped(4, 1, &[5, 6], true, BOTH), labelled(2, 3, &[0, 1, 5, 6], PLAIN), shaped(2, 1, &[0, 5, 6], true, ALL)] {
        f.push(fam(g, run));
    }
    f.push(many_family(t.pick(2, 3), t.pick(302, 1026)));
    let len = t.pick(2, 3);
    f.push(family(
        "regions",
        &format!("every sequence of up to {} of 48 clip regions of two places, sizes and three roundings, each used by a rectangle", len),
        seq_total(48, 1, len),
        move |i| format!("regions {:?}", seq(i, 48, 1, len)),
        move |i, x| regions(&seq(i, 48, 1, len), x),
    ));
    let n = t.pick(221, 1101) as u64;
    f.push(family(
        "fonts",
        &format!("every two font sizes below {} in one document, as texts and as texts along edges", n),
        n * n * 4,
        move |i| format!("font sizes {} and {}, calls {}", i % n, i / n % n, i / n / n),
        move |i, x| fonts((i % n) as usize, (i / n % n) as usize, (i / n / n) as usize, x),
    ));
    plan(
        f,
        "state = one SVG document; transition = one name or reference read back: ids are unique, references (clip regions, arrow heads, texts along edges, font classes) find their target, and regions are those of their records",
        &[],
    )
}
fn main() {
    mc::engine::main("V02", plan_)
}
