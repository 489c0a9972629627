//! Reads an SVG drawing back: shapes, texts and paths with their styles.
use crate::xml::{self, Elem};
use std::collections::BTreeMap;

type P = (f64, f64);
#[derive(Clone, Debug)]
pub enum Item {
    Rect { x: f64, y: f64, w: f64, h: f64, rx: f64, fill: String, stroke: String, width: f64, clip: Option<String>, group: Vec<(String, String)> },
    Ellipse { c: P, r: P, fill: String, stroke: String, width: f64, group: Vec<(String, String)> },
    Line { a: P, b: P, stroke: String, width: f64, group: Vec<(String, String)> },
    /// Lines with the places where they are put.
    Text { lines: Vec<(String, P)>, font: f64, anchor: String },
    Path { id: String, from: P, segs: Vec<[P; 3]>, stroke: String, width: f64, dash: bool, head: (bool, bool), group: Vec<(String, String)> },
    PathText { href: String, text: String, font: f64 },
}
#[derive(Clone, Debug)]
pub struct Doc {
    pub root: Elem,
    pub width: f64,
    pub height: f64,
    pub view: [f64; 4],
    pub items: Vec<Item>,
    pub ids: Vec<String>,
    /// Targets of references.
    pub refs: Vec<String>,
    pub clips: BTreeMap<String, (f64, f64, f64, f64, f64)>,
}

fn style(s: &str) -> Result<BTreeMap<String, f64>, String> {
    // Rules of the form `.name { font-size: Npx; ... }`.
    let mut m = BTreeMap::new();
    for r in s.split('}') {
        let r = r.trim();
        if r.is_empty() {
            continue;
        }
        let (sel, body) = r.split_once('{').ok_or_else(|| format!("style rule {:?}", r))?;
        let name = sel.trim().strip_prefix('.').ok_or_else(|| format!("style selector {:?}", sel))?;
        for d in body.split(';') {
            if let Some((k, v)) = d.split_once(':') {
                if k.trim() == "font-size" {
                    let v = v.trim().strip_suffix("px").and_then(xml::number).ok_or_else(|| format!("font size {:?}", v))?;
                    if m.insert(name.to_string(), v).is_some() {
                        return Err(format!("style class {} is defined twice", name));
                    }
                }
            }
        }
    }
    Ok(m)
}

fn path(d: &str) -> Result<(P, Vec<[P; 3]>), String> {
    let t: Vec<String> = {
        let mut s = String::new();
        for c in d.chars() {
            if c.is_ascii_alphabetic() && c != 'e' {
                s.push(' ');
                s.push(c);
                s.push(' ');
            } else if c == ',' {
                s.push(' ');
            } else {
                s.push(c);
            }
        }
        s.split_whitespace().map(|x| x.to_string()).collect()
    };
    let mut i = 0;
    let pt = |i: &mut usize| -> Result<P, String> {
        let g = |k: usize| t.get(k).and_then(|x| xml::number(x)).ok_or_else(|| format!("bad number in path {:?}", d));
        let p = (g(*i)?, g(*i + 1)?);
        *i += 2;
        Ok(p)
    };
    let mut from = None;
    let mut segs: Vec<[P; 3]> = Vec::new();
    while i < t.len() {
        let cmd = t[i].clone();
        i += 1;
        match cmd.as_str() {
            "M" => {
                if from.is_some() {
                    return Err(format!("two starts in path {:?}", d));
                }
                from = Some(pt(&mut i)?);
            }
            "C" => {
                let s = [pt(&mut i)?, pt(&mut i)?, pt(&mut i)?];
                segs.push(s);
            }
            "S" => {
                let (b, c) = (pt(&mut i)?, pt(&mut i)?);
                let l = segs.last().ok_or_else(|| format!("S first in path {:?}", d))?;
                // The first control point mirrors the last one.
                let a = (2. * l[2].0 - l[1].0, 2. * l[2].1 - l[1].1);
                segs.push([a, b, c]);
            }
            x => return Err(format!("command {:?} in path {:?}", x, d)),
        }
    }
    match from {
        Some(f) if !segs.is_empty() => Ok((f, segs)),
        _ => Err(format!("empty path {:?}", d)),
    }
}

fn url(v: &str) -> Result<String, String> {
    v.strip_prefix("url(#").and_then(|x| x.strip_suffix(')')).map(|x| x.to_string()).ok_or_else(|| format!("reference {:?}", v))
}

pub fn read(svg: &str) -> Result<Doc, String> {
    let root = xml::parse(svg)?;
    if root.name != "svg" || root.attr("xmlns") != Some("http://www.w3.org/2000/svg") {
        return Err("not an svg document".into());
    }
    let v: Vec<f64> = root.attr("viewBox").unwrap_or("").split_whitespace().map(|x| xml::number(x).unwrap_or(f64::NAN)).collect();
    if v.len() != 4 || v.iter().any(|x| x.is_nan()) {
        return Err(format!("viewBox {:?}", root.attr("viewBox")));
    }
    let mut d = Doc {
        width: root.num("width")?,
        height: root.num("height")?,
        view: [v[0], v[1], v[2], v[3]],
        items: vec![],
        ids: vec![],
        refs: vec![],
        clips: BTreeMap::new(),
        root: root.clone(),
    };
    let mut fonts = BTreeMap::new();
    for e in root.all() {
        if e.name == "style" {
            for (k, v) in style(&e.text())? {
                fonts.insert(k, v);
            }
        }
        if let Some(i) = e.attr("id") {
            d.ids.push(i.to_string());
        }
        for k in ["clip-path", "marker-start", "marker-end"] {
            if let Some(v) = e.attr(k) {
                d.refs.push(url(v)?);
            }
        }
        if let Some(v) = e.attr("href") {
            d.refs.push(v.strip_prefix('#').ok_or_else(|| format!("href {:?}", v))?.to_string());
        }
        if e.name == "clipPath" {
            let r = e.elems().next().ok_or("empty clip path")?;
            d.clips.insert(
                e.attr("id").ok_or("clip path without id")?.to_string(),
                (r.num("x")?, r.num("y")?, r.num("width")?, r.num("height")?, r.num("rx")?),
            );
        }
    }
    walk(&root, &[], &fonts, &mut d)?;
    for e in root.all() {
        for (k, ahead) in [("marker-start", false), ("marker-end", true)] {
            if let Some(v) = e.attr(k) {
                let r = url(v)?;
                let m = root.all().into_iter().find(|m| m.attr("id") == Some(&r)).ok_or_else(|| format!("nothing has the id {:?}", r))?;
                marker(m, ahead)?;
            }
        }
    }
    Ok(d)
}

/// An arrow head: its tip is at the end of the path, the rest on the path's
/// side of it, on both sides of the path alike, in the colour of the path.
fn marker(m: &Elem, ahead: bool) -> Result<(), String> {
    if m.name != "marker" {
        return Err(format!("a marker is a <{}>", m.name));
    }
    let turn = match m.attr("orient") {
        Some("auto") => 1.,
        Some("auto-start-reverse") => -1.,
        o => return Err(format!("a marker has the orientation {:?}", o)),
    };
    // Along this direction of the marker the path ends.
    let dir = if ahead { 1. } else { -turn };
    let tip = (m.num("refX")?, m.num("refY")?);
    let g = m.elems().find(|k| k.name == "polygon").ok_or("a marker without a polygon")?;
    if g.attr("fill") != Some("context-stroke") {
        return Err(format!("a head is filled with {:?}", g.attr("fill")));
    }
    let c: Vec<f64> = g.attr("points").unwrap_or("").split(|c: char| c == ',' || c.is_whitespace()).filter(|x| !x.is_empty()).map(|x| xml::number(x).unwrap_or(f64::NAN)).collect();
    let p: Vec<P> = c.chunks(2).filter(|c| c.len() == 2).map(|c| ((c[0] - tip.0) * dir, c[1] - tip.1)).collect();
    let tips = p.iter().filter(|q| near(q.0, 0.) && near(q.1, 0.)).count();
    let behind = p.iter().filter(|q| q.0 < -1.).count();
    let even = p.iter().all(|q| p.iter().any(|r| near(q.0, r.0) && near(q.1, -r.1)));
    let inside = c.chunks(2).all(|c| c.iter().all(|x| *x >= 0.)) && c.chunks(2).all(|c| c[0] <= m.num("markerWidth").unwrap_or(3.) && c[1] <= m.num("markerHeight").unwrap_or(3.));
    let wide = p.iter().any(|q| q.1 > 0.5);
    if p.len() < 3 || tips != 1 || behind + tips != p.len() || !even || !inside || !wide {
        return Err(format!("a head at the {} of a path is {:?} around {:?}", if ahead { "end" } else { "start" }, g.attr("points"), tip));
    }
    Ok(())
}

fn walk(e: &Elem, group: &[(String, String)], fonts: &BTreeMap<String, f64>, d: &mut Doc) -> Result<(), String> {
    let s = |e: &Elem, k: &str| e.attr(k).map(|x| x.to_string()).ok_or_else(|| format!("<{}> has no {}", e.name, k));
    let font = |e: &Elem| -> Result<f64, String> {
        let c = s(e, "class")?;
        fonts.get(&c).copied().ok_or_else(|| format!("text class {} has no style", c))
    };
    for k in e.elems() {
        let g = group.to_vec();
        match k.name.as_str() {
            "defs" | "style" | "clipPath" => {}
            "g" => walk(k, &k.attrs, fonts, d)?,
            "rect" => {
                let i = Item::Rect {
                    x: k.num("x")?,
                    y: k.num("y")?,
                    w: k.num("width")?,
                    h: k.num("height")?,
                    rx: k.num("rx")?,
                    fill: s(k, "fill")?,
                    stroke: s(k, "stroke")?,
                    width: k.num("stroke-width")?,
                    clip: match k.attr("clip-path") {
                        Some(v) => Some(url(v)?),
                        None => None,
                    },
                    group: g,
                };
                d.items.push(i);
            }
            "ellipse" => {
                let i = Item::Ellipse {
                    c: (k.num("cx")?, k.num("cy")?),
                    r: (k.num("rx")?, k.num("ry")?),
                    fill: s(k, "fill")?,
                    stroke: s(k, "stroke")?,
                    width: k.num("stroke-width")?,
                    group: g,
                };
                d.items.push(i);
            }
            "line" => {
                let i = Item::Line {
                    a: (k.num("x1")?, k.num("y1")?),
                    b: (k.num("x2")?, k.num("y2")?),
                    stroke: s(k, "stroke")?,
                    width: k.num("stroke-width")?,
                    group: g,
                };
                d.items.push(i);
            }
            "path" => {
                let (from, segs) = path(&s(k, "d")?)?;
                if !matches!(k.attr("fill"), Some("none" | "transparent")) {
                    return Err(format!("an edge is filled with {:?}", k.attr("fill")));
                }
                let i = Item::Path {
                    id: s(k, "id")?,
                    from,
                    segs,
                    stroke: s(k, "stroke")?,
                    width: k.num("stroke-width")?,
                    dash: k.attr("stroke-dasharray").is_some(),
                    head: (k.attr("marker-start").is_some(), k.attr("marker-end").is_some()),
                    group: g,
                };
                d.items.push(i);
            }
            "text" => {
                if let Some(tp) = k.elems().find(|x| x.name == "textPath") {
                    if tp.attr("startOffset") != Some("50%") || tp.attr("text-anchor") != Some("middle") {
                        return Err("the text along an edge is not in the middle of it".into());
                    }
                    d.items.push(Item::PathText {
                        href: s(tp, "href")?.trim_start_matches('#').to_string(),
                        text: tp.text(),
                        font: font(tp)?,
                    });
                } else {
                    let f = font(k)?;
                    let mut y = k.num("y")?;
                    let mut lines = Vec::new();
                    for t in k.elems() {
                        if t.name != "tspan" {
                            return Err(format!("<{}> in a text", t.name));
                        }
                        let dy = s(t, "dy")?;
                        y += dy.strip_suffix("em").and_then(xml::number).ok_or_else(|| format!("dy {:?}", dy))? * f;
                        lines.push((t.text(), (t.num("x")?, y)));
                    }
                    d.items.push(Item::Text { lines, font: f, anchor: s(k, "text-anchor")? });
                }
            }
            x => return Err(format!("element <{}>", x)),
        }
    }
    Ok(())
}

/// The number as it is read back from its decimal form.
pub fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-6 * (1. + a.abs())
}
