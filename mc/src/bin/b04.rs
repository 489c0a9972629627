//! B04: graphs built through the API are drawn as told.
use layout::backends::svg::SVGWriter;
use layout::core::base::Orientation;
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
use layout::std_shapes::shapes::*;
use layout::topo::layout::VisualGraph;
use mc::api::*;
use mc::engine::*;
use mc::rec::{look, Call, Look, Recorder, P};
use mc::scene;
use mc::svgread::{self, Item};

fn same_look(a: &Look, b: StyleAttrDesc) -> bool {
    let b = look(&style(b));
    a.line == b.line && a.width == b.width && a.fill == b.fill && a.font == b.font
}

fn run(g: &G, x: &mut Ctx) -> Result<(), String> {
    x.state(h(&g.show()));
    x.transitions += (g.nodes.len() + g.edges.len()) as u64;
    let mut vg = g.build();
    let mut r = Recorder::default();
    vg.do_it(g.flags.debug, g.flags.no_opt, g.flags.no_layout, &mut r);
    // Debug markers have no property of their own; drawings with them are
    // compared by L09.
    let s = scene::read(&r.calls)?;
    s.nodes.iter().filter(|n| n.kind == mc::refattr::Kind::Record).try_for_each(|n| n.check_clips())?;
    // Nodes are identified by their line colour.
    let mut at = Vec::new();
    if s.nodes.len() != g.nodes.len() {
        return Err(format!("{} nodes are drawn, expected {}", s.nodes.len(), g.nodes.len()));
    }
    for (i, n) in g.nodes.iter().enumerate() {
        let line = look(&style(n.look)).line;
        let f: Vec<&scene::Node> = s.nodes.iter().filter(|k| k.look.line == line).collect();
        if f.len() != 1 {
            return Err(format!("node {} is drawn {} times", i, f.len()));
        }
        let d = f[0];
        use mc::refattr::Kind::*;
        let kind = [Box, Ellipse, DoubleCircle, Record][n.kind];
        if d.kind != kind || (kind != Record && d.label != n.text) || !same_look(&d.look, n.look) || !same_look(&d.text_look, n.look) {
            return Err(format!("node {} is drawn as {:?}", i, d));
        }
        if (d.size.0 - n.size.0).abs() > 1e-6 || (d.size.1 - n.size.1).abs() > 1e-6 {
            return Err(format!("node {} is drawn with the size {:?}", i, d.size));
        }
        if kind == Record && d.cells.iter().map(|c| c.text.as_str()).collect::<Vec<_>>() != [&n.text, "u", "v"] {
            return Err(format!("node {} is drawn with the cells {:?}", i, d.cells));
        }
        at.push(d.clone());
    }
    let mut drawn = 0;
    for (k, e) in g.edges.iter().enumerate() {
        let line = look(&style(e.look)).line;
        let f: Vec<&scene::Edge> = s.edges.iter().filter(|d| d.look.line == line).collect();
        if f.len() != (e.line != 3) as usize {
            return Err(format!("edge {} is drawn {} times", k, f.len()));
        }
        drawn += f.len();
        let l: Vec<&scene::Label> = s.labels.iter().filter(|l| l.look.line == line).collect();
        if e.line != 3 {
            let texts: Vec<&str> = l.iter().map(|l| l.text.as_str()).chain(f.iter().map(|d| d.text.as_str()).filter(|t| !t.is_empty())).collect();
            let want: Vec<&str> = Some(e.text.as_str()).filter(|t| !t.is_empty()).into_iter().collect();
            if texts != want {
                return Err(format!("edge {} is labelled {:?}", k, texts));
            }
            if let Some(l) = l.iter().find(|l| l.look.font != e.look.4) {
                return Err(format!("the label of edge {} is {:?}", k, l));
            }
        }
        for d in f {
            if !same_look(&d.look, e.look) || d.dashed != (e.line != 0) {
                return Err(format!("edge {} is drawn as {:?}", k, d));
            }
            let (a, b) = (&at[e.from], &at[e.to]);
            let on = |n: &scene::Node, port: &Option<String>, p: P| match port {
                None => n.on_outline(p),
                Some(q) => {
                    let c = &n.cells[if q == "p" { 0 } else { 2 }];
                    scene::on_box(c.center, c.size, p)
                }
            };
            // Drawn from its source, or from its target.
            let forth = on(a, &e.ports.0, d.first()) && on(b, &e.ports.1, d.last()) && d.head == (e.start, e.end);
            let back = on(b, &e.ports.1, d.first()) && on(a, &e.ports.0, d.last()) && d.head == (e.end, e.start);
            if !forth && !back {
                return Err(format!("edge {} is drawn as {:?}", k, d));
            }
        }
    }
    if drawn != s.edges.len() {
        return Err(format!("{} edges are drawn, expected {}", s.edges.len(), drawn));
    }
    // Properties arrive at their shape, and nowhere else.
    let mut want: Vec<(String, String)> = Vec::new();
    for n in &g.nodes {
        if let Some(p) = &n.props {
            want.push((["rect", "circle", "circle", "rect"][n.kind].to_string() + &look(&style(n.look)).line, p.clone()));
        }
    }
    for e in g.edges.iter().filter(|e| e.line != 3) {
        if let Some(p) = &e.props {
            want.push(("arrow".to_string() + &look(&style(e.look)).line, p.clone()));
        }
    }
    let mut got: Vec<(String, String)> = Vec::new();
    for c in &r.calls {
        let (kind, l, p) = match c {
            Call::Rect { look, props, .. } => ("rect", look, props),
            Call::Circle { look, props, .. } => ("circle", look, props),
            Call::Line { look, props, .. } => ("line", look, props),
            Call::Arrow { look, props, .. } => ("arrow", look, props),
            _ => continue,
        };
        if let Some(p) = p {
            got.push((kind.to_string() + &l.line, p.clone()));
        }
    }
    want.sort();
    got.sort();
    if got != want {
        return Err(format!("the properties are {:?}, expected {:?}", got, want));
    }
    // And in the document: the group around the shape.
    if !want.is_empty() {
        let mut vg = g.build();
        let mut w = SVGWriter::new();
        vg.do_it(g.flags.debug, g.flags.no_opt, g.flags.no_layout, &mut w);
        let doc = svgread::read(&w.finalize())?;
        let mut got: Vec<(String, String)> = Vec::new();
        for i in &doc.items {
            let (kind, stroke, group) = match i {
                Item::Rect { stroke, group, .. } => ("rect", stroke, group),
                Item::Ellipse { stroke, group, .. } => ("circle", stroke, group),
                Item::Line { stroke, group, .. } => ("line", stroke, group),
                Item::Path { stroke, group, .. } => ("arrow", stroke, group),
                _ => continue,
            };
            let line = if stroke.len() == 7 { format!("{}ff", stroke) } else { stroke.clone() };
            if !group.is_empty() {
                got.push((kind.to_string() + &line, group.iter().map(|(k, v)| format!("{}=\"{}\"", k, v)).collect::<Vec<_>>().join(" ")));
            }
        }
        got.sort();
        if got != want {
            return Err(format!("the properties in the document are {:?}, expected {:?}", got, want));
        }
    }
    x.outcome(drawn as u64);
    Ok(())
}

/// The default and the short constructors.
fn constructors(i: u64, x: &mut Ctx) -> Result<(), String> {
    let d = mixed(i, &[6, 2, 2, 2, 2]);
    let o = if d[1] == 0 { Orientation::TopToBottom } else { Orientation::LeftToRight };
    let mut vg = VisualGraph::new(o);
    let hs: Vec<_> = (0..2).map(|i| vg.add_node(Element::create(ShapeKind::new_box(&format!("n{}", i)), StyleAttr::simple(), o, Point::new(50., 50.)))).collect();
    // Arrow, drawn, heads, text, properties.
    let (a, drawn, head, text, props): (Arrow, bool, (bool, bool), &str, Option<&str>) = match d[0] {
        0 => (Arrow::simple("t"), true, (false, true), "t", None),
        1 => (Arrow::default(), true, (false, true), "", None),
        2 => (Arrow::invisible(), false, (false, false), "", None),
        3 => (Arrow::simple_with_properties("t", "data-x=\"1\""), true, (false, true), "t", Some("data-x=\"1\"")),
        4 => (Arrow::simple_with_properties("", "data-x=\"1\""), true, (false, true), "", Some("data-x=\"1\"")),
        _ => (Arrow::simple("two\nlines"), true, (false, true), "two\nlines", None),
    };
    // Reversing twice restores an arrow; once, it swaps the ends.
    let (a, head) = match (d[2], d[3]) {
        (0, 0) => (a, head),
        (1, 1) => (a.reverse().reverse(), head),
        _ => (a.reverse(), (head.1, head.0)),
    };
    let (f, t) = if d[4] == 0 { (0, 1) } else { (1, 0) };
    vg.add_edge(a, hs[f], hs[t]);
    x.state(i);
    x.transitions += 1;
    let mut r = Recorder::default();
    vg.do_it(false, false, false, &mut r);
    let s = scene::read(&r.calls)?;
    let black = look(&StyleAttr::simple());
    if black.line != "#000000ff" || black.fill != Some("#ffffffff".to_string()) {
        return Err(format!("the simple style is {:?}", black));
    }
    if s.edges.len() != drawn as usize {
        return Err(format!("{} edges are drawn", s.edges.len()));
    }
    for e in &s.edges {
        if e.head != head || e.dashed || e.look != black {
            return Err(format!("the edge is drawn as {:?}, expected heads {:?}", e, head));
        }
        let n = |k: usize| s.nodes.iter().find(|n| n.label == format!("n{}", k)).unwrap();
        if !n(f).on_outline(e.first()) || !n(t).on_outline(e.last()) {
            return Err(format!("the edge is drawn as {:?}", e));
        }
    }
    let texts: Vec<&str> = s.labels.iter().map(|l| l.text.as_str()).chain(s.edges.iter().map(|e| e.text.as_str()).filter(|t| !t.is_empty())).collect();
    let want: Vec<&str> = if text.is_empty() { vec![] } else { vec![text] };
    if texts != want {
        return Err(format!("the labels are {:?}, expected {:?}", texts, want));
    }
    let got: Vec<&str> = r.calls.iter().filter_map(|c| if let Call::Arrow { props, .. } = c { props.as_deref() } else { None }).collect();
    if got != props.into_iter().collect::<Vec<_>>() {
        return Err(format!("the properties are {:?}, expected {:?}", got, props));
    }
    Ok(())
}

fn plan_(t: Tier) -> Plan {
    let mut f = vec![
        arrows(run, 1, 1, &[0, 1, 2, 3]),
        arrows(run, 2, 1, &[0, 1, 2, 3]),
        arrows(run, 2, 2, &[0, 2]),
        arrows(run, 1, 2, &[0, 1]),
        shapes(run, 1, 1, &[0, 1, 2, 3]),
        shapes(run, 2, 1, &[0, 2]),
        ports(run, 1, 1, &[0, 1, 2, 3]),
        ports(run, 2, 1, &[0, 1, 2, 3]),
        ports(run, 2, 2, &[0]),
        ports(run, 3, 1, &[0]),
        looks(run, &[0, 1, 2]),
        sizes(run, t.pick(&[0, 1], &[0, 1, 2, 3, 4])),
        many(run, t.pick(40, 130), &[0]),
        family("constructors", "every short constructor of arrows, forwards and reversed, in both directions", 6 * 16, |i| format!("constructor {:?}", mixed(i, &[6, 2, 2, 2, 2])), constructors),
    ];
    if t == Tier::Thorough {
        f.push(arrows(run, 3, 2, &[0, 1, 2, 3]));
        f.push(arrows(run, 2, 2, &[1, 3]));
        f.push(shapes(run, 2, 2, &[0, 1, 2, 3]));
        f.push(shapes(run, 3, 1, &[0]));
        f.push(ports(run, 3, 2, &[0, 2]));
    }
    plan(
        f,
        "state = one graph built through the API and drawn; transition = one element or arrow compared with what it was created as: shape, text, size, style, properties (also in the SVG document), heads by end, ports, line style, label",
        &["labels of invisible edges are not specified"],
    )
}
fn main() {
    mc::engine::main("B04", plan_)
}
