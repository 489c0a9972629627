//! V01: the SVG document is well-formed XML that shows the texts of the graph.
use layout::backends::svg::SVGWriter;
use layout::core::format::RenderBackend;
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
use mc::engine::*;
use mc::rec::{svg, Flags};
use mc::svgread::{read, Doc, Item};

/// What XML can carry.
fn xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r') || (c >= ' ' && c != '\u{fffe}' && c != '\u{ffff}')
}
/// The text as far as XML can carry it. A mark for what it can't is fine.
fn norm(s: &str) -> String {
    s.chars().filter(|c| xml_char(*c) && *c != '\u{fffd}').collect()
}
fn lines(s: &str) -> Vec<String> {
    s.lines().map(norm).collect()
}
fn texts(d: &Doc) -> Vec<Vec<String>> {
    let mut r = Vec::new();
    for i in &d.items {
        match i {
            Item::Text { lines, .. } => r.push(lines.iter().map(|l| norm(&l.0)).collect()),
            Item::PathText { text, .. } if !text.is_empty() => r.push(vec![norm(text)]),
            _ => {}
        }
    }
    r
}
fn quote(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
}

/// The label of a node, of an edge, of a record and the name of a node.
fn label(s: &str, x: &mut Ctx) -> Result<(), String> {
    let q = quote(s);
    let rec = !s.contains(['|', '{', '}', '<', '>']) && !s.trim().is_empty();
    let t = format!("digraph {{ {} -> n [label={}]; b [shape=box label={}]; r [shape=Mrecord label={}] }}", q, q, q, if rec { &q } else { "r" });
    let out = svg(&t, Flags::default())?;
    x.state(h(&out));
    x.transitions += s.chars().count() as u64;
    let d = read(&out)?;
    let mut got = texts(&d);
    let mut want = vec![lines(s), vec!["n".into()], lines(s), if rec { lines(s.trim()) } else { vec!["r".into()] }];
    if !s.is_empty() {
        want.push(lines(s));
    }
    // An edge label without any line shows nothing either way.
    got.retain(|x| !x.is_empty());
    want.retain(|x| !x.is_empty());
    got.sort();
    want.sort();
    if got != want {
        return Err(format!("the drawing shows {:?}, expected {:?}", got, want));
    }
    Ok(())
}
/// The text of a call, with any character.
fn call(s: &str, x: &mut Ctx) -> Result<(), String> {
    let mut w = SVGWriter::new();
    let look = StyleAttr::simple();
    w.draw_text(Point::new(10., 10.), s, &look);
    w.draw_arrow(&[(Point::new(1., 2.), Point::new(3., 4.)), (Point::new(5., 6.), Point::new(7., 8.))], false, (false, true), &look, None, s);
    let out = w.finalize();
    x.state(h(&out));
    x.transitions += s.chars().count() as u64;
    let d = read(&out)?;
    let mut shown = (None, None);
    for i in &d.items {
        match i {
            Item::Text { lines, .. } => shown.0 = Some(lines.iter().map(|l| norm(&l.0)).collect::<Vec<_>>()),
            Item::PathText { text, .. } => shown.1 = Some(norm(text)),
            _ => {}
        }
    }
    // A carriage return is read back as a line feed.
    let cr = |s: &str| s.replace("\r\n", "\n").replace('\r', "\n");
    let want = (Some(lines(s)), Some(norm(s)));
    let n = |p: (Option<Vec<String>>, Option<String>)| (p.0.map(|v| v.iter().map(|l| cr(l)).collect::<Vec<_>>()), p.1.map(|t| cr(&t)));
    if n(shown.clone()) != n(want.clone()) {
        return Err(format!("{:?} is shown, expected {:?}", shown, want));
    }
    Ok(())
}

const CHARS: [&str; 14] = ["&", "<", ">", "\"", "'", "\\", "]", "a", ";", "#", "\n", " ", "\u{e9}", "\u{1f600}"];
const PARTS: [&str; 22] = [
    "&amp;", "&lt;", "]]>", "<!--", "-->", "<![CDATA[", "&#38;", "</text>", "<?xml ?>", "%s", "\"", "'", "text", "</svg>", "&", "\t", "\u{1}", "\u{b}", "\u{ffff}", "\u{7f}", "\n", "\u{85}",
];
fn fam(name: &str, al: &'static [&'static str], len: usize, f: fn(&str, &mut Ctx) -> Result<(), String>, what: &str) -> Family {
    text_family(name, &format!("every {} of up to {} of {:?}", what, len, al), seq_total(al.len(), 0, len), move |i| seq(i, al.len(), 0, len).into_iter().map(|x| al[x]).collect(), f)
}
const LONG: [&str; 12] = ["a", "&", "<", "\"", "\u{e9}", "\u{1f600}", " a", "a\n", "\n", "\\", "ab<>&\n", "]]>"];
const PRE: [&str; 4] = ["", "x", "xy", "&\n"];
fn lengths(name: &str, max: usize, f: fn(&str, &mut Ctx) -> Result<(), String>) -> Family {
    let z = mc::scale::sizes(max);
    let r = [LONG.len(), PRE.len(), z.len()];
    text_family(
        name,
        &format!("each of {:?} before each of {:?}, the latter repeated up to {} times", PRE, LONG, max),
        mixed_total(&r),
        move |i| {
            let d = mixed(i, &r);
            format!("{}{}", PRE[d[1]], LONG[d[0]].repeat(z[d[2]]))
        },
        f,
    )
}
fn plan_(t: Tier) -> Plan {
    let odd: Vec<char> = (1u32..0x300).chain(0x2000..0x2070).chain(0xd7f0..0xd800).chain(0xe000..0xe010).chain(0xfdd0..0xfe00).chain(0xfff0..0x10010).chain(0x10fff0..0x110000).filter_map(char::from_u32).collect();
    let n = odd.len() as u64;
    plan(
        vec![
            fam("characters", &CHARS, t.pick(4, 5), label, "label and name"),
            fam("fragments", &PARTS, t.pick(3, 4), label, "label and name"),
            fam("calls", &CHARS, t.pick(4, 5), call, "text drawn by a call"),
            fam("call-fragments", &PARTS, t.pick(3, 4), call, "text drawn by a call"),
            lengths("long-labels", t.pick(302, 1026), label),
            lengths("long-calls", t.pick(1026, 1026), call),
            text_family(
                "each-character",
                "every character of 1 to 0x2ff and around the borders of what XML allows, alone and before, behind and between others",
                n * 4,
                move |i| {
                    let c = odd[(i / 4) as usize];
                    [format!("{}", c), format!("{}a", c), format!("a{}", c), format!("<{}{}&", c, c)][(i % 4) as usize].clone()
                },
                call,
            ),
        ],
        "state = one document; transition = one character of text written; a strict reader of XML must accept the document, and find the text that was drawn, less the characters that XML can't carry",
        &["lone carriage returns are read back as line feeds, as XML says", "the character U+0000 is left out"],
    )
}
fn main() {
    mc::engine::main("V01", plan_)
}
