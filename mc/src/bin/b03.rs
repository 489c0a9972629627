//! B03: what attributes of nodes and edges mean.
use mc::engine::*;
use mc::rec::{draw, Call, Flags};
use mc::refattr::{self, Kind};
use mc::scene::{self, text_extent};
use mc::refdot::Props;

const COLORS: &[Option<&str>] = &[None, Some("red"), Some("#12ab9F"), Some("#80C0407f"), Some("no such colour"), Some("transparent"), Some("red:blue"), Some("blue:#12ab9F:red"), Some(":red"), Some("transparent:red:"), Some("")];
const SHAPES: &[Option<&str>] = &[None, Some("box"), Some("doublecircle"), Some("record"), Some("Mrecord"), Some("circle"), Some("nonsense"), Some("ellipse"), Some("")];
const STYLES: &[Option<&str>] = &[None, Some("filled"), Some("bold"), Some("dashed"), Some("")];
const NUMS: &[Option<&str>] = &[None, Some("1"), Some("0"), Some("27"), Some("-3"), Some("2.5"), Some("x"), Some(""), Some("99999999999999999999999")];
const LABELS: &[Option<&str>] = &[None, Some("x"), Some(""), Some("long text with words"), Some("two\nlines"), Some("\n\nx"), Some("\u{e9}\u{4e2d}\u{1f600}"), Some("a<b>&c"), Some("tab\there "), Some("12"), Some("x\n")];
const STEP: &[Option<&str>] = &[None, Some("filled"), Some("dashed")];

fn props(p: &[(&str, Option<&str>)]) -> Props {
    p.iter().filter_map(|(k, v)| v.map(|v| (k.to_string(), v.to_string()))).collect()
}
fn list(p: &Props) -> String {
    // In and out of quotes.
    p.iter().map(|(k, v)| format!("{}=\"{}\"", k, v.replace('\\', "\\\\").replace('"', "\\\""))).collect::<Vec<_>>().join(" ")
}

fn check_node(name: &str, p: &Props, s: &scene::Node, calls: &[Call]) -> Result<(), String> {
    let w = refattr::node(name, p);
    if s.kind != w.kind {
        return Err(format!("{} is drawn as {:?}, expected {:?}", name, s.kind, w.kind));
    }
    // The only field of a record shows its text without outer blanks.
    let label = if w.kind == Kind::Record { w.label.trim().to_string() } else { w.label.clone() };
    if s.label != label {
        return Err(format!("{} shows {:?}, expected {:?}", name, s.label, label));
    }
    for (what, got, want) in [("line colour", Some(&s.look.line), w.line.as_ref()), ("fill colour", s.look.fill.as_ref().or(None), w.fill.as_ref())] {
        if want.is_some() && got != want {
            return Err(format!("the {} of {} is {:?}, expected {:?}", what, name, got, want));
        }
    }
    if w.width.is_some_and(|x| x != s.look.width) {
        return Err(format!("the line width of {} is {}, expected {:?}", name, s.look.width, w.width));
    }
    if w.font.is_some_and(|x| x != s.text_look.font) {
        return Err(format!("the font size of {} is {}, expected {:?}", name, s.text_look.font, w.font));
    }
    if (s.look.rounded > 0) != w.rounded || s.clip != w.rounded {
        return Err(format!("{} is rounded: {} (clipped: {}), expected {}", name, s.look.rounded > 0, s.clip, w.rounded));
    }
    let z = text_extent(&label, s.text_look.font);
    if s.size.0 + 1e-6 < z.0 || s.size.1 + 1e-6 < z.1 {
        return Err(format!("{} of size {:?} is too small for its text {:?}", name, s.size, z));
    }
    if w.kind == Kind::DoubleCircle && (s.size.0 - s.size.1).abs() > 1e-6 {
        return Err(format!("the double circle of {} has the size {:?}", name, s.size));
    }
    let circles = calls.iter().filter(|c| matches!(c, Call::Circle { .. })).count();
    let want = match w.kind {
        Kind::Ellipse => 1,
        Kind::DoubleCircle => 2,
        _ => 0,
    };
    if circles != want {
        return Err(format!("{} is drawn with {} circles, expected {}", name, circles, want));
    }
    Ok(())
}

fn node_props(i: u64) -> Props {
    let d = mixed(i, &[SHAPES.len(), COLORS.len(), COLORS.len(), STYLES.len(), 5, 5]);
    props(&[("shape", SHAPES[d[0]]), ("color", COLORS[d[1]]), ("fillcolor", COLORS[d[2]]), ("style", STYLES[d[3]]), ("width", NUMS[d[4]]), ("fontsize", NUMS[[0, 1, 3, 4, 6][d[5]]])])
}
fn num_props(i: u64) -> Props {
    let d = mixed(i, &[SHAPES.len(), NUMS.len(), NUMS.len(), LABELS.len(), 3]);
    props(&[("shape", SHAPES[d[0]]), ("width", NUMS[d[1]]), ("fontsize", NUMS[d[2]]), ("label", LABELS[d[3]]), ("style", STEP[d[4]])])
}
fn edge_props(i: u64) -> Props {
    let d = mixed(i, &[COLORS.len(), NUMS.len(), NUMS.len(), LABELS.len(), 5]);
    props(&[("color", COLORS[d[0]]), ("penwidth", NUMS[d[1]]), ("fontsize", NUMS[d[2]]), ("label", LABELS[d[3]]), ("style", STYLES[d[4]])])
}
fn node(p: &Props, x: &mut Ctx) -> Result<(), String> {
    x.state(h(p));
    x.transitions += p.len() as u64;
    let calls = draw(&format!("digraph {{ some_node [{}] }}", list(p)), Flags::default())?.calls;
    let s = scene::read(&calls)?;
    if s.nodes.len() != 1 {
        return Err(format!("{} nodes are drawn", s.nodes.len()));
    }
    check_node("some_node", p, &s.nodes[0], &calls)
}
fn edge(i: u64, p: &Props, x: &mut Ctx) -> Result<(), String> {
    x.state(h(&p));
    x.transitions += p.len() as u64;
    let dir = i % 2 == 0;
    let t = format!("{} {{ a [label=A]; b [label=B]; a {} b [{}] }}", if dir { "digraph" } else { "graph" }, if dir { "->" } else { "--" }, list(p));
    let s = scene::read(&draw(&t, Flags::default())?.calls)?;
    if s.nodes.len() != 2 || s.edges.len() != 1 {
        return Err(format!("{} nodes and {} edges are drawn", s.nodes.len(), s.edges.len()));
    }
    for n in &s.nodes {
        check_default(n)?;
    }
    let w = refattr::edge(p);
    let e = &s.edges[0];
    if w.line.is_some() && Some(&e.look.line) != w.line.as_ref() {
        return Err(format!("the edge has the colour {}, expected {:?}", e.look.line, w.line));
    }
    if w.width.is_some_and(|x| x != e.look.width) {
        return Err(format!("the edge has the width {}, expected {:?}", e.look.width, w.width));
    }
    if e.dashed != w.dashed {
        return Err(format!("the edge is dashed: {}, expected {}", e.dashed, w.dashed));
    }
    if e.head != (false, dir) {
        return Err(format!("the edge has the heads {:?}", e.head));
    }
    let mut shown: Vec<(String, usize)> = s.labels.iter().map(|l| (l.text.clone(), l.look.font)).collect();
    if !e.text.is_empty() {
        shown.push((e.text.clone(), e.look.font));
    }
    let want: Vec<String> = if w.label.is_empty() { vec![] } else { vec![w.label.clone()] };
    if shown.iter().map(|x| x.0.clone()).collect::<Vec<_>>() != want {
        return Err(format!("the edge shows {:?}, expected {:?}", shown, want));
    }
    if !want.is_empty() && w.font.is_some_and(|f| f != shown[0].1) {
        return Err(format!("the label has the font size {}, expected {:?}", shown[0].1, w.font));
    }
    Ok(())
}
/// A node that no attribute was given to but its label.
fn check_default(n: &scene::Node) -> Result<(), String> {
    let ok = n.kind == Kind::Ellipse && n.look.line == "#000000ff" && n.look.fill.as_deref() == Some("#ffffffff") && n.look.width == 1 && n.text_look.font == 14;
    if ok {
        Ok(())
    } else {
        Err(format!("attributes of something else appear on node {:?}", n))
    }
}

/// Attributes that mean nothing to a node, or to an edge, and ones that mean
/// nothing at all, or in other letters.
const FOREIGN: &[&[&str]] = &[
    &["penwidth", "Shape", "SHAPE", "Color", "colour", "LABEL", "fontSize", "Width", "Style", "fillColor", "shapes", "shap", "labels", "widths", "no_such_key", "", "rank", "\u{e9}", "name", "node"],
    &["shape", "fillcolor", "width", "Color", "LABEL", "Penwidth", "penWidth", "pen", "fontSize", "Style", "styles", "labels", "no_such_key", "", "\u{e9}", "name", "edge"],
];
const VALUES: &[&str] = &["", "1", "2", "9", "40", "-1", "red", "box", "record", "Mrecord", "dashed", "filled", "LR", "true", "x y", "{a|b}", "#00ff00", "99999999999999999999"];
/// Styles of what they are added to.
const BASES: &[&[&str]] = &[
    &["", "shape=box", "shape=record label=\"<p>a|b\"", "shape=Mrecord label=\"a|{b|c}\" color=blue", "shape=doublecircle style=filled", "fillcolor=pink width=3 fontsize=30 label=\"x y\"", "label=\"\""],
    &["", "label=t", "label=\"two\nlines\" fontsize=30", "color=blue penwidth=4", "style=dashed label=x penwidth=2", "label=\"\""],
];
fn foreign(i: u64, x: &mut Ctx) -> Result<(), String> {
    let (base, with, key) = foreign_text(i);
    x.state(h(&with));
    x.transitions += 1;
    let (a, b) = (draw(&base, Flags::default())?.calls, draw(&with, Flags::default())?.calls);
    if format!("{:?}", a) != format!("{:?}", b) {
        return Err(format!("{} means nothing here, but {} is drawn as {:?} and {} as {:?}", key, base, a, with, b));
    }
    Ok(())
}
fn foreign_total() -> u64 {
    (FOREIGN[0].len() * BASES[0].len() + FOREIGN[1].len() * BASES[1].len()) as u64 * VALUES.len() as u64 * 3
}
fn foreign_text(i: u64) -> (String, String, String) {
    let n = (FOREIGN[0].len() * BASES[0].len() * VALUES.len() * 3) as u64;
    let (k, i) = if i < n { (0, i) } else { (1, i - n) };
    let d = mixed(i, &[FOREIGN[k].len(), BASES[k].len(), VALUES.len(), 3]);
    let attr = format!("\"{}\"=\"{}\"", FOREIGN[k][d[0]], VALUES[d[2]]);
    let b = BASES[k][d[1]];
    // Given alone, behind the others, or as a default.
    let (pre, list) = match d[3] {
        0 => (String::new(), format!("{} {}", attr, b)),
        1 => (String::new(), format!("{} {}", b, attr)),
        _ => (format!("{} [{}];", ["node", "edge"][k], attr), b.to_string()),
    };
    let t = |pre: &str, list: &str| match k {
        0 => format!("digraph {{ {} n [{}]; n -> m }}", pre, list),
        _ => format!("digraph {{ {} a -> b [{}]; b -> b }}", pre, list),
    };
    (t("", b), t(&pre, &list), attr)
}

/// Values that nearly mean something, and bases that give them something to
/// be confused with.
const NEAR: &[&str] = &[
    "Box", "BOX", "box ", " box", "boxes", "bo", "doubleCircle", "double circle", "doublecircle ", "Doublecircle", "double", "Record", "RECORD", "mrecord", "MRecord", "MRECORD", " record", "record ", "records", "rec",
    "Filled", "FILLED", "filled ", " filled", "filled,dashed", "dashed,filled", "filled,rounded", "fill", "unfilled", "Dashed", "DASHED", "dashed ", " dashed", "dashed,bold", "bold,dashed", "dash", "undashed", "dotted", "solid", "invis",
    " red", "red ", "RED", "Red", "re", "redd", "reddish", "dark red", "darkred", "grey", "gray", "light gray", "lightgrey", "#ff00", "#f00", "# ff0000", "#ff0000 ", "#FF00000", "#gg0000", "ff0000", "0xff0000", "Transparent", "TRANSPARENT", " transparent", "transparent ", "transparen", "red;blue", "red,blue", "red:", "none", "white", "black",
    " 5", "5 ", "05", "005", "5.", "5.0", "5px", "0x5", "1e1", "1_0", "\u{665}", "\u{ff15}", "-0", "--5", "5-", "4294967296", "18446744073709551615", "18446744073709551616",
    "true", "TRUE", "yes", "no", "false", "\\n", "\\", "\"", "'", "&amp;", "<b>x</b>", "{", "}", "|", "%s", "\t", "\n", "\r\n", "\u{a0}", "\u{200b}", "\u{301}",
];
/// Values a drawing would become too big with.
fn huge(key: &str, v: &str) -> bool {
    v.len() > 8 && ["width", "fontsize", "penwidth"].contains(&key) && v.chars().all(|c| c.is_ascii_digit())
}
const NODE_KEYS: &[&str] = &["shape", "style", "color", "fillcolor", "width", "fontsize", "label"];
const EDGE_KEYS: &[&str] = &["style", "color", "penwidth", "fontsize", "label"];
const NODE_BASES: &[&[(&str, &str)]] = &[&[], &[("shape", "box"), ("style", "filled"), ("color", "blue"), ("width", "3"), ("fontsize", "9")], &[("shape", "Mrecord"), ("fillcolor", "pink"), ("label", "x")], &[("shape", "doublecircle"), ("style", "filled")]];
const EDGE_BASES: &[&[(&str, &str)]] = &[&[], &[("style", "dashed"), ("color", "blue"), ("penwidth", "3"), ("label", "x"), ("fontsize", "9")]];
fn near_total() -> u64 {
    (NEAR.len() * (NODE_KEYS.len() * NODE_BASES.len() + EDGE_KEYS.len() * EDGE_BASES.len())) as u64
}
/// Whether it is a node, and its attributes.
fn near(i: u64) -> (bool, Props) {
    let n = (NEAR.len() * NODE_KEYS.len() * NODE_BASES.len()) as u64;
    let (is, keys, bases, i) = if i < n { (true, NODE_KEYS, NODE_BASES, i) } else { (false, EDGE_KEYS, EDGE_BASES, i - n) };
    let d = mixed(i, &[NEAR.len(), keys.len(), bases.len()]);
    let mut p: Props = bases[d[2]].iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    // The text of a record has a meaning of its own.
    let special = p.get("shape").is_some_and(|x| x == "Mrecord") && keys[d[1]] == "label" && NEAR[d[0]].contains(['{', '}', '|', '<', '>', '\\']);
    if !huge(keys[d[1]], NEAR[d[0]]) && !special {
        p.insert(keys[d[1]].to_string(), NEAR[d[0]].to_string());
    }
    (is, p)
}

fn plan_(_t: Tier) -> Plan {
    plan(
        vec![
            family(
                "node-styles",
                &format!("every combination of shape {:?}, color and fillcolor {:?}, style {:?}, width {:?} and 5 font sizes", SHAPES, COLORS, STYLES, &NUMS[..5]),
                mixed_total(&[SHAPES.len(), COLORS.len(), COLORS.len(), STYLES.len(), 5, 5]),
                |i| format!("{:?}", node_props(i)),
                |i, c| node(&node_props(i), c),
            ),
            family(
                "node-numbers",
                &format!("every combination of shape, width and fontsize {:?}, label {:?} and style {:?}", NUMS, LABELS, STEP),
                mixed_total(&[SHAPES.len(), NUMS.len(), NUMS.len(), LABELS.len(), 3]),
                |i| format!("{:?}", num_props(i)),
                |i, c| node(&num_props(i), c),
            ),
            family(
                "foreign",
                &format!("every attribute of {:?} on nodes and edges, with every value of {:?}, in front of, behind and as a default for {:?}: the drawing stays the same", FOREIGN, VALUES, BASES),
                foreign_total(),
                |i| foreign_text(i).1,
                foreign,
            ),
            family(
                "edges",
                "every combination of color, penwidth, fontsize, label and style of the same lists, directed and not",
                mixed_total(&[COLORS.len(), NUMS.len(), NUMS.len(), LABELS.len(), 5]),
                |i| format!("{:?}", edge_props(i)),
                |i, c| edge(i, &edge_props(i), c),
            ),
            family(
                "near-values",
                &format!("every attribute of {:?} of a node and {:?} of an edge with each of {} values that nearly mean something ({:?} ...), over {} and {} settings of the others", NODE_KEYS, EDGE_KEYS, NEAR.len(), &NEAR[..9], NODE_BASES.len(), EDGE_BASES.len()),
                near_total(),
                |i| format!("{:?}", near(i)),
                |i, c| {
                    let (is, p) = near(i);
                    if is {
                        node(&p, c)
                    } else {
                        edge(i, &p, c)
                    }
                },
            ),
        ],
        "state = one combination of attribute values; transition = one attribute given; what is drawn is compared with the reference meaning of the attributes",
        &["record labels here have no | { } and no port; records are R01's and R02's"],
    )
}
fn main() {
    mc::engine::main("B03", plan_)
}
