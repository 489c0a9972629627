//! What attributes mean: the reference model.
use crate::refdot::Props;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Box,
    Ellipse,
    DoubleCircle,
    Record,
}

/// The colour in the form the drawing uses, #rrggbbaa. None: not specified.
pub fn color(s: &str) -> Option<String> {
    if let Some(x) = s.strip_prefix('#') {
        let hex = x.chars().all(|c| c.is_ascii_hexdigit());
        if hex && x.len() == 6 {
            return Some(format!("#{}ff", x.to_ascii_lowercase()));
        }
        if hex && x.len() == 8 {
            return Some(format!("#{}", x.to_ascii_lowercase()));
        }
        return Some("#000000ff".into());
    }
    for (n, v) in crate::css::NAMES {
        if n.eq_ignore_ascii_case(s) {
            return Some(format!("#{:06x}ff", v));
        }
    }
    // Unknown colours are black.
    Some("#000000ff".into())
}

/// A colour attribute: the first of a list, and white for transparent.
pub fn color_attr(s: &str) -> Option<String> {
    let first = s.split(':').next().unwrap();
    if first == "transparent" {
        return color("white");
    }
    color(first)
}

/// A number attribute; None: not specified.
pub fn number(s: Option<&String>, default: usize) -> Option<usize> {
    match s {
        None => Some(default),
        Some(x) if x.starts_with('+') => None,
        Some(x) if !x.is_empty() && x.chars().all(|c| c.is_ascii_digit()) => Some(x.parse().unwrap_or(default)),
        Some(_) => Some(default),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct NodeLook {
    pub kind: Kind,
    pub label: String,
    pub line: Option<String>,
    pub fill: Option<String>,
    pub width: Option<usize>,
    pub font: Option<usize>,
    pub rounded: bool,
}
pub fn node(name: &str, p: &Props) -> NodeLook {
    let shape = p.get("shape").map(|x| x.as_str()).unwrap_or("");
    let kind = match shape {
        "box" => Kind::Box,
        "doublecircle" => Kind::DoubleCircle,
        "record" | "Mrecord" => Kind::Record,
        _ => Kind::Ellipse,
    };
    let fill = match (p.get("fillcolor"), p.get("style").map(|x| x == "filled").unwrap_or(false)) {
        (Some(f), _) => color_attr(f),
        (None, true) => color("lightgray"),
        (None, false) => color("white"),
    };
    NodeLook {
        kind,
        label: p.get("label").cloned().unwrap_or_else(|| name.to_string()),
        line: color_attr(p.get("color").map(|x| x.as_str()).unwrap_or("black")),
        fill,
        width: number(p.get("width"), 1),
        font: number(p.get("fontsize"), 14),
        rounded: shape == "Mrecord",
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct EdgeLook {
    pub label: String,
    pub line: Option<String>,
    pub width: Option<usize>,
    pub font: Option<usize>,
    pub dashed: bool,
}
pub fn edge(p: &Props) -> EdgeLook {
    EdgeLook {
        label: p.get("label").cloned().unwrap_or_default(),
        line: color_attr(p.get("color").map(|x| x.as_str()).unwrap_or("black")),
        width: number(p.get("penwidth"), 1),
        font: number(p.get("fontsize"), 14),
        dashed: p.get("style").map(|x| x == "dashed").unwrap_or(false),
    }
}
