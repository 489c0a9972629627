//! Reads a drawing back: which calls make up which node, edge and label.
use crate::rec::{Call, Look, P};
use crate::refattr::Kind;

#[derive(Clone, Debug)]
pub struct Cell {
    pub center: P,
    pub size: P,
    pub text: String,
    pub look: Look,
}
#[derive(Clone, Debug)]
pub struct Node {
    pub kind: Kind,
    pub center: P,
    pub size: P,
    pub label: String,
    pub look: Look,
    pub text_look: Look,
    /// Of records: one per text.
    pub cells: Vec<Cell>,
    /// Of records: every rectangle.
    pub rects: Vec<(P, P)>,
    pub clip: bool,
    /// Of records: the clip region before them, and that of every rectangle.
    pub region: Option<(usize, P, P, usize)>,
    pub clips: Vec<Option<usize>>,
}
#[derive(Clone, Debug)]
pub struct Edge {
    pub path: Vec<(P, P)>,
    pub dashed: bool,
    pub head: (bool, bool),
    pub look: Look,
    pub text: String,
}
#[derive(Clone, Debug)]
pub struct Label {
    pub xy: P,
    pub text: String,
    pub look: Look,
}
#[derive(Clone, Debug, Default)]
pub struct Scene {
    pub nodes: Vec<Node>,
    pub labels: Vec<Label>,
    pub edges: Vec<Edge>,
}

impl Node {
    /// The cells of a rounded record are clipped to its outline.
    pub fn check_clips(&self) -> Result<(), String> {
        let want = if self.look.rounded > 0 {
            match self.region {
                Some((h, c, z, r)) if near(c, self.center) && near(z, self.size) && r == self.look.rounded => Some(h),
                r => return Err(format!("the record {:?} at {:?}, {:?}, rounded {}, has the clip region {:?}", self.label, self.center, self.size, self.look.rounded, r)),
            }
        } else {
            None
        };
        if let Some(c) = self.clips.iter().find(|c| **c != want) {
            return Err(format!("a cell of the record {:?} is clipped to {:?}, expected {:?}", self.label, c, want));
        }
        Ok(())
    }
}

pub const TOL: f64 = 1e-6;
pub fn near(a: P, b: P) -> bool {
    (a.0 - b.0).abs() < TOL && (a.1 - b.1).abs() < TOL
}

/// Reads the calls of a drawing that was made without the debug option.
pub fn read(calls: &[Call]) -> Result<Scene, String> {
    let mut s = Scene::default();
    let mut i = 0;
    while i < calls.len() {
        match &calls[i] {
            Call::Clip { .. } | Call::Rect { .. } => {
                let clip = matches!(calls[i], Call::Clip { .. });
                let j = if clip { i + 1 } else { i };
                let (xy, size, look) = match calls.get(j) {
                    Some(Call::Rect { xy, size, look, .. }) => (*xy, *size, look.clone()),
                    _ => return Err("a clip region without a record".into()),
                };
                let center = (xy.0 + size.0 / 2., xy.1 + size.1 / 2.);
                // A record ends with an empty rectangle of its size.
                let end = (j + 1..calls.len()).find(
                    |k| matches!(&calls[*k], Call::Rect { xy: a, size: b, look, .. } if look.fill.is_none() && near(*a, xy) && near(*b, size)),
                );
                if let Some(end) = end {
                    let mut n = Node {
                        kind: Kind::Record,
                        center,
                        size,
                        label: String::new(),
                        look: look.clone(),
                        text_look: look.clone(),
                        cells: vec![],
                        rects: vec![],
                        clip,
                        region: match &calls[i] {
                            Call::Clip { xy, size, rounded, handle } => Some((*handle, (xy.0 + size.0 / 2., xy.1 + size.1 / 2.), *size, *rounded)),
                            _ => None,
                        },
                        clips: vec![],
                    };
                    if let Call::Rect { look, .. } = &calls[end] {
                        n.look.rounded = look.rounded;
                    }
                    let mut cur = (center, size);
                    for c in &calls[j..end] {
                        match c {
                            Call::Rect { xy, size, clip, .. } => {
                                n.clips.push(*clip);
                                cur = ((xy.0 + size.0 / 2., xy.1 + size.1 / 2.), *size);
                                n.rects.push(cur);
                            }
                            Call::Text { xy, text, look } => {
                                if !near(*xy, cur.0) {
                                    return Err(format!("record text {:?} at {:?} is not in the middle of its cell {:?}", text, xy, cur));
                                }
                                n.cells.push(Cell { center: cur.0, size: cur.1, text: text.clone(), look: look.clone() });
                            }
                            x => return Err(format!("unexpected {:?} inside a record", x)),
                        }
                    }
                    n.label = n.cells.iter().map(|c| c.text.clone()).collect::<Vec<_>>().join("|");
                    s.nodes.push(n);
                    i = end + 1;
                    continue;
                }
                if clip {
                    return Err("a clip region without a record".into());
                }
                match calls.get(i + 1) {
                    Some(Call::Text { xy, text, look: tl }) if near(*xy, center) => {
                        s.nodes.push(Node {
                            kind: Kind::Box,
                            center,
                            size,
                            label: text.clone(),
                            look,
                            text_look: tl.clone(),
                            cells: vec![],
                            rects: vec![],
                            clip: false,
                            region: None,
                            clips: vec![],
                        });
                        i += 2;
                    }
                    x => return Err(format!("a box without its text (next: {:?})", x)),
                }
            }
            Call::Circle { xy, size, look, .. } => {
                let (center, size, look) = (*xy, *size, look.clone());
                let mut j = i + 1;
                let mut kind = Kind::Ellipse;
                if let Some(Call::Circle { xy, size: inner, .. }) = calls.get(j) {
                    if near(*xy, center) && inner.0 < size.0 && inner.1 < size.1 {
                        if inner.0 < 0. || inner.1 < 0. {
                            return Err(format!("a circle of the negative size {:?}", inner));
                        }
                        kind = Kind::DoubleCircle;
                        j += 1;
                    }
                }
                match calls.get(j) {
                    Some(Call::Text { xy, text, look: tl }) if near(*xy, center) => {
                        s.nodes.push(Node {
                            kind,
                            center,
                            size,
                            label: text.clone(),
                            look,
                            text_look: tl.clone(),
                            cells: vec![],
                            rects: vec![],
                            clip: false,
                            region: None,
                            clips: vec![],
                        });
                        i = j + 1;
                    }
                    x => return Err(format!("an ellipse without its text (next: {:?})", x)),
                }
            }
            Call::Text { xy, text, look } => {
                s.labels.push(Label { xy: *xy, text: text.clone(), look: look.clone() });
                i += 1;
            }
            Call::Arrow { path, dashed, head, look, text, .. } => {
                s.edges.push(Edge { path: path.clone(), dashed: *dashed, head: *head, look: look.clone(), text: text.clone() });
                i += 1;
            }
            x => return Err(format!("unexpected {:?}", x)),
        }
    }
    Ok(s)
}

/// Is the point on the outline of this box?
pub fn on_box(center: P, size: P, p: P) -> bool {
    let (dx, dy) = ((p.0 - center.0).abs(), (p.1 - center.1).abs());
    let (hx, hy) = (size.0 / 2., size.1 / 2.);
    let t = TOL * (1. + hx + hy);
    let inside = dx <= hx + t && dy <= hy + t;
    inside && ((dx - hx).abs() <= t || (dy - hy).abs() <= t)
}
/// Is the point on the outline of this ellipse?
pub fn on_ellipse(center: P, size: P, p: P) -> bool {
    let (dx, dy) = ((p.0 - center.0) / (size.0 / 2.), (p.1 - center.1) / (size.1 / 2.));
    (dx * dx + dy * dy - 1.).abs() < 1e-5
}
impl Node {
    pub fn on_outline(&self, p: P) -> bool {
        match self.kind {
            Kind::Box | Kind::Record => on_box(self.center, self.size, p),
            Kind::Ellipse | Kind::DoubleCircle => on_ellipse(self.center, self.size, p),
        }
    }
    pub fn left(&self) -> f64 {
        self.center.0 - self.size.0 / 2.
    }
    pub fn right(&self) -> f64 {
        self.center.0 + self.size.0 / 2.
    }
    pub fn top(&self) -> f64 {
        self.center.1 - self.size.1 / 2.
    }
    pub fn bottom(&self) -> f64 {
        self.center.1 + self.size.1 / 2.
    }
}
impl Edge {
    pub fn first(&self) -> P {
        self.path[0].0
    }
    pub fn last(&self) -> P {
        self.path[self.path.len() - 1].1
    }
}

/// The space the text needs by the crate's own measure: one font size per
/// character and per line.
pub fn text_extent(text: &str, font: usize) -> P {
    let cols = text.lines().map(|l| l.chars().count()).max().unwrap_or(0);
    let rows = text.lines().count();
    (cols as f64 * font as f64, rows as f64 * font as f64)
}

/// Do two boxes overlap by more than rounding?
pub fn overlap(ac: P, asz: P, bc: P, bsz: P) -> bool {
    let t = 1e-6;
    (ac.0 - bc.0).abs() + t < (asz.0 + bsz.0) / 2. && (ac.1 - bc.1).abs() + t < (asz.1 + bsz.1) / 2.
}

/// Does the line from p to q come within `by` of the box?
pub fn meets(p: (f64, f64), q: (f64, f64), b: ((f64, f64), (f64, f64)), by: f64) -> bool {
    // The part of the line within the box, as an interval of [0, 1].
    let (mut lo, mut hi) = (0f64, 1f64);
    for (p, q, l, h) in [(p.0, q.0, b.0 .0 - by, b.1 .0 + by), (p.1, q.1, b.0 .1 - by, b.1 .1 + by)] {
        if p == q {
            if p < l || p > h {
                return false;
            }
            continue;
        }
        let (s, t) = ((l - p) / (q - p), (h - p) / (q - p));
        lo = lo.max(s.min(t));
        hi = hi.min(s.max(t));
    }
    lo <= hi
}
