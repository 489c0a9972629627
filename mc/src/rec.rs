//! A recording render backend, and the pipeline text -> drawing.

use layout::backends::svg::SVGWriter;
use layout::core::format::{ClipHandle, RenderBackend};
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
use layout::gv::parser::ast;
use layout::gv::{DotParser, GraphBuilder};
use layout::topo::layout::VisualGraph;

pub type P = (f64, f64);
pub fn p(x: Point) -> P {
    (x.x, x.y)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Look {
    pub line: String,
    pub width: usize,
    pub fill: Option<String>,
    pub rounded: usize,
    pub font: usize,
}
pub fn look(l: &StyleAttr) -> Look {
    Look {
        line: l.line_color.to_web_color(),
        width: l.line_width,
        fill: l.fill_color.map(|c| c.to_web_color()),
        rounded: l.rounded,
        font: l.font_size,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Call {
    Rect { xy: P, size: P, look: Look, props: Option<String>, clip: Option<usize> },
    Line { a: P, b: P, look: Look, props: Option<String> },
    Circle { xy: P, size: P, look: Look, props: Option<String> },
    Text { xy: P, text: String, look: Look },
    Arrow { path: Vec<(P, P)>, dashed: bool, head: (bool, bool), look: Look, props: Option<String>, text: String },
    Clip { xy: P, size: P, rounded: usize, handle: usize },
}

impl Call {
    /// Every number the call carries.
    pub fn numbers(&self) -> Vec<f64> {
        match self {
            Call::Rect { xy, size, .. } | Call::Circle { xy, size, .. } | Call::Clip { xy, size, .. } => {
                vec![xy.0, xy.1, size.0, size.1]
            }
            Call::Line { a, b, .. } => vec![a.0, a.1, b.0, b.1],
            Call::Text { xy, .. } => vec![xy.0, xy.1],
            Call::Arrow { path, .. } => path.iter().flat_map(|(a, b)| vec![a.0, a.1, b.0, b.1]).collect(),
        }
    }
}

#[derive(Default)]
pub struct Recorder {
    pub calls: Vec<Call>,
    clips: usize,
}

impl RenderBackend for Recorder {
    fn draw_rect(&mut self, xy: Point, size: Point, l: &StyleAttr, props: Option<String>, clip: Option<ClipHandle>) {
        self.calls.push(Call::Rect { xy: p(xy), size: p(size), look: look(l), props, clip });
    }
    fn draw_line(&mut self, a: Point, b: Point, l: &StyleAttr, props: Option<String>) {
        self.calls.push(Call::Line { a: p(a), b: p(b), look: look(l), props });
    }
    fn draw_circle(&mut self, xy: Point, size: Point, l: &StyleAttr, props: Option<String>) {
        self.calls.push(Call::Circle { xy: p(xy), size: p(size), look: look(l), props });
    }
    fn draw_text(&mut self, xy: Point, text: &str, l: &StyleAttr) {
        self.calls.push(Call::Text { xy: p(xy), text: text.to_string(), look: look(l) });
    }
    fn draw_arrow(
        &mut self,
        path: &[(Point, Point)],
        dashed: bool,
        head: (bool, bool),
        l: &StyleAttr,
        props: Option<String>,
        text: &str,
    ) {
        self.calls.push(Call::Arrow {
            path: path.iter().map(|x| (p(x.0), p(x.1))).collect(),
            dashed,
            head,
            look: look(l),
            props,
            text: text.to_string(),
        });
    }
    fn create_clip(&mut self, xy: Point, size: Point, rounded: usize) -> ClipHandle {
        let handle = self.clips;
        self.clips += 1;
        self.calls.push(Call::Clip { xy: p(xy), size: p(size), rounded, handle });
        handle
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
pub struct Flags {
    pub debug: bool,
    pub no_opt: bool,
    pub no_layout: bool,
}
impl Flags {
    pub fn all() -> Vec<Flags> {
        (0..8).map(Flags::from_bits).collect()
    }
    pub fn from_bits(b: usize) -> Flags {
        Flags { debug: b & 4 != 0, no_opt: b & 1 != 0, no_layout: b & 2 != 0 }
    }
    pub fn show(&self) -> String {
        format!(
            "{}{}{}",
            if self.debug { " --debug" } else { "" },
            if self.no_opt { " --no-optz" } else { "" },
            if self.no_layout { " --no-layout" } else { "" }
        )
    }
}

pub fn parse(text: &str) -> Result<ast::Graph, String> {
    DotParser::new(text).process()
}

pub fn build(text: &str) -> Result<VisualGraph, String> {
    let g = parse(text)?;
    let mut gb = GraphBuilder::new();
    gb.visit_graph(&g);
    Ok(gb.get())
}

pub struct Drawing {
    pub calls: Vec<Call>,
    pub vg: VisualGraph,
}

pub fn draw_vg(mut vg: VisualGraph, f: Flags) -> Drawing {
    let mut r = Recorder::default();
    vg.do_it(f.debug, f.no_opt, f.no_layout, &mut r);
    Drawing { calls: r.calls, vg }
}

pub fn draw(text: &str, f: Flags) -> Result<Drawing, String> {
    Ok(draw_vg(build(text)?, f))
}

pub fn svg(text: &str, f: Flags) -> Result<String, String> {
    let mut vg = build(text)?;
    let mut w = SVGWriter::new();
    vg.do_it(f.debug, f.no_opt, f.no_layout, &mut w);
    Ok(w.finalize())
}

/// The parsed graph in the terms of the reference model.
pub mod conv {
    use crate::refdot as m;
    use layout::gv::parser::ast;
    fn id(n: &ast::NodeId) -> m::NodeId {
        m::NodeId { name: n.name.clone(), port: n.port.clone() }
    }
    pub fn stmt(s: &ast::Stmt) -> m::Stmt {
        match s {
            ast::Stmt::Node(n) => m::Stmt::Node(id(&n.id), n.list.list.clone()),
            ast::Stmt::Edge(e) => m::Stmt::Edge(
                id(&e.from),
                e.to.iter().map(|(n, k)| (id(n), matches!(k, ast::ArrowKind::Arrow))).collect(),
                e.list.list.clone(),
            ),
            ast::Stmt::Attribute(a) => m::Stmt::Attr(
                match a.target {
                    ast::AttrStmtTarget::Graph => m::Target::Graph,
                    ast::AttrStmtTarget::Node => m::Target::Node,
                    ast::AttrStmtTarget::Edge => m::Target::Edge,
                },
                a.list.list.clone(),
            ),
            ast::Stmt::SubGraph(g) => m::Stmt::Sub(Some(g.name.clone()), g.list.list.iter().map(stmt).collect()),
        }
    }
    pub fn graph(g: &ast::Graph) -> m::Graph {
        m::Graph { name: Some(g.name.clone()), body: g.list.list.iter().map(stmt).collect() }
    }
}
