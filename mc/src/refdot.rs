//! A reference model of the DOT front end: the lexical rules and the grammar
//! of the supported subset of the language, and the scoping rules.

use std::collections::BTreeMap;

// ------------------------------------------------------------------ lexer --
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Tok {
    Id(String),
    Graph,
    Node,
    Edge,
    Digraph,
    Strict,
    Subgraph,
    Eq,
    Colon,
    Comma,
    Semi,
    Arrow,
    Line,
    LBracket,
    RBracket,
    LBrace,
    RBrace,
    Eof,
    Error,
}

/// A token and the range of characters it was read from.
pub type Span = (usize, usize);

/// Skip blanks and comments from `i`.
fn skip(c: &[char], mut i: usize) -> usize {
    loop {
        if i >= c.len() {
            return i;
        }
        if matches!(c[i], ' ' | '\t' | '\n' | '\r' | '\u{c}') {
            i += 1;
            continue;
        }
        if c[i] == '/' && i + 1 < c.len() && c[i + 1] == '/' {
            while i < c.len() && c[i] != '\n' && c[i] != '\r' {
                i += 1;
            }
            continue;
        }
        if c[i] == '/' && i + 1 < c.len() && c[i + 1] == '*' {
            i += 2;
            loop {
                if i + 1 >= c.len() {
                    // Not terminated: everything that is left is comment.
                    return c.len();
                }
                if c[i] == '*' && c[i + 1] == '/' {
                    i += 2;
                    break;
                }
                i += 1;
            }
            continue;
        }
        return i;
    }
}

fn keyword(s: &str) -> Tok {
    match s {
        "graph" => Tok::Graph,
        "node" => Tok::Node,
        "edge" => Tok::Edge,
        "digraph" => Tok::Digraph,
        "strict" => Tok::Strict,
        "subgraph" => Tok::Subgraph,
        _ => Tok::Id(s.to_string()),
    }
}

/// Tokens of a text, up to and including the end of input or the first error.
pub fn lex(text: &str) -> Vec<(Tok, Span)> {
    let c: Vec<char> = text.chars().collect();
    let mut r = Vec::new();
    let mut i = 0;
    loop {
        i = skip(&c, i);
        if i >= c.len() {
            r.push((Tok::Eof, (c.len(), c.len())));
            return r;
        }
        let s = i;
        let one = |t: Tok| (t, s + 1);
        let (t, e) = match c[i] {
            '=' => one(Tok::Eq),
            ';' => one(Tok::Semi),
            ':' => one(Tok::Colon),
            ',' => one(Tok::Comma),
            '[' => one(Tok::LBracket),
            ']' => one(Tok::RBracket),
            '{' => one(Tok::LBrace),
            '}' => one(Tok::RBrace),
            '"' => {
                let mut v = String::new();
                let mut j = i + 1;
                let mut ok = false;
                while j < c.len() {
                    if c[j] == '"' {
                        ok = true;
                        j += 1;
                        break;
                    }
                    if c[j] == '\\' && j + 1 < c.len() {
                        v.push(match c[j + 1] {
                            'n' | 'l' => '\n',
                            x => x,
                        });
                        j += 2;
                        continue;
                    }
                    v.push(c[j]);
                    j += 1;
                }
                if ok {
                    (Tok::Id(v), j)
                } else {
                    (Tok::Error, c.len())
                }
            }
            '-' => match c.get(i + 1) {
                Some('>') => (Tok::Arrow, i + 2),
                Some('-') => (Tok::Line, i + 2),
                Some(d) if d.is_ascii_digit() => {
                    let e = number(&c, i + 1);
                    (Tok::Id(c[i..e].iter().collect()), e)
                }
                // The character after the sign is part of what was read.
                Some(_) => (Tok::Error, i + 2),
                None => (Tok::Error, i + 1),
            },
            x if x.is_ascii_digit() => {
                let e = number(&c, i);
                (Tok::Id(c[i..e].iter().collect()), e)
            }
            x if x.is_ascii_alphabetic() || x == '_' => {
                let mut e = i;
                while e < c.len() && (c[e].is_ascii_alphanumeric() || c[e] == '_') {
                    e += 1;
                }
                (keyword(&c[i..e].iter().collect::<String>()), e)
            }
            _ => one(Tok::Error),
        };
        let stop = t == Tok::Error;
        r.push((t, (s, e)));
        if stop {
            return r;
        }
        i = e;
    }
}

/// digit+ [ '.' digit* ]
fn number(c: &[char], mut i: usize) -> usize {
    while i < c.len() && c[i].is_ascii_digit() {
        i += 1;
    }
    if i < c.len() && c[i] == '.' {
        i += 1;
        while i < c.len() && c[i].is_ascii_digit() {
            i += 1;
        }
    }
    i
}

// ----------------------------------------------------------------- parser --
pub type Attrs = Vec<(String, String)>;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct NodeId {
    pub name: String,
    pub port: Option<String>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Target {
    Graph,
    Node,
    Edge,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Stmt {
    Node(NodeId, Attrs),
    /// First node, then (node, has an arrow).
    Edge(NodeId, Vec<(NodeId, bool)>, Attrs),
    Attr(Target, Attrs),
    Sub(Option<String>, Vec<Stmt>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Graph {
    pub name: Option<String>,
    pub body: Vec<Stmt>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fail {
    /// A syntax error at this token.
    Syntax(usize),
    /// Something this model takes no position on.
    Unspecified,
}

struct Parser<'a> {
    t: &'a [(Tok, Span)],
    i: usize,
}
type R<T> = Result<T, Fail>;

impl Parser<'_> {
    fn peek(&self) -> &Tok {
        &self.t[self.i].0
    }
    fn bad<T>(&self) -> R<T> {
        Err(Fail::Syntax(self.i))
    }
    fn eat(&mut self, t: Tok) -> R<()> {
        if *self.peek() == t {
            self.i += 1;
            Ok(())
        } else {
            self.bad()
        }
    }
    fn id(&mut self) -> R<String> {
        if let Tok::Id(x) = self.peek().clone() {
            self.i += 1;
            Ok(x)
        } else {
            self.bad()
        }
    }
    fn graph(&mut self) -> R<Graph> {
        if *self.peek() == Tok::Strict {
            self.i += 1;
        }
        match self.peek() {
            Tok::Graph | Tok::Digraph => self.i += 1,
            // A file that is a subgraph.
            Tok::Subgraph => return Err(Fail::Unspecified),
            _ => return self.bad(),
        }
        let name = self.id().ok();
        self.eat(Tok::LBrace)?;
        let body = self.body()?;
        self.eat(Tok::Eof)?;
        Ok(Graph { name, body })
    }
    /// Statements, and the closing brace.
    fn body(&mut self) -> R<Vec<Stmt>> {
        let mut r = Vec::new();
        loop {
            match self.peek() {
                Tok::RBrace => {
                    self.i += 1;
                    return Ok(r);
                }
                // An empty statement.
                Tok::Semi => return Err(Fail::Unspecified),
                _ => {}
            }
            r.push(self.stmt()?);
            if *self.peek() == Tok::Semi {
                self.i += 1;
            }
        }
    }
    fn after_subgraph(&self) -> R<()> {
        if matches!(self.peek(), Tok::Arrow | Tok::Line) {
            // Edges that start at subgraphs.
            return Err(Fail::Unspecified);
        }
        Ok(())
    }
    fn stmt(&mut self) -> R<Stmt> {
        match self.peek().clone() {
            Tok::LBrace => {
                self.i += 1;
                let b = self.body()?;
                self.after_subgraph()?;
                Ok(Stmt::Sub(None, b))
            }
            Tok::Subgraph => {
                self.i += 1;
                let name = self.id().ok();
                self.eat(Tok::LBrace)?;
                let b = self.body()?;
                self.after_subgraph()?;
                Ok(Stmt::Sub(name, b))
            }
            Tok::Graph | Tok::Node | Tok::Edge => {
                let t = match self.peek() {
                    Tok::Graph => Target::Graph,
                    Tok::Node => Target::Node,
                    _ => Target::Edge,
                };
                self.i += 1;
                Ok(Stmt::Attr(t, self.attrs()?))
            }
            Tok::Id(_) => {
                let id = self.node_id()?;
                match self.peek() {
                    Tok::Eq if id.port.is_none() => {
                        self.i += 1;
                        let v = self.id()?;
                        Ok(Stmt::Attr(Target::Graph, vec![(id.name, v)]))
                    }
                    Tok::Arrow | Tok::Line => {
                        let mut to = Vec::new();
                        loop {
                            let arrow = match self.peek() {
                                Tok::Arrow => true,
                                Tok::Line => false,
                                _ => break,
                            };
                            self.i += 1;
                            if matches!(self.peek(), Tok::LBrace | Tok::Subgraph) {
                                // Edges that end at subgraphs.
                                return Err(Fail::Unspecified);
                            }
                            to.push((self.node_id()?, arrow));
                        }
                        let at = if *self.peek() == Tok::LBracket { self.attrs()? } else { vec![] };
                        Ok(Stmt::Edge(id, to, at))
                    }
                    Tok::LBracket => Ok(Stmt::Node(id, self.attrs()?)),
                    Tok::Semi
                    | Tok::RBrace
                    | Tok::Id(_)
                    | Tok::Graph
                    | Tok::Node
                    | Tok::Edge
                    | Tok::Subgraph
                    | Tok::LBrace => Ok(Stmt::Node(id, vec![])),
                    _ => self.bad(),
                }
            }
            _ => self.bad(),
        }
    }
    fn node_id(&mut self) -> R<NodeId> {
        let name = self.id()?;
        let mut port = None;
        if *self.peek() == Tok::Colon {
            self.i += 1;
            port = Some(self.id()?);
            if *self.peek() == Tok::Colon {
                // Compass points.
                return Err(Fail::Unspecified);
            }
        }
        Ok(NodeId { name, port })
    }
    fn attrs(&mut self) -> R<Attrs> {
        let mut r = Vec::new();
        self.eat(Tok::LBracket)?;
        loop {
            if *self.peek() == Tok::RBracket {
                self.i += 1;
                if *self.peek() == Tok::LBracket {
                    self.i += 1;
                    continue;
                }
                return Ok(r);
            }
            let k = self.id()?;
            self.eat(Tok::Eq)?;
            let v = self.id()?;
            r.push((k, v));
            match self.peek() {
                Tok::Comma => {
                    self.i += 1;
                }
                Tok::Semi => {
                    self.i += 1;
                    if *self.peek() == Tok::Comma {
                        // Two separators.
                        return Err(Fail::Unspecified);
                    }
                }
                _ => {}
            }
        }
    }
}

pub fn parse_tokens(t: &[(Tok, Span)]) -> Result<Graph, Fail> {
    Parser { t, i: 0 }.graph()
}
pub fn parse(text: &str) -> Result<Graph, Fail> {
    parse_tokens(&lex(text))
}

// ------------------------------------------------------------ interpreter --
pub type Props = BTreeMap<String, String>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct EdgeModel {
    pub from: NodeId,
    pub to: NodeId,
    pub arrow: bool,
    pub props: Props,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Model {
    /// In the order of their first mention.
    pub nodes: Vec<(String, Props)>,
    pub edges: Vec<EdgeModel>,
    /// Attributes of the top level graph.
    pub graph: Props,
}

/// The meaning of a parsed graph: attribute defaults apply from where they are
/// set to the end of the enclosing braces; what a statement says itself comes
/// on top; a node takes the defaults when it is first mentioned.
pub fn interpret(g: &Graph) -> Model {
    let mut m = Model::default();
    let mut graph = Props::new();
    body(&g.body, &mut m, &mut graph, Props::new(), Props::new());
    m.graph = graph;
    m
}

fn mention(m: &mut Model, name: &str, props: &Props) -> usize {
    if let Some(i) = m.nodes.iter().position(|x| x.0 == name) {
        return i;
    }
    m.nodes.push((name.to_string(), props.clone()));
    m.nodes.len() - 1
}

fn body(stmts: &[Stmt], m: &mut Model, graph: &mut Props, mut node: Props, mut edge: Props) {
    for s in stmts {
        match s {
            Stmt::Attr(t, l) => {
                let d = match t {
                    Target::Graph => &mut *graph,
                    Target::Node => &mut node,
                    Target::Edge => &mut edge,
                };
                for (k, v) in l {
                    d.insert(k.clone(), v.clone());
                }
            }
            Stmt::Node(id, l) => {
                let i = mention(m, &id.name, &node);
                for (k, v) in l {
                    m.nodes[i].1.insert(k.clone(), v.clone());
                }
            }
            Stmt::Edge(first, rest, l) => {
                let mut p = edge.clone();
                for (k, v) in l {
                    p.insert(k.clone(), v.clone());
                }
                mention(m, &first.name, &node);
                let mut prev = first;
                for (to, arrow) in rest {
                    mention(m, &to.name, &node);
                    m.edges.push(EdgeModel { from: prev.clone(), to: to.clone(), arrow: *arrow, props: p.clone() });
                    prev = to;
                }
            }
            Stmt::Sub(_, b) => {
                // Defaults that a subgraph sets end with it.
                let mut g2 = graph.clone();
                body(b, m, &mut g2, node.clone(), edge.clone());
            }
        }
    }
}
