//! A strict reader for the XML that the drawings are written in.
//! It accepts well-formed documents without a document type definition.

#[derive(Clone, Debug, PartialEq)]
pub struct Elem {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Node>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Elem(Elem),
    Text(String),
}

impl Elem {
    pub fn attr(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == k).map(|a| a.1.as_str())
    }
    pub fn elems(&self) -> impl Iterator<Item = &Elem> {
        self.kids.iter().filter_map(|k| if let Node::Elem(e) = k { Some(e) } else { None })
    }
    /// All text below this element.
    pub fn text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids {
            match k {
                Node::Text(t) => s.push_str(t),
                Node::Elem(e) => s.push_str(&e.text()),
            }
        }
        s
    }
    /// This element and all below it, in document order.
    pub fn all(&self) -> Vec<&Elem> {
        let mut r = vec![self];
        for e in self.elems() {
            r.extend(e.all());
        }
        r
    }
    pub fn num(&self, k: &str) -> Result<f64, String> {
        let v = self.attr(k).ok_or_else(|| format!("<{}> has no {}", self.name, k))?;
        number(v).ok_or_else(|| format!("<{}> {}={:?} is not a number", self.name, k, v))
    }
}

/// A finite number as SVG writes it.
pub fn number(v: &str) -> Option<f64> {
    if v.is_empty() || !v.chars().all(|c| c.is_ascii_digit() || matches!(c, '.' | '-' | '+' | 'e' | 'E')) {
        return None;
    }
    v.parse::<f64>().ok().filter(|x| x.is_finite())
}

struct P {
    c: Vec<char>,
    i: usize,
}
fn is_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r') || (c >= ' ' && c != '\u{fffe}' && c != '\u{ffff}')
}
fn name_start(c: char) -> bool {
    c.is_alphabetic() || c == '_' || c == ':'
}
fn name_char(c: char) -> bool {
    name_start(c) || c.is_ascii_digit() || c == '-' || c == '.'
}
impl P {
    fn err<T>(&self, m: &str) -> Result<T, String> {
        let lo = self.i.saturating_sub(40);
        let hi = (self.i + 20).min(self.c.len());
        Err(format!("{} at {} (…{}…)", m, self.i, self.c[lo..hi].iter().collect::<String>()))
    }
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn starts(&self, s: &str) -> bool {
        s.chars().enumerate().all(|(k, x)| self.c.get(self.i + k) == Some(&x))
    }
    fn eat(&mut self, s: &str) -> Result<(), String> {
        if !self.starts(s) {
            return self.err(&format!("expected {:?}", s));
        }
        self.i += s.chars().count();
        Ok(())
    }
    fn blank(&mut self) -> bool {
        let s = self.i;
        while matches!(self.peek(), Some(' ' | '\t' | '\n' | '\r')) {
            self.i += 1;
        }
        self.i > s
    }
    fn name(&mut self) -> Result<String, String> {
        let s = self.i;
        match self.peek() {
            Some(c) if name_start(c) => {}
            _ => return self.err("expected a name"),
        }
        while self.peek().map(name_char).unwrap_or(false) {
            self.i += 1;
        }
        Ok(self.c[s..self.i].iter().collect())
    }
    fn reference(&mut self) -> Result<char, String> {
        self.eat("&")?;
        let s = self.i;
        while let Some(c) = self.peek() {
            if c == ';' {
                break;
            }
            if self.i - s > 10 {
                return self.err("a reference without its end");
            }
            self.i += 1;
        }
        let n: String = self.c[s..self.i].iter().collect();
        self.eat(";")?;
        let c = match n.as_str() {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            x => {
                let v = if let Some(h) = x.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = x.strip_prefix('#') {
                    d.parse().ok()
                } else {
                    None
                };
                match v.and_then(char::from_u32) {
                    Some(c) if is_char(c) => c,
                    _ => return self.err(&format!("unknown reference &{};", x)),
                }
            }
        };
        Ok(c)
    }
    fn attrs(&mut self) -> Result<Vec<(String, String)>, String> {
        let mut r: Vec<(String, String)> = Vec::new();
        loop {
            let sp = self.blank();
            match self.peek() {
                Some('>') | Some('/') | Some('?') | None => return Ok(r),
                _ => {}
            }
            if !sp {
                return self.err("attributes that are not separated");
            }
            let k = self.name()?;
            self.blank();
            self.eat("=")?;
            self.blank();
            let q = match self.peek() {
                Some(c @ ('"' | '\'')) => c,
                _ => return self.err("expected a quoted value"),
            };
            self.i += 1;
            let mut v = String::new();
            loop {
                match self.peek() {
                    None => return self.err("a value without its end"),
                    Some(c) if c == q => {
                        self.i += 1;
                        break;
                    }
                    Some('<') => return self.err("< in a value"),
                    Some('&') => v.push(self.reference()?),
                    Some(c) if !is_char(c) => return self.err("a character that is not allowed"),
                    Some(c) => {
                        v.push(if matches!(c, '\t' | '\n' | '\r') { ' ' } else { c });
                        self.i += 1;
                    }
                }
            }
            if r.iter().any(|a| a.0 == k) {
                return self.err(&format!("attribute {} appears twice", k));
            }
            r.push((k, v));
        }
    }
    fn comment(&mut self) -> Result<bool, String> {
        if !self.starts("<!--") {
            return Ok(false);
        }
        self.i += 4;
        while self.i < self.c.len() && !self.starts("--") {
            self.i += 1;
        }
        self.eat("-->")?;
        Ok(true)
    }
    fn elem(&mut self) -> Result<Elem, String> {
        self.eat("<")?;
        let name = self.name()?;
        let attrs = self.attrs()?;
        let mut e = Elem { name, attrs, kids: vec![] };
        if self.peek() == Some('/') {
            self.eat("/>")?;
            return Ok(e);
        }
        self.eat(">")?;
        let mut text = String::new();
        loop {
            match self.peek() {
                None => return self.err(&format!("<{}> is not closed", e.name)),
                Some('<') if self.starts("<!--") => {
                    self.comment()?;
                }
                Some('<') => {
                    if !text.is_empty() {
                        e.kids.push(Node::Text(std::mem::take(&mut text)));
                    }
                    if self.starts("</") {
                        self.i += 2;
                        let n = self.name()?;
                        if n != e.name {
                            return self.err(&format!("</{}> closes <{}>", n, e.name));
                        }
                        self.blank();
                        self.eat(">")?;
                        return Ok(e);
                    }
                    let k = self.elem()?;
                    e.kids.push(Node::Elem(k));
                }
                Some('&') => text.push(self.reference()?),
                Some(']') if self.starts("]]>") => return self.err("]]> in text"),
                Some(c) if !is_char(c) => return self.err("a character that is not allowed"),
                Some(c) => {
                    text.push(c);
                    self.i += 1;
                }
            }
        }
    }
}

pub fn parse(s: &str) -> Result<Elem, String> {
    let mut p = P { c: s.chars().collect(), i: 0 };
    if p.starts("<?xml") {
        p.i += 5;
        let a = p.attrs()?;
        p.eat("?>")?;
        if a.first().map(|x| x.0.as_str()) != Some("version") {
            return p.err("no version");
        }
        if let Some(e) = a.iter().find(|x| x.0 == "encoding") {
            if !e.1.eq_ignore_ascii_case("utf-8") {
                return p.err("encoding is not UTF-8");
            }
        }
    }
    loop {
        p.blank();
        if !p.comment()? {
            break;
        }
    }
    let e = p.elem()?;
    loop {
        p.blank();
        if !p.comment()? {
            break;
        }
    }
    if p.i != p.c.len() {
        return p.err("something after the end of the document");
    }
    Ok(e)
}
