//! R01: the label of a record reads as the fields it is made of.
use layout::gv::record::{parse_record_string, record_builder};
use layout::std_shapes::shapes::{RecordDef, ShapeKind};
use mc::engine::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum F {
    Text(String, Option<String>),
    Group(Vec<F>),
}
/// fields := field ('|' field)*; field := '{' fields '}' | ['<' port '>'] text.
/// None: not well formed, or a field without any text or port.
fn fields(c: &[char], i: &mut usize, nested: bool) -> Option<Vec<F>> {
    let mut r = Vec::new();
    loop {
        let mut j = *i;
        while j < c.len() && c[j].is_whitespace() {
            j += 1;
        }
        if j < c.len() && c[j] == '{' {
            *i = j + 1;
            let f = fields(c, i, true)?;
            if *i >= c.len() || c[*i] != '}' {
                return None;
            }
            *i += 1;
            r.push(F::Group(f));
            while *i < c.len() && c[*i].is_whitespace() {
                *i += 1;
            }
        } else {
            let s = *i;
            while *i < c.len() && !matches!(c[*i], '|' | '{' | '}') {
                *i += 1;
            }
            let t: String = c[s..*i].iter().collect();
            let t = t.trim();
            if t.is_empty() {
                return None;
            }
            // A port is what is between a leading < and the first >; other
            // brackets are text.
            if let Some(x) = t.strip_prefix('<') {
                let (port, text) = x.split_once('>')?;
                if port.contains('<') || port.trim() != port || port.is_empty() {
                    return None;
                }
                r.push(F::Text(text.trim().to_string(), Some(port.to_string())));
            } else {
                r.push(F::Text(t.to_string(), None));
            }
        }
        match c.get(*i) {
            Some('|') => *i += 1,
            Some('}') if nested => return Some(r),
            None if !nested => return Some(r),
            _ => return None,
        }
    }
}
fn conv(r: &RecordDef) -> F {
    match r {
        RecordDef::Text(t, p) => F::Text(t.clone(), p.clone()),
        RecordDef::Array(a) => F::Group(a.iter().map(conv).collect()),
    }
}
fn leaves(f: &F, out: &mut Vec<String>) {
    match f {
        F::Text(t, None) => out.push(t.clone()),
        F::Text(t, Some(p)) => out.push(format!("<{}>{}", p, t)),
        F::Group(g) => g.iter().for_each(|x| leaves(x, out)),
    }
}

fn run(s: &str, x: &mut Ctx) -> Result<(), String> {
    let got = conv(&parse_record_string(s));
    match record_builder(s) {
        ShapeKind::Record(r) if conv(&r) == got => {}
        r => return Err(format!("the shape {:?} is not the record {:?}", r, got)),
    }
    x.transitions += s.len() as u64;
    x.state(h(&got));
    let c: Vec<char> = s.chars().collect();
    match fields(&c, &mut 0, false) {
        Some(f) => {
            let want = F::Group(f);
            if got != want {
                return Err(format!("read as {:?}, expected {:?}", got, want));
            }
        }
        None => {
            // However odd: no text is made up or lost, up to blanks, bars, braces and ports.
            let mut l = Vec::new();
            leaves(&got, &mut l);
            let keep = |t: &str| t.chars().filter(|c| !c.is_whitespace() && !matches!(c, '|' | '{' | '}')).collect::<String>();
            // Text after an unmatched closing brace is not part of the record.
            let mut depth = 0;
            let balanced = c.iter().all(|c| {
                depth += (*c == '{') as i32 - (*c == '}') as i32;
                depth >= 0
            });
            if balanced && keep(s) != keep(&l.concat()) {
                return Err(format!("the fields {:?} are not those of the label", l));
            }
            x.note("odd labels", 1);
        }
    }
    Ok(())
}
fn words(name: &str, al: &'static [&'static str], len: usize) -> Family {
    text_family(
        name,
        &format!("every label of up to {} of {:?}", len, al),
        seq_total(al.len(), 0, len),
        move |i| seq(i, al.len(), 0, len).into_iter().map(|x| al[x]).collect(),
        run,
    )
}
fn long(kind: usize, n: usize) -> String {
    let rep = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join("|");
    match kind {
        0 => rep(&|i| format!("t{}", i)),
        1 => rep(&|i| format!("<p{}> t{}", i, i)),
        2 => rep(&|i| format!("{{<p{}>a|b{}}}", i, i)),
        3 => rep(&|i| if i % 2 == 0 { "x y".into() } else { "<q>".into() }),
        4 => format!("{}a|b{}", "{".repeat(n.min(60)), "}".repeat(n.min(60))),
        5 => format!("{}a{}", "{a|".repeat(n.min(60)), "|<p>b}".repeat(n.min(60))),
        6 => format!("{{{}}}|{}", rep(&|i| format!("u{}", i)), "w".repeat(n)),
        7 => "t".repeat(n),
        8 => format!("{}|<{}>{}", "\u{e9}".repeat(n), "\u{4e2d}".repeat(n), "\u{1f600}".repeat(n)),
        9 => format!("<{}>x|<{}>", "p".repeat(n), "q".repeat(n)),
        10 => format!("a{}b|{}<p>{}c{}", " ".repeat(n), " ".repeat(n), " ".repeat(n), " ".repeat(n)),
        11 => format!("<p>{}|x", "\n".repeat(n) + "y"),
        12 => format!("a{}|b", " b>c".repeat(n)),
        13 => format!("x|<p>{}", "<a>".repeat(n)),
        14 => format!("{}|z", "\\".repeat(n)),
        _ => rep(&|i| "\u{e9}".repeat(i % 40 + 1)),
    }
}
fn plan_(t: Tier) -> Plan {
    plan(
        vec![
            words("characters", &["a", "b", "|", "{", "}", "<", ">", " "], t.pick(7, 8)),
            words("fields", &["<p>", "<q1> ", "text", "x y", "|", "{", "}", "\n", "\u{4e2d}"], t.pick(6, 8)),
            words("escapes", &["\\", "a", "<", ">", "|", "{", "n", "<p>", " "], t.pick(6, 7)),
            words("brackets", &["<p>", "a", ">", "<", " ", "|", "->"], t.pick(6, 8)),
            words("letters", &["<", ">", "\u{e9}", "\u{4e2d}\u{1f600}", "|", "}", "{"], t.pick(6, 8)),
            words("unicode-ports", &["<\u{e9}>", "<p\u{4e2d}q>", "\u{1f600}", "|", "{", "}", " \u{a0}", "a\u{301}"], t.pick(6, 7)),
            text_family(
                "stretched",
                "labels of 16 kinds (many fields, deep groups, long texts, long ports, many blanks, in several scripts), each stretched to all sizes of up to 1026",
                16 * mc::scale::sizes(1026).len() as u64,
                |i| {
                    let z = mc::scale::sizes(1026);
                    long(i as usize / z.len(), z[i as usize % z.len()])
                },
                run,
            ),
            words("nesting", &["a", "|", "{", "}"], t.pick(10, 13)),
        ],
        "state = the fields a label was read as; transition = one character read; compared with a reference reader of the record grammar, and for labels outside of the grammar: no panic and no text lost",
        &["a field without text and port, and text next to a group, have no reference meaning"],
    )
}
fn main() {
    mc::engine::main("R01", plan_)
}
