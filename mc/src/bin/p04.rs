//! P04: where a rejected text is said to be wrong.
use layout::gv::DotParser;
use mc::capture;
use mc::engine::*;
use mc::refdot::{self, Fail, Tok};

fn run(text: &str, c: &mut Ctx) -> Result<(), String> {
    let toks = refdot::lex(text);
    let at = match refdot::parse_tokens(&toks) {
        Err(Fail::Syntax(i)) => i,
        Err(Fail::Unspecified) => {
            c.skip("outside the specified subset");
            return Ok(());
        }
        Ok(_) => {
            c.skip("accepted");
            return Ok(());
        }
    };
    c.transitions += at as u64 + 1;
    let chars: Vec<char> = text.chars().collect();
    // The characters the marker may stand under: those of the offending token,
    // or the last character of a text that ends too early.
    let (mut lo, mut hi) = toks[at].1;
    if toks[at].0 == Tok::Eof || lo >= chars.len() {
        lo = chars.len().saturating_sub(1);
        hi = chars.len();
    }
    let line_of = |i: usize| chars[..i.min(chars.len())].iter().filter(|x| **x == '\n').count();
    let mut p = DotParser::new(text);
    if p.process().is_ok() {
        return Err("accepted a text that should be rejected".into());
    }
    let out = capture::stdout(|| p.print_error());
    let out = String::from_utf8_lossy(&out).to_string();
    // The last line with content is the marker.
    let body = out.trim_end_matches('\n');
    let (shown, marker) = match body.rfind('\n') {
        Some(i) => (&body[..i], &body[i + 1..]),
        None => return Err(format!("printed {:?}: no marker line", out)),
    };
    if marker.trim_start_matches(' ') != "^" {
        return Err(format!("printed {:?}: the last line is no marker", out));
    }
    let col = marker.chars().count() - 1;
    // An optional blank line may separate the text and the marker.
    let shown: Vec<&str> = shown.split('\n').collect();
    let lines: Vec<&str> = text.split('\n').collect();
    let mut last = shown.len() - 1;
    if last > 0 && shown[last].is_empty() && !(last < lines.len() && lines[last].is_empty()) {
        last -= 1;
    }
    for (i, s) in shown[..=last].iter().enumerate() {
        if i >= lines.len() || *s != lines[i] {
            return Err(format!("printed {:?}: line {} is not the line of the text", out, i + 1));
        }
    }
    let mut ok = false;
    for i in lo..hi.max(lo + 1) {
        let l = line_of(i);
        let start: usize = lines[..l].iter().map(|x| x.chars().count() + 1).sum();
        if l == last && i - start == col {
            ok = true;
        }
    }
    c.state(h(&(last, col, text)));
    c.outcome(h(&(last, col)));
    if !ok {
        return Err(format!(
            "the marker is at line {} column {}, the offending token {:?} is at characters {}..{} (printed {:?})",
            last + 1,
            col + 1,
            toks[at].0,
            lo,
            hi,
            out
        ));
    }
    Ok(())
}

const ALL: &[&str] = &["{", "}", "[", "]", "=", ";", ":", "->", "a", "\"bc\"", "node", "!", "-", "\"", "12"];

/// Errors far down and far to the right.
const LINE: [&str; 9] = ["a;", " ", "\t", "\"\u{e9}\";", "\"\u{1f600}x\"\t;", "/* \u{4e2d} */", "a->b;", "{ ", "\"a\nb\" "];
const WRONG: [&str; 7] = ["]", "!", "-", "\"", "a = ;", "", "\u{e9}"];
fn far(d: &[usize], z: &[usize]) -> String {
    let n = z[d[3]];
    let pre = match d[2] {
        0 => LINE[d[0]].repeat(n),
        1 => format!("{}\n", LINE[d[0]]).repeat(n),
        2 => format!("{}{}", "\n".repeat(n), LINE[d[0]]),
        3 => format!("{}\r\n{}", LINE[d[0]].repeat(n), " ".repeat(n)),
        _ => format!("// {}\n", LINE[d[0]].replace('\n', " ").repeat(n)),
    };
    format!("digraph {{ {}{} x; }}\n}}", pre, WRONG[d[1]])
}
fn plan_(t: Tier) -> Plan {
    let seps = ["", " ", "\n", "  \n\n ", "\t", " // c\n"];
    let len = t.pick(4, 5);
    let n = ALL.len();
    let max = t.pick(130, 1026);
    let z = mc::scale::sizes(max);
    let fr = [LINE.len(), WRONG.len(), 5, z.len()];
    let total = mixed_total(&vec![n; len]) * (seps.len() * 3) as u64;
    let mut p = plan(
        vec![
            text_family(
                "bodies",
                &format!("every sequence of {} of {:?} joined by every one of {:?}, inside a graph, inside a graph after two lines, and with nothing after it", len, ALL, seps),
                total,
                move |i| {
                    let d = mixed(i, &[3, seps.len()]);
                    let w = digits(i / (3 * seps.len() as u64), n, len);
                    let s: Vec<&str> = w.iter().map(|x| ALL[*x]).collect();
                    let s = s.join(seps[d[1]]);
                    match d[0] {
                        0 => format!("digraph {{ {} }}", s),
                        1 => format!("digraph {{\n x -> y;\n{}\n}}\n", s),
                        _ => s,
                    }
                },
                run,
            ),
            text_family(
                "far",
                &format!("each of {:?}, repeated on a line, on lines of their own, behind empty lines, on a line before and in a comment, up to {} times, then each of {:?}", LINE, max, WRONG),
                mixed_total(&fr),
                move |i| far(&mixed(i, &fr), &z),
                run,
            ),
            {
                let good = "digraph \"g\" {\n node [shape=box];\n a:p -> b [label=\"x y\"]; // c\n c = d;\n subgraph s { e }\n}";
                let n = good.chars().count() as u64;
                let bad = ["!", "\n!\n", "]", " ; = ", "-", "\"", "", "}"];
                text_family(
                    "damaged",
                    "a good text cut at every character, or with one of 8 pieces inserted at every character",
                    n * bad.len() as u64 * 2,
                    move |i| {
                        let d = mixed(i, &[2, bad.len()]);
                        let k = (i / (2 * bad.len() as u64)) as usize;
                        let c: Vec<char> = good.chars().collect();
                        let mut s: String = c[..k].iter().collect();
                        s.push_str(bad[d[1]]);
                        if d[0] == 0 {
                            s.extend(&c[k..]);
                        }
                        s
                    },
                    run,
                )
            },
        ],
        "state = (text, line and column of the marker); transition = one token the reference parser consumes up to the offending one; the printed text and the position of the marker are compared",
        &["the marker may stand under any character of the offending token; for a text that ends too early, under its last character", "a line ends at a newline character"],
    );
    p.procs = 8;
    p
}
fn main() {
    mc::engine::main("P04", plan_)
}
