//! P01: the lexer against the reference lexer.
use layout::gv::parser::{Lexer, Token};
use mc::engine::*;
use mc::refdot::{lex, Tok};

fn conv(t: &Token) -> Tok {
    match t {
        Token::EOF => Tok::Eof,
        Token::Identifier(x) => Tok::Id(x.clone()),
        Token::GraphKW => Tok::Graph,
        Token::NodeKW => Tok::Node,
        Token::EdgeKW => Tok::Edge,
        Token::DigraphKW => Tok::Digraph,
        Token::StrictKW => Tok::Strict,
        Token::SubgraphKW => Tok::Subgraph,
        Token::Equal => Tok::Eq,
        Token::Colon => Tok::Colon,
        Token::Comma => Tok::Comma,
        Token::Semicolon => Tok::Semi,
        Token::ArrowRight => Tok::Arrow,
        Token::ArrowLine => Tok::Line,
        Token::OpenBracket => Tok::LBracket,
        Token::CloseBracket => Tok::RBracket,
        Token::OpenBrace => Tok::LBrace,
        Token::CloseBrace => Tok::RBrace,
        Token::Error(_) => Tok::Error,
    }
}

fn run(text: &str, c: &mut Ctx) -> Result<(), String> {
    let want = lex(text);
    c.state(h(&want));
    let mut l = Lexer::from_string(text);
    for (i, (w, _)) in want.iter().enumerate() {
        let t = conv(&l.next_token());
        c.transitions += 1;
        if t != *w {
            return Err(format!(
                "token {} of {:?} is {:?}, expected {:?}",
                i + 1,
                text,
                t,
                w
            ));
        }
    }
    Ok(())
}

fn words(name: &'static str, what: &str, alpha: &'static [&'static str], hi: usize) -> Family {
    text_family(
        name,
        &format!("every concatenation of up to {} of {:?} ({})", hi, alpha, what),
        seq_total(alpha.len(), 0, hi),
        move |i| seq(i, alpha.len(), 0, hi).iter().map(|x| alpha[*x]).collect(),
        run,
    )
}

fn plan_(t: Tier) -> Plan {
    let ascii: Vec<char> = (1u8..128).map(|x| x as char).collect();
    let a2 = ascii.clone();
    let mut f = vec![
        words("numbers-arrows", "numbers and edge operators", &["-", ">", "1", "0", ".", "a", " ", "="], t.pick(7, 8)),
        words("comments", "comments", &["/", "*", "\n", "a", ";", "\"", "\t"], t.pick(8, 9)),
        words("strings", "quoted strings and escapes", &["\"", "\\", "n", "l", "a", "\n", "/", "é"], t.pick(7, 8)),
        words("punctuation", "punctuation", &["[", "]", "{", "}", "=", ";", ":", ",", "a", " ", "->", "--", "\"b\""], t.pick(5, 6)),
        words(
            "keywords",
            "keywords, near keywords and what can touch them",
            &["graph", "node", "edge", "digraph", "strict", "subgraph", "Graph", "NODE", "_", "1", "a", " ", "\r", "\u{c}", ";", "\"", "//", "\n"],
            t.pick(4, 5),
        ),
        words("comment-context", "comments next to every kind of token", &["/*", "*/", "//", "\r", "\n", "/", "-1", "a1", "\"x\"", "->", "=", " "], t.pick(5, 6)),
    ];
    let n = ascii.len() as u64;
    f.push(text_family(
        "ascii-triples",
        "every three ASCII characters",
        n * n * n,
        move |i| digits(i, ascii.len(), 3).iter().map(|x| ascii[*x]).collect(),
        run,
    ));
    f.push(text_family(
        "ascii-in-string",
        "every two ASCII characters inside a quoted string and between two identifiers",
        n * n * 2,
        move |i| {
            let d = digits(i / 2, a2.len(), 2);
            let s: String = d.iter().map(|x| a2[*x]).collect();
            if i % 2 == 0 {
                format!("\"x{}y\" z", s)
            } else {
                format!("x{}y z", s)
            }
        },
        run,
    ));
    const BEFORE: [&str; 7] = ["", "a ", "a", "-", "\"", "/*", "//"];
    const UNIT: [&str; 18] = ["a", "1", "-", ".", "/", "*", "_", " ", "\n", "\t", "\\", "\"", "\\\"", "/**/", "//\n", "graph", "->", "a="];
    const AFTER: [&str; 8] = ["", "b", " b", ".5", "\" b", "*/ b", "\n b", "-1"];
    let z = mc::scale::sizes(1026);
    let r = [BEFORE.len(), UNIT.len(), AFTER.len(), z.len()];
    f.push(text_family(
        "long-tokens",
        &format!("each of {:?}, then each of {:?} up to 1026 times, then each of {:?}", BEFORE, UNIT, AFTER),
        mixed_total(&r),
        move |i| {
            let d = mixed(i, &r);
            format!("{}{}{}", BEFORE[d[0]], UNIT[d[1]].repeat(z[d[3]]), AFTER[d[2]])
        },
        run,
    ));
    f.push(mc::scale::family(1026, mc::scale::TEXTS, run));
    plan(
        f,
        "state = token sequence of the reference lexer; transition = one token read by the real lexer and compared with the reference; every prefix up to the end of input or the first lexical error is compared",
        &["NUL characters are excluded (the lexer uses NUL for the end of input)", "characters outside ASCII appear only inside quoted strings"],
    )
}
fn main() {
    mc::engine::main("P01", plan_)
}
