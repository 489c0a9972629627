//! P02: the parser against the reference grammar.
use mc::engine::*;
use mc::rec::{conv, parse};
use mc::refdot::{self, Fail, Graph, Stmt};

/// The name a scope without a name gets is not specified.
fn same_body(want: &[Stmt], got: &[Stmt]) -> bool {
    want.len() == got.len()
        && want.iter().zip(got).all(|(w, g)| match (w, g) {
            (Stmt::Sub(wn, wb), Stmt::Sub(gn, gb)) => (wn.is_none() || wn == gn) && same_body(wb, gb),
            _ => w == g,
        })
}
fn same(want: &Graph, got: &Graph) -> bool {
    (want.name.is_none() || want.name == got.name) && same_body(&want.body, &got.body)
}

fn run(text: &str, c: &mut Ctx) -> Result<(), String> {
    let toks = refdot::lex(text);
    let want = refdot::parse_tokens(&toks);
    c.transitions += match &want {
        Err(Fail::Syntax(i)) => *i as u64 + 1,
        _ => toks.len() as u64,
    };
    let got = parse(text).map(|g| conv::graph(&g));
    match want {
        Err(Fail::Unspecified) => {
            c.skip("outside the specified subset");
            Ok(())
        }
        Err(Fail::Syntax(i)) => {
            c.state(h(&(i, &toks[..=i].iter().map(|x| &x.0).collect::<Vec<_>>())));
            c.note("texts rejected", 1);
            match got {
                Err(_) => Ok(()),
                Ok(g) => Err(format!("accepted as {:?}; it should be rejected at token {} {:?}", g, i + 1, toks[i].0)),
            }
        }
        Ok(w) => {
            c.state(h(&w));
            c.note("texts accepted", 1);
            c.outcome(h(&w));
            match got {
                Ok(g) if same(&w, &g) => Ok(()),
                Ok(g) => Err(format!("parsed as {:?}, expected {:?}", g, w)),
                Err(e) => Err(format!("rejected ({}), expected {:?}", e, w)),
            }
        }
    }
}

fn words(name: &'static str, what: &str, pre: &'static str, alpha: &'static [&'static str], post: &'static str, hi: usize) -> Family {
    text_family(
        name,
        &format!("{}: {:?} + every sequence of up to {} of {:?} + {:?}", what, pre, hi, alpha, post),
        seq_total(alpha.len(), 0, hi),
        move |i| {
            let mut s = pre.to_string();
            for x in seq(i, alpha.len(), 0, hi) {
                if !s.is_empty() {
                    s.push(' ');
                }
                s.push_str(alpha[x]);
            }
            s.push_str(post);
            s
        },
        run,
    )
}

const ALL: &[&str] = &[
    "{", "}", "[", "]", "=", ";", ",", ":", "->", "--", "a", "b", "graph", "node", "edge", "digraph", "strict", "subgraph",
];
const STMTS: &[&str] = &[
    "a", "a:p", "a []", "a [k=v]", "a:p [k=v, l=w;]", "a [k=v][l=w]", "a -> b", "a -- b -> c", "a:p -> b:q -> a:r [k=v]",
    "a -> b [k=v l=w]", "a -> b [k=v] [m=n]", "node [k=v]", "edge [k=v]", "graph [k=v]", "k=v", "\"k\"=\"v w\"", "{ a }", "{ a b; c }", "subgraph { k=v; }",
    "subgraph s { a -> b { c } }", "{ }", "edge []", "1 -> -2.5", "\"graph\"", "a:", "a ->", "a [k=]", "graph", "a [k v]", "a b ->",
];

/// What stands between quotes, and where it stands.
const CHARS: &[&str] = &["a", ":", ";", ",", "-", ">", "{", "}", "[", "]", "=", "<", "|", "/", "*", "#", "\\\"", "\\\\", "'", " ", "\n", "\u{e9}", ".", "1", "&", "+"];
const PLACES: &[&str] = &[
    "digraph \"@\" { a }", "digraph { \"@\" }", "digraph { \"@\"; a }", "digraph { \"@\":p [k=v] }", "digraph { a:\"@\"; b }", "digraph { \"@\" -> b:\"@\" -- \"@\" }",
    "digraph { a [\"@\"=v] }", "digraph { a [k=\"@\", l=\"@\"] }", "digraph { \"@\"=v }", "digraph { k=\"@\"; node [k=\"@\"] }", "digraph { subgraph \"@\" { a } }", "digraph { a \"@\" b }",
];

fn plan_(t: Tier) -> Plan {
    let n = STMTS.len();
    let sep = ["; ", " ", "\n", ";\n// c\n"];
    let len = t.pick(3, 4);
    let f = vec![
        mc::scale::family(t.pick(300, 1026), mc::scale::TEXTS, run),
        words("header", "what comes before the body", "", &["strict", "graph", "digraph", "subgraph", "a", "\"b\"", "{", "}", ";", "node", "[", "="], "", t.pick(5, 6)),
        words("body", "bodies over every token", "digraph {", ALL, " }", t.pick(5, 6)),
        words("statement", "statements over the common tokens", "graph g {", &["a", "b", "->", ":", "[", "]", "=", ";", "{", "}"], " }", t.pick(6, 7)),
        words("attributes", "inside attribute lists", "digraph { a [", &["k", "=", "v", ",", ";", "[", "]", "node"], "] ; b }", t.pick(6, 7)),
        words("edges", "inside edge statements", "digraph { a ", &["->", "--", "b", ":", "[", "]", "{", "}", "k = v"], " }", t.pick(6, 7)),
        words("tail", "what comes after the body", "digraph { a }", ALL, "", t.pick(3, 4)),
        text_family(
            "quoted",
            &format!("every text of up to {} of {:?} in quotes, at each of {:?}", t.pick(3, 4), CHARS, PLACES),
            seq_total(CHARS.len(), 0, t.pick(3, 4)) * PLACES.len() as u64,
            move |i| {
                let n = PLACES.len() as u64;
                let q: String = seq(i / n, CHARS.len(), 0, t.pick(3, 4)).iter().map(|x| CHARS[*x]).collect();
                PLACES[(i % n) as usize].replace('@', &q)
            },
            run,
        ),
        text_family(
            "programs",
            &format!("every sequence of {} statements of {:?} with every separator of {:?}", len, STMTS, sep),
            mixed_total(&vec![n; len]) * (sep.len() as u64),
            move |i| {
                let s = sep[(i % 4) as usize];
                let d = digits(i / 4, n, len);
                let b: Vec<&str> = d.iter().map(|x| STMTS[*x]).collect();
                format!("strict digraph \"g h\" {{{}{}}}", b.join(s), s)
            },
            run,
        ),
    ];
    plan(
        f,
        "state = result of the reference parser on a text (syntax tree, or the token at which the text is rejected); transition = one token consumed by the reference parser; the tree the real parser returns is compared node by node",
        &[
            "nothing is claimed about empty statements (';;'), two separators in a row, compass points, edges whose end is a subgraph, and files that start with 'subgraph'; such texts are run but not compared",
            "an edge operator is accepted in both kinds of graph",
        ],
    )
}
fn main() {
    mc::engine::main("P02", plan_)
}
