//! Programs that are stretched in one dimension, from nothing to far beyond
//! what the exhaustive families reach: thresholds and fixed widths hide there.

pub const KINDS: usize = 48;

/// Stretched sizes: all small ones, and the neighbourhoods of powers of two
/// and of round numbers.
pub fn sizes(max: usize) -> Vec<usize> {
    (1..=40)
        .chain(48..=50)
        .chain(62..=66)
        .chain(99..=102)
        .chain(126..=130)
        .chain(198..=202)
        .chain(254..=258)
        .chain(298..=302)
        .chain(510..=514)
        .chain(998..=1002)
        .chain(1022..=1026)
        .filter(|x| *x <= max)
        .collect()
}

fn rep(n: usize, sep: &str, f: impl Fn(usize) -> String) -> String {
    (0..n).map(f).collect::<Vec<_>>().join(sep)
}

/// The program of kind k with dimension n. Dimension means: edges of a chain,
/// statements, attributes, nested braces, letters of a word, ...
pub fn text(k: usize, n: usize) -> String {
    let word = |i: usize| ["a", "b", "c"][i % 3];
    let nest = n.min(60);
    let long = |c: &str| c.repeat(n);
    match k {
        0 => format!("digraph {{ {} }}", rep(n + 1, " -> ", |i| format!("n{}", i))),
        1 => format!("digraph {{ n0 {}; z }}", rep(n, " ", |i| format!("{} n{}", if i % 2 == 0 { "->" } else { "--" }, i + 1))),
        2 => format!("graph {{ n0 {} [color=red]; z }}", rep(n, " ", |i| format!("{} n{}", if i % 3 == 1 { "->" } else { "--" }, i + 1))),
        3 => format!("digraph {{ n0{} }}", rep(n, "", |i| format!("{}n{}", if i + 1 == n { "--" } else { "->" }, i + 1))),
        4 => format!("digraph {{ n0{} }}", rep(n, "", |i| format!("{}n{}", if i == n / 2 { "--" } else { "->" }, i + 1))),
        5 => format!("digraph {{ {} [color=blue] }}", rep(n + 1, " -- ", |i| format!("n{}:p{}", i, i))),
        6 => format!("digraph {{ {} }}", rep(n + 1, "\n->\n", |i| format!("{}{}", word(i), if i % 2 == 1 { ":p" } else { "" }))),
        7 => format!("digraph {{ {} }}", rep(n, "; ", |i| format!("n{} -> n{}", i, i + 1))),
        8 => format!("digraph {{ {} }}", rep(n, " ", |_| "a -> b".to_string())),
        9 => format!("digraph {{ {} }}", rep(n, "; ", |i| format!("a -> m{} [color=\"#{:06x}\"]", i, i + 1))),
        10 => format!("digraph {{ {}; }}", rep(n, "\n", |i| format!("m{}", i))),
        11 => format!("digraph {{ {} }}", rep(n, ";", |i| format!("m{} -> a", i % 7))),
        12 => format!("digraph {{ a [{}]; b }}", rep(n, ", ", |i| format!("k{}=v{}", i, i))),
        13 => format!("digraph {{ a [{} color=red]; b }}", rep(n, "", |i| format!("k{} = \"v {}\"; ", i, i))),
        14 => format!("digraph {{ a {}; b }}", rep(n, "", |i| format!("[fontsize={}]", i % 90 + 8))),
        15 => format!("digraph {{ a -> b [{} penwidth=2][color=red]; }}", rep(n, "", |i| format!("k{}=v ", i))),
        16 => format!("digraph {{ node [{}, color=red]; a; edge [{}; color=blue]; a -> b }}", rep(n, ", ", |i| format!("k{}=1", i)), rep(n, ";", |i| format!("k{}=2", i))),
        17 => format!("digraph {{ {} a; }}", rep(n, "", |i| format!("k{}=\"{}\"; ", i, i))),
        18 => format!("digraph {{ {} in; {} out; }}", rep(nest, "", |_| "{ ".into()), rep(nest, "", |_| "} ".into())),
        19 => format!(
            "digraph {{ {} {} }}",
            rep(nest, " ", |i| format!("subgraph s{} {{ node [fontsize={}]; p{}; p{} -> q{};", i, 10 + i, i, i, i)),
            rep(nest, " ", |i| format!("r{}; }}", i))
        ),
        20 => format!("digraph {{ {} z; y -> z }}", rep(n, " ", |i| format!("{{ node [fontsize={}]; edge [penwidth={}]; m{} -> a }}", i % 50 + 5, i % 9 + 1, i))),
        21 => format!("digraph {{ {} }}", rep(n, " ", |i| format!("node [fontsize={}]; m{};", i % 50 + 5, i))),
        22 => format!("digraph {{ {} }}", rep(n, " ", |i| format!("edge [color=\"#{:06x}\"]; a -> m{};", i + 1, i))),
        23 => format!("digraph {{ {} -> {}; {} }}", long("a"), long("b"), long("a")),
        24 => format!("digraph {{ \"{}\" -> \"{}\"; \"{}\"; \"{}\" }}", long("é"), long("中"), long("é"), long("x ") + "y"),
        25 => format!("digraph {} {{ subgraph {} {{ a }} b }}", long("g"), long("s")),
        26 => format!("digraph {{ a:{} -> b:\"{}\"; b:{} }}", long("p"), long("é"), long("p")),
        27 => format!("digraph {{ {}:p; \"{}\":\"q\" -> {}:p }}", long("a"), long("é"), long("a")),
        28 => format!("digraph {{ a [{}=x, y=\"{}\"]; b }}", long("k"), long("v")),
        29 => format!("digraph {{{}a;/*{}*/b;//{}\nc}}", long(" "), long("*"), long("/")),
        30 => format!("digraph {{{}a{}-> {}b;{}c}}", long("\n"), long("\t"), long("\r\n"), long("/**/")),
        31 => format!("digraph {{ a -> {} [color=red] }}", rep(n, "-> ", |i| word(i + 1).to_string())),
        32 => format!("digraph {{ {} {} }}", rep(n, "; ", |i| format!("m{} -> m{}", i, (i * 7 + 3) % n)), rep(n, " ", |i| format!("m{}", i))),
        33 => format!("digraph {{ {}; {} }}", rep(n, "; ", |i| format!("m{} [color=\"#{:06x}\"]", i, i + 1)), rep(n, "; ", |i| format!("m{} [fontsize={}]", i, i % 60 + 5))),
        34 => format!("digraph {{ {}.{} -> -{}.5; }}", long("7"), long("5"), long("3")),
        36..=47 => {
            // Behind none, one or two letters: multi-byte characters at every offset.
            let (p, c) = (["", "x", "xy"][(k - 36) % 3], ["\u{e9}", "\u{4e2d}", "\u{1f600}", "e\u{301}\n"][(k - 36) / 3]);
            let t = format!("{}{}", p, long(c));
            format!("digraph \"{t}\" {{ \"{t}\":\"{t}\" -> b:\"{t}\" [label=\"{t}\" \"{t}\"=\"{t}\"]; \"{t}\" [shape=record label=\"<{t}> {t}|{t}\"] subgraph \"{t}\" {{ \"{t}\"; \"{t}c\" }} }}")
        }
        _ => format!("strict graph {{ a -- b; {}; c }}", rep(n, ";", |i| ["{}", "{ }", "node []", "edge []", "subgraph t { }"][i % 5].to_string())),
    }
}

/// Statements or letters per unit are bounded: large sizes only for what stays
/// small enough for the property at hand.
pub fn family(max: usize, kinds: &'static [usize], run: impl Fn(&str, &mut crate::engine::Ctx) -> Result<(), String> + Sync + Send + 'static) -> crate::engine::Family {
    let z = sizes(max);
    let m = z.len() as u64;
    crate::engine::text_family(
        "stretched",
        &format!("{} kinds of programs (chains, stars, lists, nested and sibling scopes, defaults, names, ports, blanks, ...), each stretched in one dimension to {} sizes up to {}", kinds.len(), m, max),
        m * kinds.len() as u64,
        move |i| text(kinds[(i / m) as usize], z[(i % m) as usize]),
        run,
    )
}
/// ... and long texts.
pub const TEXTS: &[usize] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47,
];
/// ... without line breaks.
pub const ONE_LINE: &[usize] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44,
];
pub const ALL: &[usize] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35,
];
