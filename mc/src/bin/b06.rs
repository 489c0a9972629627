//! B06: a builder collects the programs that it visits.
use layout::gv::GraphBuilder;
use mc::engine::*;
use mc::meaning::means;
use mc::rec::{draw, draw_vg, parse, Call, Flags};
use mc::refdot;

const STMTS: &[&str] = &[
    "a;",
    "b [shape=box];",
    "a [label=x color=red];",
    "a -> b;",
    "b -> a [label=t];",
    "c:p -- a;",
    "a -> a;",
    "c [shape=record label=\"u|v|w\"];",
    "node [shape=box fontsize=20];",
    "edge [color=blue label=e];",
    "edge [style=dashed penwidth=3];",
    "{ node [color=green]; d; a -> d; }",
    "subgraph s { edge [color=pink]; b -> d; rankdir=LR; }",
    "rankdir=LR;",
    "rankdir=TB;",
];
type Prog = Vec<usize>;

fn body(p: &Prog) -> String {
    p.iter().map(|k| STMTS[*k]).collect::<Vec<_>>().join(" ")
}
fn text(p: &Prog) -> String {
    format!("digraph {{ {} }}", body(p))
}
/// One program with all statements, each part with defaults of its own, and the
/// direction of the last one.
fn joined(ps: &[Prog]) -> String {
    let parts: Vec<String> = ps.iter().map(|p| format!("{{ {} }}", body(p))).collect();
    let dir = ps.last().and_then(|p| p.iter().rev().find(|k| STMTS[**k].starts_with("rankdir"))).map_or("", |k| STMTS[*k]);
    format!("digraph {{ {} {} }}", parts.join(" "), dir)
}
fn show(ps: &[Prog]) -> String {
    ps.iter().map(text).collect::<Vec<_>>().join(", then ")
}
fn history(ps: &[Prog], x: &mut Ctx) -> Result<(), String> {
    x.state(h(&ps));
    let f = Flags::default();
    let same = |b: &GraphBuilder, want: &[Call], what: &str| {
        let got = draw_vg(b.get(), f).calls;
        if got != want {
            let k = (0..).find(|k| got.get(*k) != want.get(*k)).unwrap();
            return Err(format!("{}: call {} is {:?}, expected {:?}", what, k, got.get(k), want.get(k)));
        }
        Ok(())
    };
    // One builder is asked for its drawing after every program, another one at
    // the end only, and what they return is compared with the reference model.
    let mut asked = GraphBuilder::new();
    let mut silent = GraphBuilder::new();
    for k in 0..ps.len() {
        let g = parse(&text(&ps[k]))?;
        asked.visit_graph(&g);
        silent.visit_graph(&g);
        let model = refdot::interpret(&refdot::parse(&joined(&ps[..=k])).map_err(|e| format!("{:?}", e))?);
        means(&model, asked.get())?;
        let want = draw(&joined(&ps[..=k]), f)?.calls;
        x.transitions += 1;
        same(&asked, &want, &format!("after {} of them", k + 1))?;
        if k + 1 == ps.len() {
            same(&asked, &want, "asked once more")?;
            means(&model, silent.get())?;
            same(&silent, &want, "asked at the end only")?;
            x.outcome(h(&format!("{:?}", want)));
        }
    }
    Ok(())
}
fn plan_(t: Tier) -> Plan {
    let n = STMTS.len();
    let fam = |name: &str, progs: usize, len: usize| {
        let np = seq_total(n, 0, len);
        let get = move |i: u64| -> Vec<Prog> { digits(i, np as usize, progs).into_iter().map(|k| seq(k as u64, n, 0, len)).collect() };
        let g2 = get.clone();
        family(
            name,
            &format!("every {} programs of up to {} of {} statements", progs, len, n),
            np.pow(progs as u32),
            move |i| show(&g2(i)),
            move |i, x| history(&get(i), x),
        )
    };
    let mut f = vec![fam("one", 1, t.pick(3, 4)), fam("two", 2, 2), fam("three", 3, 1)];
    if t == Tier::Thorough {
        f.push(fam("four", 4, 1));
    }
    // Long histories.
    f.push(family(
        "many",
        "up to 40 programs, all of the same statement or of all statements in turn",
        40 * (n as u64 + 1),
        move |i| format!("{} programs, {}", i % 40 + 1, if (i / 40) as usize == n { "of all statements in turn".to_string() } else { STMTS[(i / 40) as usize].to_string() }),
        move |i, x| {
            let s = (i / 40) as usize;
            let ps: Vec<Prog> = (0..=(i % 40) as usize).map(|k| vec![if s == n { k % n } else { s }]).collect();
            history(&ps, x)
        },
    ));
    plan(
        f,
        "state = one history of programs visited by one builder; transition = one program visited, after which the builder is asked for its graph",
        &[],
    )
}
fn main() {
    mc::engine::main("B06", plan_)
}
