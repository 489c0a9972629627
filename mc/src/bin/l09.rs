//! L09: the debug option only adds markers.
use mc::engine::*;
use mc::gen::*;
use mc::api::{arrows, ports, shapes, G};
use mc::rec::{draw_vg, Call, Flags};

fn run(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let plain = Case { flags: Flags { debug: false, ..c.flags }, ..c.clone() }.calls()?;
    let debug = Case { flags: Flags { debug: true, ..c.flags }, ..c.clone() }.calls()?;
    x.state(h(&c.show()));
    compare(plain, debug, x)
}
fn built(g: &G, x: &mut Ctx) -> Result<(), String> {
    let plain = draw_vg(g.build(), Flags { debug: false, ..g.flags }).calls;
    let debug = draw_vg(g.build(), Flags { debug: true, ..g.flags }).calls;
    x.state(h(&g.show()));
    compare(plain, debug, x)
}
fn compare(plain: Vec<Call>, debug: Vec<Call>, x: &mut Ctx) -> Result<(), String> {
    x.transitions += debug.len() as u64;
    let mut i = 0;
    let mut extra = 0u64;
    for d in &debug {
        if i < plain.len() && *d == plain[i] {
            i += 1;
            continue;
        }
        match d {
            Call::Rect { .. } | Call::Line { .. } | Call::Circle { .. } => extra += 1,
            x => return Err(format!("with debug there is {:?}{}", x, plain.get(i).map(|p| format!(", without it {:?}", p)).unwrap_or_default())),
        }
    }
    if i < plain.len() {
        return Err(format!("with debug there is no {:?}", plain[i]));
    }
    x.outcome(extra);
    Ok(())
}
fn plan_(t: Tier) -> Plan {
    let mut f = standard_families(t, run);
    f.push(arrows(built, 1, 1, &[0, 1, 2, 3]));
    f.push(arrows(built, 2, 1, &[0, 1, 2, 3]));
    f.push(shapes(built, 1, 1, &[0, 1, 2, 3]));
    f.push(ports(built, 2, 1, &[0, 2]));
    if t == Tier::Thorough {
        f.push(arrows(built, 2, 2, &[0, 1, 2, 3]));
        f.push(shapes(built, 2, 1, &[0, 2]));
    }
    plan(
        f,
        "state = one graph with its styles and options; transition = one drawing call with debug; the calls without debug must be among them, unchanged and in the same order, and the others must be rectangles, lines and circles",
        &[],
    )
}
fn main() {
    mc::engine::main("L09", plan_)
}
