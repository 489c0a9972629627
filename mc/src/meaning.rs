//! Does a graph have the nodes and edges that the reference model expects?
use crate::rec::{draw_vg, Flags};
use crate::refdot::Model;
use crate::{refattr, scene};
use layout::topo::layout::VisualGraph;

pub fn means(m: &Model, vg: VisualGraph) -> Result<(), String> {
    let lr = !vg.orientation().is_top_to_bottom();
    let want_lr = m.graph.get("rankdir").map(|x| x == "LR").unwrap_or(false);
    if lr != want_lr {
        return Err(format!("drawn left to right: {}, expected {}", lr, want_lr));
    }
    let d = draw_vg(vg, Flags { debug: false, no_opt: true, no_layout: true });
    let s = scene::read(&d.calls)?;
    if s.nodes.len() != m.nodes.len() || s.edges.len() != m.edges.len() {
        return Err(format!("{} nodes and {} edges, expected {} and {}", s.nodes.len(), s.edges.len(), m.nodes.len(), m.edges.len()));
    }
    for (n, (name, props)) in s.nodes.iter().zip(&m.nodes) {
        let w = refattr::node(name, props);
        let got = (n.kind, &n.label, Some(n.look.line.clone()), n.look.fill.clone(), Some(n.look.width), Some(n.text_look.font));
        let want = (w.kind, &w.label, w.line.clone(), w.fill.clone(), w.width, w.font);
        if got != want {
            return Err(format!("node {} is {:?}, expected {:?} from {:?}", name, got, want, props));
        }
    }
    // Self edges come last in the drawing: compare as multisets.
    let mut got: Vec<_> = s.edges.iter().map(|e| (e.look.line.clone(), e.look.width, e.dashed)).collect();
    let mut want: Vec<_> = m
        .edges
        .iter()
        .map(|e| {
            let w = refattr::edge(&e.props);
            (w.line.unwrap(), w.width.unwrap(), w.dashed)
        })
        .collect();
    got.sort();
    want.sort();
    if got != want {
        return Err(format!("edges are {:?}, expected {:?}", got, want));
    }
    let mut got: Vec<_> = s.labels.iter().map(|l| (l.text.clone(), l.look.font)).collect();
    let mut want: Vec<_> = m
        .edges
        .iter()
        .map(|e| refattr::edge(&e.props))
        .filter(|e| !e.label.is_empty())
        .map(|e| (e.label, e.font.unwrap()))
        .collect();
    got.sort();
    want.sort();
    if got != want {
        return Err(format!("edge labels are {:?}, expected {:?}", got, want));
    }
    Ok(())
}
