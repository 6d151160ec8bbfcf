//! C16: removing dead code and dead functions removes only the dead.
use crate::canon;
use crate::engine::*;
use super::pass::{self, Trace};
use hugr::algorithms::ComposablePass;
use hugr::algorithms::dead_code::{DeadCodeElimPass, PreserveNode};
use hugr::algorithms::{RemoveDeadFuncsPass, remove_dead_funcs};
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::{OpTrait, OpType};
use hugr::types::EdgeKind;
use hugr::{Hugr, HugrView, Node};
use std::collections::{BTreeSet, HashMap};
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        rule: "generated programs with the module, a function or a nested region as entrypoint, extra entry points of any kind, and the default or a random preserve policy; surviving nodes are compared with a reference liveness computation and runs before and after; non-trivial: something is removed and something optional is kept",
        assumptions: &["liveness is defined by data, order, static and control edges and the nesting, as the pass documents"],
        subs: vec![
            Sub { name: "code", quick: 8000, thorough: 500_000, f: code },
            Sub { name: "funcs", quick: 6000, thorough: 400_000, f: funcs },
        ],
        findings: vec![],
    }
}
fn policy(h: &Hugr, n: Node, p: &HashMap<Node, PreserveNode>) -> PreserveNode {
    match p.get(&n) {
        Some(x) => *x,
        None => match h.get_optype(n) {
            OpType::CFG(_) | OpType::TailLoop(_) | OpType::Call(_) => PreserveNode::MustKeep,
            _ => PreserveNode::DeferToChildren,
        },
    }
}
fn keep_alive(h: &Hugr, n: Node, p: &HashMap<Node, PreserveNode>) -> bool {
    match policy(h, n, p) {
        PreserveNode::MustKeep => true,
        PreserveNode::CanRemoveIgnoringChildren => false,
        PreserveNode::DeferToChildren => h.children(n).any(|c| keep_alive(h, c, p)),
    }
}
/// Least set closed under the documented rules.
fn reference(h: &Hugr, entries: &[Node], p: &HashMap<Node, PreserveNode>) -> BTreeSet<Node> {
    let mut live: BTreeSet<Node> = entries.iter().copied().collect();
    live.insert(h.entrypoint());
    loop {
        let mut more: BTreeSet<Node> = BTreeSet::new();
        for n in h.nodes() {
            if live.contains(&n) {
                // nodes that need it, whatever the reason, need its surroundings
                let mut a = n;
                while let Some(q) = h.get_parent(a) {
                    a = q;
                    if h.entry_descendants().any(|x| x == a) {
                        more.insert(a);
                    }
                }
                continue;
            }
            let parent_live = h.get_parent(n).is_some_and(|q| live.contains(&q));
            let structural = matches!(
                h.get_optype(n),
                OpType::Case(_) | OpType::DataflowBlock(_) | OpType::ExitBlock(_) | OpType::Input(_) | OpType::Output(_) | OpType::AliasDecl(_) | OpType::AliasDefn(_)
            );
            if parent_live && (structural || keep_alive(h, n, p)) {
                more.insert(n);
                continue;
            }
            if h.output_neighbours(n).any(|m| live.contains(&m)) {
                more.insert(n);
                continue;
            }
            for port in h.node_inputs(n) {
                if let Some(EdgeKind::Value(t)) = h.get_optype(n).port_kind(port) {
                    if !t.copyable() && h.single_linked_output(n, port).is_some_and(|(s, _)| live.contains(&s)) {
                        more.insert(n);
                    }
                }
            }
        }
        let k = live.len();
        live.extend(more);
        if live.len() == k {
            return live;
        }
    }
}
fn code(c: &mut Ctx) -> R {
    let mut p = pass::profile(&mut c.t, 24);
    p.order = c.t.flag();
    p.linear = c.t.flag();
    p.aliases = c.t.chance(1, 4);
    p.decls = c.t.flag();
    let g = pass::gen_program(c, &p);
    let mut h = g.hugr;
    let mode = c.t.below(if p.recursion { 2 } else { 3 });
    match mode {
        0 => h.set_entrypoint(h.module_root()),
        1 => h.set_entrypoint(g.main),
        _ => {
            let cs = pass::containers(&h);
            if !cs.is_empty() {
                let n = *c.t.pick(&cs);
                h.set_entrypoint(n);
            }
        }
    }
    let mut entries = vec![];
    let all = pass::mono_funcs(&h);
    for f in &all {
        if *f == g.main || c.t.flag() {
            entries.push(*f);
        }
    }
    let nodes: Vec<Node> = h.nodes().collect();
    for _ in 0..c.t.weighted(&[3, 2, 1]) {
        let n = *c.t.pick(&nodes);
        entries.push(n);
    }
    let mut pol = HashMap::new();
    match c.t.below(3) {
        0 => {}
        1 => {
            for n in &nodes {
                if c.t.chance(1, 5) {
                    let x = *c.t.pick(&[PreserveNode::MustKeep, PreserveNode::CanRemoveIgnoringChildren, PreserveNode::DeferToChildren]);
                    pol.insert(*n, x);
                }
            }
        }
        _ => {
            for n in &nodes {
                pol.insert(*n, PreserveNode::CanRemoveIgnoringChildren);
            }
        }
    }
    c.note(|| format!("entry {} entries {entries:?}\npolicy {pol:?}", h.entrypoint()));
    let rs = pass::runs(c, &h, &entries.iter().copied().filter(|n| all.contains(n)).collect::<Vec<_>>(), 2)?;
    let want = reference(&h, &entries, &pol);
    let inside: BTreeSet<Node> = h.entry_descendants().collect();
    let mut h2 = h.clone();
    let pol2 = pol.clone();
    let mut dce = DeadCodeElimPass::<Hugr>::default();
    // several calls accumulate
    if c.t.flag() {
        for n in &entries {
            dce = dce.with_entry_points([*n]);
        }
    } else {
        dce = dce.with_entry_points(entries.iter().copied());
    }
    if !pol.is_empty() {
        dce = dce.set_preserve_callback(Arc::new(move |h: &Hugr, n| match pol2.get(&n) {
            Some(x) => *x,
            None => PreserveNode::default_for(h, n),
        }));
    }
    match no_panic(|| dce.run(&mut h2)) {
        Err((m, at)) => return fail("code-crash", format!("{m} at {at}")),
        Ok(Err(e)) => return fail("code-error", format!("{e}")),
        Ok(Ok(())) => {}
    }
    let got: BTreeSet<Node> = h2.nodes().collect();
    let exp: BTreeSet<Node> = h.nodes().filter(|n| !inside.contains(n) || want.contains(n)).collect();
    if got != exp {
        let lost: Vec<_> = exp.difference(&got).collect();
        let extra: Vec<_> = got.difference(&exp).collect();
        return fail(if lost.is_empty() { "dead-kept" } else { "live-removed" }, format!("live but removed {lost:?}; dead but kept {extra:?}\n{}", canon::show(&h)));
    }
    pass::valid(&h2, "code")?;
    // everything that is left is as it was
    for n in &got {
        ensure!(h.get_parent(*n) == h2.get_parent(*n), "parent", "{n}");
        ensure!(canon::op(h.get_optype(*n), true) == canon::op(h2.get_optype(*n), true), "op-changed", "{n}");
        let a: Vec<Node> = h.input_neighbours(*n).filter(|m| got.contains(m)).collect();
        let b: Vec<Node> = h2.input_neighbours(*n).collect();
        ensure!(a == b, "edges-changed", "inputs of {n} were from {a:?}, now {b:?}");
        let a: Vec<Node> = h.children(*n).filter(|m| got.contains(m)).collect();
        let b: Vec<Node> = h2.children(*n).collect();
        ensure!(a == b, "children-changed", "{n}: {a:?}, now {b:?}");
    }
    pass::same(&rs, &h2, false, Trace::Sub)?;
    // nothing more to remove, and a missing node is an error
    let mut h3 = h2.clone();
    let k = h3.num_nodes();
    if pol.is_empty() {
        match no_panic(|| DeadCodeElimPass::<Hugr>::default().with_entry_points(entries.iter().copied()).run(&mut h3)) {
            Ok(Ok(())) => {}
            e => return fail("again", format!("{e:?}")),
        }
        ensure!(h3.num_nodes() == k, "again", "removed {} more", k - h3.num_nodes());
    }
    let gone = Node::from(portgraph::NodeIndex::new(nodes.iter().map(|n| hugr::NodeIndex::index(*n)).max().unwrap() + 5));
    let r = no_panic(|| DeadCodeElimPass::<Hugr>::default().with_entry_points([gone]).run(&mut h3));
    ensure!(matches!(r, Ok(Err(_))) && h3.num_nodes() == k, "missing-entry", "{r:?}");
    pass::label_runs(c, &rs);
    c.label(["module", "main", "nested entry"][mode]);
    c.label_if(!pol.is_empty(), "policy");
    if got.len() < nodes.len() && inside.iter().any(|n| want.contains(n) && h.get_optype(*n).dataflow_signature().is_some()) {
        c.nontrivial(canon::graph_hash(&h));
        c.sample(|| canon::show(&h));
    }
    Ok(())
}
fn funcs(c: &mut Ctx) -> R {
    let mut p = pass::profile(&mut c.t, 14);
    p.funcs = 2 + c.t.below(6);
    p.decls = c.t.flag();
    p.poly = c.t.flag();
    p.recursion = c.t.flag();
    p.holes = c.t.chance(1, 4);
    let g = pass::gen_program(c, &p);
    let mut h = g.hugr;
    match c.t.below(3) {
        0 => h.set_entrypoint(h.module_root()),
        1 => {
            let f: Vec<Node> = h.children(h.module_root()).filter(|n| h.get_optype(*n).is_func_defn()).collect();
            h.set_entrypoint(*c.t.pick(&f));
        }
        _ => {
            let cs = pass::containers(&h);
            if !cs.is_empty() {
                let n = *c.t.pick(&cs);
                h.set_entrypoint(n);
            }
        }
    }
    let defs: Vec<Node> = h.children(h.module_root()).filter(|n| h.get_optype(*n).is_func_defn()).collect();
    let entries: Vec<Node> = defs.iter().copied().filter(|_| c.t.chance(1, 3)).collect();
    c.note(|| format!("entry {} entries {entries:?}", h.entrypoint()));
    // reachability over the bodies
    let mut top = h.entrypoint();
    while let Some(q) = h.get_parent(top) {
        if q == h.module_root() {
            break;
        }
        top = q;
    }
    let mut live: BTreeSet<Node> = entries.iter().copied().collect();
    if top != h.module_root() {
        live.insert(top);
    }
    let mut todo: Vec<Node> = live.iter().copied().collect();
    while let Some(f) = todo.pop() {
        for n in h.descendants(f) {
            if matches!(h.get_optype(n), OpType::Call(_) | OpType::LoadFunction(_)) {
                let t = h.static_source(n).unwrap();
                if live.insert(t) {
                    todo.push(t);
                }
            }
        }
    }
    let keep: Vec<Node> = pass::mono_funcs(&h).into_iter().filter(|f| live.contains(f)).collect();
    let rs = pass::runs(c, &h, &keep, 1)?;
    let mut h2 = h.clone();
    let wrapped = c.t.flag();
    let r = no_panic(|| {
        if wrapped {
            remove_dead_funcs(&mut h2, entries.iter().copied()).map_err(|e| format!("{e}"))
        } else {
            let k = entries.len() / 2;
            RemoveDeadFuncsPass::default()
                .with_module_entry_points(entries[..k].iter().copied())
                .with_module_entry_points(entries[k..].iter().copied())
                .run(&mut h2)
                .map_err(|e| format!("{e}"))
        }
    });
    match r {
        Err((m, at)) => return fail("funcs-crash", format!("{m} at {at}")),
        Ok(Err(e)) => return fail("funcs-error", e),
        Ok(Ok(())) => {}
    }
    let is_func = |h: &Hugr, n: Node| matches!(h.get_optype(n), OpType::FuncDefn(_) | OpType::FuncDecl(_));
    let got: BTreeSet<Node> = h2.children(h2.module_root()).filter(|n| is_func(&h2, *n)).collect();
    ensure!(got == live, "wrong-functions", "kept {got:?}, reachable {live:?}\n{}", canon::show(&h));
    pass::valid(&h2, "funcs")?;
    // the rest is untouched
    let dead: BTreeSet<Node> = h.children(h.module_root()).filter(|n| is_func(&h, *n) && !live.contains(n)).flat_map(|n| h.descendants(n).collect::<Vec<_>>()).collect();
    let a: Vec<Node> = h.nodes().filter(|n| !dead.contains(n)).collect();
    let b: Vec<Node> = h2.nodes().collect();
    ensure!(a == b, "nodes", "{a:?} {b:?}");
    for n in &b {
        ensure!(canon::op(h.get_optype(*n), true) == canon::op(h2.get_optype(*n), true), "op-changed", "{n}");
        ensure!(h.input_neighbours(*n).collect::<Vec<_>>() == h2.input_neighbours(*n).collect::<Vec<_>>(), "edges-changed", "{n}");
    }
    pass::same(&rs, &h2, true, Trace::Same)?;
    // entry points that are not functions
    let others: Vec<Node> = h.nodes().filter(|n| !h.get_optype(*n).is_func_defn()).collect();
    let bad = *c.t.pick(&others);
    let mut h3 = h.clone();
    let r = no_panic(|| RemoveDeadFuncsPass::default().with_module_entry_points(entries.iter().copied().chain([bad])).run(&mut h3));
    ensure!(matches!(r, Ok(Err(_))), "bad-entry", "{bad} {}: {r:?}", h.get_optype(bad));
    ensure!(h3.num_nodes() == h.num_nodes(), "bad-entry", "removed something");
    c.label_if(h.entrypoint() == h.module_root(), "module");
    c.label_if(!pass::mono_funcs(&h).contains(&h.entrypoint()) && h.entrypoint() != h.module_root(), "nested");
    if !dead.is_empty() && live.len() > 1 {
        c.nontrivial(canon::graph_hash(&h));
        c.sample(|| canon::show(&h));
    }
    Ok(())
}
