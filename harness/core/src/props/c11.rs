//! C11: subgraph construction accepts exactly the convex sets.
use crate::canon;
use crate::engine::*;
use super::pass;
use hugr::hugr::views::sibling_subgraph::{InvalidSubgraph, LineConvexChecker, TopoConvexChecker, ValidationMode};
use hugr::hugr::views::{RootChecked, SiblingSubgraph};
use hugr::ops::handle::DataflowParentID;
use hugr::ops::{OpTag, OpTrait};
use hugr::types::{EdgeKind, Signature, Type};
use hugr::{Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort, Port, PortIndex};
use std::collections::{BTreeMap, BTreeSet};

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        rule: "sets of siblings chosen at random, by closure under paths and from whole regions, in generated programs with copies, discards, order edges, calls, constants and nonlocal edges: acceptance and the accepted subgraph compared with a brute-force definition; non-trivial: at least two nodes",
        assumptions: &["inputs and outputs of regions are not chosen", "regions are dataflow regions"],
        subs: vec![
            Sub { name: "nodes", quick: 40_000, thorough: 4_000_000, f: nodes },
            Sub { name: "boundary", quick: 30_000, thorough: 3_000_000, f: boundary },
            Sub { name: "region", quick: 10_000, thorough: 1_000_000, f: region },
        ],
        findings: vec![Finding { id: "line-multi-order", still_present: multi_order }],
    }
}
pub fn profile(t: &mut Tape) -> crate::gen_::Profile {
    let mut p = pass::profile(t, 25);
    p.order = t.chance(1, 3);
    p.effects = t.chance(1, 4);
    p.nonlocal = t.chance(1, 4);
    p.shuffle = t.flag();
    p.depth = t.below(3);
    p.cfg = t.chance(1, 3);
    p
}
/// The brute-force definition.
pub struct Spec {
    pub ins: Vec<(Node, IncomingPort)>,
    pub calls: Vec<Vec<(Node, IncomingPort)>>,
    pub outs: Vec<(Node, OutgoingPort)>,
    pub convex: bool,
    /// every edge crossing the border is a value or a call
    pub values: bool,
}
pub fn dataflow_parents(h: &Hugr) -> Vec<Node> {
    h.nodes().filter(|n| h.get_optype(*n).tag() <= OpTag::DataflowParent).collect()
}
fn kind(h: &Hugr, n: Node, p: impl Into<Port>) -> Option<EdgeKind> {
    h.get_optype(n).port_kind(p)
}
/// Nodes reachable from `from` by steps within the region.
fn reach(h: &Hugr, parent: Node, from: impl IntoIterator<Item = Node>) -> BTreeSet<Node> {
    let mut seen = BTreeSet::new();
    let mut q: Vec<Node> = from.into_iter().collect();
    while let Some(n) = q.pop() {
        for m in h.output_neighbours(n) {
            if h.get_parent(m) == Some(parent) && seen.insert(m) {
                q.push(m);
            }
        }
    }
    seen
}
pub fn spec(h: &Hugr, s: &[Node]) -> Spec {
    let set: BTreeSet<Node> = s.iter().copied().collect();
    let parent = h.get_parent(s[0]).unwrap();
    let mut r = Spec { ins: vec![], calls: vec![], outs: vec![], convex: true, values: true };
    let mut calls: BTreeMap<(Node, usize), Vec<(Node, IncomingPort)>> = BTreeMap::new();
    let mut seen = BTreeSet::new();
    for &n in s {
        if !seen.insert(n) {
            continue;
        }
        for p in h.node_inputs(n) {
            let src: Vec<_> = h.linked_outputs(n, p).collect();
            if src.iter().any(|x| !set.contains(&x.0)) {
                match kind(h, n, p) {
                    Some(EdgeKind::Value(_)) => r.ins.push((n, p)),
                    Some(EdgeKind::Function(_)) => calls.entry((src[0].0, src[0].1.index())).or_default().push((n, p)),
                    _ => r.values = false,
                }
            }
        }
        for p in h.node_outputs(n) {
            if h.linked_inputs(n, p).any(|x| !set.contains(&x.0)) {
                match kind(h, n, p) {
                    Some(EdgeKind::Value(_)) => r.outs.push((n, p)),
                    _ => r.values = false,
                }
            }
        }
    }
    r.calls = calls.into_values().collect();
    let left: Vec<Node> = set.iter().flat_map(|n| h.output_neighbours(*n).collect::<Vec<_>>()).filter(|m| h.get_parent(*m) == Some(parent) && !set.contains(m)).collect();
    let back: BTreeSet<Node> = left.iter().copied().chain(reach(h, parent, left.iter().copied())).collect();
    r.convex = back.is_disjoint(&set);
    r
}
/// A set of siblings without inputs and outputs.
pub fn choose(t: &mut Tape, h: &Hugr, leaves: bool) -> Option<Vec<Node>> {
    let ps = dataflow_parents(h);
    let p = *t.pick(&ps);
    let ch: Vec<Node> = h.children(p).skip(2).filter(|n| !leaves || h.first_child(*n).is_none()).collect();
    if ch.is_empty() {
        return None;
    }
    let mut s: BTreeSet<Node> = BTreeSet::new();
    match t.below(6) {
        0 => {
            let k = 1 + t.below(4);
            for _ in 0..k {
                s.insert(*t.pick(&ch));
            }
        }
        1 | 2 => {
            // between two groups
            let k = 1 + t.below(3);
            let a: Vec<Node> = (0..k).map(|_| *t.pick(&ch)).collect();
            let b: Vec<Node> = (0..k).map(|_| *t.pick(&ch)).collect();
            let ra = reach(h, p, a.iter().copied());
            for n in &ch {
                if (a.contains(n) || ra.contains(n)) && (b.contains(n) || reach(h, p, [*n]).iter().any(|m| b.contains(m))) {
                    s.insert(*n);
                }
            }
            if s.is_empty() {
                s.insert(a[0]);
            }
        }
        3 | 4 => {
            // grow along edges, then close, sometimes spoil
            let k = 1 + t.below(6);
            s.insert(*t.pick(&ch));
            for _ in 0..k {
                let v: Vec<Node> = s.iter().flat_map(|n| h.all_neighbours(*n).collect::<Vec<_>>()).filter(|m| ch.contains(m)).collect();
                if v.is_empty() {
                    break;
                }
                s.insert(*t.pick(&v));
            }
            // constants come along with their loads
            if t.flag() {
                for n in s.clone() {
                    s.extend(h.input_neighbours(n).filter(|m| h.get_optype(*m).is_const() && ch.contains(m)));
                }
            }
            if t.chance(3, 4) {
                for n in &ch {
                    if reach(h, p, s.iter().copied()).contains(n) && reach(h, p, [*n]).iter().any(|m| s.contains(m)) {
                        s.insert(*n);
                    }
                }
                if t.chance(1, 4) && s.len() > 2 {
                    let v: Vec<Node> = s.iter().copied().collect();
                    s.remove(t.pick(&v));
                }
            }
        }
        _ => {
            s.extend(ch.iter().copied());
            let d = t.below(3);
            for _ in 0..d {
                if s.len() > 1 {
                    let v: Vec<Node> = s.iter().copied().collect();
                    s.remove(t.pick(&v));
                }
            }
        }
    }
    let mut v: Vec<Node> = s.into_iter().collect();
    t.shuffle(&mut v);
    Some(v)
}
fn out_type(h: &Hugr, n: Node, p: impl Into<Port>) -> Type {
    match kind(h, n, p) {
        Some(EdgeKind::Value(t)) => t,
        k => panic!("not a value port: {k:?}"),
    }
}
fn sorted<T: Ord + Clone>(v: &[T]) -> Vec<T> {
    let mut v = v.to_vec();
    v.sort();
    v
}
fn same_calls(a: &[Vec<(Node, IncomingPort)>], b: &[Vec<(Node, IncomingPort)>]) -> bool {
    let f = |v: &[Vec<(Node, IncomingPort)>]| v.iter().map(|x| sorted(x)).collect::<BTreeSet<_>>();
    a.len() == b.len() && f(a) == f(b)
}
/// Does the subgraph describe exactly the set?
fn right(h: &Hugr, g: &SiblingSubgraph, s: &[Node], sp: &Spec, what: &str) -> R {
    let mut want: Vec<Node> = s.to_vec();
    want.sort();
    want.dedup();
    ensure!(sorted(g.nodes()) == want && g.node_count() == want.len(), format!("{what}-nodes"), "{:?} instead of {want:?}", g.nodes());
    ensure!(same_calls(g.function_calls(), &sp.calls), format!("{what}-calls"), "{:?} instead of {:?}", g.function_calls(), sp.calls);
    let sig = Signature::new(
        g.incoming_ports().iter().map(|v| out_type(h, v[0].0, v[0].1)).collect::<Vec<_>>(),
        g.outgoing_ports().iter().map(|v| out_type(h, v.0, v.1)).collect::<Vec<_>>(),
    );
    ensure!(g.signature(h) == sig, format!("{what}-signature"), "{} instead of {sig}", g.signature(h));
    ensure!(g.get_parent(h) == h.get_parent(s[0]).unwrap(), format!("{what}-parent"), "");
    Ok(())
}
/// The nodes found from the border by following edges not in it.
fn closure(h: &Hugr, s: &[Node], sp: &Spec) -> BTreeSet<Node> {
    let parent = h.get_parent(s[0]).unwrap();
    let mut border: BTreeSet<(Node, Port)> = sp.outs.iter().map(|(n, p)| (*n, Port::from(*p))).collect();
    border.extend(sp.ins.iter().chain(sp.calls.iter().flatten()).map(|(n, p)| (*n, Port::from(*p))));
    let mut q: Vec<Node> = border.iter().map(|x| x.0).collect();
    let mut seen: BTreeSet<Node> = q.iter().copied().collect();
    while let Some(n) = q.pop() {
        for p in h.all_node_ports(n) {
            if !border.contains(&(n, p)) {
                for (m, _) in h.linked_ports(n, p) {
                    if h.get_parent(m) == Some(parent) && seen.insert(m) {
                        q.push(m);
                    }
                }
            }
        }
    }
    seen
}
fn nodes(c: &mut Ctx) -> R {
    let p = profile(&mut c.t);
    let g = pass::gen_program(c, &p);
    let h = g.hugr;
    let Some(mut s) = choose(&mut c.t, &h, false) else { return Ok(()) };
    if c.t.chance(1, 10) {
        let x = s[0];
        s.push(x);
    }
    if c.t.chance(1, 12) {
        // not siblings
        let v: Vec<Node> = h.nodes().filter(|n| *n != h.module_root() && h.get_parent(*n) != h.get_parent(s[0])).collect();
        if !v.is_empty() {
            let x = *c.t.pick(&v);
            let at = c.t.below(s.len() + 1);
            s.insert(at, x);
        }
    }
    c.note(|| format!("set {s:?}"));
    let siblings = s.iter().all(|n| h.get_parent(*n) == h.get_parent(s[0]));
    let r = match no_panic(|| SiblingSubgraph::try_from_nodes(s.clone(), &h)) {
        Ok(r) => r,
        Err((m, at)) => return fail("nodes-crash", format!("{m} at {at}")),
    };
    if !siblings {
        c.label("not-siblings");
        ensure!(r.is_err(), "not-siblings-accepted", "{s:?}");
        return Ok(());
    }
    let parent = h.get_parent(s[0]).unwrap();
    let sp = spec(&h, &s);
    c.label(match (sp.values, sp.convex) {
        (true, true) => "good",
        (true, false) => "not-convex",
        (false, true) => "other-edges",
        _ => "both",
    });
    let want = sp.values && sp.convex;
    ensure!(r.is_ok() == want, "nodes-accepted", "{s:?}: {r:?}, values {} convex {}\n{}", sp.values, sp.convex, canon::show(&h));
    if sp.values && !sp.convex {
        ensure!(matches!(r, Err(InvalidSubgraph::NotConvex)), "nodes-error", "{r:?}");
    }
    if let Ok(g) = &r {
        right(&h, g, &s, &sp, "nodes")?;
        let ins: Vec<_> = sp.ins.iter().map(|x| vec![*x]).collect();
        ensure!(g.incoming_ports() == &ins, "nodes-inputs", "{:?} instead of {ins:?}", g.incoming_ports());
        ensure!(g.outgoing_ports() == &sp.outs, "nodes-outputs", "{:?} instead of {:?}", g.outgoing_ports(), sp.outs);
    }
    // a checker that has been used before
    let topo = TopoConvexChecker::new(&h, parent);
    let line = LineConvexChecker::new(&h, parent);
    // portgraph's line checker (an external crate) does not support ports with several incoming links
    let supported = h.children(parent).all(|n| h.node_inputs(n).all(|p| h.linked_outputs(n, p).count() < 2));
    c.label_if(!supported, "no-line-checker");
    for _ in 0..1 + c.t.below(3) {
        let other = choose(&mut c.t, &h, false).filter(|o| h.get_parent(o[0]) == Some(parent));
        for set in other.iter().chain([&s]) {
            let fresh = SiblingSubgraph::try_from_nodes(set.clone(), &h);
            let a = no_panic(|| SiblingSubgraph::try_from_nodes_with_checker(set.clone(), &h, &topo));
            ensure!(a.as_ref().ok() == Some(&fresh), "reused-checker", "{set:?}: {a:?} instead of {fresh:?}");
            if !supported {
                continue;
            }
            let mut uniq = vec![];
            for n in set {
                if !uniq.contains(n) {
                    uniq.push(*n);
                }
            }
            let b = no_panic(|| {
                let iv = line.get_intervals_from_nodes(uniq.iter().copied())?;
                let back: BTreeSet<Node> = line.nodes_in_intervals(&iv).collect();
                Some((SiblingSubgraph::try_from_nodes_with_intervals(uniq.clone(), &iv, &line), back))
            });
            let b = match b {
                Ok(b) => b,
                Err((m, at)) => return fail("line-crash", format!("{set:?}: {m} at {at}")),
            };
            let sq = spec(&h, set);
            match (&fresh, &b) {
                (Ok(x), Some((Ok(y), back))) => {
                    ensure!(sorted(x.nodes()) == sorted(y.nodes()) && x.incoming_ports() == y.incoming_ports() && x.outgoing_ports() == y.outgoing_ports() && x.function_calls() == y.function_calls(), "line-different", "{set:?}: {x:?} but {y:?}");
                    ensure!(back.iter().all(|n| set.contains(n)) && set.iter().all(|n| back.contains(n)), "line-nodes", "{set:?} gives {back:?}");
                }
                (Err(_), None | Some((Err(_), _))) => {}
                _ if !sq.values => {
                    ensure!(matches!(b, None | Some((Err(_), _))), "line-kinds", "{set:?}: {fresh:?} but {b:?}");
                }
                _ => return fail("line-answer", format!("{set:?}: {fresh:?} but {b:?}\n{}", canon::show(&h))),
            }
        }
    }
    if s.len() > 1 {
        c.nontrivial(canon::graph_hash(&h) ^ s.iter().fold(7u64, |a, n| a.wrapping_mul(31).wrapping_add(n.to_string().bytes().map(u64::from).sum())));
        c.sample(|| format!("{s:?} of\n{}", canon::show(&h)));
    }
    Ok(())
}
fn boundary(c: &mut Ctx) -> R {
    let p = profile(&mut c.t);
    let g = pass::gen_program(c, &p);
    let h = g.hugr;
    let Some(s) = choose(&mut c.t, &h, false) else { return Ok(()) };
    c.note(|| format!("set {s:?}"));
    let sp = spec(&h, &s);
    let set: BTreeSet<Node> = s.iter().copied().collect();
    // single nodes
    let n = s[0];
    if !h.all_node_ports(n).any(|p| h.get_optype(n).other_port(p.direction()) == Some(p) && h.is_linked(n, p)) && h.get_optype(n).dataflow_signature().is_some() {
        let s1 = spec(&h, &[n]);
        match no_panic(|| SiblingSubgraph::from_node(n, &h)) {
            Err((m, at)) => return fail("node-crash", format!("{n}: {m} at {at}")),
            Ok(g) => {
                if s1.values {
                    ensure!(g.nodes() == [n] && same_calls(g.function_calls(), &s1.calls), "node-nodes", "{n}");
                    ensure!(g.incoming_ports() == &s1.ins.iter().map(|x| vec![*x]).collect::<Vec<_>>(), "node-inputs", "{n}: {:?}", g.incoming_ports());
                    let outs: Vec<_> = h.value_types(n, Direction::Outgoing).map(|(p, _)| (n, p.as_outgoing().unwrap())).collect();
                    ensure!(g.outgoing_ports() == &outs, "node-outputs", "{n}: {:?}", g.outgoing_ports());
                    ensure!(g.signature(&h) == { let mut x = h.signature(n).unwrap().into_owned(); x.output = x.output.clone(); x }, "node-signature", "{n}: {}", g.signature(&h));
                }
            }
        }
    }
    if sp.ins.is_empty() && sp.outs.is_empty() && sp.calls.is_empty() {
        c.label("no-border");
        return Ok(());
    }
    // a boundary: group copies, shuffle, repeat outputs
    let mut ins: Vec<Vec<(Node, IncomingPort)>> = vec![];
    let mut by: BTreeMap<(Node, usize), usize> = BTreeMap::new();
    for (n, p) in &sp.ins {
        let (sn, o) = h.single_linked_output(*n, *p).unwrap();
        let at = by.get(&(sn, o.index())).copied();
        match at {
            Some(i) if c.t.flag() => ins[i].push((*n, *p)),
            _ => {
                by.insert((sn, o.index()), ins.len());
                ins.push(vec![(*n, *p)]);
            }
        }
    }
    let mut outs = sp.outs.clone();
    if c.t.flag() && !outs.is_empty() {
        let x = *c.t.pick(&outs);
        if out_type(&h, x.0, x.1).copyable() {
            outs.push(x);
        }
    }
    if c.t.flag() {
        c.t.shuffle(&mut ins);
        c.t.shuffle(&mut outs);
    }
    // calls may be given among the inputs
    let mut given = ins.clone();
    for v in &sp.calls {
        if c.t.flag() {
            given.push(v.clone());
        } else {
            given.extend(v.iter().map(|x| vec![*x]));
        }
    }
    if !sp.values {
        c.label("other-edges");
        // not expressible: the border has to name every edge
        let r = no_panic(|| SiblingSubgraph::try_new(given.clone(), outs.clone(), &h));
        return match r {
            Err((m, at)) => fail("boundary-crash", format!("{m} at {at}")),
            Ok(Ok(g)) => accepted(&h, &g),
            Ok(Err(_)) => Ok(()),
        };
    }
    let exact = closure(&h, &s, &sp) == set;
    // faults in the boundary
    let fault = c.t.weighted(&[6, 1, 1, 1, 1]);
    let mut broken = false;
    match fault {
        1 if !outs.is_empty() => {
            let i = c.t.below(outs.len());
            let x = outs.remove(i);
            broken = !outs.contains(&x);
        }
        2 if !given.is_empty() => {
            let i = c.t.below(given.len());
            given.remove(i);
            broken = true;
        }
        3 if !given.is_empty() => {
            let i = c.t.below(given.len());
            let x = given[i][0];
            given.push(vec![x]);
            broken = true;
        }
        4 if given.len() > 1 => {
            // two different sources in one group
            let a = given.pop().unwrap();
            let src = |x: &(Node, IncomingPort)| h.single_linked_output(x.0, x.1);
            if let Some(g0) = given.iter_mut().find(|g| src(&g[0]) != src(&a[0])) {
                g0.extend(a);
                broken = true;
            } else {
                given.push(a);
            }
        }
        _ => {}
    }
    c.note(|| format!("inputs {given:?} outputs {outs:?} exact {exact} fault {fault} broken {broken}"));
    let r = match no_panic(|| SiblingSubgraph::try_new(given.clone(), outs.clone(), &h)) {
        Ok(r) => r,
        Err((m, at)) => return fail(format!("boundary-crash {}", if broken { "broken" } else { "" }), format!("{m} at {at}")),
    };
    let parent = h.get_parent(s[0]).unwrap();
    let topo = TopoConvexChecker::new(&h, parent);
    let again = no_panic(|| SiblingSubgraph::try_new_with_checker(given.clone(), outs.clone(), &h, &topo));
    // without any border, `try_new_with_checker` takes the whole region
    ensure!(given.is_empty() && outs.is_empty() || again.as_ref().is_ok_and(|a| a == &r || a.is_err() && r.is_err()), "boundary-checker", "{again:?} instead of {r:?}");
    if let Ok(g) = &r {
        accepted(&h, g)?;
    }
    if broken {
        c.label("broken-border");
        if exact {
            // the border then describes another set, or none
            if let Ok(g) = &r {
                ensure!(sorted(g.nodes()) != sorted(&s), "broken-accepted", "fault {fault}: {g:?}");
            }
        }
        return Ok(());
    }
    if !exact {
        c.label("border-not-exact");
        return Ok(());
    }
    c.label(if sp.convex { "good" } else { "not-convex" });
    ensure!(r.is_ok() == sp.convex, "boundary-accepted", "{s:?}: {r:?}, convex {}\n{}", sp.convex, canon::show(&h));
    let skip = SiblingSubgraph::new_unchecked(ins.clone(), outs.clone(), sp.calls.clone(), s.clone());
    let v = no_panic(|| (skip.validate(&h, ValidationMode::CheckConvexity).is_ok(), skip.validate(&h, ValidationMode::WithChecker(&topo)).is_ok(), skip.validate(&h, ValidationMode::SkipConvexity).is_ok()));
    if !(ins.is_empty() && outs.is_empty()) && set_from(&h, &s, &ins, &outs) {
        ensure!(v == Ok((sp.convex, sp.convex, true)), "validate", "{v:?}, convex {}", sp.convex);
    }
    if let Ok(g) = &r {
        right(&h, g, &s, &sp, "boundary")?;
        ensure!(g.outgoing_ports() == &outs, "boundary-outputs", "");
        ensure!(g.incoming_ports() == &ins, "boundary-inputs", "{:?} instead of {ins:?}", g.incoming_ports());
        // other outputs
        let mut g2 = g.clone();
        let mut o2: Vec<_> = vec![];
        for _ in 0..c.t.below(4) {
            if !outs.is_empty() {
                o2.push(*c.t.pick(&outs));
            }
        }
        let lin_ok = o2.iter().enumerate().all(|(i, x)| out_type(&h, x.0, x.1).copyable() || !o2[..i].contains(x));
        let r = no_panic(|| g2.set_outgoing_ports(o2.clone(), &h).is_ok());
        ensure!(r == Ok(lin_ok), "set-outputs", "{o2:?}: {r:?}");
        ensure!(g2.outgoing_ports() == if lin_ok { &o2 } else { &outs }, "set-outputs-value", "");
        if s.len() > 1 {
            c.nontrivial(canon::graph_hash(&h) ^ g.nodes().len() as u64 ^ (outs.len() as u64) << 8);
            c.sample(|| format!("{given:?} {outs:?} of\n{}", canon::show(&h)));
        }
    }
    Ok(())
}
/// Validation looks for the nodes from the value border only.
fn set_from(h: &Hugr, s: &[Node], ins: &[Vec<(Node, IncomingPort)>], outs: &[(Node, OutgoingPort)]) -> bool {
    let sp = Spec { ins: ins.iter().flatten().copied().collect(), outs: outs.to_vec(), calls: vec![], convex: true, values: true };
    closure(h, s, &sp) == s.iter().copied().collect()
}
/// Whatever was accepted must be a proper subgraph.
fn accepted(h: &Hugr, g: &SiblingSubgraph) -> R {
    let s = g.nodes().to_vec();
    ensure!(!s.is_empty() && s.iter().all(|n| h.get_parent(*n) == h.get_parent(s[0])), "accepted-siblings", "{g:?}");
    let sp = spec(h, &s);
    ensure!(sp.convex && sp.values, "accepted-bad", "convex {} values {}: {g:?}\n{}", sp.convex, sp.values, canon::show(h));
    right(h, g, &s, &sp, "accepted")?;
    let a: Vec<_> = g.incoming_ports().iter().flatten().copied().collect();
    ensure!(sorted(&a) == sorted(&sp.ins), "accepted-inputs", "{a:?} instead of {:?}", sp.ins);
    let b: BTreeSet<_> = g.outgoing_ports().iter().copied().collect();
    ensure!(b == sp.outs.iter().copied().collect(), "accepted-outputs", "{b:?} instead of {:?}", sp.outs);
    Ok(())
}
fn region(c: &mut Ctx) -> R {
    let mut p = profile(&mut c.t);
    p.order = c.t.chance(1, 4);
    p.nested = true;
    let g = pass::gen_program(c, &p);
    let h = g.hugr;
    let ps = dataflow_parents(&h);
    let d = *c.t.pick(&ps);
    c.note(|| format!("region {d}"));
    let view = h.with_entrypoint(d);
    let r = match no_panic(|| SiblingSubgraph::try_new_dataflow_subgraph::<_, DataflowParentID>(RootChecked::try_new(&view).expect("a dataflow parent"))) {
        Ok(r) => r,
        Err((m, at)) => return fail("region-crash", format!("{m} at {at}")),
    };
    let s: Vec<Node> = h.children(d).skip(2).collect();
    if s.is_empty() {
        ensure!(matches!(r, Err(InvalidSubgraph::EmptySubgraph)), "region-empty", "{r:?}");
        return Ok(());
    }
    let [inp, out] = h.get_io(d).unwrap();
    let sp = spec(&h, &s);
    // everything comes from the input and goes to the output, except calls
    let here = sp.ins.iter().all(|x| h.single_linked_output(x.0, x.1).unwrap().0 == inp)
        && sp.outs.iter().all(|x| h.linked_inputs(x.0, x.1).all(|y| h.get_parent(y.0) == Some(d)))
        && h.input_neighbours(out).all(|n| h.get_parent(n) == Some(d));
    let order = |n: Node, dir: Direction| h.get_optype(n).other_port(dir).is_some_and(|p| h.is_linked(n, p));
    let want = sp.values && here && !order(inp, Direction::Outgoing) && !order(out, Direction::Incoming);
    c.label(if want { "good" } else { "other-edges" });
    if !want {
        // an order edge from the input to the output only, or a value for a nested region
        if let Ok(g) = &r {
            ensure!(sp.values, "region-accepted", "{g:?}");
        }
        return Ok(());
    }
    let g = match r {
        Ok(g) => g,
        Err(e) => return fail("region-refused", format!("{e}\n{}", canon::show(&h))),
    };
    right(&h, &g, &s, &sp, "region")?;
    let mut ins = vec![];
    for p in h.node_outputs(inp) {
        let v: Vec<_> = h.linked_inputs(inp, p).filter(|x| x.0 != out).collect();
        if !v.is_empty() {
            ins.push(v);
        }
    }
    let outs: Vec<_> = h.node_inputs(out).filter_map(|p| h.single_linked_output(out, p).filter(|x| x.0 != inp)).collect();
    ensure!(g.incoming_ports().iter().map(|v| sorted(v)).collect::<Vec<_>>() == ins.iter().map(|v| sorted(v)).collect::<Vec<_>>(), "region-inputs", "{:?} instead of {ins:?}", g.incoming_ports());
    ensure!(g.outgoing_ports() == &outs, "region-outputs", "{:?} instead of {outs:?}", g.outgoing_ports());
    if s.len() > 1 {
        c.nontrivial(canon::graph_hash(&h) ^ s.len() as u64);
        c.sample(|| format!("{d} of\n{}", canon::show(&h)));
    }
    Ok(())
}

/// Two order edges into one node: the line checker of portgraph visits the target before the second source.
fn multi_order() -> bool {
    use hugr::builder::{endo_sig, DFGBuilder, Dataflow, DataflowHugr};
    use hugr::extension::prelude::{bool_t, Noop};
    use hugr::ops::handle::NodeHandle;
    let mut b = DFGBuilder::new(endo_sig(vec![bool_t(); 3])).unwrap();
    let w: Vec<_> = b.input_wires().collect();
    let mut id = |w| b.add_dataflow_op(Noop::new(bool_t()), [w]).unwrap();
    let x = id(w[0]);
    let y0 = id(w[1]);
    let y = id(y0.out_wire(0));
    let z = id(w[2]);
    b.set_order(&x, &z);
    b.set_order(&y, &z);
    let h = b.finish_hugr_with_outputs([x.out_wire(0), y.out_wire(0), z.out_wire(0)]).unwrap();
    no_panic(|| {
        let line = LineConvexChecker::new(&h, h.entrypoint());
        let _ = line.get_intervals_from_nodes([x, y0, y, z].map(|n| n.node()));
    })
    .is_err()
}
