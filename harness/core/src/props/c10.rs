//! C10: replacing a convex subgraph preserves everything else.
use super::c11::{self, Spec};
use super::pass::{self, Trace};
use crate::canon;
use crate::engine::*;
use crate::ext;
use hugr::extension::prelude::Noop;
use hugr::hugr::hugrmut::HugrMut;
use hugr::hugr::patch::replace::{NewEdgeKind, NewEdgeSpec, Replacement};
use hugr::hugr::patch::simple_replace::BoundaryMode;
use hugr::hugr::patch::{BoundaryPort, HostPort, Patch, PatchVerification, ReplacementPort};
use hugr::hugr::views::SiblingSubgraph;
use hugr::hugr::views::sibling_subgraph::InvalidReplacement;
use hugr::ops::dataflow::IOTrait;
use hugr::ops::{self, OpTag, OpTrait, OpType};
use hugr::types::{EdgeKind, Signature, Type};
use hugr::{Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex, SimpleReplacement};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        rule: "convex sets of leaves in generated programs replaced by copies of themselves (extracted, rebuilt with identities inserted or dropped, nested) or by other graphs with the same signature, and arbitrary siblings replaced by copies through explicit edges; links and nodes afterwards are compared with a model, and runs before and after; non-trivial: the replacement was applied",
        assumptions: &["sets whose border is not made of values and calls are left to the general replacement", "copies of sets containing calls are made by the general replacement only"],
        subs: vec![
            Sub { name: "simple", quick: 12_000, thorough: 1_000_000, f: simple },
            Sub { name: "general", quick: 10_000, thorough: 800_000, f: general },
        ],
        findings: vec![],
    }
}
type In = (Node, IncomingPort);
type Out = (Node, OutgoingPort);
fn value_type(h: &Hugr, x: &Out) -> Type {
    match h.get_optype(x.0).port_kind(x.1) {
        Some(EdgeKind::Value(t)) => t,
        k => panic!("{k:?}"),
    }
}
fn is_noop(h: &Hugr, n: Node) -> bool {
    h.get_optype(n).cast::<Noop>().is_some()
}
/// Order ports of a node.
fn order_ports(h: &Hugr, n: Node) -> Vec<hugr::Port> {
    [Direction::Incoming, Direction::Outgoing].into_iter().filter(|d| h.get_optype(n).other_port_kind(*d) == Some(EdgeKind::StateOrder)).filter_map(|d| h.get_optype(n).other_port(d)).collect()
}
fn has_order(h: &Hugr, n: Node) -> bool {
    order_ports(h, n).into_iter().any(|p| h.is_linked(n, p))
}
/// The source of the value of each input group.
fn group_src(h: &Hugr, g: &[In]) -> Out {
    h.single_linked_output(g[0].0, g[0].1).unwrap()
}
/// A graph computing what the set computes: the nodes copied, identities dropped and inserted at will.
fn copy_of(t: &mut Tape, h: &Hugr, s: &[Node], ins: &[Vec<In>], outs: &[Out], sig: &Signature, drop: bool) -> Hugr {
    let mut r = Hugr::new_with_entrypoint(ops::DFG { signature: sig.clone() }).unwrap();
    let root = r.entrypoint();
    let (p, nested) = if t.chance(1, 4) {
        let i = r.add_node_with_parent(root, ops::Input::new(sig.input.clone()));
        let o = r.add_node_with_parent(root, ops::Output::new(sig.output.clone()));
        let d = r.add_node_with_parent(root, ops::DFG { signature: sig.clone() });
        for k in 0..sig.input.len() {
            r.connect(i, k, d, k);
        }
        for k in 0..sig.output.len() {
            r.connect(d, k, o, k);
        }
        (d, true)
    } else {
        (root, false)
    };
    let _ = nested;
    let i = r.add_node_with_parent(p, ops::Input::new(sig.input.clone()));
    let o = r.add_node_with_parent(p, ops::Output::new(sig.output.clone()));
    let set: BTreeSet<Node> = s.iter().copied().collect();
    let mut m: BTreeMap<Node, Node> = BTreeMap::new();
    for n in s {
        if drop && is_noop(h, *n) && !has_order(h, *n) && t.chance(3, 4) {
            continue;
        }
        let x = r.add_node_with_parent(p, h.get_optype(*n).clone());
        for (k, v) in canon::metadata(h, *n) {
            *r.get_metadata_mut(x, &k) = v;
        }
        m.insert(*n, x);
    }
    let from: BTreeMap<In, usize> = ins.iter().enumerate().flat_map(|(k, g)| g.iter().map(move |x| (*x, k))).collect();
    // where the value at an input of the set comes from
    let src = |mut x: In| -> Out {
        loop {
            if let Some(k) = from.get(&x) {
                return (i, OutgoingPort::from(*k));
            }
            let (n, q) = h.single_linked_output(x.0, x.1).unwrap();
            match m.get(&n) {
                Some(y) => return (*y, q),
                None => x = (n, IncomingPort::from(0)),
            }
        }
    };
    let mut wires: Vec<(Out, In)> = vec![];
    for n in s.iter().filter(|n| m.contains_key(n)) {
        for q in h.node_inputs(*n) {
            match h.get_optype(*n).port_kind(q) {
                Some(EdgeKind::StateOrder) => {
                    for (a, b) in h.linked_outputs(*n, q) {
                        if set.contains(&a) {
                            wires.push(((m[&a], b), (m[n], q)));
                        }
                    }
                }
                _ => {
                    if h.is_linked(*n, q) {
                        wires.push((src((*n, q)), (m[n], q)));
                    }
                }
            }
        }
    }
    for (k, x) in outs.iter().enumerate() {
        let a = match m.get(&x.0) {
            Some(y) => (*y, x.1),
            None => src((x.0, IncomingPort::from(0))),
        };
        wires.push((a, (o, IncomingPort::from(k))));
    }
    for ((a, b), (x, y)) in wires {
        if let Some(EdgeKind::Value(ty)) = r.get_optype(a).port_kind(b) {
            if t.chance(1, 10) {
                let n = r.add_node_with_parent(p, Noop::new(ty));
                r.connect(a, b, n, 0);
                r.connect(n, 0, x, y);
                continue;
            }
        }
        r.connect(a, b, x, y);
    }
    r
}
/// Any graph with the signature.
fn any_graph(t: &mut Tape, sig: &Signature) -> Hugr {
    let op: OpType = match t.below(3) {
        0 => ops::FuncDefn::new("f", sig.clone()).into(),
        _ => ops::DFG { signature: sig.clone() }.into(),
    };
    let mut r = Hugr::new_with_entrypoint(op).unwrap();
    let p = r.entrypoint();
    let i = r.add_node_with_parent(p, ops::Input::new(sig.input.clone()));
    let o = r.add_node_with_parent(p, ops::Output::new(sig.output.clone()));
    let mut used: BTreeSet<usize> = BTreeSet::new();
    let mut left: Vec<usize> = vec![];
    for k in 0..sig.output.len() {
        let ty = &sig.output[k];
        let v: Vec<usize> = (0..sig.input.len()).filter(|j| &sig.input[*j] == ty && (ty.copyable() || !used.contains(j))).collect();
        if !v.is_empty() && t.flag() {
            let j = *t.pick(&v);
            used.insert(j);
            r.connect(i, j, o, k);
        } else {
            left.push(k);
        }
    }
    // linear inputs that are left have to go somewhere
    let ins: Vec<usize> = (0..sig.input.len()).filter(|j| if sig.input[*j].copyable() { t.flag() } else { !used.contains(j) }).collect();
    let k = 1 + t.below(3);
    let mut parts: Vec<(Vec<usize>, Vec<usize>)> = vec![(vec![], vec![]); k];
    for j in ins {
        let a = t.below(k);
        parts[a].0.push(j);
    }
    for j in left {
        let a = t.below(k);
        parts[a].1.push(j);
    }
    let mut prev = None;
    for (a, (x, y)) in parts.into_iter().enumerate() {
        if x.is_empty() && y.is_empty() {
            continue;
        }
        let it: Vec<Type> = x.iter().map(|j| sig.input[*j].clone()).collect();
        let ot: Vec<Type> = y.iter().map(|j| sig.output[*j].clone()).collect();
        let op = ext::f_op(&format!("new{a}"), &it, &ot);
        let n = if t.chance(1, 3) {
            let d = r.add_node_with_parent(p, ops::DFG { signature: Signature::new(it.clone(), ot.clone()) });
            let di = r.add_node_with_parent(d, ops::Input::new(it.clone()));
            let d_o = r.add_node_with_parent(d, ops::Output::new(ot.clone()));
            let n = r.add_node_with_parent(d, op);
            for q in 0..it.len() {
                r.connect(di, q, n, q);
            }
            for q in 0..ot.len() {
                r.connect(n, q, d_o, q);
            }
            r.set_metadata(n, "deep", a);
            d
        } else {
            r.add_node_with_parent(p, op)
        };
        r.set_metadata(n, "new", a);
        for (q, j) in x.iter().enumerate() {
            r.connect(i, *j, n, q);
        }
        for (q, j) in y.iter().enumerate() {
            r.connect(n, q, o, *j);
        }
        if let Some(b) = prev {
            if t.chance(1, 3) {
                r.add_other_edge(b, n);
            }
        }
        prev = Some(n);
    }
    r
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum N2 {
    Old(Node),
    New(Node),
}
type Link = (N2, OutgoingPort, N2, IncomingPort);
fn links(h: &Hugr, f: impl Fn(Node) -> Option<N2>) -> Vec<Link> {
    let mut v = vec![];
    for n in h.nodes() {
        let Some(a) = f(n) else { continue };
        for p in h.node_outputs(n) {
            for (m, q) in h.linked_inputs(n, p) {
                if let Some(b) = f(m) {
                    v.push((a, p, b, q));
                }
            }
        }
    }
    v.sort();
    v
}
fn below(h: &Hugr, n: Node) -> Vec<Node> {
    h.descendants(n).collect()
}
fn simple(c: &mut Ctx) -> R {
    let mut p = c11::profile(&mut c.t);
    p.metadata = c.t.flag();
    let g = pass::gen_program(c, &p);
    let mut h = g.hugr;
    let Some(s) = c11::choose(&mut c.t, &h, true) else { return Ok(()) };
    c.note(|| format!("set {s:?}"));
    let sp = c11::spec(&h, &s);
    if !sp.values || !sp.convex {
        c.label("not-convex");
        return Ok(());
    }
    if c.t.chance(1, 3) {
        // an entrypoint outside the set
        let v: Vec<Node> = pass::containers(&h);
        if !v.is_empty() {
            let e = *c.t.pick(&v);
            h.set_entrypoint(e);
        }
    } else {
        h.set_entrypoint(h.module_root());
    }
    let (ins, outs) = border(&mut c.t, &h, &sp);
    let sg = SiblingSubgraph::new_unchecked(ins.clone(), outs.clone(), sp.calls.clone(), s.clone());
    let sg = match SiblingSubgraph::try_new(ins.iter().cloned().chain(sp.calls.iter().cloned()).collect(), outs.clone(), &h) {
        Ok(x) if x.nodes().len() == s.len() => x,
        _ => sg,
    };
    let sig = sg.signature(&h);
    let equal = sp.calls.is_empty() && c.t.chance(3, 4);
    let form = c.t.below(3);
    // the types of the set may mention the variables of a polymorphic function
    let closed = h.nodes().all(|n| h.get_optype(n).as_func_defn().is_none_or(|f| f.signature().params().is_empty()));
    let r = if !equal {
        any_graph(&mut c.t, &sig)
    } else if form == 0 {
        let x = match no_panic(|| sg.extract_subgraph(&h, "x")) {
            Ok(x) => x,
            Err((m, at)) => return fail("extract-crash", format!("{m} at {at}")),
        };
        if closed {
            pass::valid(&x, "extract")?;
        }
        same_graph(&h, &s, &sg, &x)?;
        x
    } else {
        copy_of(&mut c.t, &h, &s, &ins, &outs, &sig, form == 1)
    };
    if closed {
        pass::valid(&r, "replacement-harness")?;
    }
    c.note(|| format!("inputs {ins:?} outputs {outs:?}\nreplacement {}", canon::show(&r)));
    let rep = if c.t.flag() { sg.create_simple_replacement(&h, r.clone()) } else { SimpleReplacement::try_new(sg.clone(), &h, r.clone()) };
    let rep = match rep {
        Ok(x) => x,
        Err(e) => return fail("refused", format!("{e}")),
    };
    // wrong signatures and graphs
    {
        let mut w = sig.clone();
        if c.t.flag() {
            w.output.to_mut().push(ext::t_ty());
        } else {
            w.input.to_mut().insert(0, ext::t_ty());
        }
        let wrong = any_graph(&mut c.t, &w);
        ensure!(matches!(sg.create_simple_replacement(&h, wrong.clone()), Err(InvalidReplacement::InvalidSignature { .. })), "wrong-signature", "");
        ensure!(matches!(SimpleReplacement::try_new(sg.clone(), &h, wrong), Err(InvalidReplacement::InvalidSignature { .. })), "wrong-signature", "");
        ensure!(matches!(SimpleReplacement::try_new(sg.clone(), &h, Hugr::new()), Err(InvalidReplacement::InvalidDataflowGraph { .. })), "wrong-graph", "");
    }
    let funcs = pass::mono_funcs(&h);
    let rs = if equal { pass::runs(c, &h, &funcs, 2)? } else { vec![] };
    // serialised and mapped copies describe the same
    let js = serde_json::to_string(&sg).unwrap();
    ensure!(serde_json::from_str::<SiblingSubgraph>(&js).ok().as_ref() == Some(&sg), "subgraph-json", "{js}");
    let rep = if c.t.chance(1, 4) {
        match rep.map_host_nodes(|n| n, &h) {
            Ok(x) => x,
            Err(e) => return fail("map-nodes", format!("{e}")),
        }
    } else {
        rep
    };

    // the model
    let set: BTreeSet<Node> = s.iter().copied().collect();
    let root = r.entrypoint();
    let [ri, ro] = r.get_io(root).unwrap();
    let inner: BTreeSet<Node> = below(&r, root).into_iter().filter(|n| ![root, ri, ro].contains(n)).collect();
    let mut want = links(&h, |n| (!set.contains(&n)).then_some(N2::Old(n)));
    want.extend(links(&r, |n| inner.contains(&n).then_some(N2::New(n))));
    let mut edges: Vec<Link> = vec![];
    let srcs: Vec<Out> = ins.iter().map(|g| group_src(&h, g)).collect();
    for (k, x) in srcs.iter().enumerate() {
        for (n, q) in r.linked_inputs(ri, k) {
            if n != ro {
                edges.push((N2::Old(x.0), x.1, N2::New(n), q));
            }
        }
    }
    for (k, x) in outs.iter().enumerate() {
        if outs[..k].contains(x) {
            continue;
        }
        let (n, q) = r.single_linked_output(ro, k).unwrap();
        let from = if n == ri { (N2::Old(srcs[q.index()].0), srcs[q.index()].1) } else { (N2::New(n), q) };
        for (m, b) in h.linked_inputs(x.0, x.1) {
            if !set.contains(&m) {
                edges.push((from.0, from.1, N2::Old(m), b));
            }
        }
    }
    edges.sort();
    want.extend(edges.iter().copied());
    want.sort();
    let hq = no_panic(|| queries(&h, &r, &rep, &set, &edges, &outs, &ins));
    match hq {
        Ok(x) => x?,
        Err((m, at)) => return fail("query-crash", format!("{m} at {at}")),
    }
    ensure!(rep.verify(&h).is_ok(), "verify", "{:?}", rep.verify(&h));
    ensure!(rep.invalidated_nodes(&h).collect::<BTreeSet<_>>() == set, "invalidated", "");
    let before = h.clone();
    let out = match no_panic(|| rep.apply(&mut h)) {
        Ok(Ok(o)) => o,
        Ok(Err(e)) => return fail("apply-refused", format!("{e}")),
        Err((m, at)) => return fail("apply-crash", format!("{m} at {at}")),
    };
    ensure!(out.node_map.keys().copied().collect::<BTreeSet<_>>() == inner, "node-map", "{:?} instead of {inner:?}", out.node_map);
    ensure!(out.removed_nodes.keys().copied().collect::<BTreeSet<_>>() == set, "removed", "");
    for (n, o) in &out.removed_nodes {
        ensure!(canon::op(o, false) == canon::op(before.get_optype(*n), false), "removed-op", "{n}");
    }
    let back: HashMap<Node, Node> = out.node_map.iter().map(|(a, b)| (*b, *a)).collect();
    ensure!(back.len() == out.node_map.len(), "node-map", "not injective");
    let parent = before.get_parent(s[0]).unwrap();
    let old: BTreeSet<Node> = before.nodes().filter(|n| !set.contains(n)).collect();
    let mut now = BTreeSet::new();
    for n in h.nodes() {
        match back.get(&n) {
            Some(m) => {
                ensure!(canon::op(h.get_optype(n), false) == canon::op(r.get_optype(*m), false), "new-op", "{n}");
                ensure!(canon::metadata(&h, n) == canon::metadata(&r, *m), "new-metadata", "{n}: {:?} instead of {:?}", canon::metadata(&h, n), canon::metadata(&r, *m));
                let q = r.get_parent(*m).unwrap();
                let want = if q == root { parent } else { out.node_map[&q] };
                ensure!(h.get_parent(n) == Some(want), "new-parent", "{n}");
                let ch: Vec<Node> = r.children(*m).map(|x| out.node_map[&x]).collect();
                ensure!(h.children(n).collect::<Vec<_>>() == ch, "new-children", "{n}");
            }
            None => {
                now.insert(n);
                ensure!(old.contains(&n), "extra-node", "{n} {}", h.get_optype(n));
                ensure!(canon::op(h.get_optype(n), false) == canon::op(before.get_optype(n), false), "old-op", "{n}");
                ensure!(canon::metadata(&h, n) == canon::metadata(&before, n), "old-metadata", "{n}");
                let a: Vec<Node> = h.children(n).filter(|x| !back.contains_key(x)).collect();
                let b: Vec<Node> = before.children(n).filter(|x| !set.contains(x)).collect();
                ensure!(a == b, "old-children", "{n}");
            }
        }
    }
    ensure!(now == old, "old-nodes", "{:?}", old.difference(&now).collect::<Vec<_>>());
    ensure!(h.entrypoint() == before.entrypoint() && h.module_root() == before.module_root(), "entrypoint", "");
    let got = links(&h, |n| Some(back.get(&n).map_or(N2::Old(n), |m| N2::New(*m))));
    ensure!(got == want, "links", "missing {:?}\nextra {:?}\n{}", minus(&want, &got), minus(&got, &want), canon::show(&h));
    pass::valid(&h, "simple")?;
    pass::same(&rs, &h, true, Trace::Same)?;
    pass::label_runs(c, &rs);
    c.label(if equal { ["extracted", "shrunk", "copied"][form] } else { "other" });
    c.label_if(outs.len() > outs.iter().collect::<BTreeSet<_>>().len(), "repeated-output");
    c.label_if(r.linked_inputs(ri, hugr::OutgoingPort::from(0)).next().is_some_and(|x| x.0 == ro), "pass-through");
    c.nontrivial(canon::graph_hash(&h));
    c.sample(|| format!("{s:?} of\n{}", canon::show(&before)));
    Ok(())
}
fn minus(a: &[Link], b: &[Link]) -> Vec<Link> {
    let mut b = b.to_vec();
    a.iter().filter(|x| match b.iter().position(|y| y == *x) {
        Some(i) => { b.remove(i); false }
        None => true,
    }).copied().collect()
}
/// A complete border: copies grouped or not, outputs repeated.
fn border(t: &mut Tape, h: &Hugr, sp: &Spec) -> (Vec<Vec<In>>, Vec<Out>) {
    let mut ins: Vec<Vec<In>> = vec![];
    let mut by: BTreeMap<Out, usize> = BTreeMap::new();
    for (n, p) in &sp.ins {
        let src = h.single_linked_output(*n, *p).unwrap();
        match by.get(&src) {
            Some(i) if t.flag() => ins[*i].push((*n, *p)),
            _ => {
                by.insert(src, ins.len());
                ins.push(vec![(*n, *p)]);
            }
        }
    }
    let mut outs = sp.outs.clone();
    if t.chance(1, 5) && !outs.is_empty() {
        let x = *t.pick(&outs);
        if value_type(h, &x).copyable() {
            outs.push(x);
        }
    }
    if t.flag() {
        t.shuffle(&mut ins);
        t.shuffle(&mut outs);
    }
    (ins, outs)
}
/// The extracted graph holds the same nodes and links.
fn same_graph(h: &Hugr, s: &[Node], sg: &SiblingSubgraph, x: &Hugr) -> R {
    let [i, o] = x.get_io(x.entrypoint()).unwrap();
    let ch: Vec<Node> = x.children(x.entrypoint()).skip(2).collect();
    ensure!(ch.len() == s.len(), "extract-nodes", "");
    // sibling order is not promised: compare by walking from the border
    let mut m: BTreeMap<Node, Node> = BTreeMap::new();
    let mut q: Vec<(Node, Node)> = vec![];
    for (k, g) in sg.incoming_ports().iter().enumerate() {
        let a: BTreeMap<IncomingPort, Vec<Node>> = g.iter().fold(BTreeMap::new(), |mut z, (n, p)| {
            z.entry(*p).or_insert_with(Vec::new).push(*n);
            z
        });
        let tg: Vec<In> = x.linked_inputs(i, k).collect();
        ensure!(tg.len() >= g.len(), "extract-inputs", "");
        for (p, ns) in a {
            let v: Vec<Node> = tg.iter().filter(|y| y.1 == p && y.0 != o).map(|y| y.0).collect();
            ensure!(v.len() == ns.len(), "extract-inputs", "input {k}");
            if let [n] = ns[..] {
                q.push((n, v[0]));
            }
        }
    }
    for (k, (n, p)) in sg.outgoing_ports().iter().enumerate() {
        let Some((y, z)) = x.single_linked_output(o, k) else { return fail("extract-outputs", format!("output {k}")) };
        ensure!(z == *p, "extract-outputs", "output {k}");
        q.push((*n, y));
    }
    while let Some((n, y)) = q.pop() {
        if let Some(z) = m.get(&n) {
            ensure!(*z == y, "extract-links", "{n} is both {z} and {y}");
            continue;
        }
        m.insert(n, y);
        ensure!(canon::op(h.get_optype(n), false) == canon::op(x.get_optype(y), false), "extract-op", "{n} and {y}");
        ensure!(canon::metadata(h, n) == canon::metadata(x, y), "extract-metadata", "{n} and {y}");
        for p in h.node_inputs(n) {
            let a: Vec<Out> = h.linked_outputs(n, p).filter(|z| s.contains(&z.0)).collect();
            let b: Vec<Out> = x.linked_outputs(y, p).filter(|z| z.0 != i).collect();
            ensure!(a.len() == b.len(), "extract-links", "{n} port {p}");
            if let ([a], [b]) = (&a[..], &b[..]) {
                ensure!(a.1 == b.1, "extract-links", "{n} port {p}");
                q.push((a.0, b.0));
            }
        }
    }
    Ok(())
}
/// What a replacement says about the edges it would add.
fn queries(h: &Hugr, r: &Hugr, rep: &SimpleReplacement, set: &BTreeSet<Node>, edges: &[Link], outs: &[Out], ins: &[Vec<In>]) -> R {
    let [ri, ro] = r.get_io(r.entrypoint()).unwrap();
    let src = |b: BoundaryPort<Node, OutgoingPort>| match b {
        BoundaryPort::Host(n, p) => (N2::Old(n), p),
        BoundaryPort::Replacement(n, p) => (N2::New(n), p),
    };
    let tgt = |b: BoundaryPort<Node, IncomingPort>| match b {
        BoundaryPort::Host(n, p) => (N2::Old(n), p),
        BoundaryPort::Replacement(n, p) => (N2::New(n), p),
    };
    let mut all: Vec<Link> = rep.all_boundary_edges(h).map(|(a, b)| (src(a).0, src(a).1, tgt(b).0, tgt(b).1)).filter(|x| !matches!(x.2, N2::Old(n) if set.contains(&n))).collect();
    all.sort();
    ensure!(all == edges, "boundary-edges", "missing {:?} extra {:?}", minus(edges, &all), minus(&all, edges));
    for (a, p, b, q) in edges {
        match (*a, *b) {
            (_, N2::Old(m)) => {
                let got = rep.linked_replacement_output((m, *q), h, BoundaryMode::SnapToHost);
                ensure!(got.map(src) == Some((*a, *p)), "linked-output", "{m} {q}: {got:?} instead of {a:?} {p}");
                if let N2::New(n) = *a {
                    let v: Vec<In> = rep.linked_host_outputs((n, *p), h).map(|x| (x.0, x.1)).collect();
                    ensure!(v.contains(&(m, *q)), "linked-host-outputs", "{n} {p}: {v:?}");
                }
            }
            (N2::Old(n), N2::New(m)) => {
                let v: Vec<_> = rep.linked_replacement_inputs((n, *p), h, BoundaryMode::SnapToHost).map(tgt).collect();
                ensure!(v.contains(&(*b, *q)), "linked-inputs", "{n} {p}: {v:?}");
                let w = rep.linked_host_input((m, *q), h);
                ensure!((w.0, w.1) == (n, *p), "linked-host-input", "{m} {q}");
            }
            _ => {}
        }
    }
    for (k, x) in outs.iter().enumerate() {
        if outs[..k].contains(x) {
            continue;
        }
        ensure!(rep.map_host_output((x.0, x.1)) == Some(ReplacementPort(ro, k.into())), "map-output", "{x:?}");
        let want = r.single_linked_output(ro, k).unwrap();
        for y in h.linked_inputs(x.0, x.1).filter(|y| !set.contains(&y.0)) {
            let got = rep.linked_replacement_output((y.0, y.1), h, BoundaryMode::IncludeIO);
            ensure!(got.map(src) == Some((N2::New(want.0), want.1)), "linked-output-io", "{y:?}");
        }
    }
    for (k, g) in ins.iter().enumerate() {
        let v: Vec<In> = rep.map_replacement_input((ri, OutgoingPort::from(k))).map(|HostPort(n, p)| (n, p)).collect();
        ensure!(&v == g, "map-input", "{v:?} instead of {g:?}");
        let s = group_src(h, g);
        let got: BTreeSet<_> = rep.linked_replacement_inputs((s.0, s.1), h, BoundaryMode::IncludeIO).map(tgt).collect();
        let want: BTreeSet<_> = ins.iter().enumerate().filter(|(_, g)| group_src(h, g) == s).flat_map(|(j, _)| r.linked_inputs(ri, j).map(|(n, p)| (N2::New(n), p)).collect::<Vec<_>>()).collect();
        ensure!(got == want, "linked-inputs-io", "{got:?} instead of {want:?}");
    }
    Ok(())
}
fn edge(k: &EdgeKind, p: OutgoingPort, q: IncomingPort) -> NewEdgeKind {
    match k {
        EdgeKind::Value(_) => NewEdgeKind::Value { src_pos: p, tgt_pos: q },
        EdgeKind::StateOrder => NewEdgeKind::Order,
        EdgeKind::ControlFlow => NewEdgeKind::ControlFlow { src_pos: p },
        _ => NewEdgeKind::Static { src_pos: p, tgt_pos: q },
    }
}
fn general(c: &mut Ctx) -> R {
    let mut p = c11::profile(&mut c.t);
    p.metadata = c.t.flag();
    p.depth = c.t.below(4);
    let g = pass::gen_program(c, &p);
    let mut h = g.hugr;
    h.set_entrypoint(h.module_root());
    let ps: Vec<Node> = h.nodes().filter(|n| h.first_child(*n).is_some()).collect();
    let parent = *c.t.pick(&ps);
    let ch: Vec<Node> = h.children(parent).collect();
    let odds = 1 + c.t.below(6) as u64;
    let mut removal: Vec<Node> = ch.iter().copied().filter(|_| c.t.chance(odds, 7)).collect();
    if removal.is_empty() {
        removal.push(*c.t.pick(&ch));
    }
    // the partial graph
    let pop = h.get_optype(parent).clone();
    let mut r = match &pop {
        OpType::Module(_) => Hugr::new(),
        OpType::Case(_) | OpType::DataflowBlock(_) => {
            let up = h.get_parent(parent).unwrap();
            let mut r = Hugr::new_with_entrypoint(h.get_optype(up).clone()).unwrap();
            let e = r.add_node_with_parent(r.entrypoint(), pop.clone());
            r.set_entrypoint(e);
            r
        }
        _ => Hugr::new_with_entrypoint(pop.clone()).unwrap(),
    };
    // identities that can be dropped
    let rset: BTreeSet<Node> = removal.iter().copied().collect();
    let dropped: BTreeSet<Node> = if c.t.chance(1, 2) {
        removal.iter().copied().filter(|n| is_noop(&h, *n) && !has_order(&h, *n) && h.all_neighbours(*n).all(|m| !rset.contains(&m) && h.get_parent(m) == Some(parent))).collect()
    } else {
        BTreeSet::new()
    };
    let mut m: BTreeMap<Node, Node> = BTreeMap::new();
    let mut adopt: HashMap<Node, Node> = HashMap::new();
    let mut stack: Vec<(Node, Node)> = vec![];
    let re = r.entrypoint();
    for n in removal.iter().rev().filter(|n| !dropped.contains(n)) {
        stack.push((*n, re));
    }
    while let Some((n, up)) = stack.pop() {
        let x = r.add_node_with_parent(up, h.get_optype(n).clone());
        for (k, v) in canon::metadata(&h, n) {
            *r.get_metadata_mut(x, &k) = v;
        }
        m.insert(n, x);
        let kids: Vec<Node> = h.children(n).collect();
        if !kids.is_empty() && c.t.chance(1, 3) {
            adopt.insert(x, n);
        } else {
            stack.extend(kids.into_iter().rev().map(|k| (k, x)));
        }
    }
    let gone: BTreeSet<Node> = m.keys().copied().chain(dropped.iter().copied()).collect();
    let mut rep = Replacement { removal: removal.clone(), replacement: Hugr::new(), adoptions: adopt, mu_inp: vec![], mu_out: vec![], mu_new: vec![] };
    for n in h.nodes() {
        for p in h.node_outputs(n) {
            for (t, q) in h.linked_inputs(n, p) {
                let k = edge(&h.get_optype(n).port_kind(p).unwrap(), p, q);
                match (m.get(&n), m.get(&t)) {
                    (Some(a), Some(b)) => r.connect(*a, p, *b, q),
                    (Some(a), None) if !dropped.contains(&t) => rep.mu_out.push(NewEdgeSpec { src: *a, tgt: t, kind: k }),
                    (None, Some(b)) if !dropped.contains(&n) => rep.mu_inp.push(NewEdgeSpec { src: n, tgt: *b, kind: k }),
                    (None, None) if dropped.contains(&n) => {
                        let (a, b) = h.single_linked_output(n, 0).unwrap();
                        rep.mu_new.push(NewEdgeSpec { src: a, tgt: t, kind: NewEdgeKind::Value { src_pos: b, tgt_pos: q } });
                    }
                    _ => {}
                }
            }
        }
    }
    rep.replacement = r;
    c.note(|| format!("{rep:?}"));
    let fault = c.t.chance(1, 4);
    let broken = fault && spoil(&mut c.t, &h, &gone, &mut rep);
    c.note(|| format!("broken {broken}"));
    let v = match no_panic(|| rep.verify(&h)) {
        Ok(v) => v,
        Err((m, at)) => return fail("verify-crash", format!("{m} at {at}")),
    };
    let before = h.clone();
    let funcs = pass::mono_funcs(&h);
    let rs = if broken { vec![] } else { pass::runs(c, &h, &funcs, 2)? };
    if broken {
        c.label(if v.is_ok() { "spoilt-accepted" } else { "spoilt-refused" });
        let mut h1 = h.clone();
        let a = no_panic(|| rep.clone().apply(&mut h1).map(|_| ()));
        match (&v, &a) {
            (Ok(()), Ok(Ok(()))) => {}
            (Err(x), Ok(Err(y))) => ensure!(x == y, "errors-differ", "verify says {x}, apply says {y}"),
            _ => return fail("verify-apply", format!("verify {v:?}, apply {a:?}")),
        }
        if v.is_err() {
            c.nontrivial(canon::graph_hash(&before) ^ 1);
        }
        return Ok(());
    }
    ensure!(v.is_ok(), "verify", "{v:?}");
    let map = match no_panic(|| rep.clone().apply(&mut h)) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return fail("apply-refused", format!("{e}")),
        Err((m, at)) => return fail("apply-crash", format!("{m} at {at}")),
    };
    pass::valid(&h, "general")?;
    if dropped.is_empty() {
        if let Some(d) = canon::diff(&before, &h, &Default::default()) {
            return fail("general-changed", format!("{d}\n{}", canon::show(&h)));
        }
    }
    for (a, b) in &m {
        ensure!(map.contains_key(b) && h.contains_node(map[b]) && canon::op(h.get_optype(map[b]), false) == canon::op(before.get_optype(*a), false), "general-map", "{b}");
    }
    for n in before.nodes().filter(|n| !gone.contains(n)) {
        ensure!(h.contains_node(n) && canon::op(h.get_optype(n), false) == canon::op(before.get_optype(n), false) && canon::metadata(&h, n) == canon::metadata(&before, n), "general-kept", "{n}");
    }
    pass::same_at(&rs, &h, true, Trace::Same, |f| Some(m.get(&f).map_or(f, |x| map[x])))?;
    pass::label_runs(c, &rs);
    c.label_if(!dropped.is_empty(), "bypass");
    c.label_if(!rep.adoptions.is_empty(), "adoption");
    c.label(match pop.tag() {
        OpTag::ModuleRoot => "in-module",
        OpTag::Cfg => "in-cfg",
        OpTag::Conditional => "in-conditional",
        _ => "in-dataflow",
    });
    c.nontrivial(canon::graph_hash(&before) ^ removal.len() as u64);
    c.sample(|| format!("{removal:?} of\n{}", canon::show(&before)));
    Ok(())
}
/// Damages a request; false if nothing was changed.
fn spoil(t: &mut Tape, h: &Hugr, gone: &BTreeSet<Node>, rep: &mut Replacement) -> bool {
    let all: Vec<Node> = h.nodes().collect();
    let inner: Vec<Node> = rep.replacement.nodes().collect();
    match t.below(9) {
        0 => {
            let n = *t.pick(&all);
            if rep.removal.contains(&n) {
                return false;
            }
            rep.removal.push(n);
        }
        1 => rep.removal.clear(),
        2 => {
            let op: OpType = match t.below(3) {
                0 => ops::Module::new().into(),
                1 => ops::Conditional { sum_rows: vec![], other_inputs: vec![].into(), outputs: vec![].into() }.into(),
                _ => ops::DFG { signature: Signature::new(vec![], vec![]) }.into(),
            };
            if op.tag() == rep.replacement.entrypoint_optype().tag() {
                return false;
            }
            let e = rep.replacement.entrypoint();
            if e == rep.replacement.module_root() {
                return false;
            }
            hugr_core::hugr::internal::HugrMutInternals::replace_op(&mut rep.replacement, e, op);
        }
        3 => {
            // adopt something else
            let k = *t.pick(&inner);
            let v = *t.pick(&all);
            if h.first_child(v).is_none() {
                return false;
            }
            rep.adoptions.insert(k, v);
        }
        4 if !rep.mu_inp.is_empty() => {
            let i = t.below(rep.mu_inp.len());
            let x = *t.pick(&all);
            let y = *t.pick(&inner);
            let e = &mut rep.mu_inp[i];
            match t.below(3) {
                0 => e.src = x,
                1 => e.tgt = y,
                _ => e.kind = kind(t),
            }
        }
        5 if !rep.mu_out.is_empty() => {
            let i = t.below(rep.mu_out.len());
            let x = *t.pick(&all);
            let y = *t.pick(&inner);
            let e = &mut rep.mu_out[i];
            match t.below(3) {
                0 => e.tgt = x,
                1 => e.src = y,
                _ => e.kind = kind(t),
            }
        }
        6 if !rep.mu_new.is_empty() => {
            let i = t.below(rep.mu_new.len());
            let x = *t.pick(&all);
            let e = &mut rep.mu_new[i];
            match t.below(3) {
                0 => e.tgt = x,
                1 => e.src = x,
                _ => e.kind = kind(t),
            }
        }
        7 => {
            // an edge where there was none
            let (x, y, k) = (*t.pick(&all), *t.pick(&all), kind(t));
            rep.mu_new.push(NewEdgeSpec { src: x, tgt: y, kind: k });
        }
        8 if !gone.is_empty() => {
            let v: Vec<Node> = gone.iter().copied().collect();
            let (x, y, k) = (*t.pick(&v), *t.pick(&inner), kind(t));
            rep.mu_inp.push(NewEdgeSpec { src: x, tgt: y, kind: k });
        }
        _ => return false,
    }
    true
}
fn kind(t: &mut Tape) -> NewEdgeKind {
    let (a, b) = (OutgoingPort::from(t.below(3)), IncomingPort::from(t.below(3)));
    match t.below(4) {
        0 => NewEdgeKind::Order,
        1 => NewEdgeKind::Value { src_pos: a, tgt_pos: b },
        2 => NewEdgeKind::Static { src_pos: a, tgt_pos: b },
        _ => NewEdgeKind::ControlFlow { src_pos: a },
    }
}
