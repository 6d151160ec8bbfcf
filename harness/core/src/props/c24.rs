//! C24: a persistent graph is what its replacements make of the base.
use super::c11;
use super::pass;
use crate::canon;
use crate::engine::*;
use crate::ext;
use hugr::hugr::hugrmut::HugrMut;
use hugr::hugr::views::{ExtractionResult, SiblingSubgraph};
use hugr::ops::dataflow::IOTrait;
use hugr::ops::{self, OpTag, OpTrait};
use hugr::types::{EdgeKind, Signature, Type};
use hugr::{NodeIndex as _, Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort, Port, SimpleReplacement};
use hugr_persistent::serial::SerialCommitStateSpace;
use hugr_persistent::{Commit, CommitId, CommitStateSpace, InvalidCommit, PatchNode, PersistentHugr, PersistentReplacement, PinnedSubgraph, Walker};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        rule: "histories of replacements of convex sets of siblings at the entrypoint of generated programs: branches sharing one state space, commits on several parents, pass-through, copying and discarding replacements, merges in random order; each view compared, query by query, with an ordinary graph on which the same replacements were made one after the other; non-trivial: at least two commits besides the base",
        assumptions: &[
            "replaced nodes are children of the entrypoint without children of their own, and so are their replacements (documented limit)",
            "a commit whose set is only convex, or whose copies only have one source, because of another commit names that commit as a parent (documented duty of the caller)",
            "merges in which every commit is convex on its own parents but not after the others are left out (finding merge-cycle)",
        ],
        subs: vec![
            Sub { name: "history", quick: 1_500, thorough: 300_000, f: history },
            Sub { name: "merge", quick: 1_500, thorough: 300_000, f: merge },
            Sub { name: "walk", quick: 1_200, thorough: 200_000, f: walk },
            Sub { name: "pin", quick: 1_200, thorough: 200_000, f: pin },
        ],
        findings: vec![
            Finding { id: "walk-discard", still_present: walk_discard },
            Finding { id: "merge-cycle", still_present: merge_cycle },
        ],
    }
}
fn flat(ins: usize, outs: usize, nodes: &[(usize, usize)], edges: &[((usize, usize), (usize, usize))]) -> Hugr {
    let b = hugr::extension::prelude::bool_t;
    let sig = Signature::new(vec![b(); ins], vec![b(); outs]);
    let mut h = Hugr::new_with_entrypoint(ops::DFG { signature: sig.clone() }).unwrap();
    let e = h.entrypoint();
    let mut v = vec![h.add_node_with_parent(e, ops::Input::new(sig.input.clone())), h.add_node_with_parent(e, ops::Output::new(sig.output.clone()))];
    for (i, o) in nodes {
        v.push(h.add_node_with_parent(e, ext::f_op("x", &vec![b(); *i], &vec![b(); *o])));
    }
    for ((n, p), (m, q)) in edges {
        h.connect(v[*n], *p, v[*m], *q);
    }
    h
}
fn at_entry(ph: &PersistentHugr, i: usize) -> PatchNode {
    ph.base_commit().to_patch_node(ph.base_hugr().children(ph.base_hugr().entrypoint()).nth(i).unwrap())
}
/// A walk along a wire misses a replacement that drops the wire.
fn walk_discard() -> bool {
    let mut ph = PersistentHugr::with_base(flat(1, 1, &[(1, 1)], &[((0, 0), (2, 0)), ((2, 0), (1, 0))]));
    let before = ph.clone();
    let (i, n) = (at_entry(&ph, 0), at_entry(&ph, 2));
    let sg = SiblingSubgraph::try_from_nodes([n], &ph).unwrap();
    let r = PersistentReplacement::try_new(sg, &ph, flat(1, 1, &[(0, 1)], &[((2, 0), (1, 0))])).unwrap();
    let id = ph.add_replacement(r);
    let w = Walker::from_pinned_node(i, before.state_space());
    let wire = w.get_wire(i, OutgoingPort::from(0));
    !w.expand(&wire, Direction::Incoming).any(|x| x.as_hugr_view().contains_id(id))
}
/// Two replacements of different nodes that close a cycle are taken to be compatible.
fn merge_cycle() -> bool {
    // a -> b and c -> d; {b, c} and {a, d} are convex
    let base = PersistentHugr::with_base(flat(2, 2, &[(1, 1), (1, 1), (1, 1), (1, 1)], &[((0, 0), (2, 0)), ((2, 0), (3, 0)), ((3, 0), (1, 0)), ((0, 1), (4, 0)), ((4, 0), (5, 0)), ((5, 0), (1, 1))]));
    let one = |x: usize, y: usize| {
        let mut ph = base.clone();
        let sg = SiblingSubgraph::try_from_nodes([at_entry(&base, x), at_entry(&base, y)], &base).unwrap();
        let r = PersistentReplacement::try_new(sg, &base, flat(2, 2, &[(2, 2)], &[((0, 0), (2, 0)), ((0, 1), (2, 1)), ((2, 0), (1, 0)), ((2, 1), (1, 1))])).unwrap();
        (ph.add_replacement(r), ph)
    };
    let (x, _p) = one(3, 4);
    let (y, _q) = one(2, 5);
    match base.state_space().try_create([x, y]) {
        Ok(ph) => no_panic(|| ph.to_hugr().validate().is_err()).unwrap_or(true),
        Err(_) => false,
    }
}
type PIn = (PatchNode, IncomingPort);
type POut = (PatchNode, OutgoingPort);
/// A commit as the model sees it.
#[derive(Clone)]
struct K {
    id: CommitId,
    parents: BTreeSet<usize>,
    deleted: BTreeSet<PatchNode>,
    ins: Vec<Vec<PIn>>,
    outs: Vec<POut>,
    repl: Hugr,
}
type Map = BTreeMap<PatchNode, Node>;
/// The base with the replacements made in the given order; none if one of them is not possible.
fn replay(base: &Hugr, id: CommitId, ks: &[&K]) -> Result<Option<(Hugr, Map)>, Fail> {
    let mut h = base.clone();
    let mut m: Map = h.nodes().map(|n| (PatchNode(id, n), n)).collect();
    for k in ks {
        let set: Vec<Node> = k.deleted.iter().map(|n| m[n]).collect();
        let sp = c11::spec(&h, &set);
        if !sp.convex {
            return Ok(None);
        }
        let ins: Vec<Vec<(Node, IncomingPort)>> = k.ins.iter().map(|g| g.iter().map(|(n, p)| (m[n], *p)).collect()).collect();
        if ins.iter().any(|g| g.iter().any(|x| h.single_linked_output(x.0, x.1) != h.single_linked_output(g[0].0, g[0].1))) {
            return Ok(None);
        }
        let outs: Vec<(Node, OutgoingPort)> = k.outs.iter().map(|(n, p)| (m[n], *p)).collect();
        // the border has to be the border here too
        if sp.ins.iter().copied().collect::<BTreeSet<_>>() != ins.iter().flatten().copied().collect() || sp.outs.iter().any(|x| !outs.contains(x)) {
            return Ok(None);
        }
        let sg = SiblingSubgraph::new_unchecked(ins, outs, vec![], set);
        let r = match SimpleReplacement::try_new(sg, &h, k.repl.clone()) {
            Ok(r) => r,
            Err(e) => return Err(Fail { sig: "harness-replacement".into(), msg: format!("{e}") }),
        };
        let out = match no_panic(|| h.apply_patch(r)) {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => return Err(Fail { sig: "model-apply".into(), msg: format!("{e}") }),
            Err((e, at)) => return Err(Fail { sig: "model-apply".into(), msg: format!("{e} at {at}") }),
        };
        for n in &k.deleted {
            m.remove(n);
        }
        for (a, b) in out.node_map {
            m.insert(PatchNode(k.id, a), b);
        }
    }
    Ok(Some((h, m)))
}
fn closed(ks: &[K], s: impl IntoIterator<Item = usize>) -> BTreeSet<usize> {
    let mut r = BTreeSet::new();
    let mut q: Vec<usize> = s.into_iter().collect();
    while let Some(i) = q.pop() {
        if r.insert(i) {
            q.extend(ks[i].parents.iter().copied());
        }
    }
    r
}
/// No node replaced twice.
fn compatible(ks: &[K], s: &BTreeSet<usize>) -> bool {
    let mut seen = BTreeSet::new();
    s.iter().all(|i| ks[*i].deleted.iter().all(|n| seen.insert(*n)))
}
fn any_order(t: &mut Tape, ks: &[K], s: &BTreeSet<usize>) -> Vec<usize> {
    let mut done: Vec<usize> = vec![];
    while done.len() < s.len() {
        let v: Vec<usize> = s.iter().copied().filter(|i| !done.contains(i) && ks[*i].parents.iter().all(|p| done.contains(p))).collect();
        done.push(*t.pick(&v));
    }
    done
}
/// A flat graph with the signature, made of leaves.
fn body(t: &mut Tape, sig: &Signature, tag: &str) -> Hugr {
    let mut r = Hugr::new_with_entrypoint(ops::DFG { signature: sig.clone() }).unwrap();
    let p = r.entrypoint();
    let i = r.add_node_with_parent(p, ops::Input::new(sig.input.clone()));
    let o = r.add_node_with_parent(p, ops::Output::new(sig.output.clone()));
    let mut used: BTreeSet<usize> = BTreeSet::new();
    let mut left: Vec<usize> = vec![];
    let through = t.below(4) as u64;
    for k in 0..sig.output.len() {
        let ty = &sig.output[k];
        let v: Vec<usize> = (0..sig.input.len()).filter(|j| &sig.input[*j] == ty && (ty.copyable() || !used.contains(j))).collect();
        if !v.is_empty() && t.chance(through, 3) {
            let j = *t.pick(&v);
            used.insert(j);
            r.connect(i, j, o, k);
        } else {
            left.push(k);
        }
    }
    let ins: Vec<usize> = (0..sig.input.len()).filter(|j| if sig.input[*j].copyable() { t.flag() } else { !used.contains(j) }).collect();
    let k = 1 + t.below(3);
    let mut parts: Vec<(Vec<usize>, Vec<usize>)> = vec![(vec![], vec![]); k];
    for j in ins {
        let a = t.below(k);
        parts[a].0.push(j);
    }
    for j in left {
        let a = t.below(k);
        parts[a].1.push(j);
    }
    let mut prev = None;
    for (a, (x, y)) in parts.into_iter().enumerate() {
        if x.is_empty() && y.is_empty() {
            continue;
        }
        let it: Vec<Type> = x.iter().map(|j| sig.input[*j].clone()).collect();
        let mut ot: Vec<Type> = y.iter().map(|j| sig.output[*j].clone()).collect();
        // an inner link from one part to the next
        let link = prev.filter(|_| t.chance(1, 2));
        let mut it2 = it.clone();
        if link.is_some() {
            it2.push(hugr::extension::prelude::bool_t());
        }
        ot.push(hugr::extension::prelude::bool_t());
        let n = r.add_node_with_parent(p, ext::f_op(&format!("{tag}.{a}"), &it2, &ot));
        r.set_metadata(n, "new", format!("{tag}.{a}"));
        for (q, j) in x.iter().enumerate() {
            r.connect(i, *j, n, q);
        }
        for (q, j) in y.iter().enumerate() {
            r.connect(n, q, o, *j);
        }
        if let Some((b, q)) = link {
            r.connect(b, q, n, it.len());
        } else if let Some((b, _)) = prev {
            if t.chance(1, 4) {
                r.add_other_edge(b, n);
            }
        }
        prev = Some((n, y.len()));
    }
    r
}
struct World {
    base: Hugr,
    base_id: CommitId,
    ks: Vec<K>,
    /// keeps every commit alive
    keep: Vec<PersistentHugr>,
    space: CommitStateSpace,
}
fn world(c: &mut Ctx) -> Option<World> {
    let mut p = c11::profile(&mut c.t);
    p.metadata = c.t.flag();
    p.depth = c.t.below(2);
    p.cfg = false;
    p.nonlocal = c.t.chance(1, 4);
    let g = pass::gen_program(c, &p);
    let mut h = g.hugr;
    let closed = |h: &Hugr, n: Node| {
        let mut x = n;
        loop {
            if h.get_optype(x).as_func_defn().is_some_and(|f| !f.signature().params().is_empty()) {
                return false;
            }
            match h.get_parent(x) {
                Some(y) => x = y,
                None => return true,
            }
        }
    };
    let v: Vec<Node> = c11::dataflow_parents(&h).into_iter().filter(|n| h.children(*n).skip(2).count() >= 2 && closed(&h, *n)).collect();
    if v.is_empty() {
        return None;
    }
    let e = *v.iter().max_by_key(|n| (h.children(**n).skip(2).filter(|m| h.first_child(*m).is_none()).count(), n.index())).unwrap();
    let e = if c.t.chance(1, 3) { *c.t.pick(&v) } else { e };
    h.set_entrypoint(e);
    if c.t.flag() {
        // numbered as a stored graph is
        if let Some(x) = h.store_str(hugr::envelope::EnvelopeConfig::text()).ok().and_then(|x| Hugr::load_str(&x, Some(&ext::REG)).ok()) {
            h = x;
        }
    }
    let e = h.entrypoint();
    let ph = PersistentHugr::with_base(h.clone());
    let space = ph.state_space().clone();
    c.note(|| format!("base, entrypoint {e}\n{}", canon::show(&h)));
    Some(World { base_id: ph.base(), base: h, ks: vec![], keep: vec![ph], space })
}
/// A convex set of leaves at the entrypoint with a border of values.
fn choose(t: &mut Tape, h: &Hugr) -> Option<(Vec<Node>, c11::Spec)> {
    let e = h.entrypoint();
    let ch: Vec<Node> = h.children(e).skip(2).filter(|n| h.first_child(*n).is_none()).collect();
    if ch.is_empty() {
        return None;
    }
    let ok = |s: &BTreeSet<Node>| {
        let v: Vec<Node> = s.iter().copied().collect();
        let sp = c11::spec(h, &v);
        // static edges into the set keep their source
        (sp.convex && sp.values && sp.calls.is_empty()).then_some(sp)
    };
    for _ in 0..6 {
        let mut s = BTreeSet::from([*t.pick(&ch)]);
        let k = t.below(5);
        let mut best = ok(&s);
        for _ in 0..k {
            let near: Vec<Node> = if t.chance(1, 4) { ch.clone() } else { s.iter().flat_map(|n| h.all_neighbours(*n).collect::<Vec<_>>()).filter(|m| ch.contains(m)).collect() };
            if near.is_empty() {
                break;
            }
            let mut u = s.clone();
            u.insert(*t.pick(&near));
            if let Some(sp) = ok(&u) {
                s = u;
                best = Some(sp);
            } else if best.is_none() {
                s = u;
            }
        }
        if let Some(sp) = best {
            let mut v: Vec<Node> = s.into_iter().collect();
            t.shuffle(&mut v);
            return Some((v, sp));
        }
    }
    None
}
fn node_at(m: &Map) -> BTreeMap<Node, PatchNode> {
    m.iter().map(|(a, b)| (*b, *a)).collect()
}
/// A replacement that can be made in the state.
fn replacement(c: &mut Ctx, ph: &PersistentHugr, h: &Hugr, m: &Map, tag: &str) -> Result<Option<(PersistentReplacement, K)>, Fail> {
    let Some((s, sp)) = choose(&mut c.t, h) else { return Ok(None) };
    let at = node_at(m);
    // the border, copies of one value grouped or not
    let mut ins: Vec<Vec<(Node, IncomingPort)>> = vec![];
    let mut by: BTreeMap<(Node, OutgoingPort), usize> = BTreeMap::new();
    for (n, p) in &sp.ins {
        let src = h.single_linked_output(*n, *p).unwrap();
        match by.get(&src) {
            Some(i) if c.t.flag() => ins[*i].push((*n, *p)),
            _ => {
                by.insert(src, ins.len());
                ins.push(vec![(*n, *p)]);
            }
        }
    }
    let mut outs = sp.outs.clone();
    c.t.shuffle(&mut ins);
    c.t.shuffle(&mut outs);
    let ty = |n: Node, p: Port| match h.get_optype(n).port_kind(p) {
        Some(EdgeKind::Value(t)) => t,
        k => panic!("{k:?}"),
    };
    let sig = Signature::new(ins.iter().map(|g| ty(g[0].0, g[0].1.into())).collect::<Vec<_>>(), outs.iter().map(|x| ty(x.0, x.1.into())).collect::<Vec<_>>());
    let repl = body(&mut c.t, &sig, tag);
    pass::valid(&repl, "replacement-harness")?;
    let pins: Vec<Vec<PIn>> = ins.iter().map(|g| g.iter().map(|(n, p)| (at[n], *p)).collect()).collect();
    let pouts: Vec<POut> = outs.iter().map(|(n, p)| (at[n], *p)).collect();
    let ps: Vec<PatchNode> = s.iter().map(|n| at[n]).collect();
    // the view finds the same subgraph
    let want: BTreeSet<PatchNode> = ps.iter().copied().collect();
    let sg = match no_panic(|| SiblingSubgraph::try_from_nodes(ps.clone(), ph)) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return fail("subgraph-refused", format!("{ps:?}: {e}")),
        Err((e, at)) => return fail("subgraph-crash", format!("{ps:?}: {e} at {at}")),
    };
    ensure!(sg.nodes().iter().copied().collect::<BTreeSet<_>>() == want, "subgraph-nodes", "{:?} instead of {want:?}", sg.nodes());
    let a: BTreeSet<PIn> = sg.incoming_ports().iter().flatten().copied().collect();
    let b: BTreeSet<PIn> = pins.iter().flatten().copied().collect();
    ensure!(a == b, "subgraph-inputs", "{a:?} instead of {b:?}");
    let a: BTreeSet<POut> = sg.outgoing_ports().iter().copied().collect();
    let b: BTreeSet<POut> = pouts.iter().copied().collect();
    ensure!(a == b, "subgraph-outputs", "{a:?} instead of {b:?}");
    let sg = SiblingSubgraph::new_unchecked(pins.clone(), pouts.clone(), vec![], ps.clone());
    let r = match no_panic(|| PersistentReplacement::try_new(sg, ph, repl.clone())) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return fail("replacement-refused", format!("{e}")),
        Err((e, at)) => return fail("replacement-crash", format!("{e} at {at}")),
    };
    Ok(Some((r, K { id: ph.base(), parents: BTreeSet::new(), deleted: want, ins: pins, outs: pouts, repl })))
}
fn sorted<T: Ord>(v: impl IntoIterator<Item = T>) -> Vec<T> {
    let mut v: Vec<T> = v.into_iter().collect();
    v.sort();
    v
}
/// Every query of the view, against the ordinary graph.
fn view(c: &mut Ctx, ph: &PersistentHugr, h: &Hugr, m: &Map, gone: &BTreeSet<PatchNode>) -> R {
    match no_panic(|| view_(&mut c.t, ph, h, m, gone)) {
        Ok(r) => r,
        Err((e, at)) => fail("view-crash", format!("{e} at {at}")),
    }
}
fn view_(t: &mut Tape, ph: &PersistentHugr, h: &Hugr, m: &Map, gone: &BTreeSet<PatchNode>) -> R {
    let at = node_at(m);
    ensure!(ph.is_valid().is_ok(), "is-valid", "{:?}", ph.is_valid());
    let keys: Vec<PatchNode> = m.keys().copied().collect();
    let nodes = sorted(ph.nodes());
    ensure!(nodes == keys, "nodes", "missing {:?} extra {:?}", keys.iter().filter(|n| !nodes.contains(n)).collect::<Vec<_>>(), nodes.iter().filter(|n| !keys.contains(n)).collect::<Vec<_>>());
    ensure!(ph.num_nodes() == h.num_nodes(), "num-nodes", "{} instead of {}", ph.num_nodes(), h.num_nodes());
    ensure!(ph.num_edges() == h.num_edges(), "num-edges", "{} instead of {}", ph.num_edges(), h.num_edges());
    ensure!(m.get(&ph.entrypoint()) == Some(&h.entrypoint()), "entrypoint", "");
    ensure!(m.get(&ph.module_root()) == Some(&h.module_root()), "module-root", "");
    ensure!(ph.entrypoint_optype() == h.entrypoint_optype(), "entrypoint", "");
    for n in gone {
        ensure!(!ph.contains_node(*n), "contains-deleted", "{n}");
    }
    // the materialised graph
    let (a, am) = ph.apply_all();
    ensure!(sorted(am.keys().copied()) == keys, "apply-map", "");
    ensure!(am.values().collect::<BTreeSet<_>>().len() == am.len() && a.num_nodes() == am.len(), "apply-map", "not a bijection");
    pass::valid(&a, "apply")?;
    let fwd: BTreeMap<Node, Node> = am.iter().map(|(p, n)| (*n, m[p])).collect();
    ensure!(fwd[&a.entrypoint()] == h.entrypoint(), "apply-entrypoint", "");
    let link = |g: &Hugr, f: &dyn Fn(Node) -> Node| sorted(g.nodes().flat_map(|n| g.node_outputs(n).flat_map(move |p| g.linked_inputs(n, p).map(move |(x, q)| (n, p, x, q)))).map(|(n, p, x, q)| (f(n), p, f(x), q)));
    let (l1, l2) = (link(&a, &|n| fwd[&n]), link(h, &|n| n));
    ensure!(l1 == l2, "apply-links", "missing {:?} extra {:?}", l2.iter().filter(|x| !l1.contains(x)).collect::<Vec<_>>(), l1.iter().filter(|x| !l2.contains(x)).collect::<Vec<_>>());
    for (p, n) in &am {
        let k = m[p];
        ensure!(canon::op(a.get_optype(*n), false) == canon::op(h.get_optype(k), false), "apply-op", "{p}");
        ensure!(canon::metadata(&a, *n) == canon::metadata(h, k), "apply-metadata", "{p}");
        ensure!(a.get_parent(*n).map(|x| fwd[&x]) == h.get_parent(k), "apply-parent", "{p}");
    }
    let hg = ph.to_hugr();
    ensure!(hg.num_nodes() == a.num_nodes() && hg.num_edges() == a.num_edges(), "to-hugr", "");
    // node by node
    for (p, k) in m {
        let (p, k) = (*p, *k);
        ensure!(ph.contains_node(p), "contains", "{p}");
        ensure!(canon::op(ph.get_optype(p), false) == canon::op(h.get_optype(k), false), "op", "{p}");
        let md: BTreeMap<String, String> = ph.node_metadata_map_(p);
        ensure!(md == h.node_metadata_map_(k), "metadata", "{p}: {md:?}");
        ensure!(ph.get_parent(p).map(|x| m[&x]) == h.get_parent(k), "parent", "{p}: {:?}", ph.get_parent(p));
        let ch: Vec<Node> = ph.children(p).map(|x| m[&x]).collect();
        ensure!(sorted(ch.iter().copied()) == sorted(h.children(k)), "children", "{p}: {ch:?} instead of {:?}", h.children(k).collect::<Vec<_>>());
        let rev: Vec<Node> = ph.children(p).rev().map(|x| m[&x]).collect();
        ensure!(rev.iter().rev().eq(ch.iter()), "children-reversed", "{p}");
        if h.get_optype(k).tag() <= OpTag::DataflowParent {
            ensure!(ch.iter().take(2).copied().eq(h.children(k).take(2)), "children-io", "{p}");
            ensure!(ph.get_io(p).map(|x| x.map(|y| m[&y])) == h.get_io(k), "io", "{p}");
        } else {
            ensure!(ch.iter().copied().eq(h.children(k)), "children-order", "{p}");
        }
        ensure!(ph.first_child(p).map(|x| m[&x]) == h.first_child(k), "first-child", "{p}");
        if t.chance(1, 8) {
            ensure!(sorted(ph.descendants(p).map(|x| m[&x])) == sorted(h.descendants(k)), "descendants", "{p}");
        }
        for d in [Direction::Incoming, Direction::Outgoing] {
            // order ports of replaced neighbours may be gone
            ensure!(ph.num_ports(p, d) == ph.node_ports(p, d).count(), "num-ports", "{p}");
            let a: Vec<Port> = ph.node_ports(p, d).collect();
            let b: Vec<Port> = h.node_ports(k, d).collect();
            ensure!(a == b, "ports", "{p} {a:?} instead of {b:?}");
            let a = sorted(ph.neighbours(p, d).map(|x| m.get(&x).copied()));
            let b = sorted(h.neighbours(k, d).map(Some));
            ensure!(a == b, "neighbours", "{p}: {a:?} instead of {b:?}");
        }
        ensure!(ph.all_node_ports(p).eq(h.all_node_ports(k)), "ports", "{p}");
        let a = sorted(ph.all_neighbours(p).map(|x| m.get(&x).copied()));
        // a link from a node to itself counts once there, twice here: none can exist in a dataflow region
        let b = sorted(h.all_neighbours(k).map(Some));
        let selfish = h.output_neighbours(k).any(|x| x == k);
        ensure!(selfish || a == b, "all-neighbours", "{p}: {a:?} instead of {b:?}");
        for q in h.all_node_ports(k) {
            let a = sorted(ph.linked_ports(p, q).map(|(x, y)| (m.get(&x).copied(), y)));
            let b = sorted(h.linked_ports(k, q).map(|(x, y)| (Some(x), y)));
            ensure!(a == b, "linked-ports", "{p} {q:?}: {a:?} instead of {b:?}");
            ensure!(ph.is_linked(p, q) == h.is_linked(k, q), "is-linked", "{p} {q:?}");
            ensure!(ph.single_linked_port(p, q).map(|(x, y)| (m[&x], y)) == h.single_linked_port(k, q), "single-linked", "{p} {q:?}");
            if matches!(h.get_optype(k).port_kind(q), Some(EdgeKind::Value(_))) {
                let w = ph.get_wire(p, q);
                let a = sorted(w.all_ports(ph, None).map(|(x, y)| (m.get(&x).copied(), y)));
                let src = match q.as_directed() {
                    itertools::Either::Left(i) => h.single_linked_output(k, i).unwrap(),
                    itertools::Either::Right(o) => (k, o),
                };
                let mut b: Vec<(Option<Node>, Port)> = h.linked_inputs(src.0, src.1).map(|(x, y)| (Some(x), y.into())).collect();
                b.push((Some(src.0), src.1.into()));
                ensure!(a == sorted(b.clone()), "wire", "{p} {q:?}: {a:?} instead of {b:?}");
                ensure!(w.single_outgoing_port(ph).map(|(x, y)| (m[&x], y)) == Some(src), "wire-source", "{p} {q:?}");
                ensure!(w.all_incoming_ports(ph).count() + 1 == b.len(), "wire-targets", "{p} {q:?}");
            }
        }
        ensure!(ph.static_source(p).map(|x| m[&x]) == h.static_source(k), "static-source", "{p}");
        let o = at[t.pick(&h.nodes().collect::<Vec<_>>())];
        let a = sorted(ph.node_connections(p, o));
        let b = sorted(h.node_connections(k, m[&o]));
        ensure!(a == b, "connections", "{p} {o}");
    }
    if t.chance(1, 4) {
        let (x, xm) = ph.extract_hugr(ph.entrypoint());
        let (y, ym) = h.extract_hugr(h.entrypoint());
        ensure!(x.num_nodes() == y.num_nodes() && x.num_edges() == y.num_edges(), "extract", "{} {}", x.num_nodes(), y.num_nodes());
        for d in ph.entry_descendants() {
            let (u, v) = (xm.extracted_node(d), ym.extracted_node(m[&d]));
            ensure!(canon::op(x.get_optype(u), false) == canon::op(y.get_optype(v), false), "extract-op", "{d}");
            ensure!(x.children(u).count() == y.children(v).count(), "extract-children", "{d}");
        }
        let s = ph.mermaid_string();
        ensure!(!s.is_empty(), "mermaid", "");
    }
    Ok(())
}
trait Meta {
    type N;
    fn node_metadata_map_(&self, n: Self::N) -> BTreeMap<String, String>;
}
impl<H: HugrView> Meta for H {
    type N = H::Node;
    fn node_metadata_map_(&self, n: H::Node) -> BTreeMap<String, String> {
        self.node_metadata_map(n).iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
    }
}
/// Adds a commit on top of the commits in `s`.
fn commit(c: &mut Ctx, w: &mut World, s: &BTreeSet<usize>) -> Result<bool, Fail> {
    let order = any_order(&mut c.t, &w.ks, s);
    let Some((h, m)) = replay(&w.base, w.base_id, &order.iter().map(|i| &w.ks[*i]).collect::<Vec<_>>())? else { return Ok(false) };
    let ph = state(c, w, s)?;
    let tag = format!("k{}", w.ks.len());
    let Some((r, mut k)) = replacement(c, &ph, &h, &m, &tag)? else { return Ok(false) };
    let owner: HashMap<CommitId, usize> = w.ks.iter().enumerate().map(|(i, k)| (k.id, i)).collect();
    k.parents = k.deleted.iter().filter_map(|n| owner.get(&n.owner()).copied()).collect();
    // do the parents suffice?
    let up = closed(&w.ks, k.parents.iter().copied());
    let ord: Vec<usize> = up.iter().copied().collect();
    let alone = replay(&w.base, w.base_id, &ord.iter().map(|i| &w.ks[*i]).chain([&k]).collect::<Vec<_>>())?.is_some();
    let extra: BTreeSet<usize> = if !alone {
        s.clone()
    } else if c.t.chance(1, 5) {
        s.iter().copied().filter(|_| c.t.flag()).collect()
    } else {
        BTreeSet::new()
    };
    if !extra.is_empty() && replay(&w.base, w.base_id, &closed(&w.ks, k.parents.iter().copied().chain(extra.iter().copied())).iter().map(|i| &w.ks[*i]).chain([&k]).collect::<Vec<_>>())?.is_none() {
        return Ok(false);
    }
    let mut now = ph.clone();
    let before = sorted(now.all_commit_ids());
    let id = if extra.is_empty() && c.t.chance(2, 3) {
        match no_panic(|| if c.t.flag() { Ok(now.try_add_replacement(r.clone())) } else { Err(hugr::hugr::patch::Patch::apply(r.clone(), &mut now)) }) {
            Ok(Ok(Ok(id))) | Ok(Err(Ok(id))) => id,
            Ok(Ok(Err(e))) => return fail("add-refused", format!("{e}")),
            Ok(Err(Err(e))) => return fail("add-refused", format!("{e}")),
            Err((e, at)) => return fail("add-crash", format!("{e} at {at}")),
        }
    } else {
        let cm = match no_panic(|| if extra.is_empty() { Commit::try_from_replacement(r.clone(), &w.space) } else { Commit::try_new(r.clone(), extra.iter().map(|i| w.space.try_upgrade(w.ks[*i].id).unwrap()), &w.space) }) {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => return fail("commit-refused", format!("{e}")),
            Err((e, at)) => return fail("commit-crash", format!("{e} at {at}")),
        };
        ensure!(cm.is_valid(), "commit-valid", "");
        match no_panic(|| now.try_add_commit(cm.clone())) {
            Ok(Ok(id)) => {
                ensure!(id == cm.id(), "commit-id", "");
                id
            }
            Ok(Err(e)) => return fail("add-refused", format!("{e}")),
            Err((e, at)) => return fail("add-crash", format!("{e} at {at}")),
        }
    };
    k.parents.extend(extra);
    k.id = id;
    let cm = now.get_commit(id).clone();
    let want: BTreeSet<CommitId> = k.parents.iter().map(|i| w.ks[*i].id).chain(k.deleted.iter().filter(|n| n.owner() == w.base_id).map(|_| w.base_id)).collect();
    let got: BTreeSet<CommitId> = cm.parents().map(|x| x.id()).collect();
    ensure!(got == want, "commit-parents", "{got:?} instead of {want:?}");
    ensure!(cm.deleted_parent_nodes().collect::<BTreeSet<_>>() == k.deleted, "commit-deleted", "");
    ensure!(now.contains_id(id) && w.space.contains_id(id) && !w.ks.iter().any(|x| x.id == id), "commit-id", "");
    ensure!(sorted(ph.all_commit_ids()) == before, "clone-changed", "");
    c.note(|| format!("commit {} = {id:?} on {s:?} parents {:?} replaces {:?}, inputs {:?} outputs {:?}, by\n{}", w.ks.len(), k.parents, k.deleted, k.ins, k.outs, canon::show(&k.repl)));
    // and what it makes
    let Some((h2, m2)) = replay(&w.base, w.base_id, &order.iter().map(|i| &w.ks[*i]).chain([&k]).collect::<Vec<_>>())? else { return fail("harness-replay", "") };
    let gone: BTreeSet<PatchNode> = s.iter().flat_map(|i| w.ks[*i].deleted.iter().copied()).chain(k.deleted.iter().copied()).collect();
    view(c, &now, &h2, &m2, &gone)?;
    // the state before is as it was
    if c.t.chance(1, 2) {
        let old: BTreeSet<PatchNode> = s.iter().flat_map(|i| w.ks[*i].deleted.iter().copied()).collect();
        view(c, &ph, &h, &m, &old)?;
    }
    // once more
    match no_panic(|| now.clone().try_add_replacement(r)) {
        Ok(Err(InvalidCommit::IncompatibleHistory(..))) => {}
        Ok(x) => return fail("replaced-twice", format!("{x:?}")),
        Err((e, at)) => return fail("add-crash", format!("{e} at {at}")),
    }
    ensure!(sorted(now.all_commit_ids()).len() == before.len() + 1, "refused-changed", "");
    w.ks.push(k);
    w.keep.push(now);
    Ok(true)
}
/// The persistent graph of the commits, built in one of the ways there are.
fn state(c: &mut Ctx, w: &World, s: &BTreeSet<usize>) -> Result<PersistentHugr, Fail> {
    let mut ids: Vec<CommitId> = if c.t.flag() {
        // only the last ones
        s.iter().filter(|i| !s.iter().any(|j| w.ks[*j].parents.contains(i))).map(|i| w.ks[*i].id).collect()
    } else {
        s.iter().map(|i| w.ks[*i].id).collect()
    };
    c.t.shuffle(&mut ids);
    if ids.is_empty() || c.t.chance(1, 4) {
        ids.push(w.base_id);
    }
    let up = |i: &CommitId| w.space.try_upgrade(*i).unwrap();
    let how = c.t.below(4);
    let cut = c.t.below(ids.len() + 1);
    let r = no_panic(|| match how {
        0 => w.space.try_create(ids.clone()),
        1 => PersistentHugr::try_new(ids.iter().map(up).collect::<Vec<_>>()),
        2 => {
            let mut p = PersistentHugr::from_commit(up(&ids[0]));
            for i in &ids[1..] {
                p.try_add_commit(up(i))?;
            }
            Ok(p)
        }
        _ => {
            let mut p = w.keep[0].clone();
            p.try_add_commits(ids[..cut].iter().map(up).collect::<Vec<_>>())?;
            p.try_add_commits(ids[cut..].iter().map(up).collect::<Vec<_>>())?;
            Ok(p)
        }
    });
    match r {
        Ok(Ok(p)) => {
            let a: BTreeSet<CommitId> = p.all_commit_ids().collect();
            let b: BTreeSet<CommitId> = s.iter().map(|i| w.ks[*i].id).chain([w.base_id]).collect();
            ensure!(a == b, "state-commits", "{a:?} instead of {b:?}");
            ensure!(p.base() == w.base_id, "state-base", "");
            for i in s {
                let ch: BTreeSet<CommitId> = p.children_commits(w.ks[*i].id).collect();
                let want: BTreeSet<CommitId> = s.iter().filter(|j| w.ks[**j].parents.contains(i)).map(|j| w.ks[*j].id).collect();
                ensure!(ch == want, "state-children", "{ch:?} instead of {want:?}");
                let del: BTreeSet<Node> = p.deleted_nodes(w.ks[*i].id).collect();
                let want: BTreeSet<Node> = s.iter().flat_map(|j| w.ks[*j].deleted.iter()).filter(|n| n.owner() == w.ks[*i].id).map(|n| n.1).collect();
                ensure!(del == want, "state-deleted", "{del:?} instead of {want:?}");
                let par: BTreeSet<CommitId> = p.parent_commits(w.ks[*i].id).collect();
                ensure!(w.ks[*i].parents.iter().all(|j| par.contains(&w.ks[*j].id)), "state-parents", "");
            }
            Ok(p)
        }
        Ok(Err(e)) => fail("state-refused", format!("{s:?} way {how}: {e}")),
        Err((e, at)) => fail("state-crash", format!("{s:?} way {how}: {e} at {at}")),
    }
}
/// One commit after the other.
fn history(c: &mut Ctx) -> R {
    let Some(mut w) = world(c) else { return Ok(()) };
    let mut s = BTreeSet::new();
    let n = 1 + c.t.below(5);
    for _ in 0..n {
        let k = w.ks.len();
        if commit(c, &mut w, &s)? {
            s.insert(k);
        }
    }
    finish(c, &w);
    Ok(())
}
fn finish(c: &mut Ctx, w: &World) {
    let k = w.ks.len();
    c.label(["no-commits", "1-commit", "2-commits", "3-commits", "4-commits", "5-commits", "more-commits"][k.min(6)]);
    c.label_if(w.ks.iter().any(|k| k.parents.len() > 1), "many-parents");
    c.label_if(w.ks.iter().any(|k| !k.parents.is_empty()), "on-a-commit");
    c.label_if(w.ks.iter().any(|k| k.repl.children(k.repl.entrypoint()).count() == 2), "empty-replacement");
    let through = |h: &Hugr| {
        let [i, o] = h.get_io(h.entrypoint()).unwrap();
        h.output_neighbours(i).any(|x| x == o)
    };
    c.label_if(w.ks.iter().any(|k| through(&k.repl)), "pass-through");
    if k > 1 {
        c.nontrivial(w.ks.iter().fold(canon::graph_hash(&w.base), |a, k| a.wrapping_mul(31) ^ canon::graph_hash(&k.repl)));
    }
    c.sample(|| format!("{} commits on\n{}", k, canon::show(&w.base)));
}
/// A set of commits that go together.
fn some_set(c: &mut Ctx, w: &World) -> BTreeSet<usize> {
    let mut s = BTreeSet::new();
    for i in 0..w.ks.len() {
        if c.t.flag() {
            let u = closed(&w.ks, s.iter().copied().chain([i]));
            if compatible(&w.ks, &u) {
                s = u;
            }
        }
    }
    s
}
/// Branches and their merges.
fn merge(c: &mut Ctx) -> R {
    let Some(mut w) = world(c) else { return Ok(()) };
    let n = 2 + c.t.below(5);
    for _ in 0..n {
        let s = some_set(c, &w);
        let order: Vec<usize> = s.iter().copied().collect();
        if replay(&w.base, w.base_id, &order.iter().map(|i| &w.ks[*i]).collect::<Vec<_>>())?.is_none() {
            c.label("cycle");
            continue;
        }
        commit(c, &mut w, &s)?;
    }
    if w.ks.is_empty() {
        return Ok(());
    }
    let tries = 1 + c.t.below(4);
    let mut made: Vec<(BTreeSet<usize>, PersistentHugr)> = vec![];
    for _ in 0..tries {
        let k = w.ks.len();
        let pick: Vec<usize> = (0..1 + c.t.below(4)).map(|_| c.t.below(k)).collect();
        let s = closed(&w.ks, pick.iter().copied());
        let ids: Vec<CommitId> = pick.iter().map(|i| w.ks[*i].id).collect();
        if !compatible(&w.ks, &s) {
            c.label("conflict");
            match no_panic(|| w.space.try_create(ids.clone())) {
                Ok(Err(InvalidCommit::IncompatibleHistory(id, n))) => {
                    let k = s.iter().filter(|i| w.ks[**i].deleted.contains(&PatchNode(id, n))).count();
                    ensure!(k > 1, "conflict-at", "{id:?} {n}");
                }
                Ok(x) => return fail("conflict-accepted", format!("{s:?}: {:?}", x.map(|_| ()))),
                Err((e, at)) => return fail("conflict-crash", format!("{e} at {at}")),
            }
            // adding them one by one keeps what goes together
            let mut p = w.keep[0].clone();
            let mut have: BTreeSet<usize> = BTreeSet::new();
            for (i, id) in pick.iter().zip(&ids) {
                let u = closed(&w.ks, have.iter().copied().chain([*i]));
                let ok = compatible(&w.ks, &u);
                let r = match no_panic(|| p.try_add_commit(w.space.try_upgrade(*id).unwrap())) {
                    Ok(r) => r,
                    Err((e, at)) => return fail("conflict-crash", format!("{e} at {at}")),
                };
                ensure!(r.is_ok() == ok, "conflict-one", "{pick:?} at {i}: {:?}", r.map_err(|e| e.to_string()));
                let now: BTreeSet<usize> = (0..k).filter(|j| p.contains_id(w.ks[*j].id)).collect();
                if ok {
                    ensure!(now == u, "conflict-added", "{now:?} instead of {u:?}");
                } else {
                    ensure!(now.is_superset(&have) && now.is_subset(&u) && now != u && compatible(&w.ks, &now), "conflict-added", "{now:?} from {have:?}");
                    ensure!(closed(&w.ks, now.iter().copied()) == now, "conflict-ancestors", "{now:?}");
                    ensure!(p.is_valid().is_ok(), "conflict-invalid", "");
                }
                have = now;
            }
            continue;
        }
        let order = any_order(&mut c.t, &w.ks, &s);
        let Some((h, m)) = replay(&w.base, w.base_id, &order.iter().map(|i| &w.ks[*i]).collect::<Vec<_>>())? else {
            c.label("cycle");
            continue;
        };
        let ph = state(c, &w, &s)?;
        let gone: BTreeSet<PatchNode> = s.iter().flat_map(|i| w.ks[*i].deleted.iter().copied()).collect();
        view(c, &ph, &h, &m, &gone)?;
        c.label("merged");
        made.push((s, ph));
    }
    if c.t.chance(1, 2) && !made.is_empty() {
        stored(c, &w, &made)?;
    }
    finish(c, &w);
    Ok(())
}
/// A graph stored as text.
#[derive(Clone)]
struct Stored(Hugr);
impl From<Hugr> for Stored {
    fn from(h: Hugr) -> Self {
        Stored(h)
    }
}
impl From<Stored> for Hugr {
    fn from(s: Stored) -> Self {
        s.0
    }
}
impl serde::Serialize for Stored {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.store_str(hugr::envelope::EnvelopeConfig::text()).map_err(serde::ser::Error::custom)?.serialize(s)
    }
}
impl<'de> serde::Deserialize<'de> for Stored {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        Hugr::load_str(&s, Some(&ext::REG)).map(Stored).map_err(serde::de::Error::custom)
    }
}
/// Saved and loaded, the graphs are what they were.
fn stored(c: &mut Ctx, w: &World, made: &[(BTreeSet<usize>, PersistentHugr)]) -> R {
    // a text form keeps the numbers of the nodes if there are no gaps and the order is the usual one
    let keeps = |h: &Hugr| {
        let s = Stored(h.clone());
        serde_json::to_string(&s).ok().and_then(|x| serde_json::from_str::<Stored>(&x).ok()).is_some_and(|x| canon::show(&x.0) == canon::show(h))
    };
    let text = keeps(&w.base) && w.ks.iter().all(|k| keeps(&k.repl));
    let r = no_panic(|| {
        let mut s: SerialCommitStateSpace<Stored> = w.space.to_serial();
        for (_, p) in made {
            s.add_hugr(p.clone());
        }
        if text {
            let x = serde_json::to_string(&s).map_err(|e| e.to_string())?;
            s = serde_json::from_str(&x).map_err(|e| e.to_string())?;
        }
        Ok::<_, String>(PersistentHugr::from_serial_state_space(s))
    });
    let back = match r {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return fail("load", e),
        Err((e, at)) => return fail("load", format!("{e} at {at}")),
    };
    ensure!(back.len() == made.len(), "load-count", "");
    for ((s, p), q) in made.iter().zip(&back) {
        let a: BTreeSet<CommitId> = q.all_commit_ids().collect();
        ensure!(a == p.all_commit_ids().collect(), "load-commits", "{s:?}: {a:?}");
        ensure!(q.state_space() == back[0].state_space() && q.state_space() != p.state_space(), "load-space", "");
        let order: Vec<usize> = s.iter().copied().collect();
        let Some((h, m)) = replay(&w.base, w.base_id, &order.iter().map(|i| &w.ks[*i]).collect::<Vec<_>>())? else { return fail("harness-replay", "") };
        let gone: BTreeSet<PatchNode> = s.iter().flat_map(|i| w.ks[*i].deleted.iter().copied()).collect();
        view(c, q, &h, &m, &gone)?;
    }
    c.label(if text { "stored-as-text" } else { "stored" });
    Ok(())
}
/// Walking along wires finds every way a wire can go on.
fn walk(c: &mut Ctx) -> R {
    let Some(mut w) = world(c) else { return Ok(()) };
    let n = 1 + c.t.below(4);
    for _ in 0..n {
        let s = some_set(c, &w);
        let order: Vec<usize> = s.iter().copied().collect();
        if replay(&w.base, w.base_id, &order.iter().map(|i| &w.ks[*i]).collect::<Vec<_>>())?.is_none() {
            continue;
        }
        commit(c, &mut w, &s)?;
    }
    let k = w.ks.len();
    if k == 0 {
        return Ok(());
    }
    // every state there is
    let mut all: Vec<(BTreeSet<usize>, Hugr, Map)> = vec![];
    for bits in 0u32..1 << k {
        let s: BTreeSet<usize> = (0..k).filter(|i| bits >> i & 1 == 1).collect();
        if closed(&w.ks, s.iter().copied()) != s || !compatible(&w.ks, &s) {
            continue;
        }
        match replay(&w.base, w.base_id, &s.iter().map(|i| &w.ks[*i]).collect::<Vec<_>>())? {
            Some((h, m)) => all.push((s, h, m)),
            None => return Ok(()),
        }
    }
    let (_, h0, m0) = c.t.pick(&all).clone();
    let at = node_at(&m0);
    let v: Vec<Node> = h0.children(h0.entrypoint()).filter(|n| h0.node_inputs(*n).any(|p| matches!(h0.get_optype(*n).port_kind(p), Some(EdgeKind::Value(_))))).collect();
    if v.is_empty() {
        return Ok(());
    }
    let start = *c.t.pick(&v);
    let ps: Vec<IncomingPort> = h0.node_inputs(start).filter(|p| matches!(h0.get_optype(start).port_kind(*p), Some(EdgeKind::Value(_)))).collect();
    let port = *c.t.pick(&ps);
    let node = at[&start];
    c.note(|| format!("wire into {node} {port}"));
    let r = no_panic(|| explore(&w, &all, node, port));
    match r {
        Ok(x) => x?,
        Err((e, at)) => return fail("walk-crash", format!("{e} at {at}")),
    }
    finish(c, &w);
    Ok(())
}
fn explore(w: &World, all: &[(BTreeSet<usize>, Hugr, Map)], node: PatchNode, port: IncomingPort) -> R {
    let set_of = |x: &Walker| -> BTreeSet<usize> { (0..w.ks.len()).filter(|i| x.as_hugr_view().contains_id(w.ks[*i].id)).collect() };
    let source = |s: &BTreeSet<usize>| -> Option<POut> {
        let (_, h, m) = all.iter().find(|x| &x.0 == s)?;
        let (n, p) = h.single_linked_output(*m.get(&node)?, port)?;
        Some((node_at(m)[&n], p))
    };
    let first = Walker::from_pinned_node(node, &w.space);
    ensure!(first.is_pinned(node) && first.pinned_nodes().collect::<Vec<_>>() == [node], "walk-start", "");
    let mut done: Vec<(BTreeSet<usize>, POut)> = vec![];
    let mut q = vec![(first, 0)];
    while let Some((x, depth)) = q.pop() {
        ensure!(depth < 40, "walk-endless", "");
        let s = set_of(&x);
        ensure!(all.iter().any(|y| y.0 == s), "walk-state", "{s:?}");
        for n in x.pinned_nodes() {
            ensure!(x.as_hugr_view().contains_node(n), "walk-pinned", "{n} in {s:?}");
        }
        let wire = x.get_wire(node, port);
        if x.is_complete(&wire, Direction::Outgoing) {
            let Some(o) = x.wire_pinned_outport(&wire) else { return fail("walk-outport", format!("{s:?}")) };
            ensure!(source(&s) == Some(o), "walk-source", "{s:?}: {o:?} instead of {:?}", source(&s));
            let same: Vec<Walker> = x.expand(&wire, Direction::Outgoing).collect();
            ensure!(same.len() == 1 && set_of(&same[0]) == s, "walk-complete", "{s:?}");
            done.push((s, o));
            continue;
        }
        let next: Vec<Walker> = x.expand(&wire, Direction::Outgoing).collect();
        let pins: BTreeSet<PatchNode> = x.pinned_nodes().collect();
        for y in next {
            let now: BTreeSet<PatchNode> = y.pinned_nodes().collect();
            ensure!(now.is_superset(&pins), "walk-unpinned", "");
            ensure!(now.len() <= pins.len() + 1, "walk-pins", "");
            ensure!(now != pins || set_of(&y) != s, "walk-stuck", "{s:?}");
            q.push((y, depth + 1));
        }
    }
    // every state that holds the node is reached through a walk with no further commits
    for (s, _, m) in all {
        if m.contains_key(&node) {
            let o = source(s).unwrap();
            ensure!(done.iter().any(|(u, v)| u.is_subset(s) && *v == o), "walk-missed", "{s:?}: source {o:?}; found {done:?}");
        }
    }
    // and from the source to all of its targets
    let o = {
        let s = &all[0].0;
        match source(s) {
            Some(o) => o,
            None => return Ok(()),
        }
    };
    let targets = |s: &BTreeSet<usize>| -> Option<BTreeSet<(PatchNode, IncomingPort)>> {
        let (_, h, m) = all.iter().find(|x| &x.0 == s)?;
        let at = node_at(m);
        Some(h.linked_inputs(*m.get(&o.0)?, o.1).map(|(n, p)| (at[&n], p)).collect())
    };
    let mut done: Vec<(BTreeSet<usize>, BTreeSet<(PatchNode, IncomingPort)>)> = vec![];
    let mut q = vec![Walker::from_pinned_node(o.0, &w.space)];
    let mut steps = 0;
    while let Some(x) = q.pop() {
        steps += 1;
        if steps > 400 {
            return Ok(());
        }
        let s = set_of(&x);
        let wire = x.get_wire(o.0, o.1);
        if x.is_complete(&wire, Direction::Incoming) {
            let got: BTreeSet<(PatchNode, IncomingPort)> = x.wire_pinned_inports(&wire).collect();
            ensure!(Some(&got) == targets(&s).as_ref(), "walk-targets", "{s:?}: {got:?} instead of {:?}", targets(&s));
            ensure!(x.wire_pinned_outport(&wire) == Some(o), "walk-source", "");
            done.push((s, got));
            continue;
        }
        q.extend(x.expand(&wire, Direction::Incoming));
    }
    for (s, _, m) in all {
        if m.contains_key(&o.0) {
            let t = targets(s).unwrap();
            // replacements that drop an input are not found (finding walk-discard)
            let drops = |k: &K| {
                let [i, _] = k.repl.get_io(k.repl.entrypoint()).unwrap();
                (0..k.ins.len()).any(|p| k.repl.linked_inputs(i, p).next().is_none())
            };
            if s.iter().any(|i| drops(&w.ks[*i])) {
                continue;
            }
            ensure!(done.iter().any(|(u, v)| u.is_subset(s) && *v == t), "walk-missed-targets", "{s:?}: targets {t:?}; found {done:?}");
        }
    }
    Ok(())
}
/// Commits made through a walker: pinned nodes and wires, and a map of the border.
fn pin(c: &mut Ctx) -> R {
    let Some(mut w) = world(c) else { return Ok(()) };
    for _ in 0..c.t.below(3) {
        let s = some_set(c, &w);
        if replay(&w.base, w.base_id, &s.iter().map(|i| &w.ks[*i]).collect::<Vec<_>>())?.is_some() {
            commit(c, &mut w, &s)?;
        }
    }
    let s = some_set(c, &w);
    let Some((h, m)) = replay(&w.base, w.base_id, &s.iter().map(|i| &w.ks[*i]).collect::<Vec<_>>())? else { return Ok(()) };
    let at = node_at(&m);
    let Some((set, sp)) = choose(&mut c.t, &h) else { return Ok(()) };
    // wires leave the set entirely or not at all
    let inside = |n: &Node| set.contains(n);
    let values = |n: Node, d: Direction| -> Vec<Port> { h.node_ports(n, d).filter(|p| matches!(h.get_optype(n).port_kind(*p), Some(EdgeKind::Value(_)))).collect() };
    let mut wires: Vec<(Node, OutgoingPort)> = vec![];
    for n in &set {
        for p in values(*n, Direction::Outgoing) {
            let t: Vec<Node> = h.linked_ports(*n, p).map(|x| x.0).collect();
            if t.is_empty() || (t.iter().any(inside) && !t.iter().all(inside)) {
                c.label("split");
                return Ok(());
            }
            if t.iter().all(inside) {
                wires.push((*n, p.as_outgoing().unwrap()));
            }
        }
    }
    if sp.ins.is_empty() && sp.outs.is_empty() {
        // a subgraph without a border cannot be named by its border
        return Ok(());
    }
    // all of it hangs on the border
    let r = no_panic(|| {
        let mut x = Walker::new(&w.space);
        let mut ids: Vec<usize> = s.iter().copied().collect();
        c.t.shuffle(&mut ids);
        for i in &ids {
            let cm = w.space.try_upgrade(w.ks[*i].id).unwrap();
            if let Err(e) = x.try_select_commit(cm) {
                return Err(Fail { sig: "select".into(), msg: format!("{e}") });
            }
        }
        let mut order = set.clone();
        c.t.shuffle(&mut order);
        for n in &order {
            ensure!(matches!(x.try_pin_node(at[n]), Ok(true)) && matches!(x.try_pin_node(at[n]), Ok(false)), "pin", "{n}");
        }
        for i in &s {
            for n in &w.ks[*i].deleted {
                ensure!(x.clone().try_pin_node(*n).is_err(), "pin-deleted", "{n}");
            }
        }
        // commits that remove a pinned node cannot be selected any more
        for (i, k) in w.ks.iter().enumerate() {
            if s.contains(&i) {
                continue;
            }
            let u = closed(&w.ks, s.iter().copied().chain([i]));
            let gone = u.iter().any(|j| w.ks[*j].deleted.iter().any(|n| set.iter().any(|m| at[m] == *n)));
            let mut y = x.clone();
            let r = y.try_select_commit(w.space.try_upgrade(k.id).unwrap());
            ensure!(r.is_ok() == (!gone && compatible(&w.ks, &u)), "select-pinned", "{i}: {:?}", r.map_err(|e| e.to_string()));
        }
        let ws: Vec<_> = wires.iter().map(|(n, p)| x.get_wire(at[n], *p)).collect();
        for v in &ws {
            ensure!(x.is_complete(v, None), "pin-complete", "{v:?}");
        }
        let pn: Vec<PatchNode> = order.iter().map(|n| at[n]).collect();
        // some nodes are known from their wires
        let named: Vec<PatchNode> = pn.iter().copied().filter(|n| !ws.iter().any(|v| v.all_ports(x.as_hugr_view(), None).any(|y| y.0 == *n)) || c.t.flag()).collect();
        let g = match PinnedSubgraph::try_from_pinned(named, ws, &x) {
            Ok(g) => g,
            Err(e) => return fail("pinned-refused", format!("{e}")),
        };
        ensure!(sorted(g.nodes()) == sorted(pn.iter().copied()), "pinned-nodes", "");
        let want: BTreeSet<PIn> = sp.ins.iter().map(|(n, p)| (at[n], *p)).collect();
        ensure!(g.incoming_ports().iter().flatten().copied().collect::<BTreeSet<_>>() == want && g.incoming_ports().len() == want.len(), "pinned-inputs", "{:?} instead of {want:?}", g.incoming_ports());
        let want: BTreeSet<POut> = sp.outs.iter().map(|(n, p)| (at[n], *p)).collect();
        ensure!(g.outgoing_ports().iter().copied().collect::<BTreeSet<_>>() == want && g.outgoing_ports().len() == want.len(), "pinned-outputs", "{:?} instead of {want:?}", g.outgoing_ports());
        // what the border alone tells
        let sg = match g.to_sibling_subgraph(x.as_hugr_view()) {
            Ok(sg) => sg,
            Err(e) => return fail("pinned-convex", format!("{e}")),
        };
        if sg.nodes().iter().copied().collect::<BTreeSet<_>>() != g.nodes().collect::<BTreeSet<_>>() {
            // parts that do not touch the border are not found again
            c.label("hidden");
            return Ok(());
        }
        let mut ins: Vec<(Node, IncomingPort)> = sp.ins.clone();
        let mut outs = sp.outs.clone();
        c.t.shuffle(&mut ins);
        c.t.shuffle(&mut outs);
        let ty = |n: Node, p: Port| match h.get_optype(n).port_kind(p) {
            Some(EdgeKind::Value(t)) => t,
            k => panic!("{k:?}"),
        };
        let sig = Signature::new(ins.iter().map(|g| ty(g.0, g.1.into())).collect::<Vec<_>>(), outs.iter().map(|x| ty(x.0, x.1.into())).collect::<Vec<_>>());
        let repl = body(&mut c.t, &sig, "pin");
        c.note(|| format!("pinned {pn:?} wires {wires:?} in {s:?}, inputs {ins:?} outputs {outs:?}, by\n{}", canon::show(&repl)));
        let pins: Vec<Vec<PIn>> = ins.iter().map(|(n, p)| vec![(at[n], *p)]).collect();
        let pouts: Vec<POut> = outs.iter().map(|(n, p)| (at[n], *p)).collect();
        let (pi, po) = (pins.clone(), pouts.clone());
        let checked = hugr::hugr::views::RootChecked::<_, hugr::ops::handle::DataflowParentID>::try_new(repl.clone()).unwrap();
        let cm = match x.try_create_commit(g, checked, move |n, p| match p.as_directed() {
            itertools::Either::Left(i) => OutgoingPort::from(pi.iter().position(|g| g[0] == (n, i)).unwrap()).into(),
            itertools::Either::Right(o) => IncomingPort::from(po.iter().position(|g| *g == (n, o)).unwrap()).into(),
        }) {
            Ok(cm) => cm,
            Err(e) => return fail("create-refused", format!("{e}")),
        };
        let k = K { id: cm.id(), parents: BTreeSet::new(), deleted: pn.iter().copied().collect(), ins: pins, outs: pouts, repl };
        ensure!(cm.deleted_parent_nodes().collect::<BTreeSet<_>>() == k.deleted, "create-deleted", "");
        let mut ph = x.as_hugr_view().clone();
        if let Err(e) = ph.try_add_commit(cm) {
            return fail("create-add", format!("{e}"));
        }
        let Some((h2, m2)) = replay(&w.base, w.base_id, &s.iter().map(|i| &w.ks[*i]).chain([&k]).collect::<Vec<_>>())? else { return fail("harness-replay", "") };
        let gone: BTreeSet<PatchNode> = s.iter().flat_map(|i| w.ks[*i].deleted.iter().copied()).chain(k.deleted.iter().copied()).collect();
        view(c, &ph, &h2, &m2, &gone)?;
        c.label("pinned");
        c.nontrivial(canon::graph_hash(&h2));
        Ok(())
    });
    match r {
        Ok(x) => x,
        Err((e, at)) => fail("pin-crash", format!("{e} at {at}")),
    }
}
