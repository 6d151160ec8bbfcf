//! C20: localising edges, removing tuples, forcing an order.
use crate::canon;
use crate::engine::*;
use super::pass::{self, Trace};
use hugr::algorithms::ComposablePass;
use hugr::algorithms::non_local::{LocalizeEdges, ensure_no_nonlocal_edges, nonlocal_edges, remove_nonlocal_edges};
use hugr::algorithms::untuple::{UntuplePass, UntupleRecursive};
use hugr::algorithms::force_order::{force_order, force_order_by_key};
use hugr::extension::prelude::{MakeTuple, UnpackTuple};
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::{OpTag, OpTrait, OpType};
use hugr::types::{EdgeKind, Type};
use hugr::{Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex};
use std::collections::{BTreeMap, BTreeSet};

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        rule: "generated programs with nonlocal (external and dominator) edges at several depths; with packed and unpacked tuples spliced into the wires; with random ranks and roots: run before and after each pass; non-trivial: there was a nonlocal edge, a removable tuple, or a region whose order was not yet fixed",
        assumptions: &["the harness evaluator gives the meaning of programs", "constants (which cannot be ordered) get the lowest rank", "pack and unpack nodes with order edges are outside the tuple pass (documented)"],
        subs: vec![
            Sub { name: "localize", quick: 8000, thorough: 700_000, f: localize },
            Sub { name: "untuple", quick: 6000, thorough: 500_000, f: untuple },
            Sub { name: "order", quick: 6000, thorough: 500_000, f: order },
        ],
        findings: vec![],
    }
}
fn values(h: &Hugr, n: Node, d: Direction) -> Vec<(usize, Type)> {
    h.value_types(n, d).map(|(p, t)| (p.index(), t)).collect()
}
/// Value edges whose ends have different parents, and whose source lies strictly below `root`.
fn nonlocal(h: &Hugr, root: Node) -> BTreeSet<(Node, usize)> {
    let below: BTreeSet<Node> = h.descendants(root).skip(1).collect();
    let mut v = BTreeSet::new();
    for n in h.descendants(root) {
        for (p, _) in values(h, n, Direction::Incoming) {
            if let Some((s, _)) = h.single_linked_output(n, IncomingPort::from(p)) {
                if below.contains(&s) && h.get_parent(s) != h.get_parent(n) {
                    v.insert((n, p));
                }
            }
        }
    }
    v
}
fn localize(c: &mut Ctx) -> R {
    let mut p = pass::profile(&mut c.t, 30);
    p.nonlocal = true;
    p.depth = 1 + c.t.below(4);
    p.cfg = c.t.flag();
    p.cfg_heavy = p.cfg && c.t.chance(1, 2);
    p.order = c.t.flag();
    p.metadata = c.t.flag();
    let g = pass::gen_program(c, &p);
    let mut h = g.hugr;
    let e = match c.t.below(6) {
        0 => g.main,
        1 => {
            let v = pass::containers(&h);
            if v.is_empty() { g.main } else { *c.t.pick(&v) }
        }
        _ => h.module_root(),
    };
    h.set_entrypoint(e);
    let all = pass::mono_funcs(&h);
    let rs = pass::runs(c, &h, &all, 2)?;
    let want = nonlocal(&h, e);
    let got: BTreeSet<(Node, usize)> = match no_panic(|| nonlocal_edges(&h).map(|(n, p)| (n, p.index())).collect()) {
        Ok(g) => g,
        Err((m, at)) => return fail("nonlocal-crash", format!("{m} at {at}")),
    };
    ensure!(want == got, "nonlocal-edges", "{got:?} instead of {want:?}");
    ensure!(ensure_no_nonlocal_edges(&h).is_ok() == want.is_empty(), "nonlocal-test", "{want:?}");
    let mut h2 = h.clone();
    let by_pass = c.t.flag();
    match no_panic(|| if by_pass { LocalizeEdges.run(&mut h2).map_err(|e| format!("{e}")) } else { remove_nonlocal_edges(&mut h2).map_err(|e| format!("{e}")) }) {
        Err((m, at)) => return fail(format!("localize-crash {at}"), format!("{m} at {at}")),
        Ok(Err(e)) => return fail("localize-error", e),
        Ok(Ok(())) => {}
    }
    pass::valid(&h2, "localize")?;
    ensure!(h2.entrypoint() == e && pass::interface(&h2) == pass::interface(&h), "interface", "");
    ensure!(canon::op(h2.get_optype(e), false) == canon::op(h.get_optype(e), false), "entrypoint-type", "{} became {}", h.get_optype(e), h2.get_optype(e));
    let left = nonlocal(&h2, e);
    ensure!(left.is_empty() && ensure_no_nonlocal_edges(&h2).is_ok(), "nonlocal-left", "{left:?}\n{}", canon::show(&h2));
    for n in h.nodes() {
        ensure!(h2.contains_node(n), "node-lost", "{n}");
        ensure!(canon::metadata(&h, n) == canon::metadata(&h2, n), "metadata", "{n}");
    }
    if want.is_empty() {
        ensure!(canon::graph_hash(&h) == canon::graph_hash(&h2), "idle-change", "{}", canon::show(&h2));
    }
    pass::same(&rs, &h2, true, Trace::Same)?;
    pass::label_runs(c, &rs);
    let deep = want.iter().any(|(n, p)| {
        let s = h.single_linked_output(*n, IncomingPort::from(*p)).unwrap().0;
        let sp = h.get_parent(s).unwrap();
        h.get_parent(sp).is_some_and(|cfg| h.get_optype(cfg).is_cfg() && h.descendants(cfg).any(|x| x == *n)) && !h.descendants(sp).any(|x| x == *n)
    });
    c.label_if(deep, "dominator-edge");
    c.label_if(want.len() > 2, "several");
    if !want.is_empty() && pass::terminates(&rs) {
        c.nontrivial(canon::graph_hash(&h));
        c.sample(|| canon::show(&h));
    }
    Ok(())
}
/// Is the region below `p` free of cycles?
pub fn acyclic(h: &Hugr, p: Node) -> bool {
    topo(h, p).len() == h.children(p).count()
}
fn topo(h: &Hugr, p: Node) -> Vec<Node> {
    let ch: Vec<Node> = h.children(p).collect();
    let set: BTreeSet<Node> = ch.iter().copied().collect();
    let mut deg: BTreeMap<Node, usize> = ch.iter().map(|n| (*n, h.all_linked_outputs(*n).filter(|(s, _)| set.contains(s)).count())).collect();
    let mut q: Vec<Node> = ch.iter().copied().filter(|n| deg[n] == 0).collect();
    let mut out = vec![];
    while let Some(n) = q.pop() {
        out.push(n);
        for (m, _) in h.all_linked_inputs(n) {
            if let Some(d) = deg.get_mut(&m) {
                *d -= 1;
                if *d == 0 {
                    q.push(m);
                }
            }
        }
    }
    out
}
fn parents(h: &Hugr) -> Vec<Node> {
    h.nodes().filter(|n| h.get_optype(*n).tag() <= OpTag::DataflowParent).collect()
}
/// Splices packing and unpacking into the wires of a region.
pub fn splice_tuple(t: &mut Tape, h: &mut Hugr) -> bool {
    let ps = parents(h);
    let p = *t.pick(&ps);
    let set: BTreeSet<Node> = h.children(p).collect();
    let mut ins: Vec<(Node, usize, Type, Node, OutgoingPort)> = vec![];
    for n in &set {
        for (i, ty) in values(h, *n, Direction::Incoming) {
            if let Some((s, o)) = h.single_linked_output(*n, IncomingPort::from(i)) {
                if set.contains(&s) {
                    ins.push((*n, i, ty, s, o));
                }
            }
        }
    }
    let mut h2 = h.clone();
    let k = t.below(4).min(ins.len());
    let mut pick = vec![];
    let near = t.chance(2, 3);
    for _ in 0..k {
        let x = t.below(ins.len());
        let y = ins.swap_remove(x);
        pick.push(y);
        if near {
            // others of the same node first
            let n = pick[0].0;
            if let Some(i) = ins.iter().position(|z| z.0 == n) {
                let l = ins.len() - 1;
                ins.swap(i, l);
                let y = ins.pop().unwrap();
                pick.push(y);
            }
        }
        if ins.is_empty() {
            break;
        }
    }
    let tys: Vec<Type> = pick.iter().map(|x| x.2.clone()).collect();
    let linear = tys.iter().any(|t| !t.copyable());
    let pack = h2.add_node_with_parent(p, MakeTuple::new(tys.clone().into()));
    let copies = if linear { 1 } else { t.weighted(&[1, 6, 3, 1]) };
    let mut un = vec![];
    for _ in 0..copies {
        let u = h2.add_node_with_parent(p, UnpackTuple::new(tys.clone().into()));
        h2.connect(pack, 0, u, 0);
        un.push(u);
    }
    for (i, x) in pick.iter().enumerate() {
        h2.connect(x.3, x.4, pack, i);
        let mut places = vec![(x.0, x.1)];
        if !linear {
            // other uses of the same wire
            places.extend(ins.iter().filter(|z| z.3 == x.3 && z.4 == x.4).map(|z| (z.0, z.1)));
        } else if x.2.copyable() == false {
            h2.disconnect(x.3, x.4);
            h2.connect(x.3, x.4, pack, i);
        }
        for (j, (n, q)) in places.into_iter().enumerate() {
            if un.is_empty() || (j > 0 && t.flag()) {
                continue;
            }
            let u = *t.pick(&un);
            if h2.is_linked(n, IncomingPort::from(q)) {
                h2.disconnect(n, IncomingPort::from(q));
            }
            h2.connect(u, i, n, q);
        }
    }
    // uses of the tuple itself
    if !linear && t.chance(1, 3) {
        for _ in 0..1 + t.below(2) {
            let m = h2.add_node_with_parent(p, MakeTuple::new(vec![Type::new_tuple(tys.clone())].into()));
            h2.connect(pack, 0, m, 0);
            if t.flag() {
                let u = h2.add_node_with_parent(p, UnpackTuple::new(vec![Type::new_tuple(tys.clone())].into()));
                h2.connect(m, 0, u, 0);
                let w = h2.add_node_with_parent(p, UnpackTuple::new(tys.clone().into()));
                h2.connect(u, 0, w, 0);
            }
        }
    }
    if !acyclic(&h2, p) || h2.validate().is_err() {
        return false;
    }
    *h = h2;
    true
}
fn is_pack(o: &OpType) -> bool {
    o.cast::<MakeTuple>().is_some()
}
fn is_unpack(o: &OpType) -> bool {
    o.cast::<UnpackTuple>().is_some()
}
fn ordered(h: &Hugr, n: Node) -> bool {
    let o = h.get_optype(n);
    [Direction::Incoming, Direction::Outgoing].iter().any(|d| o.other_port(*d).is_some_and(|p| h.linked_ports(n, p).next().is_some()))
}
fn untuple(c: &mut Ctx) -> R {
    let mut p = pass::profile(&mut c.t, 20);
    p.order = c.t.chance(1, 3);
    p.nonlocal = c.t.chance(1, 3);
    p.effects = c.t.chance(1, 3);
    let g = pass::gen_program(c, &p);
    let mut h = g.hugr;
    let e = match c.t.below(4) {
        0 => g.main,
        1 => {
            let v = pass::containers(&h);
            if v.is_empty() { g.main } else { *c.t.pick(&v) }
        }
        _ => h.module_root(),
    };
    h.set_entrypoint(e);
    let n = 1 + c.t.below(5);
    let mut spliced = 0;
    for _ in 0..n {
        spliced += splice_tuple(&mut c.t, &mut h) as usize;
    }
    c.note(|| canon::show(&h));
    let all = pass::mono_funcs(&h);
    let rs = pass::runs(c, &h, &all, 2)?;
    let rec = c.t.chance(3, 4);
    let parent = if c.t.chance(1, 3) { Some(*c.t.pick(&parents(&h))) } else { None };
    let root = parent.unwrap_or(e);
    let scope: Vec<Node> = if rec { h.descendants(root).skip(1).collect() } else { h.children(root).collect() };
    let mut want = 0;
    let mut gone = vec![];
    let mut excused = false;
    for n in &scope {
        if !is_pack(h.get_optype(*n)) {
            continue;
        }
        let users: Vec<Node> = h.linked_inputs(*n, 0).map(|x| x.0).collect();
        let un: Vec<Node> = users.iter().copied().filter(|u| h.get_parent(*u) == h.get_parent(*n) && is_unpack(h.get_optype(*u))).collect();
        if users.is_empty() || !un.is_empty() {
            want += 1;
            excused |= ordered(&h, *n) || un.iter().any(|u| ordered(&h, *u));
            gone.push(*n);
            gone.extend(un);
        }
    }
    let mut h2 = h.clone();
    for n in h.nodes() {
        h2.set_metadata(n, "vh.mark", 1);
    }
    let pass_ = if c.t.flag() {
        UntuplePass::new(if rec { UntupleRecursive::Recursive } else { UntupleRecursive::NonRecursive })
    } else {
        UntuplePass::default().recursive(if rec { UntupleRecursive::Recursive } else { UntupleRecursive::NonRecursive })
    }
    .set_parent(parent);
    let r = match no_panic(|| pass_.run(&mut h2)) {
        Err(_) if excused => {
            c.label("order-edges-on-tuple");
            return Ok(());
        }
        Err((m, at)) => return fail(format!("untuple-crash {at}"), format!("{m} at {at}")),
        Ok(Err(e)) => return fail("untuple-error", format!("{e}")),
        Ok(Ok(r)) => r,
    };
    ensure!(r.rewrites_applied == want, "untuple-count", "{} instead of {want}", r.rewrites_applied);
    pass::valid(&h2, "untuple")?;
    ensure!(h2.entrypoint() == e && pass::interface(&h2) == pass::interface(&h), "interface", "");
    // node indices may be used again, marks are not
    let marked = |n: Node| h2.get_metadata(n, "vh.mark").is_some();
    for n in h2.nodes() {
        ensure!(!marked(n) || !gone.contains(&n), "untuple-left", "{n}\n{}", canon::show(&h2));
    }
    for n in h.nodes() {
        ensure!(gone.contains(&n) || h2.contains_node(n) && marked(n), "node-lost", "{n}");
    }
    ensure!(h2.nodes().filter(|n| is_unpack(h2.get_optype(*n))).count() + gone.iter().filter(|n| is_unpack(h.get_optype(**n))).count() == h.nodes().filter(|n| is_unpack(h.get_optype(*n))).count(), "unpack-count", "");
    pass::same(&rs, &h2, true, Trace::Same)?;
    pass::label_runs(c, &rs);
    c.label_if(want > 1, "several");
    if want > 0 && pass::terminates(&rs) {
        c.nontrivial(canon::graph_hash(&h));
        c.sample(|| canon::show(&h));
    }
    Ok(())
}
fn orderable(h: &Hugr, n: Node) -> bool {
    let o = h.get_optype(n);
    o.other_input() == Some(EdgeKind::StateOrder) || o.other_output() == Some(EdgeKind::StateOrder)
}
fn order(c: &mut Ctx) -> R {
    let mut p = pass::profile(&mut c.t, 30);
    p.order = c.t.flag();
    p.shuffle = c.t.flag();
    let g = pass::gen_program(c, &p);
    let mut h = g.hugr;
    let any: Vec<Node> = pass::containers(&h).into_iter().chain([g.main, g.main, h.module_root()]).collect();
    let root = *c.t.pick(&any);
    if c.t.flag() {
        h.set_entrypoint(h.module_root());
    }
    let all = pass::mono_funcs(&h);
    let rs = pass::runs(c, &h, &all, 2)?;
    let span = 1 + c.t.below(6);
    let mut rank: BTreeMap<Node, i64> = BTreeMap::new();
    for n in h.nodes() {
        let r = match c.t.below(12) {
            0 => i64::MAX,
            1 => i64::MIN,
            _ => c.t.below(span * 3) as i64 - span as i64,
        };
        rank.insert(n, if h.get_optype(n).is_const() { i64::MIN } else { r });
    }
    c.note(|| format!("root {root} ranks {rank:?}"));
    let scope: Vec<Node> = h.descendants(root).filter(|n| h.get_optype(*n).tag() <= OpTag::DataflowParent).collect();
    let mut h2 = h.clone();
    let by_key = c.t.flag();
    let res = no_panic(|| if by_key { force_order_by_key(&mut h2, root, |_, n| (rank[&n], 0u8)) } else { force_order(&mut h2, root, |_, n| rank[&n]) });
    match res {
        Err((m, at)) => return fail(format!("order-crash {at}"), format!("{m} at {at}")),
        Ok(Err(e)) => return fail("order-error", format!("{e}")),
        Ok(Ok(())) => {}
    }
    pass::valid(&h2, "order")?;
    ensure!(h.nodes().collect::<Vec<_>>() == h2.nodes().collect::<Vec<_>>(), "nodes-changed", "");
    let mut again = h.clone();
    let _ = if by_key { force_order_by_key(&mut again, root, |_, n| (rank[&n], 0u8)) } else { force_order(&mut again, root, |_, n| rank[&n]) };
    ensure!(canon::graph_hash(&again) == canon::graph_hash(&h2), "not-deterministic", "");
    let mut hard = 0;
    // nothing but order edges in the scope is added, nothing is lost
    for n in h.nodes() {
        ensure!(canon::op(h.get_optype(n), false) == canon::op(h2.get_optype(n), false), "op-changed", "{n}");
        let links = |h: &Hugr| h.node_outputs(n).flat_map(|p| h.linked_inputs(n, p).map(move |(m, q)| (p.index(), m, q.index())).collect::<Vec<_>>()).collect::<Vec<_>>();
        let (mut a, mut b) = (links(&h), links(&h2));
        a.sort();
        b.sort();
        let mut j = 0;
        let op = h.get_optype(n).other_output_port().filter(|_| h.get_optype(n).other_output() == Some(EdgeKind::StateOrder)).map(|p| p.index());
        for x in &b {
            if j < a.len() && a[j] == *x {
                j += 1;
            } else {
                let inside = h.get_parent(n).is_some_and(|p| scope.contains(&p)) && h.get_parent(n) == h.get_parent(x.1);
                ensure!(Some(x.0) == op && inside && !a.iter().any(|y| y.1 == x.1), "extra-edge", "{n} {x:?}");
            }
        }
        ensure!(j == a.len(), "edge-lost", "{n}: {a:?} -> {b:?}");
    }
    for d in &scope {
        let [i, o] = h2.get_io(*d).unwrap();
        let ord: Vec<Node> = topo(&h2, *d).into_iter().filter(|n| orderable(&h2, *n) && *n != i && *n != o).collect();
        let line: Vec<Node> = std::iter::once(i).chain(ord.iter().copied()).chain([o]).collect();
        for w in line.windows(2) {
            ensure!(h2.output_neighbours(w[0]).any(|x| x == w[1]), "not-total", "{} and {} in {d}\n{}", w[0], w[1], canon::show(&h2));
        }
        for w in ord.windows(2) {
            if rank[&w[1]] < rank[&w[0]] {
                // only for a dependency, which then is a direct one: the later node was not yet free
                ensure!(h.output_neighbours(w[0]).any(|x| x == w[1]), "rank-ignored", "{} (rank {}) before {} (rank {}) in {d}\n{}", w[0], rank[&w[0]], w[1], rank[&w[1]], canon::show(&h));
            }
        }
        if ord.windows(2).any(|w| !h.output_neighbours(w[0]).any(|x| x == w[1])) {
            hard += 1;
        }
    }
    pass::same(&rs, &h2, true, Trace::Same)?;
    pass::label_runs(c, &rs);
    c.label_if(hard > 1, "several-regions");
    if hard > 0 {
        c.nontrivial(canon::graph_hash(&h));
        c.sample(|| canon::show(&h));
    }
    Ok(())
}
