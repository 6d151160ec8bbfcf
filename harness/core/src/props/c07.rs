//! C07: edits of a graph are edits of an abstract port graph.
use crate::engine::*;
use crate::ext;
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::{self, OpTrait, OpType};
use hugr::types::Signature;
use hugr::{Direction, Hugr, HugrView, Node, Port, PortIndex};
use hugr_core::hugr::internal::{HugrInternals, HugrMutInternals};
use std::collections::{BTreeMap, BTreeSet, VecDeque};

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        rule: "sequences of 5 to 120 edits (additions, removals with index reuse, links and repeated links, port counts and insertions, moves in the hierarchy, operations, metadata, entrypoints, canonicalisation, through the graph or a rerooted view of it) compared with the same edits of a simple model, every query at every step or some; non-trivial: at least 20 edits, one of them a removal followed by an addition",
        assumptions: &[],
        subs: vec![
            Sub { name: "edits", quick: 200_000, thorough: 10_000_000, f: edits },
            Sub { name: "long", quick: 4000, thorough: 200_000, f: long },
        ],
        findings: vec![],
    }
}

#[derive(Clone, Debug)]
struct N {
    op: String,
    parent: Option<Node>,
    children: Vec<Node>,
    ports: [usize; 2],
    meta: BTreeMap<String, serde_json::Value>,
}
/// The abstract graph.
#[derive(Clone, Debug)]
struct M {
    nodes: BTreeMap<Node, N>,
    /// source, its port, target, its port
    links: Vec<(Node, usize, Node, usize)>,
    root: Node,
    entry: Node,
}
fn side(d: Direction) -> usize {
    if d == Direction::Incoming { 0 } else { 1 }
}
impl M {
    fn detach(&mut self, n: Node) {
        if let Some(p) = self.nodes[&n].parent {
            self.nodes.get_mut(&p).unwrap().children.retain(|x| *x != n);
        }
        self.nodes.get_mut(&n).unwrap().parent = None;
    }
    fn attach(&mut self, n: Node, p: Node, at: usize) {
        self.nodes.get_mut(&p).unwrap().children.insert(at, n);
        self.nodes.get_mut(&n).unwrap().parent = Some(p);
    }
    fn position(&self, n: Node) -> (Node, usize) {
        let p = self.nodes[&n].parent.unwrap();
        (p, self.nodes[&p].children.iter().position(|x| *x == n).unwrap())
    }
    fn below(&self, n: Node) -> Vec<Node> {
        let mut q = VecDeque::from([n]);
        let mut v = vec![];
        while let Some(x) = q.pop_front() {
            v.push(x);
            q.extend(self.nodes[&x].children.iter().copied());
        }
        v
    }
    fn remove(&mut self, n: Node) {
        self.detach(n);
        for x in self.nodes[&n].children.clone() {
            self.nodes.get_mut(&x).unwrap().parent = None;
        }
        self.nodes.remove(&n);
        self.links.retain(|l| l.0 != n && l.2 != n);
    }
    fn set_ports(&mut self, n: Node, d: Direction, k: usize) {
        self.nodes.get_mut(&n).unwrap().ports[side(d)] = k;
        match d {
            Direction::Incoming => self.links.retain(|l| l.2 != n || l.3 < k),
            Direction::Outgoing => self.links.retain(|l| l.0 != n || l.1 < k),
        }
    }
    fn whole(&self) -> bool {
        self.below(self.root).len() == self.nodes.len()
    }
}
fn name(o: &OpType) -> String {
    match o {
        OpType::ExtensionOp(e) => format!("{:?}", e.args()),
        o => format!("{o:?}"),
    }
}
fn node(c: &mut Ctx, m: &M) -> Node {
    let v: Vec<Node> = m.nodes.keys().copied().collect();
    // recent nodes are edited more often
    if c.t.flag() { *c.t.pick(&v) } else { v[v.len() - 1 - c.t.below(v.len().min(6))] }
}
fn child(c: &mut Ctx, m: &M) -> Option<Node> {
    let v: Vec<Node> = m.nodes.iter().filter(|x| x.1.parent.is_some()).map(|x| *x.0).collect();
    if v.is_empty() { None } else { Some(*c.t.pick(&v)) }
}
fn some_op(c: &mut Ctx, k: usize) -> OpType {
    let i = vec![ext::t_ty(); c.t.below(4)];
    let o = vec![ext::t_ty(); c.t.below(4)];
    match c.t.below(6) {
        0 => ops::DFG { signature: Signature::new(i, o) }.into(),
        1 => ops::FuncDefn::new(format!("f{k}"), Signature::new(i, o)).into(),
        2 => ops::Module::new().into(),
        _ => ext::f_op(&format!("{k}"), &i, &o),
    }
}
fn ports_of(o: &OpType) -> [usize; 2] {
    [o.input_count(), o.output_count()]
}
fn fresh(m: &mut M, n: Node, o: &OpType) -> R {
    ensure!(!m.nodes.contains_key(&n), "new-node-exists", "{n}");
    m.nodes.insert(n, N { op: name(o), parent: None, children: vec![], ports: ports_of(o), meta: BTreeMap::new() });
    Ok(())
}
fn edits(c: &mut Ctx) -> R {
    let k = 5 + c.t.below(40);
    run(c, k, 4)
}
fn long(c: &mut Ctx) -> R {
    let k = 60 + c.t.below(200);
    run(c, k, 20)
}
fn run(c: &mut Ctx, steps: usize, every: usize) -> R {
    let mut h = Hugr::new();
    let root = h.module_root();
    let mut m = M { nodes: BTreeMap::new(), links: vec![], root, entry: root };
    m.nodes.insert(root, N { op: name(h.get_optype(root)), parent: None, children: vec![], ports: [0, 0], meta: BTreeMap::new() });
    let mut removed = false;
    let mut reused = false;
    let mut log: Vec<String> = vec![];
    let mut done = 0;
    for k in 0..steps {
        let n0 = m.nodes.len();
        let d = step(c, &mut h, &mut m, k, &mut log)?;
        if let Some(l) = d {
            c.label(l);
            done += 1;
            reused |= removed && m.nodes.len() > n0;
            removed |= m.nodes.len() < n0;
        }
        if c.t.chance(1, every as u64) || k + 1 == steps {
            let r = compare(&h, &m);
            if let Err(f) = r {
                c.note(|| log.join("\n"));
                return Err(f);
            }
        }
    }
    let copy = h.clone();
    compare(&copy, &m)?;
    c.label_if(reused, "index-reused");
    if done >= 20.min(steps) && reused {
        use std::hash::{DefaultHasher, Hash, Hasher};
        let mut s = DefaultHasher::new();
        log.hash(&mut s);
        c.nontrivial(s.finish());
        c.sample(|| log.join("; "));
    }
    Ok(())
}
fn step(c: &mut Ctx, h: &mut Hugr, m: &mut M, k: usize, log: &mut Vec<String>) -> Result<Option<&'static str>, Fail> {
    let w = [10, 3, 3, 4, 2, 14, 4, 3, 3, 3, 4, 3, 3, 3, 5, 2, 2, 1, 2, 1, 2];
    let what = c.t.weighted(&w);
    macro_rules! or {
        ($e:expr) => {
            match $e {
                Some(x) => x,
                None => return Ok(None),
            }
        };
    }
    Ok(Some(match what {
        0 => {
            let p = node(c, m);
            let o = some_op(c, k);
            let n = if c.t.chance(1, 4) {
                let e = node(c, m);
                log.push(format!("via {e}"));
                let mut r = h.with_entrypoint_mut(e);
                ensure!(r.entrypoint() == e, "rerooted-entrypoint", "{e}");
                r.add_node_with_parent(p, o.clone())
            } else {
                h.add_node_with_parent(p, o.clone())
            };
            log.push(format!("add {n} under {p} {:?}", ports_of(&o)));
            fresh(m, n, &o)?;
            let at = m.nodes[&p].children.len();
            m.attach(n, p, at);
            "add"
        }
        1 | 2 => {
            let s = or!(child(c, m));
            let o = some_op(c, k);
            let n = if what == 1 { h.add_node_before(s, o.clone()) } else { h.add_node_after(s, o.clone()) };
            log.push(format!("add {n} {} {s}", ["before", "after"][what - 1]));
            fresh(m, n, &o)?;
            let (p, at) = m.position(s);
            m.attach(n, p, at + what - 1);
            "add-sibling"
        }
        3 => {
            let n = node(c, m);
            if n == m.root || n == m.entry || !m.nodes[&n].children.is_empty() && c.t.chance(3, 4) {
                return Ok(None);
            }
            log.push(format!("remove {n}"));
            let o = h.remove_node(n);
            ensure!(name(&o) == m.nodes[&n].op, "removed-op", "{n}: {} for {}", name(&o), m.nodes[&n].op);
            m.remove(n);
            "remove"
        }
        4 => {
            let n = node(c, m);
            let v = m.below(n);
            if v.contains(&m.root) || v.contains(&m.entry) || v.len() > 6 && c.t.chance(2, 3) {
                return Ok(None);
            }
            log.push(format!("remove-subtree {n}"));
            h.remove_subtree(n);
            for x in v {
                m.remove(x);
            }
            "remove-subtree"
        }
        5 => {
            let a: Vec<Node> = m.nodes.iter().filter(|x| x.1.ports[1] > 0).map(|x| *x.0).collect();
            let b: Vec<Node> = m.nodes.iter().filter(|x| x.1.ports[0] > 0).map(|x| *x.0).collect();
            if a.is_empty() || b.is_empty() {
                return Ok(None);
            }
            let (a, b) = (*c.t.pick(&a), *c.t.pick(&b));
            let (i, j) = (c.t.below(m.nodes[&a].ports[1]), c.t.below(m.nodes[&b].ports[0]));
            log.push(format!("connect {a}.{i} {b}.{j}"));
            h.connect(a, i, b, j);
            m.links.push((a, i, b, j));
            "connect"
        }
        6 => {
            let n = node(c, m);
            let d = *c.t.pick(&Direction::BOTH);
            let k = m.nodes[&n].ports[side(d)];
            if k == 0 {
                return Ok(None);
            }
            let i = c.t.below(k);
            log.push(format!("disconnect {n} {d:?} {i}"));
            h.disconnect(n, Port::new(d, i));
            match d {
                Direction::Incoming => m.links.retain(|l| l.2 != n || l.3 != i),
                Direction::Outgoing => m.links.retain(|l| l.0 != n || l.1 != i),
            }
            "disconnect"
        }
        7 => {
            let n = node(c, m);
            let (i, o) = (c.t.below(5), c.t.below(5));
            log.push(format!("set-ports {n} {i} {o}"));
            h.set_num_ports(n, i, o);
            m.set_ports(n, Direction::Incoming, i);
            m.set_ports(n, Direction::Outgoing, o);
            "set-ports"
        }
        8 => {
            let n = node(c, m);
            let d = *c.t.pick(&Direction::BOTH);
            let x = c.t.below(6) as isize - 3;
            log.push(format!("add-ports {n} {d:?} {x}"));
            let got = h.add_ports(n, d, x);
            let old = m.nodes[&n].ports[side(d)];
            let new = old.saturating_add_signed(x);
            ensure!(got.clone().eq(old..new), "add-ports", "{got:?} for {old} + {x}");
            m.set_ports(n, d, new);
            "add-ports"
        }
        9 => {
            let n = node(c, m);
            let d = *c.t.pick(&Direction::BOTH);
            let old = m.nodes[&n].ports[side(d)];
            let at = c.t.below(old + 1);
            let x = c.t.below(4);
            log.push(format!("insert-ports {n} {d:?} {at} {x}"));
            let got = h.insert_ports(n, d, at, x);
            ensure!(got == (at..at + x), "insert-ports", "{got:?} for {at} {x}");
            m.nodes.get_mut(&n).unwrap().ports[side(d)] = old + x;
            for l in &mut m.links {
                match d {
                    Direction::Incoming if l.2 == n && l.3 >= at => l.3 += x,
                    Direction::Outgoing if l.0 == n && l.1 >= at => l.1 += x,
                    _ => {}
                }
            }
            "insert-ports"
        }
        10 => {
            let n = node(c, m);
            if n == m.root {
                return Ok(None);
            }
            let v = m.below(n);
            let ps: Vec<Node> = m.nodes.keys().filter(|x| !v.contains(x)).copied().collect();
            if ps.is_empty() {
                return Ok(None);
            }
            let p = *c.t.pick(&ps);
            log.push(format!("set-parent {n} {p}"));
            h.set_parent(n, p);
            m.detach(n);
            let at = m.nodes[&p].children.len();
            m.attach(n, p, at);
            "set-parent"
        }
        11 | 12 => {
            let s = or!(child(c, m));
            let n = node(c, m);
            if n == s || n == m.root || m.below(n).contains(&s) {
                return Ok(None);
            }
            log.push(format!("move {n} {} {s}", ["before", "after"][what - 11]));
            if what == 11 {
                h.move_before_sibling(n, s);
            } else {
                h.move_after_sibling(n, s);
            }
            m.detach(n);
            let (p, at) = m.position(s);
            m.attach(n, p, at + what - 11);
            "move"
        }
        13 => {
            let n = node(c, m);
            if n == m.root {
                return Ok(None);
            }
            let o = some_op(c, k);
            log.push(format!("replace {n}"));
            let old = if c.t.flag() { h.replace_op(n, o.clone()) } else { std::mem::replace(h.optype_mut(n), o.clone()) };
            let e = m.nodes.get_mut(&n).unwrap();
            ensure!(name(&old) == e.op, "replaced-op", "{n}");
            e.op = name(&o);
            "replace"
        }
        14 => {
            let n = node(c, m);
            let key = *c.t.pick(&["a", "b", ""]);
            let v = match c.t.below(4) {
                0 => serde_json::Value::Null,
                1 => serde_json::json!({"k": k}),
                _ => serde_json::json!(k),
            };
            log.push(format!("metadata {n} {key} {v}"));
            h.set_metadata(n, key, v.clone());
            m.nodes.get_mut(&n).unwrap().meta.insert(key.into(), v);
            "metadata"
        }
        15 => {
            let n = node(c, m);
            let key = *c.t.pick(&["a", "b", ""]);
            log.push(format!("remove-metadata {n} {key}"));
            h.remove_metadata(n, key);
            m.nodes.get_mut(&n).unwrap().meta.remove(key);
            "remove-metadata"
        }
        16 => {
            let n = node(c, m);
            let key = *c.t.pick(&["a", "b", "", "c"]);
            log.push(format!("metadata-mut {n} {key}"));
            let v = h.get_metadata_mut(n, key);
            let w = m.nodes.get_mut(&n).unwrap().meta.entry(key.into()).or_insert(serde_json::Value::Null);
            ensure!(v == w, "metadata-mut", "{n} {key}: {v} for {w}");
            *v = serde_json::json!([k]);
            *w = v.clone();
            "metadata-mut"
        }
        17 => {
            let n = node(c, m);
            log.push(format!("entrypoint {n}"));
            if c.t.chance(1, 3) {
                let e = node(c, m);
                let mut r = h.with_entrypoint_mut(e);
                r.set_entrypoint(n);
                ensure!(r.entrypoint() == n, "rerooted-set-entrypoint", "{n}");
            } else {
                h.set_entrypoint(n);
            }
            m.entry = n;
            "entrypoint"
        }
        18 => {
            let a: Vec<Node> = m.nodes.keys().filter(|x| h.get_optype(**x).other_output_port().is_some_and(|p| p.index() < m.nodes[x].ports[1])).copied().collect();
            let b: Vec<Node> = m.nodes.keys().filter(|x| h.get_optype(**x).other_input_port().is_some_and(|p| p.index() < m.nodes[x].ports[0])).copied().collect();
            if a.is_empty() || b.is_empty() {
                return Ok(None);
            }
            let (a, b) = (*c.t.pick(&a), *c.t.pick(&b));
            log.push(format!("other-edge {a} {b}"));
            let (i, j) = h.add_other_edge(a, b);
            ensure!(Some(i) == h.get_optype(a).other_output_port() && Some(j) == h.get_optype(b).other_input_port(), "other-edge", "{a} {b}");
            m.links.push((a, i.index(), b, j.index()));
            "other-edge"
        }
        19 => {
            // every node must be below the root
            if !m.whole() {
                return Ok(None);
            }
            log.push("canonicalize".into());
            let mut moved: Vec<(Node, Node)> = vec![];
            h.canonicalize_nodes(|a, b| moved.push((a, b)));
            let want: BTreeMap<Node, Node> = m.below(m.root).into_iter().enumerate().map(|(i, n)| (n, Node::from(portgraph::NodeIndex::new(i)))).collect();
            let f = |n: &Node| want[n];
            m.nodes = m
                .nodes
                .iter()
                .map(|(n, d)| (f(n), N { parent: d.parent.as_ref().map(f), children: d.children.iter().map(f).collect(), ..d.clone() }))
                .collect();
            m.links = m.links.iter().map(|l| (f(&l.0), l.1, f(&l.2), l.3)).collect();
            (m.root, m.entry) = (f(&m.root), f(&m.entry));
            "canonicalize"
        }
        _ => {
            // what was removed has gone
            let n = node(c, m);
            for d in Direction::BOTH {
                let k = m.nodes[&n].ports[side(d)];
                ensure!(no_panic(|| h.clone().disconnect(n, Port::new(d, k))).is_err(), "disconnect-nothing", "{n} {d:?} {k}");
            }
            "bad-port"
        }
    }))
}
fn sorted<T: Ord>(v: impl IntoIterator<Item = T>) -> Vec<T> {
    let mut v: Vec<T> = v.into_iter().collect();
    v.sort();
    v
}
macro_rules! eq {
    ($what:literal, $a:expr, $b:expr) => {
        let (a, b) = ($a, $b);
        if a != b {
            return fail($what, format!("{} expected {}", clip(&format!("{a:?}"), 300), clip(&format!("{b:?}"), 300)));
        }
    };
}
/// Every query agrees.
fn compare(h: &Hugr, m: &M) -> R {
    eq!("nodes", sorted(h.nodes()), m.nodes.keys().copied().collect::<Vec<_>>());
    eq!("num_nodes", h.num_nodes(), m.nodes.len());
    eq!("num_edges", h.num_edges(), m.links.len());
    eq!("module_root", h.module_root(), m.root);
    eq!("entrypoint", h.entrypoint(), m.entry);
    eq!("entrypoint_optype", name(h.entrypoint_optype()), m.nodes[&m.entry].op.clone());
    eq!("entrypoint_tag", h.entrypoint_tag(), h.get_optype(m.entry).tag());
    eq!("entry_descendants", h.entry_descendants().collect::<Vec<_>>(), m.below(m.entry));
    let top = m.nodes.keys().map(|n| hugr::NodeIndex::index(*n)).max().unwrap();
    for i in 0..top + 3 {
        let n = Node::from(portgraph::NodeIndex::new(i));
        eq!("contains_node", h.contains_node(n), m.nodes.contains_key(&n));
    }
    for (&n, d) in &m.nodes {
        eq!("optype", name(h.get_optype(n)), d.op.clone());
        eq!("parent", h.get_parent(n), d.parent);
        eq!("children", h.children(n).collect::<Vec<_>>(), d.children.clone());
        eq!("children-back", h.children(n).rev().collect::<Vec<_>>(), d.children.iter().rev().copied().collect::<Vec<_>>());
        eq!("first_child", h.first_child(n), d.children.first().copied());
        eq!("descendants", h.descendants(n).collect::<Vec<_>>(), m.below(n));
        let io = if matches!(h.get_optype(n), OpType::DFG(_) | OpType::FuncDefn(_)) && d.children.len() > 1 { Some([d.children[0], d.children[1]]) } else { None };
        eq!("get_io", h.get_io(n), io);
        eq!("inputs", h.num_inputs(n), d.ports[0]);
        eq!("outputs", h.num_outputs(n), d.ports[1]);
        eq!("node_inputs", h.node_inputs(n).map(|p| p.index()).collect::<Vec<_>>(), (0..d.ports[0]).collect::<Vec<_>>());
        eq!("node_outputs", h.node_outputs(n).map(|p| p.index()).collect::<Vec<_>>(), (0..d.ports[1]).collect::<Vec<_>>());
        let all: Vec<Port> = (0..d.ports[0]).map(|i| Port::new(Direction::Incoming, i)).chain((0..d.ports[1]).map(|i| Port::new(Direction::Outgoing, i))).collect();
        eq!("all_node_ports", h.all_node_ports(n).collect::<Vec<_>>(), all.clone());
        for p in all {
            let i = p.index();
            let want: Vec<(Node, Port)> = sorted(match p.direction() {
                Direction::Incoming => m.links.iter().filter(|l| l.2 == n && l.3 == i).map(|l| (l.0, Port::new(Direction::Outgoing, l.1))).collect::<Vec<_>>(),
                Direction::Outgoing => m.links.iter().filter(|l| l.0 == n && l.1 == i).map(|l| (l.2, Port::new(Direction::Incoming, l.3))).collect(),
            });
            eq!("is_linked", h.is_linked(n, p), !want.is_empty());
            eq!("single_linked_port", h.single_linked_port(n, p), if want.len() == 1 { Some(want[0]) } else { None });
            eq!("linked_ports", sorted(h.linked_ports(n, p)), want);
        }
        let from = sorted(m.links.iter().filter(|l| l.2 == n).map(|l| (l.0, l.1)));
        let to = sorted(m.links.iter().filter(|l| l.0 == n).map(|l| (l.2, l.3)));
        eq!("all_linked_outputs", sorted(h.all_linked_outputs(n).map(|(x, p)| (x, p.index()))), from.clone());
        eq!("all_linked_inputs", sorted(h.all_linked_inputs(n).map(|(x, p)| (x, p.index()))), to.clone());
        eq!("input_neighbours", sorted(h.input_neighbours(n)), from.iter().map(|x| x.0).collect::<Vec<_>>());
        eq!("output_neighbours", sorted(h.output_neighbours(n)), to.iter().map(|x| x.0).collect::<Vec<_>>());
        // a link of a node with itself counts once or twice
        let others = |v: Vec<Node>| -> (bool, Vec<Node>) { (v.contains(&n), v.into_iter().filter(|x| *x != n).collect()) };
        eq!("all_neighbours", others(sorted(h.all_neighbours(n))), others(sorted(from.iter().chain(&to).map(|x| x.0))));
        let near: BTreeSet<Node> = from.iter().chain(&to).map(|x| x.0).chain([n, m.root]).collect();
        for &o in &near {
            let mut want: Vec<[Port; 2]> = vec![];
            for l in &m.links {
                let (a, b) = (Port::new(Direction::Outgoing, l.1), Port::new(Direction::Incoming, l.3));
                if l.0 == n && l.2 == o {
                    want.push([a, b]);
                }
            }
            eq!("node_connections", sorted(h.node_connections(n, o)), sorted(want));
        }
        let meta: BTreeMap<String, serde_json::Value> = h.node_metadata_map(n).iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        eq!("metadata", meta, d.meta.clone());
        for k in ["a", "b", "", "zz"] {
            eq!("get_metadata", h.get_metadata(n, k), d.meta.get(k));
        }
    }
    Ok(())
}
