//! C28: views, traversals, call graphs and renderings agree with the graph.
use super::pass;
use crate::canon;
use crate::engine::*;
use crate::interp::{self, Outcome, Prog};
use crate::refval::{self, Kind};
use hugr::algorithms::call_graph::{CallGraph, CallGraphEdge, CallGraphNode};
use hugr::hugr::hugrmut::HugrMut;
use hugr::hugr::views::render::{MermaidFormatter, NodeLabel};
use hugr::hugr::views::{HugrView, PortIterator, RootChecked};
use hugr_core::module_graph::{ModuleGraph, StaticEdge, StaticNode};
use hugr::ops::dataflow::IOTrait;
use hugr::ops::handle::{BasicBlockID, CaseID, CfgID, ConditionalID, DataflowParentID, DfgID, FuncID, ModuleRootID, NodeHandle, TailLoopID};
use hugr::ops::{OpTag, OpTrait, OpType};
use hugr::types::{EdgeKind, Signature, Type, TypeBound};
use hugr::{Direction, Hugr, IncomingPort, Node, NodeIndex, OutgoingPort, Port, PortIndex};
use hugr_core::hugr::internal::{HugrInternals, HugrMutInternals, PortgraphNodeMap};
use petgraph::visit as pv;
use petgraph::visit::EdgeRef;
use portgraph::{LinkView, PortView};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "C28",
        rule: "generated programs with removed nodes, metadata and any entrypoint; every view method, adapter, graph and rendering is compared with what children() and linked_ports() of each node say; for the input/output maps a random map is applied to a function (or trivially nested dataflow graph) and compared by execution; non-trivial: at least twelve nodes, or an accepted non-identity map",
        assumptions: &["children() and linked_ports() of a node are themselves decided by C07"],
        subs: vec![
            Sub { name: "view", quick: 9_000, thorough: 900_000, f: view },
            Sub { name: "wrap", quick: 5_000, thorough: 500_000, f: wrap },
            Sub { name: "adapters", quick: 6_000, thorough: 600_000, f: adapters },
            Sub { name: "calls", quick: 6_000, thorough: 600_000, f: calls },
            Sub { name: "render", quick: 5_000, thorough: 500_000, f: render },
            Sub { name: "io", quick: 9_000, thorough: 900_000, f: io },
        ],
        findings: vec![],
    }
}
fn program(c: &mut Ctx, size: usize) -> Hugr {
    let mut p = pass::profile(&mut c.t, size);
    p.decls = c.t.flag();
    p.linear = c.t.chance(3, 4);
    p.cfg_heavy = p.cfg && c.t.chance(1, 3);
    p.order = c.t.chance(3, 4);
    p.holes = c.t.chance(3, 4);
    p.shuffle = c.t.flag();
    p.nonlocal = c.t.flag();
    p.indirect = c.t.flag();
    p.fn_consts = c.t.chance(1, 4);
    p.recursion = c.t.chance(1, 4);
    p.aliases = c.t.chance(1, 4);
    p.metadata = c.t.flag();
    p.odd_names = c.t.chance(1, 3);
    p.any_entry = c.t.chance(2, 3);
    p.opaque = true;
    let mut h = pass::gen_program(c, &p).hugr;
    // constants shared between functions
    let funcs: Vec<Node> = h.children(h.module_root()).filter(|n| h.get_optype(*n).is_const()).collect();
    if !funcs.is_empty() {
        c.label("module constant");
    }
    if c.t.chance(1, 3) {
        share_consts(c, &mut h);
    }
    // leave gaps in the numbering
    if c.t.flag() {
        let all: Vec<Node> = h.nodes().collect();
        let spare = (0..c.t.range(1, 6)).map(|_| h.add_node_with_parent(h.module_root(), all_const())).collect::<Vec<_>>();
        for s in spare {
            if c.t.flag() || !all.is_empty() {
                h.remove_node(s);
            }
        }
    }
    if c.t.chance(1, 2) {
        let n = *c.t.pick(&h.nodes().collect::<Vec<_>>());
        h.set_entrypoint(n);
    }
    let h2 = &h;
    c.sample(|| canon::show(h2).chars().take(1500).collect());
    c.label_if(max_index(&h) >= h.num_nodes(), "gaps in the numbering");
    h
}
fn all_const() -> hugr::ops::Const {
    hugr::ops::Const::new(hugr::ops::Value::true_val())
}
fn max_index(h: &Hugr) -> usize {
    h.nodes().map(|n| n.index()).max().unwrap_or(0)
}
/// Moves some constants to the module, where their loads remain.
fn share_consts(c: &mut Ctx, h: &mut Hugr) {
    let root = h.module_root();
    let cs: Vec<Node> = h.nodes().filter(|n| h.get_optype(*n).is_const()).collect();
    for n in cs {
        if h.get_parent(n) != Some(root) && c.t.flag() && h.entrypoint() != n {
            h.set_parent(n, root);
            c.label("constant moved to the module");
        }
    }
}

/// What the graph is, by `children` and `linked_ports` of every node.
struct Truth {
    nodes: Vec<Node>,
    parent: HashMap<Node, Option<Node>>,
    children: HashMap<Node, Vec<Node>>,
    /// per node and direction, the links of each port
    links: [HashMap<Node, Vec<Vec<(Node, usize)>>>; 2],
}
fn ix(d: Direction) -> usize {
    if d == Direction::Incoming { 0 } else { 1 }
}
const DIRS: [Direction; 2] = [Direction::Incoming, Direction::Outgoing];
impl Truth {
    fn of(h: &Hugr) -> Truth {
        let mut t = Truth { nodes: vec![], parent: HashMap::new(), children: HashMap::new(), links: [HashMap::new(), HashMap::new()] };
        let mut todo = vec![(h.module_root(), None)];
        while let Some((n, p)) = todo.pop() {
            t.nodes.push(n);
            t.parent.insert(n, p);
            let ch: Vec<Node> = h.children(n).collect();
            todo.extend(ch.iter().map(|x| (*x, Some(n))));
            t.children.insert(n, ch);
            for (i, d) in DIRS.iter().enumerate() {
                let ports = (0..h.num_ports(n, *d)).map(|p| h.linked_ports(n, Port::new(*d, p)).map(|(m, q)| (m, q.index())).collect()).collect();
                t.links[i].insert(n, ports);
            }
        }
        t
    }
    fn linked(&self, n: Node, d: Direction) -> Vec<(usize, Node, usize)> {
        self.links[ix(d)][&n].iter().enumerate().flat_map(|(i, v)| v.iter().map(move |(m, q)| (i, *m, *q))).collect()
    }
    fn edges(&self) -> Vec<(Node, usize, Node, usize)> {
        self.nodes.iter().flat_map(|n| self.linked(*n, Direction::Outgoing).into_iter().map(|(p, m, q)| (*n, p, m, q))).collect()
    }
    fn bfs(&self, n: Node) -> Vec<Node> {
        let mut v = vec![n];
        let mut i = 0;
        while i < v.len() {
            v.extend(&self.children[&v[i]]);
            i += 1;
        }
        v
    }
    fn under(&self, mut n: Node, a: Node) -> bool {
        loop {
            if n == a {
                return true;
            }
            match self.parent[&n] {
                Some(p) => n = p,
                None => return false,
            }
        }
    }
}
fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}
macro_rules! same {
    ($a:expr, $b:expr, $sig:expr, $($w:tt)*) => {{
        let (a, b) = ($a, $b);
        if a != b {
            return fail($sig, format!("{}: got {a:?}, want {b:?}", format!($($w)*)));
        }
    }};
}

/// The methods of a view against the truth of the underlying graph.
fn check_view<H: HugrView<Node = Node>>(h: &H, base: &Hugr, t: &Truth, entry: Node) -> R {
    same!(h.entrypoint(), entry, "entrypoint", "entrypoint");
    same!(h.module_root().node(), t.nodes[0], "root", "module_root");
    same!(h.entrypoint_tag(), base.get_optype(entry).tag(), "entrypoint", "tag");
    ensure!(std::ptr::eq(h.entrypoint_optype(), base.get_optype(entry)), "entrypoint", "entrypoint_optype");
    same!(h.num_nodes(), t.nodes.len(), "num-nodes", "num_nodes");
    same!(h.num_edges(), t.edges().len(), "num-edges", "num_edges");
    same!(sorted(h.nodes().collect()), sorted(t.nodes.clone()), "nodes", "nodes");
    same!(h.entry_descendants().collect::<Vec<_>>(), t.bfs(entry), "descendants", "entry_descendants");
    match base.get_optype(entry) {
        OpType::FuncDefn(f) => {
            same!(h.poly_func_type().map(|x| canon::poly(&x)), Some(canon::poly(f.signature())), "func-type", "poly_func_type");
        }
        OpType::FuncDecl(f) => {
            same!(h.poly_func_type().map(|x| canon::poly(&x)), Some(canon::poly(f.signature())), "func-type", "poly_func_type");
        }
        _ => same!(h.poly_func_type(), None, "func-type", "poly_func_type"),
    }
    let inner = h.inner_function_type().map(|s| (s.input().iter().map(canon::ty).collect::<Vec<_>>(), s.output().iter().map(canon::ty).collect::<Vec<_>>()));
    let want = refval::region(base.get_optype(entry)).map(|(i, o)| (i.iter().map(canon::ty).collect::<Vec<_>>(), o.iter().map(canon::ty).collect::<Vec<_>>()));
    same!(inner, want, "inner-type", "inner_function_type of {}", base.get_optype(entry));
    // nodes that are not there
    let bound = t.nodes.iter().map(|n| n.index()).max().unwrap() + 3;
    let there: BTreeSet<usize> = t.nodes.iter().map(|n| n.index()).collect();
    for i in 0..bound {
        let n: Node = portgraph::NodeIndex::new(i).into();
        same!(h.contains_node(n), there.contains(&i), "contains", "contains_node({n})");
    }
    for &n in &t.nodes {
        let op = base.get_optype(n);
        same!(h.get_parent(n), t.parent[&n], "parent", "get_parent({n})");
        ensure!(std::ptr::eq(h.get_optype(n), op), "optype", "get_optype({n})");
        same!(h.children(n).collect::<Vec<_>>(), t.children[&n].clone(), "children", "children({n})");
        same!(h.children(n).rev().collect::<Vec<_>>(), t.children[&n].iter().rev().copied().collect::<Vec<_>>(), "children", "children({n}).rev");
        same!(h.first_child(n), t.children[&n].first().copied(), "first-child", "first_child({n})");
        same!(h.descendants(n).collect::<Vec<_>>(), t.bfs(n), "descendants", "descendants({n})");
        // is IO
        let io = if refval::region(op).is_some() { Some([t.children[&n][0], t.children[&n][1]]) } else { None };
        same!(h.get_io(n), io, "get-io", "get_io({n}) of {op}");
        if let Some([i, o]) = h.get_io(n) {
            ensure!(h.get_optype(i).is_input() && h.get_optype(o).is_output(), "get-io", "get_io({n})");
        }
        let kinds = refval::ports(op);
        let mut every = vec![];
        for d in DIRS {
            let i = ix(d);
            let links = &t.links[i][&n];
            same!(h.num_ports(n, d), links.len(), "num-ports", "num_ports({n}, {d:?})");
            let ports: Vec<Port> = (0..links.len()).map(|p| Port::new(d, p)).collect();
            same!(h.node_ports(n, d).collect::<Vec<_>>(), ports.clone(), "node-ports", "node_ports({n}, {d:?})");
            every.extend(ports.iter().copied());
            let all: Vec<(Node, Port)> = t.linked(n, d).iter().map(|(_, m, q)| (*m, Port::new(d.reverse(), *q))).collect();
            let got: Vec<(Node, Port)> = match h.all_linked_ports(n, d) {
                itertools::Either::Left(x) => x.map(|(m, q)| (m, Port::from(q))).collect(),
                itertools::Either::Right(x) => x.map(|(m, q)| (m, Port::from(q))).collect(),
            };
            same!(got, all.clone(), "all-linked", "all_linked_ports({n}, {d:?})");
            same!(h.neighbours(n, d).collect::<Vec<_>>(), all.iter().map(|x| x.0).collect::<Vec<_>>(), "neighbours", "neighbours({n}, {d:?})");
            for (p, l) in links.iter().enumerate() {
                let port = Port::new(d, p);
                let want: Vec<(Node, Port)> = l.iter().map(|(m, q)| (*m, Port::new(d.reverse(), *q))).collect();
                same!(h.linked_ports(n, port).collect::<Vec<_>>(), want.clone(), "linked", "linked_ports({n}, {port:?})");
                same!(h.is_linked(n, port), !l.is_empty(), "is-linked", "is_linked({n}, {port:?})");
                let one = if want.len() == 1 { Some(want[0]) } else { None };
                same!(h.single_linked_port(n, port), one, "single", "single_linked_port({n}, {port:?})");
                if d == Direction::Incoming {
                    let p = IncomingPort::from(p);
                    same!(h.linked_outputs(n, p).map(|(m, q)| (m, Port::from(q))).collect::<Vec<_>>(), want.clone(), "linked", "linked_outputs({n}, {p:?})");
                    same!(h.single_linked_output(n, p).map(|(m, q)| (m, Port::from(q))), one, "single", "single_linked_output({n}, {p:?})");
                } else {
                    let p = OutgoingPort::from(p);
                    same!(h.linked_inputs(n, p).map(|(m, q)| (m, Port::from(q))).collect::<Vec<_>>(), want.clone(), "linked", "linked_inputs({n}, {p:?})");
                    same!(h.single_linked_input(n, p).map(|(m, q)| (m, Port::from(q))), one, "single", "single_linked_input({n}, {p:?})");
                }
                // links are seen from both ends
                for (m, q) in l {
                    let back = &t.links[1 - i][m][*q];
                    ensure!(back.contains(&(n, p)), "mirror", "{n}.{p} -> {m}.{q} is not seen from the other end");
                }
            }
            // values
            if let Some(k) = &kinds {
                let k = if i == 0 { &k.0 } else { &k.1 };
                let want: Vec<(Port, String)> = k.iter().enumerate().filter_map(|(j, x)| match x {
                    Kind::Val(t, _) => Some((Port::new(d, j), t.clone())),
                    _ => None,
                }).collect();
                // static ports are numbered like values, but are none
                same!(h.value_types(n, d).map(|(p, t)| (p, canon::ty(&t))).collect::<Vec<_>>(), want.clone(), "value-types", "value_types({n}, {d:?}) of {op}");
                let typed: Vec<(Port, String)> = if d == Direction::Incoming {
                    h.in_value_types(n).map(|(p, t)| (p.into(), canon::ty(&t))).collect()
                } else {
                    h.out_value_types(n).map(|(p, t)| (p.into(), canon::ty(&t))).collect()
                };
                same!(typed, want.clone(), "value-types", "in/out_value_types({n})");
                if let Some(s) = h.signature(n) {
                    let row = if i == 0 { s.input() } else { s.output() };
                    same!(row.iter().map(canon::ty).collect::<Vec<_>>(), want.iter().map(|x| x.1.clone()).collect::<Vec<_>>(), "signature", "signature({n}) of {op}");
                } else {
                    ensure!(want.is_empty(), "signature", "{op} has values but no signature");
                }
            }
        }
        same!(h.all_node_ports(n).collect::<Vec<_>>(), every.clone(), "node-ports", "all_node_ports({n})");
        same!(h.node_inputs(n).map(Port::from).chain(h.node_outputs(n).map(Port::from)).collect::<Vec<_>>(), every, "node-ports", "node_inputs, node_outputs({n})");
        same!((h.num_inputs(n), h.num_outputs(n)), (t.links[0][&n].len(), t.links[1][&n].len()), "num-ports", "num_inputs/outputs({n})");
        let inn: Vec<Node> = t.linked(n, Direction::Incoming).iter().map(|x| x.1).collect();
        let out: Vec<Node> = t.linked(n, Direction::Outgoing).iter().map(|x| x.1).collect();
        same!(h.input_neighbours(n).collect::<Vec<_>>(), inn.clone(), "neighbours", "input_neighbours({n})");
        same!(h.output_neighbours(n).collect::<Vec<_>>(), out.clone(), "neighbours", "output_neighbours({n})");
        same!(h.all_linked_outputs(n).map(|(m, p)| (m, p.index())).collect::<Vec<_>>(), t.linked(n, Direction::Incoming).iter().map(|x| (x.1, x.2)).collect::<Vec<_>>(), "all-linked", "all_linked_outputs({n})");
        same!(h.all_linked_inputs(n).map(|(m, p)| (m, p.index())).collect::<Vec<_>>(), t.linked(n, Direction::Outgoing).iter().map(|x| (x.1, x.2)).collect::<Vec<_>>(), "all-linked", "all_linked_inputs({n})");
        // self-links are counted once
        let both: Vec<Node> = inn.iter().copied().chain(out.iter().copied().filter(|m| *m != n)).collect();
        same!(sorted(h.all_neighbours(n).collect()), sorted(both), "neighbours", "all_neighbours({n})");
        for m in inn.iter().chain(&out).chain([&n, &t.nodes[0]]) {
            let want: Vec<[Port; 2]> = t.linked(n, Direction::Outgoing).iter().filter(|x| x.1 == *m).map(|x| [Port::new(Direction::Outgoing, x.0), Port::new(Direction::Incoming, x.2)]).collect();
            same!(sorted(h.node_connections(n, *m).collect()), sorted(want), "connections", "node_connections({n}, {m})");
        }
        // only data and order
        let df: Vec<(Node, usize)> = t.linked(n, Direction::Outgoing).iter().filter(|x| matches!(base.get_optype(x.1).port_kind(IncomingPort::from(x.2)), Some(EdgeKind::Value(_) | EdgeKind::StateOrder))).map(|x| (x.1, x.2)).collect();
        same!(base.all_linked_inputs(n).dataflow_ports_only(base).map(|(m, p)| (m, p.index())).collect::<Vec<_>>(), df, "dataflow-ports", "dataflow_ports_only({n})");
        // static edges
        let st = |k: &[Kind]| k.iter().position(|x| matches!(x, Kind::Const(_) | Kind::Func(_)));
        if let Some((i, o)) = &kinds {
            let src = st(i).and_then(|p| t.links[0][&n][p].first().map(|x| x.0));
            same!(h.static_source(n), src, "static", "static_source({n}) of {op}");
            let tgt = st(o).map(|p| t.links[1][&n][p].clone());
            same!(h.static_targets(n).map(|x| x.map(|(m, p)| (m, p.index())).collect::<Vec<_>>()), tgt, "static", "static_targets({n}) of {op}");
        }
        same!(h.node_metadata_map(n), base.node_metadata_map(n), "metadata", "metadata of {n}");
        for (k, v) in base.node_metadata_map(n) {
            same!(h.get_metadata(n, k), Some(v), "metadata", "get_metadata({n}, {k})");
        }
        same!(h.get_metadata(n, "no such key"), None, "metadata", "missing metadata");
    }
    same!(h.extensions().ids().map(|x| x.to_string()).collect::<Vec<_>>(), base.extensions().ids().map(|x| x.to_string()).collect::<Vec<_>>(), "extensions", "extensions");
    Ok(())
}
fn view(c: &mut Ctx) -> R {
    let h = program(c, 30);
    let t = Truth::of(&h);
    check_view(&h, &h, &t, h.entrypoint())?;
    c.label_if(h.entrypoint() == h.module_root().node(), "whole module");
    c.label(if h.num_nodes() < 12 { "small" } else { "large" });
    if h.num_nodes() >= 12 {
        c.nontrivial(canon::graph_hash(&h));
    }
    Ok(())
}
fn tagged<H: HugrView<Node = Node>, I: NodeHandle>(c: &mut Ctx, h: H, base: &Hugr, t: &Truth, tag: OpTag) -> R {
    let e = h.entrypoint();
    let want = tag.is_superset(base.get_optype(e).tag());
    same!(RootChecked::<_, I>::check(&&h).is_ok(), want, "root-checked", "check of {} for {tag:?}", base.get_optype(e));
    match RootChecked::<&H, I>::try_new(&h) {
        Ok(r) => {
            ensure!(want, "root-checked", "{} taken for {tag:?}", base.get_optype(e));
            c.label("root accepted");
            check_view(r.hugr(), base, t, e)?;
            let r2 = r.as_ref();
            same!(r2.hugr().entrypoint(), e, "root-checked", "entrypoint");
        }
        Err(x) => ensure!(!want, "root-checked", "{} not taken for {tag:?}: {x}", base.get_optype(e)),
    }
    Ok(())
}
fn wrap(c: &mut Ctx) -> R {
    let mut h = program(c, 16);
    let t = Truth::of(&h);
    let n = *c.t.pick(&t.nodes);
    let e = h.entrypoint();
    match c.t.below(9) {
        0 => {
            let v = h.with_entrypoint(n);
            check_view(&v, &h, &t, n)?;
            // again, on top
            let m = *c.t.pick(&t.nodes);
            check_view(&v.with_entrypoint(m), &h, &t, m)?;
            check_view(v.into_unwrapped(), &h, &t, e)?;
        }
        1 => check_view(&&h, &h, &t, e)?,
        2 => check_view(&Rc::new(h.clone()), &h, &t, e).or_else(|_| Ok::<(), Fail>(())).and_then(|_| {
            let r = Rc::new(h.clone());
            check_view(&r, &r, &t, e)
        })?,
        3 => {
            let r = Arc::new(h.clone());
            check_view(&r, &r, &t, e)?
        }
        4 => {
            let r = Box::new(h.clone());
            check_view(&r, &r, &t, e)?
        }
        5 => {
            let r: Cow<Hugr> = if c.t.flag() { Cow::Borrowed(&h) } else { Cow::Owned(h.clone()) };
            check_view(&r, r.as_ref(), &t, e)?
        }
        6 => {
            let b = h.clone();
            let before = canon::show(&h);
            {
                let mut v = h.with_entrypoint_mut(n);
                same!(v.entrypoint(), n, "entrypoint", "with_entrypoint_mut");
                // the base of the same program, node for node
                same!(sorted(v.nodes().collect()), sorted(b.nodes().collect()), "nodes", "with_entrypoint_mut");
                let m = *c.t.pick(&t.nodes);
                v.set_entrypoint(m);
                same!(v.entrypoint(), m, "entrypoint", "set_entrypoint of the view");
                v.set_metadata(n, "k.k", 5);
            }
            same!(h.get_metadata(n, "k.k").cloned(), Some(serde_json::json!(5)), "metadata", "changes through the view");
            h.remove_metadata(n, "k.k");
            h.set_entrypoint(e);
            same!(canon::show(&h), before, "entrypoint", "with_entrypoint_mut changes only the view");
        }
        _ => {
            let v = h.with_entrypoint(n);
            match c.t.below(9) {
                0 => tagged::<_, DfgID>(c, v, &h, &t, OpTag::Dfg)?,
                1 => tagged::<_, CfgID>(c, v, &h, &t, OpTag::Cfg)?,
                2 => tagged::<_, DataflowParentID>(c, v, &h, &t, OpTag::DataflowParent)?,
                3 => tagged::<_, FuncID<true>>(c, v, &h, &t, OpTag::FuncDefn)?,
                4 => tagged::<_, FuncID<false>>(c, v, &h, &t, OpTag::Function)?,
                5 => tagged::<_, ModuleRootID>(c, v, &h, &t, OpTag::ModuleRoot)?,
                6 => tagged::<_, CaseID>(c, v, &h, &t, OpTag::Case)?,
                7 => tagged::<_, BasicBlockID>(c, v, &h, &t, OpTag::DataflowBlock)?,
                _ => {
                    if c.t.flag() {
                        tagged::<_, TailLoopID>(c, v, &h, &t, OpTag::TailLoop)?
                    } else {
                        tagged::<_, ConditionalID>(c, v, &h, &t, OpTag::Conditional)?
                    }
                }
            }
        }
    }
    // regions cut out: tested in C08, here only that the view is what is cut
    if t.nodes.len() >= 12 {
        c.nontrivial(canon::graph_hash(&h));
    }
    Ok(())
}
fn reach(start: Node, next: impl Fn(Node) -> Vec<Node>) -> BTreeSet<Node> {
    let mut seen = BTreeSet::from([start]);
    let mut todo = vec![start];
    while let Some(n) = todo.pop() {
        for m in next(n) {
            if seen.insert(m) {
                todo.push(m);
            }
        }
    }
    seen
}
fn adapters(c: &mut Ctx) -> R {
    use petgraph::visit::*;
    let h = program(c, 24);
    let t = Truth::of(&h);
    let w = h.as_petgraph();
    let out = |n: Node| t.linked(n, Direction::Outgoing).iter().map(|x| x.1).collect::<Vec<_>>();
    let inn = |n: Node| t.linked(n, Direction::Incoming).iter().map(|x| x.1).collect::<Vec<_>>();
    same!(w.node_count(), t.nodes.len(), "petgraph-count", "node_count");
    same!(w.edge_count(), t.edges().len(), "petgraph-count", "edge_count");
    same!(sorted(w.node_identifiers().collect()), sorted(t.nodes.clone()), "petgraph-nodes", "node_identifiers");
    for r in w.node_references() {
        ensure!(std::ptr::eq(r.weight(), h.get_optype(r.id())), "petgraph-nodes", "node_references");
    }
    same!(sorted(w.node_references().map(|r| r.id()).collect()), sorted(t.nodes.clone()), "petgraph-nodes", "node_references");
    ensure!(w.is_directed(), "petgraph-directed", "");
    let m = w.adjacency_matrix();
    let some: Vec<Node> = (0..6).map(|_| *c.t.pick(&t.nodes)).collect();
    for &n in &t.nodes {
        ensure!(w.to_index(n) < w.node_bound(), "petgraph-bound", "node {n} has index {}, node_bound is {}", w.to_index(n), w.node_bound());
        same!(w.from_index(w.to_index(n)), n, "petgraph-index", "from_index(to_index({n}))");
        same!(w.neighbors(n).collect::<Vec<_>>(), out(n), "petgraph-neighbours", "neighbors({n})");
        same!(w.neighbors_directed(n, petgraph::Direction::Outgoing).collect::<Vec<_>>(), out(n), "petgraph-neighbours", "neighbors_directed({n})");
        same!(w.neighbors_directed(n, petgraph::Direction::Incoming).collect::<Vec<_>>(), inn(n), "petgraph-neighbours", "neighbors_directed({n})");
        for &k in some.iter().chain(&out(n)) {
            same!(w.is_adjacent(&m, n, k), out(n).contains(&k), "petgraph-matrix", "is_adjacent({n}, {k})");
        }
    }
    let a = *c.t.pick(&t.nodes);
    let want = reach(a, out);
    let mut d = pv::Dfs::new(w, a);
    let mut got = vec![];
    while let Some(n) = d.next(w) {
        got.push(n);
    }
    same!(sorted(got), want.iter().copied().collect::<Vec<_>>(), "petgraph-dfs", "Dfs from {a}");
    let mut d = pv::Bfs::new(petgraph::visit::Reversed(w), a);
    let mut got = vec![];
    while let Some(n) = d.next(petgraph::visit::Reversed(w)) {
        got.push(n);
    }
    same!(sorted(got), reach(a, inn).into_iter().collect::<Vec<_>>(), "petgraph-dfs", "reversed Bfs from {a}");
    let mut scc: Vec<Vec<Node>> = match no_panic(|| petgraph::algo::tarjan_scc(w)) {
        Ok(x) => x,
        Err((m, at)) => return fail("petgraph-scc", format!("tarjan_scc panicked: {m} at {at}")),
    };
    scc.iter_mut().for_each(|x| x.sort());
    scc.sort();
    let r: HashMap<Node, BTreeSet<Node>> = t.nodes.iter().map(|n| (*n, reach(*n, out))).collect();
    let mut mine: BTreeSet<Vec<Node>> = BTreeSet::new();
    for n in &t.nodes {
        mine.insert(sorted(t.nodes.iter().filter(|m| r[n].contains(m) && r[m].contains(n)).copied().collect()));
    }
    same!(scc, mine.into_iter().collect::<Vec<_>>(), "petgraph-scc", "tarjan_scc");

    // regions
    let parents: Vec<Node> = t.nodes.iter().filter(|n| !t.children[n].is_empty()).copied().collect();
    let p = *c.t.pick(&parents);
    let views: (bool, Node) = (c.t.flag(), *c.t.pick(&t.nodes));
    let r = if views.0 { region(&h.with_entrypoint(views.1), &t, p) } else { region(&h, &t, p) };
    r?;
    let flat = h.clone().into_region_portgraph(p);
    same!(sorted(flat.nodes_iter().map(Node::from).collect()), sorted(t.children[&p].clone()), "region-nodes", "into_region_portgraph({p})");
    let inside = t.edges().iter().filter(|e| t.parent[&e.0] == Some(p) && t.parent[&e.2] == Some(p)).count();
    same!(flat.link_count(), inside, "region-links", "into_region_portgraph({p})");
    c.label(match h.get_optype(p) {
        OpType::Module(_) => "module region",
        OpType::CFG(_) => "cfg region",
        OpType::Conditional(_) => "conditional region",
        _ => "dataflow region",
    });
    if t.nodes.len() >= 12 {
        c.nontrivial(canon::graph_hash(&h));
    }
    Ok(())
}
fn region<H: HugrView<Node = Node>>(h: &H, t: &Truth, p: Node) -> R {
    let (g, map) = h.region_portgraph(p);
    let kids = &t.children[&p];
    same!(sorted(g.nodes_iter().map(|n| map.from_portgraph(n)).collect()), sorted(kids.clone()), "region-nodes", "nodes of region {p}");
    same!(g.node_count(), kids.len(), "region-nodes", "node_count of region {p}");
    let mut total = 0;
    for &n in kids {
        let i = map.to_portgraph(n);
        same!(map.from_portgraph(i), n, "region-map", "map of {n}");
        let mut got: Vec<(usize, Node, usize)> = vec![];
        for port in g.outputs(i) {
            for (_, l) in g.port_links(port) {
                let m = g.port_node(l).unwrap();
                got.push((g.port_offset(port).unwrap().index(), map.from_portgraph(m), g.port_offset(l).unwrap().index()));
            }
        }
        let want: Vec<_> = t.linked(n, Direction::Outgoing).into_iter().filter(|x| t.parent[&x.1] == Some(p)).collect();
        total += want.len();
        same!(sorted(got), sorted(want.clone()), "region-links", "links of {n} in region {p}");
        let ns: BTreeSet<Node> = g.output_neighbours(i).map(|m| map.from_portgraph(m)).collect();
        same!(ns, want.iter().map(|x| x.1).collect(), "region-links", "neighbours of {n} in region {p}");
    }
    same!(g.link_count(), total, "region-links", "link_count of region {p}");
    // an order of the nodes consistent with the edges
    if let Ok(o) = petgraph::algo::toposort(&g, None) {
        let at: HashMap<Node, usize> = o.iter().enumerate().map(|(i, n)| (map.from_portgraph(*n), i)).collect();
        same!(at.len(), kids.len(), "region-toposort", "toposort of region {p}");
        for &n in kids {
            for (_, m, _) in t.linked(n, Direction::Outgoing) {
                if t.parent[&m] == Some(p) {
                    ensure!(at[&n] < at[&m], "region-toposort", "{m} comes before {n} in the topological order of region {p}");
                }
            }
        }
    } else {
        ensure!(h.get_optype(p).is_cfg(), "region-toposort", "a cycle in region {p}, {}", h.get_optype(p));
    }
    Ok(())
}
fn calls(c: &mut Ctx) -> R {
    let mut h = program(c, 30);
    // only containers are entrypoints of valid programs
    while !canon::op_is_container(h.get_optype(h.entrypoint())) {
        let p = h.get_parent(h.entrypoint()).unwrap();
        h.set_entrypoint(p);
    }
    let t = Truth::of(&h);
    let root = t.nodes[0];
    let e = h.entrypoint();
    // (user, kind, target), with the node that uses
    let mut owners: Vec<Node> = t.children[&root].iter().filter(|n| matches!(h.get_optype(**n), OpType::FuncDefn(_) | OpType::FuncDecl(_) | OpType::Const(_))).copied().collect();
    let extra = e != root && !owners.contains(&e);
    if extra {
        owners.push(e);
    }
    let mut want: Vec<(Node, &str, Node, Node)> = vec![];
    for &o in &owners {
        for &n in &t.nodes {
            if n != o && t.under(n, o) {
                let k = match h.get_optype(n) {
                    OpType::Call(_) => "call",
                    OpType::LoadFunction(_) => "load function",
                    OpType::LoadConstant(_) => "load constant",
                    _ => continue,
                };
                let (_, i) = (0, refval::ports(h.get_optype(n)).unwrap().0.iter().position(|x| matches!(x, Kind::Const(_) | Kind::Func(_))).unwrap());
                let Some((target, _)) = t.links[0][&n][i].first() else { continue };
                if t.parent[target] == Some(root) {
                    want.push((o, k, n, *target));
                }
            }
        }
    }
    want.sort();
    let v = *c.t.pick(&t.nodes);
    let rerooted = c.t.chance(1, 4);
    let g = if rerooted {
        h.set_entry(v, |w| ModuleGraph::new(w), e)
    } else {
        ModuleGraph::new(&h)
    };
    let pg = g.graph();
    let name = |s: &StaticNode| match s {
        StaticNode::FuncDecl(n) | StaticNode::FuncDefn(n) | StaticNode::Const(n) => *n,
        StaticNode::NonFuncEntrypoint => e,
        _ => root,
    };
    let edge = |s: &StaticEdge| match s {
        StaticEdge::Call(n) => ("call", *n),
        StaticEdge::LoadFunction(n) => ("load function", *n),
        StaticEdge::LoadConstant(n) => ("load constant", *n),
        _ => ("?", root),
    };
    same!(sorted(pg.node_weights().map(&name).collect()), sorted(owners.clone()), "module-nodes", "nodes of the module graph");
    for (i, w) in pg.node_indices().map(|i| (i, &pg[i])) {
        let ok = match (w, h.get_optype(name(w))) {
            (StaticNode::FuncDecl(_), OpType::FuncDecl(_)) | (StaticNode::FuncDefn(_), OpType::FuncDefn(_)) | (StaticNode::Const(_), OpType::Const(_)) => true,
            (StaticNode::NonFuncEntrypoint, _) => extra,
            _ => false,
        };
        ensure!(ok, "module-nodes", "{w:?} for {}", h.get_optype(name(w)));
        same!(g.node_index(name(w)), Some(i), "module-index", "node_index of {w:?}");
    }
    for &n in &t.nodes {
        same!(g.node_index(n).is_some(), owners.contains(&n), "module-index", "node_index({n})");
        let mut out: Vec<_> = g.out_edges(n).map(|(x, y)| (n, edge(x).0, edge(x).1, name(y))).collect();
        out.sort();
        same!(out, want.iter().filter(|x| x.0 == n).copied().collect::<Vec<_>>(), "module-edges", "out_edges({n})");
        let mut inn: Vec<_> = g.in_edges(n).map(|(x, y)| (name(x), edge(y).0, edge(y).1, n)).collect();
        inn.sort();
        same!(inn, want.iter().filter(|x| x.3 == n).copied().collect::<Vec<_>>(), "module-edges", "in_edges({n})");
    }
    let mut got: Vec<_> = pg.edge_references().map(|x| (name(&pg[x.source()]), edge(x.weight()).0, edge(x.weight()).1, name(&pg[x.target()]))).collect();
    got.sort();
    same!(got, want.clone(), "module-edges", "edges of the module graph");

    // without constants
    #[allow(deprecated)]
    let cg = CallGraph::new(&h);
    let owners: Vec<Node> = owners.into_iter().filter(|n| *n == e && e != root || !h.get_optype(*n).is_const()).collect();
    let name = |s: &CallGraphNode| match s {
        CallGraphNode::FuncDecl(n) | CallGraphNode::FuncDefn(n) => *n,
        CallGraphNode::NonFuncRoot => e,
    };
    let edge = |s: &CallGraphEdge| match s {
        CallGraphEdge::Call(n) => ("call", *n),
        CallGraphEdge::LoadFunction(n) => ("load function", *n),
    };
    let pg = cg.graph();
    same!(sorted(pg.node_weights().map(&name).collect()), sorted(owners.clone()), "call-nodes", "nodes of the call graph");
    for &n in &t.nodes {
        same!(cg.node_index(n).map(|i| name(&pg[i])), owners.contains(&n).then_some(n), "call-nodes", "node_index({n})");
    }
    let mut got: Vec<_> = pg.edge_references().map(|x| (name(&pg[x.source()]), edge(x.weight()).0, edge(x.weight()).1, name(&pg[x.target()]))).collect();
    got.sort();
    let want2: Vec<_> = want.iter().filter(|x| x.1 != "load constant").copied().collect();
    same!(got, want2, "call-edges", "edges of the call graph");
    c.label_if(extra, "entrypoint is no function");
    c.label_if(want.iter().any(|x| x.1 == "call"), "calls");
    c.label_if(want.iter().any(|x| x.1 == "load function"), "function loads");
    c.label_if(want.iter().any(|x| x.1 == "load constant"), "module constants loaded");
    c.label_if(want.iter().any(|x| want.iter().any(|y| y.0 == x.0 && y.3 == x.3 && y.2 != x.2)), "two uses by one function");
    if want.len() >= 2 {
        c.nontrivial(canon::graph_hash(&h));
    }
    Ok(())
}
trait SetEntry {
    fn set_entry<T>(&self, v: Node, f: impl Fn(&Self) -> T, e: Node) -> T;
}
impl SetEntry for Hugr {
    /// Through a clone whose entrypoint is elsewhere, seen again at `e`.
    fn set_entry<T>(&self, v: Node, f: impl Fn(&Self) -> T, e: Node) -> T {
        let mut h = self.clone();
        h.set_entrypoint(v);
        h.set_entrypoint(e);
        f(&h)
    }
}
fn quoted(s: &str) -> String {
    format!("\"{}\"", s.replace('"', "#quot;").replace('\n', "<br>"))
}
fn base_name(h: &Hugr, n: Node) -> String {
    match h.get_optype(n) {
        OpType::FuncDecl(f) => format!("FuncDecl: \"{}\"", f.func_name()),
        OpType::FuncDefn(f) => format!("FuncDefn: \"{}\"", f.func_name()),
        o => o.to_string(),
    }
}
fn render(c: &mut Ctx) -> R {
    let h = program(c, 20);
    let t = Truth::of(&h);
    // options
    let offsets = c.t.chance(3, 4);
    let types = c.t.chance(3, 4);
    let entry = match c.t.below(3) {
        0 => None,
        1 => Some(h.entrypoint()),
        _ => Some(*c.t.pick(&t.nodes)),
    };
    let style = c.t.below(3);
    let custom: HashMap<Node, String> = t.nodes.iter().filter(|_| c.t.chance(2, 3)).enumerate().map(|(i, n)| (*n, format!("label {i}"))).collect();
    let via = c.t.below(3);
    let v = *c.t.pick(&t.nodes);
    fn set<'a, H: HugrView<Node = Node>>(f: MermaidFormatter<'a, H>, offsets: bool, types: bool, entry: Option<Node>, style: usize, custom: &HashMap<Node, String>) -> MermaidFormatter<'a, H> {
        f.with_port_offsets(offsets).with_type_labels(types).with_entrypoint(entry).with_node_labels(match style {
            0 => NodeLabel::None,
            1 => NodeLabel::Numeric,
            _ => NodeLabel::Custom(custom.clone()),
        })
    }
    let (mut offsets, mut types, mut entry, mut style) = (offsets, types, entry, style as usize);
    let s = match via {
        0 => set(h.mermaid_format(), offsets, types, entry, style, &custom).finish(),
        1 => {
            let r = h.with_entrypoint(v);
            let f = set(r.mermaid_format(), offsets, types, entry, style, &custom);
            same!((f.entrypoint(), f.port_offsets(), f.type_labels()), (entry, offsets, types), "options", "options of the formatter");
            f.finish()
        }
        _ => {
            (offsets, types, entry, style) = (true, true, Some(v), 1);
            h.with_entrypoint(v).mermaid_string()
        }
    };
    // labels
    let label = |n: Node, e: Option<Node>| {
        let b = base_name(&h, n);
        let b = if Some(n) == e { format!("[**{b}**]") } else { b };
        match style {
            0 => b,
            1 => format!("({}) {b}", n.index()),
            _ => format!("({}) {b}", custom.get(&n).cloned().unwrap_or(n.index().to_string())),
        }
    };
    let edge = |(a, p, b, q): (Node, usize, Node, usize)| {
        let kind = h.get_optype(a).port_kind(OutgoingPort::from(p)).unwrap();
        let ty = match &kind {
            EdgeKind::Value(t) | EdgeKind::Const(t) => Some(format!("{t}")),
            EdgeKind::Function(f) => Some(format!("{f}")),
            _ => None,
        };
        let solid = ty.is_some();
        let ty = ty.filter(|_| types);
        let label = match (offsets, ty) {
            (true, Some(t)) => format!("{p}:{q}\n{t}"),
            (true, None) => format!("{p}:{q}"),
            (false, Some(t)) => t,
            (false, None) => return format!("{}{}{}", a.index(), if solid { "-->" } else { "-.->" }, b.index()),
        };
        let label = quoted(&label);
        if solid { format!("{}--{label}-->{}", a.index(), b.index()) } else { format!("{}-.{label}.->{}", a.index(), b.index()) }
    };
    // read the picture again
    let mut lines = s.lines();
    same!(lines.next(), Some("graph LR"), "mermaid", "first line");
    let mut stack: Vec<usize> = vec![];
    let mut kids: BTreeMap<Option<usize>, Vec<usize>> = BTreeMap::new();
    let mut labels: BTreeMap<usize, String> = BTreeMap::new();
    let mut styled: Vec<usize> = vec![];
    let mut edges: Vec<(String, Option<usize>)> = vec![];
    for l in lines {
        let l = l.trim_start();
        if l == "direction LR" {
            continue;
        }
        if l == "end" {
            ensure!(stack.pop().is_some(), "mermaid", "unmatched end\n{s}");
            continue;
        }
        if let Some(x) = l.strip_prefix("style ") {
            styled.push(x.split(' ').next().unwrap().parse().unwrap_or(usize::MAX));
            continue;
        }
        let (sub, r) = match l.strip_prefix("subgraph ") {
            Some(r) => (true, r),
            None => (false, l),
        };
        let digits: String = r.chars().take_while(|x| x.is_ascii_digit()).collect();
        let Ok(i) = digits.parse::<usize>() else { return fail("mermaid", format!("cannot read {l}")) };
        let rest = r[digits.len()..].trim_start();
        if rest.starts_with('[') && rest.ends_with(']') {
            kids.entry(stack.last().copied()).or_default().push(i);
            ensure!(labels.insert(i, rest[1..rest.len() - 1].to_string()).is_none(), "mermaid-nodes", "node {i} is drawn twice");
            if sub {
                stack.push(i);
            }
        } else {
            edges.push((l.to_string(), stack.last().copied()));
        }
    }
    ensure!(stack.is_empty(), "mermaid", "unclosed subgraph\n{s}");
    let want: BTreeMap<usize, String> = t.nodes.iter().map(|n| (n.index(), quoted(&label(*n, entry)))).collect();
    same!(labels, want, "mermaid-nodes", "nodes drawn");
    same!(kids.get(&None).cloned().unwrap_or_default(), vec![t.nodes[0].index()], "mermaid-nesting", "outermost");
    for n in &t.nodes {
        same!(kids.get(&Some(n.index())).cloned().unwrap_or_default(), t.children[n].iter().map(|x| x.index()).collect::<Vec<_>>(), "mermaid-nesting", "nodes drawn inside {n}");
    }
    same!(styled, entry.iter().map(|n| n.index()).collect::<Vec<_>>(), "mermaid-entry", "nodes highlighted");
    let all = t.edges();
    same!(sorted(edges.iter().map(|x| x.0.clone()).collect()), sorted(all.iter().map(|x| edge(*x)).collect()), "mermaid-edges", "edges drawn");
    // an edge is drawn inside a region that holds both ends
    let by: BTreeMap<String, (Node, Node)> = all.iter().map(|x| (edge(*x), (x.0, x.2))).collect();
    for (l, at) in &edges {
        if let Some(r) = at {
            let (a, b) = by[l];
            let r: Node = portgraph::NodeIndex::new(*r).into();
            ensure!(t.under(a, r) && t.under(b, r), "mermaid-region", "edge {l} is drawn inside {r}");
        }
    }
    // dot
    let s = h.dot_string();
    let mut nodes: Vec<usize> = vec![];
    let mut edges: Vec<(usize, usize, usize, usize, String)> = vec![];
    let mut tree: Vec<(usize, usize)> = vec![];
    for chunk in dot_lines(&s, &t) {
        let l = chunk.trim();
        if l.is_empty() || l == "digraph {" || l == "}" {
            continue;
        }
        if let Some(r) = l.strip_prefix("hier") {
            if let Some((a, b)) = r.split_once(" -> hier") {
                tree.push((a.parse().unwrap(), b.split(' ').next().unwrap().parse().unwrap()));
            }
            continue;
        }
        if let Some((a, b)) = l.split_once(" [shape=plain ") {
            let i: usize = a.parse().map_err(|_| Fail { sig: "dot".into(), msg: format!("cannot read {l}") })?;
            nodes.push(i);
            let n: Node = portgraph::NodeIndex::new(i).into();
            ensure!(t.parent.contains_key(&n), "dot-nodes", "{n} is drawn but not there");
            let name = base_name(&h, n);
            let name = if n == h.entrypoint() { format!("[**{name}**]") } else { name };
            ensure!(b.contains(&format!(">({i}) {name}</td></tr>")), "dot-nodes", "node {n} is drawn as {b}");
            for d in DIRS {
                for (p, l) in t.links[ix(d)][&n].iter().enumerate() {
                    let tag = format!("port=\"{}{p}\"", if d == Direction::Incoming { "in" } else { "out" });
                    let hidden = h.get_optype(n).port_kind(Port::new(d, p)) == Some(EdgeKind::StateOrder) && l.is_empty();
                    same!(b.matches(&tag).count(), usize::from(!hidden), "dot-ports", "port {d:?} {p} of {n}");
                }
            }
            continue;
        }
        let f = || -> Option<(usize, usize, usize, usize, String)> {
            let (a, r) = l.split_once(" -> ")?;
            let (a, p) = a.split_once(":out")?;
            let (b, st) = r.split_once(" [style=\"")?;
            let (b, q) = b.split_once(":in")?;
            Some((a.parse().ok()?, p.parse().ok()?, b.parse().ok()?, q.parse().ok()?, st.to_string()))
        };
        match f() {
            Some(e) => edges.push(e),
            None => return fail("dot", format!("cannot read {l}")),
        }
    }
    same!(sorted(nodes), sorted(t.nodes.iter().map(|n| n.index()).collect()), "dot-nodes", "nodes drawn");
    same!(
        sorted(edges.iter().map(|x| (x.0, x.1, x.2, x.3)).collect()),
        sorted(all.iter().map(|x| (x.0.index(), x.1, x.2.index(), x.3)).collect()),
        "dot-edges",
        "edges drawn"
    );
    let want: Vec<(usize, usize)> = t.nodes.iter().flat_map(|n| t.children[n].iter().map(|m| (n.index(), m.index()))).collect();
    same!(sorted(tree), sorted(want), "dot-nesting", "nesting drawn");
    c.label(["no numbers", "numbers", "own labels"][style]);
    c.label(["direct", "re-rooted with options", "re-rooted"][via as usize]);
    if t.nodes.len() >= 12 {
        c.nontrivial(canon::graph_hash(&h));
    }
    Ok(())
}
/// Lines of a drawing, where names may hold line breaks.
fn dot_lines(s: &str, _t: &Truth) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut open = false;
    for l in s.split('\n') {
        if open {
            let x = v.last_mut().unwrap();
            x.push('\n');
            x.push_str(l);
        } else {
            v.push(l.to_string());
        }
        let x = v.last().unwrap();
        open = x.contains(" [shape=plain ") && x.contains("label=<") && !x.ends_with("</table>>]");
    }
    v
}

/// Puts the body of `f` into a dataflow graph inside `f`.
fn nest(h: &mut Hugr, f: Node) -> Node {
    let (i, o) = refval::region(h.get_optype(f)).unwrap();
    let kids: Vec<Node> = h.children(f).collect();
    let inp = h.add_node_with_parent(f, hugr::ops::Input::new(i.clone()));
    let out = h.add_node_with_parent(f, hugr::ops::Output::new(o.clone()));
    let d = h.add_node_with_parent(f, hugr::ops::DFG { signature: Signature::new(i.clone(), o.clone()) });
    for k in kids {
        h.set_parent(k, d);
    }
    for x in 0..i.len() {
        h.connect(inp, x, d, x);
    }
    for x in 0..o.len() {
        h.connect(d, x, out, x);
    }
    d
}
fn io(c: &mut Ctx) -> R {
    let mut p = pass::profile(&mut c.t, 12);
    p.linear = c.t.chance(1, 2);
    p.order = c.t.chance(2, 3);
    p.poly = c.t.chance(1, 3);
    p.nonlocal = c.t.flag();
    p.any_entry = false;
    p.funcs = 3;
    let mut h = pass::gen_program(c, &p).hugr;
    let root = h.module_root().node();
    // functions nobody uses
    let free: Vec<Node> = h
        .children(root)
        .filter(|n| h.get_optype(*n).is_func_defn() && h.static_targets(*n).is_none_or(|mut x| x.next().is_none()))
        .collect();
    if free.is_empty() {
        return Ok(());
    }
    let f = *c.t.pick(&free);
    let OpType::FuncDefn(fd) = h.get_optype(f).clone() else { return Ok(()) };
    // order edges at the ends
    let kids: Vec<Node> = h.children(f).skip(2).filter(|n| !h.get_optype(*n).is_const()).collect();
    let [i0, o0] = h.get_io(f).unwrap();
    for _ in 0..c.t.below(3) {
        let (a, b) = match c.t.below(3) {
            0 if !kids.is_empty() => (i0, *c.t.pick(&kids)),
            1 if !kids.is_empty() => (*c.t.pick(&kids), o0),
            _ => (i0, o0),
        };
        if h.get_optype(a).other_output_port() .is_some() && h.get_optype(b).other_input_port().is_some() {
            h.add_other_edge(a, b);
        }
    }
    let levels = c.t.below(3);
    let mut e = f;
    for _ in 0..levels {
        let inner = nest(&mut h, e);
        if c.t.flag() {
            let [a, b] = h.get_io(e).unwrap();
            match c.t.below(3) {
                0 => {
                    h.add_other_edge(a, inner);
                }
                1 => {
                    h.add_other_edge(inner, b);
                }
                _ => {
                    h.add_other_edge(a, b);
                }
            }
            c.label("order edge around the nested graph");
        }
        e = inner;
    }
    h.set_entrypoint(e);
    pass::valid(&h, "the harness")?;
    let (ins, outs) = refval::region(h.get_optype(e)).unwrap();
    let [inp, out] = h.get_io(e).unwrap();
    let used = |h: &Hugr, i: usize| h.is_linked(inp, OutgoingPort::from(i));
    let before = h.clone();
    let h2 = &before;
    c.sample(|| canon::show(h2).chars().take(1200).collect());
    let runs = if fd.signature().params().is_empty() { pass::runs(c, &before, &[f], 3)? } else { vec![] };
    let dfg = levels > 0 && c.t.flag();
    c.label_if(!fd.signature().params().is_empty(), "polymorphic");
    c.label(["function", "nested once", "nested twice"][levels as usize]);
    let after;
    let (new_in, new_out);
    let mut want: Vec<Option<usize>> = vec![]; // old position of each input
    let wanto: Vec<usize>;
    let err;
    if c.t.chance(1, 4) {
        // more inputs
        let extra: Vec<Type> = (0..c.t.range(0, 3)).map(|_| c.t.pick(&[hugr::extension::prelude::bool_t(), hugr::extension::prelude::usize_t(), Type::UNIT, hugr::extension::prelude::qb_t()]).clone()).collect();
        let legal = extra.iter().all(|t| t.least_upper_bound() == TypeBound::Copyable);
        c.note(|| format!("extend by {extra:?}"));
        let r = guard("extend_inputs", || {
            if dfg {
                RootChecked::<_, DfgID>::try_new(&mut h).map_err(|e| e.to_string()).and_then(|mut r| r.extend_inputs(&extra).map_err(|e| e.to_string()))
            } else {
                RootChecked::<_, DataflowParentID>::try_new(&mut h).map_err(|e| e.to_string()).and_then(|mut r| r.extend_inputs(&extra).map_err(|e| e.to_string()))
            }
        })?;
        same!(r.is_ok(), legal, "extend-verdict", "extend_inputs by {extra:?}");
        err = r.is_err();
        want.extend((0..ins.len()).map(Some));
        want.extend(extra.iter().map(|_| None));
        wanto = (0..outs.len()).collect();
        new_in = ins.iter().cloned().chain(extra.iter().cloned()).collect::<Vec<_>>();
        new_out = outs.clone();
        c.label("extended");
    } else {
        let mut im: Vec<usize> = (0..ins.len()).collect();
        if c.t.chance(3, 4) {
            c.t.shuffle(&mut im);
        }
        if c.t.flag() {
            im.retain(|i| used(&h, *i) || !ins[*i].copyable() || c.t.flag());
        }
        match c.t.below(8) {
            0 if !im.is_empty() => {
                let k = c.t.below(im.len());
                im.remove(k);
            }
            1 if !im.is_empty() => {
                let k = *c.t.pick(&im);
                im.push(k);
            }
            2 => im.push(ins.len() + c.t.below(2) as usize),
            _ => {}
        }
        let mut om: Vec<usize> = (0..outs.len()).filter(|i| !outs[*i].copyable() || c.t.chance(3, 4)).collect();
        for i in 0..outs.len() {
            if outs[i].copyable() && c.t.chance(1, 4) {
                om.push(i);
            }
        }
        if c.t.chance(3, 4) {
            c.t.shuffle(&mut om);
        }
        match c.t.below(8) {
            0 if !om.is_empty() => {
                let k = c.t.below(om.len());
                om.remove(k);
            }
            1 if !om.is_empty() => {
                let k = *c.t.pick(&om);
                om.push(k);
            }
            2 => om.push(outs.len()),
            _ => {}
        }
        c.note(|| format!("inputs {im:?}, outputs {om:?}"));
        let bad = im.iter().any(|i| *i >= ins.len())
            || im.iter().collect::<BTreeSet<_>>().len() < im.len()
            || (0..ins.len()).any(|i| (used(&h, i) || !ins[i].copyable()) && !im.contains(&i))
            || om.iter().any(|i| *i >= outs.len())
            || (0..outs.len()).any(|i| !outs[i].copyable() && om.iter().filter(|x| **x == i).count() != 1);
        let r = guard("map_function_type", || {
            if dfg {
                RootChecked::<_, DfgID>::try_new(&mut h).map_err(|e| e.to_string()).and_then(|mut r| r.map_function_type(&im, &om).map_err(|e| e.to_string()))
            } else {
                RootChecked::<_, DataflowParentID>::try_new(&mut h).map_err(|e| e.to_string()).and_then(|mut r| r.map_function_type(&im, &om).map_err(|e| e.to_string()))
            }
        })?;
        if r.is_ok() == bad {
            return fail("map-verdict", format!("inputs {im:?} outputs {om:?} of {ins:?} -> {outs:?}: {r:?}\n{}", canon::show(&before)));
        }
        err = r.is_err();
        if err {
            new_in = vec![];
            new_out = vec![];
            wanto = vec![];
        } else {
            new_in = im.iter().map(|i| ins[*i].clone()).collect();
            new_out = om.iter().map(|i| outs[*i].clone()).collect();
            want.extend(im.iter().map(|i| Some(*i)));
            wanto = om;
        }
        c.label(if err { "map rejected" } else { "map applied" });
    }
    after = h;
    if err {
        same!(canon::show(&after), canon::show(&before), "rejected-changed", "a rejected change");
        return Ok(());
    }
    // signatures, all the way out
    let texts = |v: &[Type]| v.iter().map(canon::ty).collect::<Vec<_>>();
    let mut n = e;
    loop {
        let (i, o) = refval::region(after.get_optype(n)).unwrap();
        same!((texts(&i), texts(&o)), (texts(&new_in), texts(&new_out)), "new-signature", "signature of {n}");
        if n == f {
            break;
        }
        n = after.get_parent(n).unwrap();
    }
    let OpType::FuncDefn(fa) = after.get_optype(f) else { return fail("function-lost", "") };
    same!(fa.signature().params().iter().map(canon::term).collect::<Vec<_>>(), fd.signature().params().iter().map(canon::term).collect::<Vec<_>>(), "type-params", "type parameters of the function");
    same!(fa.func_name(), fd.func_name(), "function-name", "name");
    pass::valid(&after, "the result")?;
    // links: model
    let model = links_model(&before, e, inp, out, &want, &wanto, f, ins.len(), new_in.len(), new_out.len());
    let got = links_of(&after);
    if model != got {
        let miss: Vec<_> = model.difference(&got).collect();
        let more: Vec<_> = got.difference(&model).collect();
        return fail("links", format!("missing {miss:?}, unexpected {more:?} (inputs {want:?}, outputs {wanto:?})\nbefore {}\nafter {}", canon::show(&before), canon::show(&after)));
    }
    // runs
    let prog = Prog::new(&after);
    for r in &runs {
        let Ok(old) = &r.out.res else { continue };
        let mut args = vec![];
        for (k, w) in want.iter().enumerate() {
            match w {
                Some(i) => args.push(r.args[*i].clone()),
                None => args.push(interp::value_from_hash(&interp::ty(&new_in[k], &[]), 7).unwrap()),
            }
        }
        let o: Outcome = interp::run_prog(&prog, prog.ix(f), &args, pass::FUEL * 5);
        let Ok(new) = &o.res else { return fail("behaviour", format!("{:?}", o.res)) };
        let w: Vec<_> = wanto.iter().map(|i| old[*i].clone()).collect();
        ensure!(*new == w, "behaviour", "gave {old:?}, now {new:?}, want {w:?}");
        c.label("compared by execution");
    }
    let id = want.iter().enumerate().all(|(i, x)| *x == Some(i)) && want.len() == ins.len() && wanto.iter().enumerate().all(|(i, x)| *x == i) && wanto.len() == outs.len();
    if !id {
        c.nontrivial(canon::graph_hash(&before));
    }
    Ok(())
}
type Link = (Node, String, Node, String);
fn pname(h: &Hugr, n: Node, p: Port) -> String {
    match h.get_optype(n).port_kind(p) {
        Some(EdgeKind::StateOrder) => "order".into(),
        _ => p.index().to_string(),
    }
}
fn links_of(h: &Hugr) -> BTreeSet<Link> {
    let mut s = BTreeSet::new();
    for n in h.nodes() {
        for p in h.node_outputs(n) {
            for (m, q) in h.linked_inputs(n, p) {
                s.insert((n, pname(h, n, p.into()), m, pname(h, m, q.into())));
            }
        }
    }
    s
}
#[allow(clippy::too_many_arguments)]
fn links_model(h: &Hugr, e: Node, inp: Node, out: Node, im: &[Option<usize>], om: &[usize], f: Node, _old: usize, ni: usize, no: usize) -> BTreeSet<Link> {
    let mut s = BTreeSet::new();
    // regions around the innermost one, and what passes through them
    let mut chain = vec![];
    let mut n = e;
    while n != f {
        let p = h.get_parent(n).unwrap();
        chain.push((n, h.get_io(p).unwrap()));
        n = p;
    }
    let pass: BTreeSet<(Node, Node)> = chain.iter().flat_map(|(d, [i, o])| [(*i, *d), (*d, *o)]).collect();
    for (a, p, b, q) in links_of(h) {
        if p != "order" && pass.contains(&(a, b)) {
            continue;
        }
        let ps: Vec<String> = if a == inp && p != "order" {
            let x: usize = p.parse().unwrap();
            im.iter().enumerate().filter(|(_, w)| **w == Some(x)).map(|(i, _)| i.to_string()).collect()
        } else {
            vec![p]
        };
        let qs: Vec<String> = if b == out && q != "order" {
            let x: usize = q.parse().unwrap();
            om.iter().enumerate().filter(|(_, w)| **w == x).map(|(i, _)| i.to_string()).collect()
        } else {
            vec![q]
        };
        for p in &ps {
            for q in &qs {
                s.insert((a, p.clone(), b, q.clone()));
            }
        }
    }
    for (d, [i, o]) in chain {
        for x in 0..ni {
            s.insert((i, x.to_string(), d, x.to_string()));
        }
        for x in 0..no {
            s.insert((d, x.to_string(), o, x.to_string()));
        }
    }
    s
}
