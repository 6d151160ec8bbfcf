//! C06: the builders.
use super::pass;
use crate::canon::{self, CmpOpts};
use crate::engine::*;
use crate::ext;
use crate::gen_::Profile;
use crate::refval::{self, Kind};
use hugr::builder::*;
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::handle::{AliasID, BasicBlockID, ConstID, FuncID, NodeHandle};
use hugr::ops::{OpTag, OpTrait, OpType};
use hugr::types::{PolyFuncType, Signature, Type, TypeRow};
use hugr::{CircuitUnit, Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex, Wire};
use hugr_core::hugr::internal::HugrMutInternals;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        rule: "generated programs are built again through the builders (modules, functions, blocks, cases, loops, in any order of definition), with at most one wire taken from elsewhere; non-trivial: at least eight builder calls were made, or a wire was changed",
        assumptions: &["wires given to a builder come from nodes that are already there"],
        subs: vec![
            Sub { name: "module", quick: 12_000, thorough: 1_500_000, f: module },
            Sub { name: "wrong", quick: 25_000, thorough: 3_000_000, f: wrong },
            Sub { name: "grow", quick: 6_000, thorough: 800_000, f: grow },
            Sub { name: "roots", quick: 6_000, thorough: 800_000, f: roots },
            Sub { name: "circuit", quick: 8_000, thorough: 800_000, f: circuit },
        ],
        findings: vec![],
    }
}
fn profile(c: &mut Ctx) -> Profile {
    let mut p = pass::profile(&mut c.t, 20);
    p.decls = c.t.flag();
    p.linear = c.t.chance(3, 4);
    p.cond = c.t.chance(3, 4);
    p.nested = c.t.chance(3, 4);
    p.loops = c.t.flag();
    p.cfg = c.t.chance(2, 3);
    p.cfg_heavy = p.cfg && c.t.chance(1, 3);
    p.poly = c.t.flag();
    p.order = c.t.flag();
    p.indirect = c.t.flag();
    p.fn_consts = c.t.chance(1, 4);
    p.aliases = c.t.chance(1, 4);
    p.metadata = c.t.flag();
    p.odd_names = c.t.chance(1, 4);
    p.collections = c.t.flag();
    p.strings = c.t.chance(1, 4);
    p
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum Fault {
    No,
    /// another source at the input with this number
    Source(usize),
    Extra(usize),
    Missing(usize),
    /// a conditional without one of its cases
    Case(usize),
}
struct Re<'a> {
    c: &'a mut Ctx,
    /// what the result should be
    e: Hugr,
    map: HashMap<Node, Node>,
    fault: Fault,
    /// a wire went wrong, or is missing, in a way that does not show in `e`
    bad: bool,
    count: usize,
    cases: usize,
    calls: usize,
    changed: bool,
    grow: bool,
    probe: Option<String>,
}
enum No {
    /// `e` cannot be built in the order of its nodes
    Order(u32),
    Err(BuildError),
}
impl From<BuildError> for No {
    fn from(e: BuildError) -> No {
        No::Err(e)
    }
}
type Res<T> = Result<T, No>;

fn value_outs(h: &Hugr, n: Node) -> Vec<(OutgoingPort, String)> {
    let k = refval::ports(h.get_optype(n)).map(|p| p.1).unwrap_or_default();
    k.into_iter().enumerate().filter_map(|(i, k)| if let Kind::Val(t, _) = k { Some((i.into(), t)) } else { None }).collect()
}
fn order_out(h: &Hugr, n: Node) -> Option<OutgoingPort> {
    let k = refval::ports(h.get_optype(n))?.1;
    k.iter().position(|k| matches!(k, Kind::Order)).map(OutgoingPort::from)
}
fn order_in(h: &Hugr, n: Node) -> Option<IncomingPort> {
    let k = refval::ports(h.get_optype(n))?.0;
    k.iter().position(|k| matches!(k, Kind::Order)).map(IncomingPort::from)
}

impl Re<'_> {
    fn forget(&mut self, n: Node) {
        let v: Vec<Node> = self.e.descendants(n).collect();
        for m in v {
            self.map.remove(&m);
        }
    }
    /// Inputs of `n` that take values: the wires as built so far.
    fn wires(&mut self, n: Node) -> Res<Vec<Wire>> {
        self.calls += 1;
        let kinds = refval::ports(self.e.get_optype(n)).map(|p| p.0).unwrap_or_default();
        let mut v = vec![];
        for (i, k) in kinds.iter().enumerate() {
            let Kind::Val(want, _) = k else { continue };
            let p = IncomingPort::from(i);
            let k = self.count;
            self.count += 1;
            if self.fault == Fault::Source(k) {
                self.swap(n, p, want);
            }
            let (s, o) = self.e.single_linked_output(n, p).ok_or(No::Order(line!()))?;
            let b = *self.map.get(&s).ok_or(No::Order(line!()))?;
            v.push(Wire::new(b, o));
            if self.fault == Fault::Missing(k) {
                v.pop();
                self.bad = true;
                break;
            }
        }
        if matches!(self.fault, Fault::Extra(k) if k < self.count) && !self.bad {
            let m = 1 + self.c.t.below(2);
            for _ in 0..m {
                if let Some((s, o)) = self.source(None) {
                    v.push(Wire::new(self.map[&s], o));
                    self.bad = true;
                }
            }
            // (now done)
            self.changed = self.bad;
        }
        self.changed |= self.bad;
        Ok(v)
    }
    /// Some value that is already there.
    fn source(&mut self, want: Option<&str>) -> Option<(Node, OutgoingPort)> {
        let mut all = vec![];
        for n in self.map.keys() {
            for (o, t) in value_outs(&self.e, *n) {
                if want.is_none_or(|w| w == t) {
                    all.push((*n, o));
                }
            }
        }
        all.sort();
        if all.is_empty() { None } else { Some(*self.c.t.pick(&all)) }
    }
    fn swap(&mut self, n: Node, p: IncomingPort, want: &str) {
        let same = self.c.t.chance(3, 4);
        let Some((s, o)) = self.source(same.then_some(want)) else { return };
        if self.e.single_linked_output(n, p) == Some((s, o)) {
            return;
        }
        self.changed = true;
        self.e.disconnect(n, p);
        self.e.connect(s, o, n, p);
        if self.e.get_parent(s) != self.e.get_parent(n) {
            // the order edge builders add by themselves
            let r = self.e.get_parent(s);
            let mut a = n;
            while let Some(q) = self.e.get_parent(a) {
                if Some(q) == r {
                    let cf = OpTag::ControlFlowChild.is_superset(self.e.get_optype(a).tag());
                    if let (Some(x), Some(y), false) = (order_out(&self.e, s), order_in(&self.e, a), cf) {
                        if !self.e.linked_inputs(s, x).any(|l| l == (a, y)) {
                            self.e.connect(s, x, a, y);
                        }
                    }
                    break;
                }
                a = q;
            }
        }
        let e = &self.e;
        let text = format!("input {p} of {n} takes {s}.{o}");
        let _ = e;
        self.c.note(|| text);
    }
    fn static_source(&self, n: Node) -> Res<Node> {
        let s = self.e.static_source(n).ok_or(No::Order(line!()))?;
        self.map.get(&s).copied().ok_or(No::Order(line!()))
    }
    fn metadata<B: Container>(&mut self, b: &mut B, n: Node, own: bool) {
        let at = self.map[&n];
        for (k, v) in canon::metadata(&self.e, n) {
            if own && at == b.container_node() && self.c.t.flag() {
                b.set_metadata(k, v);
            } else {
                b.set_child_metadata(at, k, v);
            }
        }
    }

    /// Builds the children of `r`; gives the wires of the output node.
    fn body<B: Dataflow>(&mut self, b: &mut B, r: Node) -> Res<Vec<Wire>> {
        let kids: Vec<Node> = self.e.children(r).collect();
        let [i, o] = b.io();
        self.map.insert(r, b.container_node());
        self.map.insert(kids[0], i);
        self.metadata(b, r, true);
        for n in kids.iter().skip(2) {
            let at = self.node(b, *n)?;
            self.map.insert(*n, at);
            self.metadata(b, *n, false);
        }
        let w = self.wires(kids[1])?;
        self.map.insert(kids[1], o);
        self.metadata(b, kids[0], false);
        self.metadata(b, kids[1], false);
        self.orders(b, &kids);
        Ok(w)
    }
    fn orders<B: Dataflow>(&mut self, b: &mut B, kids: &[Node]) {
        for n in kids {
            let Some(p) = order_out(&self.e, *n) else { continue };
            let mut to: Vec<Node> = self.e.linked_inputs(*n, p).map(|l| l.0).collect();
            to.dedup();
            for t in to {
                let (x, y) = (self.map[n], self.map[&t]);
                // (those of nonlocal wires are there)
                let there = b.hugr().output_neighbours(x).any(|z| z == y)
                    && b.hugr()
                        .node_connections(x, y)
                        .any(|l| b.hugr().get_optype(x).other_output_port().is_some_and(|q| l[0].index() == q.index() && l[0].direction() == Direction::Outgoing));
                if !there {
                    b.set_order(&FuncID::<true>::from(x), &FuncID::<true>::from(y));
                }
            }
        }
    }
    fn node<B: Dataflow>(&mut self, b: &mut B, n: Node) -> Res<Node> {
        let op = self.e.get_optype(n).clone();
        let changed = self.changed;
        Ok(match &op {
            OpType::Const(k) => b.add_constant(k.clone()).node(),
            OpType::LoadConstant(_) => {
                self.calls += 1;
                let s = self.static_source(n)?;
                b.load_const(&ConstID::from(s)).node()
            }
            OpType::LoadFunction(l) => {
                self.calls += 1;
                let s = self.static_source(n)?;
                match b.hugr().get_optype(s) {
                    OpType::FuncDefn(_) => b.load_func(&FuncID::<true>::from(s), &l.type_args)?.node(),
                    _ => b.load_func(&FuncID::<false>::from(s), &l.type_args)?.node(),
                }
            }
            OpType::Call(l) => {
                let s = self.static_source(n)?;
                let w = self.wires(n)?;
                match b.hugr().get_optype(s) {
                    OpType::FuncDefn(_) => b.call(&FuncID::<true>::from(s), &l.type_args, w)?.node(),
                    _ => b.call(&FuncID::<false>::from(s), &l.type_args, w)?.node(),
                }
            }
            OpType::DFG(d) => {
                let w = self.wires(n)?;
                if self.grow && self.c.t.flag() {
                    return self.dfg_later(b, n, &d.signature, w);
                }
                let endo = d.signature.input() == d.signature.output() && self.c.t.flag();
                let mut x = if endo && w.len() == d.signature.input().len() {
                    b.dfg_builder_endo(d.signature.input().iter().cloned().zip(w))?
                } else {
                    b.dfg_builder(d.signature.clone(), w)?
                };
                let at = x.container_node();
                let w = self.body(&mut x, n)?;
                let hd = x.finish_with_outputs(w)?;
                self.handle(&n, hd.node(), hd.outputs());
                at
            }
            OpType::TailLoop(l) => {
                let w = self.wires(n)?;
                let tys: Vec<Type> = l.just_inputs.iter().chain(l.rest.iter()).cloned().collect();
                if w.len() != tys.len() {
                    // (wires come with their types)
                    return Err(No::Order(line!()));
                }
                let mut v = tys.into_iter().zip(w);
                let just: Vec<_> = v.by_ref().take(l.just_inputs.len()).collect();
                let mut x = b.tail_loop_builder(just, v, l.just_outputs.clone())?;
                let at = x.container_node();
                if x.loop_signature()? != l || x.internal_output_row()? != TypeRow::from(refval::region(&op).unwrap().1) {
                    self.probe = Some(format!("loop_signature: {:?}", x.loop_signature()));
                }
                let w = self.body(&mut x, n)?;
                if w.is_empty() {
                    return Err(No::Order(line!()));
                }
                let hd = x.finish_with_outputs(w[0], w[1..].iter().copied())?;
                self.handle(&n, hd.node(), hd.outputs());
                at
            }
            OpType::Conditional(k) => {
                let w = self.wires(n)?;
                if w.len() != 1 + k.other_inputs.len() {
                    return Err(No::Order(line!()));
                }
                let other: Vec<_> = k.other_inputs.iter().cloned().zip(w[1..].iter().copied()).collect();
                let mut x = b.conditional_builder((k.sum_rows.clone(), w[0]), other, k.outputs.clone())?;
                let at = x.container_node();
                self.cases(&mut x, n)?;
                let hd = x.finish_sub_container()?;
                self.handle(&n, hd.node(), hd.outputs());
                at
            }
            OpType::CFG(k) => {
                let w = self.wires(n)?;
                if w.len() != k.signature.input().len() {
                    return Err(No::Order(line!()));
                }
                let mut x = b.cfg_builder(k.signature.input().iter().cloned().zip(w), k.signature.output().clone())?;
                let at = x.container_node();
                self.blocks(&mut x, n)?;
                let hd = x.finish_sub_container()?;
                self.handle(&n, hd.node(), hd.outputs());
                at
            }
            OpType::Tag(t) => {
                let w = self.wires(n)?;
                if self.c.t.flag() {
                    b.make_sum(t.tag, t.variants.clone(), w)?.node()
                } else {
                    b.add_dataflow_op(op, w)?.node()
                }
            }
            OpType::ExtensionOp(x) => {
                let w = self.wires(n)?;
                let name = x.def().name().to_string();
                // (its signature is taken from the wires)
                if changed == self.changed && name == "MakeTuple" && self.c.t.flag() {
                    b.make_tuple(w)?.node()
                } else if changed == self.changed && name == "Barrier" && self.c.t.flag() {
                    b.add_barrier(w)?.node()
                } else {
                    b.add_dataflow_op(op, w)?.node()
                }
            }
            _ => {
                let w = self.wires(n)?;
                b.add_dataflow_op(op, w)?.node()
            }
        })
    }
    fn handle(&mut self, n: &Node, at: Node, outs: handle::Outputs) {
        let want: Vec<Wire> = value_outs(&self.e, *n).into_iter().map(|(o, _)| Wire::new(at, o)).collect();
        let got: Vec<Wire> = outs.collect();
        if want != got {
            self.probe = Some(format!("the handle of {n} has outputs {got:?}, expected {want:?}"));
        }
    }
    fn cases<T: AsMut<Hugr> + AsRef<Hugr>>(&mut self, x: &mut ConditionalBuilder<T>, n: Node) -> Res<()> {
        self.map.insert(n, x.container_node());
        let kids: Vec<Node> = self.e.children(n).collect();
        let mut order: Vec<usize> = (0..kids.len()).collect();
        if self.c.t.flag() {
            self.c.t.shuffle(&mut order);
        }
        for (j, i) in order.iter().enumerate() {
            self.cases += 1;
            if self.fault == Fault::Case(self.cases - 1) {
                self.changed = true;
                self.bad = true;
                continue;
            }
            let mut b = x.case_builder(*i)?;
            let w = self.body(&mut b, kids[*i])?;
            b.finish_with_outputs(w)?;
            if self.c.t.chance(1, 8) {
                // neither changes anything
                let again = order[self.c.t.below(j + 1)];
                if !(self.bad && matches!(self.fault, Fault::Case(_))) && x.case_builder(again).is_ok() {
                    self.probe = Some(format!("case {again} could be built twice"));
                }
                let far = kids.len() + self.c.t.below(3);
                if x.case_builder(far).is_ok() {
                    self.probe = Some(format!("case {far} of {} could be built", kids.len()));
                }
            }
        }
        Ok(())
    }
    fn blocks<T: AsMut<Hugr> + AsRef<Hugr>>(&mut self, x: &mut CFGBuilder<T>, n: Node) -> Res<()> {
        self.map.insert(n, x.container_node());
        let kids: Vec<Node> = self.e.children(n).collect();
        let exit = x.exit_block();
        self.map.insert(kids[1], exit.node());
        // the entry need not come first, and takes its place all the same
        let mut order: Vec<Node> = kids.iter().copied().filter(|k| *k != kids[1]).collect();
        let mut late = 0;
        if self.c.t.chance(1, 3) {
            late = self.c.t.below(order.len());
            let e = order.remove(0);
            order.insert(late, e);
        }
        let mut done: Vec<Node> = vec![];
        for k in order {
            match self.e.get_optype(k).clone() {
                OpType::DataflowBlock(d) => {
                    let simple = d.sum_rows.iter().all(|r| r.is_empty()) && self.c.t.flag();
                    let nc = d.sum_rows.len();
                    let grow = self.grow && self.c.t.flag() && k != kids[0];
                    let (gi, go) = if grow { (self.c.t.below(d.inputs.len() + 1), self.c.t.below(d.other_outputs.len() + 1)) } else { (d.inputs.len(), d.other_outputs.len()) };
                    let row = |r: &TypeRow, m: usize| TypeRow::from(r.iter().take(m).cloned().collect::<Vec<_>>());
                    let (inp, out) = (row(&d.inputs, gi), row(&d.other_outputs, go));
                    let mut b = match (k == kids[0], simple) {
                        (true, true) => x.simple_entry_builder(out, nc)?,
                        (true, false) => x.entry_builder(d.sum_rows.clone(), out)?,
                        (false, true) => x.simple_block_builder(Signature::new(inp, out), nc)?,
                        (false, false) => x.block_builder(inp, d.sum_rows.clone(), out)?,
                    };
                    let at = b.container_node();
                    for t in d.inputs.iter().skip(gi) {
                        b.add_input(t.clone()).map_err(|_| No::Order(line!()))?;
                    }
                    let w = self.body(&mut b, k)?;
                    for t in d.other_outputs.iter().skip(go) {
                        b.add_output(t.clone()).map_err(|_| No::Order(line!()))?;
                    }
                    let id: BasicBlockID = if w.is_empty() { b.finish_sub_container()? } else { b.finish_with_outputs(w[0], w[1..].iter().copied())? };
                    if id.node() != at {
                        self.probe = Some("block handle".into());
                    }
                }
                OpType::Const(v) => {
                    let at = x.add_constant(v).node();
                    self.map.insert(k, at);
                    self.metadata(x, k, false);
                }
                _ => return Err(No::Order(line!())),
            }
            done.push(k);
            if k == kids[0] && self.c.t.chance(1, 8) && x.simple_entry_builder(TypeRow::new(), 1).is_ok() {
                self.probe = Some("the entry could be built twice".into());
            }
            if late == 0 && self.c.t.flag() {
                self.branches(x, &done)?;
            }
        }
        self.branches(x, &done)?;
        self.metadata(x, n, true);
        self.metadata(x, kids[1], false);
        Ok(())
    }
    fn branches<T: AsMut<Hugr> + AsRef<Hugr>>(&mut self, x: &mut CFGBuilder<T>, done: &[Node]) -> Res<()> {
        for k in done {
            let OpType::DataflowBlock(d) = self.e.get_optype(*k).clone() else { continue };
            for i in 0..d.sum_rows.len() {
                let at = self.map[k];
                if x.hugr().single_linked_input(at, i).is_some() {
                    continue;
                }
                let Some((t, _)) = self.e.single_linked_input(*k, i) else { return Err(No::Order(line!())) };
                if let Some(to) = self.map.get(&t) {
                    x.branch(&BasicBlockID::from(at), i, &BasicBlockID::from(*to))?;
                }
            }
        }
        Ok(())
    }
    /// A nested region whose signature grows as it is built.
    fn dfg_later<B: Dataflow>(&mut self, b: &mut B, n: Node, s: &Signature, w: Vec<Wire>) -> Res<Node> {
        let (gi, go) = (self.c.t.below(s.input().len() + 1), self.c.t.below(s.output().len() + 1));
        let row = |r: &TypeRow, m: usize| r.iter().take(m).cloned().collect::<Vec<_>>();
        let (inp, out) = (row(s.input(), gi), row(s.output(), go));
        if w.len() != s.input().len() {
            return Err(No::Order(line!()));
        }
        let mut x = b.dfg_builder(Signature::new(inp, out), w[..gi].iter().copied())?;
        let at = x.container_node();
        for t in s.input().iter().skip(gi) {
            let wire = x.add_input(t.clone()).map_err(|_| No::Order(line!()))?;
            if x.input_wires().last() != Some(wire) {
                self.probe = Some("add_input gives another wire".into());
            }
        }
        let ws = self.body(&mut x, n)?;
        for t in s.output().iter().skip(go) {
            x.add_output(t.clone()).map_err(|_| No::Order(line!()))?;
        }
        let hd = x.finish_with_outputs(ws)?;
        self.handle(&n, hd.node(), hd.outputs());
        for (i, w) in w.iter().enumerate().skip(gi) {
            b.hugr_mut().connect(w.node(), w.source(), at, i);
        }
        Ok(at)
    }
    fn function(&mut self, b: &mut FunctionBuilder<&mut Hugr>, n: Node, gi: usize, go: usize) -> Res<()> {
        let OpType::FuncDefn(f) = self.e.get_optype(n).clone() else { return Err(No::Order(line!())) };
        let s = f.signature().body();
        for t in s.input().iter().skip(gi) {
            b.add_input(t.clone()).map_err(|_| No::Order(line!()))?;
        }
        // (calls of the function itself need its signature)
        let early = self.e.all_linked_inputs(n).next().is_some() || self.c.t.flag();
        let more: Vec<Type> = s.output().iter().skip(go).cloned().collect();
        if early {
            for t in &more {
                b.add_output(t.clone()).map_err(|_| No::Order(line!()))?;
            }
        }
        let w = self.body(b, n)?;
        if !early {
            for t in &more {
                b.add_output(t.clone()).map_err(|_| No::Order(line!()))?;
            }
        }
        b.set_outputs(w)?;
        Ok(())
    }
    fn module<T: AsMut<Hugr> + AsRef<Hugr>>(&mut self, m: &mut ModuleBuilder<T>, skip: Option<Node>) -> Res<()> {
        let root = self.e.module_root();
        self.map.insert(root, m.container_node());
        let mut later: Vec<Node> = vec![];
        for n in self.e.children(root).collect::<Vec<_>>() {
            self.calls += 1;
            if Some(n) == skip {
                continue;
            }
            match self.e.get_optype(n).clone() {
                OpType::FuncDecl(d) => {
                    let id = if *d.visibility() == hugr_core::Visibility::Public && self.c.t.flag() {
                        m.declare(d.func_name(), d.signature().clone())?
                    } else {
                        m.declare_vis(d.func_name(), d.signature().clone(), d.visibility().clone())?
                    };
                    self.map.insert(n, id.node());
                }
                OpType::FuncDefn(d) => {
                    // what it uses must be there
                    let used = self.e.descendants(n).any(|d| self.e.static_source(d).is_some_and(|s| s != n && self.e.get_parent(s) == Some(root) && !self.map.contains_key(&s)));
                    if used || self.c.t.flag() {
                        let id = m.declare_vis(d.func_name(), d.signature().clone(), d.visibility().clone())?;
                        self.map.insert(n, id.node());
                        later.push(n);
                    } else {
                        let s = d.signature().body();
                        let (gi, go) = if self.grow { (self.c.t.below(s.input().len() + 1), self.c.t.below(s.output().len() + 1)) } else { (s.input().len(), s.output().len()) };
                        let row = |r: &TypeRow, m: usize| r.iter().take(m).cloned().collect::<Vec<_>>();
                        let sig = PolyFuncType::new(d.signature().params().to_vec(), Signature::new(row(s.input(), gi), row(s.output(), go)));
                        let private = *d.visibility() == hugr_core::Visibility::Private;
                        if private && self.c.t.chance(1, 3) {
                            let mut b = FunctionBuilder::with_hugr(m.hugr_mut(), d.func_name(), sig)?;
                            self.map.insert(n, b.container_node());
                            self.function(&mut b, n, gi, go)?;
                            b.finish_sub_container()?;
                        } else {
                            let mut b = if private && self.c.t.flag() {
                                m.define_function(d.func_name(), sig)?
                            } else {
                                m.define_function_vis(d.func_name(), sig, d.visibility().clone())?
                            };
                            self.map.insert(n, b.container_node());
                            self.function(&mut b, n, gi, go)?;
                            b.finish_sub_container()?;
                        }
                    }
                }
                OpType::Const(k) => {
                    let id = m.add_constant(k);
                    self.map.insert(n, id.node());
                }
                OpType::AliasDecl(a) => {
                    let id = m.add_alias_declare(a.name.clone(), a.bound)?;
                    let ok: &AliasID<false> = &id;
                    self.map.insert(n, ok.node());
                }
                OpType::AliasDefn(a) => {
                    let id = m.add_alias_def(a.name.clone(), a.definition.clone())?;
                    self.map.insert(n, id.node());
                }
                _ => return Err(No::Order(line!())),
            }
            self.metadata(m, n, false);
        }
        if self.c.t.flag() {
            self.c.t.shuffle(&mut later);
        }
        for n in later {
            let at = self.map[&n];
            let mut b = m.define_declaration(&FuncID::<false>::from(at))?;
            self.function(&mut b, n, usize::MAX, usize::MAX)?;
            b.finish_sub_container()?;
            if self.c.t.chance(1, 8) && m.define_declaration(&FuncID::<false>::from(at)).is_ok() {
                self.probe = Some("a definition could be defined again".into());
            }
        }
        self.metadata(m, root, true);
        Ok(())
    }
}
/// Puts siblings in an order in which they can be built.
fn sort(h: &mut Hugr) {
    for r in h.nodes().collect::<Vec<_>>() {
        if refval::region(h.get_optype(r)).is_none() && !h.get_optype(r).is_cfg() {
            continue;
        }
        let kids: Vec<Node> = h.children(r).collect();
        let mut deps: HashMap<Node, BTreeSet<Node>> = HashMap::new();
        for k in &kids {
            let d = deps.entry(*k).or_default();
            for n in h.descendants(*k) {
                for p in h.node_inputs(n) {
                    if !matches!(refval::ports(h.get_optype(n)).and_then(|x| x.0.get(p.index()).cloned()), Some(Kind::Val(..) | Kind::Const(_) | Kind::Func(_))) {
                        continue;
                    }
                    for (mut s, _) in h.linked_outputs(n, p) {
                        while let Some(q) = h.get_parent(s) {
                            if q == r {
                                break;
                            }
                            s = q;
                        }
                        if s != *k && h.get_parent(s) == Some(r) {
                            d.insert(s);
                        }
                    }
                }
            }
        }
        let mut done: BTreeSet<Node> = kids[..2].iter().copied().collect();
        let mut last = kids[1];
        let mut rest: Vec<Node> = kids[2..].to_vec();
        while let Some(i) = rest.iter().position(|n| deps[n].is_subset(&done)) {
            let n = rest.remove(i);
            done.insert(n);
            h.move_after_sibling(n, last);
            last = n;
        }
    }
}

/// Merges parallel order edges.
fn merged(mut h: Hugr) -> Hugr {
    for n in h.nodes().collect::<Vec<_>>() {
        let Some(p) = order_out(&h, n) else { continue };
        let l: Vec<_> = h.linked_inputs(n, p).collect();
        let s: BTreeSet<_> = l.iter().copied().collect();
        if l.len() != s.len() {
            h.disconnect(n, p);
            for (m, q) in s {
                h.connect(n, p, m, q);
            }
        }
    }
    h
}
fn opts() -> CmpOpts {
    CmpOpts { entrypoint: false, ..CmpOpts::default() }
}

fn rebuild(c: &mut Ctx, p: Profile, fault: bool, grow: bool) -> R {
    let mut g = pass::gen_program(c, &p);
    let root = g.hugr.module_root();
    g.hugr.set_entrypoint(root);
    sort(&mut g.hugr);
    let total: usize = g.hugr.nodes().map(|n| refval::ports(g.hugr.get_optype(n)).map_or(0, |p| p.0.iter().filter(|k| matches!(k, Kind::Val(..))).count())).sum();
    let cases = g.hugr.nodes().filter(|n| matches!(g.hugr.get_optype(*n), OpType::Case(_))).count();
    let f = if !fault || total == 0 {
        Fault::No
    } else {
        match c.t.weighted(&[12, 1, 1, if cases > 0 { 1 } else { 0 }]) {
            0 => Fault::Source(c.t.below(total)),
            1 => Fault::Extra(c.t.below(total)),
            2 => Fault::Missing(c.t.below(total)),
            _ => Fault::Case(c.t.below(cases)),
        }
    };
    c.note(|| format!("{f:?} grow {grow}"));
    let mut re = Re { c, e: g.hugr, map: HashMap::new(), fault: f, bad: false, count: 0, cases: 0, calls: 0, changed: false, grow, probe: None };
    let r = no_panic(|| {
        let mut m = ModuleBuilder::new();
        re.module(&mut m, None)?;
        m.finish_hugr().map_err(|e| No::Err(BuildError::InvalidHUGR(e)))
    });
    let Re { e, bad, calls, changed, probe, .. } = re;
    judge(c, r, e, bad, calls, changed, probe, f)
}
#[allow(clippy::too_many_arguments)]
fn judge(c: &mut Ctx, r: Result<Result<Hugr, No>, (String, String)>, e: Hugr, bad: bool, calls: usize, changed: bool, probe: Option<String>, f: Fault) -> R {
    let key = format!("{changed} {}", canon::graph_text(&e));
    let r = match r {
        Err((m, at)) => return fail(format!("panic {at}"), format!("{m} {f:?}")),
        Ok(r) => r,
    };
    if let Err(No::Order(_l)) = r {
       
        c.label("order");
        return Ok(());
    }
    if let Some(p) = probe {
        return fail("probe", p);
    }
    c.label_if(changed, "changed");
    let want = if bad { Some(Err("a missing or a surplus wire or case".into())) } else { refval::verdict(&e) };
    match (want, r) {
        (None, _) => {
            c.label("open");
            return Ok(());
        }
        (Some(Err(_)), Err(No::Err(x))) => {
            c.label(match x {
                BuildError::InvalidHUGR(_) => "invalid",
                BuildError::OutputWiring { .. } | BuildError::OperationWiring { .. } => "wiring",
                _ => "other-error",
            });
        }
        (Some(Err(e)), Ok(h)) => return fail("accepts", format!("{e} {f:?}\n{}", canon::show(&h))),
        (Some(Ok(())), Err(No::Err(x))) => return fail("refuses", format!("{x} {f:?}\n{}", canon::show(&e))),
        (Some(Ok(())), Ok(h)) => {
            c.label("built");
            if let Some(d) = canon::diff(&merged(e), &merged(h), &opts()) {
                return fail("differs", d);
            }
        }
        _ => {}
    }
    if changed || calls >= 8 {
        c.nontrivial(hash_str(&key));
        c.sample(|| format!("{f:?}"));
    }
    Ok(())
}
fn module(c: &mut Ctx) -> R {
    let p = profile(c);
    rebuild(c, p, false, false)
}
fn wrong(c: &mut Ctx) -> R {
    let p = profile(c);
    rebuild(c, p, true, false)
}
fn grow(c: &mut Ctx) -> R {
    let p = profile(c);
    let f = c.t.chance(1, 4);
    rebuild(c, p, f, true)
}

/// Regions that need nothing around them but functions.
fn alone(h: &Hugr, n: Node) -> bool {
    let inside: BTreeSet<Node> = h.descendants(n).collect();
    inside.iter().filter(|m| **m != n).all(|m| {
        h.node_inputs(*m).all(|p| {
            h.linked_outputs(*m, p).all(|(s, _)| inside.contains(&s) || h.get_parent(s) == Some(h.module_root()))
        })
    })
}
fn roots(c: &mut Ctx) -> R {
    let mut p = profile(c);
    p.poly = false;
    let mut g = pass::gen_program(c, &p);
    let root = g.hugr.module_root();
    g.hugr.set_entrypoint(root);
    sort(&mut g.hugr);
    let e = g.hugr;
    let v: Vec<Node> = e
        .nodes()
        .filter(|n| refval::region(e.get_optype(*n)).is_some() || matches!(e.get_optype(*n), OpType::CFG(_) | OpType::Conditional(_)))
        .filter(|n| alone(&e, *n))
        .collect();
    if v.is_empty() {
        return Ok(());
    }
    // any kind of region is as likely
    let kinds: BTreeMap<u8, Vec<Node>> = v.iter().fold(BTreeMap::new(), |mut m, n| {
        m.entry(kind(e.get_optype(*n))).or_insert_with(Vec::new).push(*n);
        m
    });
    let ks: Vec<u8> = kinds.keys().copied().collect();
    let k = *c.t.pick(&ks);
    let n = *c.t.pick(&kinds[&k]);
    let op = e.get_optype(n).clone();
    c.note(|| format!("root {n} {}", canon::op(&op, false)));
    let mut re = Re { c, e, map: HashMap::new(), fault: Fault::No, bad: false, count: 0, cases: 0, calls: 0, changed: false, grow: false, probe: None };
    let r = no_panic(|| -> Res<(Hugr, Node)> {
        macro_rules! root {
            ($b:expr) => {{
                let mut b = $b;
                let at = b.container_node();
                re.module(&mut b.module_root_builder(), None)?;
                re.forget(n);
                let w = re.body(&mut b, n)?;
                (b.finish_hugr_with_outputs(w)?, at)
            }};
        }
        Ok(match &op {
            OpType::FuncDefn(f) => root!(FunctionBuilder::new_vis("the root", f.signature().clone(), f.visibility().clone())?),
            OpType::DFG(d) => root!(DFGBuilder::new(d.signature.clone())?),
            OpType::Case(d) => root!(CaseBuilder::new(d.signature.clone())?),
            OpType::TailLoop(l) => root!(TailLoopBuilder::new(l.just_inputs.clone(), l.rest.clone(), l.just_outputs.clone())?),
            OpType::DataflowBlock(d) => {
                let mut b = BlockBuilder::new(d.inputs.clone(), d.sum_rows.clone(), d.other_outputs.clone())?;
                let at = b.container_node();
                re.module(&mut b.module_root_builder(), None)?;
                re.forget(n);
                let w = re.body(&mut b, n)?;
                (b.finish_hugr_with_outputs(w[0], w[1..].iter().copied())?, at)
            }
            OpType::Conditional(d) => {
                let mut b = ConditionalBuilder::new(d.sum_rows.clone(), d.other_inputs.clone(), d.outputs.clone())?;
                let at = b.container_node();
                re.module(&mut b.module_root_builder(), None)?;
                re.forget(n);
                re.cases(&mut b, n)?;
                re.metadata(&mut b, n, true);
                (b.finish_hugr().map_err(|e| No::Err(e.into()))?, at)
            }
            OpType::CFG(d) => {
                let mut b = CFGBuilder::new(d.signature.clone())?;
                let at = b.container_node();
                re.module(&mut b.module_root_builder(), None)?;
                re.forget(n);
                re.blocks(&mut b, n)?;
                (b.finish_hugr().map_err(|e| No::Err(e.into()))?, at)
            }
            _ => unreachable!(),
        })
    });
    let Re { e, calls, probe, .. } = re;
    if let Some(p) = probe {
        return fail("probe", p);
    }
    let complex = match &op {
        OpType::DataflowBlock(d) => d.sum_rows.windows(2).any(|w| w[0] != w[1]),
        _ => false,
    };
    let (h, at) = match r {
        Err((m, at)) => return fail(format!("panic {at}"), m),
        Ok(Err(No::Order(_))) => {
            c.label("order");
            return Ok(());
        }
        Ok(Err(No::Err(BuildError::BasicBlockTooComplex))) if complex => {
            c.label("complex");
            return Ok(());
        }
        Ok(Err(No::Err(x))) => return fail("root-refuses", format!("{x}\n{}", canon::show(&e))),
        Ok(Ok(h)) => h,
    };
    ensure!(!complex, "accepts", "BlockBuilder::new takes successors with different rows");
    ensure!(h.entrypoint() == at, "root-entrypoint", "{} is not {at}", h.entrypoint());
    if let Some(Err(x)) = refval::verdict(&h) {
        return fail("accepts", x);
    }
    let (mut a, b) = (merged(e), merged(h));
    if let OpType::FuncDefn(f) = a.optype_mut(n) {
        *f.func_name_mut() = "the root".into();
    }
    let (x, y) = (canon::G::of_root(&a, n), canon::G::of_root(&b, at));
    if !x.nodes[0].outs.iter().all(|v| v.is_empty()) {
        // a block that branches to itself
        return Ok(());
    }
    if let Some(d) = canon::diff_g(&x, &y, &opts()) {
        return fail("root-differs", d);
    }
    c.label(["function", "dfg", "case", "loop", "block", "conditional", "cfg"][k as usize]);
    if calls >= 8 {
        c.nontrivial(canon::graph_hash(&b));
    }
    Ok(())
}
fn kind(o: &OpType) -> u8 {
    match o {
        OpType::FuncDefn(_) => 0,
        OpType::DFG(_) => 1,
        OpType::Case(_) => 2,
        OpType::TailLoop(_) => 3,
        OpType::DataflowBlock(_) => 4,
        OpType::Conditional(_) => 5,
        _ => 6,
    }
}

/// `CircuitBuilder` against a list of wires.
fn circuit(c: &mut Ctx) -> R {
    let pool = [ext::l_ty(), ext::t_ty(), hugr::extension::prelude::qb_t(), hugr::extension::prelude::bool_t()];
    let row = |c: &mut Ctx, m: usize| -> Vec<Type> { (0..c.t.below(m + 1)).map(|_| c.t.pick(&pool).clone()).collect() };
    let ins = row(c, 5);
    let mut b = match FunctionBuilder::new("f", Signature::new(ins.clone(), vec![])) {
        Ok(b) => b,
        Err(e) => return fail("start", e.to_string()),
    };
    let io: Vec<(Wire, Type)> = b.input_wires().zip(ins.iter().cloned()).collect();
    // untracked values
    let mut free: Vec<(Wire, Type)> = vec![];
    let mut m: Vec<Option<(Wire, Type)>> = vec![];
    for x in io {
        if c.t.chance(4, 5) { m.push(Some(x)) } else { free.push(x) }
    }
    let mut used: BTreeMap<Wire, usize> = BTreeMap::new();
    let func = b.container_node();
    let mut refused = false;
    let wires: Vec<Wire> = m.iter().map(|x| x.as_ref().unwrap().0).collect();
    let mut ops = 0;
    // (the graph, seen through a raw look at the end)
    let mut expect: Vec<(Node, Vec<Wire>)> = vec![];
    let mut log = vec![];
    let mut left: Option<Vec<Wire>> = None;
    {
        let mut k = b.as_circuit(wires);
        for _ in 0..c.t.below(10) {
            match c.t.weighted(&[8, 2, 2, 1]) {
                0 => {
                    let n = c.t.below(4);
                    let mut units = vec![];
                    let mut tys = vec![];
                    let mut src = vec![];
                    let mut oob = None;
                    for _ in 0..n {
                        if c.t.chance(3, 4) || free.is_empty() {
                            let live: Vec<usize> = (0..m.len()).filter(|i| m[*i].is_some()).collect();
                            let i = if c.t.chance(1, 20) || live.is_empty() { c.t.below(m.len() + 2) } else { *c.t.pick(&live) };
                            units.push(CircuitUnit::Linear(i));
                            match m.get(i).cloned().flatten() {
                                Some((w, t)) => {
                                    src.push(w);
                                    tys.push(t);
                                }
                                None => {
                                    oob.get_or_insert(i);
                                    tys.push(ext::t_ty());
                                }
                            }
                        } else {
                            let (w, t) = c.t.pick(&free).clone();
                            units.push(CircuitUnit::Wire(w));
                            src.push(w);
                            tys.push(t);
                        }
                    }
                    let outs: Vec<Type> = if c.t.chance(3, 4) {
                        let mut o = tys.clone();
                        o.extend(row(c, 1));
                        o
                    } else {
                        row(c, 4)
                    };
                    let op: OpType = ext::f_op("c", &tys, &outs).into();
                    log.push(format!("append {units:?} {} -> {}", tys.len(), outs.len()));
                    // linear values that are taken twice
                    let mut now = used.clone();
                    let mut copy = false;
                    for (w, t) in src.iter().zip(&tys) {
                        let e = now.entry(*w).or_default();
                        *e += 1;
                        copy |= oob.is_none() && *e > 1 && !t.copyable();
                    }
                    let short = units.iter().enumerate().any(|(i, u)| matches!(u, CircuitUnit::Linear(_)) && i >= outs.len());
                    let before = (0..m.len()).map(|i| k.tracked_wire(i)).collect::<Vec<_>>();
                    let anon = !units.iter().any(|u| u.is_linear());
                    let r = if anon {
                        k.append_with_outputs(op, units.clone()).map(Some)
                    } else if units.iter().all(|u| u.is_linear()) && c.t.chance(1, 3) {
                        let ix: Vec<usize> = units.iter().map(|u| if let CircuitUnit::Linear(i) = u { *i } else { 0 }).collect();
                        k.append(op, ix).map(|_| None)
                    } else if c.t.flag() {
                        k.append_and_consume(op, units.clone()).map(|_| None)
                    } else {
                        k.append_with_outputs(op, units.clone()).map(Some)
                    };
                    match r {
                        Err(BuildError::CircuitError(CircuitBuildError::InvalidWireIndex { invalid_index, .. })) => {
                            ensure!(oob == Some(invalid_index), "circuit-index", "{log:?}: {invalid_index}, expected {oob:?}");
                            // nothing happened
                            let after = (0..m.len()).map(|i| k.tracked_wire(i)).collect::<Vec<_>>();
                            ensure!(before == after, "circuit-change", "{log:?}");
                            c.label("no-such-unit");
                            continue;
                        }
                        Err(BuildError::CircuitError(CircuitBuildError::MismatchedLinearInputs { index, .. })) => {
                            let mut i = index;
                            i.sort();
                            let mut w: Vec<usize> = units.iter().enumerate().filter(|(j, _)| *j >= outs.len()).filter_map(|(_, u)| if let CircuitUnit::Linear(i) = u { Some(*i) } else { None }).collect();
                            w.sort();
                            ensure!(oob.is_none() && !copy && short && i == w, "circuit-mismatch", "{log:?}: {i:?}, expected {w:?}");
                            c.label("mismatch");
                            refused = true;
                            break;
                        }
                        Err(BuildError::OperationWiring { error, .. }) => {
                            ensure!(copy, "circuit-refuses", "{log:?}: {error}");
                            c.label("linear-copy");
                            refused = true;
                            break;
                        }
                        Err(e) => return fail("circuit-error", format!("{log:?}: {e}")),
                        Ok(outs_got) => {
                            ensure!(oob.is_none() && !copy && !short, "circuit-accepts", "{log:?}");
                            used = now;
                            ops += 1;
                            // the new node is that of any result, or is found later
                            let node = units
                                .iter()
                                .enumerate()
                                .filter_map(|(_, u)| if let CircuitUnit::Linear(i) = u { k.tracked_wire(*i).map(|w| w.node()) } else { None })
                                .next()
                                .or_else(|| outs_got.as_ref().and_then(|v| v.first().map(|w| w.node())));
                            let Some(node) = node else { continue };
                            expect.push((node, src.clone()));
                            let lin: BTreeMap<usize, usize> = units.iter().enumerate().filter_map(|(j, u)| if let CircuitUnit::Linear(i) = u { Some((j, *i)) } else { None }).collect();
                            let mut rest = vec![];
                            for (j, t) in outs.iter().enumerate() {
                                let w = Wire::new(node, j);
                                match lin.get(&j) {
                                    Some(i) => {
                                        // (a unit that is there twice is the later one)
                                        let old = m[*i].replace((w, t.clone()));
                                        free.extend(old.filter(|o| o.0.node() == node));
                                    }
                                    None => rest.push((w, t.clone())),
                                }
                            }
                            if let Some(v) = outs_got {
                                let want: Vec<Wire> = rest.iter().map(|x| x.0).collect();
                                ensure!(v == want, "circuit-outputs", "{log:?}: {v:?}, expected {want:?}");
                            }
                            free.extend(rest);
                        }
                    }
                }
                1 => {
                    if let Some((w, t)) = (!free.is_empty()).then(|| c.t.pick(&free).clone()) {
                        log.push(format!("track {w}"));
                        let i = k.track_wire(w);
                        ensure!(i == m.len(), "circuit-track", "{log:?}: {i}, expected {}", m.len());
                        m.push(Some((w, t)));
                    }
                }
                2 => {
                    let i = c.t.below(m.len() + 2);
                    log.push(format!("untrack {i}"));
                    let want = m.get_mut(i).and_then(|x| x.take());
                    let got = k.untrack_wire(i).ok();
                    ensure!(got == want.as_ref().map(|x| x.0), "circuit-untrack", "{log:?}: {got:?}, expected {want:?}");
                    free.extend(want);
                }
                _ => {
                    log.push("constant".into());
                    let w = k.add_constant(hugr::ops::Value::true_val());
                    free.push((w, hugr::extension::prelude::bool_t()));
                }
            }
            let want: Vec<Option<Wire>> = m.iter().map(|x| x.as_ref().map(|x| x.0)).collect();
            let got: Vec<Option<Wire>> = (0..m.len()).map(|i| k.tracked_wire(i)).collect();
            ensure!(want == got && k.tracked_wire(m.len()).is_none(), "circuit-wires", "{log:?}: {got:?}, expected {want:?}");
            let live: Vec<usize> = (0..m.len()).filter(|i| want[*i].is_some()).collect();
            ensure!(k.tracked_units().collect::<Vec<_>>() == live && k.n_wires() == live.len(), "circuit-units", "{log:?}: {} {:?}", k.n_wires(), k.tracked_units().collect::<Vec<_>>());
        }
        let want: Vec<Wire> = m.iter().flatten().map(|x| x.0).collect();
        let got = k.finish();
        ensure!(refused || got == want, "circuit-finish", "{log:?}: {got:?}, expected {want:?}");
        left = Some(got).or(left);
    }
    c.note(|| log.join("\n"));
    for (n, src) in &expect {
        let got: Vec<Wire> = (0..src.len()).filter_map(|i| b.hugr().single_linked_output(*n, i)).map(|(n, o)| Wire::new(n, o)).collect();
        ensure!(got == *src && b.hugr().get_parent(*n) == Some(func), "circuit-inputs", "{log:?}: {n} has {got:?}, expected {src:?}");
    }
    if refused {
        return Ok(());
    }
    // everything left goes to the output
    let mut outs: Vec<(Wire, Type)> = m.into_iter().flatten().collect();
    let free: BTreeMap<Wire, Type> = free.into_iter().collect();
    for (w, t) in free {
        if !t.copyable() && !used.contains_key(&w) && outs.iter().all(|o| o.0 != w) {
            outs.push((w, t));
        }
    }
    let mut seen = BTreeSet::new();
    let twice = outs.iter().any(|(w, t)| !t.copyable() && (!seen.insert(*w) || used.contains_key(w)));
    for (_, t) in &outs {
        if b.add_output(t.clone()).is_err() {
            return fail("add-output", format!("{log:?}"));
        }
    }
    match b.finish_hugr_with_outputs(outs.iter().map(|o| o.0)) {
        Err(e) => ensure!(twice, "circuit-invalid", "{log:?}: {e}"),
        Ok(h) => {
            ensure!(!twice, "circuit-accepts", "{log:?}");
            c.label("finished");
            if ops >= 2 {
                c.nontrivial(canon::graph_hash(&h));
            }
        }
    }
    Ok(())
}
