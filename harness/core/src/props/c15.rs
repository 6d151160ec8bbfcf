//! C15: the dataflow analysis covers every execution.
use crate::canon;
use crate::engine::*;
use crate::gen_::Profile;
use crate::interp::{self, FnV, Interp, Prog, Record, Stop, V};
use super::pass;
use ascent::Lattice;
use ascent::lattice::BoundedLattice;
use hugr::algorithms::dataflow::{
    AbstractValue, AsConcrete, ConstLoader, ConstLocation, DFContext, LoadedFunction, Machine, PartialSum, PartialValue, Sum, TailLoopTermination,
};
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::constant::OpaqueValue;
use hugr::ops::{ExtensionOp, OpType, Value};
use hugr::types::TypeArg;
use hugr::{Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex, Wire};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        rule: "(runs) generated programs analysed with the module, a function or a nested region as entrypoint, declared and extra values, value domains of bounded sets, and leaf operations whose abstract results are joined from recorded executions (or unknown); every recorded value must be covered; (exact) loop-free programs on known inputs must be analysed exactly; (laws) typed and mixed triples of lattice values; non-trivial: a recorded value is covered by something other than Top, a joined sum or a set of values, resp. three different lattice values",
        assumptions: &["the harness evaluator gives the executions"],
        subs: vec![
            Sub { name: "runs", quick: 8000, thorough: 500_000, f: sound },
            Sub { name: "exact", quick: 5000, thorough: 300_000, f: exact },
            Sub { name: "order", quick: 3000, thorough: 150_000, f: order },
            Sub { name: "laws", quick: 60_000, thorough: 5_000_000, f: laws },
        ],
        findings: vec![],
    }
}

/// A set of at most `cap` values.
#[derive(Clone, Debug)]
struct Dom {
    cap: usize,
    set: BTreeMap<String, V>,
}
impl PartialEq for Dom {
    fn eq(&self, o: &Dom) -> bool {
        self.set.keys().eq(o.set.keys())
    }
}
impl Eq for Dom {}
impl Hash for Dom {
    fn hash<H: Hasher>(&self, h: &mut H) {
        for k in self.set.keys() {
            k.hash(h);
        }
    }
}
impl Dom {
    fn one(cap: usize, v: &V) -> Dom {
        Dom { cap, set: BTreeMap::from([(interp::show(v), v.clone())]) }
    }
}
impl AbstractValue for Dom {
    fn try_join(mut self, o: Self) -> Option<(Self, bool)> {
        let n = self.set.len();
        self.set.extend(o.set);
        let k = self.set.len();
        (k <= self.cap).then_some((self, k > n))
    }
    fn try_meet(mut self, o: Self) -> Option<(Self, bool)> {
        let n = self.set.len();
        self.set.retain(|k, _| o.set.contains_key(k));
        let k = self.set.len();
        (k > 0).then_some((self, k < n))
    }
}
type PV = PartialValue<Dom, Node>;

/// The least abstract value for `v`.
fn abs(cap: usize, v: &V) -> PV {
    match v {
        V::Sum(t, xs) => PV::new_variant(*t, xs.iter().map(|x| abs(cap, x))),
        V::Func(_) => PV::Top,
        _ => PV::Value(Dom::one(cap, v)),
    }
}
fn covers(p: &PV, v: &V, main: &Rc<Prog>, args: bool) -> bool {
    match (p, v) {
        (PV::Top, _) => true,
        (PV::Value(d), _) => d.set.contains_key(&interp::show(v)),
        (PV::PartialSum(s), V::Sum(t, xs)) => s.0.get(t).is_some_and(|r| r.len() == xs.len() && r.iter().zip(xs.iter()).all(|(a, b)| covers(a, b, main, args))),
        (PV::LoadedFunction(l), V::Func(f)) => match &**f {
            FnV::Defn(p, ix, targs) => {
                Rc::ptr_eq(p, main)
                    && p.g.nodes[*ix].node == l.func_node
                    && (!args || l.args.len() == targs.len() && l.args.iter().zip(targs.iter()).all(|(a, b)| interp::arg_str(&interp::arg(a, &[])) == interp::arg_str(b)))
            }
            _ => false,
        },
        _ => false,
    }
}
/// What an analysis knows of leaf operations: the results of recorded executions.
struct Oracle {
    cap: usize,
    rec: Rc<BTreeMap<(Node, usize), Vec<V>>>,
    /// Nodes to know nothing about
    unknown: BTreeSet<Node>,
    seen: Rc<RefCell<HashMap<Node, Vec<PV>>>>,
    opaque: bool,
}
impl ConstLoader<Dom> for Oracle {
    type Node = Node;
    fn value_from_opaque(&self, _: ConstLocation<Node>, v: &OpaqueValue) -> Option<Dom> {
        if !self.opaque {
            return None;
        }
        let v = Value::Extension { e: v.clone() };
        let v = interp::const_to_v(&v, &mut |h| Prog::new(h)).ok()?;
        (!matches!(v, V::Sum(..) | V::Func(_))).then(|| Dom::one(self.cap, &v))
    }
}
impl DFContext<Dom> for Oracle {
    fn interpret_leaf_op(&mut self, n: Node, _: &ExtensionOp, ins: &[PV], outs: &mut [PV]) {
        let mut s = self.seen.borrow_mut();
        let e = s.entry(n).or_insert_with(|| vec![PV::Bottom; ins.len()]);
        for (a, b) in e.iter_mut().zip(ins) {
            a.join_mut(b.clone());
        }
        if self.unknown.contains(&n) {
            return;
        }
        for (i, o) in outs.iter_mut().enumerate() {
            let mut p = PV::Bottom;
            match self.rec.get(&(n, i)) {
                Some(vs) if vs.len() < 60 => {
                    for v in vs {
                        p.join_mut(abs(self.cap, v));
                    }
                }
                Some(_) => p = PV::Top,
                None => {}
            }
            *o = p;
        }
    }
}
#[derive(Clone, Debug)]
struct Conc(V);
#[derive(Debug)]
struct No;
impl std::fmt::Display for No {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("no")
    }
}
impl std::error::Error for No {}
impl AsConcrete<Dom, Node> for Conc {
    type ValErr = No;
    type SumErr = No;
    fn from_value(v: Dom) -> Result<Self, No> {
        if v.set.len() == 1 { Ok(Conc(v.set.into_values().next().unwrap())) } else { Err(No) }
    }
    fn from_sum(s: Sum<Self>) -> Result<Self, No> {
        Ok(Conc(V::Sum(s.tag, Rc::new(s.values.into_iter().map(|x| x.0).collect()))))
    }
    fn from_func(f: LoadedFunction<Node>) -> Result<Self, LoadedFunction<Node>> {
        Err(f)
    }
}
#[derive(Default)]
struct Merged {
    values: BTreeMap<(Node, usize), Vec<V>>,
    executed: BTreeSet<Node>,
    repeated: BTreeSet<Node>,
    ended: BTreeSet<Node>,
}
impl Merged {
    fn add(&mut self, r: Record) {
        for (k, vs) in r.values {
            let e = self.values.entry(k).or_default();
            for v in vs {
                if e.len() < 64 && !e.contains(&v) {
                    e.push(v);
                }
            }
        }
        self.executed.extend(r.executed);
        self.repeated.extend(r.continued);
        self.ended.extend(r.ended);
    }
}
fn record(p: &Rc<Prog>, f: Node, args: &[V], m: &mut Merged) -> Result<bool, Fail> {
    let mut i = Interp::recording(pass::FUEL / 4);
    let r = i.run(p, p.ix(f), args.to_vec());
    m.add(i.record.take().unwrap());
    match r {
        Ok(_) => Ok(true),
        Err(Stop::Stuck(e)) => fail("harness-stuck", e).map(|_: ()| false),
        Err(_) => Ok(false),
    }
}
fn check(ok: bool, sig: &str, m: impl FnOnce() -> String) -> R {
    ensure!(ok, sig, "{}", m());
    Ok(())
}
fn ctx_of(c: &mut Ctx, h: &Hugr, m: &Merged, cap: usize) -> Oracle {
    let k = *c.t.pick(&[0u64, 0, 10, 40]);
    let mut unknown = BTreeSet::new();
    for n in h.nodes() {
        if matches!(h.get_optype(n), OpType::ExtensionOp(_)) && c.t.chance(k, 100) {
            unknown.insert(n);
        }
    }
    Oracle { cap, rec: Rc::new(m.values.clone()), unknown, seen: Default::default(), opaque: !c.t.chance(1, 5) }
}
/// Everything recorded inside the entrypoint is covered.
fn covered(c: &mut Ctx, res: &hugr::algorithms::dataflow::AnalysisResults<Dom, &Hugr>, h: &Hugr, m: &Merged, p: &Rc<Prog>, poly: bool) -> R {
    let inside: BTreeSet<Node> = h.entry_descendants().collect();
    let mut good = 0u64;
    for ((n, i), vs) in &m.values {
        let w = Wire::new(*n, *i);
        let got = res.read_out_wire(w);
        if !inside.contains(n) {
            check(got.is_none(), "outside", || format!("a value for {w} outside the entrypoint"))?;
            continue;
        }
        let Some(got) = got else {
            return fail("no-value", format!("nothing for {w}\n{}", canon::show(h)));
        };
        for v in vs {
            check(covers(&got, v, p, !poly), "value", || format!("{w} of {} carries {}, analysis says {got:?}\n{}", canon::op(h.get_optype(*n), false), interp::show(v), canon::show(h)))?;
        }
        match &got {
            PV::PartialSum(s) if s.num_variants() > 1 => {
                c.label("joined-sum");
                good += 1
            }
            PV::Value(d) if d.set.len() > 1 => {
                c.label("joined-values");
                good += 1
            }
            PV::Top => c.label("top"),
            PV::LoadedFunction(_) => {
                c.label("function");
                good += 1
            }
            _ => {}
        }
        match no_panic(|| res.try_read_wire_concrete::<Conc>(w)) {
            Ok(Ok(x)) => {
                for v in vs {
                    check(x.0 == *v, "concrete", || format!("{w} carries {} but is said to be just {}", interp::show(v), interp::show(&x.0)))?;
                }
                c.label("single");
            }
            Ok(Err(_)) => {}
            Err((e, at)) => return fail("concrete-crash", format!("{e} at {at}")),
        }
    }
    for n in inside.iter().copied() {
        let op = h.get_optype(n);
        let ran = m.executed.contains(&n);
        let case = res.case_reachable(n);
        let is_case = op.is_case() && h.get_parent(n).is_some_and(|q| h.get_optype(q).is_conditional());
        check(case.is_some() == is_case, "case-kind", || format!("{n} {op}"))?;
        let block = res.bb_reachable(n);
        let is_block = (op.is_dataflow_block() || op.is_exit_block()) && h.get_parent(n).is_some_and(|q| h.get_optype(q).is_cfg());
        check(block.is_some() == is_block, "block-kind", || format!("{n} {op}"))?;
        if n != h.entrypoint() && ran {
            check(case != Some(false), "case", || format!("case {n} runs but is said to be unreachable\n{}", canon::show(h)))?;
            check(block != Some(false), "block", || format!("block {n} runs but is said to be unreachable\n{}", canon::show(h)))?;
        }
        if case == Some(false) || block == Some(false) {
            c.label("unreachable");
            good += 1;
        }
        let l = res.tail_loop_terminates(n);
        check(l.is_some() == op.is_tail_loop(), "loop-kind", || format!("{n} {op}"))?;
        if let Some(l) = l {
            if m.repeated.contains(&n) {
                check(l != TailLoopTermination::NeverContinues, "loop", || format!("loop {n} continues\n{}", canon::show(h)))?;
            }
            if m.ended.contains(&n) {
                check(l != TailLoopTermination::NeverBreaks, "loop", || format!("loop {n} ends\n{}", canon::show(h)))?;
            }
            c.label_if(l != TailLoopTermination::BreaksAndContinues, "loop-known");
        }
    }
    if good > 0 {
        c.nontrivial(canon::graph_hash(h) ^ good);
    }
    Ok(())
}
fn types_of(h: &Hugr, f: Node) -> Vec<hugr::types::Type> {
    let OpType::FuncDefn(d) = h.get_optype(f) else { return vec![] };
    d.signature().body().input().iter().cloned().collect()
}
fn prof(t: &mut Tape, size: usize) -> Profile {
    let mut p = pass::profile(t, size);
    p.cfg_heavy = t.chance(1, 4);
    p.decls = t.flag();
    p
}
fn sound(c: &mut Ctx) -> R {
    let p = prof(&mut c.t, 24);
    let g = pass::gen_program(c, &p);
    let mut h = g.hugr;
    let cap = 1 + c.t.below(3);
    let funcs = pass::mono_funcs(&h);
    let prog = Prog::new(&h);
    let mut m = Merged::default();
    // (function, arguments of the runs)
    let mut ran: Vec<(Node, Vec<Vec<V>>)> = vec![];
    let mode = c.t.below(4);
    let roots: Vec<Node> = match mode {
        0 => funcs.iter().copied().filter(|_| c.t.flag()).collect(),
        1 | 2 => vec![g.main],
        _ => funcs.clone(),
    };
    // in some cases inputs are restricted to what the runs give
    let known = mode < 3 && c.t.flag();
    for f in roots {
        let mut all = vec![];
        for _ in 0..1 + c.t.below(3) {
            let Some(a) = pass::args(&mut c.t, &h, f) else { break };
            record(&prog, f, &a, &mut m)?;
            all.push(a);
        }
        ran.push((f, all));
    }
    let joined = |all: &Vec<Vec<V>>, f: Node| -> Vec<(IncomingPort, PV)> {
        types_of(&h, f)
            .iter()
            .enumerate()
            .map(|(i, _)| {
                let mut p = PV::Bottom;
                for a in all {
                    p.join_mut(abs(cap, &a[i]));
                }
                (IncomingPort::from(i), p)
            })
            .collect()
    };
    let ins: Vec<Vec<(IncomingPort, PV)>> = ran.iter().map(|(f, all)| if known { joined(all, *f) } else { vec![] }).collect();
    match mode {
        0 => h.set_entrypoint(h.module_root()),
        1 | 2 => h.set_entrypoint(g.main),
        _ => {
            let cs = pass::containers(&h);
            if cs.is_empty() {
                return Ok(());
            }
            let e = *c.t.pick(&cs);
            h.set_entrypoint(e);
        }
    }
    c.label(["entry-module", "entry-function", "entry-function", "entry-nested"][mode]);
    let ctx = ctx_of(c, &h, &m, cap);
    let seen = ctx.seen.clone();
    let unknown = ctx.unknown.clone();
    let mut mac: Machine<&Hugr, Dom> = Machine::new(&h);
    let mut extra: Vec<(Wire, PV)> = vec![];
    if c.t.chance(1, 3) {
        let ws: Vec<(Node, usize)> = m.values.keys().copied().collect();
        for _ in 0..1 + c.t.below(3) {
            if ws.is_empty() {
                break;
            }
            let (n, i) = *c.t.pick(&ws);
            let v = if c.t.flag() { PV::Top } else {
                // (what comes from outside is what we say)
                let all = &m.values[&(n, i)];
                let mut v = abs(cap, &all[0]);
                if !h.entry_descendants().any(|x| x == n) {
                    for x in all {
                        v.join_mut(abs(cap, x));
                    }
                }
                v
            };
            mac.prepopulate_wire(Wire::new(n, i), v.clone());
            extra.push((Wire::new(n, i), v));
        }
    }
    let mut run_ins = vec![];
    match mode {
        0 => {
            for ((f, _), v) in ran.iter().zip(&ins) {
                check(mac.prepopulate_inputs(*f, v.clone()).is_ok(), "inputs", || format!("inputs of {f}"))?;
            }
        }
        1 | 2 => {
            if c.t.flag() {
                run_ins = ins[0].clone();
            } else {
                check(mac.prepopulate_inputs(g.main, ins[0].clone()).is_ok(), "inputs", || format!("inputs of {}", g.main))?;
            }
        }
        _ => {}
    }
    c.note(|| format!("entrypoint {}, sets of {cap}, inputs {ins:?}, extra {extra:?}, unknown {unknown:?}", h.entrypoint()));
    let res = match no_panic(std::panic::AssertUnwindSafe(|| mac.run(ctx, run_ins))) {
        Ok(r) => r,
        Err((e, at)) => return fail("crash", format!("{e} at {at}\n{}", canon::show(&h))),
    };
    covered(c, &res, &h, &m, &prog, p.poly)?;
    for (w, v) in extra {
        if h.entry_descendants().any(|n| n == w.node()) {
            let got = res.read_out_wire(w).unwrap();
            let mut x = got.clone();
            x.join_mut(v.clone());
            check(x == got, "prepopulated", || format!("{w} was given {v:?} and has {got:?}"))?;
            c.label("prepopulated");
        }
    }
    // leaf operations are told of all their inputs
    let seen = seen.borrow();
    for n in h.entry_descendants() {
        let OpType::ExtensionOp(_) = h.get_optype(n) else { continue };
        for (ip, _) in h.in_value_types(n) {
            let Some((s, sp)) = h.single_linked_output(n, ip) else { continue };
            let Some(vs) = m.values.get(&(s, sp.index())) else { continue };
            if !m.executed.contains(&n) || m.values.get(&(s, sp.index())).map(|v| v.len()) != Some(1) {
                continue;
            }
            // tuples are handled by the analysis
            if let Some(row) = seen.get(&n) {
                check(covers(&row[ip.index()], &vs[0], &prog, false), "leaf", || format!("input {ip} of {n} is {}, told {:?}", interp::show(&vs[0]), row[ip.index()]))?;
            }
        }
    }
    Ok(())
}
/// Loop-free programs with every function called at most once.
fn single_use(h: &Hugr) -> bool {
    let mut uses: HashMap<Node, usize> = HashMap::new();
    for n in h.nodes() {
        match h.get_optype(n) {
            OpType::TailLoop(_) | OpType::CallIndirect(_) | OpType::LoadFunction(_) => return false,
            OpType::Call(_) => {
                let f = h.static_source(n).unwrap();
                if !h.get_optype(f).is_func_defn() {
                    return false;
                }
                *uses.entry(f).or_default() += 1;
            }
            OpType::CFG(_) => {
                // acyclic?
                let bs: Vec<Node> = h.children(n).collect();
                let mut done: BTreeSet<Node> = BTreeSet::new();
                while done.len() < bs.len() {
                    let Some(b) = bs.iter().copied().find(|b| !done.contains(b) && h.output_neighbours(*b).all(|x| done.contains(&x))) else { return false };
                    done.insert(b);
                }
            }
            _ => {}
        }
    }
    uses.values().all(|k| *k <= 1)
}
fn same_pv(p: &PV, v: &V) -> bool {
    match (p, v) {
        (PV::Value(d), _) => d.set.len() == 1 && d.set.contains_key(&interp::show(v)),
        (PV::PartialSum(s), V::Sum(t, xs)) => s.num_variants() == 1 && s.0.get(t).is_some_and(|r| r.len() == xs.len() && r.iter().zip(xs.iter()).all(|(a, b)| same_pv(a, b))),
        (_, V::Func(_)) => true,
        _ => false,
    }
}
fn exact(c: &mut Ctx) -> R {
    let mut p = prof(&mut c.t, 20);
    p.loops = false;
    p.decls = false;
    p.indirect = false;
    p.fn_consts = false;
    p.recursion = false;
    p.panics = false;
    p.partial = false;
    let g = pass::gen_program(c, &p);
    let mut h = g.hugr;
    if !single_use(&h) || h.nodes().any(|n| h.get_optype(n).is_call() && h.static_source(n) == Some(g.main)) {
        c.label("not-single-use");
        return Ok(());
    }
    let prog = Prog::new(&h);
    let mut m = Merged::default();
    let Some(a) = pass::args(&mut c.t, &h, g.main) else { return Ok(()) };
    if !record(&prog, g.main, &a, &mut m)? {
        return Ok(());
    }
    let as_module = c.t.flag();
    if as_module {
        h.set_entrypoint(h.module_root());
    } else {
        h.set_entrypoint(g.main);
    }
    let ctx = Oracle { cap: 1 + c.t.below(2), rec: Rc::new(m.values.clone()), unknown: BTreeSet::new(), seen: Default::default(), opaque: true };
    let ins: Vec<(IncomingPort, PV)> = a.iter().enumerate().map(|(i, v)| (i.into(), abs(ctx.cap, v))).collect();
    let mut mac: Machine<&Hugr, Dom> = Machine::new(&h);
    let r = no_panic(std::panic::AssertUnwindSafe(|| {
        if as_module {
            mac.prepopulate_inputs(g.main, ins).unwrap();
            mac.run(ctx, [])
        } else {
            mac.run(ctx, ins)
        }
    }));
    let res = match r {
        Ok(r) => r,
        Err((e, at)) => return fail("crash", format!("{e} at {at}\n{}", canon::show(&h))),
    };
    covered(c, &res, &h, &m, &prog, p.poly)?;
    let inside: BTreeSet<Node> = h.entry_descendants().collect();
    for ((n, i), vs) in &m.values {
        if !inside.contains(n) {
            continue;
        }
        let got = res.read_out_wire(Wire::new(*n, *i)).unwrap();
        check(vs.len() == 1 && same_pv(&got, &vs[0]), "inexact", || format!("port {i} of {n} {} carries only {}, analysis says {got:?}\n{}", canon::op(h.get_optype(*n), false), interp::show(&vs[0]), canon::show(&h)))?;
    }
    for n in &inside {
        let Some(q) = h.get_parent(*n) else { continue };
        let r = res.case_reachable(*n).or(res.bb_reachable(*n));
        if m.executed.contains(&q) && r == Some(true) {
            check(m.executed.contains(n), "inexact-reachable", || format!("{n} never runs\n{}", canon::show(&h)))?;
        }
    }
    Ok(())
}
/// The same program with other node indices and edges made in another order.
fn order(c: &mut Ctx) -> R {
    let p = prof(&mut c.t, 18);
    let g = pass::gen_program(c, &p);
    let mut h = g.hugr;
    h.set_entrypoint(h.module_root());
    let cap = 1 + c.t.below(3);
    let prog = Prog::new(&h);
    let mut m = Merged::default();
    let Some(a) = pass::args(&mut c.t, &h, g.main) else { return Ok(()) };
    record(&prog, g.main, &a, &mut m)?;
    let (h2, map) = scrambled(c, &h);
    let ctx = ctx_of(c, &h, &m, cap);
    let rec2 = m.values.iter().map(|((n, i), v)| ((map[n], *i), v.clone())).collect();
    let ctx2 = Oracle { cap, rec: Rc::new(rec2), unknown: ctx.unknown.iter().map(|n| map[n]).collect(), seen: Default::default(), opaque: ctx.opaque };
    let ins: Vec<(IncomingPort, PV)> = if c.t.flag() { a.iter().enumerate().map(|(i, v)| (i.into(), abs(cap, v))).collect() } else { vec![] };
    fn go<'h>(h: &'h Hugr, f: Node, ctx: Oracle, ins: Vec<(IncomingPort, PV)>) -> Result<hugr::algorithms::dataflow::AnalysisResults<Dom, &'h Hugr>, Fail> {
        no_panic(std::panic::AssertUnwindSafe(|| {
            let mut m: Machine<&Hugr, Dom> = Machine::new(h);
            m.prepopulate_inputs(f, ins).unwrap();
            m.run(ctx, [])
        }))
        .map_err(|(e, at)| Fail { sig: "crash".into(), msg: format!("{e} at {at}\n{}", canon::show(h)) })
    }
    let r1 = go(&h, g.main, ctx, ins.clone())?;
    let r2 = go(&h2, map[&g.main], ctx2, ins)?;
    let mut some = false;
    for n in h.nodes() {
        for (port, _) in h.out_value_types(n) {
            let x = r1.read_out_wire(Wire::new(n, port));
            let y = r2.read_out_wire(Wire::new(map[&n], port));
            let x2 = x.clone().map(|v| renamed(&v, &map));
            check(x2 == y, "order", || format!("{port} of {n}: {x:?}, with other indices {y:?}\n{}", canon::show(&h)))?;
            some |= matches!(x, Some(PV::PartialSum(_) | PV::Value(_)));
        }
        check(r1.case_reachable(n) == r2.case_reachable(map[&n]) && r1.bb_reachable(n) == r2.bb_reachable(map[&n]) && r1.tail_loop_terminates(n) == r2.tail_loop_terminates(map[&n]), "order-reach", || format!("{n}\n{}", canon::show(&h)))?;
    }
    if some && map.iter().any(|(a, b)| a != b) {
        c.nontrivial(canon::graph_hash(&h));
    }
    Ok(())
}
fn renamed(p: &PV, map: &BTreeMap<Node, Node>) -> PV {
    match p {
        PV::LoadedFunction(l) => PV::LoadedFunction(LoadedFunction { func_node: map[&l.func_node], args: l.args.clone() }),
        PV::PartialSum(s) => PV::PartialSum(PartialSum(s.0.iter().map(|(k, v)| (*k, v.iter().map(|x| renamed(x, map)).collect())).collect())),
        x => x.clone(),
    }
}
fn scrambled(c: &mut Ctx, h: &Hugr) -> (Hugr, BTreeMap<Node, Node>) {
    let mut out = Hugr::new();
    let root = out.module_root();
    let mut tmp: Vec<Node> = (0..c.t.below(40)).map(|_| out.add_node_with_parent(root, hugr::ops::Const::new(Value::unit()))).collect();
    c.t.shuffle(&mut tmp);
    let keep = c.t.below(4).min(tmp.len());
    for n in tmp.drain(keep..) {
        out.remove_node(n);
    }
    let mut map = BTreeMap::from([(h.module_root(), root)]);
    // children keep their order; subtrees are made in random order
    let mut q: Vec<Node> = vec![h.module_root()];
    while !q.is_empty() {
        let i = c.t.below(q.len());
        let n = q.swap_remove(i);
        for ch in h.children(n) {
            let x = out.add_node_with_parent(map[&n], h.get_optype(ch).clone());
            map.insert(ch, x);
            q.push(ch);
        }
    }
    let mut es: Vec<(Node, OutgoingPort, Node, IncomingPort)> = vec![];
    for n in h.nodes() {
        for p in h.node_outputs(n) {
            for (m, q) in h.linked_inputs(n, p) {
                es.push((n, p, m, q));
            }
        }
    }
    c.t.shuffle(&mut es);
    for (a, p, b, q) in es {
        out.connect(map[&a], p, map[&b], q);
    }
    for n in tmp {
        out.remove_node(n);
    }
    (out, map)
}

// --- lattice laws
#[derive(Clone, Debug)]
enum T {
    Val,
    Fun,
    Sum(Vec<Vec<T>>),
}
fn gen_t(t: &mut Tape, d: usize) -> T {
    match t.below(if d == 0 { 3 } else { 6 }) {
        0 | 1 => T::Val,
        2 => T::Fun,
        _ => T::Sum((0..1 + t.below(3)).map(|_| (0..t.below(3)).map(|_| gen_t(t, d - 1)).collect()).collect()),
    }
}
fn gen_v(t: &mut Tape, ty: &T, cap: usize, wild: bool) -> PV {
    if wild && t.chance(1, 12) {
        let o = gen_t(t, 1);
        return gen_v(t, &o, cap, false);
    }
    match t.below(8) {
        0 => return PV::Bottom,
        1 => return PV::Top,
        _ => {}
    }
    match ty {
        T::Val => {
            let mut set = BTreeMap::new();
            for _ in 0..1 + t.below(cap) {
                let v = V::I(t.below(4) as u64);
                set.insert(interp::show(&v), v);
            }
            PV::Value(Dom { cap, set })
        }
        T::Fun => {
            let args: Vec<TypeArg> = (0..t.below(2)).map(|_| TypeArg::from(t.below(2) as u64)).collect();
            PV::new_load(Node::from(portgraph::NodeIndex::new(t.below(3))), args)
        }
        T::Sum(vs) => {
            let mut m = HashMap::new();
            let k = 1 + t.below(vs.len());
            for _ in 0..k {
                let i = t.below(vs.len());
                let row: Vec<PV> = vs[i].iter().map(|x| gen_v(t, x, cap, wild)).collect();
                m.insert(i, row);
            }
            PV::PartialSum(PartialSum(m))
        }
    }
}
fn join(a: &PV, b: &PV) -> (PV, bool) {
    let mut x = a.clone();
    let ch = x.join_mut(b.clone());
    (x, ch)
}
fn meet(a: &PV, b: &PV) -> (PV, bool) {
    let mut x = a.clone();
    let ch = x.meet_mut(b.clone());
    (x, ch)
}
fn hash(p: &PV) -> u64 {
    let mut h = DefaultHasher::new();
    p.hash(&mut h);
    h.finish()
}
/// Is everything described by `a` also described by `b`?
fn within(a: &PV, b: &PV) -> bool {
    match (a, b) {
        (PV::Bottom, _) | (_, PV::Top) => true,
        (PV::Value(x), PV::Value(y)) => x.set.keys().all(|k| y.set.contains_key(k)),
        (PV::LoadedFunction(x), PV::LoadedFunction(y)) => x == y,
        (PV::PartialSum(x), PV::PartialSum(y)) => x.0.iter().all(|(k, r)| y.0.get(k).is_some_and(|s| s.len() == r.len() && r.iter().zip(s).all(|(a, b)| within(a, b)))),
        _ => false,
    }
}
fn laws(c: &mut Ctx) -> R {
    let ty = gen_t(&mut c.t, 2);
    let cap = 1 + c.t.below(2);
    let wild = c.t.chance(1, 3);
    let (a, b, d) = (gen_v(&mut c.t, &ty, cap, wild), gen_v(&mut c.t, &ty, cap, wild), gen_v(&mut c.t, &ty, cap, wild));
    c.note(|| format!("{a:?}\n{b:?}\n{d:?}"));
    if a != b && b != d && a != d {
        c.nontrivial(hash_of(&a).wrapping_mul(31).wrapping_add(hash_of(&b)).wrapping_mul(31).wrapping_add(hash_of(&d)));
    }
    c.label_if(wild, "mixed-types");
    no_panic(|| laws_of(&a, &b, &d, wild)).unwrap_or_else(|(m, at)| fail("law-crash", format!("{m} at {at}")))
}
fn hash_of(p: &PV) -> u64 {
    // order-independent
    match p {
        PV::PartialSum(s) => {
            let m: BTreeMap<usize, Vec<u64>> = s.0.iter().map(|(k, v)| (*k, v.iter().map(hash_of).collect())).collect();
            let mut h = DefaultHasher::new();
            m.hash(&mut h);
            h.finish()
        }
        _ => hash(p),
    }
}
fn laws_of(a: &PV, b: &PV, d: &PV, wild: bool) -> R {
    let (ab, ch) = join(a, b);
    check(ch == (ab != *a), "join-changed", || format!("{a:?} v {b:?} = {ab:?} {ch}"))?;
    check(within(a, &ab) && within(b, &ab), "join-bound", || format!("{a:?} v {b:?} = {ab:?}"))?;
    check(ab == join(b, a).0, "join-commutes", || format!("{a:?} v {b:?}"))?;
    check(join(a, a) == (a.clone(), false), "join-idempotent", || format!("{a:?}"))?;
    check(join(&ab, d).0 == join(a, &join(b, d).0).0, "join-associates", || format!("{a:?} v {b:?} v {d:?}"))?;
    // least: an upper bound of both is above it
    if within(a, d) && within(b, d) {
        check(within(&ab, d), "join-least", || format!("{a:?} v {b:?} = {ab:?} and {d:?}"))?;
    }
    let (m, ch) = meet(a, b);
    check(ch == (m != *a), "meet-changed", || format!("{a:?} ^ {b:?} = {m:?} {ch}"))?;
    check(within(&m, a) && within(&m, b), "meet-bound", || format!("{a:?} ^ {b:?} = {m:?}"))?;
    check(m == meet(b, a).0, "meet-commutes", || format!("{a:?} ^ {b:?}"))?;
    check(meet(a, a) == (a.clone(), false), "meet-idempotent", || format!("{a:?}"))?;
    check(wild || meet(&m, d).0 == meet(a, &meet(b, d).0).0, "meet-associates", || format!("{a:?} ^ {b:?} ^ {d:?}"))?;
    check(meet(a, &ab).0 == *a, "absorb", || format!("{a:?} ^ ({a:?} v {b:?})"))?;
    check(join(a, &m).0 == *a, "absorb", || format!("{a:?} v ({a:?} ^ {b:?})"))?;
    check(join(a, &PV::bottom()) == (a.clone(), false) && meet(a, &PV::top()) == (a.clone(), false), "bounds", || format!("{a:?}"))?;
    check(join(a, &PV::top()).0 == PV::top() && meet(a, &PV::bottom()).0 == PV::bottom(), "bounds", || format!("{a:?}"))?;
    // the order agrees (it may relate more than the lattice does)
    let le = |x: &PV, y: &PV| matches!(x.partial_cmp(y), Some(Ordering::Less | Ordering::Equal));
    if no_sets(a) && no_sets(b) {
        check(le(a, &ab) && le(b, &ab) && le(&m, a) && le(&m, b), "ordered", || format!("{a:?} and {b:?}: join {ab:?}, meet {m:?}"))?;
        check((a.partial_cmp(b) == Some(Ordering::Equal)) == (a == b), "order-equal", || format!("{a:?} and {b:?}"))?;
    }
    if a == b {
        check(hash(a) == hash(b), "hash", || format!("equal values with different hashes: {a:?}"))?;
    }
    check(a.contains_bottom() == has_bottom(a), "contains-bottom", || format!("{a:?}"))?;
    for t in 0..4 {
        let s = match a {
            PV::Top => true,
            PV::PartialSum(s) => s.0.contains_key(&t),
            _ => false,
        };
        check(a.supports_tag(t) == s, "supports-tag", || format!("{a:?} {t}"))?;
    }
    Ok(())
}
fn has_bottom(a: &PV) -> bool {
    match a {
        PV::Bottom => true,
        PV::PartialSum(s) => s.0.values().all(|r| r.iter().any(has_bottom)),
        _ => false,
    }
}
/// Values other than single ones are not ordered by the implementation.
fn no_sets(a: &PV) -> bool {
    match a {
        PV::Value(d) => d.cap == 1,
        PV::PartialSum(s) => s.0.values().flatten().all(no_sets),
        _ => true,
    }
}
