//! C17: monomorphisation specialises faithfully and completely.
use crate::canon;
use crate::engine::*;
use super::pass::{self, Trace};
use hugr::algorithms::{ComposablePass, MonomorphizePass, mangle_name, monomorphize};
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::{OpTrait, OpType};
use hugr::types::{Substitution, TypeArg};
use hugr::{Hugr, HugrView, Node};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        rule: "generated modules with polymorphic functions calling and loading each other, module, function or nested entrypoint; the instances made are compared with a worklist of (function, arguments) and, node by node, with the substituted original; runs before and after; non-trivial: at least one instance made",
        assumptions: &["type substitution itself is C22's subject", "metadata of instances is not compared; programs that need more than 60 instances (or, by polymorphic recursion, endlessly many) are skipped"],
        subs: vec![Sub { name: "mono", quick: 9000, thorough: 600_000, f: mono }],
        findings: vec![],
    }
}
fn target(h: &Hugr, n: Node) -> Option<(Node, Vec<TypeArg>)> {
    match h.get_optype(n) {
        OpType::Call(c) => Some((h.static_source(n)?, c.type_args.clone())),
        OpType::LoadFunction(l) => Some((h.static_source(n)?, l.type_args.clone())),
        _ => None,
    }
}
fn poly(h: &Hugr, n: Node) -> bool {
    matches!(h.get_optype(n), OpType::FuncDefn(f) if !f.signature().params().is_empty())
}
type Key = (Node, String);
fn key(f: Node, a: &[TypeArg]) -> Key {
    (f, a.iter().map(|x| canon::term(x)).collect::<Vec<_>>().join(", "))
}
/// What must be instantiated, by following calls under the arguments.
fn wanted(h: &Hugr) -> Option<BTreeMap<Key, (Node, Vec<TypeArg>)>> {
    let mut out = BTreeMap::new();
    let mut todo: Vec<(Node, Option<Vec<TypeArg>>)> = vec![];
    if h.entrypoint() == h.module_root() {
        todo.extend(h.children(h.module_root()).filter(|n| h.get_optype(*n).is_func_defn() && !poly(h, *n)).map(|n| (n, None)));
    } else if !within_poly(h) {
        todo.push((h.entrypoint(), None));
    }
    while let Some((root, args)) = todo.pop() {
        for n in h.descendants(root) {
            let op = h.get_optype(n);
            let op = match &args {
                Some(a) => op.substitute(&Substitution::new(a)),
                None => op.clone(),
            };
            let a = match &op {
                OpType::Call(c) => c.type_args.clone(),
                OpType::LoadFunction(l) => l.type_args.clone(),
                _ => continue,
            };
            let t = h.static_source(n).unwrap();
            if !a.is_empty() && poly(h, t) {
                let k = key(t, &a);
                if !out.contains_key(&k) {
                    out.insert(k, (t, a.clone()));
                    if out.len() > 60 {
                        return None;
                    }
                    todo.push((t, Some(a)));
                }
            }
        }
    }
    Some(out)
}
fn within_poly(h: &Hugr) -> bool {
    let mut n = Some(h.entrypoint());
    while let Some(x) = n {
        if poly(h, x) {
            return true;
        }
        n = h.get_parent(x);
    }
    false
}
/// Checks that `new` is `old` with the arguments put in.
fn same_body(h: &Hugr, old: Node, new: Node, args: &[TypeArg], inst: &BTreeMap<Key, Node>) -> R {
    let mut map = HashMap::new();
    let mut todo = vec![(old, new)];
    let s = Substitution::new(args);
    while let Some((a, b)) = todo.pop() {
        map.insert(a, b);
        let (ca, cb): (Vec<Node>, Vec<Node>) = (h.children(a).collect(), h.children(b).collect());
        ensure!(ca.len() == cb.len(), "instance-children", "{a} has {} children and its copy {b} has {}", ca.len(), cb.len());
        todo.extend(ca.into_iter().zip(cb));
    }
    for (a, b) in &map {
        if *a == old {
            continue;
        }
        let want = h.get_optype(*a).substitute(&s);
        if let Some((t, _)) = target(h, *a) {
            let aa = match &want {
                OpType::Call(c) => c.type_args.clone(),
                OpType::LoadFunction(l) => l.type_args.clone(),
                _ => unreachable!(),
            };
            let (t2, a2) = target(h, *b).ok_or(Fail { sig: "instance-op".into(), msg: format!("{b} is no call") })?;
            if aa.is_empty() || !poly(h, t) {
                ensure!(t == t2 && aa == a2, "instance-call", "{a} calls {t} {aa:?}, {b} calls {t2} {a2:?}");
            } else {
                ensure!(a2.is_empty() && inst.get(&key(t, &aa)) == Some(&t2), "instance-call", "{a} becomes a call of {t} {aa:?}; {b} calls {t2} {a2:?}");
            }
            ensure!(want.dataflow_signature() == h.get_optype(*b).dataflow_signature(), "instance-call", "signature of {b}");
            ensure!(want.tag() == h.get_optype(*b).tag(), "instance-call", "kind of {b}");
        } else {
            let (x, y) = (canon::op(&want, true), canon::op(h.get_optype(*b), true));
            ensure!(x == y, "instance-op", "{a} becomes\n{x}\nbut {b} is\n{y}");
        }
        for p in h.node_inputs(*a).collect::<Vec<_>>() {
            if target(h, *a).is_some() && Some(p) == h.get_optype(*a).static_input_port() {
                continue;
            }
            let x: BTreeSet<_> = h.linked_outputs(*a, p).map(|(n, q)| (map.get(&n).copied().unwrap_or(n), q)).collect();
            let y: BTreeSet<_> = h.linked_outputs(*b, p).collect();
            ensure!(x == y, "instance-edges", "inputs {p:?} of {a} become {x:?}, of {b} are {y:?}");
        }
    }
    Ok(())
}
fn mono(c: &mut Ctx) -> R {
    let mut p = pass::profile(&mut c.t, 16);
    p.funcs = 1 + c.t.below(5);
    p.poly = true;
    p.decls = c.t.chance(1, 3);
    p.recursion = c.t.flag();
    p.odd_names = c.t.chance(1, 4);
    p.order = c.t.flag();
    let g = pass::gen_program(c, &p);
    let mut h = g.hugr;
    match c.t.below(4) {
        0 | 1 => h.set_entrypoint(h.module_root()),
        2 => {
            let f: Vec<Node> = h.children(h.module_root()).filter(|n| h.get_optype(*n).is_func_defn()).collect();
            h.set_entrypoint(*c.t.pick(&f));
        }
        _ => {
            let cs = pass::containers(&h);
            if !cs.is_empty() {
                let n = *c.t.pick(&cs);
                h.set_entrypoint(n);
            }
        }
    }
    c.note(|| format!("entry {}", h.entrypoint()));
    let Some(want) = wanted(&h) else {
        c.label("unending instances");
        return Ok(());
    };
    let all = pass::mono_funcs(&h);
    let rs = pass::runs(c, &h, &all, 2)?;
    let mut h2 = h.clone();
    let wrapped = c.t.flag();
    match no_panic(|| {
        if wrapped {
            monomorphize(&mut h2).map_err(|e| format!("{e}"))
        } else {
            MonomorphizePass.run(&mut h2).map_err(|e| format!("{e}"))
        }
    }) {
        Err((m, at)) => return fail("mono-crash", format!("{m} at {at}")),
        Ok(Err(e)) => return fail("mono-error", e),
        Ok(Ok(())) => {}
    }
    pass::valid(&h2, "mono")?;
    ensure!(h2.entrypoint() == h.entrypoint(), "entrypoint", "");
    // the originals are as they were, except for the targets of calls
    let old: BTreeSet<Node> = h.nodes().collect();
    for n in &old {
        ensure!(h2.contains_node(*n), "node-lost", "{n}");
        ensure!(h.get_parent(*n) == h2.get_parent(*n), "parent", "{n}");
        if target(&h, *n).is_none() {
            ensure!(canon::op(h.get_optype(*n), true) == canon::op(h2.get_optype(*n), true), "op-changed", "{n}");
        }
    }
    let top = |h: &Hugr| -> Vec<Node> { h.children(h.module_root()).collect() };
    let new: Vec<Node> = top(&h2).into_iter().filter(|n| !old.contains(n)).collect();
    // one instance each, found by name and confirmed by content
    let mut inst: BTreeMap<Key, Node> = BTreeMap::new();
    let mut left = new.clone();
    for (k, (f, a)) in &want {
        let OpType::FuncDefn(d) = h.get_optype(*f) else { unreachable!() };
        let name = mangle_name(d.func_name(), a);
        let sig = d.signature().instantiate(a);
        let Ok(sig) = sig else { return fail("harness-instantiate", format!("{f} {a:?}")) };
        let hit = left.iter().position(|n| matches!(h2.get_optype(*n), OpType::FuncDefn(x) if *x.func_name() == name && x.signature().params().is_empty() && *x.signature().body() == sig));
        match hit {
            Some(i) => {
                inst.insert(k.clone(), left.remove(i));
            }
            None => return fail("instance-missing", format!("{f} at {a:?}\n{}", canon::show(&h2))),
        }
    }
    ensure!(left.is_empty(), "instance-extra", "{left:?}\n{}", canon::show(&h2));
    for (k, (f, a)) in &want {
        same_body(&h2, *f, inst[k], a, &inst)?;
        // right before or after... somewhere in the module, private
        if let OpType::FuncDefn(x) = h2.get_optype(inst[k]) {
            ensure!(x.visibility() == &hugr_core::Visibility::Private, "instance-public", "{}", inst[k]);
        }
    }
    // calls in what was scanned
    let scanned: BTreeSet<Node> = if h.entrypoint() == h.module_root() {
        all.iter().flat_map(|f| h.descendants(*f).collect::<Vec<_>>()).collect()
    } else if within_poly(&h) {
        BTreeSet::new()
    } else {
        h.entry_descendants().collect()
    };
    for n in &old {
        let Some((t, a)) = target(&h, *n) else { continue };
        let (t2, a2) = target(&h2, *n).unwrap();
        if scanned.contains(n) && !a.is_empty() && poly(&h, t) {
            ensure!(a2.is_empty() && inst.get(&key(t, &a)) == Some(&t2), "call-target", "{n} called {t} {a:?}, now {t2} {a2:?}");
        } else {
            ensure!(t == t2 && a == a2, "call-target", "{n} called {t} {a:?}, now {t2} {a2:?}");
        }
    }
    // edges between the old nodes
    for n in &old {
        let st = target(&h, *n).and(h.get_optype(*n).static_input_port());
        let ins = |h: &Hugr| -> Vec<_> {
            h.node_inputs(*n).filter(|p| Some(*p) != st && h.get_optype(*n).port_kind(*p).is_some()).map(|p| (format!("{:?}", h.get_optype(*n).port_kind(p)), h.linked_outputs(*n, p).collect::<Vec<_>>())).collect()
        };
        ensure!(ins(&h) == ins(&h2), "edges-changed", "{n}: {:?} {:?}", ins(&h), ins(&h2));
    }
    pass::same(&rs, &h2, true, Trace::Same)?;
    let mut h3 = h2.clone();
    match no_panic(|| MonomorphizePass.run(&mut h3)) {
        Ok(Ok(())) => {}
        e => return fail("again", format!("{e:?}")),
    }
    ensure!(canon::graph_hash(&h3) == canon::graph_hash(&h2), "again", "{}\n{}", canon::show(&h2), canon::show(&h3));
    pass::label_runs(c, &rs);
    c.label_if(want.len() > 1, "several instances");
    let fs: BTreeSet<Node> = want.values().map(|x| x.0).collect();
    c.label_if(fs.len() < want.len(), "same function twice");
    c.label_if(h.entrypoint() != h.module_root(), "entry below module");
    if !want.is_empty() {
        c.nontrivial(canon::graph_hash(&h));
        c.sample(|| canon::show(&h));
    }
    Ok(())
}
