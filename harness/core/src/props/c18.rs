//! C18: inlining passes preserve behaviour and inline what they claim.
use crate::canon;
use crate::engine::*;
use super::pass::{self, Trace};
use hugr::algorithms::{ComposablePass, inline_acyclic, inline_dfgs::InlineDFGsPass};
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::OpType;
use hugr::{Hugr, HugrView, Node};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        rule: "generated programs with nested dataflow regions, order edges and effects, call graphs with cycles and polymorphic functions, module, function or nested entrypoint, random call predicates; what is left is compared with a reference expansion, and runs before and after; non-trivial: something inlined",
        assumptions: &["inlining into more than 4000 calls is skipped"],
        subs: vec![
            Sub { name: "dfgs", quick: 7000, thorough: 500_000, f: dfgs },
            Sub { name: "calls", quick: 7000, thorough: 500_000, f: calls },
        ],
        findings: vec![],
    }
}
fn entry(c: &mut Ctx, h: &mut Hugr) {
    match c.t.below(4) {
        0 | 1 => h.set_entrypoint(h.module_root()),
        2 => {
            let f: Vec<Node> = h.children(h.module_root()).filter(|n| h.get_optype(*n).is_func_defn()).collect();
            h.set_entrypoint(*c.t.pick(&f));
        }
        _ => {
            let cs = pass::containers(h);
            if !cs.is_empty() {
                let n = *c.t.pick(&cs);
                h.set_entrypoint(n);
            }
        }
    }
    c.note(|| format!("entry {}", h.entrypoint()));
}
fn dfgs(c: &mut Ctx) -> R {
    let mut p = pass::profile(&mut c.t, 26);
    p.nested = true;
    p.order = c.t.flag();
    p.effects = c.t.chance(2, 3);
    p.depth = 1 + c.t.below(4);
    let g = pass::gen_program(c, &p);
    let mut h = g.hugr;
    entry(c, &mut h);
    let all = pass::mono_funcs(&h);
    let rs = pass::runs(c, &h, &all, 2)?;
    let mut h2 = h.clone();
    match no_panic(|| InlineDFGsPass.run(&mut h2)) {
        Err((m, at)) => return fail("dfgs-crash", format!("{m} at {at}")),
        Ok(Err(e)) => match e {},
        Ok(Ok(())) => {}
    }
    pass::valid(&h2, "dfgs")?;
    ensure!(h2.entrypoint() == h.entrypoint(), "entrypoint", "");
    ensure!(pass::interface(&h2) == pass::interface(&h), "interface", "");
    let inside: BTreeSet<Node> = h.entry_descendants().skip(1).collect();
    let gone: BTreeSet<Node> = inside.iter().copied().filter(|n| h.get_optype(*n).is_dfg()).flat_map(|n| [Some(n), h.get_io(n).map(|x| x[0]), h.get_io(n).map(|x| x[1])]).flatten().collect();
    let a: BTreeSet<Node> = h.nodes().filter(|n| !gone.contains(n)).collect();
    let b: BTreeSet<Node> = h2.nodes().collect();
    ensure!(a == b, "nodes", "expected {a:?}\nfound {b:?}\n{}", canon::show(&h));
    for n in &b {
        ensure!(canon::op(h.get_optype(*n), true) == canon::op(h2.get_optype(*n), true), "op-changed", "{n}");
        let mut q = h.get_parent(*n);
        while let Some(x) = q {
            if !gone.contains(&x) {
                break;
            }
            q = h.get_parent(x);
        }
        ensure!(q == h2.get_parent(*n), "parent", "{n} is in {:?}", h2.get_parent(*n));
        ensure!(canon::metadata(&h, *n) == canon::metadata(&h2, *n), "metadata", "{n}");
    }
    pass::same(&rs, &h2, true, Trace::Same)?;
    pass::label_runs(c, &rs);
    if !gone.is_empty() {
        c.nontrivial(canon::graph_hash(&h));
        c.sample(|| canon::show(&h));
    }
    Ok(())
}
/// Functions on a cycle of the call graph.
fn cyclic(h: &Hugr) -> BTreeSet<Node> {
    let defs: Vec<Node> = h.children(h.module_root()).filter(|n| h.get_optype(*n).is_func_defn()).collect();
    let next: BTreeMap<Node, BTreeSet<Node>> = defs
        .iter()
        .map(|f| (*f, h.descendants(*f).filter(|n| matches!(h.get_optype(*n), OpType::Call(_) | OpType::LoadFunction(_))).filter_map(|n| h.static_source(n)).collect()))
        .collect();
    defs.iter()
        .copied()
        .filter(|f| {
            let mut seen: BTreeSet<Node> = next[f].clone();
            let mut todo: Vec<Node> = seen.iter().copied().collect();
            while let Some(x) = todo.pop() {
                for y in next.get(&x).into_iter().flatten() {
                    if seen.insert(*y) {
                        todo.push(*y);
                    }
                }
            }
            seen.contains(f)
        })
        .collect()
}
fn calls(c: &mut Ctx) -> R {
    let mut p = pass::profile(&mut c.t, 14);
    p.funcs = 1 + c.t.below(6);
    p.poly = c.t.flag();
    p.recursion = c.t.flag();
    p.decls = c.t.chance(1, 3);
    p.order = c.t.flag();
    let g = pass::gen_program(c, &p);
    let mut h = g.hugr;
    entry(c, &mut h);
    let cyc = cyclic(&h);
    // the predicate goes by the called function
    let funcs: Vec<Node> = h.children(h.module_root()).collect();
    let no: BTreeSet<Node> = if c.t.flag() { BTreeSet::new() } else { funcs.iter().copied().filter(|_| c.t.chance(1, 3)).collect() };
    c.note(|| format!("not inlined {no:?}, cyclic {cyc:?}"));
    let ok = |t: Node| h.get_optype(t).is_func_defn() && !cyc.contains(&t) && !no.contains(&t);
    // what is called in the end, and how often
    fn expand(h: &Hugr, root: Node, ok: &dyn Fn(Node) -> bool, out: &mut BTreeMap<(Node, bool), usize>, budget: &mut usize) {
        for n in h.descendants(root) {
            match h.get_optype(n) {
                OpType::Call(_) => {}
                OpType::LoadFunction(_) => {
                    *out.entry((h.static_source(n).unwrap(), false)).or_default() += 1;
                    continue;
                }
                _ => continue,
            }
            if *budget == 0 {
                return;
            }
            *budget -= 1;
            let t = h.static_source(n).unwrap();
            if ok(t) {
                expand(h, t, ok, out, budget);
            } else {
                *out.entry((t, true)).or_default() += 1;
            }
        }
    }
    let mut budget = 4000;
    let mut want: BTreeMap<(Node, bool), usize> = BTreeMap::new();
    // with the module as entrypoint, calls in the callees are inlined too
    expand(&h, h.entrypoint(), &ok, &mut want, &mut budget);
    if budget == 0 {
        return Ok(());
    }
    let all = pass::mono_funcs(&h);
    let rs = pass::runs(c, &h, &all, 2)?;
    let mut h2 = h.clone();
    let asked = RefCell::new(vec![]);
    match no_panic(|| {
        inline_acyclic(&mut h2, |h: &Hugr, n| {
            let t = h.static_source(n).unwrap();
            asked.borrow_mut().push((n, t));
            !no.contains(&t)
        })
    }) {
        Err((m, at)) => return fail("calls-crash", format!("{m} at {at}")),
        Ok(Err(e)) => return fail("calls-error", format!("{e:?}")),
        Ok(Ok(())) => {}
    }
    pass::valid(&h2, "calls")?;
    ensure!(h2.entrypoint() == h.entrypoint(), "entrypoint", "");
    ensure!(pass::interface(&h2) == pass::interface(&h), "interface", "");
    for (n, t) in asked.borrow().iter() {
        ensure!(h.get_optype(*t).is_func_defn() && !cyc.contains(t), "asked", "asked about {n}, a call of {t}");
    }
    let mut got: BTreeMap<(Node, bool), usize> = BTreeMap::new();
    expand(&h2, h2.entrypoint(), &|_| false, &mut got, &mut 1_000_000);
    ensure!(got == want, "wrong-calls", "left {got:?}, expected {want:?}\n{}", canon::show(&h));
    // outside the entrypoint nothing changes
    let inside: BTreeSet<Node> = h.entry_descendants().collect();
    for n in h.nodes().filter(|n| !inside.contains(n)) {
        ensure!(canon::op(h.get_optype(n), true) == canon::op(h2.get_optype(n), true), "op-changed", "{n}");
        ensure!(h.input_neighbours(n).collect::<Vec<_>>() == h2.input_neighbours(n).collect::<Vec<_>>(), "edges-changed", "{n}");
    }
    pass::same(&rs, &h2, true, Trace::Same)?;
    pass::label_runs(c, &rs);
    c.label_if(!cyc.is_empty(), "cycles");
    c.label_if(!no.is_empty(), "predicate");
    if h2.num_nodes() != h.num_nodes() {
        c.nontrivial(canon::graph_hash(&h));
        c.sample(|| canon::show(&h));
    }
    Ok(())
}
