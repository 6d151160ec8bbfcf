//! C13: constant folding preserves program behaviour.
use crate::canon;
use crate::engine::*;
use crate::gen_::{Gen, Profile};
use crate::interp::{self, Prog, Stop, V};
use super::pass::{self, Trace};
use hugr::algorithms::ComposablePass;
use hugr::algorithms::const_fold::{ConstantFoldPass, constant_fold_pass};
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::dataflow::IOTrait;
use hugr::ops::{self, OpType, Value};
use hugr::types::{Type, TypeRow};
use hugr::{Hugr, HugrView, Node};
use std::collections::HashMap;

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "generated programs (all control flow, calls, collections, consts), folded with the module, a function or a nested region as entrypoint, with declared input values, with or without permission to increase termination, and with non-terminating loops planted, each function run on three random inputs before and after; non-trivial: folding changed the program and at least one run terminates",
        assumptions: &["the harness evaluator gives the meaning of programs", "list length and insert are not used and sign conversions of out-of-range constants may crash (known findings of C14)"],
        subs: vec![
            Sub { name: "fold", quick: 10_000, thorough: 600_000, f: fold },
            Sub { name: "inputs", quick: 5000, thorough: 300_000, f: inputs },
            Sub { name: "loops", quick: 3000, thorough: 150_000, f: loops },
        ],
        findings: vec![Finding { id: "sign-conversion-panic", still_present: super::c14::sign_conversion }],
    }
}
fn fold_profile(t: &mut Tape, size: usize) -> Profile {
    let mut p = pass::profile(t, size);
    p.foldable = true;
    p.consty = t.chance(3, 4);
    p
}
fn crash(what: &str, m: String, at: String) -> R {
    if at.contains("int_ops/const_fold.rs") && (m.starts_with("Cannot convert negative integer") || m.contains("is too large to be converted to signed")) {
        return fail("known:sign-conversion-panic", m);
    }
    fail(format!("{what}-crash"), format!("{m} at {at}"))
}
fn no_inputs() -> [(hugr::IncomingPort, Value); 0] {
    []
}
fn fold(c: &mut Ctx) -> R {
    let p = fold_profile(&mut c.t, 24);
    let g = pass::gen_program(c, &p);
    let mut h = g.hugr;
    let all = pass::mono_funcs(&h);
    // the entrypoint and the kept functions
    let mode = c.t.below(if p.recursion { 3 } else { 4 });
    let mut keep = all.clone();
    match mode {
        0 => h.set_entrypoint(h.module_root()),
        1 => h.set_entrypoint(g.main),
        2 => {
            h.set_entrypoint(h.module_root());
            keep.retain(|_| c.t.flag());
        }
        _ => {
            let cs = pass::containers(&h);
            if !cs.is_empty() {
                let n = *c.t.pick(&cs);
                h.set_entrypoint(n);
            }
        }
    }
    c.note(|| format!("mode {mode} entry {} keep {keep:?}\n", h.entrypoint()));
    let rs = pass::runs(c, &h, &keep, 3)?;
    let before = canon::graph_hash(&h);
    let allow = c.t.chance(1, 4);
    let iface = pass::interface(&h);
    let mut h2 = h.clone();
    let plain = mode != 2 && !allow && c.t.flag();
    let r = no_panic(|| {
        if plain {
            constant_fold_pass(&mut h2);
            return Ok(());
        }
        let mut f = ConstantFoldPass::default();
        if allow {
            f = f.allow_increase_termination();
        }
        if mode == 0 || mode == 2 {
            for n in h2.children(h2.module_root()).filter(|n| h2.get_optype(*n).is_func_defn()) {
                let mono = keep.contains(&n);
                if mode == 0 || mono {
                    f = f.with_inputs(n, no_inputs());
                }
            }
        }
        f.run(&mut h2)
    });
    match r {
        Err((m, at)) => return crash("fold", m, at),
        Ok(Err(e)) => return fail("fold-error", format!("{e}")),
        Ok(Ok(())) => {}
    }
    pass::valid(&h2, "fold")?;
    ensure!(h2.entrypoint() == h.entrypoint(), "entrypoint", "moved");
    if mode != 0 && mode != 2 {
        ensure!(pass::interface(&h2) == iface, "interface", "{iface:?}\n{:?}", pass::interface(&h2));
    } else {
        // nothing new, and the kept functions unchanged
        let i2 = pass::interface(&h2);
        ensure!(i2.iter().all(|x| iface.contains(x)), "interface", "{iface:?}\n{i2:?}");
    }
    pass::same(&rs, &h2, false, Trace::Sub)?;
    // folding again
    let mut h3 = h2.clone();
    if let Err((m, at)) = no_panic(|| {
        let mut f = ConstantFoldPass::default();
        for n in &keep {
            f = f.with_inputs(*n, no_inputs());
        }
        f.run(&mut h3).unwrap()
    }) {
        return crash("refold", m, at);
    }
    pass::valid(&h3, "refold")?;
    pass::same(&rs, &h3, false, Trace::Sub)?;
    pass::label_runs(c, &rs);
    c.label(["module", "main", "some functions", "nested entry"][mode]);
    if canon::graph_hash(&h2) != before && pass::terminates(&rs) {
        c.nontrivial(before);
        c.sample(|| canon::show(&h));
    }
    Ok(())
}
/// Declared values for some inputs of the functions.
fn inputs(c: &mut Ctx) -> R {
    let mut p = fold_profile(&mut c.t, 20);
    p.linear = c.t.chance(1, 3);
    let g = pass::gen_program(c, &p);
    let mut h = g.hugr;
    let module = c.t.flag();
    h.set_entrypoint(if module { h.module_root() } else { g.main });
    let mut keep = if module { pass::mono_funcs(&h) } else { vec![g.main] };
    if module && c.t.flag() {
        keep.retain(|n| *n == g.main);
    }
    let mut given: HashMap<Node, HashMap<usize, Value>> = HashMap::new();
    for f in &keep {
        let OpType::FuncDefn(d) = h.get_optype(*f) else { continue };
        let ins = d.signature().body().input().clone();
        let mut m = HashMap::new();
        for (i, ty) in ins.iter().enumerate() {
            if ty.copyable() && c.t.chance(2, 3) {
                let v = Gen::new(&mut c.t, p.clone()).const_value(ty, 2);
                if let Some(v) = v {
                    m.insert(i, v);
                }
            }
        }
        given.insert(*f, m);
    }
    c.note(|| format!("module {module} given {given:?}"));
    let mut rs = vec![];
    let pr = Prog::new(&h);
    for f in &keep {
        for _ in 0..2 {
            let Some(mut a) = pass::args(&mut c.t, &h, *f) else { break };
            for (i, v) in &given[f] {
                match interp::const_to_v(v, &mut |h| Prog::new(h)) {
                    Ok(v) => a[*i] = v,
                    Err(_) => return Ok(()),
                }
            }
            let out = interp::run_prog(&pr, pr.ix(*f), &a, pass::FUEL);
            rs.push(pass::Run { func: *f, args: a, out, fixed: false });
        }
    }
    let mut f = ConstantFoldPass::default();
    if c.t.chance(1, 4) {
        f = f.allow_increase_termination();
    }
    for n in &keep {
        // in one or two calls
        let m = &given[n];
        let mut l: Vec<(hugr::IncomingPort, Value)> = m.iter().map(|(i, v)| ((*i).into(), v.clone())).collect();
        l.sort_by_key(|x| x.0);
        if c.t.flag() {
            let k = c.t.below(l.len() + 1);
            let rest = l.split_off(k);
            f = f.with_inputs(*n, rest);
        }
        f = f.with_inputs(*n, l);
    }
    let mut h2 = h.clone();
    match no_panic(|| f.run(&mut h2)) {
        Err((m, at)) => return crash("inputs", m, at),
        Ok(Err(e)) => return fail("inputs-error", format!("{e}")),
        Ok(Ok(())) => {}
    }
    pass::valid(&h2, "inputs")?;
    pass::same(&rs, &h2, false, Trace::Sub)?;
    pass::label_runs(c, &rs);
    if canon::graph_hash(&h2) != canon::graph_hash(&h) && pass::terminates(&rs) && given.values().any(|m| !m.is_empty()) {
        c.nontrivial(canon::graph_hash(&h));
    }
    Ok(())
}
/// Adds something that never ends to a region: a loop or a graph or a call of
/// a function that holds one.
fn forever(c: &mut Ctx, h: &mut Hugr, parent: Node) -> Node {
    let unit2 = Type::new_unit_sum(2);
    match c.t.below(3) {
        0 => {
            let l = h.add_node_with_parent(parent, ops::TailLoop { just_inputs: TypeRow::new(), just_outputs: TypeRow::new(), rest: TypeRow::new() });
            h.add_node_with_parent(l, ops::Input::new(TypeRow::new()));
            let o = h.add_node_with_parent(l, ops::Output::new(vec![unit2.clone()]));
            predicate(c, h, l, o, 0, &unit2);
            l
        }
        1 => {
            let g = h.add_node_with_parent(parent, ops::CFG { signature: hugr::types::Signature::new_endo(TypeRow::new()) });
            let b = h.add_node_with_parent(g, ops::DataflowBlock { inputs: TypeRow::new(), other_outputs: TypeRow::new(), sum_rows: vec![TypeRow::new(); 2] });
            let x = h.add_node_with_parent(g, ops::ExitBlock { cfg_outputs: TypeRow::new() });
            h.add_node_with_parent(b, ops::Input::new(TypeRow::new()));
            let o = h.add_node_with_parent(b, ops::Output::new(vec![unit2.clone()]));
            predicate(c, h, b, o, 1, &unit2);
            h.connect(b, 0, x, 0);
            if c.t.flag() {
                h.connect(b, 1, b, 0);
            } else {
                // by way of a second block
                let unit1 = Type::new_unit_sum(1);
                let b2 = h.add_node_with_parent(g, ops::DataflowBlock { inputs: TypeRow::new(), other_outputs: TypeRow::new(), sum_rows: vec![TypeRow::new()] });
                h.add_node_with_parent(b2, ops::Input::new(TypeRow::new()));
                let o = h.add_node_with_parent(b2, ops::Output::new(vec![unit1.clone()]));
                predicate(c, h, b2, o, 0, &unit1);
                h.connect(b, 1, b2, 0);
                h.connect(b2, 0, b, 0);
            }
            g
        }
        _ => {
            let f = h.add_node_with_parent(h.module_root(), ops::FuncDefn::new("spin", hugr::types::Signature::new_endo(TypeRow::new())));
            let i = h.add_node_with_parent(f, ops::Input::new(TypeRow::new()));
            let o = h.add_node_with_parent(f, ops::Output::new(TypeRow::new()));
            let _ = (i, o);
            let inner = if c.t.flag() { h.entrypoint() } else { f };
            let inner = if inner == f || !h.get_optype(inner).is_func_defn() { f } else { f };
            // calls itself
            let call = ops::Call::try_new(hugr::types::Signature::new_endo(TypeRow::new()).into(), []).unwrap();
            let n = h.add_node_with_parent(inner, call.clone());
            h.connect(f, 0, n, 0);
            let n = h.add_node_with_parent(parent, call);
            h.connect(f, 0, n, 0);
            n
        }
    }
}
fn predicate(c: &mut Ctx, h: &mut Hugr, parent: Node, out: Node, tag: usize, ty: &Type) {
    let n = if c.t.flag() {
        let k = ty.as_sum().unwrap().num_variants();
        h.add_node_with_parent(parent, ops::Tag::new(tag, vec![TypeRow::new(); k]))
    } else {
        let v = Value::sum(tag, [], ty.as_sum().unwrap().clone()).unwrap();
        let k = h.add_node_with_parent(parent, ops::Const::new(v));
        let l = h.add_node_with_parent(parent, ops::LoadConstant { datatype: ty.clone() });
        h.connect(k, 0, l, 0);
        l
    };
    h.connect(n, 0, out, 0);
}
/// A program that never ends must not end after folding, unless allowed.
fn loops(c: &mut Ctx) -> R {
    let mut p = fold_profile(&mut c.t, 10);
    p.bounded = true;
    p.panics = false;
    p.partial = false;
    p.recursion = false;
    let g = pass::gen_program(c, &p);
    let mut h = g.hugr;
    // in main, or in a dataflow region of it
    let places: Vec<Node> = h.children(g.main).filter(|n| h.get_optype(*n).is_dfg()).chain([g.main]).collect();
    let at = *c.t.pick(&places);
    h.set_entrypoint(g.main);
    let n = forever(c, &mut h, at);
    c.note(|| format!("forever at {n}\n{}", canon::show(&h)));
    if let Err(e) = h.validate() {
        return fail("harness-invalid", format!("{e}\n{}", canon::show(&h)));
    }
    let Some(a) = pass::args(&mut c.t, &h, g.main) else { return Ok(()) };
    let o = interp::run_prog(&Prog::new(&h), Prog::new(&h).ix(g.main), &a, 3000);
    ensure!(o.res == Err(Stop::Fuel), "harness-loop", "{:?}", o.res);
    if c.t.flag() {
        h.set_entrypoint(h.module_root());
    }
    let allow = c.t.chance(1, 4);
    let mut f = ConstantFoldPass::default();
    for n in pass::mono_funcs(&h) {
        f = f.with_inputs(n, no_inputs());
    }
    if allow {
        f = f.allow_increase_termination();
    }
    let mut h2 = h.clone();
    match no_panic(|| f.run(&mut h2)) {
        Err((m, at)) => return crash("loops", m, at),
        Ok(Err(e)) => return fail("loops-error", format!("{e}")),
        Ok(Ok(())) => {}
    }
    pass::valid(&h2, "loops")?;
    c.nontrivial(canon::graph_hash(&h));
    if allow {
        c.label("allowed");
        return Ok(());
    }
    let pr = Prog::new(&h2);
    let o2 = interp::run_prog(&pr, pr.ix(g.main), &a, 3000);
    ensure!(o2.res == Err(Stop::Fuel), "termination", "never ended, now {:?}\n{}", o2.res, canon::show(&h2));
    Ok(())
}
#[allow(unused)]
fn _v(_: V) {}
