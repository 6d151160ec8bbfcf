//! C21: replacing types and operations is complete and consistent.
use super::pass;
use crate::engine::*;
use crate::ext::{self, EXT, EXT2, LOW};
use crate::gen_::Profile;
use crate::{canon, interp};
use hugr::algorithms::replace_types::{DelegatingLinearizer, LinearizeError, Linearizer, NodeTemplate, ReplaceTypesError};
use hugr::algorithms::{ComposablePass, LinearizeArrayPass, ReplaceTypes, lower_ops, replace_many_ops};
use hugr::builder::{CFGBuilder, DFGBuilder, Dataflow, DataflowHugr, FunctionBuilder, HugrBuilder, TailLoopBuilder};
use hugr::extension::prelude::bool_t;
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::constant::CustomSerialized;
use hugr::ops::{ExtensionOp, OpTrait, OpType, Tag, Value};
use hugr::std_extensions::arithmetic::int_ops::IntOpDef;
use hugr::std_extensions::arithmetic::int_types::INT_TYPES;
use hugr::std_extensions::collections::{array, borrow_array, list, static_array, value_array};
use hugr::types::{Signature, SumType, Transformable, Type, TypeArg, TypeRow};
use hugr::{Hugr, HugrView, Node};
use std::collections::HashSet;
use std::rc::Rc;

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        rule: "generated programs under generated mappings: an opaque copyable type to a copyable or linear one (directly or in two steps), operations with the same meaning given as one node, a graph (dataflow, loop, control flow) or a call; value arrays to linear arrays; lowering and replacing by a function on operations. No replaced item remains anywhere, the result validates, behaves the same, and unrelated nodes and links are as before; generated copies of every type make exactly equal values; non-trivial: something was replaced",
        assumptions: &["the interpreter gives lowered items the meaning of what they replace"],
        subs: vec![
            Sub { name: "replace", quick: 14_000, thorough: 900_000, f: replace },
            Sub { name: "linear", quick: 14_000, thorough: 900_000, f: linear },
            Sub { name: "copies", quick: 8000, thorough: 500_000, f: copies },
            Sub { name: "arrays", quick: 6000, thorough: 400_000, f: arrays },
            Sub { name: "lower", quick: 8000, thorough: 500_000, f: lower },
        ],
        findings: vec![],
    }
}
fn low(n: &str) -> Type {
    Type::new_extension(LOW.get_type(n).unwrap().instantiate([]).unwrap())
}
fn low_op(n: &str, a: Vec<TypeArg>) -> OpType {
    ext::ext_op(&LOW, n, a)
}
fn vt_op(n: &str, a: Vec<TypeArg>) -> ExtensionOp {
    ExtensionOp::new(EXT.get_op(n).unwrap().clone(), a).unwrap()
}
/// Whether `item` (a qualified name) occurs in `s`.
fn has(s: &str, item: &str) -> bool {
    let mut at = 0;
    while let Some(i) = s[at..].find(item) {
        let e = at + i + item.len();
        let b = s[..at + i].chars().next_back();
        let ok = |c: Option<char>| !c.is_some_and(|c| c.is_alphanumeric() || c == '_' || c == '.');
        if ok(s[e..].chars().next()) && ok(b) {
            return true;
        }
        at = e;
    }
    false
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Shape {
    One,
    Dfg,
    Loop,
    Cfg,
}
fn shape(c: &mut Ctx, poly: bool) -> Shape {
    if poly {
        // graphs as templates cannot use type variables
        return Shape::One;
    }
    *c.t.pick(&[Shape::One, Shape::Dfg, Shape::Loop, Shape::Cfg])
}
/// `op` as a template.
fn wrap(op: OpType, s: Shape) -> NodeTemplate {
    let sig = op.dataflow_signature().unwrap().into_owned();
    NodeTemplate::CompoundOp(Box::new(match s {
        Shape::One => return NodeTemplate::SingleOp(op),
        Shape::Dfg => {
            let mut b = DFGBuilder::new(sig).unwrap();
            let i = b.input_wires().collect::<Vec<_>>();
            let o = b.add_dataflow_op(op, i).unwrap();
            b.finish_hugr_with_outputs(o.outputs()).unwrap()
        }
        Shape::Loop => {
            let mut b = TailLoopBuilder::new(sig.input.clone(), TypeRow::new(), sig.output.clone()).unwrap();
            let i = b.input_wires().collect::<Vec<_>>();
            let o = b.add_dataflow_op(op, i).unwrap();
            let t = b.add_dataflow_op(Tag::new(1, vec![sig.input.clone(), sig.output.clone()]), o.outputs()).unwrap();
            b.finish_hugr_with_outputs(t.outputs()).unwrap()
        }
        Shape::Cfg => {
            let mut b = CFGBuilder::new(sig.clone()).unwrap();
            let e = {
                let mut e = b.simple_entry_builder(sig.output.clone(), 1).unwrap();
                let i = e.input_wires().collect::<Vec<_>>();
                let o = e.add_dataflow_op(op, i).unwrap();
                let t = e.add_dataflow_op(Tag::new(0, vec![TypeRow::new()]), []).unwrap();
                e.finish_with_outputs(t.out_wire(0), o.outputs()).unwrap()
            };
            let x = b.exit_block();
            b.branch(&e, 0, &x).unwrap();
            b.finish_hugr().unwrap()
        }
    }))
}
/// A function doing `op`, added to the module.
fn func(h: &mut Hugr, name: &str, op: OpType) -> Node {
    let sig = op.dataflow_signature().unwrap().into_owned();
    let mut b = FunctionBuilder::new(name, sig).unwrap();
    let i = b.input_wires().collect::<Vec<_>>();
    let o = b.add_dataflow_op(op, i).unwrap();
    let f = b.finish_hugr_with_outputs(o.outputs()).unwrap();
    let n = f.entrypoint();
    let r = h.module_root();
    let m = h.insert_hugr(r, f);
    m.node_map.get(&n).copied().unwrap_or(m.inserted_entrypoint)
}
struct Setup {
    rt: ReplaceTypes,
    gone: Vec<&'static str>,
    what: String,
}
/// Replaces operations by others of the same meaning.
fn ops(c: &mut Ctx, s: &mut Setup, h: &mut Hugr, to: Option<&'static str>, calls: bool, poly: bool) {
    // k and args mention the type in their own signatures
    if to.is_some() || c.t.flag() {
        let n = to.unwrap_or("");
        let k = if to.is_some() { format!("k_{n}") } else { String::new() };
        if to.is_some() {
            let sh = shape(c, poly);
            let t = if calls && !poly && c.t.chance(1, 3) {
                let f = func(h, "wrapped_k", low_op(&k, vec![]));
                s.what += " k:call";
                NodeTemplate::Call(f, vec![])
            } else {
                s.what += &format!(" k:{sh:?}");
                wrap(low_op(&k, vec![]), sh)
            };
            if c.t.flag() {
                s.rt.set_replace_op(&vt_op("k", vec![]), t);
            } else {
                s.rt.set_replace_parametrized_op(EXT.get_op("k").unwrap(), move |_, _| Ok(Some(t.clone())));
            }
            s.gone.push("vtest.k");
            let a = format!("args_{n}");
            let sh = shape(c, poly);
            s.rt.set_replace_parametrized_op(EXT.get_op("args").unwrap(), move |x, _| Ok(Some(wrap(low_op(&a, x.to_vec()), sh))));
            s.gone.push("vtest.args");
        }
    }
    if to == Some("L") || c.t.chance(1, 3) {
        let sh = shape(c, poly);
        s.rt.set_replace_parametrized_op(EXT.get_op("dup").unwrap(), move |x, _| Ok(Some(wrap(low_op("dup", x.to_vec()), sh))));
        s.gone.push("vtest.dup");
    }
    for n in ["f", "eff"] {
        if c.t.chance(1, 3) {
            let sh = shape(c, poly);
            s.rt.set_replace_parametrized_op(EXT.get_op(n).unwrap(), move |x, _| Ok(Some(wrap(low_op(n, x.to_vec()), sh))));
            s.gone.push(if n == "f" { "vtest.f" } else { "vtest.eff" });
            s.what += &format!(" {n}:{sh:?}");
        }
    }
    if !poly && c.t.chance(1, 3) {
        // a + b = a - (-b), for every width
        let t = |w: u8| {
            let it = INT_TYPES[w as usize].clone();
            let mut b = DFGBuilder::new(Signature::new(vec![it.clone(); 2], vec![it])).unwrap();
            let [x, y] = b.input_wires_arr();
            let n = b.add_dataflow_op(IntOpDef::ineg.with_log_width(w), [y]).unwrap();
            let o = b.add_dataflow_op(IntOpDef::isub.with_log_width(w), [x, n.out_wire(0)]).unwrap();
            NodeTemplate::CompoundOp(Box::new(b.finish_hugr_with_outputs(o.outputs()).unwrap()))
        };
        if c.t.flag() {
            for w in 0..7u8 {
                let o: OpType = IntOpDef::iadd.with_log_width(w).into();
                s.rt.set_replace_op(o.as_extension_op().unwrap(), t(w));
            }
        } else {
            let d = hugr::std_extensions::arithmetic::int_ops::EXTENSION.get_op("iadd").unwrap().clone();
            s.rt.set_replace_parametrized_op(&d, move |a, _| {
                Ok(match a {
                    [TypeArg::BoundedNat(n)] => Some(t(*n as u8)),
                    _ => None,
                })
            });
        }
        s.what += " iadd";
        s.gone.push("arithmetic.int.iadd");
    }
}
fn polymorphic(h: &Hugr) -> bool {
    h.nodes().any(|n| match h.get_optype(n) {
        OpType::FuncDefn(f) => !f.signature().params().is_empty(),
        OpType::FuncDecl(f) => !f.signature().params().is_empty(),
        _ => false,
    })
}
fn text(h: &Hugr, n: Node) -> String {
    canon::op(h.get_optype(n), false)
}
fn fn_consts(h: &Hugr) -> bool {
    fn f(v: &Value) -> bool {
        match v {
            Value::Function { .. } => true,
            Value::Sum(s) => s.values.iter().any(f),
            Value::Extension { .. } => canon::value(v).contains("fn"),
        }
    }
    h.nodes().any(|n| matches!(h.get_optype(n), OpType::Const(k) if f(k.value())))
}
fn profile(c: &mut Ctx) -> Profile {
    let size = 18;
    Profile {
        custom_consts: c.t.flag(),
        collections: c.t.flag(),
        poly: c.t.chance(1, 3),
        fn_consts: c.t.chance(1, 3),
        indirect: c.t.flag(),
        opaque: true,
        ..pass::profile(&mut c.t, size)
    }
}
/// Constants of opaque types keep their content.
fn consts(rt: &mut ReplaceTypes) {
    for (e, n) in [(&*EXT, "T"), (&*EXT, "P"), (&*EXT2, "P")] {
        rt.replace_consts_parametrized(e.get_type(n).unwrap(), |v, r| {
            let mut t = v.get_type();
            if !t.transform(r)? {
                return Ok(None);
            }
            let j = match v.value().downcast_ref::<CustomSerialized>() {
                Some(s) => s.value().clone(),
                None => panic!("constant {v:?}"),
            };
            Ok(Some(CustomSerialized::new(t, j).into()))
        });
    }
    rt.replace_consts_parametrized(borrow_array::borrow_array_type_def(), hugr::algorithms::replace_types::handlers::generic_array_const::<borrow_array::BorrowArray>);
    rt.replace_consts_parametrized(static_array::EXTENSION.get_type("static_array").unwrap(), |v, r| {
        let Some(a) = v.value().downcast_ref::<static_array::StaticArrayValue>() else { return Ok(None) };
        let mut t = a.get_element_type().clone();
        let mut vs = a.get_contents().to_vec();
        let mut ch = t.transform(r)?;
        for x in &mut vs {
            ch |= r.change_value(x)?;
        }
        if !ch {
            return Ok(None);
        }
        Ok(Some(static_array::StaticArrayValue::try_new("arr", t, vs).map_err(ReplaceTypesError::from)?.into()))
    });
}
/// What must be as before: nodes, their parents and order, unrelated operations and links.
fn untouched(before: &Hugr, after: &Hugr, touched: &dyn Fn(&str) -> bool, linear: bool) -> R {
    let mut ok_links = 0;
    for n in before.nodes() {
        ensure!(after.contains_node(n), "node-lost", "{n} {} is gone", text(before, n));
        ensure!(before.get_parent(n) == after.get_parent(n), "node-moved", "{n}");
        ensure!(canon::metadata(before, n) == canon::metadata(after, n), "metadata", "{n}");
        let t = text(before, n);
        if !touched(&t) {
            ensure!(text(after, n) == t, "unrelated-changed", "{n} {t} is now {}", text(after, n));
        }
        let ks: Vec<_> = before.children(n).collect();
        let mut it = after.children(n);
        ensure!(ks.iter().all(|k| it.any(|x| x == *k)), "child-order", "children of {n}");
        for o in before.node_outputs(n) {
            let Some(hugr::types::EdgeKind::Value(ty)) = before.get_optype(n).port_kind(o) else { continue };
            if linear && touched(&canon::ty(&ty)) {
                continue;
            }
            for (m, i) in before.linked_inputs(n, o) {
                ensure!(after.linked_outputs(m, i).any(|x| x == (n, o)), "link-lost", "{n}.{o} to {m}.{i}");
                ok_links += 1;
            }
        }
    }
    let _ = ok_links;
    Ok(())
}
fn gone(h: &Hugr, items: &[&str]) -> R {
    for n in h.nodes() {
        let t = text(h, n);
        for g in items {
            ensure!(!has(&t, g), "left-over", "{g} still occurs in {n} {t}\n{}", canon::show(h));
        }
    }
    Ok(())
}
fn run<P: ComposablePass<Hugr, Error = ReplaceTypesError, Result = bool>>(p: &P, h: &mut Hugr) -> Result<Result<bool, ReplaceTypesError>, Fail> {
    no_panic(|| p.run(h)).map_err(|(m, at)| Fail { sig: format!("panic:{at}"), msg: m })
}
/// Operations, and a type to another copyable one.
fn replace(c: &mut Ctx) -> R {
    let p = profile(c);
    let mut h = pass::gen_program(c, &p).hugr;
    let fc = fn_consts(&h);
    let mut s = Setup { rt: ReplaceTypes::default(), gone: vec![], what: String::new() };
    consts(&mut s.rt);
    let to = if c.t.chance(2, 3) { Some("C") } else { None };
    if to.is_some() {
        let d = EXT.get_type("T").unwrap();
        if c.t.flag() {
            s.rt.set_replace_type(ext::t_ty().as_extension().unwrap().clone(), low("C"));
        } else {
            s.rt.set_replace_parametrized_type(d, |_| Some(low("C")));
        }
        s.gone.push("vtest.T");
    }
    let poly = polymorphic(&h);
    ops(c, &mut s, &mut h, to, !fc, poly);
    let before = h.clone();
    let funcs = pass::mono_funcs(&h);
    let rs = pass::runs(c, &h, &funcs, 2)?;
    c.note(|| format!("{} gone {:?}", s.what, s.gone));
    let hit = |t: &str| s.gone.iter().any(|g| has(t, g));
    // only some functions?
    let regions: Option<Vec<Node>> = (to.is_none() && c.t.chance(1, 3)).then(|| {
        let fs: Vec<Node> = h.children(h.module_root()).filter(|n| h.get_optype(*n).is_func_defn()).collect();
        fs.into_iter().filter(|_| c.t.flag()).collect()
    });
    if let Some(r) = &regions {
        s.rt.set_regions(r.clone());
    }
    let inside = |n: Node| regions.as_ref().is_none_or(|r| std::iter::successors(Some(n), |n| before.get_parent(*n)).any(|n| r.contains(&n)));
    let any = before.nodes().any(|n| inside(n) && hit(&text(&before, n)));
    let r = match run(&s.rt, &mut h)? {
        Ok(b) => b,
        Err(e) => return fail("refused", format!("{e}\n{}", canon::show(&before))),
    };
    pass::valid(&h, "replaced")?;
    if regions.is_none() {
        gone(&h, &s.gone)?;
    } else {
        for n in before.nodes() {
            if inside(n) {
                ensure!(!hit(&text(&h, n)), "left-over", "{n} {}\n{}", text(&h, n), canon::show(&h));
            } else {
                ensure!(text(&h, n) == text(&before, n), "outside-changed", "{n} {}\n{}", text(&h, n), canon::show(&h));
            }
        }
        c.label("regions");
    }
    untouched(&before, &h, &hit, false)?;
    ensure!(r || canon::graph_text(&h) == canon::graph_text(&before), "changed", "says nothing changed, but\n{}", canon::show(&h));
    ensure!(!any || r, "changed", "says nothing changed");
    pass::same(&rs, &h, true, pass::Trace::Same)?;
    pass::label_runs(c, &rs);
    c.label_if(to.is_some(), "type");
    c.label_if(any, "changed");
    if any {
        c.nontrivial(canon::graph_hash(&before));
    }
    Ok(())
}
/// Any number of copies of any type, by one operation.
fn copyn(t: Type, n: usize) -> NodeTemplate {
    let l = TypeArg::new_list(vec![TypeArg::from(t.clone()); n]);
    NodeTemplate::SingleOp(low_op("copyn", vec![t.into(), l]))
}
fn linearizer(c: &mut Ctx, l: &mut DelegatingLinearizer, h: Option<&mut Hugr>) {
    let poly = false;
    let sh = shape(c, poly);
    let copy = wrap(low_op("copy_L", vec![]), sh);
    let sh = shape(c, poly);
    let disc = match h {
        Some(h) => NodeTemplate::Call(func(h, "discard_L", low_op("disc_L", vec![])), vec![]),
        None => wrap(low_op("disc_L", vec![]), sh),
    };
    if c.t.chance(1, 4) {
        l.register_callback(LOW.get_type("L").unwrap(), |_, n, _| Ok(copyn(low("L"), n)));
    } else {
        l.register_simple(low("L").as_extension().unwrap().clone(), copy, disc).unwrap();
    }
    for (e, n) in [(&*EXT, "P"), (&*EXT2, "P")] {
        let d = e.get_type(n).unwrap();
        let d2 = d.clone();
        l.register_callback(d, move |a, n, _| Ok(copyn(Type::new_extension(d2.instantiate(a.to_vec()).unwrap()), n)));
    }
    let d = list::list_type_def();
    l.register_callback(d, move |a, n, _| Ok(copyn(Type::new_extension(d.instantiate(a.to_vec()).unwrap()), n)));
}
/// A copyable type that becomes linear.
fn linear(c: &mut Ctx) -> R {
    let p = Profile { nonlocal: c.t.chance(1, 6), poly: false, ..profile(c) };
    let mut h = pass::gen_program(c, &p).hugr;
    let fc = fn_consts(&h);
    let mut s = Setup { rt: ReplaceTypes::default(), gone: vec!["vtest.T"], what: String::new() };
    consts(&mut s.rt);
    let two_steps = c.t.chance(1, 4);
    let t = ext::t_ty().as_extension().unwrap().clone();
    if two_steps {
        s.rt.set_replace_type(t, low("C"));
        s.rt.set_replace_type(low("C").as_extension().unwrap().clone(), low("L"));
        s.gone.push("vtest.low.C");
    } else if c.t.flag() {
        s.rt.set_replace_type(t, low("L"));
    } else {
        s.rt.set_replace_parametrized_type(EXT.get_type("T").unwrap(), |_| Some(low("L")));
    }
    // the type on its own only: then discards may be calls
    let alone = !fc
        && h.nodes().all(|n| {
            let o = h.get_optype(n);
            o.dataflow_signature().is_none_or(|g| g.output.iter().all(|t| *t == ext::t_ty() || !has(&canon::ty(t), "vtest.T")))
        });
    let by_call = alone && c.t.flag();
    linearizer(c, s.rt.linearizer_mut(), by_call.then_some(&mut h));
    ops(c, &mut s, &mut h, Some("L"), !fc, false);
    let before = h.clone();
    let funcs = pass::mono_funcs(&h);
    let rs = pass::runs(c, &h, &funcs, 2)?;
    c.note(|| format!("{} gone {:?}", s.what, s.gone));
    let hit = |t: &str| s.gone.iter().any(|g| has(t, g));
    let any = before.nodes().any(|n| hit(&text(&before, n)));
    // which edges would become linear and leave their region?
    let mut nonlocal = false;
    let mut copied = false;
    for n in before.nodes() {
        for o in before.node_outputs(n) {
            if let Some(hugr::types::EdgeKind::Value(ty)) = before.get_optype(n).port_kind(o)
                && has(&canon::ty(&ty), "vtest.T")
            {
                nonlocal |= before.linked_inputs(n, o).any(|(m, _)| before.get_parent(m) != before.get_parent(n));
                copied |= before.linked_inputs(n, o).count() != 1;
            }
        }
    }
    match run(&s.rt, &mut h)? {
        Ok(r) => ensure!(!any || r, "changed", "says nothing changed"),
        Err(ReplaceTypesError::LinearizeError(LinearizeError::NoLinearNonLocalEdges { .. }))
            if nonlocal || before.nodes().any(|n| before.get_optype(n).is_const() && text(&before, n).contains("func[")) =>
        {
            c.label("refused:nonlocal");
            return Ok(());
        }
        Err(e @ (ReplaceTypesError::SignatureError(_) | ReplaceTypesError::ConstError(_))) => {
            // some types and functions are for copyable elements only
            let why = e.to_string();
            let bounded = before.nodes().any(|n| {
                let t = text(&before, n);
                has(&t, "vtest.T") && (t.contains("static_array") || t.contains("collections.") || t.contains("vtest.other.sub.dup") || matches!(before.get_optype(n), OpType::Call(_) | OpType::LoadFunction(_)))
                    || matches!(before.get_optype(n), OpType::Const(_))
            });
            ensure!(bounded, "refused", "{why}\n{}", canon::show(&before));
            c.label("refused:copyable-only");
            return Ok(());
        }
        Err(e) => return fail("refused", format!("{e}\n{}", canon::show(&before))),
    }
    ensure!(!nonlocal || h.validate().is_ok(), "nonlocal-accepted", "a linear value leaves its region\n{}", canon::show(&h));
    pass::valid(&h, "linearized")?;
    // Copies of collections are made with additions.
    let arrays = before.nodes().any(|n| text(&before, n).contains("collections."));
    let want: Vec<&str> = s.gone.iter().copied().filter(|g| !arrays || *g != "arithmetic.int.iadd").collect();
    gone(&h, &want)?;
    untouched(&before, &h, &hit, true)?;
    // no copy is made only to be discarded
    for n in h.nodes() {
        if has(&text(&h, n), "vtest.low.copy_L") {
            for o in h.node_outputs(n) {
                for (m, _) in h.linked_inputs(n, o) {
                    ensure!(!has(&text(&h, m), "vtest.low.disc_L"), "useless-copy", "{n}\n{}", canon::show(&h));
                }
            }
        }
    }
    pass::same(&rs, &h, true, pass::Trace::Same)?;
    pass::label_runs(c, &rs);
    c.label_if(any, "changed");
    c.label_if(copied, "copied");
    c.label_if(by_call, "discard-by-call");
    if copied {
        c.nontrivial(canon::graph_hash(&before));
    }
    Ok(())
}
/// A type built around the linear one.
fn some_type(c: &mut Ctx, d: usize) -> Type {
    let k = if d == 0 { c.t.below(4) } else { c.t.below(10) };
    match k {
        0 | 3 => low("L"),
        1 => low("C"),
        2 => [bool_t(), INT_TYPES[5].clone(), ext::t_ty()][c.t.below(3)].clone(),
        4 => {
            let n = c.t.below(4);
            SumType::new_tuple((0..n).map(|_| some_type(c, d - 1)).collect::<Vec<_>>()).into()
        }
        5 => {
            let n = 1 + c.t.below(3);
            let rows = (0..n).map(|_| {
                let k = c.t.below(3);
                TypeRow::from((0..k).map(|_| some_type(c, d - 1)).collect::<Vec<_>>())
            });
            let rows: Vec<TypeRow> = rows.collect();
            SumType::new(rows).into()
        }
        6 => array::array_type(c.t.below(5) as u64, some_type(c, d - 1)),
        7 => value_array::value_array_type(c.t.below(5) as u64, some_type(c, d - 1)),
        8 => borrow_array::borrow_array_type(c.t.below(5) as u64, some_type(c, d - 1)),
        _ => ext::ty("P", vec![some_type(c, d - 1).into()]),
    }
}
/// The template for copies of a type makes equal values.
fn copies(c: &mut Ctx) -> R {
    let d = c.t.below(3);
    let ty = some_type(c, d);
    let k = [0, 2, 3, 4, 5][c.t.below(5)];
    c.note(|| format!("{k} of {}", canon::ty(&ty)));
    let mut l = DelegatingLinearizer::default();
    linearizer(c, &mut l, None);
    let t = no_panic(|| l.copy_discard_op(&ty, k)).map_err(|(m, at)| Fail { sig: format!("panic:{at}"), msg: m })?;
    let t = match t {
        Ok(t) => {
            ensure!(!ty.copyable(), "copyable", "{}", canon::ty(&ty));
            t
        }
        Err(LinearizeError::CopyableType(_)) if ty.copyable() => return Ok(()),
        Err(e) => return fail("refused", e.to_string()),
    };
    let mut b = FunctionBuilder::new("f", Signature::new(vec![ty.clone()], vec![ty.clone(); k])).unwrap();
    let [x] = b.input_wires_arr();
    let n = match t.add(&mut b, [x]) {
        Ok(n) => n,
        Err(e) => return fail("add", e.to_string()),
    };
    let h = match b.finish_hugr_with_outputs(n.outputs()) {
        Ok(h) => h,
        Err(e) => return fail("add", e.to_string()),
    };
    pass::valid(&h, "copies")?;
    let t = interp::ty(&ty, &[]);
    let p = interp::Prog::new(&h);
    let mut ran = false;
    for _ in 0..2 {
        let Some(v) = interp::value_from_hash(&t, c.t.u64()) else { continue };
        let v = if k == 0 { holes(c, &v, &t) } else { v };
        let o = interp::run_prog(&p, p.ix(h.entrypoint()), &[v.clone()], 200_000);
        match &o.res {
            Ok(r) => ensure!(r.len() == k && r.iter().all(|x| *x == v), "copies", "{} gives {r:?}", interp::show(&v)),
            Err(e) => return fail("copies", format!("{} of {} x{k} gives {e:?}", interp::show(&v), canon::ty(&ty))),
        }
        ran = true;
    }
    c.label_if(ran, "ran");
    if ran {
        c.nontrivial(canon::graph_hash(&h));
    }
    Ok(())
}
/// Borrow arrays may have elements out on loan when they are discarded.
fn holes(c: &mut Ctx, v: &interp::V, t: &interp::Ty) -> interp::V {
    match (v, t) {
        (interp::V::Bor(xs), interp::Ty::Arr(_, _, e)) => {
            let ys = xs.iter().map(|x| if c.t.chance(1, 3) { None } else { x.as_ref().map(|x| holes(c, x, e)) }).collect();
            interp::V::Bor(Rc::new(ys))
        }
        _ => v.clone(),
    }
}
/// Value arrays become linear arrays.
fn arrays(c: &mut Ctx) -> R {
    let p = Profile { collections: true, nonlocal: false, poly: false, ..profile(c) };
    let mut h = pass::gen_program(c, &p).hugr;
    let before = h.clone();
    let funcs = pass::mono_funcs(&h);
    let rs = pass::runs(c, &h, &funcs, 2)?;
    let hit = |t: &str| t.contains("collections.value_array");
    let any = before.nodes().any(|n| hit(&text(&before, n)));
    // documented to be unsupported
    for n in before.nodes() {
        let t = text(&before, n);
        if t.contains("value_array.get") {
            return Ok(());
        }
    }
    let mut pass_ = LinearizeArrayPass::default();
    linearizer(c, pass_.linearizer(), None);
    match run(&pass_, &mut h)? {
        Ok(r) => ensure!(!any || r, "changed", "says nothing changed"),
        Err(ReplaceTypesError::SignatureError(_)) => {
            c.label("refused:copyable-only");
            return Ok(());
        }
        Err(e) => return fail("refused", format!("{e}\n{}", canon::show(&before))),
    }
    pass::valid(&h, "arrays")?;
    for n in h.nodes() {
        ensure!(!hit(&text(&h, n)), "left-over", "{n} {}\n{}", text(&h, n), canon::show(&h));
    }
    untouched(&before, &h, &hit, true)?;
    pass::same(&rs, &h, true, pass::Trace::Same)?;
    pass::label_runs(c, &rs);
    c.label_if(any, "changed");
    if any {
        c.nontrivial(canon::graph_hash(&before));
    }
    Ok(())
}
/// `lower_ops` and `replace_many_ops`.
fn lower(c: &mut Ctx) -> R {
    let direct = c.t.flag();
    let mut p = Profile { any_entry: c.t.flag(), ..profile(c) };
    // a replacement of a single node does not take order edges
    if !direct {
        p.order = false;
        p.poly = false;
        p.nonlocal = false;
    }
    let mut h = pass::gen_program(c, &p).hugr;
    let orders = |n: Node| h.node_inputs(n).any(|i| h.get_optype(n).port_kind(i) == Some(hugr::types::EdgeKind::StateOrder) && h.linked_outputs(n, i).count() > 0)
        || h.node_outputs(n).any(|i| h.get_optype(n).port_kind(i) == Some(hugr::types::EdgeKind::StateOrder) && h.linked_inputs(n, i).count() > 0);
    let ordered: HashSet<Node> = h.nodes().filter(|n| orders(*n)).collect();
    let before = h.clone();
    let funcs = pass::mono_funcs(&h);
    let rs = pass::runs(c, &h, &funcs, 2)?;
    let which: Vec<&str> = ["f", "eff", "dup"].into_iter().filter(|_| c.t.chance(2, 3)).collect();
    let to = |o: &OpType| -> Option<OpType> {
        let e = o.as_extension_op()?;
        let n = which.iter().find(|n| e.qualified_id().to_string() == format!("vtest.{n}"))?;
        Some(low_op(n, e.args().to_vec()))
    };
    let todo: Vec<Node> = before.entry_descendants().filter(|n| to(before.get_optype(*n)).is_some()).collect();
    if !direct && todo.iter().any(|n| ordered.contains(n)) {
        return Ok(());
    }
    let shp = *c.t.pick(&[Shape::Dfg, Shape::Dfg]);
    let got: Vec<(Node, OpType)> = if direct {
        no_panic(|| replace_many_ops(&mut h, to)).map_err(|(m, at)| Fail { sig: format!("panic:{at}"), msg: m })?
    } else {
        // replacing a node that has order edges is beyond a dataflow replacement
        let r = no_panic(|| {
            lower_ops(&mut h, |o| match wrap(to(o)?, shp) {
                NodeTemplate::CompoundOp(h) => Some(*h),
                _ => None,
            })
        })
        .map_err(|(m, at)| Fail { sig: format!("panic:{at}"), msg: m })?;
        match r {
            Ok(v) => v,
            Err(e) => return fail("refused", format!("{e}\n{}", canon::show(&before))),
        }
    };
    pass::valid(&h, "lowered")?;
    let a: HashSet<Node> = todo.iter().copied().collect();
    let b: HashSet<Node> = got.iter().map(|x| x.0).collect();
    ensure!(a == b && got.len() == todo.len(), "reported", "replaced {b:?}, expected {a:?}");
    for (n, o) in &got {
        ensure!(canon::op(o, false) == text(&before, *n), "reported", "{n} was {}", text(&before, *n));
    }
    for n in h.entry_descendants() {
        ensure!(to(h.get_optype(n)).is_none(), "left-over", "{n} {}", text(&h, n));
    }
    for n in before.nodes().filter(|n| !a.contains(n)) {
        ensure!(h.contains_node(n), "node-lost", "{n}");
        ensure!(text(&h, n) == text(&before, n) && h.get_parent(n) == before.get_parent(n), "unrelated-changed", "{n}");
    }
    if direct {
        for n in before.nodes() {
            for i in before.node_inputs(n) {
                let l = |h: &Hugr| h.linked_outputs(n, i).collect::<HashSet<_>>();
                ensure!(l(&before) == l(&h), "link-lost", "{n}.{i}");
            }
        }
    }
    pass::same(&rs, &h, true, pass::Trace::Same)?;
    c.label_if(direct, "direct");
    if !todo.is_empty() {
        c.nontrivial(canon::graph_hash(&before));
    }
    Ok(())
}
