//! C05: validation accepts exactly the well-formed graphs.
use super::{c11, pass};
use crate::canon;
use crate::engine::*;
use crate::ext;
use crate::gen_::Profile;
use crate::refval::{self, Kind};
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::constant::Sum;
use hugr::ops::dataflow::IOTrait;
use hugr::ops::{self, OpTrait, OpType, Value};
use hugr::std_extensions::arithmetic::int_types::ConstInt;
use hugr::types::type_param::{TypeArg, TypeParam};
use hugr::types::{PolyFuncType, Signature, SumType, Type, TypeBound, TypeRow};
use hugr::{Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort};
use hugr_core::Visibility;
use hugr_core::hugr::internal::HugrMutInternals;

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        rule: "generated well-formed programs with none to three random faults in ports, links, operations, signatures, hierarchy, order of children, names, static targets, constants, type variables, order edges, control flow or entrypoint; validation must not panic and must decide as an independent statement of the rules does; non-trivial: at least one fault was made",
        assumptions: &["whether a value may be used in a block that control never reaches is left open", "what constants of extension types must satisfy is left to the extension"],
        subs: vec![
            Sub { name: "faults", quick: 45_000, thorough: 6_000_000, f: faults },
            Sub { name: "heavy", quick: 6_000, thorough: 600_000, f: heavy },
        ],
        findings: vec![],
    }
}

fn faults(c: &mut Ctx) -> R {
    let mut p = c11::profile(&mut c.t);
    p.size = 2 + c.t.below(12);
    run(c, p)
}
fn heavy(c: &mut Ctx) -> R {
    let mut p = c11::profile(&mut c.t);
    p.size = 10 + c.t.below(30);
    p.nonlocal = true;
    run(c, p)
}
fn run(c: &mut Ctx, mut p: Profile) -> R {
    p.depth = 1 + c.t.below(3);
    p.nested = c.t.chance(3, 4);
    p.loops = c.t.flag();
    p.cfg = c.t.chance(2, 3);
    p.cfg_heavy = p.cfg && c.t.flag();
    p.poly = c.t.flag();
    p.indirect = c.t.flag();
    p.fn_consts = c.t.chance(1, 3);
    p.collections = c.t.flag();
    p.aliases = c.t.chance(1, 4);
    p.consty = c.t.chance(1, 4);
    p.raw_consts = c.t.flag();
    let g = pass::gen_program(c, &p);
    let mut h = g.hugr;
    agree(c, &h)?;
    let k = c.t.weighted(&[1, 8, 3, 1]);
    let mut done = vec![];
    for _ in 0..k {
        let before = canon::show(&h);
        if let Some(name) = fault(c, &mut h) {
            if before != canon::show(&h) {
                c.label(name);
                done.push(name);
            }
        }
    }
    c.note(|| format!("{done:?}"));
    if done.is_empty() {
        return Ok(());
    }
    agree(c, &h)?;
    c.nontrivial(canon::graph_hash(&h));
    c.sample(|| format!("{done:?}\n{}", canon::show(&h)));
    Ok(())
}
fn agree(c: &mut Ctx, h: &Hugr) -> R {
    let want = refval::verdict(h);
    let got = match no_panic(|| h.validate()) {
        Err((m, at)) => return fail(format!("panic {at}"), format!("{m}; expected {want:?}")),
        Ok(r) => r.map_err(|e| e.to_string()),
    };
    match (want, got) {
        (None, _) => c.label("open"),
        (Some(Ok(())), Ok(())) => c.label("accepted"),
        (Some(Err(_)), Err(_)) => c.label("rejected"),
        (Some(Ok(())), Err(e)) => return fail("rejects", e),
        (Some(Err(e)), Ok(())) => {
            // the kind of fault without node numbers
            let s: String = e.split('[').next().unwrap_or("").chars().filter(|x| !x.is_ascii_digit()).collect();
            return fail(format!("accepts {}", clip(&s, 40)), e);
        }
    }
    Ok(())
}

type Ports<P> = Vec<(Node, P, Kind)>;
fn ins(h: &Hugr) -> Ports<IncomingPort> {
    h.nodes()
        .flat_map(|n| {
            let k = refval::ports(h.get_optype(n)).map(|p| p.0).unwrap_or_default();
            let m = h.num_inputs(n);
            // surplus ports
            k.into_iter().chain(std::iter::repeat(Kind::Const("?".into()))).take(m).enumerate().map(move |(i, k)| (n, i.into(), k))
        })
        .collect()
}
fn outs(h: &Hugr) -> Ports<OutgoingPort> {
    h.nodes()
        .flat_map(|n| {
            let k = refval::ports(h.get_optype(n)).map(|p| p.1).unwrap_or_default();
            let m = h.num_outputs(n);
            // surplus ports
            k.into_iter().chain(std::iter::repeat(Kind::Const("?".into()))).take(m).enumerate().map(move |(i, k)| (n, i.into(), k))
        })
        .collect()
}
/// Input ports of siblings or of any nodes.
fn anywhere(c: &mut Ctx, h: &Hugr, n: Node) -> Option<(Node, IncomingPort, Kind)> {
    let near = c.t.flag();
    let v: Ports<IncomingPort> = ins(h).into_iter().filter(|x| !near || h.get_parent(x.0) == h.get_parent(n)).collect();
    one(c, &v)
}
fn one<T: Clone>(c: &mut Ctx, v: &[T]) -> Option<T> {
    if v.is_empty() { None } else { Some(c.t.pick(v).clone()) }
}
fn node(c: &mut Ctx, h: &Hugr) -> Node {
    let v: Vec<Node> = h.nodes().collect();
    *c.t.pick(&v)
}
fn other(c: &mut Ctx, h: &Hugr) -> Option<Node> {
    let v: Vec<Node> = h.nodes().filter(|n| *n != h.module_root()).collect();
    one(c, &v)
}
/// Descendants, with the node itself.
fn below(h: &Hugr, n: Node) -> Vec<Node> {
    h.descendants(n).collect()
}
/// A type of the program or another.
fn some_type(c: &mut Ctx, h: &Hugr) -> Type {
    if c.t.chance(2, 3) {
        let v: Vec<Type> = h
            .nodes()
            .filter_map(|n| h.get_optype(n).dataflow_signature())
            .flat_map(|s| s.input().iter().chain(s.output().iter()).cloned().collect::<Vec<_>>())
            .collect();
        if let Some(t) = one(c, &v) {
            return t;
        }
    }
    match c.t.below(7) {
        0 => ext::t_ty(),
        1 => ext::l_ty(),
        2 => hugr::extension::prelude::bool_t(),
        3 => Type::new_tuple(vec![ext::t_ty()]),
        4 => Type::new_function(Signature::new_endo(ext::t_ty())),
        5 => Type::new_var_use(c.t.below(3), if c.t.flag() { TypeBound::Copyable } else { TypeBound::Linear }),
        _ => Type::UNIT,
    }
}
fn change_row(c: &mut Ctx, h: &Hugr, r: &TypeRow) -> TypeRow {
    let mut v: Vec<Type> = r.iter().cloned().collect();
    let k = v.len();
    match c.t.below(4) {
        0 if k > 0 => {
            let i = c.t.below(k);
            v.remove(i);
        }
        1 if k > 1 => {
            let i = c.t.below(k);
            let j = c.t.below(k);
            v.swap(i, j);
        }
        2 if k > 0 => {
            let i = c.t.below(k);
            v[i] = some_type(c, h);
        }
        _ => {
            let i = c.t.below(k + 1);
            let t = some_type(c, h);
            v.insert(i, t);
        }
    }
    v.into()
}
fn change_sum(c: &mut Ctx, h: &Hugr, rows: &mut Vec<TypeRow>) {
    let k = rows.len();
    match c.t.below(4) {
        0 if k > 0 => {
            let i = c.t.below(k);
            rows.remove(i);
        }
        1 => rows.insert(0, TypeRow::new()),
        2 if k > 1 => rows.swap(0, 1),
        _ if k > 0 => {
            let i = c.t.below(k);
            rows[i] = change_row(c, h, &rows[i].clone());
        }
        _ => rows.push(TypeRow::new()),
    }
}
fn change_sig(c: &mut Ctx, h: &Hugr, s: &mut Signature) {
    if c.t.flag() {
        s.input = change_row(c, h, &s.input);
    } else {
        s.output = change_row(c, h, &s.output);
    }
}
fn change_poly(c: &mut Ctx, h: &Hugr, p: &PolyFuncType) -> PolyFuncType {
    let mut params: Vec<TypeParam> = p.params().to_vec();
    let mut body = p.body().clone();
    match c.t.below(3) {
        0 => params.push(TypeBound::Linear.into()),
        1 if !params.is_empty() => {
            if c.t.flag() {
                params.pop();
            } else {
                params[0] = if c.t.flag() { TypeParam::max_nat_type() } else { TypeBound::Copyable.into() };
            }
        }
        _ => change_sig(c, h, &mut body),
    }
    PolyFuncType::new(params, body)
}
/// Another operation of the same sort.
fn change_op(c: &mut Ctx, h: &Hugr, o: &OpType) -> Option<OpType> {
    let mut o = o.clone();
    match &mut o {
        OpType::Input(x) => x.types = change_row(c, h, &x.types),
        OpType::Output(x) => x.types = change_row(c, h, &x.types),
        OpType::DFG(x) => change_sig(c, h, &mut x.signature),
        OpType::CFG(x) => change_sig(c, h, &mut x.signature),
        OpType::Case(x) => change_sig(c, h, &mut x.signature),
        OpType::CallIndirect(x) => change_sig(c, h, &mut x.signature),
        OpType::Conditional(x) => match c.t.below(3) {
            0 => x.other_inputs = change_row(c, h, &x.other_inputs),
            1 => x.outputs = change_row(c, h, &x.outputs),
            _ => change_sum(c, h, &mut x.sum_rows),
        },
        OpType::TailLoop(x) => match c.t.below(4) {
            0 => x.just_inputs = change_row(c, h, &x.just_inputs),
            1 => x.just_outputs = change_row(c, h, &x.just_outputs),
            2 => x.rest = change_row(c, h, &x.rest),
            // as many types in another division
            _ => {
                let mut a: Vec<Type> = x.just_inputs.iter().cloned().collect();
                let mut r: Vec<Type> = x.rest.iter().cloned().collect();
                if let Some(t) = a.pop() {
                    r.insert(0, t);
                } else if !r.is_empty() {
                    a.push(r.remove(0));
                }
                x.just_inputs = a.into();
                x.rest = r.into();
            }
        },
        OpType::DataflowBlock(x) => match c.t.below(3) {
            0 => x.inputs = change_row(c, h, &x.inputs),
            1 => x.other_outputs = change_row(c, h, &x.other_outputs),
            _ => change_sum(c, h, &mut x.sum_rows),
        },
        OpType::ExitBlock(x) => x.cfg_outputs = change_row(c, h, &x.cfg_outputs),
        OpType::Tag(x) => match c.t.below(3) {
            0 if x.variants.len() > 1 => x.tag = c.t.below(x.variants.len()),
            _ => {
                change_sum(c, h, &mut x.variants);
                x.tag = x.tag.min(x.variants.len().checked_sub(1)?);
            }
        },
        OpType::LoadConstant(x) => x.datatype = some_type(c, h),
        OpType::FuncDefn(x) => *x.signature_mut() = change_poly(c, h, &x.signature().clone()),
        OpType::FuncDecl(x) => *x.signature_mut() = change_poly(c, h, &x.signature().clone()),
        OpType::Call(x) => change_call(c, h, &mut x.func_sig, &mut x.type_args, &mut x.instantiation),
        OpType::LoadFunction(x) => change_call(c, h, &mut x.func_sig, &mut x.type_args, &mut x.instantiation),
        OpType::ExtensionOp(_) => {
            let s = o.dataflow_signature()?.into_owned();
            let mut s = Signature::new(s.input, s.output);
            change_sig(c, h, &mut s);
            return Some(ext::f_op("changed", &s.input, &s.output));
        }
        OpType::Const(_) => return Some(ops::Const::new(some_const(c, h)).into()),
        _ => return None,
    }
    Some(o)
}
fn some_arg(c: &mut Ctx, h: &Hugr) -> TypeArg {
    match c.t.below(5) {
        0 => TypeArg::from(c.t.below(5) as u64),
        1 => TypeArg::new_string("x"),
        2 => TypeArg::new_list([some_type(c, h).into()]),
        3 => TypeArg::new_var_use(c.t.below(3), TypeParam::max_nat_type()),
        _ => some_type(c, h).into(),
    }
}
fn change_call(c: &mut Ctx, h: &Hugr, f: &mut PolyFuncType, args: &mut Vec<TypeArg>, inst: &mut Signature) {
    match c.t.below(5) {
        0 => {
            *f = change_poly(c, h, f);
        }
        1 if !args.is_empty() => {
            let i = c.t.below(args.len());
            args[i] = some_arg(c, h);
        }
        2 => {
            if c.t.flag() {
                args.pop();
            } else {
                args.push(some_arg(c, h));
            }
        }
        3 => {
            // a parameter that nothing mentions
            let p = [TypeParam::max_nat_type(), TypeBound::Linear.into(), TypeBound::Copyable.into(), TypeParam::StringType, TypeParam::new_list_type(TypeBound::Linear)];
            let mut ps = f.params().to_vec();
            ps.push(c.t.pick(&p).clone());
            *f = PolyFuncType::new(ps, f.body().clone());
            args.push(some_arg(c, h));
            return;
        }
        _ => change_sig(c, h, inst),
    }
    if c.t.flag()
        && f.validate().is_ok()
        && let Ok(s) = f.instantiate(args)
    {
        *inst = s;
    }
}
fn some_const(c: &mut Ctx, h: &Hugr) -> Value {
    let leaf = |c: &mut Ctx| match c.t.below(4) {
        0 => Value::true_val(),
        1 => Value::unit(),
        2 => ConstInt::new_u(5, c.t.below(9) as u64).unwrap().into(),
        _ => ConstInt::new_u(3, 1).unwrap().into(),
    };
    fn sum(c: &mut Ctx, h: &Hugr, d: usize, leaf: &dyn Fn(&mut Ctx) -> Value) -> Value {
        if d == 0 || c.t.chance(1, 3) {
            return leaf(c);
        }
        if c.t.chance(1, 5) {
            return function(c, h);
        }
        let k = c.t.below(3);
        let values: Vec<Value> = (0..k).map(|_| sum(c, h, d - 1, leaf)).collect();
        let mut rows: Vec<TypeRow> = vec![values.iter().map(|v| v.get_type()).collect::<Vec<_>>().into()];
        let n = c.t.below(3);
        for _ in 0..n {
            let at = c.t.below(rows.len() + 1);
            let r = vec![ext::t_ty(); c.t.below(2)].into();
            rows.insert(at, r);
        }
        let tag = rows.iter().position(|r| r.iter().map(canon::ty).eq(values.iter().map(|v| canon::ty(&v.get_type())))).unwrap();
        let mut s = Sum { tag, values, sum_type: SumType::new(rows.clone()) };
        if c.t.chance(1, 4) {
            match c.t.below(4) {
                0 => s.tag = c.t.below(rows.len() + 1),
                1 => {
                    s.values.pop();
                }
                2 => s.values.push(leaf(c)),
                _ => {
                    change_sum(c, h, &mut rows);
                    s.sum_type = SumType::new(rows);
                }
            }
        }
        Value::Sum(s)
    }
    let d = 1 + c.t.below(3);
    sum(c, h, d, &leaf)
}
/// A function as a constant, perhaps a bad one.
fn function(c: &mut Ctx, _h: &Hugr) -> Value {
    use hugr::builder::{Dataflow, DataflowHugr, FunctionBuilder};
    let b = FunctionBuilder::new("k", Signature::new_endo(ext::t_ty())).unwrap();
    let i = b.input_wires();
    let mut f = b.finish_hugr_with_outputs(i).unwrap();
    let e = f.entrypoint();
    let io: Vec<Node> = f.children(e).collect();
    match c.t.below(6) {
        0 => f.disconnect(io[1], IncomingPort::from(0)),
        1 => {
            f.add_node_with_parent(e, ops::Input::new(vec![]));
        }
        2 => {
            let n = f.add_node_with_parent(e, ext::f_op("x", &[ext::t_ty()], &[]));
            if c.t.flag() {
                f.connect(io[0], 0, n, 0);
            }
        }
        _ => {}
    }
    Value::Function { hugr: Box::new(f) }
}

/// A random change; nodes, ports and links stay consistent with each other.
pub fn fault(c: &mut Ctx, h: &mut Hugr) -> Option<&'static str> {
    let w = [4, 4, 8, 8, 2, 4, 3, 3, 3, 4, 5, 5, 4, 1, 5, 4, 5];
    Some(match c.t.weighted(&w) {
        0 => {
            let v: Vec<_> = ins(h).into_iter().filter(|x| h.is_linked(x.0, x.1)).collect();
            let (n, p, _) = one(c, &v)?;
            h.disconnect(n, p);
            "unlink-in"
        }
        1 => {
            let v: Vec<_> = outs(h).into_iter().filter(|x| h.is_linked(x.0, x.1)).collect();
            let (n, p, _) = one(c, &v)?;
            h.disconnect(n, p);
            "unlink-out"
        }
        2 => {
            // one more link
            let (a, i, k) = one(c, &outs(h))?;
            let v: Vec<_> = ins(h).into_iter().filter(|x| x.2 == k).collect();
            let (b, j, _) = if !v.is_empty() && c.t.chance(3, 4) { one(c, &v)? } else { anywhere(c, h, a)? };
            h.connect(a, i, b, j);
            "link"
        }
        3 => {
            let v: Vec<_> = ins(h).into_iter().filter(|x| h.is_linked(x.0, x.1)).collect();
            let (n, p, k) = one(c, &v)?;
            let same: Vec<_> = outs(h).into_iter().filter(|x| x.2 == k && !h.linked_outputs(n, p).any(|l| l.0 == x.0)).collect();
            let (m, q, _) = if !same.is_empty() && c.t.chance(4, 5) { one(c, &same)? } else { one(c, &outs(h))? };
            if k == Kind::Cfg {
                // one branch goes elsewhere
                h.disconnect(m, q);
                h.connect(m, q, n, p);
                return Some("branch");
            }
            h.disconnect(n, p);
            h.connect(m, q, n, p);
            "retarget"
        }
        4 => {
            let n = node(c, h);
            let (i, u) = (h.num_ports(n, Direction::Incoming), h.num_ports(n, Direction::Outgoing));
            match c.t.below(4) {
                0 => h.set_num_ports(n, i + 1, u),
                1 => h.set_num_ports(n, i, u + 1),
                2 => h.set_num_ports(n, i.saturating_sub(1), u),
                _ => h.set_num_ports(n, i, u.saturating_sub(1)),
            }
            if c.t.flag() {
                if h.num_inputs(n) > i {
                    let (m, q, _) = one(c, &outs(h))?;
                    h.connect(m, q, n, i);
                } else if h.num_outputs(n) > u {
                    let (m, q, _) = anywhere(c, h, n)?;
                    h.connect(n, u, m, q);
                }
            }
            "port-count"
        }
        5 | 14 => {
            let n = other(c, h)?;
            let o = change_op(c, h, &h.get_optype(n).clone())?;
            h.replace_op(n, o.clone());
            if c.t.chance(3, 4)
                && let Some((i, u)) = refval::ports(&o)
            {
                h.set_num_ports(n, i.len(), u.len());
            }
            "operation"
        }
        6 => {
            let n = other(c, h)?;
            let inside = below(h, n);
            let v: Vec<Node> = h.nodes().filter(|x| !inside.contains(x)).collect();
            let p = one(c, &v)?;
            h.set_parent(n, p);
            "parent"
        }
        7 => {
            let n = other(c, h)?;
            let v: Vec<Node> = h.children(h.get_parent(n)?).filter(|x| *x != n).collect();
            let m = if c.t.flag() { *v.first()? } else { one(c, &v)? };
            if c.t.flag() {
                h.move_before_sibling(n, m);
            } else {
                h.move_after_sibling(n, m);
            }
            "child-order"
        }
        8 => {
            let n = other(c, h)?;
            let inside = below(h, n);
            if inside.contains(&h.entrypoint()) {
                return None;
            }
            if inside.len() == 1 || c.t.chance(1, 3) {
                h.remove_subtree(n);
                "remove"
            } else {
                // what a container holds
                let mut v: Vec<Node> = h.children(n).collect();
                let k = v.len();
                match c.t.below(3) {
                    0 => {}
                    1 => {
                        v.remove(0);
                    }
                    _ => v = v.split_off(c.t.below(k)),
                }
                for x in v {
                    h.remove_subtree(x);
                }
                "remove-children"
            }
        }
        9 => {
            let p = node(c, h);
            let t = some_type(c, h);
            let r = if c.t.flag() { vec![] } else { vec![t.clone()] };
            let o: OpType = match c.t.below(17) {
                0 => ops::Input::new(r).into(),
                1 => ops::Output::new(r).into(),
                2 => ops::ExitBlock { cfg_outputs: r.into() }.into(),
                3 => ops::Case { signature: Signature::new_endo(r) }.into(),
                4 => ops::DataflowBlock { inputs: r.into(), sum_rows: vec![TypeRow::new(); c.t.below(3)], other_outputs: TypeRow::new() }.into(),
                5 => ops::FuncDefn::new("f", Signature::new_endo(r)).into(),
                6 => ops::FuncDecl::new_vis(*c.t.pick(&["f", "main", "a"]), Signature::new_endo(r), Visibility::Public).into(),
                7 => ops::Const::new(some_const(c, h)).into(),
                8 => ops::AliasDecl::new("al", TypeBound::Copyable).into(),
                9 => ops::Module::new().into(),
                10 => ops::DFG { signature: Signature::new_endo(r) }.into(),
                11 => ops::CFG { signature: Signature::new_endo(r) }.into(),
                12 => ops::Conditional { sum_rows: vec![TypeRow::new(); c.t.below(3)], other_inputs: r.into(), outputs: TypeRow::new() }.into(),
                13 => ops::TailLoop { just_inputs: r.into(), just_outputs: TypeRow::new(), rest: TypeRow::new() }.into(),
                14 => ext::f_op("stray", &[], &r),
                15 => ops::LoadConstant { datatype: t }.into(),
                _ => ops::Tag::new(0, vec![r.into()]).into(),
            };
            let n = h.add_node_with_parent(p, o.clone());
            if region(&o) && c.t.chance(3, 4) {
                fill(c, h, n, &o);
            }
            "stray"
        }
        10 => {
            let v: Vec<Node> = h.children(h.module_root()).filter(|n| matches!(h.get_optype(*n), OpType::FuncDefn(_) | OpType::FuncDecl(_))).collect();
            let n = one(c, &v)?;
            let m = one(c, &v)?;
            let name = match h.get_optype(m) {
                OpType::FuncDefn(f) => f.func_name().clone(),
                OpType::FuncDecl(f) => f.func_name().clone(),
                _ => return None,
            };
            let vis = if c.t.chance(2, 3) { Visibility::Public } else { Visibility::Private };
            match c.t.below(4) {
                0 => {
                    // one more declaration
                    let OpType::FuncDecl(f) = h.get_optype(m).clone() else { return None };
                    let sig = if c.t.chance(2, 3) { f.signature().clone() } else { change_poly(c, h, f.signature()) };
                    let o = if c.t.chance(2, 3) { ops::FuncDecl::new_vis(name, sig, Visibility::Public) } else { ops::FuncDecl::new_vis(name, sig, Visibility::Private) };
                    h.add_node_with_parent(h.module_root(), o);
                }
                _ => match h.optype_mut(n) {
                    OpType::FuncDefn(f) => {
                        *f.func_name_mut() = name;
                        *f.visibility_mut() = vis;
                    }
                    OpType::FuncDecl(f) => {
                        *f.func_name_mut() = name;
                        *f.visibility_mut() = vis;
                    }
                    _ => {}
                },
            }
            "names"
        }
        11 => {
            let v: Vec<Node> = h.nodes().filter(|n| matches!(h.get_optype(*n), OpType::Call(_) | OpType::LoadFunction(_))).collect();
            let n = one(c, &v)?;
            let o = change_op(c, h, &h.get_optype(n).clone())?;
            h.replace_op(n, o.clone());
            if c.t.chance(3, 4)
                && let Some((i, u)) = refval::ports(&o)
            {
                h.set_num_ports(n, i.len(), u.len());
            }
            // the callee may have changed as well
            if c.t.flag()
                && let Some((f, _)) = h.static_source(n).map(|s| (s, ()))
            {
                let sig = match &o {
                    OpType::Call(x) => x.func_sig.clone(),
                    OpType::LoadFunction(x) => x.func_sig.clone(),
                    _ => return None,
                };
                match h.optype_mut(f) {
                    OpType::FuncDefn(f) => *f.signature_mut() = sig,
                    OpType::FuncDecl(f) => *f.signature_mut() = sig,
                    _ => {}
                }
            }
            "call"
        }
        12 => {
            // a constant, loaded at whatever type it claims
            let v: Vec<Node> = h.nodes().filter(|n| matches!(h.get_optype(*n), OpType::Const(_))).collect();
            if v.is_empty() || c.t.flag() {
                let ps: Vec<Node> = h.nodes().filter(|n| region(h.get_optype(*n)) || h.get_optype(*n).is_module() || h.get_optype(*n).is_cfg()).collect();
                let p = one(c, &ps)?;
                let v = some_const(c, h);
                h.add_node_with_parent(p, ops::Const::new(v));
            } else {
                let n = one(c, &v)?;
                let v = some_const(c, h);
                h.replace_op(n, ops::Const::new(v));
            }
            "const"
        }
        13 => {
            let n = node(c, h);
            h.set_entrypoint(n);
            "entrypoint"
        }
        15 => {
            // order
            let (a, i, _) = one(c, &outs(h).into_iter().filter(|x| x.2 == Kind::Order).collect::<Vec<_>>())?;
            let v: Vec<_> = ins(h).into_iter().filter(|x| x.2 == Kind::Order).collect();
            let near: Vec<_> = v.iter().filter(|x| h.get_parent(x.0) == h.get_parent(a)).cloned().collect();
            match c.t.below(3) {
                0 => {
                    h.disconnect(a, i);
                    "order-removed"
                }
                1 => {
                    let (b, j, _) = one(c, &near)?;
                    h.connect(a, i, b, j);
                    "order"
                }
                _ => {
                    let (b, j, _) = one(c, &v)?;
                    h.connect(a, i, b, j);
                    "order-far"
                }
            }
        }
        _ => ghost(c, h),
    })
}
fn region(o: &OpType) -> bool {
    refval::region(o).is_some()
}
/// Children for a container, perhaps too few.
fn fill(c: &mut Ctx, h: &mut Hugr, n: Node, o: &OpType) {
    let (i, u) = refval::region(o).unwrap();
    let a = h.add_node_with_parent(n, ops::Input::new(i.clone()));
    if c.t.chance(1, 5) {
        return;
    }
    let z = h.add_node_with_parent(n, ops::Output::new(u.clone()));
    for (k, t) in u.iter().enumerate() {
        match i.iter().position(|x| canon::ty(x) == canon::ty(t)) {
            Some(j) => h.connect(a, j, z, k),
            None => {
                let m = h.add_node_with_parent(n, ext::f_op("src", &[], &[t.clone()]));
                h.connect(m, 0, z, k);
            }
        }
    }
}
/// A function whose types mention variables, declared or not.
fn ghost(c: &mut Ctx, h: &mut Hugr) -> &'static str {
    let kinds = |c: &mut Ctx| -> TypeParam {
        match c.t.below(5) {
            0 | 1 => TypeBound::Linear.into(),
            2 => TypeBound::Copyable.into(),
            3 => TypeParam::max_nat_type(),
            _ => TypeParam::new_list_type(TypeBound::Linear),
        }
    };
    let k = c.t.below(3);
    let params: Vec<TypeParam> = (0..k).map(|_| kinds(c)).collect();
    let mut var = |c: &mut Ctx| {
        let i = c.t.below(2);
        let b = if c.t.flag() { TypeBound::Copyable } else { TypeBound::Linear };
        let v = Type::new_var_use(i, b);
        match c.t.below(4) {
            0 => Type::new_tuple(vec![v]),
            1 => Type::new_function(Signature::new(vec![v], vec![])),
            _ => v,
        }
    };
    let t = var(c);
    let outer = if c.t.chance(3, 4) { t.clone() } else { ext::t_ty() };
    let f = h.add_node_with_parent(h.module_root(), ops::FuncDefn::new("ghost", PolyFuncType::new(params, Signature::new_endo(outer.clone()))));
    let a = h.add_node_with_parent(f, ops::Input::new(vec![outer.clone()]));
    let z = h.add_node_with_parent(f, ops::Output::new(vec![outer.clone()]));
    let mut at = (a, 0usize);
    let inner = var(c);
    match c.t.below(8) {
        0 => {
            // a type that no port carries
            let n = h.add_node_with_parent(f, ops::Tag::new(0, vec![vec![outer.clone()].into(), vec![inner].into()]));
            h.connect(at.0, at.1, n, 0);
            let m = h.add_node_with_parent(f, ops::Conditional { sum_rows: vec![vec![outer.clone()].into(), vec![outer.clone()].into()], other_inputs: TypeRow::new(), outputs: vec![outer.clone()].into() });
            for _ in 0..2 {
                let o = ops::Case { signature: Signature::new_endo(outer.clone()) };
                let x = h.add_node_with_parent(m, o.clone());
                fill(c, h, x, &o.into());
            }
            h.connect(n, 0, m, 0);
            at = (m, 0);
        }
        1 => {
            let o = ops::DFG { signature: Signature::new_endo(outer.clone()) };
            let n = h.add_node_with_parent(f, o.clone());
            fill(c, h, n, &o.into());
            h.connect(at.0, at.1, n, 0);
            at = (n, 0);
        }
        2 => {
            // linear values are passed on
            let o = ext::f_op("id", &[outer.clone()], &[outer.clone(), inner.clone()]);
            let n = h.add_node_with_parent(f, o);
            h.connect(at.0, at.1, n, 0);
            let m = h.add_node_with_parent(f, ext::f_op("sink", &[inner], &[]));
            h.connect(n, 1, m, 0);
            at = (n, 0);
        }
        3 => {
            let o = ext::f_op("src", &[], &[Type::new_function(Signature::new_endo(inner))]);
            h.add_node_with_parent(f, o);
        }
        4 => {
            // a call of a function that never uses its parameter
            let ps = [TypeBound::Linear.into(), TypeBound::Copyable.into(), TypeParam::max_nat_type()];
            let sig = PolyFuncType::new(vec![c.t.pick(&ps).clone()], Signature::new_endo(vec![]));
            let d = h.add_node_with_parent(h.module_root(), ops::FuncDecl::new_vis("phantom", sig.clone(), Visibility::Private));
            let arg: TypeArg = match c.t.below(3) {
                0 => TypeArg::new_var_use(c.t.below(2), kinds(c)),
                1 => TypeArg::from(3u64),
                _ => inner.into(),
            };
            let Ok(inst) = sig.instantiate(std::slice::from_ref(&arg)) else { return "variables" };
            let n = h.add_node_with_parent(f, if c.t.flag() {
                OpType::from(ops::LoadFunction { func_sig: sig, type_args: vec![arg], instantiation: inst })
            } else {
                ops::Call { func_sig: sig, type_args: vec![arg], instantiation: inst }.into()
            });
            h.connect(d, 0, n, 0);
        }
        5 => {
            // constants have no variables
            let v = Value::Sum(Sum { tag: 0, values: vec![], sum_type: SumType::new([TypeRow::new(), vec![inner].into()]) });
            let ty = v.get_type();
            let k = h.add_node_with_parent(f, ops::Const::new(v));
            if c.t.flag() {
                let n = h.add_node_with_parent(f, ops::LoadConstant { datatype: ty });
                h.connect(k, 0, n, 0);
            }
        }
        6 => {
            let d = ops::FuncDecl::new_vis("decl", PolyFuncType::new(vec![TypeBound::Linear.into(); c.t.below(2)], Signature::new_endo(inner)), Visibility::Private);
            h.add_node_with_parent(h.module_root(), d);
        }
        _ => {}
    }
    h.connect(at.0, at.1, z, 0);
    "variables"
}
