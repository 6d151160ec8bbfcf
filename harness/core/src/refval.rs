//! An independent statement of when a graph is well formed.
use crate::canon;
use hugr::ops::dataflow::DataflowOpTrait;
use hugr::ops::{OpType, Value};

use hugr::types::{PolyFuncType, Term, Type, TypeArg, TypeEnum, TypeRV, TypeRow, TypeRowRV};
use hugr::{Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex};
use hugr_core::Visibility;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Val(String, bool),
    Const(String),
    Func(String),
    Cfg,
    Order,
}
/// Type variables with the kind they were declared at.
pub type Vars = Vec<(usize, String)>;
pub trait Walk {
    fn vars(&self, o: &mut Vars);
}
macro_rules! walk_ty {
    ($t:ty) => {
        impl Walk for $t {
            fn vars(&self, o: &mut Vars) {
                match self.as_type_enum() {
                    TypeEnum::Extension(c) => c.args().iter().for_each(|a| a.vars(o)),
                    TypeEnum::Alias(_) => {}
                    TypeEnum::Function(f) => {
                        f.input().vars(o);
                        f.output().vars(o);
                    }
                    TypeEnum::Variable(i, b) => o.push((*i, format!("Type:{}", canon::bound(*b)))),
                    TypeEnum::RowVar(r) => {
                        let s = format!("{r:?}");
                        let inner = s.trim_start_matches("RowVariable(").trim_end_matches(')');
                        let (i, b) = inner.split_once(", ").unwrap_or(("0", "?"));
                        let b = if b == "Copyable" { "C" } else { "A" };
                        o.push((i.parse().unwrap_or(usize::MAX), format!("ListTy(Type:{b})")));
                    }
                    TypeEnum::Sum(st) => st.variants().for_each(|v| v.vars(o)),
                }
            }
        }
    };
}
walk_ty!(Type);
walk_ty!(TypeRV);
impl Walk for TypeRow {
    fn vars(&self, o: &mut Vars) {
        self.iter().for_each(|t| t.vars(o))
    }
}
impl Walk for TypeRowRV {
    fn vars(&self, o: &mut Vars) {
        self.iter().for_each(|t| t.vars(o))
    }
}
impl Walk for Term {
    fn vars(&self, o: &mut Vars) {
        match self {
            Term::Runtime(t) => t.vars(o),
            Term::ConstType(t) => t.vars(o),
            Term::List(v) | Term::ListConcat(v) | Term::Tuple(v) | Term::TupleConcat(v) => v.iter().for_each(|t| t.vars(o)),
            Term::ListType(t) | Term::TupleType(t) => t.vars(o),
            Term::Variable(v) => {
                let s = canon::term(self);
                let d = s.split_once(':').map(|x| x.1.to_string()).unwrap_or_default();
                o.push((v.index(), d));
            }
            _ => {}
        }
    }
}
fn scoped(x: &impl Walk, decls: &[String]) -> bool {
    let mut v = vec![];
    x.vars(&mut v);
    v.iter().all(|(i, d)| decls.get(*i) == Some(d))
}
fn decls_of(p: &PolyFuncType) -> Vec<String> {
    p.params().iter().map(canon::term).collect()
}
fn poly_ok(p: &PolyFuncType) -> bool {
    let d = decls_of(p);
    scoped(p.body().input(), &d) && scoped(p.body().output(), &d)
}
fn val(t: &Type) -> Kind {
    Kind::Val(canon::ty(t), t.copyable())
}
fn vals(r: &TypeRow) -> Vec<Kind> {
    r.iter().map(val).collect()
}
fn cat(a: &TypeRow, b: &TypeRow) -> Vec<Type> {
    a.iter().chain(b.iter()).cloned().collect()
}
fn sum(rows: &[TypeRow]) -> Type {
    Type::new_sum(rows.to_vec())
}
/// The ports an operation has.
pub fn ports(o: &OpType) -> Option<(Vec<Kind>, Vec<Kind>)> {
    use OpType as O;
    let order = |mut i: Vec<Kind>, mut u: Vec<Kind>| {
        i.push(Kind::Order);
        u.push(Kind::Order);
        (i, u)
    };
    Some(match o {
        O::Module(_) | O::Case(_) | O::AliasDecl(_) | O::AliasDefn(_) => (vec![], vec![]),
        O::FuncDefn(f) => (vec![], vec![Kind::Func(canon::poly(f.signature()))]),
        O::FuncDecl(f) => (vec![], vec![Kind::Func(canon::poly(f.signature()))]),
        O::Const(c) => (vec![], vec![Kind::Const(canon::ty(&c.get_type()))]),
        O::Input(i) => {
            let mut v = vals(&i.types);
            v.push(Kind::Order);
            (vec![], v)
        }
        O::Output(i) => {
            let mut v = vals(&i.types);
            v.push(Kind::Order);
            (v, vec![])
        }
        O::Call(c) => {
            let mut i = vals(c.instantiation.input());
            i.push(Kind::Func(canon::poly(&c.func_sig)));
            order(i, vals(c.instantiation.output()))
        }
        O::CallIndirect(c) => {
            let mut i = vec![val(&Type::new_function(c.signature.clone()))];
            i.extend(vals(c.signature.input()));
            order(i, vals(c.signature.output()))
        }
        O::LoadConstant(l) => order(vec![Kind::Const(canon::ty(&l.datatype))], vec![val(&l.datatype)]),
        O::LoadFunction(l) => order(vec![Kind::Func(canon::poly(&l.func_sig))], vec![val(&Type::new_function(l.instantiation.clone()))]),
        O::DFG(d) => order(vals(d.signature.input()), vals(d.signature.output())),
        O::CFG(d) => order(vals(d.signature.input()), vals(d.signature.output())),
        O::ExtensionOp(e) => {
            let s = e.signature();
            order(vals(s.input()), vals(s.output()))
        }
        O::OpaqueOp(e) => {
            let s = e.signature();
            order(vals(s.input()), vals(s.output()))
        }
        O::Tag(t) => order(vals(t.variants.get(t.tag)?), vec![val(&sum(&t.variants))]),
        O::TailLoop(l) => order(
            cat(&l.just_inputs, &l.rest).iter().map(val).collect(),
            cat(&l.just_outputs, &l.rest).iter().map(val).collect(),
        ),
        O::Conditional(c) => {
            let mut i = vec![val(&sum(&c.sum_rows))];
            i.extend(vals(&c.other_inputs));
            order(i, vals(&c.outputs))
        }
        O::DataflowBlock(b) => (vec![Kind::Cfg], vec![Kind::Cfg; b.sum_rows.len()]),
        O::ExitBlock(_) => (vec![Kind::Cfg], vec![]),
        _ => return None,
    })
}
/// Inputs and outputs of the region of a dataflow container.
pub fn region(o: &OpType) -> Option<(Vec<Type>, Vec<Type>)> {
    use OpType as O;
    let v = |r: &TypeRow| r.iter().cloned().collect::<Vec<_>>();
    Some(match o {
        O::FuncDefn(f) => (v(f.signature().body().input()), v(f.signature().body().output())),
        O::DFG(d) => (v(d.signature.input()), v(d.signature.output())),
        O::Case(d) => (v(d.signature.input()), v(d.signature.output())),
        O::TailLoop(l) => {
            let mut out = vec![sum(&[l.just_inputs.clone(), l.just_outputs.clone()])];
            out.extend(v(&l.rest));
            (cat(&l.just_inputs, &l.rest), out)
        }
        O::DataflowBlock(b) => {
            let mut out = vec![sum(&b.sum_rows)];
            out.extend(v(&b.other_outputs));
            (v(&b.inputs), out)
        }
        _ => return None,
    })
}
fn texts(v: &[Type]) -> Vec<String> {
    v.iter().map(|t| canon::ty(t)).collect()
}
fn row_texts(v: &TypeRow) -> Vec<String> {
    v.iter().map(|t| canon::ty(t)).collect()
}
fn allowed(parent: &OpType, child: &OpType) -> bool {
    use OpType as O;
    let leaf = matches!(
        child,
        O::Input(_) | O::Output(_) | O::Call(_) | O::CallIndirect(_) | O::LoadConstant(_) | O::LoadFunction(_) | O::DFG(_) | O::CFG(_) | O::ExtensionOp(_) | O::OpaqueOp(_) | O::Tag(_) | O::TailLoop(_) | O::Conditional(_)
    );
    match parent {
        O::Module(_) => matches!(child, O::FuncDefn(_) | O::FuncDecl(_) | O::AliasDecl(_) | O::AliasDefn(_) | O::Const(_)),
        O::Conditional(_) => matches!(child, O::Case(_)),
        O::CFG(_) => matches!(child, O::DataflowBlock(_) | O::ExitBlock(_) | O::Const(_)),
        _ if region(parent).is_some() => leaf || matches!(child, O::Const(_)),
        _ => false,
    }
}
fn const_ok(v: &Value) -> Result<(), String> {
    match v {
        Value::Sum(s) => {
            let ty = s.sum_type.get_variant(s.tag).ok_or("tag")?;
            let want: Vec<String> = ty.iter().map(|t| canon::ty(t)).collect();
            for x in &s.values {
                const_ok(x)?;
            }
            let got: Vec<String> = s.values.iter().map(|x| canon::ty(&x.get_type())).collect();
            if want == got { Ok(()) } else { Err(format!("const {want:?} {got:?}")) }
        }
        Value::Function { hugr } => match verdict(hugr) {
            Some(Err(e)) => Err(format!("in function constant: {e}")),
            _ => Ok(()),
        },
        // the extension decides
        Value::Extension { .. } => Ok(()),
    }
}
type Check = Result<(), String>;
fn no<T>(s: impl Into<String>) -> Result<T, String> {
    Err(s.into())
}
fn order_linked(h: &Hugr, a: Node, b: Node) -> bool {
    let Some((_, outs)) = ports(h.get_optype(a)) else { return false };
    outs.last() == Some(&Kind::Order) && h.linked_inputs(a, OutgoingPort::from(outs.len() - 1)).any(|(m, q)| m == b && ports(h.get_optype(b)).is_some_and(|p| p.0.get(q.index()) == Some(&Kind::Order)))
}
/// Blocks reachable from the entry block without passing `without`.
fn reach(h: &Hugr, cfg: Node, without: Option<Node>) -> BTreeSet<Node> {
    let mut s = BTreeSet::new();
    let mut q: Vec<Node> = h.children(cfg).next().into_iter().collect();
    while let Some(n) = q.pop() {
        if Some(n) == without || !s.insert(n) {
            continue;
        }
        for p in h.node_outputs(n) {
            for (m, _) in h.linked_inputs(n, p) {
                if h.get_parent(m) == Some(cfg) {
                    q.push(m);
                }
            }
        }
    }
    s
}
/// Whether the graph is well formed; `None` if the rules leave it open.
pub fn verdict(h: &Hugr) -> Option<Check> {
    let mut open = false;
    let r = well_formed(h, &mut open);
    match r {
        Err(e) => Some(Err(e)),
        Ok(()) if open => None,
        Ok(()) => Some(Ok(())),
    }
}
fn well_formed(h: &Hugr, open: &mut bool) -> Check {
    let root = h.module_root();
    if !h.get_optype(root).is_module() || h.get_parent(root).is_some() {
        return no("root");
    }
    let e = h.get_optype(h.entrypoint());
    if region(e).is_none() && !matches!(e, OpType::Module(_) | OpType::CFG(_) | OpType::Conditional(_)) {
        return no("entrypoint");
    }
    // public names
    let mut names: BTreeMap<&str, Vec<(bool, String)>> = BTreeMap::new();
    for n in h.children(root) {
        let (name, public, defn, sig) = match h.get_optype(n) {
            OpType::FuncDefn(f) => (f.func_name(), f.visibility() == &Visibility::Public, true, canon::poly(f.signature())),
            OpType::FuncDecl(f) => (f.func_name(), f.visibility() == &Visibility::Public, false, canon::poly(f.signature())),
            _ => continue,
        };
        if public {
            names.entry(name).or_default().push((defn, sig));
        }
    }
    for (name, v) in names {
        if v.len() > 1 && (v.iter().any(|x| x.0) || v.iter().any(|x| x.1 != v[0].1)) {
            return no(format!("name {name}"));
        }
    }
    let nodes: Vec<Node> = h.nodes().collect();
    for &n in &nodes {
        let o = h.get_optype(n);
        let Some((ins, outs)) = ports(o) else { return no(format!("{n} has no meaning")) };
        if h.num_ports(n, Direction::Incoming) != ins.len() || h.num_ports(n, Direction::Outgoing) != outs.len() {
            return no(format!("port counts of {n}"));
        }
        if matches!(o, OpType::OpaqueOp(_)) {
            return no(format!("{n} is unresolved"));
        }
    }
    for &n in &nodes {
        node_ok(h, n, open)?;
    }
    Ok(())
}
fn node_ok(h: &Hugr, n: Node, open: &mut bool) -> Check {
    let root = h.module_root();
    let o = h.get_optype(n);
    if n != root {
        let Some(p) = h.get_parent(n) else { return no(format!("{n} has no parent")) };
        if !allowed(h.get_optype(p), o) {
            return no(format!("{n} in {p}"));
        }
    }
    let ch: Vec<Node> = h.children(n).collect();
    match o {
        OpType::Module(_) => {}
        OpType::CFG(c) => {
            let (Some(a), Some(z)) = (ch.first(), ch.get(1)) else { return no(format!("{n} lacks children")) };
            let (OpType::DataflowBlock(a), OpType::ExitBlock(z)) = (h.get_optype(*a), h.get_optype(*z)) else { return no(format!("first blocks of {n}")) };
            if row_texts(&a.inputs) != row_texts(c.signature.input()) || row_texts(&z.cfg_outputs) != row_texts(c.signature.output()) {
                return no(format!("signature of {n}"));
            }
            if ch[2..].iter().any(|x| h.get_optype(*x).is_exit_block()) {
                return no(format!("{n} has two exits"));
            }
        }
        OpType::Conditional(c) => {
            if ch.is_empty() || ch.len() != c.sum_rows.len() {
                return no(format!("cases of {n}"));
            }
            for (x, r) in ch.iter().zip(&c.sum_rows) {
                let OpType::Case(k) = h.get_optype(*x) else { return no(format!("case {x}")) };
                if row_texts(k.signature.input()) != texts(&cat(r, &c.other_inputs)) || row_texts(k.signature.output()) != row_texts(&c.outputs) {
                    return no(format!("signature of case {x}"));
                }
            }
        }
        _ => match region(o) {
            Some((i, u)) => {
                let (Some(a), Some(z)) = (ch.first(), ch.get(1)) else { return no(format!("{n} lacks children")) };
                let (OpType::Input(a), OpType::Output(z)) = (h.get_optype(*a), h.get_optype(*z)) else { return no(format!("first children of {n}")) };
                if row_texts(&a.types) != texts(&i) || row_texts(&z.types) != texts(&u) {
                    return no(format!("signature of the region of {n}"));
                }
                if ch[2..].iter().any(|x| matches!(h.get_optype(*x), OpType::Input(_) | OpType::Output(_))) {
                    return no(format!("{n} has more input or output nodes"));
                }
                // acyclic
                let mut done: BTreeSet<Node> = BTreeSet::new();
                let mut left: Vec<Node> = ch.clone();
                while !left.is_empty() {
                    let k = left.len();
                    left.retain(|x| {
                        let ready = h.node_inputs(*x).all(|p| h.linked_outputs(*x, p).all(|(m, _)| h.get_parent(m) != Some(n) || done.contains(&m)));
                        if ready {
                            done.insert(*x);
                        }
                        !ready
                    });
                    if left.len() == k {
                        return no(format!("cycle in {n}"));
                    }
                }
            }
            None => {
                if !ch.is_empty() {
                    return no(format!("{n} has children"));
                }
            }
        },
    }
    // variables in scope
    let mut decls: Vec<String> = vec![];
    let mut a = h.get_parent(n);
    while let Some(x) = a {
        if let OpType::FuncDefn(f) = h.get_optype(x) {
            decls = decls_of(f.signature());
            break;
        }
        a = h.get_parent(x);
    }
    let in_scope = |r: &[&TypeRow]| r.iter().all(|r| scoped(*r, &decls));
    let ok = match o {
        OpType::FuncDefn(f) => poly_ok(f.signature()),
        OpType::FuncDecl(f) => poly_ok(f.signature()),
        OpType::Const(c) => {
            if let Err(e) = const_ok(c.value()) {
                return no(format!("{n}: {e}"));
            }
            scoped(&c.get_type(), &[])
        }
        OpType::Input(i) => in_scope(&[&i.types]),
        OpType::Output(i) => in_scope(&[&i.types]),
        OpType::Call(c) => call_ok(&c.func_sig, &c.type_args, &c.instantiation, &decls),
        OpType::LoadFunction(c) => call_ok(&c.func_sig, &c.type_args, &c.instantiation, &decls),
        OpType::CallIndirect(c) => in_scope(&[c.signature.input(), c.signature.output()]),
        OpType::LoadConstant(l) => scoped(&l.datatype, &[]),
        OpType::DFG(d) => in_scope(&[d.signature.input(), d.signature.output()]),
        OpType::CFG(d) => in_scope(&[d.signature.input(), d.signature.output()]),
        OpType::Case(d) => in_scope(&[d.signature.input(), d.signature.output()]),
        OpType::ExtensionOp(e) => {
            let s = e.signature();
            e.args().iter().all(|a| scoped(a, &decls)) && in_scope(&[s.input(), s.output()])
        }
        OpType::Tag(t) => t.variants.iter().all(|r| scoped(r, &decls)),
        OpType::TailLoop(l) => in_scope(&[&l.just_inputs, &l.just_outputs, &l.rest]),
        OpType::Conditional(c) => c.sum_rows.iter().all(|r| scoped(r, &decls)) && in_scope(&[&c.other_inputs, &c.outputs]),
        OpType::DataflowBlock(b) => b.sum_rows.iter().all(|r| scoped(r, &decls)) && in_scope(&[&b.inputs, &b.other_outputs]),
        OpType::ExitBlock(b) => in_scope(&[&b.cfg_outputs]),
        _ => true,
    };
    if !ok {
        return no(format!("types of {n}"));
    }
    // links
    let (ins, outs) = ports(o).unwrap();
    for (i, k) in ins.iter().enumerate() {
        let c = h.linked_outputs(n, IncomingPort::from(i)).count();
        match k {
            Kind::Cfg | Kind::Order => {}
            _ if c != 1 => return no(format!("{c} links into port {i} of {n}")),
            _ => {}
        }
    }
    for (i, k) in outs.iter().enumerate() {
        let links: Vec<(Node, IncomingPort)> = h.linked_inputs(n, OutgoingPort::from(i)).collect();
        let single = matches!(k, Kind::Cfg | Kind::Val(_, false));
        if single && links.len() != 1 {
            return no(format!("{} links from port {i} of {n}", links.len()));
        }
        for (m, q) in links {
            let there = ports(h.get_optype(m)).unwrap().0;
            if there.get(q.index()) != Some(k) {
                return no(format!("link from port {i} of {n} to {q} of {m}: {k:?} and {:?}", there.get(q.index())));
            }
            edge_ok(h, n, k, m, open)?;
            if let (OpType::DataflowBlock(b), Kind::Cfg) = (o, k) {
                let want = texts(&cat(&b.sum_rows[i], &b.other_outputs));
                let got = match h.get_optype(m) {
                    OpType::DataflowBlock(x) => row_texts(&x.inputs),
                    OpType::ExitBlock(x) => row_texts(&x.cfg_outputs),
                    _ => return no("branch"),
                };
                if want != got {
                    return no(format!("branch {i} of {n}"));
                }
            }
        }
    }
    Ok(())
}
fn call_ok(f: &PolyFuncType, args: &[TypeArg], inst: &hugr::types::Signature, decls: &[String]) -> bool {
    poly_ok(f)
        && args.iter().all(|a| scoped(a, decls))
        && scoped(inst.input(), decls)
        && scoped(inst.output(), decls)
        && f.instantiate(args).is_ok_and(|s| canon::row(s.input()) == canon::row(inst.input()) && canon::row(s.output()) == canon::row(inst.output()))
}
fn edge_ok(h: &Hugr, n: Node, k: &Kind, m: Node, open: &mut bool) -> Check {
    let p = h.get_parent(n);
    if p == h.get_parent(m) {
        return Ok(());
    }
    let p = p.unwrap();
    // ancestors of the target
    let mut anc = vec![m];
    while let Some(x) = h.get_parent(*anc.last().unwrap()) {
        anc.push(x);
    }
    let inside = anc[1..].contains(&p);
    match k {
        Kind::Const(_) | Kind::Func(_) => {
            if inside { Ok(()) } else { no(format!("static edge from {n} to {m}")) }
        }
        Kind::Val(_, true) => {
            if inside {
                let i = anc.iter().position(|x| *x == p).unwrap();
                return if order_linked(h, n, anc[i - 1]) { Ok(()) } else { no(format!("no order edge from {n} to {}", anc[i - 1])) };
            }
            let Some(cfg) = h.get_parent(p) else { return no("edge") };
            let Some(i) = anc.iter().position(|x| *x == cfg) else { return no(format!("unrelated {n} and {m}")) };
            if !h.get_optype(cfg).is_cfg() || i == 0 {
                return no(format!("unrelated {n} and {m}"));
            }
            let target = anc[i - 1];
            if !reach(h, cfg, None).contains(&target) {
                // nothing ever gets there
                *open = true;
                return Ok(());
            }
            if reach(h, cfg, Some(p)).contains(&target) { no(format!("{p} does not dominate {target}")) } else { Ok(()) }
        }
        _ => no(format!("edge between regions from {n} to {m}")),
    }
}
