//! C23: registries and resolution.
use super::pkg;
use crate::gen_::Profile;
use crate::canon;
use crate::engine::*;
use crate::ext::{self, Alter, EXT, EXT2, EXT_ID};
use hugr::envelope::{EnvelopeConfig, EnvelopeFormat};
use hugr::extension::resolution::{ExtensionResolutionError, WeakExtensionRegistry};
use hugr::extension::{Extension, ExtensionId, ExtensionRegistry, SignatureFunc, Version};
use hugr::hugr::hugrmut::HugrMut;
use hugr::hugr::views::HugrView;
use hugr::ops::custom::OpaqueOpError;
use hugr::ops::{OpType, Value};
use hugr::package::Package;
use hugr::std_extensions::STD_REG;
use hugr::std_extensions::collections::array::ArrayValue;
use hugr::std_extensions::collections::list::ListValue;
use hugr::std_extensions::collections::static_array::StaticArrayValue;
use hugr::std_extensions::collections::value_array::VArrayValue;
use hugr::types::type_param::TypeParam;
use hugr::types::{CustomType, FuncValueType, PolyFuncType, PolyFuncTypeRV, Signature, SumType, Term, Type, TypeBound, TypeEnum, TypeRV};
use hugr::Hugr;
use hugr_core::hugr::internal::HugrMutInternals;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Weak};

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        rule: "generated programs whose operations were made opaque and whose type references dangle are resolved against a registry that is complete, lacks an extension, lacks or redefines one operation or type; histories of registry calls; version metadata; non-trivial: an extension outside the prelude occurs in the program, or the history has a version conflict",
        assumptions: &[
            "extensions of function values are tracked by the function value's own program, as the code documents",
            "native constants carry their extension themselves",
        ],
        subs: vec![
            Sub { name: "resolve", quick: 4_000, thorough: 200_000, f: resolve },
            Sub { name: "collect", quick: 1_500, thorough: 80_000, f: collect },
            Sub { name: "registry", quick: 20_000, thorough: 1_000_000, f: registry },
            Sub { name: "breaking", quick: 1_500, thorough: 60_000, f: breaking },
            Sub { name: "packaged", quick: 1_500, thorough: 60_000, f: packaged },
        ],
        findings: vec![],
    }
}

/// Walks every custom type in something.
pub struct Walk<'a> {
    pub f: &'a mut dyn FnMut(&CustomType, bool),
    /// Inside a native constant.
    native: bool,
    /// Also walk the programs of function values.
    nested: bool,
}
macro_rules! ty_fn {
    ($name:ident, $t:ty) => {
        fn $name(&mut self, t: &$t) {
            match t.as_type_enum() {
                TypeEnum::Extension(c) => {
                    for a in c.args() {
                        self.term(a);
                    }
                    (self.f)(c, self.native);
                }
                TypeEnum::Function(f) => {
                    f.input().iter().for_each(|t| self.ty_rv(t));
                    f.output().iter().for_each(|t| self.ty_rv(t));
                }
                TypeEnum::Sum(s) => self.sum(s),
                _ => {}
            }
        }
    };
}
impl Walk<'_> {
    ty_fn!(ty, Type);
    ty_fn!(ty_rv, TypeRV);
    fn sum(&mut self, s: &SumType) {
        if let SumType::General { rows } = s {
            rows.iter().flat_map(|r| r.iter()).for_each(|t| self.ty_rv(t));
        }
    }
    fn term(&mut self, t: &Term) {
        match t {
            Term::Runtime(t) => self.ty(t),
            Term::ConstType(t) => self.ty(t),
            Term::List(x) | Term::ListConcat(x) | Term::Tuple(x) | Term::TupleConcat(x) => x.iter().for_each(|t| self.term(t)),
            Term::ListType(x) | Term::TupleType(x) => self.term(x),
            _ => {}
        }
    }
    fn row<'b>(&mut self, r: impl IntoIterator<Item = &'b Type>) {
        r.into_iter().for_each(|t| self.ty(t));
    }
    fn sig(&mut self, s: &Signature) {
        self.row(s.input().iter());
        self.row(s.output().iter());
    }
    fn poly(&mut self, p: &PolyFuncType) {
        p.params().iter().for_each(|t| self.term(t));
        self.sig(p.body());
    }
    fn poly_rv(&mut self, p: &PolyFuncTypeRV) {
        p.params().iter().for_each(|t| self.term(t));
        p.body().input().iter().chain(p.body().output().iter()).for_each(|t| self.ty_rv(t));
    }
    fn value(&mut self, v: &Value) {
        match v {
            Value::Extension { e } => {
                let old = std::mem::replace(&mut self.native, true);
                self.ty(&e.get_type());
                self.native = old;
            }
            Value::Function { hugr } => {
                if self.nested {
                    self.program(hugr, &mut |_| ());
                }
            }
            Value::Sum(s) => {
                self.sum(&s.sum_type);
                s.values.iter().for_each(|v| self.value(v));
            }
        }
    }
    fn op(&mut self, o: &OpType) {
        use hugr::ops::dataflow::DataflowOpTrait;
        match o {
            OpType::FuncDefn(f) => self.poly(f.signature()),
            OpType::FuncDecl(f) => self.poly(f.signature()),
            OpType::AliasDefn(a) => self.ty(&a.definition),
            OpType::Const(c) => self.value(c.value()),
            OpType::Input(i) => self.row(i.types.iter()),
            OpType::Output(i) => self.row(i.types.iter()),
            OpType::Call(c) => {
                self.poly(&c.func_sig);
                self.sig(&c.instantiation);
                c.type_args.iter().for_each(|t| self.term(t));
            }
            OpType::LoadFunction(c) => {
                self.poly(&c.func_sig);
                self.sig(&c.instantiation);
                c.type_args.iter().for_each(|t| self.term(t));
            }
            OpType::CallIndirect(c) => self.sig(&c.signature),
            OpType::LoadConstant(c) => self.ty(&c.datatype),
            OpType::DFG(d) => self.sig(&d.signature),
            OpType::CFG(d) => self.sig(&d.signature),
            OpType::Case(d) => self.sig(&d.signature),
            OpType::ExtensionOp(e) => {
                self.sig(&e.signature());
                e.args().iter().for_each(|t| self.term(t));
            }
            OpType::OpaqueOp(e) => {
                self.sig(&e.signature());
                e.args().iter().for_each(|t| self.term(t));
            }
            OpType::Tag(t) => t.variants.iter().for_each(|r| self.row(r.iter())),
            OpType::DataflowBlock(b) => {
                self.row(b.inputs.iter());
                self.row(b.other_outputs.iter());
                b.sum_rows.iter().for_each(|r| self.row(r.iter()));
            }
            OpType::ExitBlock(b) => self.row(b.cfg_outputs.iter()),
            OpType::TailLoop(l) => {
                for r in [&l.just_inputs, &l.just_outputs, &l.rest] {
                    self.row(r.iter());
                }
            }
            OpType::Conditional(c) => {
                c.sum_rows.iter().for_each(|r| self.row(r.iter()));
                self.row(c.other_inputs.iter());
                self.row(c.outputs.iter());
            }
            _ => {}
        }
    }
    fn program(&mut self, h: &Hugr, ops: &mut dyn FnMut(&OpType)) {
        for n in h.nodes() {
            ops(h.get_optype(n));
            self.op(h.get_optype(n));
        }
    }
}
#[derive(Default, Debug)]
struct Uses {
    /// Everything mentioned outside of function values.
    outer: BTreeSet<ExtensionId>,
    /// Likewise, native constants aside.
    must: BTreeSet<ExtensionId>,
    all: BTreeSet<ExtensionId>,
    ops: BTreeSet<(ExtensionId, String)>,
    types: BTreeSet<(ExtensionId, String)>,
}
fn op_name(o: &OpType) -> Option<(ExtensionId, String)> {
    match o {
        OpType::ExtensionOp(e) => Some((e.def().extension_id().clone(), e.def().name().to_string())),
        OpType::OpaqueOp(e) => Some((e.extension().clone(), e.unqualified_id().to_string())),
        _ => None,
    }
}
fn programs(h: &Hugr, nested: bool, f: &mut dyn FnMut(&Hugr)) {
    fn val(v: &Value, f: &mut dyn FnMut(&Hugr)) {
        match v {
            Value::Function { hugr } => programs(hugr, true, f),
            Value::Sum(s) => s.values.iter().for_each(|v| val(v, f)),
            Value::Extension { e } => {
                let v = e.value();
                let inner = v
                    .downcast_ref::<ListValue>()
                    .map(|v| v.get_contents())
                    .or(v.downcast_ref::<ArrayValue>().map(|v| v.get_contents()))
                    .or(v.downcast_ref::<VArrayValue>().map(|v| v.get_contents()))
                    .or(v.downcast_ref::<StaticArrayValue>().map(|v| v.get_contents()));
                inner.into_iter().flatten().for_each(|v| val(v, f));
            }
        }
    }
    f(h);
    if nested {
        for n in h.nodes() {
            if let OpType::Const(c) = h.get_optype(n) {
                val(c.value(), f);
            }
        }
    }
}
fn uses(h: &Hugr) -> Uses {
    let mut u = Uses::default();
    let mut first = true;
    programs(h, true, &mut |h| {
        let (mut all, mut must, mut ops) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
        let mut types = BTreeSet::new();
        Walk {
            f: &mut |c, native| {
                all.insert(c.extension().clone());
                types.insert((c.extension().clone(), c.name().to_string()));
                if !native {
                    must.insert(c.extension().clone());
                }
            },
            native: false,
            nested: false,
        }
        .program(h, &mut |o| {
            if let Some(n) = op_name(o) {
                ops.insert(n);
            }
        });
        for (e, _) in &ops {
            all.insert(e.clone());
            must.insert(e.clone());
        }
        if first {
            u.outer = all.clone();
        }
        first = false;
        u.must.extend(must);
        u.all.extend(all);
        u.types.extend(types);
        u.ops.extend(ops);
    });
    u
}
/// Every reference to an extension must be to this registry's.
fn referenced(h: &Hugr, reg: &ExtensionRegistry, what: &str) -> R {
    let mut bad: Option<(String, String)> = None;
    programs(h, true, &mut |h| {
        for n in h.nodes() {
            let o = h.get_optype(n);
            let kind = canon::op(o, false).split(' ').next().unwrap_or("").to_string();
            Walk {
                f: &mut |c, _| {
                    let r = c.extension_ref().upgrade();
                    let want = reg.get(c.extension());
                    let ok = match (&r, want) {
                        (Some(a), Some(b)) => Arc::ptr_eq(a, b),
                        (Some(a), None) => STD_REG.get(a.name()).is_some_and(|b| Arc::ptr_eq(a, b)),
                        _ => false,
                    };
                    if !ok && bad.is_none() {
                        let how = if r.is_none() { "dangles" } else { "points elsewhere" };
                        bad = Some((format!("{what}: a type of {kind} {how}"), format!("{what}: type {}.{} in {n} {} {how}", c.extension(), c.name(), canon::op(o, false))));
                    }
                },
                native: false,
                nested: false,
            }
            .op(o);
            match o {
                OpType::ExtensionOp(e) => {
                    let want = reg.get(e.def().extension_id());
                    let def = want.and_then(|w| w.get_op(e.def().name()));
                    if !def.is_some_and(|d| Arc::ptr_eq(d, e.def_arc())) && bad.is_none() {
                        bad = Some((format!("{what}: op definition elsewhere"), format!("{what}: {n} version {:?}, registered {:?}: {}", e.def().extension().upgrade().map(|x| x.version().clone()), want.map(|w| w.version()), canon::op(o, false))));
                    }
                }
                OpType::OpaqueOp(_) if bad.is_none() => bad = Some((format!("{what}: still opaque"), format!("{what}: {n} {}", canon::op(o, false)))),
                _ => {}
            }
        }
    });
    match bad {
        Some((sig, msg)) => fail(sig, msg),
        None => Ok(()),
    }
}
fn fresh(a: &Alter, which: usize, va: Version, vb: Version) -> (Arc<Extension>, Arc<Extension>) {
    let d = Alter::default();
    (ext::build(EXT_ID, va, if which == 0 { a } else { &d }), ext::build(EXT2.name().clone(), vb, if which == 1 { a } else { &d }))
}
fn std_plus(es: &[&Arc<Extension>], without: Option<&ExtensionId>) -> ExtensionRegistry {
    ExtensionRegistry::new(STD_REG.iter().chain(es.iter().copied()).filter(|e| Some(e.name()) != without).cloned())
}
fn opaque(h: &mut Hugr) {
    for n in h.nodes().collect::<Vec<_>>() {
        if let OpType::ExtensionOp(e) = h.get_optype(n) {
            let o = e.make_opaque();
            h.replace_op(n, o);
        } else if let OpType::Const(c) = h.get_optype(n) {
            let mut v = c.value().clone();
            if in_value(&mut v) {
                h.replace_op(n, hugr::ops::Const::new(v));
            }
        }
    }
    fn in_value(v: &mut Value) -> bool {
        match v {
            Value::Function { hugr } => {
                opaque(hugr);
                true
            }
            Value::Sum(s) => s.values.iter_mut().fold(false, |a, v| in_value(v) || a),
            Value::Extension { .. } => false,
        }
    }
}
/// Function values inside native constants are out of reach of `opaque`.
fn hidden(h: &Hugr) -> bool {
    let (mut all, mut seen) = (0, 0);
    programs(h, true, &mut |_| all += 1);
    fn shown(v: &Value) -> usize {
        match v {
            Value::Function { hugr } => count(hugr),
            Value::Sum(s) => s.values.iter().map(shown).sum(),
            _ => 0,
        }
    }
    fn count(h: &Hugr) -> usize {
        1 + h.nodes().map(|n| if let OpType::Const(c) = h.get_optype(n) { shown(c.value()) } else { 0 }).sum::<usize>()
    }
    seen += count(h);
    all != seen
}
fn text(h: &Hugr) -> String {
    canon::graph_text(h)
}
fn program(c: &mut Ctx) -> Hugr {
    let size = 24;
    let mut p = pkg::any_profile(&mut c.t, size);
    p.fn_consts = c.t.flag();
    p.consty = p.consty || c.t.chance(1, 4);
    p.aliases = p.aliases || c.t.chance(1, 4);
    let mut h = crate::gen_::program(&mut c.t, &p).hugr;
    if c.t.chance(1, 6) {
        c.label("parameter of constant type");
        let e = *c.t.pick(&[&EXT, &EXT2]);
        let ty = Type::new_extension(e.get_type("T").unwrap().instantiate([]).unwrap());
        let ty = if c.t.flag() { Type::new_function(Signature::new(vec![ty], vec![])) } else { ty };
        let ps = vec![TypeParam::from(TypeBound::Copyable), TypeParam::new_list_type(Term::ConstType(Box::new(ty)))];
        let v = Type::new_var_use(0, TypeBound::Copyable);
        let f = hugr::ops::FuncDecl::new("constparam", PolyFuncType::new(ps, Signature::new_endo(vec![v])));
        let root = h.module_root();
        h.add_node_with_parent(root, f);
    }
    if hidden(&h) {
        c.label("function in a native constant");
        p.fn_consts = false;
        return crate::gen_::program(&mut c.t, &Profile { fn_consts: false, size: 6, collections: false, ..p }).hugr;
    }
    h
}
fn names(r: &ExtensionRegistry) -> BTreeSet<ExtensionId> {
    r.ids().cloned().collect()
}

fn resolve(c: &mut Ctx) -> R {
    let mut h = program(c);
    let before = text(&h);
    let u = uses(&h);
    let v = (EXT.version().clone(), EXT2.version().clone());
    opaque(&mut h);
    if c.t.flag() {
        c.label("dangling references");
        let (a, b) = fresh(&Alter::default(), 0, v.0.clone(), v.1.clone());
        let tmp = std_plus(&[&a, &b], None);
        if let Err(e) = guard("resolve", || h.resolve_extension_defs(&tmp))? {
            return fail("resolve rejects", format!("{e}"));
        }
        opaque(&mut h);
    }
    c.note(|| format!("uses {u:?}\n{before}"));
    let which = c.t.below(2);
    let id = [EXT_ID, EXT2.name().clone()][which].clone();
    let mut alter = Alter::default();
    let mut without = None;
    let mode = c.t.weighted(&[5, 3, 2, 2, 1, 1, 2]);
    let op = *c.t.pick(&["f", "eff", "dup", "args", "k"]);
    match mode {
        0 => c.label("complete"),
        1 => {
            c.label("missing extension");
            let pool: Vec<_> = u.all.iter().cloned().collect();
            without = Some(if pool.is_empty() || c.t.chance(1, 8) { id.clone() } else { c.t.pick(&pool).clone() });
        }
        2 => alter.no_op = Some(op),
        3 => alter.signature = Some(op),
        4 => alter.no_type = Some(*c.t.pick(&["L", "P", "N", "X"])),
        5 => alter.bound = Some(*c.t.pick(&["L", "N"])),
        _ => c.label("other version"),
    }
    c.note(|| format!("registry: {id} altered {alter:?}, without {without:?}"));
    let (mut va, mut vb) = v.clone();
    if mode == 6 {
        va = Version::new(c.t.range(0, 3) as u64, c.t.range(0, 3) as u64, 7);
        vb = Version::new(c.t.range(0, 3) as u64, c.t.range(0, 3) as u64, 7);
    }
    let (a, b) = fresh(&alter, which, va, vb);
    let reg = std_plus(&[&a, &b], without.as_ref());
    let used_op = |o: &str| u.ops.contains(&(id.clone(), o.to_string()));
    if u.all.iter().any(|e| e != &hugr::extension::prelude::PRELUDE_ID) {
        c.nontrivial(hash_str(&format!("{mode}{alter:?}{without:?}{before}")));
    }
    c.sample(|| format!("{} nodes using {:?}; altered {alter:?} without {without:?}", h.num_nodes(), u.all));
    let res = guard("resolve", || h.resolve_extension_defs(&reg))?;
    if let Some(m) = &without {
        return match res {
            Ok(()) => {
                ensure!(!u.must.contains(m), "missing extension not reported", "{m} is mentioned, but resolution succeeds");
                c.label("missing but unused");
                Ok(())
            }
            Err(e) => {
                let ok = match &e {
                    ExtensionResolutionError::MissingOpExtension { missing_extension, .. } | ExtensionResolutionError::MissingTypeExtension { missing_extension, .. } => missing_extension == m,
                    ExtensionResolutionError::InvalidConstTypes { missing_extensions, .. } => missing_extensions.contains(m),
                    _ => false,
                };
                ensure!(ok, "wrong error for a missing extension", "without {m}: {e}");
                ensure!(u.all.contains(m), "unused extension reported", "{m} is not used: {e}");
                Ok(())
            }
        };
    }
    if let Some(o) = alter.no_op {
        c.label_if(used_op(o), "used operation lacking");
        match &res {
            Err(ExtensionResolutionError::OpaqueOpError(OpaqueOpError::OpNotFoundInExtension { extension, .. })) if extension == &id && used_op(o) => return Ok(()),
            Err(e) => return fail("wrong error for a missing operation", format!("{id}.{o} (used: {}): {e}", used_op(o))),
            Ok(()) => ensure!(!used_op(o), "missing operation not reported", "{id}.{o} is gone, but resolution succeeds"),
        }
    }
    if let Some(o) = alter.signature {
        c.label_if(used_op(o), "used operation redefined");
        match &res {
            Err(ExtensionResolutionError::OpaqueOpError(OpaqueOpError::SignatureMismatch { extension, .. })) if extension == &id && used_op(o) => return Ok(()),
            Err(e) => return fail("wrong error for a changed signature", format!("{id}.{o} (used: {}): {e}", used_op(o))),
            // Swapping inputs and outputs may leave some instances as they are.
            Ok(()) => ensure!(!used_op(o) || o == "f" || o == "eff", "changed signature not reported", "{id}.{o} changed, but resolution succeeds"),
        }
    }
    if let Err(e) = res {
        return fail("resolve rejects", format!("{e}"));
    }
    let after = text(&h);
    ensure!(after == before, "resolution changes the program", "{}", difft(&before, &after));
    referenced(&h, &reg, "resolve")?;
    let got = names(h.extensions());
    let missing: Vec<_> = u.outer.difference(&got).collect();
    ensure!(missing.is_empty(), "used extension not recorded", "{missing:?} are used but not in extensions()");
    let extra: Vec<_> = got.difference(&u.outer).collect();
    ensure!(extra.iter().all(|e| u.all.contains(*e)), "unused extension recorded", "{extra:?} are in extensions(), but not used");
    for e in h.extensions().iter() {
        let want = reg.get(e.name()).unwrap();
        ensure!(Arc::ptr_eq(e, want), "another extension recorded", "{}", e.name());
    }
    let bad_type = alter.no_type.or(alter.bound).is_some_and(|t| u.types.contains(&(id.clone(), t.to_string())));
    match (guard("validate", || h.validate())?, bad_type) {
        (Ok(()), false) => Ok(()),
        (Err(e), false) => fail("resolved program invalid", format!("{e}")),
        (Err(_), true) => {
            c.label("type definition lacking or different");
            Ok(())
        }
        // Types inside constants of function type are checked only when the value is.
        (Ok(()), true) => fail("type without its definition accepted", format!("{id}: {alter:?}")),
    }
}

fn collect(c: &mut Ctx) -> R {
    let h = program(c);
    c.nontrivial(hash_str(&text(&h)));
    c.note(|| text(&h));
    let mut all = ExtensionRegistry::default();
    for n in h.nodes() {
        let o = h.get_optype(n);
        let mut want = BTreeSet::new();
        Walk { f: &mut |t, _| drop(want.insert(t.extension().clone())), native: false, nested: false }.op(o);
        if let Some((e, _)) = op_name(o).filter(|_| matches!(o, OpType::ExtensionOp(_))) {
            want.insert(e);
        }
        let got = match guard("used_extensions", || o.used_extensions())? {
            Ok(g) => g,
            Err(e) => return fail("used_extensions fails", format!("{n} {}: {e}", canon::op(o, false))),
        };
        let kind = canon::op(o, false).split(' ').next().unwrap_or("").to_string();
        ensure!(names(&got) == want, format!("used_extensions of {kind}"), "{n} {}: {:?}, but {want:?} are mentioned", canon::op(o, false), names(&got));
        all.extend(got);
        use hugr::ops::OpTrait;
        if let Some(s) = o.dataflow_signature() {
            let mut want = BTreeSet::new();
            let mut w = Walk { f: &mut |t, _| drop(want.insert(t.extension().clone())), native: false, nested: false };
            w.sig(&s);
            let got = guard("used_extensions", || s.used_extensions())?;
            ensure!(got.is_ok_and(|g| names(&g) == want), "used_extensions of a signature", "{n}: {s}");
            for t in s.input().iter().chain(s.output().iter()) {
                let mut want = BTreeSet::new();
                Walk { f: &mut |t, _| drop(want.insert(t.extension().clone())), native: false, nested: false }.ty(t);
                let got = guard("used_extensions", || t.used_extensions())?;
                ensure!(got.is_ok_and(|g| names(&g) == want), "used_extensions of a type", "{n}: {t}");
            }
        }
    }
    // What a program says it uses is enough to load it.
    let mut h = h;
    if let Err(e) = guard("resolve", || h.resolve_extension_defs(&ext::REG))? {
        return fail("resolve rejects", format!("{e}"));
    }
    ensure!(names(h.extensions()) == names(&all), "extensions() against used_extensions()", "{} / {}", h.extensions(), all);
    let mut reg = ExtensionRegistry::default();
    programs(&h, true, &mut |h| reg.extend(h.extensions().iter()));
    let formats = [EnvelopeFormat::PackageJson, EnvelopeFormat::Model, EnvelopeFormat::ModelText];
    let f = formats[if c.t.flag() { 0 } else { c.t.below(3) }];
    let pkg = Package::new([h]);
    let mut buf = vec![];
    if !stored(&pkg, &mut buf, f) {
        c.label("not storable");
        return Ok(());
    }
    let back = guard("load", || Package::load(buf.as_slice(), Some(&ext::REG)))?;
    if back.is_err() {
        c.label("not loadable");
        return Ok(());
    }
    match guard("load", || Package::load(buf.as_slice(), Some(&reg)))? {
        Ok(p) => {
            let (a, b) = (text(&back.unwrap().modules[0]), text(&p.modules[0]));
            ensure!(a == b, "loading with its own extensions differs", "{}", difft(&a, &b));
            Ok(())
        }
        Err(e) => fail("own extensions do not suffice", format!("{f:?} with {reg}: {e:?}")),
    }
}

fn small(name: &ExtensionId, v: Version, bad: bool) -> Arc<Extension> {
    Extension::new_arc(name.clone(), v, |e, r| {
        let sig = if bad {
            // uses a variable nothing declares
            PolyFuncTypeRV::from(FuncValueType::new(vec![TypeRV::new_row_var_use(3, TypeBound::Linear)], Vec::<TypeRV>::new()))
        } else {
            PolyFuncTypeRV::from(FuncValueType::new_endo(Vec::<TypeRV>::new()))
        };
        e.add_op("o".into(), "".into(), sig, r).unwrap();
    })
}
fn registry(c: &mut Ctx) -> R {
    const IDS: [&str; 3] = ["a", "a.b", "c"];
    const VS: [&str; 12] = ["0.0.0", "0.1.0", "0.1.1", "0.2.0", "1.0.0", "1.0.0-alpha", "1.0.0-alpha.1", "1.0.0-beta", "1.0.0+x", "1.2.0", "2.0.0-rc.1", "0.10.0"];
    let mut reg = ExtensionRegistry::default();
    let mut model: BTreeMap<String, Arc<Extension>> = BTreeMap::new();
    let bad = |e: &Extension| e.get_op("o").is_some_and(|o| matches!(o.signature_func(), SignatureFunc::PolyFuncType(p) if p.body().input().len() == 1));
    let newer = |a: &Version, b: &Version| a > b;
    let mut others: Vec<(ExtensionRegistry, BTreeMap<String, Arc<Extension>>)> = vec![];
    let mut conflicts = 0;
    let mut history = String::new();
    let n = c.t.range(1, 14);
    for _ in 0..n {
        let id = ExtensionId::new(*c.t.pick(&IDS)).unwrap();
        let v = Version::parse(c.t.pick(&VS)).unwrap();
        let e = small(&id, v.clone(), c.t.chance(1, 5));
        let key = id.to_string();
        let what = c.t.below(11);
        let upd = |m: &mut BTreeMap<String, Arc<Extension>>, e: &Arc<Extension>| match m.get(e.name().as_ref() as &str) {
            Some(old) if !newer(e.version(), old.version()) => {}
            _ => drop(m.insert(e.name().to_string(), e.clone())),
        };
        let line = format!("{what}: {id} {v} bad={}", bad(&e));
        history.push_str(&line);
        c.note(|| line);
        conflicts += model.contains_key(&key) as u64;
        match what {
            0 | 1 => {
                let r = guard("register", || reg.register(e.clone()))?;
                ensure!(r.is_err() == model.contains_key(&key), "register of a known id", "{id} {v}: {r:?}");
                if let Err(x) = &r {
                    let old = model[&key].version().to_string();
                    ensure!(x.to_string().contains(&old) && x.to_string().contains(&v.to_string()), "register error", "{x}; {old} and {v}");
                }
                model.entry(key).or_insert(e);
            }
            2 | 3 => {
                guard("register_updated", || reg.register_updated(e.clone()))?;
                upd(&mut model, &e);
            }
            4 => {
                guard("register_updated_ref", || reg.register_updated_ref(&e))?;
                upd(&mut model, &e);
            }
            5 => {
                let r = guard("remove", || reg.remove_extension(&id))?;
                let m = model.remove(&key);
                ensure!(r.is_some() == m.is_some() && r.zip(m).is_none_or(|(a, b)| Arc::ptr_eq(&a, &b)), "remove_extension", "{id}");
            }
            6 => {
                others.push((reg.clone(), model.clone()));
                c.label("clone");
            }
            7 => {
                let es: Vec<_> = (0..c.t.below(3)).map(|_| small(&ExtensionId::new(*c.t.pick(&IDS)).unwrap(), Version::parse(c.t.pick(&VS)).unwrap(), false)).collect();
                if c.t.flag() {
                    reg.extend(es.iter());
                } else {
                    reg.extend(es.clone());
                }
                es.iter().for_each(|e| upd(&mut model, e));
            }
            8 => {
                if let Some((r, m)) = others.pop() {
                    let (r, m) = (std::mem::replace(&mut reg, r), std::mem::replace(&mut model, m));
                    if c.t.flag() {
                        reg.extend(r.iter());
                        m.values().for_each(|e| upd(&mut model, e));
                    }
                }
            }
            9 => {
                let mut es: Vec<_> = model.values().cloned().collect();
                c.t.shuffle(&mut es);
                let mut m = BTreeMap::new();
                es.push(e.clone());
                es.iter().for_each(|e| upd(&mut m, e));
                reg = ExtensionRegistry::new(es);
                model = m;
            }
            _ => {
                let w: WeakExtensionRegistry = (&reg).into();
                ensure!(w.ids().map(|i| i.to_string()).eq(model.keys().cloned()), "weak registry", "{w}");
                let back = if c.t.flag() { ExtensionRegistry::try_from(&w) } else { ExtensionRegistry::try_from(w.clone()) };
                ensure!(back.is_ok_and(|b| b == reg), "weak registry and back", "{reg}");
                let mut w2 = w.clone();
                let gone = Arc::downgrade(&e);
                let was = w2.register(id.clone(), gone);
                ensure!(was != model.contains_key(&key), "weak register", "{id}: {was}");
                ensure!(w2.get(&id).is_some_and(|x| Weak::ptr_eq(x, &Arc::downgrade(&e))), "weak get", "{id}");
                drop(e);
                ensure!(ExtensionRegistry::try_from(w2).is_err(), "dangling weak registry converts", "{id}");
            }
        }
        let order: Vec<String> = reg.ids().map(|i| i.to_string()).collect();
        ensure!(order.iter().eq(model.keys()), "ids", "{order:?} / {:?}", model.keys());
        ensure!(reg.len() == model.len() && reg.is_empty() == model.is_empty() && reg.iter().count() == model.len(), "len", "");
        for i in IDS {
            let (a, b) = (reg.get(i), model.get(i));
            ensure!(reg.contains(i) == b.is_some(), "contains", "{i}");
            ensure!(a.is_some() == b.is_some() && a.zip(b).is_none_or(|(a, b)| Arc::ptr_eq(a, b)), "get", "{i}: {:?}, expected {:?}", a.map(|e| e.version()), b.map(|e| e.version()));
        }
        if c.t.flag() {
            let r = guard("validate", || reg.validate())?;
            let want = model.values().any(|e| bad(e));
            ensure!(r.is_err() == want, "validate", "{r:?}, expected an error: {want}");
        }
    }
    if conflicts > 0 {
        c.nontrivial(hash_str(&history));
    }
    Ok(())
}

fn compatible(registered: &Version, used: &Version) -> bool {
    registered.major == used.major && (used.major != 0 || registered.minor == used.minor) && registered >= used
}
fn breaking(c: &mut Ctx) -> R {
    let mut h = program(c);
    let u = uses(&h);
    let v = |c: &mut Ctx| Version::new(c.t.range(0, 2) as u64, c.t.range(0, 3) as u64, c.t.range(0, 3) as u64);
    let (va, vb) = (v(c), v(c));
    let (a, b) = fresh(&Alter::default(), 0, va.clone(), vb.clone());
    let reg = std_plus(&[&a, &b], None);
    let mut list = vec![];
    let mut wrong = vec![];
    for (e, ver) in [(EXT_ID, &va), (EXT2.name().clone(), &vb), (ExtensionId::new("nowhere").unwrap(), &va)] {
        if c.t.chance(2, 3) {
            let w = if c.t.chance(1, 3) { ver.clone() } else { Version::new(c.t.range(0, 2) as u64, c.t.range(0, 3) as u64, c.t.range(0, 3) as u64) };
            if e.to_string() != "nowhere" && !compatible(ver, &w) && u.outer.contains(&e) {
                wrong.push(e.to_string());
            }
            list.push(serde_json::json!({"name": e.to_string(), "version": w.to_string()}));
        }
    }
    c.label_if(!wrong.is_empty(), "incompatible version in use");
    c.note(|| format!("registered {va} {vb}; recorded {list:?}; used {:?}", u.outer));
    h.set_metadata(h.module_root(), "core.used_extensions", list.clone());
    let pkg = Package::new([h]);
    let f = *c.t.pick(&[EnvelopeFormat::PackageJson, EnvelopeFormat::Model, EnvelopeFormat::ModelText]);
    let mut buf = vec![];
    if !stored(&pkg, &mut buf, f) {
        return Ok(());
    }
    // The same without the record must load.
    let mut plain = pkg.clone();
    let root = plain.modules[0].module_root();
    plain.modules[0].remove_metadata(root, "core.used_extensions");
    let mut buf2 = vec![];
    if !stored(&plain, &mut buf2, f) || Package::load(buf2.as_slice(), Some(&reg)).is_err() {
        c.label("not loadable");
        return Ok(());
    }
    if !list.is_empty() {
        c.nontrivial(hash_str(&format!("{va}{vb}{list:?}{:?}", u.outer)));
    }
    match (guard("load", || Package::load(buf.as_slice(), Some(&reg)))?, wrong.is_empty()) {
        (Ok(p), true) => {
            drop(p);
            Ok(())
        }
        (Err(_), false) => Ok(()),
        (Ok(_), false) => fail("incompatible version not reported", format!("{f:?}: {wrong:?}")),
        (Err(e), true) => fail("compatible version rejected", format!("{f:?}: {e}")),
    }
}

/// The definitions inside an extension must refer to the loaded ones.
fn inside(e: &Arc<Extension>, reg: &ExtensionRegistry, other: &ExtensionRegistry) -> R {
    for (n, d) in e.types() {
        let r = d.extension().upgrade();
        ensure!(r.is_some_and(|r| Arc::ptr_eq(&r, e)), "type definition refers to another extension", "{}.{n}", e.name());
    }
    for (n, d) in e.operations() {
        let r = d.extension().upgrade();
        ensure!(r.is_some_and(|r| Arc::ptr_eq(&r, e)), "op definition refers to another extension", "{}.{n}", e.name());
        let p = match d.signature_func() {
            SignatureFunc::PolyFuncType(p) | SignatureFunc::MissingValidateFunc(p) => p.clone(),
            _ => continue,
        };
        let mut bad = None;
        Walk {
            f: &mut |t, _| {
                let ok = t.extension_ref().upgrade().is_some_and(|x| [reg, other].iter().any(|r| r.get(x.name()).is_some_and(|y| Arc::ptr_eq(&x, y))));
                if !ok {
                    bad = Some(t.name().to_string());
                }
            },
            native: false,
            nested: false,
        }
        .poly_rv(&p);
        ensure!(bad.is_none(), "a type in a loaded definition dangles", "{}.{n}: {bad:?}", e.name());
    }
    Ok(())
}
/// Packages carrying extensions of their own, some depending on each other.
fn packaged(c: &mut Ctx) -> R {
    let mut vs = vec![];
    for _ in 0..4 {
        vs.push(Version::new(0, 1 + c.t.range(0, 1) as u64, c.t.range(0, 2) as u64));
    }
    let (a, b) = fresh(&Alter::default(), 0, vs[0].clone(), vs[1].clone());
    // An extension whose definitions mention the others' types.
    let user = Extension::new_arc(ExtensionId::new("vtest.user").unwrap(), Version::new(0, 1, 0), |e, r| {
        let t = |x: &Arc<Extension>, n: &str| Type::new_extension(x.get_type(n).unwrap().instantiate([]).unwrap());
        let p = |x: &Arc<Extension>, t: Type| Type::new_extension(x.get_type("P").unwrap().instantiate([t.into()]).unwrap());
        let (ta, lb) = (t(&a, "T"), t(&b, "L"));
        e.add_op("x".into(), "".into(), PolyFuncTypeRV::from(FuncValueType::new(vec![p(&b, ta.clone())], vec![Type::new_sum([vec![lb.clone()], vec![]])])), r).unwrap();
        let ct = [ta.clone(), Type::new_tuple(vec![ta.clone(), ta.clone()])][c.t.below(2)].clone();
        e.add_op(
            "y".into(),
            "".into(),
            PolyFuncTypeRV::new(vec![TypeParam::new_list_type(Term::ConstType(Box::new(ct.clone()))), TypeBound::Linear.into()], FuncValueType::new(vec![Type::new_var_use(1, TypeBound::Linear)], vec![ct])),
            r,
        )
        .unwrap();
        e.add_type("U".into(), vec![Term::ConstType(Box::new(ta.clone()))], "".into(), hugr::extension::TypeDefBound::copyable(), r).unwrap();
    });
    let mut here = ExtensionRegistry::default();
    let mut there = STD_REG.clone();
    let (a2, b2) = fresh(&Alter::default(), 0, vs[2].clone(), vs[3].clone());
    for (e, alt) in [(&a, &a2), (&b, &b2), (&user, &user)] {
        let how = c.t.weighted(&[3, 2, 2]);
        if how != 1 || e.name() == user.name() {
            here.register(e.clone()).unwrap();
        }
        if how == 1 {
            there.register(e.clone()).unwrap();
        } else if how == 2 {
            c.label("embedded and supplied");
            there.register(alt.clone()).unwrap();
        }
    }
    c.note(|| format!("embedded {:?}, supplied {:?}", here.iter().map(|e| (e.name(), e.version())).collect::<Vec<_>>(), there.iter().filter(|e| e.name().starts_with("vtest")).map(|e| (e.name(), e.version())).collect::<Vec<_>>()));
    c.nontrivial(hash_str(&format!("{vs:?}{here}{there}")));
    // Registries alone
    let json = serde_json::to_string(&here).unwrap();
    let back = match guard("load_json", || ExtensionRegistry::load_json(json.as_bytes(), &there))? {
        Ok(b) => b,
        Err(e) => return fail("registry does not load", format!("{e}")),
    };
    ensure!(names(&back) == names(&here), "registry loses extensions", "{back} / {here}");
    for e in back.iter() {
        inside(e, &back, &there)?;
        let orig = here.get(e.name()).unwrap();
        ensure!(serde_json::to_value(e).unwrap() == serde_json::to_value(orig).unwrap(), "registry round trip", "{}", e.name());
    }
    // With a program
    let mut h = program(c);
    let reg = std_plus(&[&a, &b], None);
    opaque(&mut h);
    if let Err(e) = guard("resolve", || h.resolve_extension_defs(&reg))? {
        return fail("resolve rejects", format!("{e}"));
    }
    let before = text(&h);
    let mut pkg = Package::new([h]);
    pkg.extensions = here.clone();
    let f = *c.t.pick(&[EnvelopeFormat::PackageJson, EnvelopeFormat::ModelTextWithExtensions, EnvelopeFormat::ModelWithExtensions]);
    c.note(|| format!("{f:?}\n{before}"));
    let mut buf = vec![];
    if !stored(&pkg, &mut buf, f) {
        return Ok(());
    }
    let p = match guard("load", || Package::load(buf.as_slice(), Some(&there)))? {
        Ok(p) => p,
        Err(_) if f != EnvelopeFormat::PackageJson => return Ok(()),
        Err(e) => return fail("package does not load", format!("{e}")),
    };
    if f == EnvelopeFormat::PackageJson {
        let after = text(&p.modules[0]);
        ensure!(before == after, "package round trip", "{}", difft(&before, &after));
    }
    // Whatever is the newest of each, and nothing dangles.
    let mut want = there.clone();
    want.extend(p.extensions.iter());
    for e in p.extensions.iter() {
        inside(e, &p.extensions, &there)?;
    }
    referenced(&p.modules[0], &want, "packaged")?;
    ensure!(p.modules[0].validate().is_ok(), "loaded package invalid", "");
    Ok(())
}
fn difft(a: &str, b: &str) -> String {
    a.lines().zip(b.lines()).find(|(x, y)| x != y).map_or(String::new(), |(x, y)| format!("- {x}\n+ {y}"))
}
/// What a format cannot store (a panic included) is decided by C01 and C02.
fn stored(p: &Package, buf: &mut Vec<u8>, f: EnvelopeFormat) -> bool {
    no_panic(|| p.store(buf, EnvelopeConfig::new(f))).is_ok_and(|r| r.is_ok())
}
