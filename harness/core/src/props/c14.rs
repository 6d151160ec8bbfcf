//! C14: compile-time evaluation of standard operations, against the
//! specification's definitions.
use crate::canon;
use crate::engine::*;
use crate::gen_::{self, gen_f64, gen_string, int_t};
use crate::interp::{self, Arg, StdRes, V, const_to_v};
use hugr::builder::{Dataflow, DataflowHugr, DFGBuilder};
use hugr::extension::prelude::{ConstError, ConstString, ConstUsize, bool_t, string_type, usize_t};
use hugr::ops::{ExtensionOp, OpType, Value};
use hugr::std_extensions::STD_REG;
use hugr::std_extensions::arithmetic::float_types::{ConstF64, float64_type};
use hugr::std_extensions::arithmetic::int_types::ConstInt;
use hugr::std_extensions::collections::list::{ListValue, list_type};
use hugr::types::{Signature, Type, TypeEnum};
use hugr::types::type_param::TypeArg;
use hugr::{HugrView, IncomingPort};
use std::sync::LazyLock;

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        rule: "every operation of the standard extensions instantiated at every integer width (and small types for the generic ones), applied to constants drawn with emphasis on the edges of the width (0, 1, minimum, maximum, width, sign change, powers of two), evaluated by the operation's folder (with all or some inputs known) and by the whole constant folding pass; non-trivial: the folder returned a value, distinct by (operation, arguments, operands)",
        assumptions: &["the sign of a zero result of fmax/fmin and the meaning of list insert at index = length are left open", "the messages of error values are not compared"],
        subs: vec![
            Sub { name: "fold", quick: 1_500_000, thorough: 40_000_000, f: fold },
            Sub { name: "pass", quick: 60_000, thorough: 1_500_000, f: pass },
        ],
        findings: vec![
            Finding { id: "sign-conversion-panic", still_present: sign_conversion },
            Finding { id: "list-length-port", still_present: list_length },
            Finding { id: "list-insert-type", still_present: list_insert },
        ],
    }
}

fn instance(ext: &str, name: &str, a: Vec<TypeArg>) -> ExtensionOp {
    STD_REG.get(ext).unwrap().instantiate_extension_op(name, a).unwrap()
}
pub fn sign_conversion() -> bool {
    let v: Value = ConstInt::new_u(3, 200).unwrap().into();
    ["is_to_u", "iu_to_s"].into_iter().any(|n| {
        let op = instance("arithmetic.int", n, vec![TypeArg::BoundedNat(3)]);
        no_panic(|| op.constant_fold(&[(0.into(), v.clone())])).is_err()
    })
}
fn list_length() -> bool {
    let op = instance("collections.list", "length", vec![bool_t().into()]);
    op.constant_fold(&[(0.into(), ListValue::new(bool_t(), []).into())]).is_some_and(|o| o.iter().any(|(p, v)| hugr::PortIndex::index(*p) == 0 && v.get_type() == usize_t()))
}
fn list_insert() -> bool {
    let op = instance("collections.list", "insert", vec![bool_t().into()]);
    let l: Value = ListValue::new(bool_t(), [Value::false_val()]).into();
    let ins = [(0.into(), l), (1.into(), ConstUsize::new(0).into()), (2.into(), Value::true_val())];
    op.constant_fold(&ins).is_some_and(|o| o.iter().any(|(p, v)| hugr::PortIndex::index(*p) == 1 && Some(&v.get_type()) != OpType::from(op.clone()).dataflow_signature().unwrap().output().get(1)))
}
/// The signature of a crash, telling the listed ones apart.
fn crash_sig(name: &str, k: &Case, msg: &str) -> String {
    let negative = || match (k.ins.first().map(to_v), k.op.args().first().and_then(|a| a.as_nat())) {
        (Some(Ok(V::I(n))), Some(w)) => n >> (interp::width(w as u8) - 1) & 1 == 1,
        _ => false,
    };
    if (name == "arithmetic.int.is_to_u" && msg.starts_with("Cannot convert negative integer") || name == "arithmetic.int.iu_to_s" && msg.contains("is too large to be converted to signed")) && negative() {
        return "known:sign-conversion-panic".into();
    }
    format!("{name}:crash")
}

struct OpInfo {
    ext: String,
    name: String,
}
static OPS: LazyLock<Vec<OpInfo>> = LazyLock::new(|| {
    let mut v = vec![];
    for e in STD_REG.iter() {
        let mut names: Vec<_> = e.operations().map(|(n, _)| n.to_string()).collect();
        names.sort();
        for n in names {
            if e.get_op(&n).unwrap().extension_id() == e.name() {
                v.push(OpInfo { ext: e.name().to_string(), name: n });
            }
        }
    }
    v.sort_by(|a, b| (&a.ext, &a.name).cmp(&(&b.ext, &b.name)));
    v
});
/// Relative frequency of an extension.
fn weight(e: &str) -> u32 {
    match e {
        "arithmetic.int" => 24,
        "arithmetic.conversions" => 20,
        "arithmetic.float" => 10,
        "collections.list" => 12,
        "logic" => 6,
        "prelude" => 4,
        _ => 1,
    }
}

fn small_type(t: &mut Tape, d: usize) -> Type {
    match t.below(if d == 0 { 6 } else { 9 }) {
        0 => bool_t(),
        1 => { let w = t.below(7) as u8; int_t(w) }
        2 => usize_t(),
        3 => string_type(),
        4 => float64_type(),
        5 => Type::UNIT,
        6 => { let n = t.below(3); Type::new_tuple((0..n).map(|_| small_type(t, d - 1)).collect::<Vec<_>>()) }
        7 => list_type(small_type(t, d - 1)),
        _ => {
            let n = t.range(1, 3);
            Type::new_sum((0..n).map(|_| { let k = t.below(3); hugr::types::TypeRow::from((0..k).map(|_| small_type(t, d - 1)).collect::<Vec<_>>()) }).collect::<Vec<_>>())
        }
    }
}
fn int_operand(t: &mut Tape, w: u8) -> u64 {
    let m = interp::mask(w);
    let bits = interp::width(w) as u64;
    let x = match t.below(12) {
        0 => 0,
        1 => 1,
        2 => m,
        3 => 1u64 << (bits - 1),
        4 => (1u64 << (bits - 1)).wrapping_sub(1),
        5 => bits,
        6 => bits.wrapping_sub(1),
        7 => t.below(2 * bits as usize + 1) as u64,
        8 => { let s = t.below(bits as usize) as u64; (1u64 << s).wrapping_add(t.below(3) as u64).wrapping_sub(1) }
        9 => (t.below(5) as u64).wrapping_neg(),
        _ => t.u64(),
    };
    x & m
}
fn float_operand(t: &mut Tape) -> f64 {
    match t.below(6) {
        0 => {
            let k = t.below(66) as i32;
            let d = *t.pick(&[0.0, 0.5, -0.5, 1.0, -1.0, 1e-9]);
            let s = if t.flag() { 1.0 } else { -1.0 };
            s * (2f64.powi(k) + d)
        }
        1 => f64::from_bits(2f64.powi(t.below(65) as i32).to_bits() - 1),
        2 => t.below(2000) as f64 / 2.0 - 500.0,
        _ => gen_f64(t),
    }
}
fn value(t: &mut Tape, ty: &Type, d: usize) -> Option<Value> {
    if d > 5 {
        return None;
    }
    Some(match ty.as_type_enum() {
        TypeEnum::Extension(c) => match (c.extension().as_ref(), c.name().as_str(), c.args()) {
            ("arithmetic.int.types", _, [a]) => {
                let w = a.as_nat()? as u8;
                ConstInt::new_u(w, int_operand(t, w)).ok()?.into()
            }
            ("arithmetic.float.types", _, _) => ConstF64::new(float_operand(t)).into(),
            ("prelude", "usize", _) => {
                let n = if t.chance(1, 5) { t.edge_u64() } else { t.below(6) as u64 };
                ConstUsize::new(n).into()
            }
            ("prelude", "string", _) => ConstString::new(gen_string(t)).into(),
            ("prelude", "error", _) => ConstError::new(t.below(9) as u32, gen_string(t)).into(),
            ("collections.list", _, [a]) => {
                let e = a.as_runtime()?;
                let n = t.below(5);
                let mut v = vec![];
                for _ in 0..n {
                    v.push(value(t, &e, d + 1)?);
                }
                ListValue::new(e, v).into()
            }
            _ => return None,
        },
        TypeEnum::Sum(s) => {
            let rows = gen_::sum_rows(s)?;
            if rows.is_empty() {
                return None;
            }
            let k = t.below(rows.len());
            let mut v = vec![];
            for x in &rows[k] {
                v.push(value(t, x, d + 1)?);
            }
            Value::sum(k, v, s.clone()).ok()?
        }
        _ => return None,
    })
}
fn args(t: &mut Tape, ext: &str, name: &str) -> Vec<TypeArg> {
    let w = |t: &mut Tape| TypeArg::BoundedNat(t.below(7) as u64);
    match ext {
        "arithmetic.int" => {
            if name.starts_with("iwiden") || name.starts_with("inarrow") {
                let (a, b) = (t.below(7) as u64, t.below(7) as u64);
                let (lo, hi) = (a.min(b), a.max(b));
                if name.starts_with("iwiden") { vec![lo.into(), hi.into()] } else { vec![hi.into(), lo.into()] }
            } else {
                vec![w(t)]
            }
        }
        "arithmetic.conversions" => {
            if matches!(name, "trunc_u" | "trunc_s" | "convert_u" | "convert_s" | "itostring_u" | "itostring_s") { vec![w(t)] } else { vec![] }
        }
        "collections.list" => vec![small_type(t, 1).into()],
        "prelude" => match name {
            "MakeTuple" | "UnpackTuple" | "Barrier" => {
                let n = t.below(4);
                let v: Vec<TypeArg> = (0..n).map(|_| small_type(t, 1).into()).collect();
                vec![TypeArg::List(v)]
            }
            "Noop" => vec![small_type(t, 2).into()],
            "load_nat" => vec![t.edge_u64().into()],
            "panic" | "exit" => vec![TypeArg::List(vec![small_type(t, 1).into()]), TypeArg::List(vec![small_type(t, 1).into()])],
            _ => vec![],
        },
        "collections.static_array" => vec![small_type(t, 1).into()],
        _ => {
            let n = t.below(4) as u64;
            match t.below(3) {
                0 => vec![n.into(), small_type(t, 1).into()],
                1 => vec![small_type(t, 1).into()],
                _ => vec![],
            }
        }
    }
}
struct Case {
    op: ExtensionOp,
    sig: Signature,
    ins: Vec<Value>,
}
fn case(c: &mut Ctx) -> Option<Case> {
    let t = &mut c.t;
    // choose an extension by weight, then an operation of it
    let exts: Vec<(&str, u32)> = {
        let mut v: Vec<(&str, u32)> = vec![];
        for o in OPS.iter() {
            if v.last().map(|x| x.0) != Some(&o.ext) {
                v.push((&o.ext, weight(&o.ext)));
            }
        }
        v
    };
    let ws: Vec<u32> = exts.iter().map(|x| x.1).collect();
    let e = exts[t.weighted(&ws)].0;
    let ops: Vec<&OpInfo> = OPS.iter().filter(|o| o.ext == e).collect();
    let o = *t.pick(&ops);
    let a = args(t, &o.ext, &o.name);
    let ext = STD_REG.get(&o.ext)?;
    let op = ext.instantiate_extension_op(&o.name, a).ok()?;
    let sig = OpType::from(op.clone()).dataflow_signature()?.into_owned();
    let mut ins = vec![];
    for ty in sig.input().iter() {
        ins.push(value(t, ty, 0)?);
    }
    Some(Case { op, sig, ins })
}
fn to_v(v: &Value) -> Result<V, Fail> {
    const_to_v(v, &mut |h| interp::Prog::new(h)).or_else(|e| fail("harness", format!("no value for {v:?}: {e:?}")))
}
use hugr::ops::OpTrait;
/// Compares the folded outputs with the specification.
fn judge(k: &Case, outs: &[(usize, V)], all: bool) -> R {
    let name = format!("{}.{}", k.op.def().extension_id(), k.op.def().name());
    let a: Vec<Arg> = k.op.args().iter().map(|x| interp::arg(x, &[])).collect();
    let ins: Vec<V> = k.ins.iter().map(to_v).collect::<Result<_, _>>()?;
    let what = || format!("{name}<{}>({})", k.op.args().iter().map(canon::term).collect::<Vec<_>>().join(","), ins.iter().map(interp::show).collect::<Vec<_>>().join(", "));
    match interp::std_op(k.op.def().extension_id(), k.op.def().name(), &a, &ins) {
        StdRes::Vals(vs) => {
            ensure!(vs.len() == k.sig.output_count(), "harness-arity", "{}: {} values for {:?}", what(), vs.len(), k.sig);
            if all {
                ensure!(outs.len() == vs.len(), format!("{name}:outputs"), "{} gives {} outputs, not {}", what(), outs.len(), vs.len());
            }
            for (i, o) in outs {
                ensure!(*i < vs.len(), format!("{name}:port"), "{} gives output {i}", what());
                if *o != vs[*i] {
                    return fail(format!("{name}:value"), format!("{} output {i}: folded to {}, specified {}", what(), interp::show(o), interp::show(&vs[*i])));
                }
            }
            Ok(())
        }
        StdRes::Open => Ok(()),
        StdRes::Panic(p) => fail(format!("{name}:panics"), format!("{} must not be evaluated ({p}) but gives {outs:?}", what())),
        StdRes::Unknown => fail(format!("harness-unknown:{name}"), format!("no meaning for {}", what())),
    }
}
fn fold(c: &mut Ctx) -> R {
    let Some(k) = case(c) else {
        c.label("not-instantiable");
        return Ok(());
    };
    let name = format!("{}.{}", k.op.def().extension_id(), k.op.def().name());
    c.note(|| format!("{name} {:?}\n{:?}", k.op.args(), k.ins));
    let mut known: Vec<(IncomingPort, Value)> = k.ins.iter().cloned().enumerate().map(|(i, v)| (i.into(), v)).collect();
    let partial = !known.is_empty() && c.t.chance(1, 6);
    if partial {
        let i = c.t.below(known.len());
        known.remove(i);
        c.label("partly-known");
    }
    let r = match no_panic(|| k.op.constant_fold(&known)) {
        Ok(r) => r,
        Err((msg, at)) => return fail(crash_sig(&name, &k, &msg), format!("{name}{:?} on {:?} panics at {at}: {msg}", k.op.args(), known)),
    };
    let Some(outs) = r else {
        c.label("left-alone");
        return Ok(());
    };
    c.label(if name.starts_with("arithmetic.int") { "int" } else if name.starts_with("arithmetic.float") { "float" } else if name.starts_with("arithmetic.conv") { "conversion" } else if name.starts_with("coll") { "list" } else { "other" });
    let mut vs = vec![];
    for (p, v) in &outs {
        let i = hugr::PortIndex::index(*p);
        if let Some(ty) = k.sig.output().get(i) {
            let sig = match name.as_str() {
                "collections.list.length" if i == 0 && v.get_type() == usize_t() && outs.len() == 1 => "known:list-length-port".into(),
                "collections.list.insert" if i == 1 && v.get_type() == insert_folds_to(&k) => "known:list-insert-type".into(),
                _ => format!("{name}:type"),
            };
            ensure!(&v.get_type() == ty, sig, "{name}{:?} on {:?}: output {i} has type {} instead of {}", k.op.args(), known, v.get_type(), ty);
            if let Err(e) = v.validate() {
                return fail(format!("{name}:invalid"), format!("{name} on {known:?}: {v:?}: {e}"));
            }
        }
        vs.push((i, to_v(v)?));
    }
    c.sample(|| format!("{name}{:?} on {:?} = {:?}", k.op.args(), known, vs));
    c.nontrivial(hash_str(&format!("{name}{:?}{:?}", k.op.args(), k.ins)));
    judge(&k, &vs, true)
}
/// The type that list insert folds its second output to.
fn insert_folds_to(k: &Case) -> Type {
    hugr::extension::prelude::either_type(k.sig.input()[2].clone(), hugr::types::TypeRow::new()).into()
}
/// The same operation in a program of constants, through the pass.
fn pass(c: &mut Ctx) -> R {
    let Some(k) = case(c) else { return Ok(()) };
    let name = format!("{}.{}", k.op.def().extension_id(), k.op.def().name());
    c.note(|| format!("{name} {:?}\n{:?}", k.op.args(), k.ins));
    let out = k.sig.output().clone();
    let mut b = DFGBuilder::new(Signature::new(vec![], out.clone())).unwrap();
    let ws: Vec<_> = k.ins.iter().map(|v| b.add_load_value(v.clone())).collect();
    let n = b.add_dataflow_op(k.op.clone(), ws).unwrap();
    let mut h = match b.finish_hugr_with_outputs(n.outputs()) {
        Ok(h) => h,
        Err(_) => { c.label("linear"); return Ok(()) }
    };
    match no_panic(|| hugr::algorithms::const_fold::constant_fold_pass(&mut h)) {
        Ok(()) => {}
        Err((msg, at)) => return fail(crash_sig(&name, &k, &msg), format!("constant folding {name}{:?} on {:?} panics at {at}: {msg}", k.op.args(), k.ins)),
    }
    if let Err(e) = h.validate() {
        let sig = match name.as_str() {
            "collections.list.length" => "known:list-length-port".into(),
            "collections.list.insert" => "known:list-insert-type".into(),
            _ => format!("{name}:pass-invalid"),
        };
        return fail(sig, format!("{e}\n{}", canon::show(&h)));
    }
    let [_, o] = h.get_io(h.entrypoint()).unwrap();
    let mut vs = vec![];
    for i in 0..out.len() {
        let (src, _) = h.single_linked_output(o, i).unwrap();
        if let OpType::LoadConstant(_) = h.get_optype(src) {
            let kn = h.static_source(src).unwrap();
            let v = h.get_optype(kn).as_const().unwrap().value();
            ensure!(v.get_type() == out[i], format!("{name}:pass-type"), "{} for {}", v.get_type(), out[i]);
            vs.push((i, to_v(v)?));
        }
    }
    if vs.is_empty() {
        c.label("left-alone");
        return Ok(());
    }
    c.nontrivial(hash_str(&format!("{name}{:?}{:?}", k.op.args(), k.ins)));
    judge(&k, &vs, false)
}
