//! Lowering to LLVM against the interpreter.
use hugr_core as hugr;
use hugr_core::extension::prelude::{ConstUsize, usize_t};
use hugr_core::extension::{Extension, ExtensionId, SignatureFunc, Version};
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::internal::HugrMutInternals;
use hugr_core::ops::{self, OpTrait, OpType, Value};
use hugr_core::std_extensions::arithmetic::float_types::{ConstF64, float64_type};
use hugr_core::std_extensions::arithmetic::int_ops;
use hugr_core::std_extensions::arithmetic::int_types::{self, ConstInt, INT_TYPES};
use hugr_core::std_extensions::arithmetic::conversions;
use hugr_core::std_extensions::collections::{array, borrow_array};
use hugr_core::types::type_param::TypeParam;
use hugr_core::types::{PolyFuncTypeRV, Signature, Term, Type, TypeArg, TypeEnum, TypeRow};
use hugr_core::{Hugr, HugrView, Node, PortIndex, Visibility};
use hugr_llvm::custom::CodegenExtsBuilder;
use hugr_llvm::emit::test::{Emission, PanicTestPreludeCodegen};
use hugr_llvm::emit::{EmitFuncContext, EmitHugr, EmitOpArgs, Namer};
use hugr_llvm::extension::int::IntCodegenExtension;
use hugr_llvm::inkwell::OptimizationLevel;
use hugr_llvm::inkwell::context::Context;
use hugr_llvm::inkwell::passes::{PassManager, PassManagerBuilder};
use hugr_llvm::inkwell::types::BasicType;
use hugr_llvm::inkwell::values::BasicValueEnum;
use hugr_llvm::utils::fat::FatExt;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::{Arc, LazyLock};
use vh::canon;
use vh::ensure;
use vh::engine::*;
use vh::ext::ext_op;
use vh::gen_::Profile;
use vh::interp::{self, Arg, Interp, Prog, Stop, V};
use vh::props::pass;

static PROBE: LazyLock<Arc<Extension>> = LazyLock::new(|| {
    Extension::new_arc(ExtensionId::new_unchecked("vprobe"), Version::new(0, 1, 0), |e, r| {
        let mut add = |n: &str, p: Vec<TypeParam>, i: Vec<Type>| {
            let s: SignatureFunc = PolyFuncTypeRV::new(p, Signature::new(i, TypeRow::new())).into();
            e.add_op(n.into(), String::new(), s, r).unwrap();
        };
        let w = TypeArg::new_var_use(0, int_types::LOG_WIDTH_TYPE_PARAM);
        let it = Type::new_extension(hugr::types::CustomType::new(
            "int",
            [w],
            int_types::EXTENSION_ID,
            hugr::types::TypeBound::Copyable,
            &Arc::downgrade(&int_types::EXTENSION),
        ));
        add("int", vec![int_types::LOG_WIDTH_TYPE_PARAM], vec![it]);
        add("float", vec![], vec![float64_type()]);
        add("usize", vec![], vec![usize_t()]);
        add("tag", vec![TypeParam::max_nat_type()], vec![]);
    })
});

thread_local! {
    static SEEN: RefCell<Vec<u64>> = const { RefCell::new(vec![]) };
    static VAGUE: Cell<bool> = const { Cell::new(false) };
}
const LIMIT: usize = 1 << 20;
fn see(x: u64) {
    SEEN.with(|s| {
        let mut s = s.borrow_mut();
        if s.len() < LIMIT {
            s.push(x)
        }
    });
}
extern "C" fn vh_probe(kind: u64, x: u64) {
    see(norm(kind, x));
}
/// 0..=6: integers of that width; 7: float; 8: usize; 9: tag
fn norm(kind: u64, x: u64) -> u64 {
    match kind {
        0..=5 => x & ((1u64 << (1u64 << kind)) - 1),
        7 if f64::from_bits(x).is_nan() => f64::NAN.to_bits(),
        _ => x,
    }
}
fn hook(e: &str, name: &str, a: &[Arg], ins: &[V]) -> Option<Vec<V>> {
    if e == "arithmetic.conversions"
        && name == "bytecast_float64_to_int64"
        && let V::F(b) = &ins[0]
        && f64::from_bits(*b).is_nan()
    {
        // which NaN arithmetic produces is open
        VAGUE.with(|v| v.set(true));
    }
    if e == "arithmetic.conversions"
        && name.starts_with("trunc_")
        && let (V::F(b), Arg::Nat(w)) = (&ins[0], &a[0])
    {
        // a known finding: bounds leave out values that fit after rounding
        let (x, bits) = (f64::from_bits(*b), 1i32 << *w);
        let (lo, hi) = match name {
            "trunc_u" => (0.0, 2f64.powi(bits)),
            _ => (-(2f64.powi(bits - 1)), 2f64.powi(bits - 1)),
        };
        if x < lo && x.trunc() >= lo || x < hi && x.trunc() >= hi - 1.0 {
            VAGUE.with(|v| v.set(true));
        }
    }
    if e == "arithmetic.float"
        && name == "fne"
        && ins.iter().any(|v| matches!(v, V::F(b) if f64::from_bits(*b).is_nan()))
    {
        // a known finding: NaN is reported as equal to everything
        VAGUE.with(|v| v.set(true));
    }
    if e == "arithmetic.int"
        && matches!(name, "ishl" | "ishr")
        && let (V::I(k), Arg::Nat(w)) = (&ins[1], &a[0])
        && *k >= 1 << *w
    {
        // a known finding: the bits are not shifted out
        VAGUE.with(|v| v.set(true));
    }
    if e != "vprobe" {
        return None;
    }
    let nat = |i: usize| match &a[i] {
        Arg::Nat(n) => *n,
        _ => panic!("probe argument"),
    };
    match (name, ins) {
        ("int", [V::I(x)]) => see(norm(nat(0), *x)),
        ("float", [V::F(x)]) => see(norm(7, *x)),
        ("usize", [V::I(x)]) => see(*x),
        ("tag", []) => see(nat(0)),
        x => panic!("probe {x:?}"),
    }
    Some(vec![])
}

// ---------------------------------------------------------------- building
fn region(h: &mut Hugr, p: Node, ins: Vec<Type>, outs: Vec<Type>) -> (Node, Node) {
    (
        h.add_node_with_parent(p, ops::Input { types: ins.into() }),
        h.add_node_with_parent(p, ops::Output { types: outs.into() }),
    )
}
fn put(h: &mut Hugr, p: Node, op: impl Into<OpType>, ins: &[(Node, usize)]) -> Node {
    let n = h.add_node_with_parent(p, op);
    for (i, (s, q)) in ins.iter().enumerate() {
        h.connect(*s, *q, n, i);
    }
    n
}
fn order(h: &mut Hugr, prev: &mut Node, n: Node) {
    let (a, b) = (h.get_optype(*prev).other_output_port(), h.get_optype(n).other_input_port());
    if let (Some(a), Some(b)) = (a, b) {
        h.connect(*prev, a, n, b);
    }
    *prev = n;
}
fn rows(s: &hugr::types::SumType) -> Vec<TypeRow> {
    s.variants().map(|r| TypeRow::try_from(r.clone()).unwrap()).collect()
}
fn array_ext(e: &str) -> &'static Arc<Extension> {
    if e == "collections.array" { &array::EXTENSION } else { &borrow_array::EXTENSION }
}
fn tag_probe(h: &mut Hugr, p: Node, prev: &mut Node, t: u64) {
    let n = put(h, p, ext_op(&PROBE, "tag", vec![t.into()]), &[]);
    order(h, prev, n);
}
/// Decodes the value on a wire and reports all of it.
fn probe(h: &mut Hugr, p: Node, prev: &mut Node, t: &Type, w: (Node, usize)) {
    match t.as_type_enum() {
        TypeEnum::Sum(s) => {
            let rs = rows(s);
            let n = put(
                h,
                p,
                ops::Conditional { sum_rows: rs.clone(), other_inputs: TypeRow::new(), outputs: TypeRow::new() },
                &[w],
            );
            order(h, prev, n);
            for (i, r) in rs.iter().enumerate() {
                let c = h.add_node_with_parent(n, ops::Case { signature: Signature::new(r.clone(), TypeRow::new()) });
                let (ci, _) = region(h, c, r.iter().cloned().collect(), vec![]);
                let mut prev = ci;
                tag_probe(h, c, &mut prev, 1000 + i as u64);
                for (k, t) in r.iter().enumerate() {
                    probe(h, c, &mut prev, t, (ci, k));
                }
            }
        }
        TypeEnum::Extension(c) => {
            let e: &str = c.extension();
            let name: &str = c.name();
            let op = match (e, name) {
                ("arithmetic.int.types", _) => ext_op(&PROBE, "int", c.args().to_vec()),
                ("arithmetic.float.types", _) => ext_op(&PROBE, "float", vec![]),
                ("prelude", "usize") => ext_op(&PROBE, "usize", vec![]),
                ("collections.array" | "collections.borrow_arr", _) => {
                    let n = put(h, p, ext_op(array_ext(e), "unpack", c.args().to_vec()), &[w]);
                    let (Term::BoundedNat(k), Some(el)) = (&c.args()[0], c.args()[1].as_runtime()) else { return };
                    for i in 0..*k {
                        probe(h, p, prev, &el, (n, i as usize));
                    }
                    return;
                }
                _ => return,
            };
            let n = put(h, p, op, &[w]);
            order(h, prev, n);
        }
        _ => {}
    }
}
fn load(h: &mut Hugr, p: Node, v: Value) -> (Node, usize) {
    let t = v.get_type();
    let k = h.add_node_with_parent(p, ops::Const::new(v));
    let n = h.add_node_with_parent(p, ops::LoadConstant { datatype: t });
    h.connect(k, 0, n, 0);
    (n, 0)
}
/// Makes a given value.
fn make(h: &mut Hugr, p: Node, t: &Type, v: &V) -> Option<(Node, usize)> {
    Some(match (t.as_type_enum(), v) {
        (TypeEnum::Sum(s), V::Sum(tag, vs)) => {
            let rs = rows(s);
            let ins = rs[*tag].iter().zip(vs.iter()).map(|(t, v)| make(h, p, t, v)).collect::<Option<Vec<_>>>()?;
            (put(h, p, ops::Tag::new(*tag, rs), &ins), 0)
        }
        (TypeEnum::Extension(c), v) => {
            let e: &str = c.extension();
            match (e, v) {
                ("arithmetic.int.types", V::I(x)) => {
                    let Term::BoundedNat(w) = &c.args()[0] else { return None };
                    load(h, p, ConstInt::new_u(*w as u8, *x).ok()?.into())
                }
                ("arithmetic.float.types", V::F(b)) if f64::from_bits(*b).is_finite() => load(h, p, ConstF64::new(f64::from_bits(*b)).into()),
                ("arithmetic.float.types", V::F(b)) => {
                    let k = load(h, p, ConstInt::new_u(6, *b).ok()?.into());
                    (put(h, p, ext_op(&conversions::EXTENSION, "bytecast_int64_to_float64", vec![]), &[k]), 0)
                }
                ("prelude", V::I(x)) => load(h, p, ConstUsize::new(*x).into()),
                ("collections.borrow_arr", V::Bor(vs)) => {
                    let el = c.args()[1].as_runtime()?;
                    let ins = vs.iter().map(|v| make(h, p, &el, v.as_ref()?)).collect::<Option<Vec<_>>>()?;
                    (put(h, p, ext_op(array_ext(e), "new_array", c.args().to_vec()), &ins), 0)
                }
                ("collections.array", V::Seq(vs)) => {
                    let el = c.args()[1].as_runtime()?;
                    let ins = vs.iter().map(|v| make(h, p, &el, v)).collect::<Option<Vec<_>>>()?;
                    (put(h, p, ext_op(&array::EXTENSION, "new_array", c.args().to_vec()), &ins), 0)
                }
                _ => return None,
            }
        }
        _ => return None,
    })
}
/// Replaces uninterpreted effects by calls of functions that report their
/// arguments.
fn concrete_effects(h: &mut Hugr) -> bool {
    let ns: Vec<Node> = h.nodes().filter(|n| h.get_optype(*n).as_extension_op().is_some_and(|e| e.def().extension_id() as &str == "vtest")).collect();
    for (i, n) in ns.into_iter().enumerate() {
        let sig = h.get_optype(n).dataflow_signature().unwrap().into_owned();
        let root = h.module_root();
        let f = h.add_node_with_parent(root, ops::FuncDefn::new_vis(format!("eff{i}"), sig.clone(), Visibility::Private));
        let (fi, fo) = region(h, f, sig.input().iter().cloned().collect(), sig.output().iter().cloned().collect());
        let mut prev = fi;
        tag_probe(h, f, &mut prev, 2000 + i as u64);
        for (k, t) in sig.input().iter().enumerate() {
            probe(h, f, &mut prev, t, (fi, k));
        }
        for (k, t) in sig.output().iter().enumerate() {
            let v = interp::value_from_hash(&interp::ty(t, &[]), mix(i as u64, k as u64));
            let Some((a, b)) = v.and_then(|v| make(h, f, t, &v)) else { return false };
            h.connect(a, b, fo, k);
        }
        // an order edge needs a new place, as the static port comes first
        let op = OpType::from(ops::Call::try_new(sig.into(), vec![]).unwrap());
        let old = h.get_optype(n).clone();
        let (oi, oo) = (old.other_input_port().unwrap(), old.other_output_port().unwrap());
        let ins: Vec<_> = h.linked_outputs(n, oi).collect();
        let outs: Vec<_> = h.linked_inputs(n, oo).collect();
        h.disconnect(n, oi);
        h.disconnect(n, oo);
        h.replace_op(n, op.clone());
        h.set_num_ports(n, op.input_count(), op.output_count());
        h.connect(f, 0, n, op.static_input_port().unwrap());
        for (s, q) in ins {
            h.connect(s, q, n, op.other_input_port().unwrap());
        }
        for (s, q) in outs {
            h.connect(n, op.other_output_port().unwrap(), s, q);
        }
    }
    true
}
/// Keeps divisors away from the known findings: checked division by zero, and
/// signed division of the least number by the greatest divisor, trap, and shifts
/// by the width or more do not shift the bits out.
fn tame_division(h: &mut Hugr) {
    let ns: Vec<Node> = h.nodes().collect();
    for n in ns {
        let OpType::ExtensionOp(e) = h.get_optype(n) else { continue };
        let name = e.def().name().to_string();
        if e.def().extension_id() as &str != "arithmetic.int" || !(name.starts_with("idiv") || name.starts_with("imod") || name.starts_with("ish")) {
            continue;
        }
        let args = e.args().to_vec();
        let Term::BoundedNat(w) = args[0] else { continue };
        let w = w as u8;
        let checked = name.contains("checked");
        let p = h.get_parent(n).unwrap();
        let mut change = |op: &str, k: u64| {
            let (s, q) = h.single_linked_output(n, 1).unwrap();
            h.disconnect(n, hugr::IncomingPort::from(1));
            let k = load(h, p, ConstInt::new_u(w, k & interp::mask(w)).unwrap().into());
            let m = put(h, p, ext_op(&int_ops::EXTENSION, op, args.clone()), &[(s, q.index()), k]);
            h.connect(m, 0, n, 1);
        };
        if name.starts_with("ish") {
            change("iand", (1u64 << w) - 1);
        }
        if name.ends_with("_s") && w > 0 {
            change("iand", !2);
        }
        if checked {
            change("ior", 1);
        }
    }
}
/// Integers of less than 8 bits live in bytes whose upper bits arithmetic
/// spoils (a known finding): only operations that keep them clear are used.
fn tame_narrow(h: &mut Hugr) {
    let ns: Vec<Node> = h.nodes().collect();
    for n in ns {
        let OpType::ExtensionOp(e) = h.get_optype(n) else { continue };
        let name = e.def().name().to_string();
        let x: &str = e.def().extension_id();
        let args = e.args().to_vec();
        if !args.iter().any(|a| matches!(a, Term::BoundedNat(w) if *w < 3)) {
            continue;
        }
        let op = match (x, name.as_str()) {
            ("arithmetic.int", "iadd" | "isub" | "imul" | "imax_s" | "imin_s" | "ishl" | "ipow") => ext_op(&int_ops::EXTENSION, "iand", args),
            ("arithmetic.int", "ineg" | "inot" | "iabs") => {
                let Term::BoundedNat(w) = args[0] else { continue };
                ext_op(&hugr::extension::prelude::PRELUDE, "Noop", vec![INT_TYPES[w as usize].clone().into()])
            }
            ("arithmetic.int", s) if s.ends_with("_s") => ext_op(&int_ops::EXTENSION, &s.replace("_s", "_u"), args),
            ("arithmetic.conversions", "convert_s") => ext_op(&conversions::EXTENSION, "convert_u", args),
            ("arithmetic.conversions", "trunc_s") => ext_op(&conversions::EXTENSION, "trunc_u", args),
            _ => continue,
        };
        h.replace_op(n, op);
    }
}
/// Adds `vh_entry`, which makes every call in turn and reports all results.
fn entry(h: &mut Hugr, calls: &[(Node, Vec<V>)]) -> Option<Node> {
    let root = h.module_root();
    let e = h.add_node_with_parent(root, ops::FuncDefn::new_vis("vh_entry", Signature::new_endo(TypeRow::new()), Visibility::Public));
    let (ei, _) = region(h, e, vec![], vec![]);
    let mut prev = ei;
    for (i, (f, args)) in calls.iter().enumerate() {
        let OpType::FuncDefn(d) = h.get_optype(*f) else { return None };
        let sig = d.signature().clone();
        let body = sig.body().clone();
        let ins = body.input().iter().zip(args).map(|(t, v)| make(h, e, t, v)).collect::<Option<Vec<_>>>()?;
        let call = ops::Call::try_new(sig, vec![]).unwrap();
        let n = put(h, e, call.clone(), &ins);
        h.connect(*f, 0, n, OpType::from(call).static_input_port().unwrap());
        tag_probe(h, e, &mut prev, 3000 + i as u64);
        order(h, &mut prev, n);
        for (k, t) in body.output().iter().enumerate() {
            probe(h, e, &mut prev, t, (n, k));
        }
        tag_probe(h, e, &mut prev, 4000 + i as u64);
    }
    Some(e)
}

// ---------------------------------------------------------------- lowering
type Res<T> = anyhow::Result<T>;
fn emit_probe<'c>(ctx: &mut EmitFuncContext<'c, '_, Hugr>, args: EmitOpArgs<'c, '_, ops::ExtensionOp, Hugr>) -> Res<()> {
    let i64t = ctx.iw_context().i64_type();
    let op = args.node().as_ref().clone();
    let nat = match op.args().first() {
        Some(Term::BoundedNat(n)) => *n,
        _ => 0,
    };
    let b = ctx.builder();
    let (kind, v) = match op.def().name().as_str() {
        "int" => (nat, b.build_int_z_extend_or_bit_cast(args.inputs[0].into_int_value(), i64t, "")?),
        "float" => (7, b.build_bit_cast(args.inputs[0], i64t, "")?.into_int_value()),
        "usize" => (8, b.build_int_z_extend_or_bit_cast(args.inputs[0].into_int_value(), i64t, "")?),
        _ => (9, i64t.const_int(nat, false)),
    };
    let ft = ctx.iw_context().void_type().fn_type(&[i64t.into(), i64t.into()], false);
    let ptr = i64t
        .const_int(vh_probe as extern "C" fn(u64, u64) as usize as u64, false)
        .const_to_pointer(ft.ptr_type(Default::default()));
    let f: hugr_llvm::inkwell::values::CallableValue = ptr.try_into().unwrap();
    b.build_call(f, &[i64t.const_int(kind, false).into(), v.into()], "")?;
    args.outputs.finish(b, Vec::<BasicValueEnum>::new())
}
fn exts() -> Rc<hugr_llvm::custom::CodegenExtsMap<'static, Hugr>> {
    let mut b = CodegenExtsBuilder::<Hugr>::default()
        .add_prelude_extensions(PanicTestPreludeCodegen)
        .add_extension(IntCodegenExtension::new(PanicTestPreludeCodegen))
        .add_float_extensions()
        .add_conversion_extensions()
        .add_logic_extensions()
        .add_default_array_extensions()
        .add_default_borrow_array_extensions(PanicTestPreludeCodegen)
        .add_default_static_array_extensions();
    for n in ["int", "float", "usize", "tag"] {
        b = b.extension_op(ExtensionId::new_unchecked("vprobe"), n.into(), emit_probe);
    }
    Rc::new(b.finish())
}
/// What the compiled program reports, and the message if it panicked.
fn execute(h: &Hugr, level: u8) -> Result<(Vec<u64>, String), Fail> {
    let ctx = Context::create();
    let m = ctx.create_module("m");
    let eh = EmitHugr::new(&ctx, m, Rc::new(Namer::new("", false)), exts());
    let root = h.fat_root().unwrap();
    let e = match no_panic(|| Emission::emit_hugr(root, eh)) {
        Err((m, at)) => return fail(format!("lower-crash {}", short(&m)), format!("{m} at {at}\n{}", canon::show(h))),
        Ok(Err(x)) => return fail(format!("lower-error {}", short(&format!("{x}"))), format!("{x:#}\n{}", canon::show(h))),
        Ok(Ok(e)) => e,
    };
    if let Err(x) = e.verify() {
        return fail("llvm-invalid", format!("{x}\n{}", canon::show(h)));
    }
    if std::env::var("VH_IR").is_ok() {
        eprintln!("{}", e.module().print_to_string().to_string());
    }
    if level > 0 {
        e.opt(|| {
            let pm = PassManager::create(());
            let b = PassManagerBuilder::create();
            b.set_optimization_level(match level {
                1 => OptimizationLevel::Less,
                2 => OptimizationLevel::Default,
                _ => OptimizationLevel::Aggressive,
            });
            b.populate_module_pass_manager(&pm);
            pm
        });
    }
    SEEN.with(|s| s.borrow_mut().clear());
    if std::env::var("VH_IR").is_ok() {
        eprintln!("{}", e.module().print_to_string().to_string());
    }
    let has_panic = e.module().get_function("__panic_exit").is_some();
    if !has_panic {
        let c = e.module().get_context();
        let p = c.i8_type().ptr_type(Default::default());
        let t = c.void_type().fn_type(&[p.into(), p.into(), p.into(), c.i64_type().as_basic_type_enum().into()], false);
        e.module().add_function("__panic_exit", t, None);
    }
    let r = e.exec_panicking("vh_entry");
    let seen = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
    match r {
        Ok(m) => Ok((seen, m)),
        Err(x) => fail("execution-error", format!("{x:?}")),
    }
}
fn short(s: &str) -> String {
    s.chars().take(60).map(|c| if c.is_ascii_digit() { '#' } else { c }).collect::<String>().lines().next().unwrap_or("").to_string()
}
fn llvm_profile(t: &mut Tape, size: usize) -> Profile {
    Profile {
        llvm: true,
        opaque: false,
        linear: false,
        poly: false,
        strings: false,
        decls: false,
        indirect: t.flag(),
        fn_consts: false,
        collections: t.flag(),
        bounded: true,
        int_widths: &[3, 4, 5, 6],
        ..pass::profile(t, size)
    }
}
fn run(c: &mut Ctx, p: &Profile) -> R {
    let g = pass::gen_program(c, p);
    let mut h = g.hugr;
    h.set_entrypoint(h.module_root());
    if !concrete_effects(&mut h) {
        return Ok(());
    }
    tame_narrow(&mut h);
    tame_division(&mut h);
    pass::valid(&h, "effects")?;
    let all = pass::mono_funcs(&h);
    let prog = Prog::new(&h);
    let (mut good, mut bad) = (vec![], vec![]);
    for f in all {
        for _ in 0..3 {
            let Some(a) = pass::args(&mut c.t, &h, f) else { break };
            let mut it = Interp::new(5_000);
            it.hook = Some(hook);
            match it.run(&prog, prog.ix(f), a.clone()) {
                Ok(_) => good.push((f, a)),
                Err(Stop::Panic(_)) => bad.push((f, a)),
                Err(Stop::Fuel) => {}
                Err(Stop::Stuck(e)) => return fail("harness-stuck", format!("{e}\n{}", canon::show(&h))),
            }
            if h.get_optype(f).as_func_defn().unwrap().signature().body().input().is_empty() {
                break;
            }
        }
    }
    good.truncate(8);
    // an independent part may recurse forever before the panic
    bad.truncate(if p.recursion { 0 } else { 1 });
    good.extend(bad);
    if entry(&mut h, &good).is_none() {
        return Ok(());
    }
    compare(c, &h, &good, 4)
}
/// Runs `vh_entry` both ways.
fn compare(c: &mut Ctx, h: &Hugr, good: &[(Node, Vec<V>)], least: usize) -> R {
    pass::valid(h, "entry")?;
    let prog = Prog::new(h);
    let mut it = Interp::new(200_000);
    it.hook = Some(hook);
    SEEN.with(|s| s.borrow_mut().clear());
    VAGUE.with(|v| v.set(false));
    let res = it.run(&prog, prog.find_func("vh_entry").unwrap(), vec![]);
    let want = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
    if let Err(Stop::Stuck(e)) = &res {
        return fail("harness-stuck", format!("{e}\n{}", canon::show(h)));
    }
    if VAGUE.with(|v| v.get()) || matches!(res, Err(Stop::Fuel)) {
        return Ok(());
    }
    let level = if c.t.chance(2, 3) { 0 } else { c.t.range(1, 3) as u8 };
    c.note(|| format!("optimisation level {level}; calls {good:?}\n{}", canon::show(h)));
    let (got, msg) = execute(h, level)?;
    let what = || format!("level {level}, calls {good:?}\n{}", canon::show(h));
    match &res {
        Ok(_) => {
            ensure!(msg.is_empty(), "panics", "panicked with {msg:?}; {}", what());
            ensure!(got == want, "wrong-value", "reported {got:?}, expected {want:?}; {}", what());
        }
        Err(e) => {
            ensure!(!msg.is_empty(), "no-panic", "expected {e:?}, finished with {got:?}; {}", what());
            let k = want.len().min(got.len());
            ensure!(got[..k] == want[..k], "wrong-value", "reported {got:?}, expected {want:?} then a panic; {}", what());
        }
    }
    c.label_if(res.is_err(), "panic");
    c.label_if(level > 0, "optimised");
    for n in h.nodes() {
        match h.get_optype(n) {
            OpType::CFG(_) => c.label("cfg"),
            OpType::TailLoop(_) => c.label("loop"),
            OpType::Conditional(_) => c.label("conditional"),
            OpType::CallIndirect(_) => c.label("indirect"),
            OpType::ExtensionOp(e) if e.def().extension_id() as &str == "collections.array" => c.label("array"),
            OpType::ExtensionOp(e) if e.def().extension_id() as &str == "collections.static_array" => c.label("static-array"),
            _ => {}
        }
    }
    if want.len() > least {
        c.nontrivial(canon::graph_hash(h));
        c.sample(|| canon::show(h));
    }
    Ok(())
}
fn programs(c: &mut Ctx) -> R {
    let p = llvm_profile(&mut c.t, 16);
    run(c, &p)
}
fn graphs(c: &mut Ctx) -> R {
    let mut p = llvm_profile(&mut c.t, 12);
    p.cfg_heavy = true;
    run(c, &p)
}
fn narrow(c: &mut Ctx) -> R {
    let mut p = llvm_profile(&mut c.t, 10);
    p.int_widths = &[0, 1, 2, 3, 6];
    run(c, &p)
}
fn arrays(c: &mut Ctx) -> R {
    let mut p = llvm_profile(&mut c.t, 12);
    p.collections = true;
    p.coll_heavy = true;
    p.depth = 1 + c.t.below(2);
    run(c, &p)
}
/// Straight-line sequences of single operations on extreme values.
fn operations(c: &mut Ctx) -> R {
    let mut h = Hugr::new();
    let root = h.module_root();
    let e = h.add_node_with_parent(root, ops::FuncDefn::new_vis("vh_entry", Signature::new_endo(TypeRow::new()), Visibility::Public));
    let (ei, _) = region(&mut h, e, vec![], vec![]);
    let mut prev = ei;
    let mut wires: Vec<(Type, (Node, usize))> = vec![];
    let n = c.t.range(2, 14);
    for _ in 0..n {
        let w = c.t.range(3, 6) as u64;
        let i = &int_ops::EXTENSION;
        let op = match c.t.below(10) {
            0..=4 => {
                let nm = *c.t.pick(&[
                    "iadd", "isub", "imul", "iand", "ior", "ixor", "imax_u", "imax_s", "imin_u", "imin_s", "ishl", "ishr", "ineg", "inot", "iabs",
                    "ieq", "ine", "ilt_u", "ilt_s", "igt_u", "igt_s", "ile_u", "ile_s", "ige_u", "ige_s", "idivmod_u", "idiv_u", "imod_u",
                    "idivmod_s", "idiv_s", "imod_s", "idivmod_checked_u", "idiv_checked_u", "imod_checked_u", "idivmod_checked_s",
                    "idiv_checked_s", "imod_checked_s",
                ]);
                ext_op(i, nm, vec![w.into()])
            }
            5 => {
                let k = c.t.range(w as usize, 6) as u64;
                ext_op(i, *c.t.pick(&["iwiden_u", "iwiden_s"]), vec![w.into(), k.into()])
            }
            6 => {
                let k = c.t.range(3, w as usize) as u64;
                ext_op(i, *c.t.pick(&["inarrow_u", "inarrow_s"]), vec![w.into(), k.into()])
            }
            7 => {
                let nm = *c.t.pick(&["convert_u", "convert_s", "trunc_u", "trunc_s"]);
                ext_op(&conversions::EXTENSION, nm, vec![w.into()])
            }
            8 => {
                let nm = *c.t.pick(&["fadd", "fsub", "fmul", "fdiv", "fneg", "feq", "fne", "flt", "fgt", "fle", "fge", "fpow"]);
                ext_op(&hugr::std_extensions::arithmetic::float_ops::EXTENSION, nm, vec![])
            }
            _ if c.t.chance(1, 3) => ext_op(i, *c.t.pick(&["iu_to_s", "is_to_u"]), vec![w.into()]),
            _ => {
                let nm = *c.t.pick(&["ifrombool", "itobool", "itousize", "ifromusize", "bytecast_int64_to_float64", "bytecast_float64_to_int64"]);
                ext_op(&conversions::EXTENSION, nm, vec![])
            }
        };
        let sig = op.dataflow_signature().unwrap().into_owned();
        let mut ins = vec![];
        for t in sig.input().iter() {
            let have: Vec<(Node, usize)> = wires.iter().filter(|x| x.0 == *t).map(|x| x.1).collect();
            if !have.is_empty() && c.t.flag() {
                ins.push(*c.t.pick(&have));
                continue;
            }
            let v = match interp::ty(t, &[]) {
                interp::Ty::Int(w) => V::I(c.t.edge_u64() & interp::mask(w)),
                interp::Ty::Usize => V::I(c.t.edge_u64()),
                interp::Ty::F64 => {
                    let k = c.t.edge_u64();
                    match c.t.below(4) {
                        0 => interp::f(f64::from_bits(k)),
                        1 => interp::f(k as f64),
                        2 => interp::f(k as i64 as f64 + 0.5),
                        _ => interp::f(*c.t.pick(&[0.0, -0.0, 0.5, -0.5, 1.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 255.0, 256.0, -128.0, -129.0, 9.223372036854775e18, 1.8446744073709552e19])),
                    }
                }
                x => interp::value_from_hash(&x, c.t.u64()).unwrap(),
            };
            let Some(k) = make(&mut h, e, t, &v) else { return Ok(()) };
            ins.push(k);
        }
        let m = put(&mut h, e, op, &ins);
        order(&mut h, &mut prev, m);
        for (k, t) in sig.output().iter().enumerate() {
            probe(&mut h, e, &mut prev, t, (m, k));
            wires.push((t.clone(), (m, k)));
        }
    }
    h.set_entrypoint(root);
    tame_narrow(&mut h);
    tame_division(&mut h);
    compare(c, &h, &[], n)
}
/// A program that reports one value.
fn small(f: impl FnOnce(&mut Hugr, Node) -> ((Node, usize), Type)) -> Hugr {
    let mut h = Hugr::new();
    let root = h.module_root();
    let e = h.add_node_with_parent(root, ops::FuncDefn::new_vis("vh_entry", Signature::new_endo(TypeRow::new()), Visibility::Public));
    let (ei, _) = region(&mut h, e, vec![], vec![]);
    let (w, t) = f(&mut h, e);
    let mut prev = ei;
    probe(&mut h, e, &mut prev, &t, w);
    h.set_entrypoint(root);
    h
}
fn int_op(op: &'static str, w: u8, a: u64, b: u64) -> Hugr {
    small(|h, e| {
        let k = load(h, e, ConstInt::new_u(w, a).unwrap().into());
        let l = load(h, e, ConstInt::new_u(w, b).unwrap().into());
        let op = ext_op(&int_ops::EXTENSION, op, vec![(w as u64).into()]);
        let t = op.dataflow_signature().unwrap().output()[0].clone();
        ((put(h, e, op, &[k, l]), 0), t)
    })
}
/// Programs of the known findings; some kill the process.
fn crash(name: &str) -> i32 {
    let h = match name {
        "checked" => int_op("idiv_checked_u", 5, 1, 0),
        "least" => int_op("idiv_s", 5, 1 << 31, (1 << 32) - 1),
        "shift" => int_op("ishr", 6, 35, 64),
        "narrow" => small(|h, e| {
            let k = load(h, e, ConstInt::new_u(2, 15).unwrap().into());
            let l = load(h, e, ConstInt::new_u(2, 1).unwrap().into());
            let s = put(h, e, ext_op(&int_ops::EXTENSION, "iadd", vec![2u64.into()]), &[k, l]);
            let c = put(h, e, ext_op(&int_ops::EXTENSION, "ilt_u", vec![2u64.into()]), &[(s, 0), l]);
            ((c, 0), hugr::extension::prelude::bool_t())
        }),
        "trunc" => small(|h, e| {
            let k = load(h, e, ConstF64::new(255.0).into());
            let op = ext_op(&conversions::EXTENSION, "trunc_u", vec![3u64.into()]);
            let t = op.dataflow_signature().unwrap().output()[0].clone();
            ((put(h, e, op, &[k]), 0), t)
        }),
        "fne" => small(|h, e| {
            let k = make(h, e, &float64_type(), &V::F(f64::NAN.to_bits())).unwrap();
            let op = ext_op(&hugr::std_extensions::arithmetic::float_ops::EXTENSION, "fne", vec![]);
            let t = op.dataflow_signature().unwrap().output()[0].clone();
            ((put(h, e, op, &[k, k]), 0), t)
        }),
        _ => return 2,
    };
    h.validate().unwrap();
    let prog = Prog::new(&h);
    let mut it = Interp::new(1000);
    it.hook = Some(hook);
    it.run(&prog, prog.find_func("vh_entry").unwrap(), vec![]).unwrap();
    let want = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
    match execute(&h, 0) {
        Ok((got, m)) if got == want && m.is_empty() => 0,
        Ok(x) => {
            eprintln!("{x:?}, expected {want:?}");
            1
        }
        Err(e) => {
            eprintln!("{}", e.msg);
            1
        }
    }
}
fn broken(name: &str) -> bool {
    let r = std::process::Command::new(std::env::current_exe().unwrap()).args(["crash", name]).output().unwrap();
    !r.status.success()
}
fn prop() -> Prop {
    Prop {
        id: "C25",
        rule: "the program reports more than four values besides call markers",
        assumptions: &[
            "the interpreter defines the meaning of programs (it is checked against the constant folders in C14)",
            "only programs that the interpreter finishes are executed; which NaN an operation produces is open",
        ],
        subs: vec![
            Sub { name: "programs", quick: 1600, thorough: 60_000, f: programs },
            Sub { name: "graphs", quick: 1000, thorough: 40_000, f: graphs },
            Sub { name: "arrays", quick: 1000, thorough: 40_000, f: arrays },
            Sub { name: "operations", quick: 1500, thorough: 60_000, f: operations },
            Sub { name: "narrow", quick: 500, thorough: 20_000, f: narrow },
        ],
        findings: vec![
            Finding { id: "checked-division-trap", still_present: || broken("checked") },
            Finding { id: "signed-division-trap", still_present: || broken("least") },
            Finding { id: "trunc-bounds", still_present: || broken("trunc") },
            Finding { id: "fne-nan", still_present: || broken("fne") },
            Finding { id: "oversized-shift", still_present: || broken("shift") },
            Finding { id: "narrow-overflow", still_present: || broken("narrow") },
        ],
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).is_some_and(|x| x == "crash") {
        std::process::exit(crash(&a[2]));
    }
    vh::driver::main_with(|id| (id == "C25").then(prop));
}
