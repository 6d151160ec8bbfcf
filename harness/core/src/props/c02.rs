//! C02: model-format envelopes reproduce packages.
use super::c01::{config as cfgen, load, pkg_text, same_exts, store};
use super::pkg;
use crate::canon::{self, G};
use crate::engine::*;
use hugr::ops::OpType;
use hugr::package::Package;
use hugr_core::hugr::internal::HugrMutInternals;
use hugr::{Hugr, HugrView};
use hugr::envelope::EnvelopeFormat;

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        rule: "generated packages of up to three modules (programs with loops, branches, control-flow graphs, polymorphic functions, static edges, order edges, non-local edges, metadata) in the representable fragment, stored in one of the four model formats with or without compression and embedded extensions; non-trivial: some module has at least 8 nodes; distinct by package",
        assumptions: &[
            "representable fragment: no function constants or aliases, no bounded naturals or copyable bounds on list elements in type parameters, public names within the text grammar for text formats (finding text-symbol-name), no metadata on input, output, exit and constant nodes",
        ],
        subs: vec![Sub { name: "roundtrip", quick: 4000, thorough: 120_000, f: roundtrip }],
        findings: vec![
            Finding { id: "text-symbol-name", still_present: symbol_name },
            Finding { id: "model-fn-root", still_present: fn_root },
        ],
    }
}
/// A public function whose name is not a dotted identifier does not read back from text.
fn symbol_name() -> bool {
    use hugr::builder::{DataflowSubContainer, HugrBuilder, ModuleBuilder};
    let mut m = ModuleBuilder::new();
    let f = m.define_function_vis("my function!", hugr::types::Signature::new_endo(vec![]), hugr_core::Visibility::Public).unwrap();
    f.finish_with_outputs([]).unwrap();
    let p = Package::new([m.finish_hugr().unwrap()]);
    let mut b = vec![];
    let cfg = hugr::envelope::EnvelopeConfig::new(EnvelopeFormat::ModelText);
    p.store(&mut b, cfg).is_err() || Package::load(&b[..], None).is_err()
}
/// Storing a function constant whose root is a function definition.
fn fn_root() -> bool {
    use hugr::builder::{Container, Dataflow, DataflowHugr, DataflowSubContainer, FunctionBuilder, HugrBuilder, ModuleBuilder};
    let inner = FunctionBuilder::new("f", hugr::types::Signature::new_endo(vec![])).unwrap().finish_hugr_with_outputs([]).unwrap();
    let v = hugr::ops::Value::function(inner).unwrap();
    let mut m = ModuleBuilder::new();
    let ty = v.get_type();
    let mut f = m.define_function("g", hugr::types::Signature::new(vec![], vec![ty])).unwrap();
    let k = f.add_constant(v);
    let w = f.load_const(&k);
    f.finish_with_outputs([w]).unwrap();
    let p = Package::new([m.finish_hugr().unwrap()]);
    no_panic(|| p.store(vec![], hugr::envelope::EnvelopeConfig::new(EnvelopeFormat::Model))).is_err()
}
const FORMATS: &[EnvelopeFormat] =
    &[EnvelopeFormat::Model, EnvelopeFormat::ModelWithExtensions, EnvelopeFormat::ModelText, EnvelopeFormat::ModelTextWithExtensions];
fn roundtrip(c: &mut Ctx) -> R {
    let mut p = pkg::package(&mut c.t, 30, |p| {p.aliases = false; p.model = true; p.fn_consts = false; });
    let cfg = cfgen(&mut c.t, FORMATS);
    if matches!(cfg.format, EnvelopeFormat::Model | EnvelopeFormat::ModelText) {
        // nothing is embedded
        p.pkg.extensions = Default::default();
        p.embedded = 0;
        p.reg = crate::ext::REG.clone();
    }
    if matches!(cfg.format, EnvelopeFormat::ModelText | EnvelopeFormat::ModelTextWithExtensions) {
        p.pkg.modules.iter_mut().for_each(text_names);
    }
    c.note(|| p.pkg.modules.iter().map(canon::show).collect::<Vec<_>>().join("\n"));
    if p.pkg.modules.iter().any(|m| m.num_nodes() >= 8) {
        c.nontrivial(hash_str(&pkg_text(&p.pkg)));
    }
    c.sample(|| format!("{cfg:?}\n{}", p.pkg.modules.first().map(canon::show).unwrap_or_default()));
    let buf = store(c, &p, cfg)?;
    c.note(|| String::from_utf8_lossy(&buf).into_owned());
    let q = load(c, &buf, &p, cfg)?;
    compare(&p.pkg, &q)?;
    same_exts(&p.pkg, &q)?;
    Ok(())
}

/// The text grammar has only dotted identifiers for the symbols of public
/// functions (a recorded finding); rename the others.
pub fn text_names(h: &mut Hugr) {
    let kids: Vec<_> = h.children(h.module_root()).collect();
    let mut n = 0;
    for k in kids {
        let (name, public) = match h.get_optype(k) {
            OpType::FuncDefn(f) => (f.func_name().clone(), *f.visibility() == hugr_core::Visibility::Public),
            OpType::FuncDecl(f) => (f.func_name().clone(), *f.visibility() == hugr_core::Visibility::Public),
            _ => continue,
        };
        let ident = |s: &str| {
            let mut cs = s.chars();
            cs.next().is_some_and(|c| c.is_ascii_alphabetic() || c == '_' || c == '-')
                && cs.all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-')
        };
        const RESERVED: &[&str] = &[
            "mod", "hugr", "bytes", "tuple", "list", "meta", "signature", "public", "private", "dfg", "cfg", "block",
            "define-func", "declare-func", "declare-operation", "declare-ctr", "declare-alias", "tail-loop", "cond", "import",
        ];
        if public && !(name.split('.').all(ident) && !RESERVED.contains(&name.as_str())) {
            n += 1;
            let new = format!("renamed.f-{n}_");
            match h.optype_mut(k) {
                OpType::FuncDefn(f) => *f.func_name_mut() = new,
                OpType::FuncDecl(f) => *f.func_name_mut() = new,
                _ => unreachable!(),
            }
        }
    }
}
/// The graph with constants written into the loads that use them (the model
/// has no constant nodes), in preorder.
pub fn model_lines(h: &Hugr) -> Vec<String> {
    let g = G::of(h);
    let keep: Vec<usize> = (0..g.nodes.len()).filter(|i| !matches!(g.ops[*i], OpType::Const(_))).collect();
    let mut num = vec![usize::MAX; g.nodes.len()];
    for (k, i) in keep.iter().enumerate() {
        num[*i] = k;
    }
    let mut out = vec![];
    for i in &keep {
        let n = &g.nodes[*i];
        let mut s = format!("parent={:?} op={}", n.parent.map(|p| num[p]), canon::op(&g.ops[*i], false));
        if matches!(g.ops[*i], OpType::LoadConstant(_)) {
            for l in &n.ins[0] {
                if let OpType::Const(c) = &g.ops[l.0] {
                    s += &format!(" const={}", canon::value(&c.value));
                }
            }
        }
        let bare = matches!(g.ops[*i], OpType::Input(_) | OpType::Output(_) | OpType::ExitBlock(_) | OpType::Const(_));
        if !g.meta[*i].is_empty() && !bare {
            s += &format!(" meta={:?}", g.meta[*i]);
        }
        for (p, ls) in n.outs.iter().enumerate() {
            let ls: Vec<(usize, usize)> = ls.iter().map(|(m, q)| (num[*m], *q)).collect();
            if !ls.is_empty() {
                s += &format!(" {p}->{ls:?}");
            }
        }
        if h.entrypoint() == n.node {
            s += " ENTRY";
        }
        out.push(s);
    }
    out
}
pub fn compare(a: &Package, b: &Package) -> R {
    ensure!(a.modules.len() == b.modules.len(), "modules", "{} modules became {}", a.modules.len(), b.modules.len());
    for (i, (x, y)) in a.modules.iter().zip(&b.modules).enumerate() {
        let (p, q) = (model_lines(x), model_lines(y));
        for k in 0..p.len().max(q.len()) {
            let (u, v) = (p.get(k).map(|s| s.as_str()).unwrap_or("(none)"), q.get(k).map(|s| s.as_str()).unwrap_or("(none)"));
            if u != v {
                return fail("differs", format!("module {i} differs at {k}:\n  left: {u}\n  right: {v}\n--- original\n{}\n--- loaded\n{}", canon::show(x), canon::show(y)));
            }
        }
        if let Err(e) = guard("validate", || y.validate())? {
            return fail("invalid", format!("the loaded module is not valid: {e}\n{}", canon::show(y)));
        }
        let ex = |h: &Hugr| h.extensions().iter().map(|e| format!("{}@{}", e.name(), e.version())).collect::<Vec<_>>();
        ensure!(ex(x) == ex(y), "used", "used extensions {:?} became {:?}", ex(x), ex(y));
    }
    Ok(())
}
