//! C30: extensions written as YAML declarations and as JSON.
use super::{c22, pkg};
use crate::canon;
use crate::engine::*;
use hugr::extension::declarative::{load_extensions, load_extensions_file};
use hugr::extension::prelude::{qb_t, usize_t};
use hugr::extension::{
    CustomValidator, Extension, ExtensionId, ExtensionRegistry, ExtensionSet, LowerFunc, OpDef, PRELUDE, SignatureError, SignatureFromArgs, SignatureFunc, TypeDefBound, ValidateJustArgs, Version,
};
use hugr::ops::dataflow::DataflowOpTrait;
use hugr::std_extensions::STD_REG;
use hugr::types::type_param::{TypeArg, TypeParam};
use hugr::types::{PolyFuncTypeRV, Signature, Term, Type, TypeBound};
use serde_json::{Value as J, json};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "C30",
        rule: "random declaration documents (as block YAML, flow YAML or JSON text; a third with one fault) compared with what they state; random extensions (polymorphic signatures, computed and validated signatures, bounds, lowerings, misc) written and read back; non-trivial: at least one operation with a port, or an extension with an operation and a type",
        assumptions: &["the text of a declaration is read by serde_yaml"],
        subs: vec![
            Sub { name: "yaml", quick: 8_000, thorough: 400_000, f: yaml },
            Sub { name: "json", quick: 2_500, thorough: 120_000, f: json_back },
            Sub { name: "std", quick: 60, thorough: 600, f: std_back },
        ],
        findings: vec![],
    }
}

// ---- YAML ----
fn scalar(t: &mut Tape, s: &str) -> String {
    let plain = !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '.') && s.chars().next().unwrap().is_ascii_alphabetic() && !["null", "true", "false", "yes", "no", "on", "off", "y", "n", "Y", "N"].contains(&s);
    match t.below(3) {
        0 if !s.chars().any(|c| c == '\n' || c.is_control()) => format!("'{}'", s.replace('\'', "''")),
        1 if plain => s.to_string(),
        _ => serde_json::to_string(s).unwrap(),
    }
}
fn flow(t: &mut Tape, j: &J) -> String {
    match j {
        J::String(s) => scalar(t, s),
        J::Array(a) => format!("[{}]", a.iter().map(|x| flow(t, x)).collect::<Vec<_>>().join(", ")),
        J::Object(o) => format!("{{{}}}", o.iter().map(|(k, x)| format!("{}: {}", scalar(t, k), flow(t, x))).collect::<Vec<_>>().join(", ")),
        x => x.to_string(),
    }
}
/// Block style, each line indented; ends in a newline.
fn block(t: &mut Tape, j: &J, indent: usize, out: &mut String) {
    let pad = " ".repeat(indent);
    match j {
        J::Array(a) if !a.is_empty() => {
            for x in a {
                if t.chance(1, 6) {
                    writeln!(out, "{pad}# a comment: [not, a, list]").unwrap();
                }
                child(t, x, indent, &format!("{pad}-"), out);
            }
        }
        J::Object(o) if !o.is_empty() => {
            for (k, x) in o {
                let k = scalar(t, k);
                child(t, x, indent, &format!("{pad}{k}:"), out);
            }
        }
        x => {
            let s = flow(t, x);
            writeln!(out, "{pad}{s}").unwrap();
        }
    }
}
fn child(t: &mut Tape, x: &J, indent: usize, head: &str, out: &mut String) {
    let nested = matches!(x, J::Array(a) if !a.is_empty()) || matches!(x, J::Object(o) if !o.is_empty());
    if nested && t.chance(3, 4) {
        writeln!(out, "{head}").unwrap();
        let step = 1 + t.below(4);
        block(t, x, indent + step, out);
    } else {
        let s = flow(t, x);
        writeln!(out, "{head} {s}").unwrap();
    }
}

#[derive(Default, Clone, Debug)]
struct Decl {
    name: String,
    types: BTreeMap<String, (usize, String, bool)>,
    ops: BTreeMap<String, (String, Vec<Type2>, Vec<Type2>, BTreeMap<String, J>)>,
}
/// Extension and name; the extension is `None` for the own one.
type Type2 = (Option<String>, String);

fn yaml(c: &mut Ctx) -> R {
    let t = &mut c.t;
    // In scope: imports and the prelude.
    let importable = ["logic", "arithmetic.float.types", "arithmetic.int.types", "collections.list", "vtest"];
    let mut registry = ExtensionRegistry::new(STD_REG.iter().cloned().chain([crate::ext::EXT.clone()]).filter(|e| e.name().to_string() != "prelude"));
    if t.chance(3, 4) {
        registry.register(PRELUDE.clone()).unwrap();
    }
    let mut imports: Vec<String> = importable.iter().filter(|_| t.chance(1, 3)).map(|s| s.to_string()).collect();
    if t.chance(1, 4) && registry.contains("prelude") {
        imports.push("prelude".into());
    }
    t.shuffle(&mut imports);
    let mut pool: Vec<(Type2, String)> = vec![];
    let known = |e: &str, n: &str| ((Some(e.to_string()), n.to_string()), n.to_string());
    pool.push((known("prelude", "usize").0, "USize".into()));
    pool.push((known("prelude", "qubit").0, "Q".into()));
    for n in ["usize", "qubit", "string", "error"] {
        pool.push(known("prelude", n));
    }
    if imports.iter().any(|i| i == "arithmetic.float.types") {
        pool.push(known("arithmetic.float.types", "float64"));
    }
    if imports.iter().any(|i| i == "vtest") {
        pool.push(known("vtest", "T"));
        pool.push(known("vtest", "L"));
    }
    const FAULTS: usize = 15;
    let fault = if t.chance(1, 3) { 1 + t.below(FAULTS) } else { 0 };
    let mut faulted = false;
    let n_ext = if t.chance(1, 8) { 0 } else { t.range(1, 3) };
    let mut decls: Vec<Decl> = vec![];
    let mut docs: Vec<J> = vec![];
    for i in 0..n_ext {
        let mut d = Decl { name: ["Ext", "my.ext", "a_b.c9"][i].to_string(), ..Default::default() };
        let mut obj = serde_json::Map::new();
        let here = fault > 0 && !faulted && (i + 1 == n_ext || t.flag());
        let mut name = d.name.clone();
        if here && fault == 2 {
            name = if i > 0 { decls[0].name.clone() } else { "logic".into() };
            faulted = true;
        }
        obj.insert("name".into(), json!(name));
        let mut types = vec![];
        let mut own: Vec<(Type2, String)> = vec![];
        let k = t.below(4);
        for j in 0..k {
            let n = format!("{}{i}", ["Ty", "My Type", "T_ü", "vtest.T"][(j + i) % 4]);
            let mut o = serde_json::Map::new();
            o.insert("name".into(), json!(n));
            let (mut desc, mut copy, mut ps) = (String::new(), false, 0);
            if t.flag() {
                desc = t.pick(&["", "plain", "with: colon # and hash", "line\nbreak", "\"quoted\" 'both'"]).to_string();
                o.insert("description".into(), json!(desc));
            }
            if t.flag() {
                copy = t.flag();
                o.insert("bound".into(), json!(if copy { "Copyable" } else { "Any" }));
            }
            if t.chance(1, 4) {
                ps = t.below(3);
                o.insert("params".into(), json!(vec!["String"; ps]));
            }
            if here && !faulted && j + 1 == k {
                match fault {
                    3 => {
                        o.insert("bound".into(), json!(*t.pick(&["Linear", "copyable", "Eq", ""])));
                        faulted = true;
                    }
                    4 => {
                        o.remove("name");
                        faulted = true;
                    }
                    5 => {
                        o.insert("params".into(), t.pick(&[json!("String"), json!([["a", "b", "c"]]), json!([3]), json!({"a": "String"})]).clone());
                        faulted = true;
                    }
                    6 => {
                        types.push(J::Object(o.clone()));
                        faulted = true;
                    }
                    _ => {}
                }
            }
            if ps == 0 {
                own.push(((None, n.clone()), n.clone()));
            } else if here && fault == 7 && !faulted {
                // a parametric type used as it is
                own = vec![((None, n.clone()), n.clone())];
                let sig = json!({"inputs": [n.clone()], "outputs": []});
                obj.insert("operations".into(), json!([{ "name": "bad", "signature": sig }]));
                faulted = true;
            }
            d.types.insert(n, (ps, desc, copy));
            types.push(J::Object(o));
        }
        if !types.is_empty() || t.chance(1, 4) {
            obj.insert("types".into(), J::Array(types));
        }
        let mut ops = vec![];
        let k = t.below(4);
        for j in 0..k {
            let n = format!("{}{j}", t.pick(&["Op", "an op", "ö", "logic.Not"]));
            let mut o = serde_json::Map::new();
            o.insert("name".into(), json!(n));
            let mut desc = String::new();
            if t.flag() {
                desc = t.pick(&["some text", "[flow]", "- dash", "100"]).to_string();
                o.insert("description".into(), json!(desc));
            }
            let mut misc = BTreeMap::new();
            if t.chance(1, 3) {
                for (k, v) in [("basis", json!(["Z", "Z"])), ("n", json!(-3)), ("f", json!(0.5)), ("o", json!({"a": [null, true]}))] {
                    if t.flag() {
                        misc.insert(k.to_string(), v);
                    }
                }
                o.insert("misc".into(), json!(misc));
            }
            let mut sides = vec![];
            let mut rows = vec![];
            for _ in 0..2 {
                let (mut row, mut want) = (vec![], vec![]);
                for _ in 0..t.below(4) {
                    let (ty, text) = if !own.is_empty() && t.flag() { t.pick(&own).clone() } else { t.pick(&pool).clone() };
                    let n = t.below(4);
                    let (port, n) = match t.below(3) {
                        0 => (json!(text), 1),
                        1 => (json!([text, n]), n),
                        _ => (json!([*t.pick(&["Control", "", "a b"]), text, n]), n),
                    };
                    row.push(port);
                    want.extend(std::iter::repeat_n(ty, n));
                }
                rows.push(J::Array(row));
                sides.push(want);
            }
            if here && !faulted && j + 1 == k {
                let side = t.below(2);
                let row = rows[side].as_array_mut().unwrap();
                match fault {
                    8 => row.push(json!(*t.pick(&["Nowhere", "", "q", "my.ext.T"]))),
                    9 => row.push(if t.flag() { json!(["Q", "n"]) } else { json!(["c", "Q", "2"]) }),
                    10 => row.push(if t.flag() { json!(["Q", -1]) } else { json!(["Q", 1.5]) }),
                    11 => drop(o.insert("params".into(), json!({"i": "USize"}))),
                    12 => drop(o.insert("lowering".into(), json!("file.bin"))),
                    13 => row.push(json!(if imports.iter().any(|i| i == "collections.list") { "List" } else { "Nowhere" })),
                    _ => {}
                }
                faulted |= (8..=13).contains(&fault);
                if fault == 14 {
                    ops.push(json!({"name": n, "signature": {"inputs": [], "outputs": []}}));
                    faulted = true;
                }
            }
            if !(here && fault == 15 && !faulted) {
                o.insert("signature".into(), json!({"inputs": rows[0], "outputs": rows[1]}));
            } else {
                if t.flag() {
                    o.insert("signature".into(), json!({"inputs": rows[0]}));
                }
                faulted = true;
            }
            let outs = sides.pop().unwrap();
            let ins = sides.pop().unwrap();
            if d.ops.insert(n, (desc, ins, outs, misc)).is_some() {
                // twice the same name
                faulted = true;
            }
            ops.push(J::Object(o));
        }
        if obj.contains_key("operations") {
            // already a faulty one
        } else if !ops.is_empty() || t.chance(1, 4) {
            obj.insert("operations".into(), J::Array(ops));
        }
        // Later declarations see the types of the earlier.
        pool.extend(own.into_iter().map(|((_, n), s)| ((Some(d.name.clone()), n), s)));
        decls.push(d);
        docs.push(J::Object(obj));
    }
    if fault == 1 {
        imports.push("not.there".into());
        faulted = true;
    }
    let mut root = serde_json::Map::new();
    if !imports.is_empty() || t.flag() {
        root.insert("imports".into(), json!(imports));
    }
    root.insert("extensions".into(), J::Array(docs));
    let root = J::Object(root);
    let text = match t.below(4) {
        0 => serde_json::to_string_pretty(&root).unwrap(),
        1 => format!("---\n{}\n", flow(t, &root)),
        _ => {
            let mut s = String::new();
            block(t, &root, 0, &mut s);
            s
        }
    };
    c.note(|| format!("fault {} of kind {fault}\n{text}", faulted));
    c.sample(|| text.clone());
    if decls.iter().any(|d| d.ops.values().any(|o| o.1.len() + o.2.len() > 0)) {
        c.nontrivial(hash_str(&text));
    }
    let old: Vec<Arc<Extension>> = registry.iter().cloned().collect();
    let res = if c.t.chance(1, 6) {
        let path = std::env::temp_dir().join(format!("vh-c30-{}-{:?}.yaml", std::process::id(), std::thread::current().id()));
        std::fs::write(&path, &text).unwrap();
        let r = guard("load_extensions_file", || load_extensions_file(&path, &mut registry));
        let _ = std::fs::remove_file(&path);
        r?
    } else {
        guard("load_extensions", || load_extensions(&text, &mut registry))?
    };
    for e in &old {
        ensure!(registry.get(e.name()).is_some_and(|x| Arc::ptr_eq(x, e)), "registered extension replaced", "{}", e.name());
    }
    if faulted {
        c.label("ill-formed");
        return match res {
            Err(_) => Ok(()),
            Ok(()) => fail(format!("ill-formed declaration accepted: {fault}"), "no error"),
        };
    }
    if let Err(e) = res {
        return fail("declaration rejected", format!("{e}"));
    }
    let mut want: BTreeSet<String> = old.iter().map(|e| e.name().to_string()).chain(decls.iter().map(|d| d.name.clone())).collect();
    want.insert("prelude".into());
    let got: BTreeSet<String> = registry.ids().map(|i| i.to_string()).collect();
    ensure!(want == got, "extensions defined", "{got:?}, expected {want:?}");
    let v = guard("validate", || registry.validate())?;
    ensure!(v.is_ok(), "declared extensions invalid", "{v:?}");
    for d in &decls {
        let e = registry.get(&d.name).unwrap();
        let j = serde_json::to_value(e).unwrap();
        ensure!(e.types().map(|(n, _)| n.to_string()).eq(d.types.keys().cloned()), "types defined", "{}", d.name);
        for (n, (ps, desc, copy)) in &d.types {
            let ty = e.get_type(n).unwrap();
            let want = if *copy { TypeBound::Copyable } else { TypeBound::Linear };
            ensure!(ty.name() == n && ty.extension_id() == e.name(), "type names", "{n}");
            ensure!(ty.params() == vec![TypeParam::StringType; *ps], "type parameters", "{n}: {:?}", ty.params());
            ensure!(ty.bound(&vec!["x".to_string().into(); *ps]) == want, "type bound", "{n}");
            ensure!(j["types"][n]["description"] == json!(desc), "type description", "{n}: {}", j["types"][n]["description"]);
            let inst = guard("instantiate", || ty.instantiate(vec![Term::from("x".to_string()); *ps]))?;
            ensure!(inst.is_ok_and(|i| i.bound() == want), "declared type cannot be used", "{n}");
        }
        ensure!(e.operations().map(|(n, _)| n.to_string()).eq(d.ops.keys().cloned()), "operations defined", "{}", d.name);
        for (n, (desc, ins, outs, misc)) in &d.ops {
            let op = e.get_op(n).unwrap();
            ensure!(op.name() == n && op.extension_id() == e.name() && op.description() == desc, "operation", "{n}");
            ensure!(op.params().is_ok_and(|p| p.is_empty()), "operation parameters", "{n}");
            let got_misc = j["operations"][n].get("misc").cloned().unwrap_or(json!({}));
            ensure!(got_misc == json!(misc), "misc", "{n}: {got_misc}, expected {misc:?}");
            let row = |r: &[Type2]| -> Vec<Type> {
                r.iter()
                    .map(|(x, n)| {
                        let x = registry.get(x.as_ref().unwrap_or(&d.name)).unwrap();
                        Type::new_extension(x.get_type(n).unwrap().instantiate([]).unwrap())
                    })
                    .collect()
            };
            let want = Signature::new(row(ins), row(outs));
            let inst = match guard("instantiate", || e.instantiate_extension_op(n, []))? {
                Ok(i) => i,
                Err(x) => return fail("declared operation cannot be used", format!("{n}: {x}")),
            };
            ensure!(*inst.signature() == want, "signature", "{n}: {}, expected {want}", inst.signature());
            let usize_or_qubit = want.input().iter().filter(|t| **t == usize_t() || **t == qb_t()).count();
            let got = inst.signature().input().iter().filter(|t| **t == usize_t() || **t == qb_t()).count();
            ensure!(usize_or_qubit == got, "prelude types", "{n}");
        }
    }
    Ok(())
}

// ---- JSON ----
struct Any;
impl ValidateJustArgs for Any {
    fn validate(&self, _: &[TypeArg]) -> Result<(), SignatureError> {
        Ok(())
    }
}
struct Computed(PolyFuncTypeRV);
impl SignatureFromArgs for Computed {
    fn compute_signature(&self, _: &[TypeArg]) -> Result<PolyFuncTypeRV, SignatureError> {
        Ok(self.0.clone())
    }
    fn static_params(&self) -> &[TypeParam] {
        const MAX: &[TypeParam] = &[TypeParam::max_nat_type()];
        MAX
    }
}
fn function(d: &OpDef) -> String {
    match d.signature_func() {
        SignatureFunc::PolyFuncType(p) => format!("plain {}", canon::poly(p)),
        SignatureFunc::MissingValidateFunc(p) => format!("validated {}", serde_json::to_value(p).unwrap()),
        SignatureFunc::CustomValidator(_) => format!("validated {}", serde_json::to_value(d).unwrap()["signature"]),
        SignatureFunc::CustomFunc(_) | SignatureFunc::MissingComputeFunc => "computed".into(),
    }
}
/// Everything an extension says, except for the code it may carry.
pub fn describe(e: &Extension) -> String {
    let mut s = format!("{} {}\n", e.name(), e.version());
    for (n, d) in e.types() {
        writeln!(s, "type {n:?} {:?} {} [{}] {}", d.name(), d.extension_id(), d.params().iter().map(canon::term).collect::<Vec<_>>().join(", "), serde_json::to_string(d).unwrap_or_default()).unwrap();
    }
    for (n, d) in e.operations() {
        writeln!(s, "op {n:?} {:?} {} {:?} {}", d.name(), d.extension_id(), d.description(), function(d)).unwrap();
    }
    s
}
fn json_back(c: &mut Ctx) -> R {
    let id = ExtensionId::new(*c.t.pick(&["e", "a.b_c", "vtest.made"])).unwrap();
    let version = Version::parse(c.t.pick(&["0.1.0", "1.2.3-alpha.1+build.5", "0.0.0", "18446744073709551615.0.1"])).unwrap();
    let mut plan_ops = vec![];
    let texts = ["", "plain", "\"q\"\\ \n\t", "ünï\u{10FFFF}", "\u{0}"];
    let (n_types, n_ops) = (c.t.below(4), c.t.below(5));
    let mut types = vec![];
    for i in 0..n_types {
        let ps = c22::params(&mut c.t);
        let of: Vec<usize> = ps.iter().enumerate().filter(|(_, p)| matches!(p, Term::RuntimeType(_))).map(|(i, _)| i).filter(|_| true).collect();
        let bound = match c.t.below(3) {
            0 => TypeDefBound::copyable(),
            1 => TypeDefBound::any(),
            _ => TypeDefBound::from_params(of.into_iter().filter(|_| c.t.flag()).collect()),
        };
        types.push((format!("{}{i}", c.t.pick(&["T", "", "a b.", "ß"])), ps, c.t.pick(&texts).to_string(), bound));
    }
    for i in 0..n_ops {
        let Some((sig, args)) = c22::scheme(&mut c.t) else { continue };
        let kind = c.t.weighted(&[4, 1, 1]);
        let misc: Vec<(String, J)> = (0..c.t.below(3)).map(|k| (format!("m{k}"), [json!(null), json!([1, -2.5, "x"]), json!({"a": {"b": 18446744073709551615u64}})][c.t.below(3)].clone())).collect();
        let mut lower = vec![];
        if c.t.chance(1, 3) {
            for _ in 0..1 + c.t.below(2) {
                let mut p = pkg::any_profile(&mut c.t, 6);
                p.fn_consts = false;
                p.aliases = false;
                p.model = true;
                let h = crate::gen_::program(&mut c.t, &p).hugr;
                let exts: Vec<ExtensionId> = ["logic", "x.y"].iter().filter(|_| c.t.flag()).map(|s| ExtensionId::new(*s).unwrap()).collect();
                lower.push((exts, h));
            }
        }
        plan_ops.push((format!("{}{i}", c.t.pick(&["f", "", "a.b", "é\""])), c.t.pick(&texts).to_string(), sig, args, kind, misc, lower));
    }
    let e = Extension::new_arc(id, version, |e, r| {
        for (n, ps, d, b) in &types {
            e.add_type(n.as_str().into(), ps.clone(), d.clone(), b.clone(), r).unwrap();
        }
        for (n, d, sig, _, kind, misc, lower) in &plan_ops {
            let f: SignatureFunc = match kind {
                0 => sig.clone().into(),
                1 => CustomValidator::new(sig.clone(), Any).into(),
                _ => Computed(sig.clone()).into(),
            };
            let op = e.add_op(n.as_str().into(), d.clone(), f, r).unwrap();
            for (k, v) in misc {
                op.add_misc(k, v.clone());
            }
            for l in lower {
                op.add_lower_func(LowerFunc::FixedHugr { extensions: ExtensionSet::from_iter(l.0.clone()), hugr: Box::new(l.1.clone()) });
            }
        }
    });
    let text = describe(&e);
    c.note(|| text.clone());
    c.sample(|| clip(&text, 600).to_string());
    if !plan_ops.is_empty() && !types.is_empty() {
        c.nontrivial(hash_str(&text));
    }
    let other = ExtensionRegistry::new([c22::types().clone(), PRELUDE.clone()]);
    let reg = ExtensionRegistry::new([e.clone()]);
    let s = match guard("serialise", || serde_json::to_string(&reg))? {
        Ok(s) => s,
        Err(x) => return fail("extension cannot be written", format!("{x}")),
    };
    let back = match guard("load_json", || ExtensionRegistry::load_json(s.as_bytes(), &other))? {
        Ok(b) => b,
        Err(x) => return fail("extension cannot be read back", format!("{x}; {}", clip(&s, 1500))),
    };
    ensure!(back.len() == 1, "number of extensions", "{back}");
    let b = back.get(e.name()).unwrap();
    let after = describe(b);
    ensure!(text == after, "extension changed", "{}", difft(&text, &after));
    let (mut j1, mut j2): (J, J) = (serde_json::to_value(&e).unwrap(), serde_json::to_value(b).unwrap());
    for j in [&mut j1, &mut j2] {
        // Written as envelopes, compared below.
        if let Some(o) = j["operations"].as_object_mut() {
            o.values_mut().for_each(|v| drop(v.as_object_mut().unwrap().remove("lower_funcs")));
        }
    }
    ensure!(j1 == j2, "written differently the second time", "{}", clip(&format!("{j1}\n{j2}"), 1500));
    for (n, _, sig, args, kind, _, lower) in &plan_ops {
        let (x, y) = (e.get_op(n).unwrap(), b.get_op(n).unwrap());
        let want = sig.instantiate(args).ok().and_then(|f| Signature::try_from(f).ok());
        if *kind < 2 {
            let (p, q) = (guard("compute_signature", || x.compute_signature(args))?, guard("compute_signature", || y.compute_signature(args))?);
            ensure!(p.as_ref().ok() == want.as_ref() && p.is_ok() == q.is_ok() && q.as_ref().ok() == want.as_ref(), "signature after loading", "{n}: {p:?} / {q:?}, expected {want:?}");
            if let Some(s) = &want {
                let i = guard("instantiate", || b.instantiate_extension_op(n, args.clone()))?;
                ensure!(i.is_ok_and(|i| *i.signature() == *s), "instance after loading", "{n}");
                c.label("instantiated");
            }
            ensure!(x.params().ok() == y.params().ok(), "params after loading", "{n}");
        } else {
            ensure!(matches!(y.compute_signature(args), Err(SignatureError::MissingComputeFunc)), "computed signature after loading", "{n}");
        }
        for avail in [&[][..], &["logic"], &["x.y"], &["logic", "x.y"]] {
            let set = ExtensionSet::from_iter(avail.iter().map(|s| ExtensionId::new(*s).unwrap()));
            let first = lower.iter().find(|(need, _)| need.iter().all(|i| avail.contains(&i.to_string().as_str()))).map(|(_, h)| h);
            let (p, q) = (guard("try_lower", || x.try_lower(args, &set))?, guard("try_lower", || y.try_lower(args, &set))?);
            ensure!(p.is_some() == first.is_some() && q.is_some() == first.is_some(), "lowering found", "{n} with {avail:?}");
            for (h, which) in [(&p, "before"), (&q, "after")] {
                if let (Some(h), Some(w)) = (h, first) {
                    let (a, b) = (super::c02::model_lines(w).join("\n"), super::c02::model_lines(h).join("\n"));
                    ensure!(a == b, format!("lowering {which} loading"), "{n}: {}", difft(&a, &b));
                    c.label("lowering compared");
                }
            }
        }
    }
    for (n, ps, _, _) in &types {
        let (x, y) = (e.get_type(n).unwrap(), b.get_type(n).unwrap());
        ensure!(x.params() == y.params() && x.params() == ps, "type params after loading", "{n}");
        ensure!(y.extension().upgrade().is_some_and(|r| Arc::ptr_eq(&r, b)), "type refers elsewhere", "{n}");
    }
    Ok(())
}

/// The standard extensions themselves.
fn std_back(c: &mut Ctx) -> R {
    let all: Vec<Arc<Extension>> = STD_REG.iter().chain([&*crate::ext::EXT, &*crate::ext::EXT2, c22::types()]).cloned().collect();
    let some: Vec<Arc<Extension>> = all.iter().filter(|_| c.t.flag()).cloned().collect();
    let (mut here, mut there) = (ExtensionRegistry::default(), ExtensionRegistry::default());
    for e in &all {
        if some.iter().any(|s| s.name() == e.name()) { here.register(e.clone()) } else { there.register(e.clone()) }.unwrap();
    }
    c.nontrivial(hash_str(&here.to_string()));
    c.note(|| here.to_string());
    let s = serde_json::to_string(&here).unwrap();
    let back = match guard("load_json", || ExtensionRegistry::load_json(s.as_bytes(), &there))? {
        Ok(b) => b,
        Err(x) => return fail("standard extensions do not load", format!("{x}")),
    };
    ensure!(here.ids().eq(back.ids()), "extensions read", "{back}");
    for (a, b) in here.iter().zip(back.iter()) {
        let (p, q) = (describe(a), describe(b));
        ensure!(p == q, "standard extension changed", "{}", difft(&p, &q));
        ensure!(serde_json::to_value(a).unwrap() == serde_json::to_value(b).unwrap(), "standard extension written differently", "{}", a.name());
    }
    ensure!(back.validate().is_ok(), "standard extensions invalid", "");
    Ok(())
}
fn difft(a: &str, b: &str) -> String {
    a.lines().zip(b.lines()).find(|(x, y)| x != y).map_or(String::new(), |(x, y)| clip(&format!("- {x}\n+ {y}"), 1500).to_string())
}
