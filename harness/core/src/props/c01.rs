//! C01 / C02: envelopes reproduce packages.
use super::pkg::{self, P};
use crate::canon::{self, CmpOpts};
use crate::engine::*;
use hugr::Hugr;
use hugr::HugrView;
use hugr::envelope::{EnvelopeConfig, EnvelopeFormat, ZstdConfig, read_envelope};
use hugr::package::Package;
use std::sync::LazyLock;

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "packages of 0..3 generated modules (functions, nesting, CFGs, loops, calls, constants, all standard and custom types, odd names and metadata, random node order and holes, any entrypoint), stored as JSON under a random configuration and loaded back; non-trivial: the package has at least one module with 8 or more nodes; distinct by canonical text",
        assumptions: &["floats are restricted to those whose shortest decimal text serde_json parses back exactly (the exception is a recorded finding)"],
        subs: vec![
            Sub { name: "roundtrip", quick: 4000, thorough: 120_000, f: roundtrip },
            Sub { name: "schema", quick: 600, thorough: 20_000, f: schema },
        ],
        findings: vec![Finding { id: "json-float", still_present: json_float }],
    }
}
pub fn pkg_text(p: &Package) -> String {
    p.modules.iter().map(canon::graph_text).collect::<Vec<_>>().join("\n---\n")
}
pub fn config(t: &mut Tape, formats: &[EnvelopeFormat]) -> EnvelopeConfig {
    let mut c = EnvelopeConfig::new(*t.pick(formats));
    if t.chance(1, 3) {
        c = c.with_zstd(match t.below(3) {
            0 => ZstdConfig::default_level(),
            1 => ZstdConfig::new(1),
            _ => ZstdConfig::new(1 + t.below(12) as u8),
        });
    }
    c
}
/// Stores by one of the equivalent ways.
pub fn store(c: &mut Ctx, p: &P, cfg: EnvelopeConfig) -> Result<Vec<u8>, Fail> {
    let mut buf = vec![];
    let ascii = cfg.zstd.is_none() && cfg.format.ascii_printable();
    match c.t.below(3) {
        0 if ascii => {
            c.label("store_str");
            let s = guard("store_str", || p.pkg.store_str(cfg))?;
            match s {
                Ok(s) => buf = s.into_bytes(),
                Err(e) => return fail("store", format!("store_str: {e}")),
            }
        }
        1 if p.pkg.modules.len() == 1 && p.embedded == 0 => {
            c.label("hugr.store");
            if let Err(e) = guard("store", || p.pkg.modules[0].store(&mut buf, cfg))? {
                return fail("store", format!("hugr.store: {e}"));
            }
        }
        _ => {
            if let Err(e) = guard("store", || p.pkg.store(&mut buf, cfg))? {
                return fail("store", format!("package.store: {e}"));
            }
        }
    }
    Ok(buf)
}
/// Loads by one of the equivalent ways.
pub fn load(c: &mut Ctx, buf: &[u8], p: &P, cfg: EnvelopeConfig) -> Result<Package, Fail> {
    let ascii = cfg.zstd.is_none() && cfg.format.ascii_printable();
    let err = |e: &dyn std::error::Error| {
        let mut s = e.to_string();
        let mut x = e.source();
        while let Some(y) = x {
            s.push_str(": ");
            s.push_str(&y.to_string());
            x = y.source();
        }
        let class = s.split(['`', '\'', '"', '(', '{']).next().unwrap_or("").trim().to_string();
        Fail { sig: format!("load: {class}"), msg: format!("loading failed: {s}") }
    };
    match c.t.below(4) {
        0 if ascii => {
            c.label("load_str");
            let s = match std::str::from_utf8(buf) {
                Ok(s) => s,
                Err(e) => return fail("utf8", format!("{e}")),
            };
            guard("load_str", || Package::load_str(s, Some(&p.reg)))?.map_err(|e| err(&e))
        }
        1 if p.pkg.modules.len() == 1 => {
            c.label("hugr.load");
            let h = guard("load", || Hugr::load(buf, Some(&p.reg)))?.map_err(|e| err(&e))?;
            let mut q = Package::new([h]);
            q.extensions = p.pkg.extensions.clone();
            Ok(q)
        }
        2 => {
            let (d, q) = guard("load", || read_envelope(std::io::BufReader::with_capacity(7, buf), &p.reg))?.map_err(|e| err(&e))?;
            ensure!(d.n_modules() == p.pkg.modules.len(), "desc", "description counts {} modules", d.n_modules());
            ensure!(d.header().format == cfg.format && d.header().zstd == cfg.zstd.is_some(), "desc", "description header {:?}", d.header());
            ensure!(d.n_packaged_extensions() == p.pkg.extensions.len(), "desc", "description counts {} extensions", d.n_packaged_extensions());
            Ok(q)
        }
        _ => guard("load", || Package::load(buf, Some(&p.reg)))?.map_err(|e| err(&e)),
    }
}
pub fn same_exts(a: &Package, b: &Package) -> R {
    let f = |p: &Package| {
        p.extensions
            .iter()
            .map(|e| (e.name().to_string(), e.version().to_string(), serde_json::to_value(&**e).unwrap()))
            .collect::<Vec<_>>()
    };
    let (x, y) = (f(a), f(b));
    if x != y {
        let w: Vec<_> = x.iter().zip(&y).filter(|(p, q)| p != q).take(1).collect();
        return fail("extensions", format!("packaged extensions differ: {} vs {}: {w:?}", x.len(), y.len()));
    }
    Ok(())
}
fn roundtrip(c: &mut Ctx) -> R {
    let p = pkg::package(&mut c.t, 30, |_| {});
    let cfg = config(&mut c.t, &[EnvelopeFormat::PackageJson]);
    c.note(|| p.pkg.modules.iter().map(canon::show).collect::<Vec<_>>().join("\n"));
    if p.pkg.modules.iter().any(|m| m.num_nodes() >= 8) {
        c.nontrivial(hash_str(&pkg_text(&p.pkg)));
    }
    c.sample(|| format!("{cfg:?}\n{}", p.pkg.modules.first().map(canon::show).unwrap_or_default()));
    let buf = store(c, &p, cfg)?;
    let q = load(c, &buf, &p, cfg)?;
    compare(&p.pkg, &q, &CmpOpts::default())?;
    same_exts(&p.pkg, &q)?;
    Ok(())
}
pub fn compare(a: &Package, b: &Package, o: &CmpOpts) -> R {
    ensure!(a.modules.len() == b.modules.len(), "modules", "{} modules became {}", a.modules.len(), b.modules.len());
    for (i, (x, y)) in a.modules.iter().zip(&b.modules).enumerate() {
        if let Some(d) = canon::diff(x, y, o) {
            return fail("differs", format!("module {i} differs {d}\n--- original\n{}\n--- loaded\n{}", canon::show(x), canon::show(y)));
        }
        if let Err(e) = guard("validate", || y.validate())? {
            return fail("invalid", format!("the loaded module is not valid: {e}\n{}", canon::show(y)));
        }
        let ex = |h: &Hugr| h.extensions().iter().map(|e| format!("{}@{}", e.name(), e.version())).collect::<Vec<_>>();
        ensure!(ex(x) == ex(y), "used", "used extensions {:?} became {:?}", ex(x), ex(y));
    }
    Ok(())
}
static SCHEMAS: LazyLock<Vec<jsonschema::Validator>> = LazyLock::new(|| {
    let mut v = vec![];
    for f in ["hugr_schema_live.json", "hugr_schema_strict_live.json"] {
        let s = std::fs::read_to_string(format!("/repo/specification/schema/{f}")).unwrap();
        let mut s: serde_json::Value = serde_json::from_str(&s).unwrap();
        s.as_object_mut().unwrap().remove("oneOf");
        s["$ref"] = "#/$defs/Package".into();
        v.push(jsonschema::Validator::options().with_draft(jsonschema::Draft::Draft202012).build(&s).expect("schema"));
    }
    v
});
fn schema(c: &mut Ctx) -> R {
    let p = pkg::package(&mut c.t, 14, |p| p.raw_consts = false);
    if p.pkg.modules.iter().any(|m| m.num_nodes() >= 8) {
        c.nontrivial(hash_str(&pkg_text(&p.pkg)));
    }
    let mut buf = vec![];
    if let Err(e) = p.pkg.store(&mut buf, EnvelopeConfig::text()) {
        return fail("store", format!("{e}"));
    }
    let v: serde_json::Value = match serde_json::from_slice(&buf[10..]) {
        Ok(v) => v,
        Err(e) => return fail("notjson", format!("{e}")),
    };
    for s in SCHEMAS.iter() {
        if let Some(e) = s.iter_errors(&v).next() {
            let mut m = format!("{e}");
            m.truncate(2000);
            return fail("schema", format!("schema violation at {}: {m}", e.instance_path));
        }
    }
    Ok(())
}
/// The float constant 0.9667514441286095 comes back from JSON as its neighbour.
fn json_float() -> bool {
    use hugr::std_extensions::arithmetic::float_types::ConstF64;
    let x = 0.9667514441286095f64;
    let mut h = Hugr::new();
    let n = hugr::hugr::hugrmut::HugrMut::add_node_with_parent(
        &mut h,
        hugr::HugrView::module_root(&Hugr::new()),
        hugr::ops::Const::new(ConstF64::new(x).into()),
    );
    let s = h.store_str(EnvelopeConfig::text()).unwrap();
    let g = Hugr::load_str(s, None).unwrap();
    let _ = n;
    !g.nodes().any(|n| {
        g.get_optype(n).as_const().and_then(|c| c.get_custom_value::<ConstF64>()).is_some_and(|v| v.value().to_bits() == x.to_bits())
    })
}
