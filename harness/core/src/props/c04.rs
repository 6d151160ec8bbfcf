//! C04: reading damaged or hostile envelopes never crashes.
use super::c02::text_names;
use super::{c03, pkg};
use crate::engine::*;
use bumpalo::Bump;
use hugr::Hugr;
use hugr::envelope::{EnvelopeConfig, EnvelopeFormat, EnvelopeHeader, MAGIC_NUMBERS, ZstdConfig, read_described_envelope, read_envelope};
use hugr::extension::ExtensionRegistry;
use hugr::package::Package;
use hugr_model::v0::ast::{self, Node, Operation, Region, SeqPart, Term};
use hugr_model::v0::{LinkName, Literal, RegionKind, SymbolName, binary, table};
use serde_json::Value;
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "valid packages stored in every format and then damaged: bytes changed, cut, spliced or repeated; JSON values replaced, removed, swapped or perturbed; model syntax trees and tables rewired; non-trivial: the damaged payload differs from the original and was read past the header; distinct by bytes",
        assumptions: &[
            "nesting depth of inputs is bounded by what the mutations reach",
            "definitions of packaged extensions are not damaged (finding packaged-signature)",
        ],
        subs: vec![
            Sub { name: "header", quick: 400, thorough: 4000, f: header },
            Sub { name: "bytes", quick: 3000, thorough: 200_000, f: bytes },
            Sub { name: "json", quick: 5000, thorough: 400_000, f: json },
            Sub { name: "tree", quick: 4000, thorough: 300_000, f: tree },
            Sub { name: "tables", quick: 3000, thorough: 200_000, f: tables },
        ],
        findings: vec![Finding { id: "packaged-signature", still_present: packaged_signature }],
    }
}
/// A packaged extension with a signature that names an undeclared variable.
fn packaged_signature() -> bool {
    let mut t = Tape::random(1);
    for _ in 0..200 {
        let mut p = pkg::package(&mut t, 20, |_| {});
        p.pkg.extensions = Default::default();
        p.pkg.extensions.register(crate::ext::EXT.clone()).unwrap();
        p.pkg.extensions.register(crate::ext::EXT2.clone()).unwrap();
        let s = match p.pkg.store_str(EnvelopeConfig::new(EnvelopeFormat::PackageJson)) {
            Ok(s) => s,
            Err(_) => return false,
        };
        let (a, b) = ("\"input\":[{\"t\":\"R\",\"i\":1,", "\"input\":[{\"t\":\"R\",\"i\":7,");
        if s.contains(a) && no_panic(|| Package::load_str(s.replace(a, b), Some(&hugr::std_extensions::STD_REG)).is_ok()).is_err() {
            return true;
        }
    }
    false
}
const ALL: &[EnvelopeFormat] = &[
    EnvelopeFormat::PackageJson,
    EnvelopeFormat::Model,
    EnvelopeFormat::ModelWithExtensions,
    EnvelopeFormat::ModelText,
    EnvelopeFormat::ModelTextWithExtensions,
];

fn header(c: &mut Ctx) -> R {
    // exact round trip
    for f in ALL {
        for zstd in [false, true] {
            let h = EnvelopeHeader { format: *f, zstd };
            let mut b = vec![];
            h.write(&mut b).map_err(|e| Fail { sig: "write".into(), msg: e.to_string() })?;
            ensure!(b.len() == 10 && b.starts_with(MAGIC_NUMBERS), "shape", "header bytes {b:?}");
            b.push(0xAA);
            let mut r = &b[..];
            match EnvelopeHeader::read(&mut r) {
                Ok(g) => ensure!(g == h, "roundtrip", "{h:?} became {g:?}"),
                Err(e) => return fail("roundtrip", format!("{h:?}: {e}")),
            }
            ensure!(r.len() == 1, "consumed", "{} bytes left", r.len());
            let cfg = h.config();
            ensure!(cfg.format == *f && cfg.zstd.is_some() == zstd, "config", "{cfg:?}");
        }
    }
    // every descriptor and flag byte
    let flags: Vec<u8> = if c.t.chance(1, 8) { (0..=255).collect() } else { (0..8).map(|_| c.t.draw(256) as u8).chain([0x40, 0x41]).collect() };
    for d in 0..=255u8 {
        for fl in &flags {
            let mut b = MAGIC_NUMBERS.to_vec();
            b.push(d);
            b.push(*fl);
            let known = ALL.iter().find(|f| **f as u8 == d);
            let want = match known {
                Some(f) if fl & !1 == 0x40 => Some(EnvelopeHeader { format: *f, zstd: fl & 1 == 1 }),
                _ => None,
            };
            let got = guard("header", || EnvelopeHeader::read(&mut &b[..]))?.ok();
            ensure!(got == want, "descriptor", "descriptor {d} flags {fl:#x}: {got:?}, expected {want:?}");
            if want.is_none() {
                let e = guard("load", || Package::load(&b[..], None))?;
                ensure!(e.is_err(), "accepted", "descriptor {d} flags {fl:#x} accepted");
            }
        }
    }
    // magic and truncation
    let mut b = MAGIC_NUMBERS.to_vec();
    b.push(63);
    b.push(0x40);
    let k = c.t.below(10);
    ensure!(guard("header", || EnvelopeHeader::read(&mut &b[..k]))?.is_err(), "truncated", "{k} bytes accepted");
    let i = c.t.below(8);
    b[i] ^= 1 << c.t.below(8);
    ensure!(guard("header", || EnvelopeHeader::read(&mut &b[..]))?.is_err(), "magic", "magic {b:?} accepted");
    c.nontrivial(mix(i as u64, b[i] as u64));
    Ok(())
}

/// Reads by every entry point; only panics are failures.
fn read_all(c: &mut Ctx, buf: &[u8], reg: &ExtensionRegistry) -> Result<bool, Fail> {
    c.note(|| format!("{} bytes: {}", buf.len(), String::from_utf8_lossy(buf)));
    let mut ok = false;
    match c.t.below(5) {
        0 => ok |= guard("Hugr::load", || Hugr::load(buf, Some(reg)).is_ok())?,
        1 => {
            if let Ok(s) = std::str::from_utf8(buf) {
                ok |= guard("Package::load_str", || Package::load_str(s, Some(reg)).is_ok())?;
                guard("Hugr::load_str", || Hugr::load_str(s, Some(reg)).is_ok())?;
            }
        }
        2 => {
            ok |= guard("read_described_envelope", || match read_described_envelope(buf, reg) {
                Ok((d, _)) => {
                    let _ = (format!("{d:?}"), d.generator(), format!("{d:?}"));
                    true
                }
                Err(e) => {
                    let _ = (e.to_string(), format!("{e:?}"));
                    false
                }
            })?
        }
        3 => ok |= guard("read_envelope", || read_envelope(buf, reg).is_ok())?,
        _ => {
            ok |= guard("Package::load", || match Package::load(buf, Some(reg)) {
                Ok(p) => {
                    let _ = format!("{p:?}");
                    true
                }
                Err(e) => {
                    // the report can be printed
                    let mut s = e.to_string();
                    let mut x: Option<&dyn std::error::Error> = std::error::Error::source(&e);
                    while let Some(y) = x {
                        s += &y.to_string();
                        x = y.source();
                    }
                    false
                }
            })?
        }
    }
    c.label(if ok { "read" } else { "rejected" });
    Ok(ok)
}
fn valid(c: &mut Ctx, format: EnvelopeFormat, size: usize) -> Result<(pkg::P, Vec<u8>), Fail> {
    let model = format != EnvelopeFormat::PackageJson;
    let mut p = pkg::package(&mut c.t, size, |p| {
        if model {
            p.model = true;
            p.fn_consts = false;
            p.aliases = false;
        }
    });
    if model {
        p.pkg.modules.iter_mut().for_each(text_names);
    }
    // damaged extension definitions: finding packaged-signature
    p.pkg.extensions = Default::default();
    p.reg = crate::ext::REG.clone();
    let mut buf = vec![];
    if let Err(e) = guard("store", || p.pkg.store(&mut buf, EnvelopeConfig::new(format)))? {
        return fail("store", format!("{e}"));
    }
    Ok((p, buf))
}
fn wrap(c: &mut Ctx, format: EnvelopeFormat, payload: &[u8]) -> Vec<u8> {
    let zstd = c.t.chance(1, 6);
    let mut b = vec![];
    EnvelopeHeader { format, zstd }.write(&mut b).unwrap();
    if zstd {
        b.extend(zstd::encode_all(payload, 1).unwrap());
    } else {
        b.extend(payload);
    }
    b
}
fn damage(t: &mut Tape, b: &mut Vec<u8>, other: &[u8]) {
    for _ in 0..1 + t.weighted(&[5, 3, 2, 1, 1]) {
        if b.is_empty() {
            return;
        }
        let i = t.below(b.len());
        match t.below(9) {
            0 => b[i] ^= 1 << t.below(8),
            1 => b[i] = t.draw(256) as u8,
            2 => b.truncate(i),
            3 => {
                let j = (i + t.below(12)).min(b.len());
                b.drain(i..j);
            }
            4 => {
                let j = (i + t.below(40)).min(b.len());
                let s = b[i..j].to_vec();
                let k = t.below(b.len() + 1);
                b.splice(k..k, s);
            }
            5 => {
                let x = *t.pick(&[0u8, 0xff, 0x7f, 0x80, b'"', b'\\', b'{', b'(', b')', b'[', b'0', b'9', b'-', b'\n']);
                b[i] = x;
            }
            6 => {
                // numbers: replace a digit run
                if let Some(k) = b[i..].iter().position(|x| x.is_ascii_digit()) {
                    let s = i + k;
                    let e = s + b[s..].iter().take_while(|x| x.is_ascii_digit()).count();
                    let n: &[u8] = *t.pick(&[
                        b"0" as &[u8],
                        b"1",
                        b"255",
                        b"65535",
                        b"65536",
                        b"4294967295",
                        b"4294967296",
                        b"18446744073709551615",
                        b"18446744073709551616",
                        b"99999999999999999999999",
                        b"-1",
                        b"1e999",
                        b"0.5",
                    ]);
                    b.splice(s..e, n.iter().copied());
                }
            }
            7 if !other.is_empty() => {
                let a = t.below(other.len());
                let e = (a + t.below(60)).min(other.len());
                b.splice(i..i, other[a..e].iter().copied());
            }
            _ => {
                let j = (i + 1 + t.below(8)).min(b.len());
                for x in &mut b[i..j] {
                    *x = t.draw(256) as u8;
                }
            }
        }
    }
}
fn bytes(c: &mut Ctx) -> R {
    let format = *c.t.pick(ALL);
    let (p, buf) = valid(c, format, 10)?;
    let (buf, zbuf) = if c.t.chance(1, 5) {
        // damage the compressed bytes
        let mut z = vec![];
        let cfg = EnvelopeConfig::new(format).with_zstd(ZstdConfig::new(1));
        if let Err(e) = p.pkg.store(&mut z, cfg) {
            return fail("store", format!("{e}"));
        }
        (z, true)
    } else {
        (buf, false)
    };
    let mut b = buf.clone();
    let keep = if c.t.chance(9, 10) { 10 } else { 0 };
    let mut tail = b.split_off(keep);
    damage(&mut c.t, &mut tail, &buf[10..]);
    let out = if zbuf || keep == 0 || !c.t.chance(1, 6) {
        b.extend(tail);
        b
    } else {
        wrap(c, format, &tail)
    };
    if out != buf && keep == 10 {
        c.nontrivial(hash_str(&String::from_utf8_lossy(&out)));
    }
    c.sample(|| format!("{format:?} {}", clip(&String::from_utf8_lossy(&out), 400)));
    read_all(c, &out, &p.reg)?;
    Ok(())
}

fn leaf(t: &mut Tape) -> Value {
    match t.below(12) {
        0 => Value::Null,
        1 => Value::Bool(t.flag()),
        2 => Value::from(t.below(6)),
        3 => Value::from(t.edge_u64()),
        4 => Value::from(-(t.below(5) as i64)),
        5 => Value::from(1.5),
        6 => Value::from(""),
        7 => Value::from(*t.pick(&["Type", "C", "A", "Sum", "Unit", "General", "Opaque", "Module", "FuncDefn", "live", "0", "\u{0}", "prelude", "R", "V", "G"])),
        8 => Value::Array(vec![]),
        9 => serde_json::json!({}),
        10 => Value::Array(vec![Value::from(0), Value::from(0)]),
        _ => serde_json::json!({"t": "V", "i": t.below(4), "b": "C"}),
    }
}
fn count(v: &Value) -> usize {
    1 + match v {
        Value::Array(a) => a.iter().map(count).sum(),
        Value::Object(o) => o.values().map(count).sum(),
        _ => 0,
    }
}
fn nth(v: &mut Value, mut n: usize) -> Option<&mut Value> {
    if n == 0 {
        return Some(v);
    }
    n -= 1;
    match v {
        Value::Array(a) => {
            for x in a {
                let k = count(x);
                if n < k {
                    return nth(x, n);
                }
                n -= k;
            }
        }
        Value::Object(o) => {
            for x in o.values_mut() {
                let k = count(x);
                if n < k {
                    return nth(x, n);
                }
                n -= k;
            }
        }
        _ => {}
    }
    None
}
/// Numbers are the interesting places: node indices, ports, tags, bounds.
fn numbers(v: &Value, at: &mut usize, out: &mut Vec<usize>) {
    if v.is_number() {
        out.push(*at);
    }
    *at += 1;
    match v {
        Value::Array(a) => a.iter().for_each(|x| numbers(x, at, out)),
        Value::Object(o) => o.values().for_each(|x| numbers(x, at, out)),
        _ => {}
    }
}
pub fn perturb(t: &mut Tape, v: &mut Value) {
    let n = count(v);
    if n == 1 {
        *v = leaf(t);
        return;
    }
    let i = if t.flag() {
        let mut ns = vec![];
        numbers(v, &mut 0, &mut ns);
        if ns.is_empty() { t.below(n) } else { *t.pick(&ns) }
    } else {
        t.below(n)
    };
    let j = t.below(n);
    let other = nth(v, j).cloned().unwrap_or_default();
    let Some(x) = nth(v, i) else { return };
    match x {
        Value::Number(m) if t.chance(2, 3) => {
            let old = m.as_u64().unwrap_or(0);
            *x = match t.below(4) {
                0 => Value::from(old.wrapping_add(1)),
                1 => Value::from(old.wrapping_sub(1)),
                2 => Value::from(t.below(10)),
                _ => Value::from(t.edge_u64()),
            };
        }
        Value::Array(a) if t.chance(3, 4) => match t.below(5) {
            0 if !a.is_empty() => {
                let k = t.below(a.len());
                a.remove(k);
            }
            1 if !a.is_empty() => {
                let k = t.below(a.len());
                let e = a[k].clone();
                a.insert(k, e);
            }
            2 if a.len() > 1 => {
                let (p, q) = (t.below(a.len()), t.below(a.len()));
                a.swap(p, q);
            }
            3 => a.push(leaf(t)),
            _ => a.push(other),
        },
        Value::Object(o) if t.chance(3, 4) && !o.is_empty() => {
            let keys: Vec<String> = o.keys().cloned().collect();
            let k = t.pick(&keys).clone();
            match t.below(4) {
                0 => {
                    o.remove(&k);
                }
                1 => {
                    let k2 = t.pick(&keys).clone();
                    let (p, q) = (o[&k].clone(), o[&k2].clone());
                    o.insert(k, q);
                    o.insert(k2, p);
                }
                2 => {
                    let l = leaf(t);
                    o.insert(k, l);
                }
                _ => {
                    o.insert(k, other);
                }
            }
        }
        Value::String(s) if t.chance(1, 3) => s.push('x'),
        _ => *x = if t.flag() { leaf(t) } else { other },
    }
}
fn json(c: &mut Ctx) -> R {
    let size = 2 + c.t.below(12);
    let (p, buf) = valid(c, EnvelopeFormat::PackageJson, size)?;
    let mut v: Value = match serde_json::from_slice(&buf[10..]) {
        Ok(v) => v,
        Err(e) => return fail("json", format!("{e}")),
    };
    for _ in 0..1 + c.t.weighted(&[6, 3, 1, 1]) {
        perturb(&mut c.t, &mut v);
    }
    let s = serde_json::to_vec(&v).unwrap();
    if s != buf[10..] {
        c.nontrivial(hash_str(&String::from_utf8_lossy(&s)));
    }
    c.sample(|| clip(&String::from_utf8_lossy(&s), 600).to_string());
    let b = wrap(c, EnvelopeFormat::PackageJson, &s);
    let reg = if c.t.chance(1, 10) { ExtensionRegistry::default() } else { p.reg.clone() };
    read_all(c, &b, &reg)?;
    Ok(())
}

/// Edits of a syntax tree at random places.
struct Edit<'a> {
    t: &'a mut Tape,
    at: usize,
    count: usize,
    terms: Vec<Term>,
    links: Vec<LinkName>,
}
impl Edit<'_> {
    fn hit(&mut self) -> bool {
        self.count += 1;
        self.count - 1 == self.at
    }
    fn new_term(&mut self) -> Term {
        match self.t.below(8) {
            0 => Term::Wildcard,
            1 => Term::Literal(Literal::Nat(self.t.edge_u64())),
            2 => Term::Literal(Literal::Str(self.t.pick(&["", "x", "{}", "null", "0", "{\"c\":\"ConstInt\"}"]).to_string().into())),
            3 => Term::List([].into()),
            4 => Term::Tuple([].into()),
            _ if !self.terms.is_empty() => self.t.pick(&self.terms).clone(),
            _ => Term::Apply(SymbolName::new("core.type"), [].into()),
        }
    }
    fn seq(&mut self, p: &[SeqPart]) -> Arc<[SeqPart]> {
        let mut v: Vec<SeqPart> = p
            .iter()
            .map(|p| match p {
                SeqPart::Item(t) => SeqPart::Item(self.term(t)),
                SeqPart::Splice(t) => SeqPart::Splice(self.term(t)),
            })
            .collect();
        if self.hit() {
            match self.t.below(4) {
                0 if !v.is_empty() => {
                    let i = self.t.below(v.len());
                    v.remove(i);
                }
                1 => v.push(SeqPart::Splice(self.new_term())),
                2 if !v.is_empty() => {
                    let i = self.t.below(v.len());
                    v[i] = match v[i].clone() {
                        SeqPart::Item(t) => SeqPart::Splice(t),
                        SeqPart::Splice(t) => SeqPart::Item(t),
                    };
                }
                _ => v.push(SeqPart::Item(self.new_term())),
            }
        }
        v.into()
    }
    fn term(&mut self, t: &Term) -> Term {
        if self.hit() {
            return self.new_term();
        }
        match t {
            Term::Apply(n, xs) => {
                let mut v: Vec<Term> = xs.iter().map(|x| self.term(x)).collect();
                let mut n = n.clone();
                if self.hit() {
                    match self.t.below(4) {
                        0 if !v.is_empty() => {
                            let i = self.t.below(v.len());
                            v.remove(i);
                        }
                        1 => v.push(self.new_term()),
                        2 if v.len() > 1 => v.reverse(),
                        _ => {
                            if let Term::Apply(m, _) = self.new_term() {
                                n = m;
                            }
                        }
                    }
                }
                Term::Apply(n, v.into())
            }
            Term::List(p) => Term::List(self.seq(p)),
            Term::Tuple(p) => Term::Tuple(self.seq(p)),
            x => x.clone(),
        }
    }
    fn terms(&mut self, xs: &[Term]) -> Box<[Term]> {
        let mut v: Vec<Term> = xs.iter().map(|x| self.term(x)).collect();
        if self.hit() {
            match self.t.below(3) {
                0 if !v.is_empty() => {
                    let i = self.t.below(v.len());
                    v.remove(i);
                }
                1 if !v.is_empty() => {
                    let i = self.t.below(v.len());
                    v.push(v[i].clone());
                }
                _ => v.push(self.new_term()),
            }
        }
        v.into()
    }
    fn link(&mut self, ls: &[LinkName]) -> Box<[LinkName]> {
        let mut v = ls.to_vec();
        if self.hit() {
            let l = if self.links.is_empty() { LinkName::new("0") } else { self.t.pick(&self.links).clone() };
            match self.t.below(4) {
                0 if !v.is_empty() => {
                    let i = self.t.below(v.len());
                    v.remove(i);
                }
                1 if !v.is_empty() => {
                    let i = self.t.below(v.len());
                    v[i] = l;
                }
                2 if v.len() > 1 => v.reverse(),
                _ => v.push(l),
            }
        }
        v.into()
    }
    fn symbol(&mut self, s: &ast::Symbol) -> Box<ast::Symbol> {
        let mut s = s.clone();
        s.signature = self.term(&s.signature);
        s.constraints = self.terms(&s.constraints);
        let mut ps: Vec<ast::Param> = s.params.to_vec();
        for p in &mut ps {
            p.r#type = self.term(&p.r#type);
        }
        if self.hit() {
            match self.t.below(3) {
                0 => {
                    ps.pop();
                }
                1 => s.visibility = None,
                _ => s.name = SymbolName::new(*self.t.pick(&["main", "core.fn", "f", "_1"])),
            }
        }
        s.params = ps.into();
        Box::new(s)
    }
    fn node(&mut self, n: &Node) -> Node {
        let mut n = n.clone();
        n.operation = match &n.operation {
            Operation::DefineFunc(s) => Operation::DefineFunc(self.symbol(s)),
            Operation::DeclareFunc(s) => Operation::DeclareFunc(self.symbol(s)),
            Operation::Custom(t) => Operation::Custom(self.term(t)),
            x => x.clone(),
        };
        if self.hit() {
            n.operation = match self.t.below(7) {
                0 => Operation::Dfg,
                1 => Operation::Cfg,
                2 => Operation::Block,
                3 => Operation::TailLoop,
                4 => Operation::Conditional,
                _ => Operation::Custom(self.new_term()),
            };
        }
        n.inputs = self.link(&n.inputs);
        n.outputs = self.link(&n.outputs);
        n.meta = self.terms(&n.meta);
        n.signature = n.signature.as_ref().map(|s| self.term(s));
        if self.hit() {
            n.signature = if n.signature.is_some() { None } else { Some(self.new_term()) };
        }
        let mut rs: Vec<Region> = n.regions.iter().map(|r| self.region(r)).collect();
        if self.hit() {
            match self.t.below(3) {
                0 => {
                    rs.pop();
                }
                1 => {
                    if let Some(r) = rs.last().cloned() {
                        rs.push(r);
                    }
                }
                _ => rs.push(Region::default()),
            }
        }
        n.regions = rs.into();
        n
    }
    fn region(&mut self, r: &Region) -> Region {
        let mut r = r.clone();
        if self.hit() {
            r.kind = *self.t.pick(&[RegionKind::DataFlow, RegionKind::ControlFlow, RegionKind::Module]);
        }
        r.sources = self.link(&r.sources);
        r.targets = self.link(&r.targets);
        r.meta = self.terms(&r.meta);
        r.signature = r.signature.as_ref().map(|s| self.term(s));
        if self.hit() {
            r.signature = None;
        }
        let mut ns: Vec<Node> = r.children.iter().map(|n| self.node(n)).collect();
        if self.hit() && !ns.is_empty() {
            let i = self.t.below(ns.len());
            match self.t.below(4) {
                0 => {
                    ns.remove(i);
                }
                1 => {
                    let x = ns[i].clone();
                    ns.push(x);
                }
                2 => ns.swap(0, i),
                _ => ns.push(Node::default()),
            }
        }
        r.children = ns.into();
        r
    }
    fn package(&mut self, p: &ast::Package) -> ast::Package {
        ast::Package { modules: p.modules.iter().map(|m| ast::Module { root: self.region(&m.root) }).collect() }
    }
}
fn collect(r: &Region, terms: &mut Vec<Term>, links: &mut Vec<LinkName>) {
    fn term(t: &Term, out: &mut Vec<Term>) {
        out.push(t.clone());
        match t {
            Term::Apply(_, xs) => xs.iter().for_each(|x| term(x, out)),
            Term::List(p) | Term::Tuple(p) => p.iter().for_each(|p| match p {
                SeqPart::Item(t) | SeqPart::Splice(t) => term(t, out),
            }),
            _ => {}
        }
    }
    r.meta.iter().chain(&r.signature).for_each(|t| term(t, terms));
    links.extend(r.sources.iter().cloned());
    for n in &r.children {
        n.meta.iter().chain(&n.signature).for_each(|t| term(t, terms));
        if let Operation::Custom(t) = &n.operation {
            term(t, terms);
        }
        if let Some(s) = n.operation.symbol() {
            term(&s.signature, terms);
        }
        links.extend(n.outputs.iter().cloned());
        n.regions.iter().for_each(|r| collect(r, terms, links));
    }
}
fn model_of(buf: &[u8], bump: &Bump) -> Result<ast::Package, Fail> {
    binary::read_from_slice(&buf[10..], bump)
        .ok()
        .and_then(|t| t.as_ast())
        .ok_or_else(|| Fail { sig: "model".into(), msg: "a stored package does not read back as a model".into() })
}
fn tree(c: &mut Ctx) -> R {
    let size = 2 + c.t.below(10);
    let (p, buf) = valid(c, EnvelopeFormat::Model, size)?;
    let bump = Bump::new();
    let mut a = model_of(&buf, &bump)?;
    if a.modules.is_empty() {
        return Ok(());
    }
    for _ in 0..1 + c.t.weighted(&[6, 3, 1, 1]) {
        let (mut terms, mut links) = (vec![], vec![]);
        a.modules.iter().for_each(|m| collect(&m.root, &mut terms, &mut links));
        let mut e = Edit { t: &mut c.t, at: usize::MAX, count: 0, terms: vec![], links: vec![] };
        e.package(&a);
        let n = e.count;
        let at = c.t.below(n);
        let mut e = Edit { t: &mut c.t, at, count: 0, terms, links };
        a = e.package(&a);
    }
    let s = a.to_string();
    c.nontrivial(hash_str(&s));
    c.sample(|| clip(&s, 600).to_string());
    let fmt = if c.t.flag() { EnvelopeFormat::ModelText } else { EnvelopeFormat::Model };
    let payload = if fmt == EnvelopeFormat::ModelText {
        s.into_bytes()
    } else {
        let b2 = Bump::new();
        let bytes = match guard("resolve", || a.resolve(&b2))? {
            Ok(t) => binary::write_to_vec(&t),
            Err(_) => return Ok(()),
        };
        bytes
    };
    let b = wrap(c, fmt, &payload);
    read_all(c, &b, &p.reg)?;
    // random trees with the names of the core language
    Ok(())
}
fn tables(c: &mut Ctx) -> R {
    let size = 2 + c.t.below(10);
    let random = c.t.chance(1, 6);
    let (p, buf) = valid(c, EnvelopeFormat::Model, size)?;
    let bump = Bump::new();
    let mut tab: table::Package = match binary::read_from_slice(&buf[10..], &bump) {
        Ok(t) => t,
        Err(e) => return fail("model", format!("{e}")),
    };
    let apkg;
    let bump2 = Bump::new();
    if random {
        apkg = c03::package(&mut c.t, true);
        if let Ok(t) = apkg.resolve(&bump2) {
            tab = t;
        }
    }
    let t = &mut c.t;
    for m in &mut tab.modules {
        let (nn, nr, nt) = (m.nodes.len(), m.regions.len(), m.terms.len());
        let id = |t: &mut Tape, n: usize| -> u32 {
            match t.below(12) {
                0 => n as u32,
                1 => u32::MAX - 2,
                2 => u32::MAX - 1,
                _ => t.below(n.max(1)) as u32,
            }
        };
        for _ in 0..t.weighted(&[0, 5, 3, 1, 1]) {
            match t.below(10) {
                0 if nn > 0 => {
                    let i = t.below(nn);
                    let x = table::TermId(id(t, nt));
                    let n = &mut m.nodes[i];
                    n.operation = match t.below(8) {
                        0 => table::Operation::Invalid,
                        1 => table::Operation::Dfg,
                        2 => table::Operation::Cfg,
                        3 => table::Operation::Block,
                        4 => table::Operation::TailLoop,
                        5 => table::Operation::Conditional,
                        6 => table::Operation::Import { name: "core.fn" },
                        _ => table::Operation::Custom(x),
                    };
                }
                1 if nn > 0 => {
                    let i = t.below(nn);
                    m.nodes[i].signature = if t.flag() { None } else { Some(table::TermId(id(t, nt))) };
                }
                2 if nn > 0 => {
                    let i = t.below(nn);
                    let mut v = m.nodes[i].regions.to_vec();
                    v.push(table::RegionId(id(t, nr)));
                    m.nodes[i].regions = bump.alloc_slice_copy(&v);
                }
                3 if nr > 0 => {
                    let i = t.below(nr);
                    let mut v = m.regions[i].children.to_vec();
                    if t.flag() || v.is_empty() {
                        v.push(table::NodeId(id(t, nn)));
                    } else {
                        let k = t.below(v.len());
                        v[k] = table::NodeId(id(t, nn));
                    }
                    m.regions[i].children = bump.alloc_slice_copy(&v);
                }
                4 if nr > 0 => {
                    let i = t.below(nr);
                    m.regions[i].scope = if t.flag() {
                        None
                    } else {
                        Some(table::RegionScope { links: t.edge_u64() as u32, ports: t.edge_u64() as u32 })
                    };
                }
                5 => m.root = table::RegionId(id(t, nr)),
                6 if nr > 0 => {
                    let i = t.below(nr);
                    let v: Vec<table::LinkIndex> = (0..t.below(4)).map(|_| table::LinkIndex(id(t, 6))).collect();
                    if t.flag() {
                        m.regions[i].sources = bump.alloc_slice_copy(&v);
                    } else {
                        m.regions[i].targets = bump.alloc_slice_copy(&v);
                    }
                }
                7 if nn > 0 => {
                    let i = t.below(nn);
                    let v: Vec<table::LinkIndex> = (0..t.below(4)).map(|_| table::LinkIndex(id(t, 6))).collect();
                    if t.flag() {
                        m.nodes[i].inputs = bump.alloc_slice_copy(&v);
                    } else {
                        m.nodes[i].outputs = bump.alloc_slice_copy(&v);
                    }
                }
                8 if nt > 0 => {
                    let i = t.below(nt);
                    let j = id(t, nt);
                    m.terms[i] = match t.below(5) {
                        0 => table::Term::Wildcard,
                        1 => table::Term::Var(table::VarId(table::NodeId(id(t, nn)), t.below(4) as u16)),
                        2 => table::Term::Apply(table::NodeId(id(t, nn)), bump.alloc_slice_copy(&[table::TermId(j)])),
                        3 => table::Term::List(bump.alloc_slice_copy(&[table::SeqPart::Splice(table::TermId(j))])),
                        _ => table::Term::Func(table::RegionId(id(t, nr))),
                    };
                }
                _ if nt > 1 => {
                    let (i, j) = (t.below(nt), t.below(nt));
                    m.terms.swap(i, j);
                }
                _ => {}
            }
        }
    }
    let s = format!("{tab:?}");
    c.nontrivial(hash_str(&s));
    let payload = guard("write", || binary::write_to_vec(&tab))?;
    let b = wrap(c, EnvelopeFormat::Model, &payload);
    c.note(|| s.clone());
    let ok = read_all(c, &b, &p.reg)?;
    if !acyclic(&tab) {
        c.label("cyclic");
        ensure!(!ok, "cyclic", "tables that contain themselves were read: {s}");
    }
    Ok(())
}

/// Whether no term, region or node contains itself.
fn acyclic(p: &table::Package) -> bool {
    p.modules.iter().all(|m| {
        let (nt, nr) = (m.terms.len(), m.regions.len());
        // 0..nt terms, nt..nt+nr regions, then nodes
        let succ = |i: usize| -> Vec<usize> {
            let mut v: Vec<usize> = vec![];
            let term = |t: &table::TermId| if t.index() < nt { t.index() } else { usize::MAX };
            let region = |r: &table::RegionId| if r.index() < nr { nt + r.index() } else { usize::MAX };
            let node = |n: &table::NodeId| nt + nr + n.index();
            if i < nt {
                match &m.terms[i] {
                    table::Term::Apply(_, xs) => v.extend(xs.iter().map(term)),
                    table::Term::List(xs) | table::Term::Tuple(xs) => v.extend(xs.iter().map(|x| match x {
                        table::SeqPart::Item(t) | table::SeqPart::Splice(t) => term(t),
                    })),
                    table::Term::Func(r) => v.push(region(r)),
                    // the type of the variable
                    table::Term::Var(x) => {
                        use table::Operation::*;
                        if let Some(DefineFunc(s) | DeclareFunc(s) | DefineAlias(s, _) | DeclareAlias(s) | DeclareConstructor(s) | DeclareOperation(s)) =
                            m.nodes.get(x.0.index()).map(|n| &n.operation)
                        {
                            v.extend(s.params.get(x.1 as usize).map(|p| term(&p.r#type)));
                        }
                    }
                    _ => {}
                }
            } else if i < nt + nr {
                let r = &m.regions[i - nt];
                v.extend(r.meta.iter().chain(&r.signature).map(term));
                v.extend(r.children.iter().map(node));
            } else {
                let n = &m.nodes[i - nt - nr];
                v.extend(n.meta.iter().chain(&n.signature).map(term));
                v.extend(n.regions.iter().map(region));
                if let table::Operation::Custom(t) = &n.operation {
                    v.push(term(t));
                }
                use table::Operation::*;
                if let DefineFunc(s) | DeclareFunc(s) | DefineAlias(s, _) | DeclareAlias(s) | DeclareConstructor(s) | DeclareOperation(s) = &n.operation {
                    v.push(term(&s.signature));
                    v.extend(s.constraints.iter().map(term));
                    v.extend(s.params.iter().map(|p| term(&p.r#type)));
                }
                if let DefineAlias(_, t) = &n.operation {
                    v.push(term(t));
                }
            }
            v
        };
        let total = nt + nr + m.nodes.len();
        let mut state = vec![0u8; total];
        for s in 0..total {
            if state[s] != 0 {
                continue;
            }
            let mut stack = vec![(s, succ(s))];
            state[s] = 1;
            while let Some((i, todo)) = stack.last_mut() {
                match todo.pop() {
                    None => {
                        state[*i] = 2;
                        stack.pop();
                    }
                    Some(j) if j >= total => {}
                    Some(j) if state[j] == 1 => return false,
                    Some(j) if state[j] == 0 => {
                        state[j] = 1;
                        let v = succ(j);
                        stack.push((j, v));
                    }
                    _ => {}
                }
            }
        }
        true
    })
}
