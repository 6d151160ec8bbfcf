//! C03: the model text and binary codecs are inverses.
use crate::engine::*;
use bumpalo::Bump;
use hugr_model::v0::ast::{Module, Node, Operation, Package, Param, Region, SeqPart, Symbol, Term};
use hugr_model::v0::{LinkName, Literal, RegionKind, SymbolName, VarName, Visibility, binary, table};
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        rule: "syntax trees drawn from the whole grammar (every node, region, term, literal and visibility kind; odd strings, bytes, numbers and names; nesting, splices, shadowed symbols, shared links); non-trivial: the printed text has 200 or more characters; distinct by text",
        assumptions: &[
            "symbol names follow the text grammar (dotted identifiers, not reserved, not the wildcard); floats are finite",
        ],
        subs: vec![
            Sub { name: "text", quick: 5000, thorough: 300_000, f: text },
            Sub { name: "parts", quick: 8000, thorough: 400_000, f: parts },
            Sub { name: "tables", quick: 4000, thorough: 200_000, f: tables },
        ],
        findings: vec![Finding { id: "text-nonfinite", still_present: nonfinite }],
    }
}
/// Non-finite floats have no text form that reads back as a float.
fn nonfinite() -> bool {
    [f64::NAN, f64::INFINITY, f64::NEG_INFINITY].into_iter().any(|f| {
        let t = Term::Literal(Literal::Float(f.into()));
        no_panic(|| Term::from_str(&t.to_string()).ok() != Some(t.clone())).unwrap_or(true)
    })
}

const RESERVED: &[&str] = &[
    "mod", "hugr", "bytes", "tuple", "list", "meta", "signature", "public", "private", "dfg", "cfg", "block", "define-func",
    "declare-func", "declare-operation", "declare-ctr", "declare-alias", "tail-loop", "cond", "import",
];
const KEYWORDS: &[&str] = &["fn", "param", "where", "define-alias"];

fn ident(t: &mut Tape) -> String {
    const INIT: &[u8] = b"abcxyzABZ_-";
    const REST: &[u8] = b"abxyz019AZ_-";
    let mut s = String::new();
    if t.chance(1, 4) {
        let words = if t.chance(1, 4) { KEYWORDS } else { RESERVED };
        s += *t.pick(words);
        if t.flag() {
            s.push(*t.pick(REST) as char);
        }
    } else {
        s.push(*t.pick(INIT) as char);
    }
    for _ in 0..t.below(3) {
        s.push(*t.pick(REST) as char);
    }
    s
}
pub fn symbol_name(t: &mut Tape) -> SymbolName {
    let n = 1 + t.weighted(&[4, 2, 1]);
    let s = (0..n).map(|_| ident(t)).collect::<Vec<_>>().join(".");
    if s == "_" || RESERVED.contains(&s.as_str()) || KEYWORDS.contains(&s.as_str()) {
        return SymbolName::new("a");
    }
    SymbolName::new(s)
}
fn link(t: &mut Tape) -> LinkName {
    const C: &[u8] = b"ab019Z_-";
    if t.chance(2, 3) {
        return LinkName::new(t.below(6).to_string());
    }
    let n = t.below(4);
    LinkName::new((0..n).map(|_| *t.pick(C) as char).collect::<String>())
}
pub fn string(t: &mut Tape) -> String {
    const C: &[char] = &[
        'a', '"', '\\', '\n', '\r', '\t', ';', '(', ')', '[', ']', ' ', '\0', '\u{7f}', 'é', '\u{2028}', '𝄞', '?', '%', '{', 'u', 'n', '\u{feff}',
        '\u{b}',
    ];
    let n = t.weighted(&[2, 3, 2, 2]) * t.range(1, 4);
    (0..n)
        .map(|_| if t.chance(1, 12) { char::from_u32(t.below(0x11_0000) as u32).unwrap_or('x') } else { *t.pick(C) })
        .collect()
}
pub fn float(t: &mut Tape) -> f64 {
    let f = match t.below(6) {
        0 => 0.0,
        1 => -0.0,
        2 => t.below(1000) as f64 / 8.0,
        3 => 10f64.powi(t.range(0, 600) as i32 - 300) * (1 + t.below(9)) as f64,
        4 => *t.pick(&[f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e16, 1e15, 1e-7, 123456789012345680.0, f64::EPSILON]),
        _ => f64::from_bits(t.u64()),
    };
    if !f.is_finite() {
        return 1.5;
    }
    if t.flag() { -f } else { f }
}
fn literal(t: &mut Tape) -> Literal {
    match t.below(4) {
        0 => Literal::Str(string(t).into()),
        1 => Literal::Nat(t.edge_u64()),
        2 => {
            let n = t.below(7);
            Literal::Bytes((0..n).map(|_| t.draw(256) as u8).collect::<Vec<_>>().into())
        }
        _ => Literal::Float(float(t).into()),
    }
}

/// What is in scope.
struct G<'a> {
    t: &'a mut Tape,
    vars: Vec<VarName>,
    names: Vec<SymbolName>,
    budget: usize,
    scoped: bool,
}
impl G<'_> {
    fn seq(&mut self, d: usize) -> Arc<[SeqPart]> {
        let n = self.t.below(4);
        (0..n)
            .map(|_| {
                let x = self.term(d - 1);
                if self.t.chance(1, 3) { SeqPart::Splice(x) } else { SeqPart::Item(x) }
            })
            .collect()
    }
    fn terms(&mut self, n: usize, d: usize) -> Vec<Term> {
        (0..n).map(|_| self.term(d)).collect()
    }
    fn some_terms(&mut self, n: usize, d: usize) -> Vec<Term> {
        let n = self.t.below(n);
        self.terms(n, d)
    }
    fn name(&mut self) -> SymbolName {
        if !self.names.is_empty() && self.t.chance(3, 4) { self.t.pick(&self.names).clone() } else { symbol_name(self.t) }
    }
    fn term(&mut self, d: usize) -> Term {
        let k = if d == 0 { self.t.below(4) } else { self.t.weighted(&[1, 1, 2, 2, 3, 2, 2, 1]) };
        match k {
            0 => Term::Wildcard,
            1 => match self.vars.len() {
                0 if self.scoped => Term::Wildcard,
                0 => Term::Var(self.var()),
                _ => Term::Var(self.t.pick(&self.vars).clone()),
            },
            2 => Term::Literal(literal(self.t)),
            3 => Term::Apply(self.name(), [].into()),
            4 => {
                let n = self.name();
                Term::Apply(n, self.some_terms(4, d - 1).into())
            }
            5 => Term::List(self.seq(d)),
            6 => Term::Tuple(self.seq(d)),
            _ => {
                if self.budget == 0 {
                    return Term::Wildcard;
                }
                Term::Func(Arc::new(self.region(d - 1)))
            }
        }
    }
    fn var(&mut self) -> VarName {
        const REST: &[u8] = b"abxyz019AZ_-";
        let n = 1 + self.t.below(3);
        VarName::new((0..n).map(|_| *self.t.pick(REST) as char).collect::<String>())
    }
    fn links(&mut self) -> Vec<LinkName> {
        let n = self.t.below(4);
        (0..n).map(|_| link(self.t)).collect()
    }
    fn symbol(&mut self, name: SymbolName) -> Symbol {
        let visibility = match self.t.below(3) {
            0 => None,
            1 => Some(Visibility::Public),
            _ => Some(Visibility::Private),
        };
        let mut params = vec![];
        for _ in 0..self.t.weighted(&[3, 2, 1, 1]) {
            let v = self.var();
            if self.vars.contains(&v) {
                continue;
            }
            let ty = self.term(2);
            self.vars.push(v.clone());
            params.push(Param { name: v, r#type: ty });
        }
        let constraints = self.some_terms(3, 2);
        let signature = self.term(3);
        Symbol { visibility, name, params: params.into(), constraints: constraints.into(), signature }
    }
    fn region(&mut self, d: usize) -> Region {
        let kind = *self.t.pick(&[RegionKind::DataFlow, RegionKind::ControlFlow, RegionKind::Module]);
        let sources = self.links();
        let targets = self.links();
        let mark = self.names.len();
        let meta = self.some_terms(2, 1);
        let signature = if self.t.flag() { Some(self.term(2)) } else { None };
        let children = self.nodes(d);
        self.names.truncate(mark);
        Region { kind, sources: sources.into(), targets: targets.into(), children: children.into(), meta: meta.into(), signature }
    }
    /// Children, whose symbols are distinct and in scope for each other.
    fn nodes(&mut self, d: usize) -> Vec<Node> {
        let n = if d == 0 { self.t.below(2) } else { self.t.below(5) };
        let mut own: Vec<SymbolName> = vec![];
        let kinds: Vec<usize> = (0..n).map(|_| self.t.below(13)).collect();
        for k in &kinds {
            if *k >= 7 {
                let mut s = symbol_name(self.t);
                // shadow a name of an outer region now and then
                if self.t.chance(1, 4) && !self.names.is_empty() {
                    s = self.t.pick(&self.names).clone();
                }
                while own.contains(&s) {
                    s = SymbolName::new(format!("{}x", s.as_ref()));
                }
                own.push(s);
            }
        }
        let mut it = own.clone().into_iter();
        self.names.extend(own);
        let mut out = vec![];
        for k in kinds {
            if self.budget == 0 {
                if k < 7 {
                    continue;
                }
            } else {
                self.budget -= 1;
            }
            let mut node = Node::default();
            let mark = self.vars.len();
            let saved = if k >= 7 && k != 12 { Some(std::mem::take(&mut self.vars)) } else { None };
            match k {
                0 => node.operation = Operation::Dfg,
                1 => node.operation = Operation::Cfg,
                2 => node.operation = Operation::Block,
                3 => node.operation = Operation::TailLoop,
                4 => node.operation = Operation::Conditional,
                5 | 6 => node.operation = Operation::Custom(self.term(2)),
                7 | 8 => node.operation = Operation::DefineFunc(Box::new(self.sym(&mut it))),
                9 => node.operation = Operation::DeclareFunc(Box::new(self.sym(&mut it))),
                10 => {
                    let s = self.sym(&mut it);
                    let v = self.term(2);
                    node.operation =
                        if self.t.flag() { Operation::DefineAlias(Box::new(s), v) } else { Operation::DeclareAlias(Box::new(s)) }
                }
                11 => {
                    let s = Box::new(self.sym(&mut it));
                    node.operation = if self.t.flag() { Operation::DeclareConstructor(s) } else { Operation::DeclareOperation(s) }
                }
                _ => node.operation = Operation::Import(it.next().unwrap()),
            }
            if k < 7 {
                node.inputs = self.links().into();
                node.outputs = self.links().into();
                if self.t.flag() {
                    node.signature = Some(self.term(2));
                }
            }
            node.meta = self.some_terms(3, 2).into();
            if (k < 9) && d > 0 {
                let n = self.t.below(3);
                node.regions = (0..n).map(|_| self.region(d - 1)).collect();
            }
            match saved {
                Some(v) => self.vars = v,
                None => self.vars.truncate(mark),
            }
            out.push(node);
        }
        out
    }
    fn sym(&mut self, it: &mut impl Iterator<Item = SymbolName>) -> Symbol {
        let n = it.next().unwrap();
        self.symbol(n)
    }
}
pub fn package(t: &mut Tape, scoped: bool) -> Package {
    let n = t.weighted(&[1, 6, 2]);
    let modules = (0..n)
        .map(|_| {
            let budget = 2 + t.below(14);
            let mut g = G { t, vars: vec![], names: vec![], budget, scoped };
            // symbols of the root are in scope in its metadata
            let children = g.nodes(3);
            let meta = g.some_terms(3, 2);
            let root = Region { kind: RegionKind::Module, children: children.into(), meta: meta.into(), ..Default::default() };
            Module { root }
        })
        .collect();
    Package { modules }
}

/// Printing merges spliced literal lists and tuples into the enclosing one.
struct Norm<'a> {
    /// Rename links to ordinals in each closed region.
    links: Option<Vec<BTreeMap<String, usize>>>,
    /// Leave out import nodes of the module root.
    drop_imports: bool,
    merge: bool,
    scope: Vec<BTreeSet<&'a str>>,
    free: BTreeSet<String>,
    counts: Vec<(u32, u32)>,
    ports: Vec<u32>,
}
impl<'a> Norm<'a> {
    fn seq(&mut self, parts: &'a [SeqPart], list: bool, out: &mut Vec<SeqPart>) {
        for p in parts {
            match p {
                SeqPart::Splice(Term::List(q)) if list && self.merge => self.seq(q, list, out),
                SeqPart::Splice(Term::Tuple(q)) if !list && self.merge => self.seq(q, list, out),
                SeqPart::Splice(t) => out.push(SeqPart::Splice(self.term(t))),
                SeqPart::Item(t) => out.push(SeqPart::Item(self.term(t))),
            }
        }
    }
    fn terms(&mut self, ts: &'a [Term]) -> Box<[Term]> {
        ts.iter().map(|t| self.term(t)).collect()
    }
    fn term(&mut self, t: &'a Term) -> Term {
        match t {
            Term::Apply(n, xs) => {
                if !self.scope.iter().any(|s| s.contains(n.as_ref())) {
                    self.free.insert(n.as_ref().to_string());
                }
                Term::Apply(n.clone(), self.terms(xs).into_vec().into())
            }
            Term::List(p) => {
                let mut v = vec![];
                self.seq(p, true, &mut v);
                Term::List(v.into())
            }
            Term::Tuple(p) => {
                let mut v = vec![];
                self.seq(p, false, &mut v);
                Term::Tuple(v.into())
            }
            Term::Func(r) => Term::Func(Arc::new(self.region(r, true))),
            x => x.clone(),
        }
    }
    fn linkset(&mut self, ls: &'a [LinkName]) -> Box<[LinkName]> {
        match &mut self.links {
            None => ls.into(),
            Some(maps) => {
                let m = maps.last_mut().unwrap();
                *self.ports.last_mut().unwrap() += ls.len() as u32;
                ls.iter()
                    .map(|l| {
                        let n = m.len();
                        LinkName::new(m.entry(l.as_ref().to_string()).or_insert(n).to_string())
                    })
                    .collect()
            }
        }
    }
    fn opt(&mut self, t: &'a Option<Term>) -> Option<Term> {
        t.as_ref().map(|t| self.term(t))
    }
    fn symbol(&mut self, s: &'a Symbol) -> Box<Symbol> {
        Box::new(Symbol {
            visibility: s.visibility.clone(),
            name: s.name.clone(),
            params: s.params.iter().map(|p| Param { name: p.name.clone(), r#type: self.term(&p.r#type) }).collect(),
            constraints: self.terms(&s.constraints),
            signature: self.term(&s.signature),
        })
    }
    fn node(&mut self, n: &'a Node) -> Node {
        let inputs = self.linkset(&n.inputs);
        let outputs = self.linkset(&n.outputs);
        let mut closed = false;
        let operation = match &n.operation {
            Operation::DefineFunc(s) => {
                closed = true;
                Operation::DefineFunc(self.symbol(s))
            }
            Operation::DeclareFunc(s) => Operation::DeclareFunc(self.symbol(s)),
            Operation::DefineAlias(s, t) => Operation::DefineAlias(self.symbol(s), self.term(t)),
            Operation::DeclareAlias(s) => Operation::DeclareAlias(self.symbol(s)),
            Operation::DeclareConstructor(s) => Operation::DeclareConstructor(self.symbol(s)),
            Operation::DeclareOperation(s) => Operation::DeclareOperation(self.symbol(s)),
            Operation::Custom(t) => Operation::Custom(self.term(t)),
            x => x.clone(),
        };
        Node {
            operation,
            inputs,
            outputs,
            meta: self.terms(&n.meta),
            regions: n.regions.iter().map(|r| self.region(r, closed)).collect(),
            signature: self.opt(&n.signature),
        }
    }
    fn region(&mut self, r: &'a Region, closed: bool) -> Region {
        let meta = self.terms(&r.meta);
        let signature = self.opt(&r.signature);
        self.enter(r);
        if closed {
            if let Some(m) = &mut self.links {
                m.push(Default::default());
                self.ports.push(0);
            }
        }
        let sources = self.linkset(&r.sources);
        let targets = self.linkset(&r.targets);
        let children = r.children.iter().map(|n| self.node(n)).collect();
        if closed {
            if let Some(m) = &mut self.links {
                let k = m.pop().unwrap().len() as u32;
                let p = self.ports.pop().unwrap();
                self.counts.push((k, p));
            }
        }
        self.scope.pop();
        Region { kind: r.kind, sources, targets, children, meta, signature }
    }
    fn enter(&mut self, r: &'a Region) {
        self.scope.push(r.children.iter().filter_map(|n| n.operation.symbol_name()).map(|s| s.as_ref()).collect());
    }
    fn module(&mut self, m: &'a Module) -> Module {
        self.enter(&m.root);
        if let Some(x) = &mut self.links {
            x.push(Default::default());
            self.ports.push(0);
        }
        let drop = self.drop_imports;
        let children = m
            .root
            .children
            .iter()
            .map(|n| self.node(n))
            .filter(|n| !drop || !matches!(n.operation, Operation::Import(_)))
            .collect::<Vec<_>>()
            .into();
        let meta = self.terms(&m.root.meta);
        if let Some(x) = &mut self.links {
            let k = x.pop().unwrap().len() as u32;
            let p = self.ports.pop().unwrap();
            self.counts.push((k, p));
        }
        self.scope.pop();
        Module { root: Region { kind: RegionKind::Module, children, meta, ..Default::default() } }
    }
}
fn norm<'a>(merge: bool, resolved: bool) -> Norm<'a> {
    Norm {
        links: resolved.then(Vec::new),
        drop_imports: resolved,
        merge,
        scope: vec![],
        free: Default::default(),
        counts: vec![],
        ports: vec![],
    }
}
fn same<T: std::fmt::Debug>(what: &'static str, a: &T, b: &T) -> R {
    let (x, y) = (format!("{a:#?}"), format!("{b:#?}"));
    if x != y {
        let mut d = String::new();
        for (i, (p, q)) in x.lines().zip(y.lines()).enumerate() {
            if p != q {
                d = format!("line {i}: {p:?} became {q:?}");
                break;
            }
        }
        return fail(what, format!("{what}: {d}\n--- before\n{}\n--- after\n{}", clip(&x, 3000), clip(&y, 3000)));
    }
    Ok(())
}

/// Replaces the spaces between tokens (outside strings) by others, and
/// writes some characters of strings as escapes.
fn respace(t: &mut Tape, s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    let mut quoted = false;
    let mut bytes = false;
    // what was read so far outside strings
    let mut src = String::new();
    while let Some(c) = it.next() {
        if !quoted {
            src.push(c);
        }
        if quoted {
            if bytes {
                if c == '"' {
                    quoted = false;
                }
                o.push(c);
                continue;
            }
            match c {
                '\\' => {
                    o.push(c);
                    o.push(it.next().unwrap());
                }
                '"' => {
                    quoted = false;
                    o.push(c);
                }
                c if t.chance(1, 6) => o += &format!("\\u{{{:x}}}", c as u32),
                c => o.push(c),
            }
            continue;
        }
        match c {
            '"' => {
                bytes = src[..src.len() - 1].trim_end().ends_with("(bytes");
                quoted = true;
                o.push(c);
            }
            ' ' | '\n' => match t.weighted(&[6, 1, 1, 1, 1]) {
                0 => o.push(c),
                1 => o += "\t \r\n",
                2 => o += " ; a comment (with \"odd [characters\n",
                3 => o += ";\n",
                _ => o += "  ",
            },
            c => o.push(c),
        }
    }
    o
}

fn text(c: &mut Ctx) -> R {
    let scoped = c.t.flag();
    let p = package(&mut c.t, scoped);
    let s = guard("print", || p.to_string())?;
    c.note(|| s.clone());
    if s.len() >= 200 {
        c.nontrivial(hash_str(&s));
    }
    c.sample(|| s.clone());
    let want = Package { modules: p.modules.iter().map(|m| norm(true, false).module(m)).collect() };
    let q = match guard("parse", || Package::from_str(&s))? {
        Ok(q) => q,
        Err(e) => return fail("parse", format!("printed text does not parse: {e}\n{}", clip(&s, 3000))),
    };
    same("text round trip", &want, &q)?;
    let s2 = q.to_string();
    ensure!(s2 == s, "print-stable", "printing again gives other text:\n{}\n---\n{}", clip(&s, 2000), clip(&s2, 2000));
    let r = respace(&mut c.t, &s);
    match guard("parse", || Package::from_str(&r))? {
        Ok(q) => same("respaced text", &want, &q)?,
        Err(e) => return fail("parse-respaced", format!("respaced text does not parse: {e}\n{}", clip(&r, 3000))),
    }
    Ok(())
}
/// Every syntactic category prints and parses on its own.
fn parts(c: &mut Ctx) -> R {
    let budget = 1 + c.t.below(6);
    let mut g = G { t: &mut c.t, vars: vec![], names: vec![], budget, scoped: false };
    macro_rules! go {
        ($v:expr, $t:ty, $what:expr, $n:expr) => {{
            let v: $t = $v;
            let want: $t = $n(&v);
            let s = guard("print", || v.to_string())?;
            c.note(|| s.clone());
            if s.len() >= 40 {
                c.nontrivial(hash_str(&s));
            }
            c.sample(|| s.clone());
            match guard("parse", || <$t>::from_str(&s))? {
                Ok(w) => same($what, &want, &w),
                Err(e) => fail(concat!("parse ", stringify!($t)), format!("{} does not parse: {e}\n{}", $what, clip(&s, 3000))),
            }
        }};
    }
    match g.t.below(9) {
        0 => go!(g.term(3), Term, "term", |v| norm(true, false).term(v)),
        1 => go!(literal(g.t), Literal, "literal", |v: &Literal| v.clone()),
        2 => go!(g.region(2), Region, "region", |v| norm(true, false).region(v, false)),
        3 => {
            let ns = g.nodes(2);
            if ns.is_empty() {
                return Ok(());
            }
            go!(ns[0].clone(), Node, "node", |v| norm(true, false).node(v))
        }
        4 => go!(symbol_name(g.t), SymbolName, "symbol name", |v: &SymbolName| v.clone()),
        5 => go!(g.var(), VarName, "variable", |v: &VarName| v.clone()),
        6 => go!(link(g.t), LinkName, "link", |v: &LinkName| v.clone()),
        7 => {
            let p = Param { name: g.var(), r#type: g.term(2) };
            go!(p, Param, "param", |v: &Param| Param { name: v.name.clone(), r#type: norm(true, false).term(&v.r#type) })
        }
        _ => {
            let n = symbol_name(g.t);
            let s = g.symbol(n);
            go!(s, Symbol, "symbol", |v| *norm(true, false).symbol(v))
        }
    }
}

fn tables(c: &mut Ctx) -> R {
    let p = package(&mut c.t, true);
    let s = p.to_string();
    c.note(|| s.clone());
    if s.len() >= 200 {
        c.nontrivial(hash_str(&s));
    }
    c.sample(|| s.clone());
    let bump = Bump::new();
    let tab = match guard("resolve", || p.resolve(&bump))? {
        Ok(t) => t,
        Err(e) => return fail("resolve", format!("{e:?}\n{}", clip(&s, 3000))),
    };
    // back to a tree
    let Some(q) = guard("as_ast", || tab.as_ast())? else {
        return fail("as_ast", format!("the resolved package has no tree\n{}", clip(&s, 3000)));
    };
    ensure!(q.modules.len() == p.modules.len(), "modules", "module count");
    for ((a, b), t) in p.modules.iter().zip(&q.modules).zip(&tab.modules) {
        let (mut na, mut nb) = (norm(false, true), norm(false, true));
        let (x, y) = (na.module(a), nb.module(b));
        same("resolved tree", &x, &y)?;
        // imports: the ones written and one for each free symbol
        let imports = |m: &Module| -> Vec<String> {
            let mut v: Vec<String> = m
                .root
                .children
                .iter()
                .filter_map(|n| if let Operation::Import(s) = &n.operation { Some(s.as_ref().to_string()) } else { None })
                .collect();
            v.sort();
            v
        };
        let mut want = imports(a);
        want.extend(na.free.iter().cloned());
        want.sort();
        ensure!(want == imports(b), "imports", "imports {:?}, expected {want:?}", imports(b));
        ensure!(nb.free.is_empty(), "free", "free symbols {:?}", nb.free);
        // scope sizes
        let mut got: Vec<(u32, u32)> = t.regions.iter().filter_map(|r| r.scope.as_ref()).map(|s| (s.links, s.ports)).collect();
        let mut want = na.counts.clone();
        got.sort();
        want.sort();
        ensure!(got == want, "scopes", "region scopes {got:?}, expected {want:?}");
    }
    // resolving the tree again changes nothing further
    let bump2 = Bump::new();
    let tab2 = match guard("resolve", || q.resolve(&bump2))? {
        Ok(t) => t,
        Err(e) => return fail("resolve-again", format!("{e:?}")),
    };
    let Some(q2) = guard("as_ast", || tab2.as_ast())? else { return fail("as_ast-again", "no tree") };
    same("resolved twice", &q, &q2)?;
    // binary
    let bytes = guard("write", || binary::write_to_vec(&tab))?;
    let bump3 = Bump::new();
    let back = match guard("read", || binary::read_from_slice(&bytes, &bump3))? {
        Ok(t) => t,
        Err(e) => return fail("read", format!("{e:?}")),
    };
    same_tables(&tab, &back)?;
    let mut sink = vec![];
    binary::write_to_writer(&tab, &mut sink).map_err(|e| Fail { sig: "write".into(), msg: e.to_string() })?;
    ensure!(sink == bytes, "writer", "write_to_writer and write_to_vec differ");
    // whatever follows the package in the stream is left alone
    sink.extend_from_slice(b"rest");
    let mut rd = &sink[..];
    let bump4 = Bump::new();
    match guard("read", || binary::read_from_reader(&mut rd, &bump4))? {
        Ok(t) => same_tables(&tab, &t)?,
        Err(e) => return fail("read-stream", format!("{e:?}")),
    }
    ensure!(rd == b"rest", "stream", "{} bytes left of 4", rd.len());
    Ok(())
}
fn same_tables(a: &table::Package, b: &table::Package) -> R {
    same("binary round trip", a, b)
}
