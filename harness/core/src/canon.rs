//! Canonical text of types, terms, constants and operations, written
//! independently of the library's own equality and printing, and structural
//! comparison of graphs through the hierarchy.
use hugr::hugr::views::HugrView;
use hugr::ops::{OpTrait, OpType, Value};
use hugr::types::{PolyFuncType, PolyFuncTypeRV, Term, Type, TypeArg, TypeBound, TypeEnum, TypeRV, TypeRow, TypeRowRV};
use hugr::{Direction, Hugr, Node, PortIndex};
use hugr_core::Visibility;
use hugr_core::hugr::internal::HugrInternals;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write;

pub fn bound(b: TypeBound) -> &'static str {
    match b {
        TypeBound::Copyable => "C",
        TypeBound::Linear => "A",
    }
}
/// Types of either kind (with or without row variables), and rows of them.
pub trait Put {
    fn put(&self, s: &mut String);
}
macro_rules! put_ty {
    ($t:ty) => {
        impl Put for $t {
            fn put(&self, s: &mut String) {
                match self.as_type_enum() {
                    TypeEnum::Extension(c) => {
                        write!(s, "{}.{}", c.extension(), c.name()).unwrap();
                        args_to(c.args(), s);
                        if c.bound() == TypeBound::Copyable {
                            s.push('^');
                        }
                    }
                    TypeEnum::Alias(a) => write!(s, "alias:{}:{}", a.name(), bound(a.bound)).unwrap(),
                    TypeEnum::Function(f) => {
                        s.push_str("fn");
                        f.input().put(s);
                        s.push_str("->");
                        f.output().put(s);
                    }
                    TypeEnum::Variable(i, b) => write!(s, "${}:{}", i, bound(*b)).unwrap(),
                    TypeEnum::RowVar(r) => write!(s, "row:{r:?}").unwrap(),
                    TypeEnum::Sum(st) => {
                        s.push_str("+{");
                        for v in st.variants() {
                            v.put(s);
                            s.push('|');
                        }
                        s.push('}');
                    }
                }
            }
        }
    };
}
put_ty!(Type);
put_ty!(TypeRV);
macro_rules! put_row {
    ($t:ty) => {
        impl Put for $t {
            fn put(&self, s: &mut String) {
                s.push('(');
                for t in self.iter() {
                    t.put(s);
                    s.push(',');
                }
                s.push(')');
            }
        }
    };
}
put_row!(TypeRow);
put_row!(TypeRowRV);
macro_rules! put_poly {
    ($t:ty) => {
        impl Put for $t {
            fn put(&self, s: &mut String) {
                s.push_str("forall");
                args_to(self.params(), s);
                s.push('.');
                self.body().input().put(s);
                s.push_str("->");
                self.body().output().put(s);
            }
        }
    };
}
put_poly!(PolyFuncType);
put_poly!(PolyFuncTypeRV);
pub fn text(x: &impl Put) -> String {
    let mut s = String::new();
    x.put(&mut s);
    s
}
pub fn ty(t: &impl Put) -> String {
    text(t)
}
pub fn ty_to(t: &impl Put, s: &mut String) {
    t.put(s)
}
pub fn row(t: &impl Put) -> String {
    text(t)
}
pub fn poly(t: &impl Put) -> String {
    text(t)
}
pub fn args_to(args: &[TypeArg], s: &mut String) {
    if args.is_empty() {
        return;
    }
    s.push('<');
    for a in args {
        term_to(a, s);
        s.push(';');
    }
    s.push('>');
}
pub fn term(t: &Term) -> String {
    let mut s = String::new();
    term_to(t, &mut s);
    s
}
pub fn term_to(t: &Term, s: &mut String) {
    let list = |name: &str, v: &[Term], s: &mut String| {
        s.push_str(name);
        s.push('[');
        for x in v {
            term_to(x, s);
            s.push(';');
        }
        s.push(']');
    };
    match t {
        Term::RuntimeType(b) => write!(s, "Type:{}", bound(*b)).unwrap(),
        Term::StaticType => s.push_str("Static"),
        Term::BoundedNatType(b) => write!(s, "NatTy:{:?}", b.value()).unwrap(),
        Term::StringType => s.push_str("StrTy"),
        Term::BytesType => s.push_str("BytesTy"),
        Term::FloatType => s.push_str("FloatTy"),
        Term::ListType(t) => {
            s.push_str("ListTy(");
            term_to(t, s);
            s.push(')');
        }
        Term::TupleType(t) => {
            s.push_str("TupTy(");
            term_to(t, s);
            s.push(')');
        }
        Term::Runtime(t) => {
            s.push('`');
            t.put(s);
        }
        Term::BoundedNat(n) => write!(s, "{n}").unwrap(),
        Term::String(x) => write!(s, "{x:?}").unwrap(),
        Term::Bytes(b) => write!(s, "b{b:?}").unwrap(),
        Term::Float(f) => write!(s, "f{:016x}", f.into_inner().to_bits()).unwrap(),
        Term::List(v) => list("L", v, s),
        Term::ListConcat(v) => list("LC", v, s),
        Term::Tuple(v) => list("T", v, s),
        Term::TupleConcat(v) => list("TC", v, s),
        Term::Variable(v) => {
            // a row-variable-like use prints its index and declaration
            write!(s, "var{}:", v.index()).unwrap();
            match t_decl(t) {
                Some(d) => s.push_str(&d),
                None => s.push('?'),
            }
        }
        Term::ConstType(t) => {
            s.push_str("Const(");
            t.put(s);
            s.push(')');
        }
        other => write!(s, "?{other:?}").unwrap(),
    }
}
/// The declared kind of a term variable, through its serialised form (the
/// declaration is otherwise private).
fn t_decl(t: &Term) -> Option<String> {
    let v = serde_json::to_value(t).ok()?;
    let d = v.get("cached_decl")?;
    let d: Term = serde_json::from_value(d.clone()).ok()?;
    Some(term(&d))
}
pub fn value(v: &Value) -> String {
    match v {
        Value::Sum(sm) => {
            let mut s = format!("sum#{}:", sm.tag);
            s.push_str(&ty(&Type::from(sm.sum_type.clone())));
            s.push('(');
            for x in &sm.values {
                s.push_str(&value(x));
                s.push(',');
            }
            s.push(')');
            s
        }
        Value::Function { hugr } => format!("func[{}]", graph_text(hugr)),
        Value::Extension { e } => {
            let j = serde_json::to_value(v).unwrap_or(serde_json::Value::Null);
            // only name and content; the type is canonical
            format!("ext:{}:{}", ty(&e.get_type()), norm_json(&j["value"]).to_string() + &norm_json(&j["c"]).to_string() + &norm_json(&j["v"]).to_string())
        }
    }
}
/// Drops alternative spellings inside serialised constants: nested graphs are
/// spelled canonically, unit sums are spelled as general sums.
fn norm_json(j: &serde_json::Value) -> serde_json::Value {
    use serde_json::Value as J;
    match j {
        J::Object(m) => {
            if m.get("t") == Some(&J::from("Sum")) && m.get("s") == Some(&J::from("Unit")) {
                let n = m.get("size").and_then(|x| x.as_u64()).unwrap_or(0);
                return serde_json::json!({"t":"Sum","s":"General","rows": vec![J::Array(vec![]); n as usize]});
            }
            J::Object(m.iter().map(|(k, v)| (k.clone(), norm_json(v))).collect())
        }
        J::Array(a) => J::Array(a.iter().map(norm_json).collect()),
        // a nested graph, stored as an envelope
        J::String(e) if e.starts_with("HUGRiHJv") => match Hugr::load_str(e, Some(&crate::ext::REG)) {
            Ok(h) => J::from(graph_text(&h)),
            Err(_) => j.clone(),
        },
        x => x.clone(),
    }
}
fn vis(v: &Visibility) -> &'static str {
    match v {
        Visibility::Public => "pub",
        _ => "priv",
    }
}
/// Canonical text of an operation; an opaque operation and the resolved
/// operation of the same name, arguments and signature print differently
/// unless `blind_opaque`.
pub fn op(o: &OpType, blind_opaque: bool) -> String {
    match o {
        OpType::Module(_) => "Module".into(),
        OpType::FuncDefn(f) => format!("FuncDefn {} {:?} {}", vis(f.visibility()), f.func_name(), poly(f.signature())),
        OpType::FuncDecl(f) => format!("FuncDecl {} {:?} {}", vis(f.visibility()), f.func_name(), poly(f.signature())),
        OpType::AliasDecl(a) => format!("AliasDecl {:?} {}", a.name(), bound(a.bound)),
        OpType::AliasDefn(a) => format!("AliasDefn {:?} {}", a.name, ty(&a.definition)),
        OpType::Const(c) => format!("Const {}", value(c.value())),
        OpType::Input(i) => format!("Input {}", row(&i.types)),
        OpType::Output(i) => format!("Output {}", row(&i.types)),
        OpType::Call(c) => {
            let mut s = format!("Call {} inst {}->{} ", poly(&c.func_sig), row(c.instantiation.input()), row(c.instantiation.output()));
            args_to(&c.type_args, &mut s);
            s
        }
        OpType::CallIndirect(c) => format!("CallIndirect {}->{}", row(c.signature.input()), row(c.signature.output())),
        OpType::LoadConstant(l) => format!("LoadConstant {}", ty(&l.datatype)),
        OpType::LoadFunction(c) => {
            let mut s =
                format!("LoadFunction {} inst {}->{} ", poly(&c.func_sig), row(c.instantiation.input()), row(c.instantiation.output()));
            args_to(&c.type_args, &mut s);
            s
        }
        OpType::DFG(d) => format!("DFG {}->{}", row(d.signature.input()), row(d.signature.output())),
        OpType::ExtensionOp(e) => {
            let sig = hugr::ops::dataflow::DataflowOpTrait::signature(e);
            let mut s = format!(
                "{} {}.{} {}->{}",
                if blind_opaque { "Ext" } else { "ExtensionOp" },
                e.def().extension_id(),
                e.def().name(),
                row(sig.input()),
                row(sig.output())
            );
            args_to(e.args(), &mut s);
            s
        }
        OpType::OpaqueOp(e) => {
            let sig = hugr::ops::dataflow::DataflowOpTrait::signature(e);
            let mut s = format!(
                "{} {}.{} {}->{}",
                if blind_opaque { "Ext" } else { "OpaqueOp" },
                e.extension(),
                e.unqualified_id(),
                row(sig.input()),
                row(sig.output())
            );
            args_to(e.args(), &mut s);
            s
        }
        OpType::Tag(t) => {
            let mut s = format!("Tag {} ", t.tag);
            for v in &t.variants {
                s.push_str(&row(v));
            }
            s
        }
        OpType::DataflowBlock(b) => {
            let mut s = format!("Block {}->{} rows", row(&b.inputs), row(&b.other_outputs));
            for v in &b.sum_rows {
                s.push_str(&row(v));
            }
            s
        }
        OpType::ExitBlock(b) => format!("Exit {}", row(&b.cfg_outputs)),
        OpType::TailLoop(l) => format!("TailLoop {} {} {}", row(&l.just_inputs), row(&l.just_outputs), row(&l.rest)),
        OpType::CFG(c) => format!("CFG {}->{}", row(c.signature.input()), row(c.signature.output())),
        OpType::Conditional(c) => {
            let mut s = format!("Conditional {}->{} rows", row(&c.other_inputs), row(&c.outputs));
            for v in &c.sum_rows {
                s.push_str(&row(v));
            }
            s
        }
        OpType::Case(c) => format!("Case {}->{}", row(c.signature.input()), row(c.signature.output())),
        other => format!("?{other:?}"),
    }
}

/// A graph as plain data, read only through elementary queries.
#[derive(Clone, Debug)]
pub struct GNode {
    pub node: Node,
    pub parent: Option<usize>,
    pub children: Vec<usize>,
    /// For each input port, the linked (node, port).
    pub ins: Vec<Vec<(usize, usize)>>,
    pub outs: Vec<Vec<(usize, usize)>>,
}
pub struct G {
    pub nodes: Vec<GNode>,
    pub ops: Vec<OpType>,
    pub meta: Vec<BTreeMap<String, serde_json::Value>>,
    pub index: HashMap<Node, usize>,
    pub root: usize,
}
impl G {
    pub fn of(h: &Hugr) -> G {
        Self::of_root(h, h.module_root())
    }
    /// Everything below `root`; links to nodes outside are dropped.
    pub fn of_root(h: &Hugr, root: Node) -> G {
        let mut order = vec![];
        let mut stack = vec![(root, None)];
        let mut parents = vec![];
        while let Some((n, p)) = stack.pop() {
            let i = order.len();
            order.push(n);
            parents.push(p);
            let ch: Vec<Node> = h.children(n).collect();
            for c in ch.into_iter().rev() {
                stack.push((c, Some(i)));
            }
        }
        let index: HashMap<Node, usize> = order.iter().enumerate().map(|(i, n)| (*n, i)).collect();
        let mut nodes: Vec<GNode> = order
            .iter()
            .zip(&parents)
            .map(|(n, p)| {
                let f = |d: Direction| {
                    h.node_ports(*n, d)
                        .map(|p| {
                            let mut v: Vec<(usize, usize)> =
                                h.linked_ports(*n, p).filter_map(|(m, q)| index.get(&m).map(|m| (*m, q.index()))).collect();
                            v.sort();
                            v
                        })
                        .collect::<Vec<_>>()
                };
                GNode { node: *n, parent: *p, children: vec![], ins: f(Direction::Incoming), outs: f(Direction::Outgoing) }
            })
            .collect();
        for i in 1..nodes.len() {
            let p = nodes[i].parent.unwrap();
            nodes[p].children.push(i);
        }
        let ops = order.iter().map(|n| h.get_optype(*n).clone()).collect();
        let meta = order.iter().map(|n| metadata(h, *n)).collect();
        G { nodes, ops, meta, index, root: 0 }
    }
    pub fn ix(&self, n: Node) -> usize {
        self.index[&n]
    }
    /// Trailing unlinked ports beyond the operation's own are not observable.
    fn links(&self, i: usize, out: bool) -> Vec<(usize, (usize, usize))> {
        let v = if out { &self.nodes[i].outs } else { &self.nodes[i].ins };
        v.iter().enumerate().flat_map(|(p, l)| l.iter().map(move |x| (p, *x))).collect()
    }
    pub fn line(&self, i: usize, o: &CmpOpts) -> String {
        let n = &self.nodes[i];
        let mut s = format!("parent={:?} op={}", n.parent, op(&self.ops[i], o.blind_opaque));
        let mut m = self.meta[i].clone();
        for k in &o.ignore_meta {
            m.remove(*k);
        }
        if o.metadata && !m.is_empty() {
            write!(s, " meta={m:?}").unwrap();
        }
        write!(s, " out={:?}", self.links(i, true)).unwrap();
        s
    }
}
pub fn metadata(h: &Hugr, n: Node) -> BTreeMap<String, serde_json::Value> {
    h.node_metadata_map(n).iter().map(|(k, v)| (k.clone(), v.clone())).collect()
}

#[derive(Clone)]
pub struct CmpOpts {
    pub blind_opaque: bool,
    pub metadata: bool,
    pub entrypoint: bool,
    pub ignore_meta: Vec<&'static str>,
}
impl Default for CmpOpts {
    fn default() -> Self {
        CmpOpts { blind_opaque: false, metadata: true, entrypoint: true, ignore_meta: vec![] }
    }
}

/// `None` when the two graphs have the same hierarchy, sibling order,
/// operations, links and (optionally) metadata and entrypoint.
pub fn diff(a: &Hugr, b: &Hugr, o: &CmpOpts) -> Option<String> {
    let (ga, gb) = (G::of(a), G::of(b));
    if let Some(d) = diff_g(&ga, &gb, o) {
        return Some(d);
    }
    if o.entrypoint && ga.ix(a.entrypoint()) != gb.ix(b.entrypoint()) {
        return Some(format!("entrypoint {} vs {}", ga.ix(a.entrypoint()), gb.ix(b.entrypoint())));
    }
    None
}
pub fn diff_g(ga: &G, gb: &G, o: &CmpOpts) -> Option<String> {
    for i in 0..ga.nodes.len().max(gb.nodes.len()) {
        let (x, y) = (
            if i < ga.nodes.len() { ga.line(i, o) } else { "(none)".into() },
            if i < gb.nodes.len() { gb.line(i, o) } else { "(none)".into() },
        );
        if x != y {
            return Some(format!("at preorder position {i}:\n  left:  {x}\n  right: {y}"));
        }
    }
    // incoming links mirror outgoing ones in each graph (a query consistency check)
    for g in [ga, gb] {
        for i in 0..g.nodes.len() {
            for (p, (m, q)) in g.links(i, false) {
                if !g.nodes[m].outs.get(q).is_some_and(|v| v.contains(&(i, p))) {
                    return Some(format!("links of port {p} of node {i} are not symmetric"));
                }
            }
        }
    }
    None
}
pub fn graph_text(h: &Hugr) -> String {
    let g = G::of(h);
    let o = CmpOpts::default();
    let mut s = String::new();
    for i in 0..g.nodes.len() {
        writeln!(s, "{i}: {}", g.line(i, &o)).unwrap();
    }
    write!(s, "entry={}", g.index.get(&h.entrypoint()).copied().unwrap_or(usize::MAX)).unwrap();
    s
}
pub fn graph_hash(h: &Hugr) -> u64 {
    crate::engine::hash_str(&graph_text(h))
}
/// A readable listing of a graph with its real node numbers.
pub fn show(h: &Hugr) -> String {
    let mut s = String::new();
    fn go(h: &Hugr, n: Node, d: usize, s: &mut String) {
        write!(s, "{}{} {}", "  ".repeat(d), n, op(h.get_optype(n), false)).unwrap();
        let ins: Vec<String> = h
            .node_inputs(n)
            .flat_map(|p| h.linked_outputs(n, p).map(move |(m, q)| format!("{}<-{}.{}", p.index(), m, q.index())).collect::<Vec<_>>())
            .collect();
        if !ins.is_empty() {
            write!(s, "  [{}]", ins.join(" ")).unwrap();
        }
        s.push('\n');
        for c in h.children(n).collect::<Vec<_>>() {
            go(h, c, d + 1, s);
        }
    }
    go(h, h.module_root(), 0, &mut s);
    write!(s, "entrypoint {}", h.entrypoint()).unwrap();
    s
}
#[allow(unused)]
pub fn op_is_container(o: &OpType) -> bool {
    matches!(
        o,
        OpType::Module(_)
            | OpType::FuncDefn(_)
            | OpType::DFG(_)
            | OpType::CFG(_)
            | OpType::Conditional(_)
            | OpType::Case(_)
            | OpType::TailLoop(_)
            | OpType::DataflowBlock(_)
    ) || o.tag() == hugr::ops::OpTag::FuncDefn
}
