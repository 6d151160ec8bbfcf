//! An independent big-step evaluator for HUGR programs, following the
//! specification. Panics are values; operations of unknown extensions are
//! uninterpreted: a pure function of name, (resolved) arguments and inputs.
use crate::canon::{self, G};
use crate::engine::{hash_str, mix};
use hugr::ops::{OpTrait, OpType, Value};
use hugr::types::{Term, Type, TypeEnum, TypeRV, TypeRow};
use hugr::{Hugr, HugrView, Node};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write;
use std::rc::Rc;

// ---------------------------------------------------------------- types

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Int(u8),
    F64,
    Usize,
    Str,
    Err,
    Sum(Rc<Vec<Vec<Ty>>>),
    List(Rc<Ty>),
    /// array, borrow_array, value_array
    Arr(&'static str, u64, Rc<Ty>),
    SArr(Rc<Ty>),
    Fn(Rc<(Vec<Ty>, Vec<Ty>)>),
    Opq(Rc<str>),
}
#[derive(Clone, PartialEq, Debug)]
pub enum Arg {
    Ty(Ty),
    Nat(u64),
    List(Vec<Arg>),
    Tuple(Vec<Arg>),
    Lit(String),
}
pub type TArgs = Rc<Vec<Arg>>;

pub fn ty(t: &Type, env: &[Arg]) -> Ty {
    match t.as_type_enum() {
        TypeEnum::Extension(c) => ext_ty(c.extension(), c.name(), c.args(), env),
        TypeEnum::Alias(a) => Ty::Opq(format!("alias:{}", a.name()).into()),
        TypeEnum::Function(f) => Ty::Fn(Rc::new((
            f.input().iter().flat_map(|t| ty_rv(t, env)).collect(),
            f.output().iter().flat_map(|t| ty_rv(t, env)).collect(),
        ))),
        TypeEnum::Variable(i, _) => match env.get(*i) {
            Some(Arg::Ty(t)) => t.clone(),
            _ => Ty::Opq(format!("?{i}").into()),
        },
        TypeEnum::RowVar(_) => unreachable!(),
        TypeEnum::Sum(s) => Ty::Sum(Rc::new(s.variants().map(|r| r.iter().flat_map(|t| ty_rv(t, env)).collect()).collect())),
    }
}
fn ext_ty(ext: &str, name: &str, args: &[Term], env: &[Arg]) -> Ty {
    let a: Vec<Arg> = args.iter().map(|x| arg(x, env)).collect();
    let one = |a: &Arg| match a {
        Arg::Ty(t) => Rc::new(t.clone()),
        _ => Rc::new(Ty::Opq("?".into())),
    };
    match (ext, name, &a[..]) {
        ("arithmetic.int.types", "int", [Arg::Nat(n)]) => Ty::Int(*n as u8),
        ("arithmetic.float.types", "float64", []) => Ty::F64,
        ("prelude", "usize", []) => Ty::Usize,
        ("prelude", "string", []) => Ty::Str,
        ("prelude", "error", []) => Ty::Err,
        ("collections.list", _, [t]) => Ty::List(one(t)),
        ("collections.array", _, [Arg::Nat(n), t]) => Ty::Arr("array", *n, one(t)),
        ("collections.borrow_arr", _, [Arg::Nat(n), t]) => Ty::Arr("borrow", *n, one(t)),
        ("collections.value_array", _, [Arg::Nat(n), t]) => Ty::Arr("value", *n, one(t)),
        ("collections.static_array", _, [t]) => Ty::SArr(one(t)),
        ("vtest.low", "C" | "L", []) => Ty::Opq("vtest.T".into()),
        _ => {
            let mut s = format!("{ext}.{name}");
            for x in &a {
                write!(s, "<{}>", arg_str(x)).unwrap();
            }
            Ty::Opq(s.into())
        }
    }
}
fn ty_rv(t: &TypeRV, env: &[Arg]) -> Vec<Ty> {
    match t.as_type_enum() {
        TypeEnum::RowVar(r) => {
            // RowVariable(usize, bound)
            let s = format!("{r:?}");
            let i: usize = s
                .trim_start_matches(|c: char| !c.is_ascii_digit())
                .chars()
                .take_while(|c| c.is_ascii_digit())
                .collect::<String>()
                .parse()
                .unwrap_or(usize::MAX);
            match env.get(i) {
                Some(Arg::List(l)) => l
                    .iter()
                    .map(|a| match a {
                        Arg::Ty(t) => t.clone(),
                        _ => Ty::Opq("?".into()),
                    })
                    .collect(),
                _ => vec![Ty::Opq(format!("?row{i}").into())],
            }
        }
        _ => vec![ty(&t.clone().try_into_type().unwrap(), env)],
    }
}
pub fn arg(t: &Term, env: &[Arg]) -> Arg {
    match t {
        Term::Runtime(t) => Arg::Ty(ty(t, env)),
        Term::BoundedNat(n) => Arg::Nat(*n),
        Term::List(v) => Arg::List(v.iter().flat_map(|x| elem(x, env)).collect()),
        Term::ListConcat(v) => Arg::List(
            v.iter()
                .flat_map(|x| match arg(x, env) {
                    Arg::List(l) => l,
                    x => vec![x],
                })
                .collect(),
        ),
        Term::Tuple(v) => Arg::Tuple(v.iter().map(|x| arg(x, env)).collect()),
        Term::TupleConcat(v) => Arg::Tuple(
            v.iter()
                .flat_map(|x| match arg(x, env) {
                    Arg::Tuple(l) => l,
                    x => vec![x],
                })
                .collect(),
        ),
        Term::Variable(v) => env.get(v.index()).cloned().unwrap_or(Arg::Lit(format!("?{}", v.index()))),
        other => Arg::Lit(canon::term(other)),
    }
}
/// An element of a list: a row variable used as an element is spliced.
fn elem(t: &Term, env: &[Arg]) -> Vec<Arg> {
    if let Term::Variable(v) = t
        && v.bound_if_row_var().is_some()
        && let Some(Arg::List(l)) = env.get(v.index())
    {
        return l.clone();
    }
    vec![arg(t, env)]
}
/// Polymorphic recursion can make types of any size: give up on those.
fn moderate(a: &[Arg]) -> Res<()> {
    fn t(x: &Ty, k: &mut usize) -> bool {
        if *k == 0 {
            return false;
        }
        *k -= 1;
        match x {
            Ty::Sum(v) => v.iter().flatten().all(|x| t(x, k)),
            Ty::List(x) | Ty::Arr(_, _, x) | Ty::SArr(x) => t(x, k),
            Ty::Fn(f) => f.0.iter().chain(&f.1).all(|x| t(x, k)),
            Ty::Opq(s) => {
                *k = k.saturating_sub(s.len() / 16);
                true
            }
            _ => true,
        }
    }
    fn a_(x: &Arg, k: &mut usize) -> bool {
        match x {
            Arg::Ty(x) => t(x, k),
            Arg::List(v) | Arg::Tuple(v) => v.iter().all(|x| a_(x, k)),
            _ => true,
        }
    }
    let mut k = 3000;
    if a.iter().all(|x| a_(x, &mut k)) { Ok(()) } else { Err(Stop::Fuel) }
}
pub fn ty_str(t: &Ty) -> String {
    let row = |r: &[Ty]| r.iter().map(ty_str).collect::<Vec<_>>().join(",");
    match t {
        Ty::Int(n) => format!("int{n}"),
        Ty::F64 => "f64".into(),
        Ty::Usize => "usize".into(),
        Ty::Str => "str".into(),
        Ty::Err => "err".into(),
        Ty::Sum(v) => format!("({})", v.iter().map(|r| row(r)).collect::<Vec<_>>().join("|")),
        Ty::List(t) => format!("list[{}]", ty_str(t)),
        // value arrays are lowered to arrays
        Ty::Arr(k, n, t) => format!("{}[{n};{}]", if *k == "value" { "array" } else { k }, ty_str(t)),
        Ty::SArr(t) => format!("sarr[{}]", ty_str(t)),
        Ty::Fn(f) => format!("fn({})->({})", row(&f.0), row(&f.1)),
        Ty::Opq(s) => s.to_string(),
    }
}
pub fn arg_str(a: &Arg) -> String {
    match a {
        Arg::Ty(t) => ty_str(t),
        Arg::Nat(n) => n.to_string(),
        Arg::List(l) => format!("[{}]", l.iter().map(arg_str).collect::<Vec<_>>().join(";")),
        Arg::Tuple(l) => format!("({})", l.iter().map(arg_str).collect::<Vec<_>>().join(";")),
        Arg::Lit(s) => s.clone(),
    }
}

// ---------------------------------------------------------------- values

#[derive(Clone)]
pub enum V {
    I(u64),
    F(u64),
    Str(Rc<str>),
    Sum(usize, Rc<Vec<V>>),
    Seq(Rc<Vec<V>>),
    /// borrow arrays: elements may be absent
    Bor(Rc<Vec<Option<V>>>),
    Opq(u64),
    Func(Rc<FnV>),
}
pub enum FnV {
    Defn(Rc<Prog>, usize, TArgs),
    Opaque(u64, Vec<Ty>),
}
impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&show(self))
    }
}
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        show(self) == show(o)
    }
}
pub fn show(v: &V) -> String {
    let row = |r: &[V]| r.iter().map(show).collect::<Vec<_>>().join(",");
    match v {
        V::I(n) => format!("{n}"),
        V::F(b) => format!("f{:?}", f64::from_bits(*b)),
        V::Str(s) => format!("{s:?}"),
        V::Sum(t, x) => format!("#{t}({})", row(x)),
        V::Seq(x) => format!("[{}]", row(x)),
        V::Bor(x) => format!("[{}]", x.iter().map(|e| e.as_ref().map(show).unwrap_or("-".into())).collect::<Vec<_>>().join(",")),
        V::Opq(h) => format!("@{h:x}"),
        // functions are not compared
        V::Func(_) => "fn".into(),
    }
}
pub fn vhash(v: &V) -> u64 {
    match v {
        V::I(n) => mix(1, *n),
        V::F(b) => mix(2, if f64::from_bits(*b).is_nan() { f64::NAN.to_bits() } else { *b }),
        V::Str(s) => mix(3, hash_str(s)),
        V::Sum(t, x) => x.iter().fold(mix(4, *t as u64), |h, e| mix(h, vhash(e))),
        V::Seq(x) => x.iter().fold(mix(5, x.len() as u64), |h, e| mix(h, vhash(e))),
        V::Bor(x) => x.iter().fold(mix(6, x.len() as u64), |h, e| mix(h, e.as_ref().map(vhash).unwrap_or(7))),
        V::Opq(h) => mix(8, *h),
        V::Func(_) => 9,
    }
}
pub fn f(x: f64) -> V {
    V::F(if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() })
}
pub fn boolv(b: bool) -> V {
    V::Sum(b as usize, Rc::new(vec![]))
}
pub fn tuple(v: Vec<V>) -> V {
    V::Sum(0, Rc::new(v))
}
pub const ERRV: V = V::Opq(0xE44);

/// A value of a type, determined by a hash. `None` when the type is empty.
pub fn value_from_hash(t: &Ty, h: u64) -> Option<V> {
    value_of(t, h, 0)
}
fn value_of(t: &Ty, h: u64, d: u32) -> Option<V> {
    if d > 12 {
        return None;
    }
    let r = |i: u64| mix(h, i + 1);
    Some(match t {
        Ty::Int(n) => V::I(r(0) & mask(*n)),
        Ty::F64 => match r(1) % 8 {
            0 => f(0.0),
            1 => f(-0.0),
            2 => f(1.0),
            3 => f((r(2) % 1000) as f64 - 500.0),
            4 => f((r(2) as i64) as f64 / 1e9),
            _ => f(((r(2) % 100000) as f64 - 50000.0) / 7.0),
        },
        Ty::Usize => V::I(r(0) % 6),
        Ty::Str => V::Str(format!("s{:x}", r(0) & 0xfff).into()),
        Ty::Err => ERRV,
        Ty::Sum(vs) => {
            if vs.is_empty() {
                return None;
            }
            let k = (r(0) % vs.len() as u64) as usize;
            for j in 0..vs.len() {
                let tag = (k + j) % vs.len();
                let xs: Option<Vec<V>> = vs[tag].iter().enumerate().map(|(i, t)| value_of(t, r(10 + i as u64), d + 1)).collect();
                if let Some(xs) = xs {
                    return Some(V::Sum(tag, Rc::new(xs)));
                }
            }
            return None;
        }
        Ty::List(t) | Ty::SArr(t) => {
            let n = r(0) % 4;
            let mut v = vec![];
            for i in 0..n {
                match value_of(t, r(10 + i), d + 1) {
                    Some(x) => v.push(x),
                    None => break,
                }
            }
            V::Seq(Rc::new(v))
        }
        Ty::Arr(k, n, t) => {
            if *n > 64 {
                return Some(V::Opq(h));
            }
            let mut v = vec![];
            for i in 0..*n {
                v.push(value_of(t, r(10 + i), d + 1)?);
            }
            if *k == "borrow" { V::Bor(Rc::new(v.into_iter().map(Some).collect())) } else { V::Seq(Rc::new(v)) }
        }
        Ty::Fn(f) => V::Func(Rc::new(FnV::Opaque(h, f.1.clone()))),
        Ty::Opq(_) => V::Opq(h),
    })
}
pub fn width(n: u8) -> u32 {
    1u32 << n
}
pub fn mask(n: u8) -> u64 {
    if n >= 6 { u64::MAX } else { (1u64 << width(n)) - 1 }
}
pub fn signed(n: u8, v: u64) -> i128 {
    let w = width(n);
    let v = (v & mask(n)) as i128;
    if v >> (w - 1) & 1 == 1 { v - (1i128 << w) } else { v }
}
fn wrap(n: u8, v: i128) -> u64 {
    (v as u128 & mask(n) as u128) as u64
}

// ---------------------------------------------------------------- programs

pub struct Prog {
    pub g: G,
    /// Evaluation order of the children of each dataflow region.
    order: Vec<Option<Vec<usize>>>,
    /// Among unrelated nodes, the last child goes first.
    last_first: bool,
    consts: std::cell::RefCell<HashMap<usize, Rc<Prog>>>,
}
impl Prog {
    pub fn new(h: &Hugr) -> Rc<Prog> {
        Self::scheduled(h, false)
    }
    pub fn scheduled(h: &Hugr, last_first: bool) -> Rc<Prog> {
        let g = G::of(h);
        let mut order = vec![None; g.nodes.len()];
        for i in 0..g.nodes.len() {
            if matches!(
                g.ops[i],
                OpType::FuncDefn(_) | OpType::DFG(_) | OpType::Case(_) | OpType::TailLoop(_) | OpType::DataflowBlock(_)
            ) {
                order[i] = Some(topo(&g, i, last_first));
            }
        }
        Rc::new(Prog { g, order, last_first, consts: Default::default() })
    }
    /// Whether the order of all effects is fixed by edges: in every region the
    /// children that may have effects form a chain.
    pub fn one_schedule(&self) -> bool {
        let g = &self.g;
        let n = g.nodes.len();
        let mut eff = vec![false; n];
        loop {
            let mut changed = false;
            for i in (0..n).rev() {
                if eff[i] {
                    continue;
                }
                let e = match &g.ops[i] {
                    OpType::Call(_) => g.nodes[i].ins.iter().flatten().any(|(s, _)| {
                        matches!(g.ops[*s], OpType::FuncDefn(_)) && eff[*s]
                    }),
                    OpType::CallIndirect(_) => true,
                    OpType::ExtensionOp(x) => {
                        let m = x.def().name();
                        m == "eff" || m.starts_with("eff_") || m == "scan" || m == "repeat"
                    }
                    OpType::OpaqueOp(_) => true,
                    OpType::Module(_) => false,
                    _ => g.nodes[i].children.iter().any(|c| eff[*c]),
                };
                if e {
                    eff[i] = true;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        (0..n).all(|i| {
            let Some(order) = &self.order[i] else { return true };
            let es: Vec<usize> = order.iter().copied().filter(|c| eff[*c]).collect();
            if es.len() < 2 {
                return true;
            }
            let (_, succ, _) = edges(g, i);
            let ch = &g.nodes[i].children;
            let pos: HashMap<usize, usize> = ch.iter().enumerate().map(|(i, c)| (*c, i)).collect();
            es.windows(2).all(|w| {
                let (a, b) = (pos[&w[0]], pos[&w[1]]);
                let mut seen = vec![false; ch.len()];
                let mut st = vec![a];
                while let Some(x) = st.pop() {
                    if x == b {
                        return true;
                    }
                    for s in &succ[x] {
                        if !seen[*s] {
                            seen[*s] = true;
                            st.push(*s);
                        }
                    }
                }
                false
            })
        })
    }
    pub fn find_func(&self, name: &str) -> Option<usize> {
        self.g.nodes[0].children.iter().copied().find(|c| match &self.g.ops[*c] {
            OpType::FuncDefn(f) => f.func_name() == name,
            _ => false,
        })
    }
    pub fn ix(&self, n: Node) -> usize {
        self.g.ix(n)
    }
}
/// Topological order of the children of `region` by value and order edges,
/// counting an edge into a nested node as an edge into its ancestor here.
fn topo(g: &G, region: usize, last_first: bool) -> Vec<usize> {
    let (ch, succ, mut indeg) = edges(g, region);
    let key = |i: usize| if last_first { ch.len() - 1 - i } else { i };
    let mut ready: std::collections::BinaryHeap<std::cmp::Reverse<usize>> =
        (0..ch.len()).filter(|i| indeg[*i] == 0).map(|i| std::cmp::Reverse(key(i))).collect();
    let mut out = vec![];
    while let Some(std::cmp::Reverse(k)) = ready.pop() {
        let i = key(k);
        out.push(ch[i]);
        for s in &succ[i] {
            indeg[*s] -= 1;
            if indeg[*s] == 0 {
                ready.push(std::cmp::Reverse(key(*s)));
            }
        }
    }
    out
}
/// The children of a region, their successors among themselves, in-degrees.
fn edges(g: &G, region: usize) -> (&Vec<usize>, Vec<Vec<usize>>, Vec<usize>) {
    let ch = &g.nodes[region].children;
    let pos: HashMap<usize, usize> = ch.iter().enumerate().map(|(i, c)| (*c, i)).collect();
    let mut succ: Vec<Vec<usize>> = vec![vec![]; ch.len()];
    let mut indeg = vec![0usize; ch.len()];
    for (i, c) in ch.iter().enumerate() {
        for l in &g.nodes[*c].outs {
            for (t, _) in l {
                // lift the target to a child of this region
                let mut x = *t;
                loop {
                    if let Some(p) = pos.get(&x) {
                        if *p != i {
                            succ[i].push(*p);
                            indeg[*p] += 1;
                        }
                        break;
                    }
                    match g.nodes[x].parent {
                        Some(p) => x = p,
                        None => break,
                    }
                }
            }
        }
    }
    (ch, succ, indeg)
}

// ---------------------------------------------------------------- evaluation

#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    /// The program panics (or exits).
    Panic(String),
    Fuel,
    /// The evaluator met something it gives no meaning to.
    Stuck(String),
}
pub type Res<T> = Result<T, Stop>;

#[derive(Default)]
pub struct Record {
    /// Values seen on each output port, per node.
    pub values: HashMap<(Node, usize), Vec<V>>,
    pub executed: std::collections::HashSet<Node>,
    /// Inputs seen by each container region's Input node etc. are in `values`.
    pub loop_iters: HashMap<Node, u64>,
    /// Loops that began another iteration, and that ended.
    pub continued: std::collections::HashSet<Node>,
    pub ended: std::collections::HashSet<Node>,
}

pub struct Interp {
    pub fuel: u64,
    pub trace: Vec<u64>,
    pub record: Option<Record>,
    /// Additional meanings for opaque operations, tried first.
    pub hook: Option<fn(&str, &str, &[Arg], &[V]) -> Option<Vec<V>>>,
    depth: u32,
    /// function-const progs are evaluated with no recording
    main_prog: Option<*const Prog>,
}
type Env = HashMap<usize, Vec<V>>;

impl Interp {
    pub fn new(fuel: u64) -> Self {
        Interp { fuel, trace: vec![], record: None, hook: None, depth: 0, main_prog: None }
    }
    pub fn recording(fuel: u64) -> Self {
        let mut i = Self::new(fuel);
        i.record = Some(Record::default());
        i
    }
    fn tick(&mut self) -> Res<()> {
        if self.fuel == 0 {
            return Err(Stop::Fuel);
        }
        self.fuel -= 1;
        Ok(())
    }
    pub fn run(&mut self, p: &Rc<Prog>, func: usize, args: Vec<V>) -> Res<Vec<V>> {
        self.main_prog = Some(Rc::as_ptr(p));
        self.call(p, func, Rc::new(vec![]), args)
    }
    pub fn run_with(&mut self, p: &Rc<Prog>, func: usize, targs: Vec<Arg>, args: Vec<V>) -> Res<Vec<V>> {
        self.main_prog = Some(Rc::as_ptr(p));
        self.call(p, func, Rc::new(targs), args)
    }
    /// Runs a dataflow container (DFG, function, CFG, ...) standing alone.
    pub fn run_node(&mut self, p: &Rc<Prog>, node: usize, args: Vec<V>) -> Res<Vec<V>> {
        self.main_prog = Some(Rc::as_ptr(p));
        let mut env = Env::new();
        match &p.g.ops[node] {
            OpType::FuncDefn(_) => self.call(p, node, Rc::new(vec![]), args),
            _ => self.exec(p, node, args, &mut env, &Rc::new(vec![])),
        }
    }
    fn rec_exec(&mut self, p: &Rc<Prog>, n: usize) {
        if self.main_prog == Some(Rc::as_ptr(p))
            && let Some(r) = &mut self.record
        {
            r.executed.insert(p.g.nodes[n].node);
        }
    }
    fn rec_vals(&mut self, p: &Rc<Prog>, n: usize, vs: &[V]) {
        if self.main_prog == Some(Rc::as_ptr(p))
            && let Some(r) = &mut self.record
        {
            let node = p.g.nodes[n].node;
            for (i, v) in vs.iter().enumerate() {
                let e = r.values.entry((node, i)).or_default();
                if e.len() < 64 && !e.contains(v) {
                    e.push(v.clone());
                }
            }
        }
    }
    pub fn call(&mut self, p: &Rc<Prog>, func: usize, targs: TArgs, args: Vec<V>) -> Res<Vec<V>> {
        self.tick()?;
        if self.depth > 200 {
            return Err(Stop::Fuel);
        }
        match &p.g.ops[func] {
            OpType::FuncDefn(_) => {
                self.rec_exec(p, func);
                self.depth += 1;
                let mut env = Env::new();
                let r = self.region(p, func, args, &mut env, &targs);
                self.depth -= 1;
                r
            }
            OpType::FuncDecl(d) => {
                let mut h = hash_str(d.func_name());
                for a in targs.iter() {
                    h = mix(h, hash_str(&arg_str(a)));
                }
                for a in &args {
                    h = mix(h, vhash(a));
                }
                let outs = d.signature().body().output();
                outs.iter()
                    .enumerate()
                    .map(|(i, t)| {
                        value_from_hash(&ty(t, &targs), mix(h, i as u64)).ok_or_else(|| Stop::Panic("empty type".into()))
                    })
                    .collect()
            }
            o => Err(Stop::Stuck(format!("call of {o:?}"))),
        }
    }
    /// Evaluates the dataflow region under `parent`, giving its outputs.
    fn region(&mut self, p: &Rc<Prog>, parent: usize, args: Vec<V>, env: &mut Env, targs: &TArgs) -> Res<Vec<V>> {
        let Some(order) = &p.order[parent] else { return Err(Stop::Stuck("not a dataflow region".into())) };
        if order.len() != p.g.nodes[parent].children.len() {
            return Err(Stop::Stuck("cyclic region".into()));
        }
        let mut result = None;
        let mut args = Some(args);
        for &n in order {
            self.tick()?;
            match &p.g.ops[n] {
                OpType::Input(i) => {
                    self.rec_exec(p, n);
                    let a = args.take().ok_or_else(|| Stop::Stuck("two inputs".into()))?;
                    if a.len() != i.types.len() {
                        return Err(Stop::Stuck(format!("region takes {} values, got {}", i.types.len(), a.len())));
                    }
                    self.rec_vals(p, n, &a);
                    env.insert(n, a);
                }
                OpType::Output(o) => {
                    self.rec_exec(p, n);
                    let k = o.types.len();
                    result = Some(self.inputs(p, n, k, env)?);
                }
                OpType::Const(_) => {}
                op => {
                    let k = value_inputs(op);
                    let ins = self.inputs(p, n, k, env)?;
                    self.rec_exec(p, n);
                    let outs = self.exec(p, n, ins, env, targs)?;
                    self.rec_vals(p, n, &outs);
                    env.insert(n, outs);
                }
            }
        }
        result.ok_or_else(|| Stop::Stuck("no output".into()))
    }
    fn inputs(&self, p: &Rc<Prog>, n: usize, k: usize, env: &Env) -> Res<Vec<V>> {
        (0..k)
            .map(|i| {
                let l = p.g.nodes[n].ins.get(i).map(|v| &v[..]).unwrap_or(&[]);
                let [(m, q)] = l else {
                    return Err(Stop::Stuck(format!("input {i} of {} has {} links", p.g.nodes[n].node, l.len())));
                };
                env.get(m)
                    .and_then(|v| v.get(*q))
                    .cloned()
                    .ok_or_else(|| Stop::Stuck(format!("input {i} of {} ({}) has no value", p.g.nodes[n].node, canon::op(&p.g.ops[n], false))))
            })
            .collect()
    }
    fn static_src(&self, p: &Rc<Prog>, n: usize, port: usize) -> Res<usize> {
        match p.g.nodes[n].ins.get(port).map(|v| &v[..]) {
            Some([(m, _)]) => Ok(*m),
            _ => Err(Stop::Stuck(format!("static input of {}", p.g.nodes[n].node))),
        }
    }
    fn exec(&mut self, p: &Rc<Prog>, n: usize, ins: Vec<V>, env: &mut Env, targs: &TArgs) -> Res<Vec<V>> {
        match &p.g.ops[n] {
            OpType::DFG(_) => self.region(p, n, ins, env, targs),
            OpType::Conditional(c) => {
                let mut it = ins.into_iter();
                let Some(V::Sum(tag, fields)) = it.next() else { return Err(Stop::Stuck("condition".into())) };
                if tag >= c.sum_rows.len() {
                    return Err(Stop::Stuck("tag".into()));
                }
                let mut a: Vec<V> = fields.to_vec();
                a.extend(it);
                let cases: Vec<usize> =
                    p.g.nodes[n].children.iter().copied().filter(|c| matches!(p.g.ops[*c], OpType::Case(_))).collect();
                let Some(&case) = cases.get(tag) else { return Err(Stop::Stuck("no such case".into())) };
                self.rec_exec(p, case);
                self.region(p, case, a, env, targs)
            }
            OpType::TailLoop(_) => {
                let mut a = ins;
                loop {
                    self.tick()?;
                    if self.main_prog == Some(Rc::as_ptr(p))
                        && let Some(r) = &mut self.record
                    {
                        *r.loop_iters.entry(p.g.nodes[n].node).or_default() += 1;
                    }
                    let out = self.region(p, n, a, env, targs)?;
                    let mut it = out.into_iter();
                    let Some(V::Sum(tag, fields)) = it.next() else { return Err(Stop::Stuck("loop predicate".into())) };
                    let mut next: Vec<V> = fields.to_vec();
                    next.extend(it);
                    if self.main_prog == Some(Rc::as_ptr(p))
                        && let Some(r) = &mut self.record
                    {
                        let n = p.g.nodes[n].node;
                        if tag == 1 { r.ended.insert(n) } else { r.continued.insert(n) };
                    }
                    if tag == 1 {
                        return Ok(next);
                    }
                    a = next;
                }
            }
            OpType::CFG(_) => {
                let mut b = *p.g.nodes[n].children.first().ok_or_else(|| Stop::Stuck("empty cfg".into()))?;
                let mut a = ins;
                loop {
                    self.tick()?;
                    self.rec_exec(p, b);
                    match &p.g.ops[b] {
                        OpType::ExitBlock(_) => {
                            return Ok(a);
                        }
                        OpType::DataflowBlock(_) => {
                            let out = self.region(p, b, a, env, targs)?;
                            let mut it = out.into_iter();
                            let Some(V::Sum(tag, fields)) = it.next() else { return Err(Stop::Stuck("branch".into())) };
                            let mut next: Vec<V> = fields.to_vec();
                            next.extend(it);
                            a = next;
                            b = match p.g.nodes[b].outs.get(tag).map(|v| &v[..]) {
                                Some([(m, _)]) => *m,
                                _ => return Err(Stop::Stuck("successor".into())),
                            };
                        }
                        o => return Err(Stop::Stuck(format!("block {o:?}"))),
                    }
                }
            }
            OpType::Call(c) => {
                let f = self.static_src(p, n, c.instantiation.input_count())?;
                let ta: Vec<Arg> = c.type_args.iter().map(|a| arg(a, targs)).collect();
                moderate(&ta)?;
                self.call(p, f, Rc::new(ta), ins)
            }
            OpType::LoadFunction(l) => {
                let f = self.static_src(p, n, 0)?;
                let ta: Vec<Arg> = l.type_args.iter().map(|a| arg(a, targs)).collect();
                moderate(&ta)?;
                Ok(vec![V::Func(Rc::new(FnV::Defn(p.clone(), f, Rc::new(ta))))])
            }
            OpType::LoadConstant(_) => {
                let c = self.static_src(p, n, 0)?;
                let OpType::Const(k) = &p.g.ops[c] else { return Err(Stop::Stuck("const".into())) };
                Ok(vec![self.const_value(p, c, k.value())?])
            }
            OpType::CallIndirect(_) => {
                let mut it = ins.into_iter();
                let Some(V::Func(fv)) = it.next() else { return Err(Stop::Stuck("callee".into())) };
                self.apply(&fv, it.collect())
            }
            OpType::Tag(t) => Ok(vec![V::Sum(t.tag, Rc::new(ins))]),
            OpType::ExtensionOp(e) => {
                let sig = hugr::ops::dataflow::DataflowOpTrait::signature(e);
                let a: Vec<Arg> = e.args().iter().map(|x| arg(x, targs)).collect();
                self.ext(e.def().extension_id(), e.def().name(), &a, ins, sig.output(), targs)
            }
            OpType::OpaqueOp(e) => {
                let sig = hugr::ops::dataflow::DataflowOpTrait::signature(e);
                let a: Vec<Arg> = e.args().iter().map(|x| arg(x, targs)).collect();
                self.ext(e.extension(), e.unqualified_id(), &a, ins, sig.output(), targs)
            }
            o => Err(Stop::Stuck(format!("cannot execute {o:?}"))),
        }
    }
    pub fn apply(&mut self, fv: &FnV, args: Vec<V>) -> Res<Vec<V>> {
        match fv {
            FnV::Defn(q, f, ta) => match &q.g.ops[*f] {
                OpType::FuncDefn(_) | OpType::FuncDecl(_) => self.call(q, *f, ta.clone(), args),
                _ => {
                    // a function constant whose entrypoint is a dataflow container
                    self.tick()?;
                    if self.depth > 200 {
                        return Err(Stop::Fuel);
                    }
                    self.depth += 1;
                    let mut env = Env::new();
                    let r = self.exec(q, *f, args, &mut env, ta);
                    self.depth -= 1;
                    r
                }
            },
            FnV::Opaque(h, outs) => {
                let mut h = *h;
                for a in &args {
                    h = mix(h, vhash(a));
                }
                outs.iter()
                    .enumerate()
                    .map(|(i, t)| value_from_hash(t, mix(h, i as u64)).ok_or_else(|| Stop::Panic("empty type".into())))
                    .collect()
            }
        }
    }
    pub fn const_value(&mut self, p: &Rc<Prog>, node: usize, v: &Value) -> Res<V> {
        const_to_v(v, &mut |h: &Hugr| {
            // one prog per constant node is enough: nested ones are rebuilt
            let _ = node;
            let key = h as *const Hugr as usize;
            let mut c = p.consts.borrow_mut();
            c.entry(key).or_insert_with(|| Prog::scheduled(h, p.last_first)).clone()
        })
    }
    fn ext(&mut self, e: &str, name: &str, a: &[Arg], ins: Vec<V>, outs: &TypeRow, targs: &TArgs) -> Res<Vec<V>> {
        if let Some(h) = self.hook
            && let Some(r) = h(e, name, a, &ins)
        {
            return Ok(r);
        }
        let (e, name) = if e == "vtest.low" {
            match name.split('_').next().unwrap() {
                "copy" | "copyn" | "disc" => return Ok(vec![ins[0].clone(); outs.len()]),
                n => ("vtest", n),
            }
        } else {
            (e, name)
        };
        if e == "vtest" && name == "eff" {
            let mut h = hash_str(&a.iter().map(arg_str).collect::<Vec<_>>().join(";"));
            for v in &ins {
                h = mix(h, vhash(v));
            }
            self.trace.push(h);
        }
        if matches!(name, "scan" | "scan_impl") && e.starts_with("collections.") {
            return self.scan(a, ins);
        }
        if name == "repeat"
            && e.starts_with("collections.")
            && let ([Arg::Nat(n), _], [V::Func(fv)]) = (a, &ins[..])
        {
            let mut v = vec![];
            for _ in 0..*n {
                v.extend(self.apply(fv, vec![])?);
            }
            return Ok(vec![if e == "collections.borrow_arr" { V::Bor(Rc::new(v.into_iter().map(Some).collect())) } else { V::Seq(Rc::new(v)) }]);
        }
        match std_op(e, name, a, &ins) {
            StdRes::Vals(v) => Ok(v),
            StdRes::Panic(s) => Err(Stop::Panic(s)),
            StdRes::Open => Err(Stop::Fuel),
            StdRes::Unknown => {
                let mut h = mix(hash_str(e), hash_str(name));
                for x in a {
                    h = mix(h, hash_str(&arg_str(x)));
                }
                for v in &ins {
                    h = mix(h, vhash(v));
                }
                outs.iter()
                    .enumerate()
                    .map(|(i, t)| {
                        value_from_hash(&ty(t, targs), mix(h, i as u64)).ok_or_else(|| Stop::Panic("empty type".into()))
                    })
                    .collect()
            }
        }
    }
    fn scan(&mut self, _a: &[Arg], ins: Vec<V>) -> Res<Vec<V>> {
        let mut it = ins.into_iter();
        let arr = it.next();
        let Some(V::Func(fv)) = it.next() else { return Err(Stop::Stuck("scan".into())) };
        let mut acc: Vec<V> = it.collect();
        let (elems, bor) = match arr {
            Some(V::Seq(v)) => (v.to_vec(), false),
            Some(V::Bor(v)) => {
                let mut o = vec![];
                for x in v.iter() {
                    match x {
                        Some(x) => o.push(x.clone()),
                        None => return Err(Stop::Panic("scan of borrowed".into())),
                    }
                }
                (o, true)
            }
            _ => return Err(Stop::Stuck("scan".into())),
        };
        let mut out = vec![];
        for e in elems {
            let mut args = vec![e];
            args.extend(acc);
            let r = self.apply(&fv, args)?;
            let mut r = r.into_iter();
            out.push(r.next().ok_or_else(|| Stop::Stuck("scan fn".into()))?);
            acc = r.collect();
        }
        let arr = if bor { V::Bor(Rc::new(out.into_iter().map(Some).collect())) } else { V::Seq(Rc::new(out)) };
        let mut res = vec![arr];
        res.extend(acc);
        Ok(res)
    }
}

fn value_inputs(op: &OpType) -> usize {
    op.dataflow_signature().map(|s| s.input_count()).unwrap_or(0)
}

/// The meaning of a constant; `None` for function constants unless `mk` is used.
pub fn const_to_v(v: &Value, mk: &mut dyn FnMut(&Hugr) -> Rc<Prog>) -> Res<V> {
    Ok(match v {
        Value::Sum(s) => {
            let xs: Res<Vec<V>> = s.values.iter().map(|x| const_to_v(x, mk)).collect();
            V::Sum(s.tag, Rc::new(xs?))
        }
        Value::Function { hugr } => {
            let p = mk(hugr);
            let ix = p.ix(hugr.entrypoint());
            V::Func(Rc::new(FnV::Defn(p, ix, Rc::new(vec![]))))
        }
        Value::Extension { e } => {
            use hugr::std_extensions::arithmetic::{float_types::ConstF64, int_types::ConstInt};
            use hugr::extension::prelude::{ConstError, ConstString, ConstUsize};
            use hugr::std_extensions::collections::{
                array::ArrayValue, borrow_array::BArrayValue, list::ListValue, static_array::StaticArrayValue, value_array::VArrayValue,
            };
            if let Some(c) = v.get_custom_value::<ConstInt>() {
                V::I(c.value_u() & mask(c.log_width()))
            } else if let Some(c) = v.get_custom_value::<ConstF64>() {
                f(c.value())
            } else if let Some(c) = v.get_custom_value::<ConstUsize>() {
                V::I(c.value())
            } else if let Some(c) = v.get_custom_value::<ConstString>() {
                V::Str(c.value().into())
            } else if v.get_custom_value::<ConstError>().is_some() {
                ERRV
            } else if let Some(c) = v.get_custom_value::<ListValue>() {
                V::Seq(Rc::new(c.get_contents().iter().map(|x| const_to_v(x, mk)).collect::<Res<Vec<V>>>()?))
            } else if let Some(c) = v.get_custom_value::<ArrayValue>() {
                V::Seq(Rc::new(c.get_contents().iter().map(|x| const_to_v(x, mk)).collect::<Res<Vec<V>>>()?))
            } else if let Some(c) = v.get_custom_value::<VArrayValue>() {
                V::Seq(Rc::new(c.get_contents().iter().map(|x| const_to_v(x, mk)).collect::<Res<Vec<V>>>()?))
            } else if let Some(c) = v.get_custom_value::<BArrayValue>() {
                V::Bor(Rc::new(c.get_contents().iter().map(|x| const_to_v(x, mk).map(Some)).collect::<Res<Vec<_>>>()?))
            } else if let Some(c) = v.get_custom_value::<StaticArrayValue>() {
                V::Seq(Rc::new(c.get_contents().iter().map(|x| const_to_v(x, mk)).collect::<Res<Vec<V>>>()?))
            } else {
                // an opaque constant: its serialised content determines it
                let _ = e;
                V::Opq(hash_str(&canon::value(v).replace("vtest.low.L", "vtest.T").replace("vtest.low.C", "vtest.T").replace('^', "")))
            }
        }
    })
}

pub enum StdRes {
    Vals(Vec<V>),
    Panic(String),
    /// The specification leaves the result open.
    Open,
    Unknown,
}
fn ok1(v: V) -> StdRes {
    StdRes::Vals(vec![v])
}
fn oks(v: Vec<V>) -> V {
    V::Sum(1, Rc::new(v))
}
fn err1() -> V {
    V::Sum(0, Rc::new(vec![ERRV]))
}

/// Standard operations, from the specification's tables.
pub fn std_op(e: &str, name: &str, a: &[Arg], ins: &[V]) -> StdRes {
    use StdRes::*;
    match e {
        "arithmetic.int" => int_op(name, a, ins),
        "arithmetic.float" => float_op(name, ins),
        "arithmetic.conversions" => conv_op(name, a, ins),
        "logic" => {
            let b: Option<Vec<bool>> = ins.iter().map(|v| if let V::Sum(t, _) = v { Some(*t == 1) } else { None }).collect();
            let Some(b) = b else { return Unknown };
            match (name, &b[..]) {
                ("And", [x, y]) => ok1(boolv(*x && *y)),
                ("Or", [x, y]) => ok1(boolv(*x || *y)),
                ("Xor", [x, y]) => ok1(boolv(*x != *y)),
                ("Eq", [x, y]) => ok1(boolv(*x == *y)),
                ("Not", [x]) => ok1(boolv(!*x)),
                _ => Unknown,
            }
        }
        "prelude" => match name {
            "MakeTuple" => ok1(tuple(ins.to_vec())),
            "UnpackTuple" => match ins {
                [V::Sum(0, x)] => Vals(x.to_vec()),
                _ => Unknown,
            },
            "Noop" | "Barrier" => Vals(ins.to_vec()),
            "panic" | "exit" => Panic(name.to_string()),
            "print" => Vals(vec![]),
            "load_nat" => match a {
                [Arg::Nat(n)] => ok1(V::I(*n)),
                _ => Unknown,
            },
            "MakeError" => ok1(ERRV),
            _ => Unknown,
        },
        "collections.list" => list_op(name, ins),
        "collections.static_array" => match (name, ins) {
            ("get", [V::Seq(v), V::I(i)]) => ok1(match v.get(*i as usize) {
                Some(x) => oks(vec![x.clone()]),
                None => V::Sum(0, Rc::new(vec![])),
            }),
            ("len", [V::Seq(v)]) => ok1(V::I(v.len() as u64)),
            _ => Unknown,
        },
        "collections.array" | "collections.value_array" => array_op(name, a, ins),
        "collections.borrow_arr" => borrow_op(name, a, ins),
        _ => Unknown,
    }
}
fn nat(a: &[Arg], i: usize) -> Option<u8> {
    match a.get(i) {
        Some(Arg::Nat(n)) if *n <= 6 => Some(*n as u8),
        _ => None,
    }
}
fn int_op(name: &str, a: &[Arg], ins: &[V]) -> StdRes {
    use StdRes::*;
    let xs: Option<Vec<u64>> = ins.iter().map(|v| if let V::I(n) = v { Some(*n) } else { None }).collect();
    let (Some(xs), Some(n)) = (xs, nat(a, 0)) else { return Unknown };
    let w = width(n) as u64;
    let m = mask(n);
    let i = |v: u64| ok1(V::I(v & m));
    let s = |v: u64| signed(n, v);
    match (name, &xs[..]) {
        ("iwiden_u", [x]) => ok1(V::I(*x)),
        ("iwiden_s", [x]) => match nat(a, 1) {
            Some(k) => ok1(V::I(wrap(k, s(*x)))),
            None => Unknown,
        },
        ("inarrow_u", [x]) => match nat(a, 1) {
            Some(k) => ok1(if *x <= mask(k) { oks(vec![V::I(*x)]) } else { err1() }),
            None => Unknown,
        },
        ("inarrow_s", [x]) => match nat(a, 1) {
            Some(k) => {
                let v = s(*x);
                let h = 1i128 << (width(k) - 1);
                ok1(if v >= -h && v < h { oks(vec![V::I(wrap(k, v))]) } else { err1() })
            }
            None => Unknown,
        },
        ("ieq", [x, y]) => ok1(boolv(x == y)),
        ("ine", [x, y]) => ok1(boolv(x != y)),
        ("ilt_u", [x, y]) => ok1(boolv(x < y)),
        ("igt_u", [x, y]) => ok1(boolv(x > y)),
        ("ile_u", [x, y]) => ok1(boolv(x <= y)),
        ("ige_u", [x, y]) => ok1(boolv(x >= y)),
        ("ilt_s", [x, y]) => ok1(boolv(s(*x) < s(*y))),
        ("igt_s", [x, y]) => ok1(boolv(s(*x) > s(*y))),
        ("ile_s", [x, y]) => ok1(boolv(s(*x) <= s(*y))),
        ("ige_s", [x, y]) => ok1(boolv(s(*x) >= s(*y))),
        ("imax_u", [x, y]) => i(*x.max(y)),
        ("imin_u", [x, y]) => i(*x.min(y)),
        ("imax_s", [x, y]) => i(if s(*x) >= s(*y) { *x } else { *y }),
        ("imin_s", [x, y]) => i(if s(*x) <= s(*y) { *x } else { *y }),
        ("iadd", [x, y]) => i(x.wrapping_add(*y)),
        ("isub", [x, y]) => i(x.wrapping_sub(*y)),
        ("imul", [x, y]) => i(x.wrapping_mul(*y)),
        ("ineg", [x]) => i(x.wrapping_neg()),
        ("iabs", [x]) => i(wrap(n, s(*x).abs())),
        ("iand", [x, y]) => i(x & y),
        ("ior", [x, y]) => i(x | y),
        ("ixor", [x, y]) => i(x ^ y),
        ("inot", [x]) => i(!x),
        ("ipow", [x, y]) => {
            let (mut b, mut e, mut r) = (*x, *y, 1u64);
            while e > 0 {
                if e & 1 == 1 {
                    r = r.wrapping_mul(b);
                }
                b = b.wrapping_mul(b);
                e >>= 1;
            }
            i(r)
        }
        ("ishl", [x, k]) => i(if *k >= w { 0 } else { x << k }),
        ("ishr", [x, k]) => i(if *k >= w { 0 } else { (x & m) >> k }),
        ("irotl", [x, k]) => {
            let k = k % w;
            i(if k == 0 { *x } else { (x << k) | ((x & m) >> (w - k)) })
        }
        ("irotr", [x, k]) => {
            let k = k % w;
            i(if k == 0 { *x } else { ((x & m) >> k) | (x << (w - k)) })
        }
        ("iu_to_s" | "is_to_u", [x]) => {
            // identity on the values both interpretations share; otherwise not defined
            if s(*x) >= 0 { i(*x) } else { Panic(name.into()) }
        }
        (_, [x, y]) if name.starts_with("idiv") || name.starts_with("imod") => {
            let sgn = name.ends_with("_s");
            let checked = name.contains("_checked");
            if *y == 0 {
                return if checked { ok1(err1()) } else { Panic("division by zero".into()) };
            }
            let (nn, mm) = (if sgn { s(*x) } else { *x as i128 }, *y as i128);
            let (q, r) = (nn.div_euclid(mm), nn.rem_euclid(mm));
            let (q, r) = (V::I(wrap(n, q)), V::I(wrap(n, r)));
            let base = name.trim_end_matches("_s").trim_end_matches("_u").trim_end_matches("_checked");
            let vals = match base {
                "idivmod" => {
                    if checked {
                        return ok1(oks(vec![tuple(vec![q, r])]));
                    }
                    vec![q, r]
                }
                "idiv" => vec![q],
                "imod" => vec![r],
                _ => return Unknown,
            };
            if checked { ok1(oks(vals)) } else { Vals(vals) }
        }
        _ => Unknown,
    }
}
fn float_op(name: &str, ins: &[V]) -> StdRes {
    let xs: Option<Vec<f64>> = ins.iter().map(|v| if let V::F(n) = v { Some(f64::from_bits(*n)) } else { None }).collect();
    let Some(xs) = xs else { return StdRes::Unknown };
    match (name, &xs[..]) {
        ("feq", [x, y]) => ok1(boolv(x == y)),
        ("fne", [x, y]) => ok1(boolv(x != y)),
        ("flt", [x, y]) => ok1(boolv(x < y)),
        ("fgt", [x, y]) => ok1(boolv(x > y)),
        ("fle", [x, y]) => ok1(boolv(x <= y)),
        ("fge", [x, y]) => ok1(boolv(x >= y)),
        ("fmax" | "fmin", [x, y]) if *x == 0.0 && *y == 0.0 && x.to_bits() != y.to_bits() => StdRes::Open,
        ("fmax", [x, y]) => ok1(f(if x.is_nan() || y.is_nan() { f64::NAN } else if x > y || (x == y && x.is_sign_positive()) { *x } else { *y })),
        ("fmin", [x, y]) => ok1(f(if x.is_nan() || y.is_nan() { f64::NAN } else if x < y || (x == y && x.is_sign_negative()) { *x } else { *y })),
        ("fadd", [x, y]) => ok1(f(x + y)),
        ("fsub", [x, y]) => ok1(f(x - y)),
        ("fmul", [x, y]) => ok1(f(x * y)),
        ("fdiv", [x, y]) => ok1(f(x / y)),
        ("fpow", [x, y]) => ok1(f(x.powf(*y))),
        ("fneg", [x]) => ok1(f(-x)),
        ("fabs", [x]) => ok1(f(x.abs())),
        ("ffloor", [x]) => ok1(f(x.floor())),
        ("fceil", [x]) => ok1(f(x.ceil())),
        ("fround", [x]) => ok1(f(x.round())),
        ("ftostring", [x]) => ok1(V::Str(x.to_string().into())),
        _ => StdRes::Unknown,
    }
}
fn conv_op(name: &str, a: &[Arg], ins: &[V]) -> StdRes {
    use StdRes::*;
    match (name, ins) {
        ("trunc_u" | "trunc_s", [V::F(b)]) => {
            let Some(n) = nat(a, 0) else { return Unknown };
            let x = f64::from_bits(*b);
            if !x.is_finite() {
                return ok1(err1());
            }
            let t = x.trunc();
            let w = width(n) as i32;
            let (lo, hi) = if name == "trunc_u" { (0.0, 2f64.powi(w)) } else { (-(2f64.powi(w - 1)), 2f64.powi(w - 1)) };
            if t >= lo && t < hi { ok1(oks(vec![V::I(wrap(n, t as i128))])) } else { ok1(err1()) }
        }
        ("convert_u", [V::I(x)]) => ok1(f(*x as f64)),
        ("convert_s", [V::I(x)]) => match nat(a, 0) {
            Some(n) => ok1(f(signed(n, *x) as f64)),
            None => Unknown,
        },
        ("itobool", [V::I(x)]) => ok1(boolv(*x == 1)),
        ("ifrombool", [V::Sum(t, _)]) => ok1(V::I(*t as u64)),
        ("itostring_u", [V::I(x)]) => ok1(V::Str(x.to_string().into())),
        ("itostring_s", [V::I(x)]) => match nat(a, 0) {
            Some(n) => ok1(V::Str(signed(n, *x).to_string().into())),
            None => Unknown,
        },
        ("itousize" | "ifromusize", [V::I(x)]) => ok1(V::I(*x)),
        ("bytecast_int64_to_float64", [V::I(x)]) => ok1(f(f64::from_bits(*x))),
        ("bytecast_float64_to_int64", [V::F(b)]) => ok1(V::I(*b)),
        _ => Unknown,
    }
}
fn some(v: Vec<V>) -> V {
    V::Sum(1, Rc::new(v))
}
fn none() -> V {
    V::Sum(0, Rc::new(vec![]))
}
fn list_op(name: &str, ins: &[V]) -> StdRes {
    use StdRes::*;
    let Some(V::Seq(l)) = ins.first() else { return Unknown };
    let seq = |v: Vec<V>| V::Seq(Rc::new(v));
    match (name, &ins[1..]) {
        ("pop", []) => {
            let mut v = l.to_vec();
            let r = match v.pop() {
                Some(x) => some(vec![x]),
                None => none(),
            };
            Vals(vec![seq(v), r])
        }
        ("push", [x]) => {
            let mut v = l.to_vec();
            v.push(x.clone());
            Vals(vec![seq(v)])
        }
        ("get", [V::I(i)]) => Vals(vec![match l.get(*i as usize) {
            Some(x) => some(vec![x.clone()]),
            None => none(),
        }]),
        ("set", [V::I(i), x]) => {
            let mut v = l.to_vec();
            if (*i as usize) < v.len() {
                let old = std::mem::replace(&mut v[*i as usize], x.clone());
                Vals(vec![seq(v), V::Sum(1, Rc::new(vec![old]))])
            } else {
                Vals(vec![seq(v), V::Sum(0, Rc::new(vec![x.clone()]))])
            }
        }
        ("insert", [V::I(i), _]) if *i == l.len() as u64 => Open,
        ("insert", [V::I(i), x]) => {
            let mut v = l.to_vec();
            if (*i as usize) <= v.len() {
                v.insert(*i as usize, x.clone());
                Vals(vec![seq(v), V::Sum(1, Rc::new(vec![tuple(vec![])]))])
            } else {
                Vals(vec![seq(v), V::Sum(0, Rc::new(vec![x.clone()]))])
            }
        }
        ("length", []) => Vals(vec![V::Seq(l.clone()), V::I(l.len() as u64)]),
        _ => Unknown,
    }
}
fn array_op(name: &str, a: &[Arg], ins: &[V]) -> StdRes {
    use StdRes::*;
    let seq = |v: Vec<V>| V::Seq(Rc::new(v));
    if name == "new_array" {
        return Vals(vec![seq(ins.to_vec())]);
    }
    if name == "repeat" {
        return Unknown;
    }
    let _ = a;
    // conversions between array kinds
    if let ("to_array" | "from_array", [V::Seq(v)]) = (name, ins) {
        return Vals(vec![V::Seq(v.clone())]);
    }
    let Some(V::Seq(l)) = ins.first() else { return Unknown };
    match (name, &ins[1..]) {
        ("get", [V::I(i)]) => Vals(vec![
            match l.get(*i as usize) {
                Some(x) => some(vec![x.clone()]),
                None => none(),
            },
            V::Seq(l.clone()),
        ]),
        ("set", [V::I(i), x]) => {
            let mut v = l.to_vec();
            if (*i as usize) < v.len() {
                let old = std::mem::replace(&mut v[*i as usize], x.clone());
                Vals(vec![V::Sum(1, Rc::new(vec![old, seq(v)]))])
            } else {
                Vals(vec![V::Sum(0, Rc::new(vec![x.clone(), seq(v)]))])
            }
        }
        ("swap", [V::I(i), V::I(j)]) => {
            let mut v = l.to_vec();
            if (*i as usize) < v.len() && (*j as usize) < v.len() {
                v.swap(*i as usize, *j as usize);
                Vals(vec![V::Sum(1, Rc::new(vec![seq(v)]))])
            } else {
                Vals(vec![V::Sum(0, Rc::new(vec![seq(v)]))])
            }
        }
        ("pop_left", []) => {
            let mut v = l.to_vec();
            if v.is_empty() {
                return Vals(vec![none()]);
            }
            let x = v.remove(0);
            Vals(vec![some(vec![x, seq(v)])])
        }
        ("pop_right", []) => {
            let mut v = l.to_vec();
            match v.pop() {
                None => Vals(vec![none()]),
                Some(x) => Vals(vec![some(vec![x, seq(v)])]),
            }
        }
        ("discard_empty" | "discard", []) => Vals(vec![]),
        ("unpack", []) => Vals(l.to_vec()),
        ("clone", []) => Vals(vec![V::Seq(l.clone()), V::Seq(l.clone())]),
        _ => Unknown,
    }
}
fn borrow_op(name: &str, a: &[Arg], ins: &[V]) -> StdRes {
    use StdRes::*;
    let bor = |v: Vec<Option<V>>| V::Bor(Rc::new(v));
    match (name, ins) {
        ("new_array", _) => return Vals(vec![bor(ins.iter().cloned().map(Some).collect())]),
        ("new_all_borrowed", []) => {
            if let Some(Arg::Nat(n)) = a.first()
                && *n < 1000
            {
                return Vals(vec![bor(vec![None; *n as usize])]);
            }
            return Unknown;
        }
        ("from_array", [V::Seq(v)]) => return Vals(vec![bor(v.iter().cloned().map(Some).collect())]),
        _ => {}
    }
    let Some(V::Bor(l)) = ins.first() else { return Unknown };
    match (name, &ins[1..]) {
        ("borrow", [V::I(i)]) => {
            let mut v = l.to_vec();
            match v.get_mut(*i as usize).and_then(|x| x.take()) {
                Some(x) => Vals(vec![bor(v), x]),
                None => Panic("borrow".into()),
            }
        }
        ("return", [V::I(i), x]) => {
            let mut v = l.to_vec();
            match v.get_mut(*i as usize) {
                Some(s @ None) => {
                    *s = Some(x.clone());
                    Vals(vec![bor(v)])
                }
                _ => Panic("return".into()),
            }
        }
        ("discard", []) => Vals(vec![]),
        ("discard_all_borrowed", []) => {
            if l.iter().all(|x| x.is_none()) { Vals(vec![]) } else { Panic("not all borrowed".into()) }
        }
        ("is_borrowed", [V::I(i)]) => match l.get(*i as usize) {
            Some(x) => Vals(vec![V::Bor(l.clone()), boolv(x.is_none())]),
            None => Panic("index".into()),
        },
        _ => {
            // the common array operations, on fully present arrays
            let full: Option<Vec<V>> = l.iter().cloned().collect();
            let Some(full) = full else { return Panic("borrowed element".into()) };
            let mut args = vec![V::Seq(Rc::new(full))];
            args.extend_from_slice(&ins[1..]);
            fn conv(v: &V) -> V {
                match v {
                    V::Seq(x) => V::Bor(Rc::new(x.iter().cloned().map(Some).collect())),
                    x => x.clone(),
                }
            }
            if name == "to_array" {
                return Vals(vec![args[0].clone()]);
            }
            if matches!(name, "unpack") {
                return array_op(name, a, &args);
            }
            match array_op(name, a, &args) {
                Vals(v) => Vals(
                    v.into_iter()
                        .enumerate()
                        .map(|(k, x)| match (&x, name) {
                            (V::Seq(_), "get") if k == 1 => conv(&x),
                            (V::Seq(_), "clone") => conv(&x),
                            (V::Sum(t, fs), "set" | "pop_left" | "pop_right") if fs.len() == 2 => {
                                V::Sum(*t, Rc::new(vec![fs[0].clone(), conv(&fs[1])]))
                            }
                            (V::Sum(t, fs), "swap") => V::Sum(*t, Rc::new(fs.iter().map(conv).collect())),
                            _ => x,
                        })
                        .collect(),
                ),
                x => x,
            }
        }
    }
}

/// The outcome of running a program, for comparison.
#[derive(Clone, Debug, PartialEq)]
pub struct Outcome {
    pub res: Res<Vec<V>>,
    pub trace: Vec<u64>,
    pub steps: u64,
}
pub fn run_named(h: &Hugr, func: &str, args: &[V], fuel: u64) -> Outcome {
    let p = Prog::new(h);
    match p.find_func(func) {
        Some(f) => run_prog(&p, f, args, fuel),
        None => Outcome { res: Err(Stop::Stuck(format!("no function {func}"))), trace: vec![], steps: 0 },
    }
}
pub fn run_prog(p: &Rc<Prog>, func: usize, args: &[V], fuel: u64) -> Outcome {
    let mut it = Interp::new(fuel);
    let res = it.run(p, func, args.to_vec());
    Outcome { res, trace: it.trace, steps: fuel - it.fuel }
}
#[allow(unused)]
fn _unused(_: BTreeMap<u8, u8>) {}
