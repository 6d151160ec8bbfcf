//! Generator of valid HUGR programs, built node by node and edge by edge.
use crate::engine::Tape;
use crate::ext::{self, EXT, ext_op, f_op, rows_op};
use hugr::extension::prelude::{ConstError, ConstString, ConstUsize, bool_t, string_type, usize_t};
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::constant::CustomSerialized;
use hugr::ops::dataflow::IOTrait;
use hugr::ops::{self, OpTrait, OpType, Value};
use hugr::std_extensions::arithmetic::float_types::{ConstF64, float64_type};
use hugr::std_extensions::arithmetic::int_types::{ConstInt, INT_TYPES};
use hugr::std_extensions::arithmetic::{conversions, float_ops, int_ops};
use hugr::std_extensions::collections::{array, borrow_array, list, static_array, value_array};
use hugr::types::type_param::{TypeArg, TypeParam};
use hugr::types::{EdgeKind, FuncValueType, PolyFuncType, Signature, Type, TypeBound, TypeEnum, TypeRV, TypeRow};
use hugr::{Direction, Hugr, HugrView, Node, PortIndex};
use hugr_core::Visibility;
use hugr_core::hugr::internal::HugrMutInternals;
use std::collections::HashSet;

#[derive(Clone)]
pub struct Profile {
    /// Approximate number of leaf steps per program.
    pub size: usize,
    pub depth: usize,
    pub funcs: usize,
    pub decls: bool,
    pub linear: bool,
    pub cond: bool,
    pub nested: bool,
    pub loops: bool,
    pub cfg: bool,
    pub cfg_heavy: bool,
    /// Mostly collection operations.
    pub coll_heavy: bool,
    /// Loops and graphs always terminate.
    pub bounded: bool,
    pub nonlocal: bool,
    pub poly: bool,
    pub order: bool,
    pub effects: bool,
    pub opaque: bool,
    pub floats: bool,
    pub collections: bool,
    pub strings: bool,
    /// Operations that may panic (unchecked division).
    pub partial: bool,
    pub metadata: bool,
    pub recursion: bool,
    pub indirect: bool,
    pub fn_consts: bool,
    pub holes: bool,
    pub shuffle: bool,
    pub odd_names: bool,
    pub any_entry: bool,
    /// Prefer standard operations on constants (for folding).
    pub consty: bool,
    pub int_widths: &'static [u8],
    pub aliases: bool,
    pub panics: bool,
    /// Restrict to what hugr-llvm lowers.
    pub llvm: bool,
    pub custom_consts: bool,
    /// Constants of unknown types may hold any JSON.
    pub raw_consts: bool,
    /// No list operations with known wrong folders (length, insert).
    pub foldable: bool,
    /// Only parameter kinds the model format can express.
    pub model: bool,
}
impl Default for Profile {
    fn default() -> Self {
        Profile {
            size: 14,
            depth: 3,
            funcs: 2,
            decls: true,
            linear: true,
            cond: true,
            nested: true,
            loops: true,
            cfg: true,
            cfg_heavy: false,
            coll_heavy: false,
            bounded: true,
            nonlocal: true,
            poly: true,
            order: true,
            effects: false,
            opaque: true,
            floats: true,
            collections: true,
            strings: true,
            partial: false,
            metadata: true,
            recursion: false,
            indirect: true,
            fn_consts: true,
            holes: true,
            shuffle: true,
            odd_names: false,
            any_entry: true,
            consty: false,
            int_widths: &[0, 1, 2, 4, 5, 6],
            aliases: false,
            panics: false,
            llvm: false,
            custom_consts: true,
            raw_consts: true,
            foldable: false,
            model: false,
        }
    }
}

pub struct Program {
    pub hugr: Hugr,
    pub main: Node,
    pub sig: Signature,
}
#[derive(Clone)]
pub struct FuncInfo {
    pub node: Node,
    pub sig: PolyFuncType,
    pub defined: bool,
}
#[derive(Clone)]
struct Wire {
    node: Node,
    port: usize,
    ty: Type,
    used: bool,
}
struct Frame {
    parent: Node,
    /// The node in the enclosing frame's region that contains this region.
    container: Option<Node>,
    /// Wires reachable by dominance (source block chain), copyable only.
    dom: Vec<(Node, usize, Type)>,
    wires: Vec<Wire>,
    nodes: Vec<Node>,
    last_eff: Option<Node>,
    boundary: bool,
    in_case: bool,
}
enum Out {
    Ty(Type),
    Tagged(usize, Type),
    Exact(Node, usize),
}

pub struct Gen<'a> {
    pub t: &'a mut Tape,
    pub h: Hugr,
    pub p: Profile,
    pool: Vec<Type>,
    lin_pool: Vec<Type>,
    pub funcs: Vec<FuncInfo>,
    cur_func: usize,
    vars: Vec<TypeParam>,
    frames: Vec<Frame>,
    budget: i64,
    uniq: u64,
    consts: Vec<(Node, Node, Type)>,
    holes: Vec<Node>,
    orders: HashSet<(Node, Node)>,
}

pub fn int_t(n: u8) -> Type {
    INT_TYPES[n as usize].clone()
}
const COUNTER: u8 = 3;

pub fn program(t: &mut Tape, p: &Profile) -> Program {
    let mut g = Gen::new(t, p.clone());
    g.build()
}

/// A float that the JSON layer writes and reads exactly.
pub fn json_exact(x: f64) -> bool {
    let s = serde_json::to_string(&x).unwrap();
    let v: Result<serde_json::Value, _> = serde_json::from_str(&s);
    v.ok().and_then(|v| v.as_f64()).map(|y| y.to_bits() == x.to_bits()).unwrap_or(false)
}
pub fn gen_f64(t: &mut Tape) -> f64 {
    let x = match t.below(8) {
        0 => 0.0,
        1 => 1.0,
        2 => -(t.below(10) as f64) - 0.5,
        3 => t.below(1000) as f64 / 8.0,
        4 => *t.pick(&[-0.0, 2147483648.0, 4294967296.0, 9.223372036854775807e18, 18446744073709551616.0, -1.0, 0.1, 255.0, 256.0, -128.0, -129.0, 127.99]),
        5 => *t.pick(&[f64::MAX, f64::MIN_POSITIVE, 1e-310, -1e300, 1e17, 4503599627370497.5]),
        6 => t.u64() as i64 as f64,
        _ => f64::from_bits(t.u64()),
    };
    if x.is_finite() && json_exact(x) { x } else { 1.5 }
}
pub fn gen_string(t: &mut Tape) -> String {
    match t.below(8) {
        0 => String::new(),
        1 => "a".into(),
        2 => "hello world".into(),
        3 => "quote\"back\\slash".into(),
        4 => "line\nbreak\ttab\r".into(),
        5 => "ünïcödé 漢字 🦀\u{7f}\u{0}\u{1}".into(),
        _ => {
            let n = t.below(8);
            (0..n)
                .map(|_| match t.below(4) {
                    0 => (b'a' + t.below(26) as u8) as char,
                    1 => (32 + t.below(95) as u8) as char,
                    2 => char::from_u32(t.below(0x300) as u32).unwrap_or('?'),
                    _ => char::from_u32(t.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
                })
                .collect()
        }
    }
}
pub fn gen_json(t: &mut Tape, d: usize) -> serde_json::Value {
    use serde_json::Value as J;
    match t.below(if d == 0 { 6 } else { 8 }) {
        0 => J::from(t.below(10)),
        1 => J::Null,
        2 => J::Bool(t.flag()),
        3 => J::from(gen_string(t)),
        4 => J::from(t.edge_u64() as i64),
        5 => J::from(gen_f64(t)),
        6 => {
            let n = t.below(3);
            J::Array((0..n).map(|_| gen_json(t, d - 1)).collect())
        }
        _ => {
            let n = t.below(3);
            J::Object((0..n).map(|_| (gen_string(t), gen_json(t, d - 1))).collect())
        }
    }
}

impl<'a> Gen<'a> {
    pub fn new(t: &'a mut Tape, p: Profile) -> Self {
        let budget = p.size as i64;
        Gen {
            t,
            h: Hugr::new(),
            p,
            pool: vec![],
            lin_pool: vec![],
            funcs: vec![],
            cur_func: 0,
            vars: vec![],
            frames: vec![],
            budget,
            uniq: 0,
            consts: vec![],
            holes: vec![],
            orders: HashSet::new(),
        }
    }

    // ------------------------------------------------------------ types
    fn init_pool(&mut self) {
        let mut pool = vec![bool_t()];
        let nw = self.t.range(1, 3.min(self.p.int_widths.len()));
        for _ in 0..nw {
            let w = *self.t.pick(self.p.int_widths);
            pool.push(int_t(w));
        }
        if self.p.floats && self.t.chance(1, 2) {
            pool.push(float64_type());
        }
        if self.p.opaque {
            pool.push(ext::t_ty());
        }
        if self.p.strings && self.t.chance(1, 4) {
            pool.push(string_type());
        }
        if self.t.chance(1, 3) {
            pool.push(usize_t());
        }
        let mut lin = vec![];
        if self.p.linear {
            lin.push(ext::l_ty());
        }
        self.pool = pool;
        self.lin_pool = lin;
        // some compound types
        let n = self.t.below(4);
        for _ in 0..n {
            let t = self.compound();
            if t.copyable() {
                self.pool.push(t);
            } else if self.p.linear {
                self.lin_pool.push(t);
            }
        }
    }
    fn base(&mut self, allow_linear: bool) -> Type {
        if allow_linear && !self.lin_pool.is_empty() && self.t.chance(1, 4) {
            let i = self.t.below(self.lin_pool.len());
            self.lin_pool[i].clone()
        } else {
            let i = self.t.below(self.pool.len());
            self.pool[i].clone()
        }
    }
    pub fn row(&mut self, max: usize, linear: bool) -> Vec<Type> {
        let n = self.t.below(max + 1);
        (0..n).map(|_| self.base(linear)).collect()
    }
    fn compound(&mut self) -> Type {
        let lin = self.p.linear && self.t.chance(1, 4);
        match self.t.weighted(&[
            4,
            3,
            2,
            if self.p.collections && !self.p.llvm { 2 } else { 0 },
            if self.p.collections { 2 } else { 0 },
            if self.p.opaque { 2 } else { 0 },
            if self.p.indirect && !self.p.llvm { 2 } else { 0 },
            1,
            if self.p.collections { 1 } else { 0 },
        ]) {
            0 => {
                let r = self.row(3, lin);
                Type::new_tuple(r)
            }
            1 => {
                let n = self.t.range(2, 3);
                let v: Vec<TypeRow> = (0..n).map(|_| self.row(2, lin).into()).collect();
                Type::new_sum(v)
            }
            2 => {
                let n = self.t.range(1, 5);
                Type::new_unit_sum(n as u8)
            }
            3 => {
                let e = self.base(lin);
                list::list_type(e)
            }
            4 => {
                let e = self.base(lin);
                let n = self.t.below(4) as u64;
                match self.t.below(if self.p.llvm { 1 } else { 3 }) {
                    0 => array::array_type(n, e),
                    1 => value_array::value_array_type(n, e),
                    _ => borrow_array::borrow_array_type(n, e),
                }
            }
            5 => {
                let e = self.base(lin);
                match self.t.below(3) {
                    0 => ext::ty("P", vec![e.into()]),
                    1 => {
                        let n = self.t.below(5) as u64;
                        ext::ty("N", vec![n.into()])
                    }
                    _ => {
                        let s = if self.p.odd_names { gen_string(self.t) } else { "x".into() };
                        let b: Vec<u8> = (0..self.t.below(3)).map(|i| i as u8 * 200).collect();
                        let f = gen_f64(self.t);
                        let n = self.t.below(3) as u64;
                        ext_x(&s, vec![n, 7], e_copy(&bool_t()), b, f)
                    }
                }
            }
            6 => {
                let i = self.row(2, lin);
                let o = self.row(2, lin);
                Type::new_function(Signature::new(i, o))
            }
            7 => {
                let e = self.base(lin);
                Type::from(hugr::extension::prelude::option_type(e))
            }
            _ => {
                let e = self.base(false);
                static_array::static_array_type(e)
            }
        }
    }
    /// A type, mostly from the pool.
    fn some_type(&mut self, linear: bool) -> Type {
        if self.t.chance(1, 6) {
            let t = self.compound();
            if linear || t.copyable() {
                return t;
            }
        }
        self.base(linear)
    }

    // ------------------------------------------------------------ module
    fn build(&mut self) -> Program {
        self.init_pool();
        let root = self.h.module_root();
        let nf = 1 + if self.p.funcs > 0 { self.t.below(self.p.funcs + 1) } else { 0 };
        if self.p.aliases && self.t.chance(1, 3) {
            self.h.add_node_with_parent(root, ops::AliasDecl::new("ali", TypeBound::Copyable));
            let t = self.base(false);
            self.h.add_node_with_parent(root, ops::AliasDefn { name: "alidef".into(), definition: t });
        }
        for i in 0..nf {
            let poly = i > 0 && self.p.poly && self.t.chance(1, 2);
            let decl = i > 0 && self.p.decls && self.t.chance(1, 6);
            self.maybe_hole(root);
            let sig = if poly { self.poly_sig() } else { self.mono_sig(i == 0) };
            let name = if i == 0 {
                "main".to_string()
            } else if self.p.odd_names {
                format!("{}{}", gen_string(self.t), i)
            } else {
                format!("f{i}")
            };
            let vis = if self.t.flag() { Visibility::Public } else { Visibility::Private };
            let node = if decl {
                self.h.add_node_with_parent(root, ops::FuncDecl::new_vis(name, sig.clone(), vis))
            } else {
                self.h.add_node_with_parent(root, ops::FuncDefn::new_vis(name, sig.clone(), vis))
            };
            self.funcs.push(FuncInfo { node, sig, defined: !decl });
        }
        for i in 0..nf {
            if !self.funcs[i].defined {
                continue;
            }
            self.cur_func = i;
            let f = self.funcs[i].clone();
            self.budget = (self.p.size / if i == 0 { 1 } else { 2 }) as i64;
            self.vars = f.sig.params().to_vec();
            let (pool, lin) = (self.pool.clone(), self.lin_pool.clone());
            self.add_vars_to_pool();
            let ins: Vec<Type> = f.sig.body().input().iter().cloned().collect();
            let outs: Vec<Out> = f.sig.body().output().iter().cloned().map(Out::Ty).collect();
            self.region(f.node, &ins, outs, None, true, vec![], false);
            self.pool = pool;
            self.lin_pool = lin;
        }
        self.finish()
    }
    fn finish(&mut self) -> Program {
        for n in std::mem::take(&mut self.holes) {
            self.h.remove_node(n);
        }
        if self.p.shuffle {
            self.shuffle();
        }
        if self.p.metadata {
            self.add_metadata();
        }
        let main = self.funcs[0].node;
        let mut entry = main;
        if self.p.any_entry {
            match self.t.below(4) {
                0 | 1 => {}
                2 => entry = self.h.module_root(),
                _ => {
                    let c: Vec<Node> = self
                        .h
                        .nodes()
                        .filter(|n| crate::canon::op_is_container(self.h.get_optype(*n)))
                        .collect();
                    if !c.is_empty() {
                        entry = *self.t.pick(&c);
                    }
                }
            }
        }
        self.h.set_entrypoint(entry);
        let sig = self.funcs[0].sig.body().clone();
        let mut hugr = std::mem::take(&mut self.h);
        hugr.resolve_extension_defs(&ext::REG).expect("resolve");
        Program { hugr, main, sig }
    }
    fn mono_sig(&mut self, main: bool) -> PolyFuncType {
        let lin = self.p.linear && !(main && self.t.flag());
        let i = self.sig_row(3, lin);
        let mut o = self.sig_row(3, lin);
        if main && o.is_empty() {
            o.push(self.base(false));
        }
        Signature::new(i, o).into()
    }
    fn sig_row(&mut self, max: usize, lin: bool) -> Vec<Type> {
        let n = self.t.below(max + 1);
        (0..n).map(|_| self.some_type(lin)).collect()
    }
    fn poly_sig(&mut self) -> PolyFuncType {
        let n = self.t.range(1, 3);
        let params: Vec<TypeParam> = (0..n)
            .map(|_| match self.t.below(6) {
                0 => TypeBound::Copyable.into(),
                1 => {
                    if self.p.linear {
                        TypeBound::Linear.into()
                    } else {
                        TypeBound::Copyable.into()
                    }
                }
                2 => TypeParam::max_nat_type(),
                3 if !self.p.model => TypeParam::bounded_nat_type(7.try_into().unwrap()),
                3 | 4 if self.p.model => TypeParam::new_list_type(TypeBound::Linear),
                4 => TypeParam::new_list_type(TypeBound::Copyable),
                _ => TypeParam::StringType,
            })
            .collect();
        self.vars = params.clone();
        let (pool, lin) = (self.pool.clone(), self.lin_pool.clone());
        self.add_vars_to_pool();
        let i = self.sig_row(3, self.p.linear);
        let o = self.sig_row(2, self.p.linear);
        self.pool = pool;
        self.lin_pool = lin;
        self.vars = vec![];
        PolyFuncType::new(params, Signature::new(i, o))
    }
    fn add_vars_to_pool(&mut self) {
        for (i, p) in self.vars.clone().iter().enumerate() {
            match p {
                TypeParam::RuntimeType(TypeBound::Copyable) => {
                    let v = Type::new_var_use(i, TypeBound::Copyable);
                    self.pool.push(v.clone());
                    self.pool.push(Type::new_tuple(vec![v.clone(), bool_t()]));
                    if self.p.opaque {
                        self.pool.push(ext::ty("P", vec![v.into()]));
                    }
                }
                TypeParam::RuntimeType(_) => {
                    let v = Type::new_var_use(i, TypeBound::Linear);
                    self.lin_pool.push(v.clone());
                    self.lin_pool.push(Type::from(hugr::extension::prelude::option_type(v)));
                }
                TypeParam::BoundedNatType(_) => {
                    if self.p.opaque {
                        self.pool.push(ext::ty("N", vec![TypeArg::new_var_use(i, p.clone())]));
                    }
                    if self.p.collections && !self.p.llvm {
                        let e = self.pool[0].clone();
                        self.pool
                            .push(value_array::value_array_type_parametric(TypeArg::new_var_use(i, p.clone()), e).unwrap());
                    }
                }
                TypeParam::ListType(_) => {
                    let b = if self.p.model { TypeBound::Linear } else { TypeBound::Copyable };
                    // a function type over a row variable
                    self.pool.push(Type::new_function(FuncValueType::new(
                        vec![TypeRV::new_row_var_use(i, b)],
                        vec![TypeRV::from(bool_t()), TypeRV::new_row_var_use(i, b)],
                    )));
                }
                _ => {}
            }
        }
    }
    /// An argument for a parameter, in the current scope.
    pub fn type_arg(&mut self, p: &TypeParam) -> TypeArg {
        // a variable of exactly the same declaration
        let same: Vec<usize> = self.vars.iter().enumerate().filter(|(_, v)| *v == p).map(|(i, _)| i).collect();
        if !same.is_empty() && self.t.flag() {
            let i = *self.t.pick(&same);
            return match p {
                TypeParam::RuntimeType(b) => Type::new_var_use(i, *b).into(),
                _ => TypeArg::new_var_use(i, p.clone()),
            };
        }
        match p {
            TypeParam::RuntimeType(TypeBound::Copyable) => self.base(false).into(),
            TypeParam::RuntimeType(_) => self.base(true).into(),
            TypeParam::BoundedNatType(b) => {
                let hi = b.value().map(|x| x.get()).unwrap_or(u64::MAX);
                let v = self.t.below(4) as u64;
                v.min(hi - 1).into()
            }
            TypeParam::ListType(_) => {
                let r = self.row(2, false);
                TypeArg::new_list(r.into_iter().map(TypeArg::from))
            }
            TypeParam::StringType => {
                let s = if self.p.odd_names { gen_string(self.t) } else { format!("s{}", self.t.below(3)) };
                TypeArg::new_string(s)
            }
            _ => unreachable!("parameter {p:?}"),
        }
    }

    // ------------------------------------------------------------ plumbing
    fn maybe_hole(&mut self, parent: Node) {
        if self.p.holes && self.t.chance(1, 12) {
            let n = if parent == self.h.module_root() {
                self.h.add_node_with_parent(parent, ops::Const::new(Value::true_val()))
            } else {
                self.h.add_node_with_parent(parent, ext_op(&hugr::extension::prelude::PRELUDE, "Noop", vec![bool_t().into()]))
            };
            self.holes.push(n);
        }
    }
    fn fr(&mut self) -> &mut Frame {
        self.frames.last_mut().unwrap()
    }
    fn add(&mut self, op: impl Into<OpType>) -> Node {
        let parent = self.frames.last().unwrap().parent;
        self.maybe_hole(parent);
        let op = op.into();
        let n = self.h.add_node_with_parent(parent, op);
        self.fr().nodes.push(n);
        n
    }
    /// Adds a node in the current region with value inputs from `ins`, and
    /// makes its value outputs available.
    fn emit(&mut self, op: impl Into<OpType>, ins: &[(Node, usize)]) -> Node {
        let op = op.into();
        let outs: Vec<Type> = op.dataflow_signature().map(|s| s.output().iter().cloned().collect()).unwrap_or_default();
        let n = self.add(op);
        for (i, (m, q)) in ins.iter().enumerate() {
            self.h.connect(*m, *q, n, i);
        }
        for (i, ty) in outs.into_iter().enumerate() {
            self.fr().wires.push(Wire { node: n, port: i, ty, used: false });
        }
        n
    }
    fn order_edge(&mut self, a: Node, b: Node) {
        if a != b && self.orders.insert((a, b)) {
            self.h.add_other_edge(a, b);
        }
    }
    fn has_order(&self, n: Node, d: Direction) -> bool {
        let o = self.h.get_optype(n);
        let k = if d == Direction::Incoming { o.other_input() } else { o.other_output() };
        matches!(k, Some(EdgeKind::StateOrder))
    }
    /// Chains a possibly effectful node after the previous one.
    fn chain(&mut self, n: Node) {
        if !self.p.effects {
            return;
        }
        let last = self.fr().last_eff;
        if let Some(l) = last {
            self.order_edge(l, n);
        } else if self.t.chance(1, 3) {
            let i = self.fr().nodes[0];
            self.order_edge(i, n);
        }
        self.fr().last_eff = Some(n);
    }
    /// Takes wire `i` of the current frame.
    fn take(&mut self, i: usize) -> (Node, usize) {
        let w = &mut self.fr().wires[i];
        if !w.ty.copyable() {
            assert!(!w.used);
            w.used = true;
        }
        (w.node, w.port)
    }
    fn local(&self, ty: &Type) -> Vec<usize> {
        let f = self.frames.last().unwrap();
        (0..f.wires.len()).filter(|i| f.wires[*i].ty == *ty && (f.wires[*i].ty.copyable() || !f.wires[*i].used)).collect()
    }
    /// A copyable wire of an enclosing region (with the order edge an external
    /// edge needs) or of a dominating block.
    fn outer(&mut self, want: impl Fn(&Type) -> bool) -> Option<(Node, usize, Type)> {
        if !self.p.nonlocal {
            return None;
        }
        let mut cands: Vec<(Option<(Node, Node)>, Node, usize, Type)> = vec![];
        let n = self.frames.len();
        for k in (0..n).rev() {
            for (s, q, ty) in &self.frames[k].dom {
                if want(ty) {
                    cands.push((None, *s, *q, ty.clone()));
                }
            }
            if self.frames[k].boundary || k == 0 {
                break;
            }
            let Some(c) = self.frames[k].container else { break };
            for w in &self.frames[k - 1].wires {
                if w.ty.copyable() && want(&w.ty) && w.node != c {
                    cands.push((Some((w.node, c)), w.node, w.port, w.ty.clone()));
                }
            }
        }
        if cands.is_empty() {
            return None;
        }
        let i = self.t.below(cands.len());
        let (o, s, q, ty) = cands.swap_remove(i);
        if let Some((a, b)) = o {
            self.order_edge(a, b);
        }
        Some((s, q, ty))
    }
    /// Obtains a wire of the given type, from what exists or newly produced.
    fn get(&mut self, ty: &Type) -> (Node, usize) {
        let loc = self.local(ty);
        if *ty == int_t(COUNTER) && self.p.bounded {
            if let Some(i) = loc.last() {
                return self.take(*i);
            }
            return self.produce(ty);
        }
        if ty.copyable() && self.t.chance(1, 6) {
            let t2 = ty.clone();
            if let Some((n, q, _)) = self.outer(|t| *t == t2) {
                return (n, q);
            }
        }
        if !loc.is_empty() && !self.t.chance(1, 6) {
            let i = loc[loc.len() - 1 - self.t.below(loc.len())];
            return self.take(i);
        }
        self.produce(ty)
    }
    fn get_all(&mut self, tys: &[Type]) -> Vec<(Node, usize)> {
        tys.iter().map(|t| self.get(t)).collect()
    }
    fn wire_of(&mut self, n: Node, port: usize) -> (Node, usize) {
        let f = self.fr();
        if let Some(w) = f.wires.iter_mut().find(|w| w.node == n && w.port == port) {
            w.used = true;
        }
        (n, port)
    }
    fn f_name(&mut self) -> String {
        self.uniq += 1;
        if self.t.chance(1, 2) { format!("u{}", self.uniq) } else { "c".into() }
    }
    fn produce(&mut self, ty: &Type) -> (Node, usize) {
        // sums by tag
        if let Some(s) = ty.as_sum()
            && self.t.chance(2, 3)
            && let Some(v) = sum_rows(s)
            && !v.is_empty()
        {
            let tag = self.t.below(v.len());
            return self.tagged(tag, ty);
        }
        // function values
        if let TypeEnum::Function(ft) = ty.as_type_enum() {
            let m: Vec<usize> = (0..self.funcs.len())
                .filter(|i| {
                    self.callable(*i)
                        && self.funcs[*i].sig.params().is_empty()
                        && FuncValueType::from(self.funcs[*i].sig.body().clone()) == **ft
                })
                .collect();
            if !m.is_empty() && self.t.chance(2, 3) {
                let f = self.funcs[*self.t.pick(&m)].clone();
                let op = ops::LoadFunction::try_new(f.sig.clone(), vec![]).unwrap();
                let n = self.emit(op, &[]);
                self.h.connect(f.node, 0, n, 0);
                return self.wire_of(n, 0);
            }
        }
        if (self.p.opaque && self.t.chance(1, if self.p.consty { 8 } else { 3 })) && *ty != int_t(COUNTER) {
            return self.f_produce(ty);
        }
        if let Some(v) = self.const_value(ty, 3) {
            return self.load_const(v);
        }
        if let Some(x) = ty.as_extension() {
            // arrays from elements
            let (e, nm) = (x.extension().to_string(), x.name().to_string());
            if let ([TypeArg::BoundedNat(k), el], true) = (x.args(), matches!(nm.as_str(), "array" | "borrow_array" | "value_array"))
                && let Some(el) = el.as_runtime()
            {
                let ins = self.get_all(&vec![el.clone(); *k as usize]);
                let exn = match e.as_str() {
                    "collections.array" => &array::EXTENSION,
                    "collections.borrow_arr" => &borrow_array::EXTENSION,
                    _ => &value_array::EXTENSION,
                };
                let n = self.emit(ext_op(exn, "new_array", vec![(*k).into(), el.into()]), &ins);
                return self.wire_of(n, 0);
            }
        }
        if let Some(s) = ty.as_sum()
            && let Some(v) = sum_rows(s)
            && !v.is_empty()
        {
            let tag = self.t.below(v.len());
            return self.tagged(tag, ty);
        }
        self.f_produce(ty)
    }
    fn f_produce(&mut self, ty: &Type) -> (Node, usize) {
        // consume a few wires to make it depend on data
        let k = self.t.below(3);
        let ins = self.some_wires(k, false);
        let tys: Vec<Type> = ins.iter().map(|x| x.2.clone()).collect();
        let w: Vec<(Node, usize)> = ins.iter().map(|x| (x.0, x.1)).collect();
        let nm = self.f_name();
        let n = self.emit(f_op(&nm, &tys, &[ty.clone()]), &w);
        self.wire_of(n, 0)
    }
    fn tagged(&mut self, tag: usize, ty: &Type) -> (Node, usize) {
        let v = sum_rows(ty.as_sum().unwrap()).unwrap();
        let fields = v[tag].clone();
        let ins = self.get_all(&fields);
        let n = if v.len() == 1 && self.t.flag() {
            let row = TypeArg::new_list(fields.iter().map(|t| TypeArg::from(t.clone())));
            self.emit(ext_op(&hugr::extension::prelude::PRELUDE, "MakeTuple", vec![row]), &ins)
        } else {
            self.emit(ops::Tag::new(tag, v.iter().map(|r| TypeRow::from(r.clone())).collect()), &ins)
        };
        self.wire_of(n, 0)
    }
    fn load_const(&mut self, v: Value) -> (Node, usize) {
        let ty = v.get_type();
        // reuse an accessible constant node sometimes
        let parents: HashSet<Node> = self.frames.iter().map(|f| f.parent).collect();
        let old: Vec<Node> = self.consts.iter().filter(|(p, _, t)| *t == ty && parents.contains(p)).map(|x| x.1).collect();
        let c = if !old.is_empty() && self.t.chance(1, 4) {
            *self.t.pick(&old)
        } else {
            let k = self.frames.len();
            let parent = match self.t.below(4) {
                0 | 1 => self.frames[k - 1].parent,
                2 => {
                    // an enclosing region of the same function
                    let lo = (0..k).rev().find(|i| self.frames[*i].boundary).unwrap_or(0);
                    let i = self.t.range(lo, k - 1);
                    self.frames[i].parent
                }
                _ => self.h.module_root(),
            };
            let c = self.h.add_node_with_parent(parent, ops::Const::new(v));
            self.consts.push((parent, c, ty.clone()));
            c
        };
        let n = self.emit(ops::LoadConstant { datatype: ty }, &[]);
        self.h.connect(c, 0, n, 0);
        self.wire_of(n, 0)
    }
    pub fn int_const(&mut self, w: u8) -> Value {
        let m = crate::interp::mask(w);
        let v = self.t.edge_u64() & m;
        ConstInt::new_u(w, v).unwrap().into()
    }
    /// A constant of the type, when one can be written.
    pub fn const_value(&mut self, ty: &Type, d: usize) -> Option<Value> {
        if d == 0 || (!self.vars.is_empty() && type_has_vars(ty)) {
            return None;
        }
        match ty.as_type_enum() {
            TypeEnum::Sum(s) => {
                let v = sum_rows(s)?;
                if v.is_empty() {
                    return None;
                }
                let tag = self.t.below(v.len());
                let xs: Option<Vec<Value>> = v[tag].iter().map(|t| self.const_value(t, d - 1)).collect();
                Value::sum(tag, xs?, s.clone()).ok()
            }
            TypeEnum::Function(f) => {
                if !self.p.fn_consts || self.p.llvm {
                    return None;
                }
                let sig = Signature::try_from((**f).clone()).ok()?;
                if sig_has_vars(&sig) {
                    return None;
                }
                let mut p = self.p.clone();
                p.size = 3;
                p.depth = 1;
                p.funcs = 0;
                p.any_entry = false;
                p.fn_consts = false;
                p.holes = self.p.holes;
                let mut g = Gen::new(self.t, p);
                g.init_pool();
                let root = g.h.module_root();
                let node = g.h.add_node_with_parent(root, ops::FuncDefn::new("main", sig.clone()));
                g.funcs.push(FuncInfo { node, sig: sig.clone().into(), defined: true });
                let ins: Vec<Type> = sig.input().iter().cloned().collect();
                let outs = sig.output().iter().cloned().map(Out::Ty).collect();
                g.region(node, &ins, outs, None, true, vec![], false);
                let pr = g.finish();
                Value::function(pr.hugr).ok()
            }
            TypeEnum::Extension(x) => {
                let (e, n) = (x.extension().to_string(), x.name().to_string());
                match (e.as_str(), n.as_str(), x.args()) {
                    ("arithmetic.int.types", "int", [TypeArg::BoundedNat(w)]) => {
                        if *w as u8 == COUNTER && self.p.bounded {
                            let v = self.t.below(16) as u64;
                            return Some(ConstInt::new_u(COUNTER, v).unwrap().into());
                        }
                        Some(self.int_const(*w as u8))
                    }
                    ("arithmetic.float.types", "float64", _) => Some(ConstF64::new(gen_f64(self.t)).into()),
                    ("prelude", "usize", _) => {
                        let v = if self.t.chance(1, 8) { self.t.edge_u64() } else { self.t.below(5) as u64 };
                        Some(ConstUsize::new(v).into())
                    }
                    ("prelude", "string", _) => Some(ConstString::new(gen_string(self.t)).into()),
                    ("prelude", "error", _) => {
                        let s = self.t.below(3) as u32;
                        let m = gen_string(self.t);
                        Some(ConstError::new(s, m).into())
                    }
                    ("collections.list", _, [el]) => {
                        let el = el.as_runtime()?;
                        let k = self.t.below(4);
                        let xs: Option<Vec<Value>> = (0..k).map(|_| self.const_value(&el, d - 1)).collect();
                        Some(list::ListValue::new(el, xs?).into())
                    }
                    ("collections.array", _, [TypeArg::BoundedNat(k), el]) => {
                        let el = el.as_runtime()?;
                        let xs: Option<Vec<Value>> = (0..*k).map(|_| self.const_value(&el, d - 1)).collect();
                        Some(array::ArrayValue::new(el, xs?).into())
                    }
                    ("collections.borrow_arr", _, [TypeArg::BoundedNat(k), el]) => {
                        let el = el.as_runtime()?;
                        let xs: Option<Vec<Value>> = (0..*k).map(|_| self.const_value(&el, d - 1)).collect();
                        Some(borrow_array::BArrayValue::new(el, xs?).into())
                    }
                    ("collections.value_array", _, [TypeArg::BoundedNat(k), el]) => {
                        let el = el.as_runtime()?;
                        let xs: Option<Vec<Value>> = (0..*k).map(|_| self.const_value(&el, d - 1)).collect();
                        Some(value_array::VArrayValue::new(el, xs?).into())
                    }
                    ("collections.static_array", _, [el]) => {
                        let el = el.as_runtime()?;
                        if type_has_vars(&el) {
                            return None;
                        }
                        let k = self.t.below(4);
                        let xs: Option<Vec<Value>> = (0..k).map(|_| self.const_value(&el, d - 1)).collect();
                        static_array::StaticArrayValue::try_new("arr", el, xs?).ok().map(Into::into)
                    }
                    (e, _, _) if e.starts_with("vtest") && self.p.custom_consts && !type_has_vars(ty) && ty.copyable() => {
                        let mut j = gen_json(self.t, 2);
                        if !self.p.raw_consts || self.t.flag() {
                            j = serde_json::json!({"c": "SomeConst", "v": j});
                        }
                        Some(CustomSerialized::new(ty.clone(), j).into())
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }
    /// Up to `k` available wires (copyable unless `lin`).
    fn some_wires(&mut self, k: usize, lin: bool) -> Vec<(Node, usize, Type)> {
        let mut out = vec![];
        for _ in 0..k {
            if self.t.chance(1, 6)
                && let Some(w) = self.outer(|t| *t != int_t(COUNTER))
            {
                out.push(w);
                continue;
            }
            let f = self.frames.last().unwrap();
            let c: Vec<usize> = (0..f.wires.len())
                .filter(|i| {
                    let w = &f.wires[*i];
                    (w.ty.copyable() || (lin && !w.used)) && !(self.p.bounded && w.ty == int_t(COUNTER))
                })
                .collect();
            if c.is_empty() {
                break;
            }
            let i = c[c.len() - 1 - self.t.below(c.len())];
            let ty = self.frames.last().unwrap().wires[i].ty.clone();
            let (n, q) = self.take(i);
            out.push((n, q, ty));
        }
        out
    }
    fn find_local(&self, pred: impl Fn(&Type) -> bool) -> Vec<usize> {
        let f = self.frames.last().unwrap();
        (0..f.wires.len()).filter(|i| pred(&f.wires[*i].ty) && (f.wires[*i].ty.copyable() || !f.wires[*i].used)).collect()
    }

    // ------------------------------------------------------------ regions
    #[allow(clippy::too_many_arguments)]
    fn region(
        &mut self,
        parent: Node,
        ins: &[Type],
        outs: Vec<Out>,
        container: Option<Node>,
        boundary: bool,
        dom: Vec<(Node, usize, Type)>,
        in_case: bool,
    ) -> Frame2 {
        let inp = self.h.add_node_with_parent(parent, ops::Input::new(ins.to_vec()));
        let out_tys: Vec<Type> = outs
            .iter()
            .map(|o| match o {
                Out::Ty(t) => t.clone(),
                Out::Tagged(_, t) => t.clone(),
                Out::Exact(..) => unreachable!(),
            })
            .collect();
        let out = self.h.add_node_with_parent(parent, ops::Output::new(out_tys));
        self.frames.push(Frame {
            parent,
            container,
            dom,
            wires: ins.iter().enumerate().map(|(i, t)| Wire { node: inp, port: i, ty: t.clone(), used: false }).collect(),
            nodes: vec![inp],
            last_eff: None,
            boundary,
            in_case,
        });
        let depth = self.frames.iter().rev().take_while(|f| !f.boundary).count();
        let n = if self.budget <= 0 { 0 } else { self.t.below(if depth == 0 { self.p.size + 1 } else { 1 + self.p.size / 3 }) };
        for _ in 0..n {
            if self.budget <= 0 {
                break;
            }
            self.budget -= 1;
            self.step(depth);
        }
        self.close(out, outs)
    }
    fn close(&mut self, out: Node, outs: Vec<Out>) -> Frame2 {
        let mut srcs = vec![];
        for o in outs {
            let w = match o {
                Out::Ty(t) => self.get(&t),
                Out::Tagged(k, t) => self.tagged(k, &t),
                Out::Exact(n, q) => (n, q),
            };
            srcs.push(w);
        }
        self.sink_leftovers();
        for (i, (n, q)) in srcs.iter().enumerate() {
            self.h.connect(*n, *q, out, i);
        }
        self.fr().nodes.push(out);
        if self.p.effects
            && let Some(l) = self.fr().last_eff
            && self.t.flag()
        {
            self.order_edge(l, out);
        }
        if self.p.order {
            let k = self.t.below(3);
            for _ in 0..k {
                let ns = self.frames.last().unwrap().nodes.clone();
                let a = self.t.below(ns.len());
                let b = self.t.below(ns.len());
                let (a, b) = (a.min(b), a.max(b));
                if a != b && self.has_order(ns[a], Direction::Outgoing) && self.has_order(ns[b], Direction::Incoming) {
                    self.order_edge(ns[a], ns[b]);
                }
            }
        }
        let f = self.frames.pop().unwrap();
        if f.last_eff.is_some()
            && let Some(n) = f.container
            && !self.frames.is_empty()
        {
            self.chain(n);
        }
        Frame2 {
            wires: f.wires.into_iter().filter(|w| w.ty.copyable()).map(|w| (w.node, w.port, w.ty)).collect(),
            had_eff: f.last_eff.is_some(),
        }
    }
    fn sink_leftovers(&mut self) {
        loop {
            let left: Vec<usize> = {
                let f = self.frames.last().unwrap();
                (0..f.wires.len()).filter(|i| !f.wires[*i].ty.copyable() && !f.wires[*i].used).collect()
            };
            if left.is_empty() {
                break;
            }
            if !self.p.opaque {
                // arrays of copyable elements can be discarded; sums of them by a conditional (not generated)
                let i = left[0];
                let ty = self.frames.last().unwrap().wires[i].ty.clone();
                let w = self.take(i);
                self.discard(&ty, w);
                continue;
            }
            let k = self.t.range(1, left.len().min(3));
            let mut ins = vec![];
            let mut tys = vec![];
            for i in left.into_iter().take(k) {
                tys.push(self.frames.last().unwrap().wires[i].ty.clone());
                ins.push(self.take(i));
            }
            let nm = self.f_name();
            self.emit(f_op(&nm, &tys, &[]), &ins);
        }
    }
    fn discard(&mut self, ty: &Type, w: (Node, usize)) {
        if let Some(x) = ty.as_extension()
            && let [TypeArg::BoundedNat(k), el] = x.args()
        {
            let ext = match x.extension().as_ref() as &str {
                "collections.array" => &array::EXTENSION,
                "collections.borrow_arr" => &borrow_array::EXTENSION,
                _ => &value_array::EXTENSION,
            };
            let el = el.as_runtime().unwrap();
            if el.copyable() {
                self.emit(ext_op(ext, "discard", vec![(*k).into(), el.into()]), &[w]);
            } else {
                self.emit(ext_op(ext, "unpack", vec![(*k).into(), el.into()]), &[w]);
            }
            return;
        }
        if let Some(s) = ty.as_sum() {
            let rows = sum_rows(s).unwrap();
            let trs: Vec<TypeRow> = rows.iter().map(|r| r.clone().into()).collect();
            let c = self.emit(ops::Conditional { sum_rows: trs, other_inputs: TypeRow::new(), outputs: TypeRow::new() }, &[w]);
            let b = self.budget;
            self.budget = 0;
            for r in rows {
                let case = self.h.add_node_with_parent(c, ops::Case { signature: Signature::new(r.clone(), TypeRow::new()) });
                self.region(case, &r, vec![], Some(c), false, vec![], true);
            }
            self.budget = b;
            return;
        }
        panic!("cannot discard {ty}");
    }
    fn callable(&self, i: usize) -> bool {
        if i > self.cur_func || !self.funcs[i].defined {
            return true;
        }
        // recursion only below a case
        self.p.recursion && self.frames.iter().rev().take_while(|f| !f.boundary).any(|f| f.in_case)
    }

    // ------------------------------------------------------------ steps
    fn step(&mut self, depth: usize) {
        let p = self.p.clone();
        let deep = depth < p.depth;
        let c = |b: bool, w: u32| if b { w } else { 0 };
        let ws = [
            8,                                     // 0 int arithmetic
            3,                                     // 1 logic
            c(p.floats, 3),                        // 2 float
            c(p.floats || p.strings, 2),           // 3 conversions
            5,                                     // 4 tuples, tags, noop
            c(p.cond && deep, 4),                  // 5 conditional
            c(p.nested && deep, 4),                // 6 dfg
            c(p.loops && deep, 3),                 // 7 loop
            c(p.cfg && deep, if p.cfg_heavy { 16 } else { 3 }), // 8 cfg
            c(self.funcs.len() > 1 || p.recursion, 4), // 9 call
            c(p.indirect, 2),                      // 10 function value / indirect call
            4,                                     // 11 constant
            c(p.opaque, 4),                        // 12 uninterpreted
            c(p.effects, 6),                       // 13 effect
            if p.coll_heavy { 40 } else { c(p.collections, 4) }, // 14 collections
            c(p.opaque, 1),                        // 15 other vtest ops
            c(p.panics, 1),                        // 16 panic
            c(!p.llvm, 1),                         // 17 load_nat / barrier
        ];
        match self.t.weighted(&ws) {
            0 => self.int_step(),
            1 => {
                let b = bool_t();
                let (nm, k) = *self.t.pick(&[("And", 2), ("Or", 2), ("Xor", 2), ("Eq", 2), ("Not", 1)]);
                let ins = self.get_all(&vec![b; k]);
                self.emit(ext_op(&hugr::std_extensions::logic::EXTENSION, nm, vec![]), &ins);
            }
            2 => {
                let f = float64_type();
                let names2: &[&str] = &["fadd", "fsub", "fmul", "fdiv", if self.p.llvm { "fpow" } else { "fmax" }, if self.p.llvm { "fsub" } else { "fmin" }, "feq", "fne", "flt", "fgt", "fle", "fge"];
                let names1: &[&str] = if self.p.llvm { &["fneg"] } else { &["fneg", "fabs", "ffloor", "fceil"] };
                let (nm, k) = if self.t.chance(1, 3) { (*self.t.pick(names1), 1) } else { (*self.t.pick(names2), 2) };
                let ins = self.get_all(&vec![f; k]);
                self.emit(ext_op(&float_ops::EXTENSION, nm, vec![]), &ins);
            }
            3 => self.conv_step(),
            4 => self.struct_step(),
            5 => self.cond_step(),
            6 => self.dfg_step(),
            7 => self.loop_step(),
            8 => self.cfg_step(),
            9 => self.call_step(),
            10 => self.indirect_step(),
            11 => {
                let ty = self.some_type(false);
                if ty == int_t(COUNTER) {
                    return;
                }
                if let Some(v) = self.const_value(&ty, 3) {
                    let (n, q) = self.load_const(v);
                    // leave it available
                    if let Some(w) = self.fr().wires.iter_mut().find(|w| w.node == n && w.port == q) {
                        w.used = false;
                    }
                }
            }
            12 => {
                let k = self.t.below(4);
                let ins = self.some_wires(k, true);
                let outs = self.row(2, p.linear);
                let tys: Vec<Type> = ins.iter().map(|x| x.2.clone()).collect();
                let w: Vec<_> = ins.iter().map(|x| (x.0, x.1)).collect();
                let nm = self.f_name();
                self.emit(f_op(&nm, &tys, &outs), &w);
            }
            13 => {
                let k = self.t.below(3);
                let ins = self.some_wires(k, false);
                let outs = if self.t.flag() { self.row(1, false) } else { vec![] };
                let tys: Vec<Type> = ins.iter().map(|x| x.2.clone()).collect();
                let w: Vec<_> = ins.iter().map(|x| (x.0, x.1)).collect();
                let nm = self.f_name();
                let n = self.emit(rows_op("eff", &nm, &tys, &outs), &w);
                self.chain(n);
            }
            14 => self.coll_step(),
            15 => {
                if self.t.flag() {
                    let t = self.base(false);
                    let w = self.get(&t);
                    let x = if self.t.chance(1, 3) { &ext::EXT2 } else { &EXT };
                    self.emit(ext_op(x, "dup", vec![t.into()]), &[w]);
                } else if self.t.flag() {
                    let t = ext::t_ty();
                    let w = self.get(&t);
                    self.emit(ext_op(&EXT, "k", vec![]), &[w]);
                } else {
                    let s = gen_string(self.t);
                    let b: Vec<u8> = (0..self.t.below(4)).map(|_| 0).collect();
                    let b: Vec<u8> = b.into_iter().map(|_| self.t.below(256) as u8).collect();
                    let f = gen_f64(self.t);
                    let n = self.t.below(100) as u64;
                    let l = self.t.below(3);
                    let ls: Vec<TypeArg> = (0..l)
                        .map(|_| {
                            let k = self.t.below(3);
                            TypeArg::new_list((0..k).map(|_| TypeArg::new_string(gen_string(self.t))).collect::<Vec<_>>())
                        })
                        .collect();
                    let tt = self.base(true);
                    let nn = self.t.edge_u64();
                    let args = vec![
                        TypeArg::new_string(s),
                        TypeArg::Bytes(b.into()),
                        TypeArg::Float(f.into()),
                        n.into(),
                        TypeArg::new_list(ls),
                        TypeArg::new_tuple([nn.into(), tt.into()]),
                    ];
                    self.emit(ext_op(&EXT, "args", args), &[]);
                }
            }
            16 => {
                let e = self.load_const(ConstError::new(2, "boom").into());
                let k = self.t.below(3);
                let ins = self.some_wires(k, true);
                let outs = self.row(2, p.linear);
                let l = |r: &[Type]| TypeArg::new_list(r.iter().map(|t| TypeArg::from(t.clone())));
                let tys: Vec<Type> = ins.iter().map(|x| x.2.clone()).collect();
                let mut w = vec![e];
                w.extend(ins.iter().map(|x| (x.0, x.1)));
                let n = self.emit(ext_op(&hugr::extension::prelude::PRELUDE, "panic", vec![l(&tys), l(&outs)]), &w);
                self.chain(n);
            }
            _ => {
                let nats: Vec<TypeArg> = self
                    .vars
                    .iter()
                    .enumerate()
                    .filter(|(_, v)| **v == TypeParam::max_nat_type())
                    .map(|(i, v)| TypeArg::new_var_use(i, v.clone()))
                    .collect();
                let a = if !nats.is_empty() && self.t.chance(2, 3) {
                    self.t.pick(&nats).clone()
                } else {
                    (self.t.below(20) as u64).into()
                };
                self.emit(ext_op(&hugr::extension::prelude::PRELUDE, "load_nat", vec![a]), &[]);
            }
        }
    }
    fn int_step(&mut self) {
        let ws: Vec<u8> = self.p.int_widths.to_vec();
        // prefer a width already present in a wire
        let have: Vec<u8> = {
            let f = self.frames.last().unwrap();
            ws.iter().copied().filter(|w| f.wires.iter().any(|x| x.ty == int_t(*w))).collect()
        };
        let w = if !have.is_empty() && self.t.chance(4, 5) { *self.t.pick(&have) } else { *self.t.pick(&ws) };
        let it = int_t(w);
        let e = &int_ops::EXTENSION;
        match self.t.below(7) {
            0 | 1 => {
                let nm = *self.t.pick(&["iadd", "isub", "imul", "iand", "ior", "ixor", "imax_u", "imax_s", "imin_u", "imin_s", "ishl", "ishr", "irotl", "irotr"]);
                let nm = if self.p.llvm && nm.starts_with("irot") { "isub" } else { nm };
                let ins = self.get_all(&[it.clone(), it]);
                self.emit(ext_op(e, nm, vec![(w as u64).into()]), &ins);
            }
            2 => {
                let nm = *self.t.pick(&["ieq", "ine", "ilt_u", "ilt_s", "igt_u", "igt_s", "ile_u", "ile_s", "ige_u", "ige_s"]);
                let ins = self.get_all(&[it.clone(), it]);
                self.emit(ext_op(e, nm, vec![(w as u64).into()]), &ins);
            }
            3 => {
                let nm = *self.t.pick(&["ineg", "inot", "iabs"]);
                let ins = self.get_all(&[it]);
                self.emit(ext_op(e, nm, vec![(w as u64).into()]), &ins);
            }
            4 => {
                let checked = !self.p.partial || self.t.flag();
                let nm = if checked {
                    *self.t.pick(&["idivmod_checked_u", "idiv_checked_u", "imod_checked_u", "idivmod_checked_s", "idiv_checked_s", "imod_checked_s"])
                } else {
                    *self.t.pick(&["idivmod_u", "idiv_u", "imod_u", "idivmod_s", "idiv_s", "imod_s"])
                };
                let ins = self.get_all(&[it.clone(), it]);
                let n = self.emit(ext_op(e, nm, vec![(w as u64).into()]), &ins);
                if !checked {
                    self.chain(n);
                }
            }
            5 => {
                let k = *self.t.pick(&ws);
                if k == COUNTER && self.p.bounded {
                    return;
                }
                let ins = self.get_all(&[it]);
                let widen = w <= k;
                let nm = match (widen, self.t.flag()) {
                    (true, false) => "iwiden_u",
                    (true, true) => "iwiden_s",
                    (false, false) => "inarrow_u",
                    (false, true) => "inarrow_s",
                };
                self.emit(ext_op(e, nm, vec![(w as u64).into(), (k as u64).into()]), &ins);
            }
            // lowered to a loop over the exponent
            _ if self.p.llvm && w > 4 => {}
            _ => {
                let ins = self.get_all(&[it.clone(), it]);
                self.emit(ext_op(e, "ipow", vec![(w as u64).into()]), &ins);
            }
        }
    }
    fn conv_step(&mut self) {
        let ws: Vec<u8> = self.p.int_widths.to_vec();
        let w = *self.t.pick(&ws);
        let e = &conversions::EXTENSION;
        let wa = || vec![TypeArg::from(w as u64)];
        match self.t.below(9) {
            0 => {
                let i = self.get(&bool_t());
                if ws.contains(&0) {
                    self.emit(ext_op(e, "ifrombool", vec![]), &[i]);
                }
            }
            1 => {
                if ws.contains(&0) {
                    let i = self.get(&int_t(0));
                    self.emit(ext_op(e, "itobool", vec![]), &[i]);
                }
            }
            2 if self.p.floats => {
                let i = self.get(&int_t(w));
                let nm = if self.t.flag() { "convert_u" } else { "convert_s" };
                self.emit(ext_op(e, nm, wa()), &[i]);
            }
            3 if self.p.floats => {
                let i = self.get(&float64_type());
                let nm = if self.t.flag() { "trunc_u" } else { "trunc_s" };
                self.emit(ext_op(e, nm, wa()), &[i]);
            }
            4 if self.p.strings && !self.p.llvm => {
                let i = self.get(&int_t(w));
                let nm = if self.t.flag() { "itostring_u" } else { "itostring_s" };
                self.emit(ext_op(e, nm, wa()), &[i]);
            }
            5 if ws.contains(&6) => {
                let i = self.get(&int_t(6));
                self.emit(ext_op(e, "itousize", vec![]), &[i]);
            }
            6 if ws.contains(&6) => {
                let i = self.get(&usize_t());
                self.emit(ext_op(e, "ifromusize", vec![]), &[i]);
            }
            7 if self.p.floats && ws.contains(&6) => {
                let i = self.get(&int_t(6));
                self.emit(ext_op(e, "bytecast_int64_to_float64", vec![]), &[i]);
            }
            8 if self.p.floats && ws.contains(&6) => {
                let i = self.get(&float64_type());
                self.emit(ext_op(e, "bytecast_float64_to_int64", vec![]), &[i]);
            }
            _ => {}
        }
    }
    fn struct_step(&mut self) {
        let pre = &hugr::extension::prelude::PRELUDE;
        match self.t.below(5) {
            0 => {
                let k = self.t.below(4);
                let ins = self.some_wires(k, true);
                let row = TypeArg::new_list(ins.iter().map(|x| TypeArg::from(x.2.clone())));
                let w: Vec<_> = ins.iter().map(|x| (x.0, x.1)).collect();
                self.emit(ext_op(pre, "MakeTuple", vec![row]), &w);
            }
            1 => {
                let c = self.find_local(|t| t.as_sum().is_some_and(|s| s.num_variants() == 1));
                if !c.is_empty() {
                    let i = *self.t.pick(&c);
                    let ty = self.frames.last().unwrap().wires[i].ty.clone();
                    let row = sum_rows(ty.as_sum().unwrap()).unwrap()[0].clone();
                    let w = self.take(i);
                    let row = TypeArg::new_list(row.into_iter().map(TypeArg::from));
                    self.emit(ext_op(pre, "UnpackTuple", vec![row]), &[w]);
                }
            }
            2 => {
                let ins = self.some_wires(1, true);
                if let Some((n, q, t)) = ins.first().cloned() {
                    self.emit(ext_op(pre, "Noop", vec![t.into()]), &[(n, q)]);
                }
            }
            3 => {
                let t = self.compound();
                if t != int_t(COUNTER)
                    && (t.copyable() || self.p.linear)
                    && let Some(s) = t.as_sum()
                    && let Some(v) = sum_rows(s)
                    && !v.is_empty()
                {
                    let tag = self.t.below(v.len());
                    let (n, q) = self.tagged(tag, &t);
                    if let Some(w) = self.fr().wires.iter_mut().find(|w| w.node == n && w.port == q) {
                        w.used = false;
                    }
                }
            }
            _ => {
                if self.p.llvm {
                    return;
                }
                let k = self.t.below(3);
                let ins = self.some_wires(k, true);
                let row = TypeArg::new_list(ins.iter().map(|x| TypeArg::from(x.2.clone())));
                let w: Vec<_> = ins.iter().map(|x| (x.0, x.1)).collect();
                let n = self.emit(ext_op(pre, "Barrier", vec![row]), &w);
                self.chain(n);
            }
        }
    }
    fn container_inputs(&mut self) -> (Vec<Type>, Vec<(Node, usize)>) {
        let k = self.t.below(4);
        let ins = self.some_wires(k, self.p.linear);
        (ins.iter().map(|x| x.2.clone()).collect(), ins.iter().map(|x| (x.0, x.1)).collect())
    }
    fn out_types(&mut self, max: usize) -> Vec<Type> {
        let n = self.t.below(max + 1);
        (0..n)
            .map(|_| {
                let f = self.frames.last().unwrap();
                let c: Vec<Type> = f.wires.iter().map(|w| w.ty.clone()).filter(|t| *t != int_t(COUNTER) || !self.p.bounded).collect();
                if !c.is_empty() && self.t.flag() {
                    let t = self.t.pick(&c).clone();
                    if t.copyable() || self.p.linear {
                        return t;
                    }
                }
                self.base(self.p.linear)
            })
            .collect()
    }
    fn mark_eff(&mut self, n: Node, e: bool) {
        if e {
            self.chain(n);
        }
    }
    fn dfg_step(&mut self) {
        let (tys, w) = self.container_inputs();
        let outs = self.out_types(2);
        let n = self.emit_container(ops::DFG { signature: Signature::new(tys.clone(), outs.clone()) }, &w);
        let f = self.region(n, &tys, outs.into_iter().map(Out::Ty).collect(), Some(n), false, vec![], false);
        self.mark_eff(n, f.had_eff);
        self.publish(n);
    }
    /// Adds a container node whose outputs are made available only after its
    /// contents exist.
    fn emit_container(&mut self, op: impl Into<OpType>, ins: &[(Node, usize)]) -> Node {
        let n = self.add(op);
        for (i, (m, q)) in ins.iter().enumerate() {
            self.h.connect(*m, *q, n, i);
        }
        n
    }
    fn publish(&mut self, n: Node) {
        let outs: Vec<Type> = self.h.get_optype(n).dataflow_signature().map(|s| s.output().iter().cloned().collect()).unwrap_or_default();
        for (i, ty) in outs.into_iter().enumerate() {
            self.fr().wires.push(Wire { node: n, port: i, ty, used: false });
        }
    }
    fn cond_step(&mut self) {
        // a sum to branch on
        let c = self.find_local(|t| t.as_sum().is_some_and(|s| s.num_variants() >= 1 && sum_rows(s).is_some()));
        let (sw, sty) = if !c.is_empty() && !self.t.chance(1, 5) {
            let i = c[c.len() - 1 - self.t.below(c.len())];
            let ty = self.frames.last().unwrap().wires[i].ty.clone();
            (self.take(i), ty)
        } else {
            let n = self.t.range(2, 3);
            let ty = if self.t.flag() {
                bool_t()
            } else {
                let v: Vec<TypeRow> = (0..n).map(|_| self.row(2, self.p.linear).into()).collect();
                Type::new_sum(v)
            };
            (self.get(&ty), ty)
        };
        let rows = sum_rows(sty.as_sum().unwrap()).unwrap();
        let (tys, w) = self.container_inputs();
        let outs = self.out_types(2);
        let mut ins = vec![sw];
        ins.extend(w);
        let n = self.emit_container(
            ops::Conditional {
                sum_rows: rows.iter().map(|r| r.clone().into()).collect(),
                other_inputs: tys.clone().into(),
                outputs: outs.clone().into(),
            },
            &ins,
        );
        let mut eff = false;
        for r in rows {
            let mut ci = r.clone();
            ci.extend(tys.clone());
            let case = self.h.add_node_with_parent(n, ops::Case { signature: Signature::new(ci.clone(), outs.clone()) });
            let f = self.region(case, &ci, outs.iter().cloned().map(Out::Ty).collect(), Some(n), false, vec![], true);
            eff |= f.had_eff;
        }
        self.mark_eff(n, eff);
        self.publish(n);
    }
    /// Builds a predicate of sum type `ty` in the current region which takes
    /// variant `fwd` once the counter `c` has reached zero.
    fn bounded_pred(&mut self, ty: &Type, fwd: usize, c: (Node, usize)) -> (Node, usize) {
        let rows = sum_rows(ty.as_sum().unwrap()).unwrap();
        if rows.len() == 1 {
            return self.tagged(0, ty);
        }
        let z = self.load_const(ConstInt::new_u(COUNTER, 0).unwrap().into());
        let nz = self.emit(ext_op(&int_ops::EXTENSION, "igt_u", vec![(COUNTER as u64).into()]), &[c, z]);
        let nz = self.wire_of(nz, 0);
        // pass along wires the rows may want
        let mut tys = vec![int_t(COUNTER)];
        let mut ws = vec![c];
        let mut want: Vec<Type> = rows.iter().flatten().cloned().collect();
        want.dedup();
        for t in want {
            if t == int_t(COUNTER) || tys.len() > 4 {
                continue;
            }
            let l = self.local(&t);
            if let Some(i) = l.last() {
                ws.push(self.take(*i));
                tys.push(t);
            }
        }
        let n = self.emit_container(
            ops::Conditional {
                sum_rows: vec![TypeRow::new(), TypeRow::new()],
                other_inputs: tys.clone().into(),
                outputs: vec![ty.clone()].into(),
            },
            &{
                let mut v = vec![nz];
                v.extend(ws);
                v
            },
        );
        let b = self.budget;
        self.budget = self.budget.min(2);
        for k in 0..2 {
            let case = self.h.add_node_with_parent(n, ops::Case { signature: Signature::new(tys.clone(), vec![ty.clone()]) });
            let out = if k == 0 {
                Out::Tagged(fwd, ty.clone())
            } else if self.t.flag() {
                let tag = self.t.below(rows.len());
                Out::Tagged(tag, ty.clone())
            } else {
                Out::Ty(ty.clone())
            };
            self.region(case, &tys, vec![out], Some(n), false, vec![], true);
        }
        self.budget = b - 1;
        self.publish(n);
        self.wire_of(n, 0)
    }
    fn halve_counter(&mut self) -> (Node, usize) {
        let c = self.get(&int_t(COUNTER));
        let one = self.load_const(ConstInt::new_u(COUNTER, 1).unwrap().into());
        let n = self.emit(ext_op(&int_ops::EXTENSION, "isub", vec![(COUNTER as u64).into()]), &[c, one]);
        // saturate: min(c, c-1)
        let n2 = self.emit(ext_op(&int_ops::EXTENSION, "imin_u", vec![(COUNTER as u64).into()]), &[c, (n, 0)]);
        // drop the intermediate (and the constants) from view, so that only the
        // saturated counter is ever picked up
        let keep = n2;
        let f = self.fr();
        f.wires.retain(|w| w.ty != int_t(COUNTER) || w.node == keep);
        (n2, 0)
    }
    fn loop_step(&mut self) {
        let bounded = self.p.bounded;
        let k = self.t.below(3);
        let ji = self.some_wires(k, self.p.linear);
        let k = self.t.below(3);
        let mut rest = self.some_wires(k, self.p.linear);
        let jo = self.out_types(2);
        let ji_t: Vec<Type> = ji.iter().map(|x| x.2.clone()).collect();
        if bounded {
            let c = self.get(&int_t(COUNTER));
            rest.push((c.0, c.1, int_t(COUNTER)));
        }
        let rest_t: Vec<Type> = rest.iter().map(|x| x.2.clone()).collect();
        let ins: Vec<(Node, usize)> = ji.iter().chain(rest.iter()).map(|x| (x.0, x.1)).collect();
        let n = self.emit_container(
            ops::TailLoop { just_inputs: ji_t.clone().into(), just_outputs: jo.clone().into(), rest: rest_t.clone().into() },
            &ins,
        );
        let mut bi = ji_t.clone();
        bi.extend(rest_t.clone());
        let pred = Type::new_sum([TypeRow::from(ji_t), TypeRow::from(jo)]);
        let eff = self.pred_region(n, &bi, &pred, 1, &rest_t, Some(n), vec![], bounded).had_eff;
        self.mark_eff(n, eff);
        self.publish(n);
    }
    /// A region whose first output is a predicate of type `pred`.
    #[allow(clippy::too_many_arguments)]
    fn pred_region(
        &mut self,
        parent: Node,
        ins: &[Type],
        pred: &Type,
        fwd: usize,
        other: &[Type],
        container: Option<Node>,
        dom: Vec<(Node, usize, Type)>,
        bounded: bool,
    ) -> Frame2 {
        let inp = self.h.add_node_with_parent(parent, ops::Input::new(ins.to_vec()));
        let mut ot = vec![pred.clone()];
        ot.extend(other.iter().cloned());
        let out = self.h.add_node_with_parent(parent, ops::Output::new(ot));
        self.frames.push(Frame {
            parent,
            container,
            dom,
            wires: ins.iter().enumerate().map(|(i, t)| Wire { node: inp, port: i, ty: t.clone(), used: false }).collect(),
            nodes: vec![inp],
            last_eff: None,
            boundary: false,
            in_case: true,
        });
        let depth = self.frames.iter().rev().take_while(|f| !f.boundary).count();
        let n = if self.budget <= 0 { 0 } else { self.t.below(1 + self.p.size / 3) };
        for _ in 0..n {
            if self.budget <= 0 {
                break;
            }
            self.budget -= 1;
            self.step(depth);
        }
        let mut outs = vec![];
        let has_counter = ins.contains(&int_t(COUNTER));
        let nvar = pred.as_sum().unwrap().num_variants();
        if bounded && has_counter {
            let c = self.halve_counter();
            if nvar > 1 {
                let (a, b) = self.bounded_pred(pred, fwd, c);
                outs.push(Out::Exact(a, b));
            } else {
                outs.push(Out::Tagged(0, pred.clone()));
            }
        } else if bounded {
            outs.push(Out::Tagged(fwd, pred.clone()));
        } else {
            outs.push(Out::Ty(pred.clone()));
        }
        outs.extend(other.iter().cloned().map(Out::Ty));
        self.close(out, outs)
    }
    fn cfg_step(&mut self) {
        let bounded = self.p.bounded;
        let (mut tys, mut w) = self.container_inputs();
        let with_counter = bounded && self.t.chance(2, 3);
        if with_counter {
            let c = self.get(&int_t(COUNTER));
            tys.push(int_t(COUNTER));
            w.push(c);
        }
        let outs = self.out_types(2);
        let n = self.emit_container(ops::CFG { signature: Signature::new(tys.clone(), outs.clone()) }, &w);
        let nb = self.t.range(1, if self.p.cfg_heavy { 7 } else { 4 });
        // block inputs; index nb is the exit
        let k = self.t.below(2);
        let mut suffix: Vec<Type> = (0..k).map(|_| self.base(false)).collect();
        if with_counter {
            suffix.push(int_t(COUNTER));
        }
        let mut inputs: Vec<Vec<Type>> = vec![tys.clone()];
        for _ in 1..nb {
            let mut r = self.row(2, self.p.linear);
            r.extend(suffix.clone());
            inputs.push(r);
        }
        inputs.push(outs.clone());
        // successors: the first is always forward
        let mut succ: Vec<Vec<usize>> = vec![];
        for b in 0..nb {
            let next = self.p.cfg_heavy && self.t.chance(3, 4);
            let mut s = vec![if next { b + 1 } else { self.t.range(b + 1, nb) }];
            let extra = if next { self.t.below(6).saturating_sub(3) } else { self.t.below(3) };
            for _ in 0..extra {
                let lo = if !bounded {
                    0
                } else if inputs[b].contains(&int_t(COUNTER)) {
                    // back edges only where the counter flows on
                    if inputs[0].contains(&int_t(COUNTER)) { 0 } else { 1 }
                } else {
                    b + 1
                };
                let lo = lo.min(nb);
                let x = nb - self.t.below(nb - lo + 1);
                if bounded && x <= b && !inputs[x].contains(&int_t(COUNTER)) {
                    continue;
                }
                s.push(x);
            }
            // position of the forward successor is arbitrary
            let j = self.t.below(s.len());
            s.swap(0, j);
            succ.push(s);
        }
        // dominators over reachable blocks
        let mut dom: Vec<Option<HashSet<usize>>> = vec![None; nb + 1];
        let mut reach = vec![false; nb + 1];
        let mut st = vec![0];
        while let Some(b) = st.pop() {
            if reach[b] {
                continue;
            }
            reach[b] = true;
            if b < nb {
                st.extend(succ[b].iter().copied());
            }
        }
        let all: HashSet<usize> = (0..=nb).filter(|b| reach[*b]).collect();
        for b in 0..=nb {
            if reach[b] {
                dom[b] = Some(if b == 0 { HashSet::from([0]) } else { all.clone() });
            }
        }
        loop {
            let mut changed = false;
            for b in 1..=nb {
                if !reach[b] {
                    continue;
                }
                let mut d: Option<HashSet<usize>> = None;
                for p in 0..nb {
                    if reach[p] && succ[p].contains(&b) {
                        let dp = dom[p].clone().unwrap();
                        d = Some(match d {
                            None => dp,
                            Some(x) => x.intersection(&dp).copied().collect(),
                        });
                    }
                }
                let mut d = d.unwrap_or_default();
                d.insert(b);
                if Some(&d) != dom[b].as_ref() {
                    dom[b] = Some(d);
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        // other outputs: a common suffix of the successors' inputs
        let mut blocks = vec![];
        let mut rows_of = vec![];
        for b in 0..nb {
            let mut l = inputs[succ[b][0]].len();
            for s in &succ[b] {
                let (x, y) = (&inputs[succ[b][0]], &inputs[*s]);
                let c = x.iter().rev().zip(y.iter().rev()).take_while(|(a, b)| a == b).count();
                l = l.min(c);
            }
            let k = l - self.t.below(l + 1);
            let first = &inputs[succ[b][0]];
            let other: Vec<Type> = first[first.len() - k..].to_vec();
            let rows: Vec<TypeRow> = succ[b].iter().map(|s| inputs[*s][..inputs[*s].len() - k].to_vec().into()).collect();
            rows_of.push((rows.clone(), other.clone()));
            let op = ops::DataflowBlock { inputs: inputs[b].clone().into(), other_outputs: other.into(), sum_rows: rows };
            blocks.push(op);
        }
        // node order: entry first, exit second (as required), others in random order
        let mut ids = vec![None; nb + 1];
        ids[0] = Some(self.h.add_node_with_parent(n, blocks[0].clone()));
        ids[nb] = Some(self.h.add_node_with_parent(n, ops::ExitBlock { cfg_outputs: outs.clone().into() }));
        let mut rest: Vec<usize> = (1..nb).collect();
        self.t.shuffle(&mut rest);
        for b in rest {
            ids[b] = Some(self.h.add_node_with_parent(n, blocks[b].clone()));
        }
        let ids: Vec<Node> = ids.into_iter().map(|x| x.unwrap()).collect();
        for b in 0..nb {
            for (i, s) in succ[b].iter().enumerate() {
                self.h.connect(ids[b], i, ids[*s], 0);
            }
        }
        // bodies, dominators first
        let mut order: Vec<usize> = (0..nb).collect();
        order.sort_by_key(|b| (dom[*b].as_ref().map(|d| d.len()).unwrap_or(99), *b));
        let mut wires_of: Vec<Vec<(Node, usize, Type)>> = vec![vec![]; nb];
        let mut eff = false;
        for b in order {
            let mut dw = vec![];
            if self.p.nonlocal
                && let Some(d) = &dom[b]
            {
                for x in d.iter().copied().filter(|x| *x != b && *x < nb).collect::<std::collections::BTreeSet<_>>() {
                    dw.extend(wires_of[x].iter().filter(|w| w.2 != int_t(COUNTER)).cloned());
                }
            }
            let (rows, other) = rows_of[b].clone();
            let pred = Type::new_sum(rows);
            let fwd = succ[b].iter().position(|s| *s > b).unwrap();
            let f = self.pred_region(ids[b], &inputs[b], &pred, fwd, &other, Some(n), dw, bounded);
            eff |= f.had_eff;
            wires_of[b] = f.wires;
        }
        self.mark_eff(n, eff);
        self.publish(n);
    }
    fn call_step(&mut self) {
        let c: Vec<usize> = (0..self.funcs.len()).filter(|i| self.callable(*i)).collect();
        if c.is_empty() {
            return;
        }
        let f = self.funcs[*self.t.pick(&c)].clone();
        let args: Vec<TypeArg> = f.sig.params().to_vec().iter().map(|p| self.type_arg(p)).collect();
        let Ok(op) = ops::Call::try_new(f.sig.clone(), args) else { return };
        let port = op.called_function_port();
        let ins: Vec<Type> = op.instantiation.input().iter().cloned().collect();
        if op.instantiation.output().iter().any(|t| *t == int_t(COUNTER)) && self.p.bounded {
            return;
        }
        let w = self.get_all(&ins);
        let n = self.emit(op, &w);
        self.h.connect(f.node, 0, n, port.index());
        self.chain(n);
    }
    fn indirect_step(&mut self) {
        let have = self.find_local(|t| matches!(t.as_type_enum(), TypeEnum::Function(_)));
        if !have.is_empty() && self.t.chance(2, 3) {
            let i = *self.t.pick(&have);
            let TypeEnum::Function(f) = self.frames.last().unwrap().wires[i].ty.as_type_enum().clone() else { unreachable!() };
            let Ok(sig) = Signature::try_from((*f).clone()) else { return };
            let mut ins = vec![self.take(i)];
            let tys: Vec<Type> = sig.input().iter().cloned().collect();
            ins.extend(self.get_all(&tys));
            let n = self.emit(ops::CallIndirect { signature: sig }, &ins);
            self.chain(n);
        } else {
            let c: Vec<usize> = (0..self.funcs.len()).filter(|i| self.callable(*i)).collect();
            if c.is_empty() {
                return;
            }
            let f = self.funcs[*self.t.pick(&c)].clone();
            let args: Vec<TypeArg> = f.sig.params().to_vec().iter().map(|p| self.type_arg(p)).collect();
            let Ok(op) = ops::LoadFunction::try_new(f.sig.clone(), args) else { return };
            let port = op.function_port();
            let n = self.emit(op, &[]);
            self.h.connect(f.node, 0, n, port.index());
        }
    }
    fn coll_step(&mut self) {
        let us = usize_t();
        let is = |t: &Type| {
            t.as_extension().is_some_and(|x| {
                matches!(x.extension().as_ref() as &str, "collections.array" | "collections.value_array" | "collections.borrow_arr")
                    && matches!(x.args(), [TypeArg::BoundedNat(_), _])
                    || x.extension().as_ref() as &str == "collections.list"
                    || x.extension().as_ref() as &str == "collections.static_array"
            })
        };
        let have = self.find_local(is);
        if have.is_empty() || self.t.chance(1, 4) {
            // make one
            let e = self.base(self.p.linear);
            match self.t.below(if self.p.llvm { 3 } else { 5 }) {
                0 | 3 => {
                    let k = self.t.below(4);
                    let ins = self.get_all(&vec![e.clone(); k]);
                    let x = match self.t.below(if self.p.llvm { 2 } else { 3 }) {
                        0 => &array::EXTENSION,
                        1 if !self.p.llvm => &value_array::EXTENSION,
                        _ => &borrow_array::EXTENSION,
                    };
                    self.emit(ext_op(x, "new_array", vec![(k as u64).into(), e.into()]), &ins);
                }
                1 => {
                    let ty = if self.p.llvm { static_array::static_array_type(int_t(*self.p.int_widths.last().unwrap())) } else { list::list_type(e) };
                    if let Some(v) = self.const_value(&ty, 3) {
                        let (n, _) = self.load_const(v);
                        if let Some(w) = self.fr().wires.iter_mut().find(|w| w.node == n) {
                            w.used = false;
                        }
                    }
                }
                2 => {
                    let e = self.base(false);
                    let ty = static_array::static_array_type(e);
                    if self.p.llvm {
                        return;
                    }
                    if let Some(v) = self.const_value(&ty, 3) {
                        self.load_const(v);
                    }
                }
                _ => {
                    let ty = list::list_type(e);
                    let (n, q) = self.produce(&ty);
                    if let Some(w) = self.fr().wires.iter_mut().find(|w| w.node == n && w.port == q) {
                        w.used = false;
                    }
                }
            }
            return;
        }
        let i = *self.t.pick(&have);
        let ty = self.frames.last().unwrap().wires[i].ty.clone();
        let x = ty.as_extension().unwrap().clone();
        let e = x.extension().to_string();
        match e.as_str() {
            "collections.list" => {
                let el = x.args()[0].as_runtime().unwrap();
                let a: Vec<TypeArg> = vec![el.clone().into()];
                let lx = &list::EXTENSION;
                match self.t.below(6) {
                    0 => {
                        let w = self.take(i);
                        let v = self.get(&el);
                        self.emit(ext_op(lx, "push", a), &[w, v]);
                    }
                    1 => {
                        let w = self.take(i);
                        self.emit(ext_op(lx, "pop", a), &[w]);
                    }
                    2 if !self.p.foldable => {
                        let w = self.take(i);
                        self.emit(ext_op(lx, "length", a), &[w]);
                    }
                    3 if el.copyable() => {
                        let w = self.take(i);
                        let k = self.get(&us);
                        self.emit(ext_op(lx, "get", a), &[w, k]);
                    }
                    k => {
                        let w = self.take(i);
                        let ix = self.get(&us);
                        let v = self.get(&el);
                        self.emit(ext_op(lx, if k == 4 || self.p.foldable { "set" } else { "insert" }, a), &[w, ix, v]);
                    }
                }
            }
            "collections.static_array" => {
                let el = x.args()[0].as_runtime().unwrap();
                let a: Vec<TypeArg> = vec![el.into()];
                let w = self.take(i);
                if self.t.flag() {
                    self.emit(ext_op(&static_array::EXTENSION, "len", a), &[w]);
                } else {
                    let k = self.get(&us);
                    self.emit(ext_op(&static_array::EXTENSION, "get", a), &[w, k]);
                }
            }
            _ => {
                let [TypeArg::BoundedNat(k), el] = x.args() else { unreachable!() };
                let k = *k;
                let el = el.as_runtime().unwrap();
                let a: Vec<TypeArg> = vec![k.into(), el.clone().into()];
                let ax = match e.as_str() {
                    "collections.array" => &array::EXTENSION,
                    "collections.borrow_arr" => &borrow_array::EXTENSION,
                    _ => &value_array::EXTENSION,
                };
                let w = self.take(i);
                match self.t.below(7) {
                    0 if el.copyable() => {
                        let ix = self.get(&us);
                        self.emit(ext_op(ax, "get", a), &[w, ix]);
                    }
                    1 => {
                        let ix = self.get(&us);
                        let v = self.get(&el);
                        self.emit(ext_op(ax, "set", a), &[w, ix, v]);
                    }
                    2 => {
                        let ix = self.get(&us);
                        let jx = self.get(&us);
                        self.emit(ext_op(ax, "swap", a), &[w, ix, jx]);
                    }
                    3 if k > 0 => {
                        let nm = if self.t.flag() { "pop_left" } else { "pop_right" };
                        self.emit(ext_op(ax, nm, a), &[w]);
                    }
                    4 if el.copyable() && e != "collections.value_array" => {
                        self.emit(ext_op(ax, "clone", a), &[w]);
                    }
                    5 if e != "collections.array" => {
                        self.emit(ext_op(ax, "to_array", a), &[w]);
                    }
                    _ => {
                        self.emit(ext_op(ax, "unpack", a), &[w]);
                    }
                }
            }
        }
    }

    // ------------------------------------------------------------ after
    /// Reorders siblings where the order carries no meaning.
    fn shuffle(&mut self) {
        let parents: Vec<Node> = self.h.nodes().collect();
        for p in parents {
            let fixed = match self.h.get_optype(p) {
                OpType::Module(_) => 0,
                OpType::FuncDefn(_) | OpType::DFG(_) | OpType::Case(_) | OpType::TailLoop(_) | OpType::DataflowBlock(_) | OpType::CFG(_) => 2,
                _ => continue,
            };
            if !self.t.chance(1, 4) {
                continue;
            }
            let ch: Vec<Node> = self.h.children(p).collect();
            if ch.len() < fixed + 2 {
                continue;
            }
            let n = self.t.range(1, 3);
            for _ in 0..n {
                let a = self.t.range(fixed, ch.len() - 1);
                let b = self.t.range(fixed, ch.len() - 1);
                if a != b {
                    if self.t.flag() {
                        self.h.move_after_sibling(ch[a], ch[b]);
                    } else {
                        self.h.move_before_sibling(ch[a], ch[b]);
                    }
                }
            }
        }
    }
    fn add_metadata(&mut self) {
        let ns: Vec<Node> = self.h.nodes().collect();
        let k = self.t.below(4);
        for _ in 0..k {
            let n = *self.t.pick(&ns);
            let key = if self.t.flag() { "k".to_string() } else { format!("meta.{}", gen_string(self.t)) };
            let v = gen_json(self.t, 2);
            self.h.set_metadata(n, key, v);
        }
    }
}
pub struct Frame2 {
    pub wires: Vec<(Node, usize, Type)>,
    pub had_eff: bool,
}

fn e_copy(t: &Type) -> Type {
    t.clone()
}
fn ext_x(s: &str, nats: Vec<u64>, c: Type, b: Vec<u8>, f: f64) -> Type {
    ext::ty(
        "X",
        vec![
            TypeArg::new_string(s),
            TypeArg::new_list(nats.into_iter().map(TypeArg::from)),
            TypeArg::new_tuple([c.into(), TypeArg::Bytes(b.into())]),
            TypeArg::Float(f.into()),
        ],
    )
}
/// Rows of a sum without row variables.
pub fn sum_rows(s: &hugr::types::SumType) -> Option<Vec<Vec<Type>>> {
    s.variants()
        .map(|r| r.iter().map(|t| t.clone().try_into_type().ok()).collect::<Option<Vec<Type>>>())
        .collect()
}
pub fn type_has_vars(t: &Type) -> bool {
    let s = crate::canon::ty(t);
    s.contains('$') || s.contains("var") || s.contains("row:")
}
pub fn sig_has_vars(s: &Signature) -> bool {
    s.input().iter().chain(s.output().iter()).any(type_has_vars)
}

