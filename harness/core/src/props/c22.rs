//! C22: type arguments and schemes are checked and substituted soundly.
use crate::engine::*;
use hugr::Extension;
use hugr::extension::{ExtensionId, TypeDefBound};
use hugr::types::type_param::{SeqPart, check_term_type, check_term_types};
use hugr::types::{CustomType, FuncValueType, PolyFuncType, PolyFuncTypeRV, Signature, SumType, Term, Type, TypeBound, TypeEnum, TypeRV, TypeRowRV};
use std::hash::{Hash, Hasher};
use std::sync::{Arc, LazyLock};

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        rule: "random parameter lists (types with bounds, naturals with bounds, strings, bytes, floats, nested lists and tuples, kinds, static constants) and arguments for them in an outer context, written in random equivalent list and tuple spellings, matching or damaged; acceptance, substitution, copyability, equality, hashes, texts and JSON are compared with a separate model of types; non-trivial: the arguments contain a variable, a nested list or tuple or a row, and are not all taken from one kind",
        assumptions: &["tuples with spliced variables are documented as unchecked and not generated", "a variable standing for a list of types is not used as one item of a list of lists of types, except in the check of the recorded finding"],
        subs: vec![
            Sub { name: "check", quick: 250_000, thorough: 20_000_000, f: check },
            Sub { name: "instantiate", quick: 150_000, thorough: 12_000_000, f: instantiate },
            Sub { name: "equality", quick: 150_000, thorough: 12_000_000, f: equality },
            Sub { name: "validate", quick: 150_000, thorough: 12_000_000, f: validate },
        ],
        findings: vec![Finding { id: "row-item-ambiguity", still_present: row_item }],
    }
}

/// `[#0]` with `#0: List[Type]` is accepted where a list of lists of types is wanted, but substitution splices it.
fn row_item() -> bool {
    let list = Term::new_list_type(TypeBound::Linear);
    let wanted = Term::new_list_type(list.clone());
    let arg = Term::new_list([Term::new_var_use(0, list.clone())]);
    if check_term_type(&arg, &wanted).is_err() {
        return false;
    }
    let def = EXT.get_type("LLT").unwrap();
    let body = Signature::new(vec![Type::new_extension(def.instantiate([arg]).unwrap())], vec![]);
    let p = PolyFuncType::new(vec![list], body);
    if p.validate().is_err() {
        return false;
    }
    let one = Term::new_list([Term::from(Type::UNIT)]);
    let after = no_panic(|| p.instantiate(&[one.clone()]).unwrap());
    let Ok(after) = after else { return true };
    let TypeEnum::Extension(c) = after.input()[0].as_type_enum() else { return true };
    c.args() != [Term::new_list([one])]
}

/// Kinds of argument.
#[derive(Clone, PartialEq, Debug)]
enum P {
    Ty(bool),
    Nat(Option<u64>),
    Str,
    Byt,
    Flt,
    List(Box<P>),
    Tup(Vec<P>),
    Const(Box<T>),
    Static,
}
/// Arguments. A variable for a type is `Ty(T::Var)`.
#[derive(Clone, PartialEq, Debug)]
enum A {
    Ty(T),
    Nat(u64),
    Str(String),
    Byt(Vec<u8>),
    Flt(u64),
    List(Vec<(bool, A)>),
    Tup(Vec<A>),
    Var(usize, P),
    Kind(P),
}
/// Types; `Row` only inside rows. `true` is copyable.
#[derive(Clone, PartialEq, Debug)]
enum T {
    Ext(usize, Vec<A>),
    Fn(Vec<T>, Vec<T>),
    Sum(Vec<Vec<T>>),
    Var(usize, bool),
    Row(usize, bool),
}
enum B {
    Is(bool),
    From(Vec<usize>),
}
fn list(p: P) -> P {
    P::List(Box::new(p))
}
fn defs() -> Vec<(&'static str, Vec<P>, B)> {
    vec![
        ("Q", vec![], B::Is(false)),
        ("C", vec![], B::Is(true)),
        ("Box", vec![P::Ty(false)], B::From(vec![0])),
        ("BoxC", vec![P::Ty(true)], B::Is(true)),
        ("Rows", vec![list(P::Ty(false))], B::Is(false)),
        ("RowsC", vec![list(P::Ty(true))], B::Is(true)),
        ("Arr", vec![P::Nat(None), P::Ty(false)], B::From(vec![1])),
        ("Small", vec![P::Nat(Some(4))], B::Is(true)),
        ("Sbf", vec![P::Str, P::Byt, P::Flt], B::Is(true)),
        ("LLN", vec![list(list(P::Nat(None)))], B::Is(false)),
        ("Tup", vec![P::Tup(vec![P::Ty(false), P::Str])], B::Is(false)),
        ("Pair", vec![P::Ty(false), P::Ty(false)], B::From(vec![0, 1])),
        ("LTup", vec![list(P::Tup(vec![P::Nat(Some(10)), P::Ty(true)]))], B::Is(true)),
        ("LLT", vec![list(list(P::Ty(false)))], B::Is(false)),
        ("Snd", vec![P::Ty(false), P::Str, P::Ty(false)], B::From(vec![2])),
        ("TupL", vec![P::Tup(vec![list(P::Ty(true)), P::Tup(vec![])])], B::Is(true)),
        ("LS", vec![list(P::Str)], B::Is(true)),
        ("Meta", vec![P::Static], B::Is(true)),
    ]
}
static DEFS: LazyLock<Vec<(&'static str, Vec<P>, B)>> = LazyLock::new(defs);
const ID: ExtensionId = ExtensionId::new_unchecked("vtest.tp");
static EXT: LazyLock<Arc<Extension>> = LazyLock::new(|| {
    Extension::new_arc(ID, hugr::extension::Version::new(0, 1, 0), |e, r| {
        for (n, ps, b) in DEFS.iter() {
            let b = match b {
                B::Is(true) => TypeDefBound::copyable(),
                B::Is(false) => TypeDefBound::any(),
                B::From(v) => TypeDefBound::from_params(v.clone()),
            };
            e.add_type((*n).into(), ps.iter().map(|p| kind(p, &mut None)).collect(), String::new(), b, r).unwrap();
        }
    })
});

// ---- the model ----
fn copyable(t: &T) -> bool {
    match t {
        T::Ext(d, args) => match &DEFS[*d].2 {
            B::Is(b) => *b,
            B::From(v) => v.iter().all(|i| matches!(&args[*i], A::Ty(t) if copyable(t))),
        },
        T::Fn(..) => true,
        T::Sum(rows) => rows.iter().flatten().all(copyable),
        T::Var(_, b) | T::Row(_, b) => *b,
    }
}
/// Every argument for `a` is one for `b`.
fn narrower(a: &P, b: &P) -> bool {
    match (a, b) {
        (P::Ty(x), P::Ty(y)) => *x || !*y,
        (P::Nat(_), P::Nat(None)) => true,
        (P::Nat(Some(x)), P::Nat(Some(y))) => x <= y,
        (P::List(x), P::List(y)) => narrower(x, y),
        (P::Tup(x), P::Tup(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| narrower(x, y)),
        (P::Const(x), P::Const(y)) => x == y,
        _ => a == b && matches!(a, P::Str | P::Byt | P::Flt | P::Static),
    }
}
fn fits(a: &A, p: &P) -> bool {
    match (a, p) {
        (A::Var(_, d), _) => narrower(d, p),
        (A::Ty(t), P::Ty(c)) => !*c || copyable(t),
        (A::Nat(n), P::Nat(b)) => b.is_none_or(|b| *n < b),
        (A::Str(_), P::Str) | (A::Byt(_), P::Byt) | (A::Flt(_), P::Flt) | (A::Kind(_), P::Static) => true,
        (A::List(parts), P::List(e)) => parts.iter().all(|(splice, a)| {
            if *splice {
                fits(a, p)
            } else {
                // A variable for a row may be written like an item.
                fits(a, e) || matches!((a, &**e), (A::Var(_, P::List(d)), P::Ty(c)) if matches!(**d, P::Ty(b) if b || !*c))
            }
        }),
        (A::Tup(xs), P::Tup(ps)) => xs.len() == ps.len() && xs.iter().zip(ps).all(|(x, p)| fits(x, p)),
        _ => false,
    }
}
/// The one spelling of each argument and kind.
fn flat(a: A) -> A {
    match a {
        A::List(parts) => {
            let mut out = vec![];
            for (s, a) in parts {
                match (s, flat(a)) {
                    (true, A::List(xs)) => out.extend(xs),
                    (_, a @ A::Ty(T::Row(..))) => out.push((true, row_arg(a))),
                    (s, a) => out.push((s, a)),
                }
            }
            if out.len() == 1 && out[0].0 {
                return out.pop().unwrap().1;
            }
            A::List(out)
        }
        A::Tup(xs) => A::Tup(xs.into_iter().map(flat).collect()),
        A::Ty(t) => A::Ty(flat_t(t)),
        a => a,
    }
}
fn row_arg(a: A) -> A {
    match a {
        A::Ty(T::Row(i, b)) => A::Var(i, list(P::Ty(b))),
        a => a,
    }
}
fn flat_t(t: T) -> T {
    match t {
        T::Ext(d, args) => T::Ext(d, args.into_iter().map(flat).collect()),
        T::Fn(i, o) => T::Fn(i.into_iter().map(flat_t).collect(), o.into_iter().map(flat_t).collect()),
        T::Sum(r) => T::Sum(r.into_iter().map(|r| r.into_iter().map(flat_t).collect()).collect()),
        t => t,
    }
}
fn subst(a: &A, s: &[A]) -> A {
    match a {
        A::Ty(t) => A::Ty(subst_t(t, s)),
        A::List(parts) => flat(A::List(parts.iter().map(|(p, a)| (*p, subst(a, s))).collect())),
        A::Tup(xs) => A::Tup(xs.iter().map(|x| subst(x, s)).collect()),
        A::Var(i, _) => flat(s[*i].clone()),
        a => a.clone(),
    }
}
fn subst_t(t: &T, s: &[A]) -> T {
    match t {
        T::Ext(d, args) => T::Ext(*d, args.iter().map(|a| subst(a, s)).collect()),
        T::Fn(i, o) => T::Fn(subst_r(i, s), subst_r(o, s)),
        T::Sum(rows) => T::Sum(rows.iter().map(|r| subst_r(r, s)).collect()),
        T::Var(i, _) => match &s[*i] {
            A::Ty(t) => flat_t(t.clone()),
            a => panic!("harness: {a:?} for a type"),
        },
        T::Row(..) => panic!("harness: row"),
    }
}
fn subst_r(r: &[T], s: &[A]) -> Vec<T> {
    let row = |a: A| match a {
        A::Var(j, P::List(b)) => match *b {
            P::Ty(b) => T::Row(j, b),
            b => panic!("harness: {b:?} in row"),
        },
        A::Ty(t) => t,
        a => panic!("harness: {a:?} in row"),
    };
    r.iter()
        .flat_map(|t| match t {
            T::Row(i, _) => match flat(s[*i].clone()) {
                A::List(parts) => parts.into_iter().map(|(_, a)| row(a)).collect::<Vec<_>>(),
                a => vec![row(a)],
            },
            t => vec![subst_t(t, s)],
        })
        .collect()
}

// ---- to the library's terms, spelled at random ----
type Tp<'a> = Option<&'a mut Tape>;
fn kind(p: &P, t: &mut Tp) -> Term {
    match p {
        P::Ty(c) => Term::RuntimeType(bound(*c)),
        P::Nat(None) => Term::max_nat_type(),
        P::Nat(Some(n)) => Term::bounded_nat_type((*n).try_into().unwrap()),
        P::Str => Term::StringType,
        P::Byt => Term::BytesType,
        P::Flt => Term::FloatType,
        P::List(p) => Term::new_list_type(kind(p, t)),
        P::Tup(ps) => Term::new_tuple_type(Term::new_list(ps.iter().map(|p| kind(p, t)).collect::<Vec<_>>())),
        P::Const(ty) => Term::new_const(ty1(ty, &mut None)),
        P::Static => Term::StaticType,
    }
}
fn bound(c: bool) -> TypeBound {
    if c { TypeBound::Copyable } else { TypeBound::Linear }
}
fn odd(t: &mut Tp, n: u64) -> bool {
    t.as_mut().is_some_and(|t| t.chance(1, n))
}
fn term(a: &A, t: &mut Tp) -> Term {
    match a {
        A::Ty(ty) => Term::from(ty1(ty, t)),
        A::Nat(n) => Term::BoundedNat(*n),
        A::Str(s) => Term::String(s.clone()),
        A::Byt(b) => Term::Bytes(b.clone().into()),
        A::Flt(f) => Term::Float(f64::from_bits(*f).into()),
        A::Var(i, p) => Term::new_var_use(*i, kind(p, &mut None)),
        A::Kind(p) => kind(p, t),
        A::Tup(xs) => {
            let xs: Vec<Term> = xs.iter().map(|x| term(x, t)).collect();
            if odd(t, 6) {
                let k = t.as_mut().unwrap().below(xs.len() + 1);
                Term::new_tuple_concat([Term::new_tuple(xs[..k].to_vec()), Term::new_tuple(xs[k..].to_vec())])
            } else {
                Term::new_tuple(xs)
            }
        }
        A::List(parts) => {
            let row = |a: &A| matches!(a, A::Var(_, P::List(p)) if matches!(**p, P::Ty(_)));
            let odd_list = odd(t, 5);
            // A row variable may be spelled as an item if the others are types.
            let types = parts.iter().all(|(s, a)| matches!(a, A::Ty(_)) || *s && row(a));
            if !parts.is_empty() && types && !odd_list && t.as_mut().is_some_and(|t| t.flag()) {
                return Term::new_list(parts.iter().map(|(_, a)| term(a, t)).collect::<Vec<_>>());
            }
            if !odd_list {
                let ps: Vec<_> = parts.iter().map(|(s, a)| if *s { SeqPart::Splice(term(a, t)) } else { SeqPart::Item(term(a, t)) }).collect();
                return Term::new_list_from_parts(ps);
            }
            let mut out = vec![];
            let mut items = vec![];
            for (s, a) in parts {
                let x = term(a, t);
                if *s {
                    if !items.is_empty() || odd(t, 4) {
                        out.push(Term::new_list(std::mem::take(&mut items)));
                    }
                    out.push(x);
                } else {
                    items.push(x);
                    if odd(t, 3) {
                        out.push(Term::new_list(std::mem::take(&mut items)));
                        if odd(t, 3) {
                            out = vec![Term::new_list_concat(out)];
                        }
                    }
                }
            }
            if !items.is_empty() || odd(t, 4) {
                out.push(Term::new_list(items));
            }
            Term::new_list_concat(out)
        }
    }
}
fn tyrv(t: &T, tp: &mut Tp) -> TypeRV {
    match t {
        T::Row(i, b) => TypeRV::new_row_var_use(*i, bound(*b)),
        t => ty1(t, tp).into(),
    }
}
fn row(r: &[T], tp: &mut Tp) -> TypeRowRV {
    r.iter().map(|t| tyrv(t, tp)).collect::<Vec<_>>().into()
}
fn ty1(t: &T, tp: &mut Tp) -> Type {
    match t {
        T::Ext(d, args) => {
            let args: Vec<Term> = args.iter().map(|a| term(a, tp)).collect();
            Type::new_extension(CustomType::new(DEFS[*d].0, args, ID, bound(copyable(t)), &Arc::downgrade(&EXT)))
        }
        T::Fn(i, o) => Type::new_function(FuncValueType::new(row(i, tp), row(o, tp))),
        T::Sum(rows) => {
            if rows.iter().all(Vec::is_empty) && rows.len() < 256 && odd(tp, 2) {
                Type::new_unit_sum(rows.len() as u8)
            } else if rows.len() == 1 && odd(tp, 2) {
                Type::new_tuple(row(&rows[0], tp))
            } else {
                let rows: Vec<TypeRowRV> = rows.iter().map(|r| row(r, tp)).collect();
                if odd(tp, 4) { Type::from(SumType::General { rows }) } else { Type::new_sum(rows) }
            }
        }
        T::Var(i, b) => Type::new_var_use(*i, bound(*b)),
        T::Row(..) => panic!("harness: row as type"),
    }
}

// ---- and back ----
fn un_kind(t: &Term) -> Option<P> {
    Some(match t {
        Term::RuntimeType(b) => P::Ty(*b == TypeBound::Copyable),
        Term::BoundedNatType(b) => P::Nat(b.value().map(|v| v.get())),
        Term::StringType => P::Str,
        Term::BytesType => P::Byt,
        Term::FloatType => P::Flt,
        Term::StaticType => P::Static,
        Term::ListType(t) => list(un_kind(t)?),
        Term::TupleType(t) => match &**t {
            Term::List(ts) => P::Tup(ts.iter().map(un_kind).collect::<Option<_>>()?),
            _ => return None,
        },
        Term::ConstType(t) => P::Const(Box::new(un_ty(&(**t).clone().into()).ok()?)),
        _ => return None,
    })
}
fn un_term(t: &Term) -> Result<A, String> {
    Ok(flat(match t {
        Term::Runtime(t) => A::Ty(un_ty(&t.clone().into())?),
        Term::BoundedNat(n) => A::Nat(*n),
        Term::String(s) => A::Str(s.clone()),
        Term::Bytes(b) => A::Byt(b.to_vec()),
        Term::Float(f) => A::Flt(f.into_inner().to_bits()),
        Term::List(ts) => {
            let xs = ts.iter().map(un_term).collect::<Result<Vec<_>, _>>()?;
            let types = xs.iter().all(|x| matches!(x, A::Ty(_) | A::Var(..)));
            A::List(xs.into_iter().map(|x| (types && matches!(&x, A::Var(_, P::List(p)) if matches!(**p, P::Ty(_))), x)).collect())
        }
        Term::ListConcat(ts) => A::List(ts.iter().map(|t| Ok((true, un_term(t)?))).collect::<Result<_, String>>()?),
        Term::Tuple(ts) => A::Tup(ts.iter().map(un_term).collect::<Result<_, _>>()?),
        Term::TupleConcat(ts) => {
            let mut out = vec![];
            for t in ts {
                match un_term(t)? {
                    A::Tup(xs) => out.extend(xs),
                    x => return Err(format!("spliced {x:?}")),
                }
            }
            A::Tup(out)
        }
        Term::Variable(v) => {
            let s = serde_json::to_value(v).map_err(|e| e.to_string())?;
            let d: Term = serde_json::from_value(s["cached_decl"].clone()).map_err(|e| e.to_string())?;
            A::Var(v.index(), un_kind(&d).ok_or_else(|| format!("decl {d}"))?)
        }
        t => A::Kind(un_kind(t).ok_or_else(|| format!("term {t}"))?),
    }))
}
fn un_row(r: &TypeRowRV) -> Result<Vec<T>, String> {
    r.iter().map(un_ty).collect()
}
/// Reads a type, checking that what it says about copying is right at every level.
fn un_ty(t: &TypeRV) -> Result<T, String> {
    let out = match t.as_type_enum() {
        TypeEnum::Extension(c) => {
            let d = DEFS.iter().position(|d| d.0 == c.name().as_str()).ok_or("unknown type")?;
            let out = T::Ext(d, c.args().iter().map(un_term).collect::<Result<_, _>>()?);
            if (c.bound() == TypeBound::Copyable) != copyable(&out) {
                return Err(format!("the custom type {c} says {:?}", c.bound()));
            }
            if c.extension() != &ID {
                return Err(format!("extension {}", c.extension()));
            }
            out
        }
        TypeEnum::Function(f) => T::Fn(un_row(f.input())?, un_row(f.output())?),
        TypeEnum::Sum(s) => {
            let rows = s.variants().map(un_row).collect::<Result<Vec<_>, _>>()?;
            if s.num_variants() != rows.len() || (0..rows.len() + 1).any(|i| s.get_variant(i).map(un_row) != rows.get(i).map(|r| Ok(r.clone()))) {
                return Err(format!("the variants of {s} disagree with each other"));
            }
            if s.as_tuple().map(un_row) != (rows.len() == 1).then(|| Ok(rows[0].clone())) {
                return Err(format!("as_tuple of {s}"));
            }
            let opt = rows.len() == 2 && rows[0].is_empty();
            if s.as_option().map(un_row) != opt.then(|| Ok(rows[1].clone())) {
                return Err(format!("as_option of {s}"));
            }
            if s.as_unary_option().map(un_ty) != (opt && rows[1].len() == 1).then(|| Ok(rows[1][0].clone())) {
                return Err(format!("as_unary_option of {s}"));
            }
            T::Sum(rows)
        }
        TypeEnum::Variable(i, b) => T::Var(*i, *b == TypeBound::Copyable),
        TypeEnum::RowVar(r) => T::Row(r.0, r.1 == TypeBound::Copyable),
        t => return Err(format!("unexpected {t}")),
    };
    if t.copyable() != copyable(&out) || (t.least_upper_bound() == TypeBound::Copyable) != copyable(&out) {
        return Err(format!("the bound of {t} is {:?}", t.least_upper_bound()));
    }
    Ok(out)
}

// ---- generation ----
struct Gen<'a> {
    t: &'a mut Tape,
    ctx: Vec<P>,
    /// May `List(Ty)` variables be items of lists of lists?
    items: bool,
}
impl Gen<'_> {
    fn p(&mut self, depth: usize) -> P {
        match self.t.weighted(&[6, 4, 2, 1, 1, if depth > 0 { 5 } else { 0 }, if depth > 0 { 4 } else { 0 }, 1, 1]) {
            0 => P::Ty(self.t.flag()),
            1 => P::Nat(if self.t.flag() { None } else { Some(1 + self.t.below(9) as u64) }),
            2 => P::Str,
            3 => P::Byt,
            4 => P::Flt,
            5 => list(self.p(depth - 1)),
            6 => {
                let n = self.t.below(4);
                P::Tup((0..n).map(|_| self.p(depth - 1)).collect())
            }
            7 => {
                let ctx = std::mem::take(&mut self.ctx);
                let t = self.ty(false, 1).unwrap();
                self.ctx = ctx;
                P::Const(Box::new(t))
            }
            _ => P::Static,
        }
    }
    fn ps(&mut self, max: usize) -> Vec<P> {
        let n = self.t.below(max + 1);
        (0..n).map(|_| self.p(2)).collect()
    }
    /// An argument that fits, if one was found.
    fn a(&mut self, p: &P, depth: usize) -> Option<A> {
        if self.t.chance(1, 3) {
            let vs: Vec<usize> = (0..self.ctx.len()).filter(|i| narrower(&self.ctx[*i], p)).collect();
            if !vs.is_empty() {
                return Some({ let v = *self.t.pick(&vs); self.var(v) });
            }
        }
        Some(match p {
            P::Ty(c) => A::Ty(self.ty(*c, depth)?),
            P::Nat(b) => A::Nat(match b {
                Some(b) => match self.t.below(3) {
                    0 => 0,
                    1 => b - 1,
                    _ => self.t.below(*b as usize) as u64,
                },
                None => self.t.edge_u64(),
            }),
            P::Str => A::Str(self.t.pick(&["", "a", "b c", "é\"\\", "#0"]).to_string()),
            P::Byt => {
                let n = self.t.below(4);
                A::Byt((0..n).map(|_| self.t.below(256) as u8).collect())
            }
            P::Flt => A::Flt((*self.t.pick(&[0.0f64, 1.5, -2e300, 1e-300])).to_bits()),
            P::List(e) => {
                let n = self.t.below(4);
                let mut v = vec![];
                for _ in 0..n {
                    let vs: Vec<usize> = (0..self.ctx.len()).filter(|i| narrower(&self.ctx[*i], p)).collect();
                    if !vs.is_empty() && self.t.chance(1, 3) {
                        v.push((true, { let v = *self.t.pick(&vs); self.var(v) }));
                    } else {
                        let x = self.a(e, depth.saturating_sub(1))?;
                        let row = matches!(&x, A::Var(_, P::List(d)) if matches!(**d, P::Ty(_)));
                        if !row || self.items {
                            v.push((false, x));
                        }
                    }
                }
                flat(A::List(v))
            }
            P::Tup(ps) => A::Tup(ps.iter().map(|p| self.a(p, depth.saturating_sub(1))).collect::<Option<_>>()?),
            P::Static => A::Kind(self.p(1)),
            P::Const(_) => return None,
        })
    }
    fn var(&mut self, i: usize) -> A {
        match &self.ctx[i] {
            P::Ty(b) => A::Ty(T::Var(i, *b)),
            p => A::Var(i, p.clone()),
        }
    }
    fn ty(&mut self, copy: bool, depth: usize) -> Option<T> {
        let vs: Vec<usize> = (0..self.ctx.len()).filter(|i| narrower(&self.ctx[*i], &P::Ty(copy))).collect();
        if !vs.is_empty() && self.t.chance(1, 3) {
            let i = *self.t.pick(&vs);
            let P::Ty(b) = self.ctx[i] else { unreachable!() };
            return Some(T::Var(i, b));
        }
        if depth == 0 {
            return Some(if copy || self.t.flag() { T::Ext(1, vec![]) } else { T::Ext(0, vec![]) });
        }
        Some(match self.t.weighted(&[5, 2, 4]) {
            0 => {
                for _ in 0..4 {
                    let d = self.t.below(DEFS.len());
                    let mut ps = DEFS[d].1.clone();
                    match &DEFS[d].2 {
                        B::Is(false) if copy => continue,
                        B::From(v) if copy => v.iter().for_each(|i| ps[*i] = P::Ty(true)),
                        _ => {}
                    }
                    if let Some(args) = ps.iter().map(|p| self.a(p, depth - 1)).collect() {
                        return Some(T::Ext(d, args));
                    }
                }
                T::Ext(1, vec![])
            }
            1 => T::Fn(self.row(false, depth - 1)?, self.row(false, depth - 1)?),
            _ => {
                let n = self.t.below(4);
                let empty = self.t.chance(1, 4);
                let mut v = vec![];
                for _ in 0..n {
                    v.push(if empty || self.t.chance(1, 4) { vec![] } else { self.row(copy, depth - 1)? });
                }
                T::Sum(v)
            }
        })
    }
    fn row(&mut self, copy: bool, depth: usize) -> Option<Vec<T>> {
        let n = self.t.below(4);
        let mut v = vec![];
        for _ in 0..n {
            let vs: Vec<usize> = (0..self.ctx.len()).filter(|i| narrower(&self.ctx[*i], &list(P::Ty(copy)))).collect();
            if !vs.is_empty() && self.t.chance(1, 2) {
                let i = *self.t.pick(&vs);
                let P::List(b) = &self.ctx[i] else { unreachable!() };
                let P::Ty(b) = **b else { unreachable!() };
                v.push(T::Row(i, b));
            } else {
                v.push(self.ty(copy, depth)?);
            }
        }
        Some(v)
    }
    /// Something like `a` that may not fit any more.
    fn damage(&mut self, a: &A) -> A {
        match a {
            A::List(xs) if !xs.is_empty() && self.t.chance(3, 4) => {
                let mut xs = xs.clone();
                let i = self.t.below(xs.len());
                if self.t.chance(1, 5) {
                    xs.remove(i);
                } else {
                    xs[i].1 = self.damage(&xs[i].1);
                    xs[i].0 &= matches!(xs[i].1, A::List(_) | A::Var(_, P::List(_)));
                }
                flat(A::List(xs))
            }
            A::Tup(xs) if !xs.is_empty() && self.t.chance(3, 4) => {
                let mut xs = xs.clone();
                let i = self.t.below(xs.len());
                match self.t.below(6) {
                    0 => {
                        xs.remove(i);
                    }
                    1 => xs.insert(i, A::Nat(1)),
                    _ => xs[i] = self.damage(&xs[i]),
                }
                A::Tup(xs)
            }
            A::Nat(n) if self.t.flag() => A::Nat(n.wrapping_add(1)),
            A::Ty(_) if self.t.flag() => self.a(&P::Ty(false), 2).unwrap_or(A::Nat(0)),
            _ => {
                let p = match self.t.below(3) {
                    0 if !self.ctx.is_empty() => {
                        let i = self.t.below(self.ctx.len());
                        return self.var(i);
                    }
                    1 => P::Nat(None),
                    _ => self.p(1),
                };
                self.a(&p, 1).unwrap_or(A::Str("x".into()))
            }
        }
    }
}
fn ctx(t: &mut Tape) -> Vec<P> {
    let mut g = Gen { t, ctx: vec![], items: false };
    g.ps(5)
}
/// Some of the kinds wanted, narrowed or widened.
fn ctx_like(t: &mut Tape, like: &[P]) -> Vec<P> {
    let mut v = ctx(t);
    for p in like {
        match t.below(3) {
            0 => v.push(p.clone()),
            1 => {
                let p = near(t, p);
                v.push(p)
            }
            _ => {}
        }
    }
    t.shuffle(&mut v);
    v
}
fn near(t: &mut Tape, p: &P) -> P {
    match p {
        P::Ty(b) => P::Ty(*b ^ t.flag()),
        P::Nat(Some(n)) => t.pick(&[P::Nat(Some(n + 1)), P::Nat(None), P::Nat(Some(1.max(n - 1))), P::Nat(Some(*n))]).clone(),
        P::Nat(None) => P::Nat(Some(1 + t.below(5) as u64)),
        P::List(e) => match t.below(4) {
            0 => (**e).clone(),
            1 => list(p.clone()),
            _ => list(near(t, e)),
        },
        P::Tup(ps) if !ps.is_empty() => {
            let mut ps = ps.clone();
            let i = t.below(ps.len());
            if t.chance(1, 4) {
                ps.remove(i);
            } else {
                ps[i] = near(t, &ps[i]);
            }
            P::Tup(ps)
        }
        p => p.clone(),
    }
}
fn rich(a: &A) -> bool {
    match a {
        A::Ty(t) => rich_t(t),
        A::List(v) => !v.is_empty(),
        A::Tup(v) => !v.is_empty(),
        A::Var(..) => true,
        _ => false,
    }
}
fn rich_t(t: &T) -> bool {
    match t {
        T::Ext(_, a) => a.iter().any(rich),
        T::Fn(i, o) => i.iter().chain(o).any(rich_t),
        T::Sum(r) => r.iter().flatten().any(|t| rich_t(t) || matches!(t, T::Row(..))),
        T::Var(..) | T::Row(..) => true,
    }
}
fn mix_kinds(ps: &[P]) -> bool {
    ps.iter().any(|p| matches!(p, P::List(_) | P::Tup(_))) || ps.windows(2).any(|w| w[0] != w[1])
}

fn check(c: &mut Ctx) -> R {
    let ps = {
        let mut g = Gen { t: &mut c.t, ctx: vec![], items: true };
        if g.t.chance(1, 4) { DEFS[g.t.below(DEFS.len())].1.clone() } else { g.ps(4) }
    };
    let ctx = ctx_like(&mut c.t, &ps);
    let items = c.t.flag();
    let mut g = Gen { t: &mut c.t, ctx, items };
    let mut args: Vec<A> = ps.iter().map(|p| g.a(p, 3).unwrap_or(A::Nat(0))).collect();
    let damaged = g.t.chance(3, 5);
    if damaged {
        for _ in 0..1 + g.t.below(2) {
            match g.t.below(8) {
                0 => {
                    args.pop();
                }
                1 => args.push(A::Nat(0)),
                2 if args.len() > 1 => {
                    let i = g.t.below(args.len() - 1);
                    args.swap(i, i + 1);
                }
                _ if !args.is_empty() => {
                    let i = g.t.below(args.len());
                    args[i] = g.damage(&args[i].clone());
                }
                _ => {}
            }
        }
    }
    let want = args.len() == ps.len() && args.iter().zip(&ps).all(|(a, p)| fits(a, p));
    c.label(if want { "accepted" } else { "refused" });
    let ks: Vec<Term> = ps.iter().map(|p| kind(p, &mut None)).collect();
    let terms: Vec<Term> = args.iter().map(|a| term(a, &mut Some(&mut c.t))).collect();
    let text = || format!("[{}] for [{}]", terms.iter().map(|t| t.to_string()).collect::<Vec<_>>().join("; "), ks.iter().map(|t| t.to_string()).collect::<Vec<_>>().join("; "));
    c.note(text);
    c.sample(text);
    if args.iter().any(rich) && mix_kinds(&ps) {
        c.nontrivial(hash_str(&text()));
    }
    let got = guard("check_term_types", || check_term_types(&terms, &ks))?;
    ensure!(got.is_ok() == want, "acceptance", "{}: {got:?}, but the arguments {}", text(), if want { "fit" } else { "do not fit" });
    let got = guard("instantiate", || PolyFuncTypeRV::new(ks.clone(), FuncValueType::new(TypeRowRV::new(), TypeRowRV::new())).instantiate(&terms))?;
    ensure!(got.is_ok() == want, "scheme acceptance", "{}: {got:?}", text());
    for (d, (name, dps, _)) in DEFS.iter().enumerate() {
        if *dps != ps {
            continue;
        }
        let def = EXT.get_type(*name).unwrap();
        let got = guard("type instantiate", || def.instantiate(terms.clone()))?;
        ensure!(got.is_ok() == want && def.check_args(&terms).is_ok() == want, "type acceptance", "{}: {got:?}", text());
        if let Ok(t) = got {
            let m = T::Ext(d, args.iter().cloned().map(flat).collect());
            let back = un_ty(&Type::new_extension(t.clone()).into());
            // (A row variable written like an item has two readings.)
            ensure!((damaged || items) && back.is_ok() || back.as_ref() == Ok(&m), "type", "{t} is {back:?}, not {m:?}");
            ensure!(def.check_custom(&t).is_ok(), "check_custom", "{t}");
        }
    }
    Ok(())
}

fn body(g: &mut Gen) -> Option<(Vec<T>, Vec<T>)> {
    Some((g.row(false, 3)?, g.row(false, 2)?))
}
fn fv(b: &(Vec<T>, Vec<T>), t: &mut Tp) -> FuncValueType {
    FuncValueType::new(row(&b.0, t), row(&b.1, t))
}
fn un_fv(f: &FuncValueType) -> Result<(Vec<T>, Vec<T>), String> {
    Ok((un_row(f.input())?, un_row(f.output())?))
}
fn kinds(ps: &[P]) -> Vec<Term> {
    ps.iter().map(|p| kind(p, &mut None)).collect()
}

fn instantiate(c: &mut Ctx) -> R {
    let mut ps = ctx(&mut c.t);
    ps.retain(|p| !has_const(p));
    let b = {
        let mut g = Gen { t: &mut c.t, ctx: ps.clone(), items: false };
        body(&mut g)
    };
    let Some(b) = b else { return Ok(()) };
    let b = (b.0.into_iter().map(flat_t).collect::<Vec<_>>(), b.1.into_iter().map(flat_t).collect::<Vec<_>>());
    let outer = {
        let mut v = ctx_like(&mut c.t, &ps);
        v.retain(|p| !has_const(p));
        v
    };
    let args: Option<Vec<A>> = {
        let mut g = Gen { t: &mut c.t, ctx: outer.clone(), items: false };
        ps.iter().map(|p| g.a(p, 2).map(flat)).collect()
    };
    let Some(args) = args else { return Ok(()) };
    let closed: Option<Vec<A>> = {
        let mut g = Gen { t: &mut c.t, ctx: vec![], items: false };
        outer.iter().map(|p| g.a(p, 2).map(flat)).collect()
    };
    let Some(closed) = closed else { return Ok(()) };
    let lib_body = fv(&b, &mut Some(&mut c.t));
    let terms: Vec<Term> = args.iter().map(|a| term(a, &mut Some(&mut c.t))).collect();
    let scheme = PolyFuncTypeRV::new(kinds(&ps), lib_body.clone());
    let text = || format!("{scheme} at [{}]", terms.iter().map(|t| t.to_string()).collect::<Vec<_>>().join("; "));
    c.note(text);
    c.sample(text);
    if b.0.iter().chain(&b.1).any(rich_t) && args.iter().any(rich) {
        c.nontrivial(hash_str(&text()));
    }
    let back = un_fv(&lib_body);
    ensure!(back.as_ref() == Ok(&b), "built", "{lib_body} reads as {back:?}, not {b:?}");
    let v = guard("validate", || scheme.validate())?;
    ensure!(v.is_ok(), "scheme invalid", "{scheme}: {v:?}");
    let got = match guard("instantiate", || scheme.instantiate(&terms))? {
        Ok(g) => g,
        Err(e) => return fail("refused", format!("{}: {e}", text())),
    };
    let want = (subst_r(&b.0, &args), subst_r(&b.1, &args));
    let back = un_fv(&got);
    ensure!(back.as_ref() == Ok(&want), "substitution", "{} gives {got}, which reads as {back:?}, not {want:?}", text());
    let next = PolyFuncTypeRV::new(kinds(&outer), got.clone());
    let v = guard("validate", || next.validate())?;
    ensure!(v.is_ok(), "result invalid", "{} gives {next}: {v:?}", text());
    c.label_if(want != b, "changed by substitution");
    // Then the outer variables; in two steps or one.
    let ct: Vec<Term> = closed.iter().map(|a| term(a, &mut Some(&mut c.t))).collect();
    let two = match guard("instantiate", || next.instantiate(&ct))? {
        Ok(g) => g,
        Err(e) => return fail("refused second", format!("{next}: {e}")),
    };
    let inner: Vec<A> = args.iter().map(|a| subst(a, &closed)).collect();
    let it: Vec<Term> = inner.iter().map(|a| term(a, &mut None)).collect();
    let one = match guard("instantiate", || scheme.instantiate(&it))? {
        Ok(g) => g,
        Err(e) => return fail("refused composed", format!("{scheme} at {it:?}: {e}")),
    };
    let (x, y) = (un_fv(&one), un_fv(&two));
    ensure!(x.is_ok() && x == y, "composition", "{}, then {ct:?}: {two}; at once: {one}", text());
    // Closed now: nothing changes.
    let again = guard("instantiate", || PolyFuncTypeRV::new(vec![], two.clone()).instantiate(&[]))?.map_err(|e| Fail { sig: "closed".into(), msg: e.to_string() })?;
    ensure!(un_fv(&again) == y, "closed changed", "{two} became {again}");
    // A variable for each parameter: nothing changes.
    let same: Vec<Term> = ps.iter().enumerate().map(|(i, p)| Term::new_var_use(i, kind(p, &mut None))).collect();
    let id = guard("instantiate", || scheme.instantiate(&same))?.map_err(|e| Fail { sig: "identity refused".into(), msg: format!("{scheme}: {e}") })?;
    ensure!(un_fv(&id).as_ref() == Ok(&b), "identity", "{scheme} became {id}");
    // Without row variables.
    if b.0.iter().chain(&b.1).all(|t| !matches!(t, T::Row(..))) {
        let ts = |r: &[T]| r.iter().map(|t| ty1(t, &mut None)).collect::<Vec<_>>();
        let p = PolyFuncType::new(kinds(&ps), Signature::new(ts(&b.0), ts(&b.1)));
        let got = guard("instantiate", || p.instantiate(&terms))?.map_err(|e| Fail { sig: "refused".into(), msg: format!("{p}: {e}") })?;
        let back = un_fv(&got.clone().into());
        ensure!(back.as_ref() == Ok(&want), "substitution", "{p} gives {got}, not {want:?}");
        c.label("without rows");
    }
    Ok(())
}
fn has_const(p: &P) -> bool {
    match p {
        P::Const(_) => true,
        P::List(p) => has_const(p),
        P::Tup(ps) => ps.iter().any(has_const),
        _ => false,
    }
}

fn hash<X: Hash>(x: &X) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn equality(c: &mut Ctx) -> R {
    let ctx = ctx(&mut c.t);
    let mut g = Gen { t: &mut c.t, ctx, items: false };
    let Some(a) = g.ty(false, 3) else { return Ok(()) };
    let a = flat_t(a);
    let b = match g.t.below(3) {
        0 => a.clone(),
        1 => flat_t(mutate(&mut g, &a)),
        _ => match g.ty(false, 2) {
            Some(b) => flat_t(b),
            None => return Ok(()),
        },
    };
    let same = a == b;
    c.label(if same { "equal" } else { "different" });
    // Lists are spelled one way here, sums in any.
    let sums = |t: &T, tape: &mut Tape| respell(t, tape);
    let (x, y) = (sums(&a, &mut c.t), sums(&b, &mut c.t));
    let text = || format!("{x} and {y}");
    c.note(text);
    c.sample(text);
    if rich_t(&a) && rich_t(&b) {
        c.nontrivial(hash_str(&format!("{x:?}{y:?}")));
    }
    ensure!((x == y) == same && (y == x) == same, "equality", "{x} == {y}: {}", x == y);
    let (xr, yr): (TypeRV, TypeRV) = (x.clone().into(), y.clone().into());
    ensure!((xr == yr) == same && (xr == y) == same && (x == yr) == same, "row equality", "{x} and {y}");
    ensure!((Term::from(x.clone()) == Term::from(y.clone())) == same, "term equality", "{x} and {y}");
    let (jx, jy) = (serde_json::to_string(&x).unwrap(), serde_json::to_string(&y).unwrap());
    if same {
        ensure!(hash(&x) == hash(&y) && hash(&xr) == hash(&yr), "hash", "{x} and {y} are equal but their hashes differ");
        ensure!(hash(&Term::from(x.clone())) == hash(&Term::from(y.clone())), "term hash", "{x} and {y}");
        ensure!(x.to_string() == y.to_string(), "print", "{x} and {y} are equal");
    }
    ensure!((jx == jy) == same, "json", "{x} and {y} ({}): {jx} and {jy}", if same { "equal" } else { "different" });
    let back: Type = match serde_json::from_str(&jx) {
        Ok(t) => t,
        Err(e) => return fail("json load", format!("{jx}: {e}")),
    };
    ensure!(back == x && un_ty(&back.clone().into()) == Ok(a.clone()), "json round trip", "{x} came back as {back}");
    let back: TypeRV = match serde_json::from_str(&jx) {
        Ok(t) => t,
        Err(e) => return fail("json load", format!("{jx}: {e}")),
    };
    ensure!(back == xr, "json round trip", "{x} came back as {back}");
    let t = Term::from(x.clone());
    let back: Term = match serde_json::from_str(&serde_json::to_string(&t).unwrap()) {
        Ok(t) => t,
        Err(e) => return fail("json load", format!("{t}: {e}")),
    };
    ensure!(back == t, "term json", "{t} came back as {back}");
    // Kinds and arguments, in any spelling.
    let p = { Gen { t: &mut c.t, ctx: vec![], items: false }.p(2) };
    let k = kind(&p, &mut None);
    let back: Term = match serde_json::from_str(&serde_json::to_string(&k).unwrap()) {
        Ok(t) => t,
        Err(e) => return fail("kind json load", format!("{k}: {e}")),
    };
    ensure!(back == k && un_kind(&back) == Some(p.clone()), "kind json", "{k} came back as {back}");
    let arg = { Gen { t: &mut c.t, ctx: vec![P::Str, list(P::Str), p.clone(), list(P::Ty(true)), P::Nat(Some(3))], items: false }.a(&p, 2) };
    if let Some(arg) = arg {
        let t = term(&arg, &mut Some(&mut c.t));
        let j = serde_json::to_string(&t).unwrap();
        let back: Term = match serde_json::from_str(&j) {
            Ok(t) => t,
            Err(e) => return fail("argument json load", format!("{j}: {e}")),
        };
        ensure!(back == t, "argument json", "{t} came back as {back}");
    }
    Ok(())
}
/// Sums written in any way, lists in one.
fn respell(t: &T, tape: &mut Tape) -> Type {
    match t {
        T::Sum(rows) => {
            let mut one = |r: &Vec<T>| -> TypeRowRV {
                r.iter().map(|t| if let T::Row(i, b) = t { TypeRV::new_row_var_use(*i, bound(*b)) } else { respell(t, tape).into() }).collect::<Vec<_>>().into()
            };
            let rs: Vec<TypeRowRV> = rows.iter().map(&mut one).collect();
            if rows.iter().all(Vec::is_empty) && tape.flag() {
                Type::new_unit_sum(rows.len() as u8)
            } else if tape.flag() {
                Type::from(SumType::General { rows: rs })
            } else if tape.flag() {
                SumType::new(rs).into()
            } else {
                Type::new_sum(rs)
            }
        }
        t => ty1(t, &mut None),
    }
}
fn mutate(g: &mut Gen, t: &T) -> T {
    match t {
        T::Ext(d, args) if !args.is_empty() => {
            let mut args = args.clone();
            let i = g.t.below(args.len());
            for _ in 0..3 {
                if let Some(a) = g.a(&DEFS[*d].1[i], 2) {
                    args[i] = a;
                    break;
                }
            }
            T::Ext(*d, args)
        }
        T::Ext(d, _) => T::Ext(1 - d.min(&1), vec![]),
        T::Fn(i, o) => match g.t.below(3) {
            0 => T::Fn(o.clone(), i.clone()),
            1 => T::Fn(mutate_row(g, i), o.clone()),
            _ => T::Fn(i.clone(), mutate_row(g, o)),
        },
        T::Sum(rows) => {
            let mut rows = rows.clone();
            match g.t.below(4) {
                0 => rows.push(vec![]),
                1 if !rows.is_empty() => {
                    rows.pop();
                }
                2 if rows.len() > 1 => {
                    // Move a type over the border between two variants.
                    let i = g.t.below(rows.len() - 1);
                    if let Some(x) = rows[i].pop() {
                        rows[i + 1].insert(0, x);
                    }
                }
                _ if !rows.is_empty() => {
                    let i = g.t.below(rows.len());
                    rows[i] = mutate_row(g, &rows[i]);
                }
                _ => {}
            }
            T::Sum(rows)
        }
        T::Var(i, b) => {
            if g.t.flag() { T::Var(i + 1, *b) } else { T::Var(*i, !b) }
        }
        t => t.clone(),
    }
}
fn mutate_row(g: &mut Gen, r: &[T]) -> Vec<T> {
    let mut r = r.to_vec();
    if r.is_empty() || g.t.chance(1, 4) {
        let k = g.t.below(r.len() + 1);
        r.insert(k, T::Ext(1, vec![]));
    } else {
        let i = g.t.below(r.len());
        r[i] = match &r[i] {
            T::Row(i, b) => if g.t.flag() { T::Row(i + 1, *b) } else { T::Row(*i, !b) },
            t => mutate(g, t),
        };
    }
    r
}

/// Valid in the context.
fn ok_t(t: &T, ctx: &[P]) -> bool {
    match t {
        T::Ext(d, args) => args.len() == DEFS[*d].1.len() && args.iter().zip(&DEFS[*d].1).all(|(a, p)| ok_a(a, ctx) && fits(a, p)),
        T::Fn(i, o) => i.iter().chain(o).all(|t| ok_t(t, ctx)),
        T::Sum(r) => r.iter().flatten().all(|t| ok_t(t, ctx)),
        T::Var(i, b) => ctx.get(*i) == Some(&P::Ty(*b)),
        T::Row(i, b) => ctx.get(*i) == Some(&list(P::Ty(*b))),
    }
}
fn ok_a(a: &A, ctx: &[P]) -> bool {
    match a {
        A::Ty(t) => ok_t(t, ctx),
        A::List(v) => v.iter().all(|(_, a)| ok_a(a, ctx)),
        A::Tup(v) => v.iter().all(|a| ok_a(a, ctx)),
        A::Var(i, p) => ctx.get(*i) == Some(p),
        _ => true,
    }
}
fn validate(c: &mut Ctx) -> R {
    let decl = ctx(&mut c.t);
    // What the body was written for.
    let mut used = decl.clone();
    if c.t.flag() {
        match c.t.below(4) {
            0 => used.push(Gen { t: &mut c.t, ctx: vec![], items: false }.p(1)),
            1 if used.len() > 1 => {
                let i = c.t.below(used.len() - 1);
                used.swap(i, i + 1);
            }
            _ if !used.is_empty() => {
                let i = c.t.below(used.len());
                used[i] = near(&mut c.t, &used[i]);
            }
            _ => {}
        }
    }
    let b = {
        let mut g = Gen { t: &mut c.t, ctx: used, items: true };
        let Some(mut b) = body(&mut g) else { return Ok(()) };
        if g.t.chance(1, 3) {
            let at = g.t.below(b.0.len() + 1);
            b.0.insert(at, bad_type(&mut g, 2));
        }
        b
    };
    let good = b.0.iter().chain(&b.1).all(|t| ok_t(t, &decl));
    c.label(if good { "valid" } else { "invalid" });
    let f = fv(&b, &mut Some(&mut c.t));
    let p = PolyFuncTypeRV::new(kinds(&decl), f);
    let text = || p.to_string();
    c.note(text);
    c.sample(text);
    if b.0.iter().chain(&b.1).any(rich_t) {
        c.nontrivial(hash_str(&format!("{p:?}")));
    }
    let got = guard("validate", || p.validate())?;
    ensure!(got.is_ok() == good, "validation", "{p}: {got:?}, but it is {}", if good { "well-formed" } else { "ill-formed" });
    Ok(())
}
/// An extension type whose arguments may not fit.
fn bad_type(g: &mut Gen, depth: usize) -> T {
    let d = g.t.below(DEFS.len());
    let mut args = vec![];
    for p in &DEFS[d].1 {
        let a = g.a(p, 1).unwrap_or(A::Nat(0));
        args.push(if g.t.flag() { g.damage(&a) } else { a });
    }
    if g.t.chance(1, 8) {
        args.push(A::Nat(1));
    } else if g.t.chance(1, 8) && !matches!(DEFS[d].2, B::From(_)) {
        args.pop();
    }
    let t = T::Ext(d, args);
    if depth == 0 || g.t.flag() {
        return t;
    }
    match g.t.below(4) {
        0 => T::Sum(vec![vec![], vec![t]]),
        1 => T::Fn(vec![], vec![t]),
        2 => T::Ext(11, vec![A::Ty(T::Ext(1, vec![])), A::Ty(t)]),
        _ => T::Ext(4, vec![A::List(vec![(false, A::Ty(t))])]),
    }
}
/// A well-formed scheme over this module's types, with arguments for it.
pub fn scheme(t: &mut Tape) -> Option<(PolyFuncTypeRV, Vec<Term>)> {
    let mut ps = ctx(t);
    ps.retain(|p| !has_const(p));
    let b = body(&mut Gen { t, ctx: ps.clone(), items: false })?;
    let mut g = Gen { t, ctx: vec![], items: false };
    let args: Option<Vec<A>> = ps.iter().map(|p| g.a(p, 2).map(flat)).collect();
    let sig = fv(&b, &mut None);
    Some((PolyFuncTypeRV::new(kinds(&ps), sig), args?.iter().map(|a| term(a, &mut None)).collect()))
}
/// Some parameters, constant types included.
pub fn params(t: &mut Tape) -> Vec<Term> {
    kinds(&ctx(t))
}
pub fn types() -> &'static Arc<Extension> {
    &EXT
}
