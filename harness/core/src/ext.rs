//! The harness's own extension: uninterpreted operations and types of every bound.
use hugr::Extension;
use hugr::extension::{ExtensionId, ExtensionRegistry, TypeDefBound};
use hugr::ops::{ExtensionOp, OpType};
use hugr::std_extensions::STD_REG;
use hugr::types::type_param::{TypeArg, TypeParam};
use hugr::types::{FuncValueType, PolyFuncTypeRV, Type, TypeBound, TypeRV, TypeRowRV};
use std::sync::{Arc, LazyLock};

pub const EXT_ID: ExtensionId = ExtensionId::new_unchecked("vtest");

fn args_params() -> Vec<TypeParam> {
                    vec![
                    TypeParam::StringType,
                    TypeParam::BytesType,
                    TypeParam::FloatType,
                    TypeParam::bounded_nat_type(100.try_into().unwrap()),
                    TypeParam::new_list_type(TypeParam::new_list_type(TypeParam::StringType)),
                    TypeParam::new_tuple_type(TypeParam::new_list([TypeParam::max_nat_type(), TypeBound::Linear.into()])),
                ]
}
/// How a built extension differs from the usual one.
#[derive(Clone, Default, Debug)]
pub struct Alter {
    pub no_op: Option<&'static str>,
    pub no_type: Option<&'static str>,
    pub signature: Option<&'static str>,
    pub bound: Option<&'static str>,
}
pub fn build(name: ExtensionId, version: hugr::extension::Version, how: &Alter) -> Arc<Extension> {
    let linear_row = || TypeParam::new_list_type(TypeBound::Linear);
    Extension::new_arc(name, version, |e, r| {
        let types = [
            ("T", vec![], "copyable", TypeDefBound::copyable()),
            ("L", vec![], "linear", TypeDefBound::any()),
            ("P", vec![TypeBound::Linear.into()], "box", TypeDefBound::from_params(vec![0])),
            ("N", vec![TypeParam::max_nat_type()], "sized", TypeDefBound::copyable()),
            (
                "X",
                vec![
                    TypeParam::StringType,
                    TypeParam::new_list_type(TypeParam::max_nat_type()),
                    TypeParam::new_tuple_type(TypeParam::new_list([TypeBound::Copyable.into(), TypeParam::BytesType])),
                    TypeParam::FloatType,
                ],
                "args",
                TypeDefBound::any(),
            ),
        ];
        for (n, ps, d, bound) in types {
            if how.no_type == Some(n) {
                continue;
            }
            let bound = if how.bound == Some(n) { if n == "L" { TypeDefBound::copyable() } else { TypeDefBound::any() } } else { bound };
            e.add_type(n.into(), ps, d.into(), bound, r).unwrap();
        }
        let rows = |i: usize, o: usize| {
            PolyFuncTypeRV::new(
                vec![TypeParam::StringType, linear_row(), linear_row()],
                FuncValueType::new(TypeRV::new_row_var_use(i, TypeBound::Linear), TypeRV::new_row_var_use(o, TypeBound::Linear)),
            )
        };
        let t = Type::new_extension(e.get_type("T").unwrap().instantiate([]).unwrap());
        let v = || Type::new_var_use(0, TypeBound::Copyable);
        let dup = |n| PolyFuncTypeRV::new(vec![TypeBound::Copyable.into()], FuncValueType::new(vec![v()], vec![v(); n]));
        let args = |n: usize| PolyFuncTypeRV::new(args_params(), FuncValueType::new(TypeRowRV::new(), vec![TypeRV::from(t.clone()); n]));
        let k = |n: usize| PolyFuncTypeRV::from(FuncValueType::new(vec![t.clone()], vec![t.clone(); n]));
        let ops = [
            ("f", "uninterpreted pure operation", rows(1, 2), rows(2, 1)),
            ("eff", "uninterpreted effect", rows(1, 2), rows(2, 1)),
            ("dup", "copyable-bounded", dup(2), dup(3)),
            ("args", "many kinds of argument", args(1), args(0)),
            ("k", "fixed", k(1), k(0)),
        ];
        for (n, d, sig, other) in ops {
            if how.no_op == Some(n) {
                continue;
            }
            e.add_op(n.into(), d.into(), if how.signature == Some(n) { other } else { sig }, r).unwrap();
        }
    })
}

pub static EXT: LazyLock<Arc<Extension>> = LazyLock::new(|| build(EXT_ID, hugr::extension::Version::new(0, 1, 0), &Alter::default()));
/// A second, structurally equal extension under another id.
pub static EXT2: LazyLock<Arc<Extension>> =
    LazyLock::new(|| build(ExtensionId::new_unchecked("vtest.other.sub"), hugr::extension::Version::new(1, 2, 3), &Alter::default()));

/// What the others are lowered to: copyable and linear stand-ins for `T`, operations with the same meaning.
pub static LOW: LazyLock<Arc<Extension>> = LazyLock::new(|| {
    Extension::new_arc(ExtensionId::new_unchecked("vtest.low"), hugr::extension::Version::new(0, 1, 0), |e, r| {
        e.add_type("C".into(), vec![], "copyable".into(), TypeDefBound::copyable(), r).unwrap();
        e.add_type("L".into(), vec![], "linear".into(), TypeDefBound::any(), r).unwrap();
        let rows = || {
            PolyFuncTypeRV::new(
                vec![TypeParam::StringType, TypeParam::new_list_type(TypeBound::Linear), TypeParam::new_list_type(TypeBound::Linear)],
                FuncValueType::new(TypeRV::new_row_var_use(1, TypeBound::Linear), TypeRV::new_row_var_use(2, TypeBound::Linear)),
            )
        };
        e.add_op("f".into(), "pure".into(), rows(), r).unwrap();
        e.add_op("eff".into(), "effect".into(), rows(), r).unwrap();
        // copyn<n, T, [T; n]>
        e.add_op(
            "copyn".into(),
            "any number of copies".into(),
            PolyFuncTypeRV::new(
                vec![TypeBound::Linear.into(), TypeParam::new_list_type(TypeBound::Linear)],
                FuncValueType::new(vec![TypeRV::from(Type::new_var_use(0, TypeBound::Linear))], TypeRV::new_row_var_use(1, TypeBound::Linear)),
            ),
            r,
        )
        .unwrap();
        e.add_op(
            "dup".into(),
            "two copies".into(),
            PolyFuncTypeRV::new(
                vec![TypeBound::Linear.into()],
                FuncValueType::new(vec![Type::new_var_use(0, TypeBound::Linear)], vec![Type::new_var_use(0, TypeBound::Linear); 2]),
            ),
            r,
        )
        .unwrap();
        for n in ["C", "L"] {
            let t = Type::new_extension(e.get_type(n).unwrap().instantiate([]).unwrap());
            let f = |i: usize, o: usize| PolyFuncTypeRV::from(FuncValueType::new(vec![t.clone(); i], vec![t.clone(); o]));
            e.add_op(format!("k_{n}").into(), "fixed".into(), f(1, 1), r).unwrap();
            e.add_op(format!("copy_{n}").into(), "copy".into(), f(1, 2), r).unwrap();
            e.add_op(format!("disc_{n}").into(), "discard".into(), f(1, 0), r).unwrap();
            let args = PolyFuncTypeRV::new(args_params(), FuncValueType::new(TypeRowRV::new(), vec![TypeRV::from(t.clone())]));
            e.add_op(format!("args_{n}").into(), "many kinds of argument".into(), args, r).unwrap();
        }
    })
});

/// Everything the generated programs may use.
pub static REG: LazyLock<ExtensionRegistry> = LazyLock::new(|| {
    let mut r = STD_REG.clone();
    r.register(EXT.clone()).unwrap();
    r.register(EXT2.clone()).unwrap();
    r.register(LOW.clone()).unwrap();
    r
});

pub fn ty(name: &str, args: Vec<TypeArg>) -> Type {
    Type::new_extension(EXT.get_type(name).unwrap().instantiate(args).unwrap())
}
pub fn t_ty() -> Type {
    ty("T", vec![])
}
pub fn l_ty() -> Type {
    ty("L", vec![])
}
pub fn rows_op(op: &str, name: &str, ins: &[Type], outs: &[Type]) -> OpType {
    let l = |r: &[Type]| TypeArg::new_list(r.iter().map(|t| TypeArg::from(t.clone())));
    ext_op(&EXT, op, vec![TypeArg::new_string(name), l(ins), l(outs)])
}
pub fn f_op(name: &str, ins: &[Type], outs: &[Type]) -> OpType {
    rows_op("f", name, ins, outs)
}
pub fn ext_op(e: &Arc<Extension>, op: &str, args: Vec<TypeArg>) -> OpType {
    ExtensionOp::new(e.get_op(op).unwrap_or_else(|| panic!("op {op}")).clone(), args.clone())
        .unwrap_or_else(|x| panic!("op {op} {args:?}: {x}"))
        .into()
}
