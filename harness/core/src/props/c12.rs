//! C12: local rewrites preserve program behaviour.
use super::c11;
use super::pass::{self, Trace};
use crate::canon;
use crate::engine::*;
use hugr::extension::prelude::Noop;
use hugr::hugr::hugrmut::HugrMut;
use hugr::hugr::patch::consts::{RemoveConst, RemoveError, RemoveLoadConstant};
use hugr::hugr::patch::inline_call::{InlineCall, InlineCallError};
use hugr::hugr::patch::inline_dfg::{InlineDFG, InlineDFGError};
use hugr::hugr::patch::insert_cut::{InsertCut, InsertCutError};
use hugr::hugr::patch::insert_identity::{IdentityInsertion, IdentityInsertionError};
use hugr::hugr::patch::outline_cfg::OutlineCfg;
use hugr::hugr::patch::peel_loop::{PeelTailLoop, PeelTailLoopError};
use hugr::hugr::patch::{Patch, PatchVerification};
use hugr::ops::dataflow::IOTrait;
use hugr::ops::handle::DfgID;
use hugr::ops::{self, OpTag, OpTrait, OpType};
use hugr::types::{EdgeKind, Signature, Type};
use hugr::{Hugr, HugrView, IncomingPort, Node, OutgoingPort};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "sequences of up to four rewrites at random sites, applicable or not, in generated programs with loops, blocks, calls, order edges, effects and nonlocal edges: the error or the outcome, the nodes kept, added, moved and removed are compared with a model, and runs before and after; non-trivial: at least one rewrite was applied",
        assumptions: &["cuts are inserted across edges between siblings and pass the values on unchanged"],
        subs: vec![Sub { name: "rewrites", quick: 14_000, thorough: 1_200_000, f: rewrites }],
        findings: vec![],
    }
}
fn rewrites(c: &mut Ctx) -> R {
    let mut p = c11::profile(&mut c.t);
    p.size = 10 + c.t.below(20);
    p.metadata = c.t.flag();
    p.depth = 1 + c.t.below(3);
    p.nested = true;
    p.loops = c.t.chance(3, 4);
    p.cfg = c.t.chance(2, 3);
    p.cfg_heavy = p.cfg && c.t.flag();
    p.poly = c.t.flag();
    let g = pass::gen_program(c, &p);
    let mut h = g.hugr;
    match c.t.below(3) {
        0 => {
            let v = pass::containers(&h);
            if !v.is_empty() {
                let e = *c.t.pick(&v);
                h.set_entrypoint(e);
            }
        }
        _ => h.set_entrypoint(h.module_root()),
    }
    let funcs = pass::mono_funcs(&h);
    let rs = pass::runs(c, &h, &funcs, 2)?;
    let steps = 1 + c.t.below(4);
    let mut done = 0;
    for _ in 0..steps {
        let which = c.t.below(9);
        let before = h.clone();
        let ok = match which {
            0 => dfg(c, &mut h)?,
            1 => call(c, &mut h)?,
            2 | 3 => peel(c, &mut h)?,
            4 | 5 => outline(c, &mut h)?,
            6 => identity(c, &mut h)?,
            7 => cut(c, &mut h)?,
            _ => consts(c, &mut h)?,
        };
        let name = ["dfg", "call", "peel", "peel", "outline", "outline", "identity", "cut", "consts"][which];
        let refused = ["dfg-refused", "call-refused", "peel-refused", "peel-refused", "outline-refused", "outline-refused", "identity-refused", "cut-refused", "consts-refused"][which];
        match ok {
            None => continue,
            Some(false) => {
                if let Some(d) = canon::diff(&before, &h, &Default::default()) {
                    return fail(format!("{name}-refused-changed"), d);
                }
                c.label(refused);
            }
            Some(true) => {
                pass::valid(&h, name)?;
                ensure!(h.entrypoint() == before.entrypoint() && h.module_root() == before.module_root(), "entrypoint", "{name}");
                pass::same(&rs, &h, true, Trace::Same).map_err(|f| Fail { sig: format!("{name} {}", f.sig), msg: f.msg })?;
                c.label(name);
                done += 1;
            }
        }
        if h.num_nodes() > 1500 {
            break;
        }
    }
    pass::label_runs(c, &rs);
    if done > 0 {
        c.nontrivial(canon::graph_hash(&h));
        c.sample(|| canon::show(&h));
    }
    Ok(())
}
/// Nested graphs print their tables in any order.
fn text(x: &impl Debug) -> String {
    let mut s = format!("{x:?}");
    if let Some(i) = s.find("Hugr {") {
        s.truncate(i);
    }
    s
}
/// Verifies and applies; both have to agree.
fn run<P, O, E: Debug>(what: &str, h: &mut Hugr, p: P) -> Result<Result<O, String>, Fail>
where
    P: Patch<Hugr, Outcome = O> + PatchVerification<Node = Node, Error = E>,
    E: std::error::Error,
{
    let v = match no_panic(|| p.verify(&*h)) {
        Ok(v) => v,
        Err((m, at)) => return Err(Fail { sig: format!("{what}-verify-crash"), msg: format!("{m} at {at}") }),
    };
    match no_panic(|| p.apply(h)) {
        Ok(a) => match (v, a) {
            (Ok(()), Ok(o)) => Ok(Ok(o)),
            (Err(x), Err(y)) if text(&x) == text(&y) => Ok(Err(text(&x))),
            (v, a) => Err(Fail { sig: format!("{what}-verify-apply"), msg: format!("verify {v:?}, apply {:?}", a.map(|_| ())) }),
        },
        Err((m, at)) => Err(Fail { sig: format!("{what}-crash"), msg: format!("{m} at {at}; verify said {v:?}") }),
    }
}
/// The nodes added; everything else has to be as it was.
fn kept(what: &str, a: &Hugr, b: &Hugr, removed: &[Node], changed: &[Node], moved: &BTreeMap<Node, Node>) -> Result<BTreeSet<Node>, Fail> {
    let bad = |m: String| Err(Fail { sig: format!("{what}-nodes"), msg: m });
    for n in a.nodes() {
        if removed.contains(&n) {
            if b.contains_node(n) {
                return bad(format!("{n} should be gone"));
            }
            continue;
        }
        if !b.contains_node(n) {
            return bad(format!("{n} {} is gone", a.get_optype(n)));
        }
        if !changed.contains(&n) && canon::op(a.get_optype(n), false) != canon::op(b.get_optype(n), false) {
            return bad(format!("{n} was {} and is {}", a.get_optype(n), b.get_optype(n)));
        }
        if canon::metadata(a, n) != canon::metadata(b, n) {
            return bad(format!("metadata of {n} was {:?} and is {:?}", canon::metadata(a, n), canon::metadata(b, n)));
        }
        let want = moved.get(&n).copied().or(a.get_parent(n));
        if b.get_parent(n) != want {
            return bad(format!("parent of {n} is {:?} instead of {want:?}", b.get_parent(n)));
        }
    }
    let old: BTreeSet<Node> = a.nodes().collect();
    Ok(b.nodes().filter(|n| !old.contains(n)).collect())
}
fn site(c: &mut Ctx, h: &Hugr, f: impl Fn(Node) -> bool) -> Option<Node> {
    let all: Vec<Node> = h.nodes().collect();
    let good: Vec<Node> = all.iter().copied().filter(|n| f(*n)).collect();
    if c.t.chance(1, 8) {
        return Some(*c.t.pick(&all));
    }
    (!good.is_empty()).then(|| *c.t.pick(&good))
}
fn dfg(c: &mut Ctx, h: &mut Hugr) -> Result<Option<bool>, Fail> {
    let Some(n) = site(c, h, |n| h.get_optype(n).is_dfg()) else { return Ok(None) };
    c.note(|| format!("inline region {n}"));
    let a = h.clone();
    let r = run("dfg", h, InlineDFG(DfgID::from(n)))?;
    if !a.get_optype(n).is_dfg() || n == a.entrypoint() {
        let want = if a.get_optype(n).is_dfg() { InlineDFGError::CantInlineEntrypoint { node: n } } else { InlineDFGError::NotDFG { node: n } };
        let Err(e) = &r else { return fail("dfg-accepted", format!("{n}")).map(|_: ()| None) };
        check(*e == text(&want), "dfg-error", e)?;
        return Ok(Some(false));
    }
    let out = match r {
        Ok(o) => o,
        Err(e) => return fail("dfg-refused", e).map(|_: ()| None),
    };
    let [i, o] = a.get_io(n).unwrap();
    check(out == [n, i, o], "dfg-outcome", &format!("{out:?}"))?;
    let up = a.get_parent(n).unwrap();
    let moved = a.children(n).map(|x| (x, up)).collect();
    let new = kept("dfg", &a, h, &[n, i, o], &[], &moved)?;
    check(new.is_empty(), "dfg-added", &format!("{new:?}"))?;
    Ok(Some(true))
}
fn check(ok: bool, sig: &str, m: &str) -> R {
    ensure!(ok, sig, "{m}");
    Ok(())
}
fn call(c: &mut Ctx, h: &mut Hugr) -> Result<Option<bool>, Fail> {
    let Some(n) = site(c, h, |n| h.get_optype(n).is_call()) else { return Ok(None) };
    c.note(|| format!("inline call {n}"));
    let a = h.clone();
    let r = run("call", h, InlineCall::new(n))?;
    let target = a.get_optype(n).as_call().map(|_| a.static_source(n).unwrap());
    let want = match target {
        None => Some(InlineCallError::NotCallNode(n, a.get_optype(n).clone())),
        Some(t) if !a.get_optype(t).is_func_defn() => Some(InlineCallError::CallTargetNotFuncDefn(t, a.get_optype(t).clone())),
        _ => None,
    };
    if let Some(w) = want {
        let Err(e) = &r else { return fail("call-accepted", format!("{n}")).map(|_: ()| None) };
        check(*e == text(&w), "call-error", e)?;
        return Ok(Some(false));
    }
    if let Err(e) = r {
        return fail("call-refused", e).map(|_: ()| None);
    }
    let f = target.unwrap();
    let cl = a.get_optype(n).as_call().unwrap();
    let new = kept("call", &a, h, &[], &[n], &BTreeMap::new())?;
    let body: Vec<Node> = a.descendants(f).skip(1).collect();
    check(new.len() == body.len() && new == h.descendants(n).skip(1).collect(), "call-added", &format!("{new:?}"))?;
    check(h.get_optype(n).as_dfg().is_some_and(|d| d.signature == cl.instantiation), "call-op", "")?;
    if cl.type_args.is_empty() {
        // a copy, in the same order
        for (x, y) in a.descendants(f).skip(1).zip(h.descendants(n).skip(1)) {
            check(canon::op(a.get_optype(x), false) == canon::op(h.get_optype(y), false), "call-copy", &format!("{x} {y}"))?;
            check(canon::metadata(&a, x) == canon::metadata(h, y), "call-copy-metadata", &format!("{x} {y}"))?;
        }
    }
    Ok(Some(true))
}
fn peel(c: &mut Ctx, h: &mut Hugr) -> Result<Option<bool>, Fail> {
    let Some(n) = site(c, h, |n| h.get_optype(n).is_tail_loop()) else { return Ok(None) };
    c.note(|| format!("peel {n}"));
    let a = h.clone();
    let r = match no_panic(|| PeelTailLoopAny(n).go(h)) {
        Ok(x) => x?,
        Err((m, at)) => return fail("peel-crash", format!("{m} at {at}")).map(|_: ()| None),
    };
    if !a.get_optype(n).is_tail_loop() {
        let Err(e) = &r else { return fail("peel-accepted", format!("{n}")).map(|_: ()| None) };
        let want = PeelTailLoopError::NotTailLoop { node: n, op: a.get_optype(n).clone() };
        check(*e == text(&want), "peel-error", e)?;
        return Ok(Some(false));
    }
    if let Err(e) = r {
        return fail("peel-refused", e).map(|_: ()| None);
    }
    let [_, o] = a.get_io(n).unwrap();
    let new = kept("peel", &a, h, &[], &[n, o], &BTreeMap::new())?;
    check(h.get_optype(n).is_dfg() && h.get_optype(o).is_conditional(), "peel-op", "")?;
    let loops: Vec<Node> = new.iter().copied().filter(|m| canon::op(h.get_optype(*m), false) == canon::op(a.get_optype(n), false)).collect();
    // the body is copied once
    let copies = loops.iter().filter(|m| h.descendants(**m).count() == a.descendants(n).count()).count();
    check(copies >= 1, "peel-copy", &format!("{loops:?}"))?;
    check(new.len() == a.descendants(n).count() + 7, "peel-added", &format!("{} for {}", new.len(), a.descendants(n).count()))?;
    Ok(Some(true))
}
struct PeelTailLoopAny(Node);
impl PeelTailLoopAny {
    fn go(self, h: &mut Hugr) -> Result<Result<(), String>, Fail> {
        run("peel", h, PeelTailLoop::new(self.0))
    }
}
fn outline(c: &mut Ctx, h: &mut Hugr) -> Result<Option<bool>, Fail> {
    let cfgs: Vec<Node> = h.nodes().filter(|n| h.get_optype(*n).is_cfg()).collect();
    if cfgs.is_empty() {
        return Ok(None);
    }
    let cfg = *c.t.pick(&cfgs);
    let ch: Vec<Node> = h.children(cfg).collect();
    let exit = ch[1];
    let mut s: BTreeSet<Node> = BTreeSet::new();
    match c.t.below(4) {
        0 => {
            let k = 1 + c.t.below(3);
            for _ in 0..k {
                s.insert(*c.t.pick(&ch));
            }
        }
        _ => {
            // everything from one block up to another
            let a = *c.t.pick(&ch);
            let z = *c.t.pick(&ch);
            let mut q = vec![a];
            while let Some(n) = q.pop() {
                if n != exit && s.insert(n) && n != z {
                    q.extend(h.output_neighbours(n));
                }
            }
        }
    }
    if c.t.chance(1, 30) {
        let v: Vec<Node> = h.nodes().collect();
        s.insert(*c.t.pick(&v));
    }
    if s.is_empty() {
        return Ok(None);
    }
    c.note(|| format!("outline {s:?}"));
    let a = h.clone();
    let siblings = s.iter().all(|n| a.get_parent(*n) == Some(cfg));
    let entries: Vec<Node> = s.iter().copied().filter(|n| *n == ch[0] || a.input_neighbours(*n).any(|m| !s.contains(&m))).collect();
    let exits: Vec<(Node, Node)> = if siblings { s.iter().flat_map(|n| a.output_neighbours(*n).filter(|m| !s.contains(m)).map(move |m| (*n, m)).collect::<Vec<_>>()).collect() } else { vec![] };
    // values that go to blocks outside
    let uses = s.iter().flat_map(|n| a.children(*n)).any(|x| {
        a.output_neighbours(x).any(|y| {
            let mut y = y;
            while let Some(p) = a.get_parent(y).filter(|p| *p != cfg) {
                y = p;
            }
            !s.contains(&y)
        })
    });
    c.label_if(uses, "outline-used-outside");
    let good = siblings && entries.len() == 1 && exits.len() == 1 && !s.contains(&exit) && !uses;
    let r = run("outline", h, OutlineCfg::new(s.iter().copied()))?;
    let [block, inner] = match (good, r) {
        (true, Ok(o)) => o,
        (false, Err(_)) => return Ok(Some(false)),
        (true, Err(e)) => return fail("outline-refused", e).map(|_: ()| None),
        (false, Ok(_)) => return fail("outline-accepted", format!("{s:?}")).map(|_: ()| None),
    };
    let moved = s.iter().map(|n| (*n, inner)).collect();
    let new = kept("outline", &a, h, &[], &[], &moved)?;
    check(new.contains(&block) && new.contains(&inner), "outline-outcome", "")?;
    check(h.get_parent(block) == Some(cfg) && h.get_parent(inner) == Some(block) && h.get_optype(inner).is_cfg(), "outline-place", "")?;
    // the only child of the block besides what it needs to go on
    check(h.children(block).filter(|n| h.get_optype(*n).tag() <= OpTag::DataflowParent || h.get_optype(*n).is_cfg()).count() == 1, "outline-children", "")?;
    let kids: BTreeSet<Node> = h.children(inner).collect();
    check(s.is_subset(&kids) && kids.len() == s.len() + 1 && h.first_child(inner) == Some(entries[0]), "outline-blocks", "")?;
    check(new.len() == 7, "outline-added", &format!("{new:?}"))?;
    // edges between the blocks are untouched, the others redirected
    for n in a.children(cfg) {
        for p in a.node_outputs(n) {
            let Some((m, _)) = a.single_linked_input(n, p) else { continue };
            let got = h.single_linked_input(n, p).map(|x| x.0);
            let want = match (s.contains(&n), s.contains(&m)) {
                (true, true) | (false, false) => m,
                (false, true) => block,
                (true, false) => h.children(inner).nth(1).unwrap(),
            };
            check(got == Some(want), "outline-edges", &format!("{n} {p}: {got:?} instead of {want}"))?;
        }
    }
    check(h.output_neighbours(block).collect::<Vec<_>>() == [exits[0].1], "outline-exit", "")?;
    Ok(Some(true))
}
fn identity(c: &mut Ctx, h: &mut Hugr) -> Result<Option<bool>, Fail> {
    let all: Vec<Node> = h.nodes().filter(|n| h.num_inputs(*n) > 0).collect();
    let n = *c.t.pick(&all);
    let extra = usize::from(c.t.chance(1, 10));
    let p = IncomingPort::from(c.t.below(h.num_inputs(n) + extra));
    c.note(|| format!("identity before {n} {p}"));
    let a = h.clone();
    let kind = a.get_optype(n).port_kind(p);
    let r = run("identity", h, IdentityInsertion::new(n, p))?;
    let Some(EdgeKind::Value(ty)) = &kind else {
        let want = IdentityInsertionError::InvalidPortKind(kind.clone());
        let Err(e) = &r else { return fail("identity-accepted", format!("{n} {p}")).map(|_: ()| None) };
        check(*e == text(&want), "identity-error", e)?;
        return Ok(Some(false));
    };
    let x = match r {
        Ok(x) => x,
        Err(e) => return fail("identity-refused", e).map(|_: ()| None),
    };
    let new = kept("identity", &a, h, &[], &[], &BTreeMap::new())?;
    check(new == BTreeSet::from([x]), "identity-added", &format!("{new:?}"))?;
    check(h.get_optype(x).cast::<Noop>().is_some_and(|o| &o.0 == ty), "identity-op", "")?;
    check(h.get_parent(x) == a.get_parent(n), "identity-place", "")?;
    check(h.single_linked_output(n, p) == Some((x, 0.into())) && h.single_linked_output(x, 0) == a.single_linked_output(n, p), "identity-links", "")?;
    Ok(Some(true))
}
fn cut(c: &mut Ctx, h: &mut Hugr) -> Result<Option<bool>, Fail> {
    let ps = c11::dataflow_parents(h);
    let parent = *c.t.pick(&ps);
    let mut ports: Vec<(Node, IncomingPort)> = h
        .children(parent)
        .flat_map(|n| h.node_inputs(n).filter(|p| matches!(h.get_optype(n).port_kind(*p), Some(EdgeKind::Value(_)))).map(move |p| (n, p)).collect::<Vec<_>>())
        .collect();
    c.t.shuffle(&mut ports);
    let k = c.t.below(4);
    ports.truncate(k);
    let types: Vec<Type> = ports
        .iter()
        .map(|(n, p)| match h.get_optype(*n).port_kind(*p) {
            Some(EdgeKind::Value(t)) => t,
            _ => unreachable!(),
        })
        .collect();
    let sig = Signature::new_endo(types.clone());
    let fault = c.t.weighted(&[12, 1, 1, 1, 1, 1]);
    let sig = if fault == 1 { Signature::new(types.clone(), { let mut t = types.clone(); t.push(crate::ext::t_ty()); t }) } else { sig };
    let op: OpType = if fault == 2 { ops::FuncDefn::new("f", sig.clone()).into() } else { ops::DFG { signature: sig.clone() }.into() };
    let mut g = Hugr::new_with_entrypoint(op.clone()).unwrap();
    let e = g.entrypoint();
    let i = g.add_node_with_parent(e, ops::Input::new(sig.input.clone()));
    let o = g.add_node_with_parent(e, ops::Output::new(sig.output.clone()));
    for (k, ty) in types.iter().enumerate() {
        match c.t.below(4) {
            0 => g.connect(i, k, o, k),
            1 => {
                // a nested region
                let d = g.add_node_with_parent(e, ops::DFG { signature: Signature::new_endo(vec![ty.clone()]) });
                let di = g.add_node_with_parent(d, ops::Input::new(vec![ty.clone()]));
                let dout = g.add_node_with_parent(d, ops::Output::new(vec![ty.clone()]));
                g.connect(di, 0, dout, 0);
                g.connect(i, k, d, 0);
                g.connect(d, 0, o, k);
            }
            _ => {
                let n = g.add_node_with_parent(e, Noop::new(ty.clone()));
                g.set_metadata(n, "cut", k);
                g.connect(i, k, n, 0);
                g.connect(n, 0, o, k);
            }
        }
    }
    let a = h.clone();
    let mut targets = ports.clone();
    let mut at = parent;
    let all: Vec<Node> = h.nodes().collect();
    let want = match fault {
        1 => Some(InsertCutError::<Node>::InputOutputMismatch),
        2 => Some(InsertCutError::ReplaceNotDfg(op)),
        3 => {
            targets.push((a.module_root(), 0.into()));
            Some(InsertCutError::TargetNumberMismatch(types.len(), targets.len()))
        }
        4 => {
            at = *c.t.pick(&all);
            if a.get_optype(at).tag() <= OpTag::DataflowParent {
                return Ok(None);
            }
            Some(InsertCutError::InvalidParentNode)
        }
        5 if !targets.is_empty() => {
            let j = c.t.below(targets.len());
            targets[j] = (a.module_root(), 0.into());
            Some(InsertCutError::InvalidIncomingPort(0))
        }
        _ => None,
    };
    c.note(|| format!("cut {targets:?} in {at} with {}", canon::show(&g)));
    let r = run("cut", h, InsertCut::new(at, targets, g.clone()))?;
    if let Some(w) = want {
        let Err(e) = &r else { return fail("cut-accepted", format!("{w:?}")).map(|_: ()| None) };
        check(*e == text(&w), "cut-error", e)?;
        return Ok(Some(false));
    }
    let map = match r {
        Ok(x) => x,
        Err(e) => return fail("cut-refused", e).map(|_: ()| None),
    };
    let new = kept("cut", &a, h, &[], &[], &BTreeMap::new())?;
    let inner: Vec<Node> = g.descendants(e).filter(|n| ![e, i, o].contains(n)).collect();
    check(inner.iter().map(|n| map[n]).collect::<BTreeSet<_>>() == new, "cut-added", &format!("{new:?}"))?;
    for n in &inner {
        check(canon::op(g.get_optype(*n), false) == canon::op(h.get_optype(map[n]), false) && canon::metadata(&g, *n) == canon::metadata(h, map[n]), "cut-node", &format!("{n}"))?;
        let up = g.get_parent(*n).unwrap();
        check(h.get_parent(map[n]) == Some(if up == e { parent } else { map[&up] }), "cut-place", &format!("{n}"))?;
    }
    for (k, (n, p)) in ports.iter().enumerate() {
        let (x, q) = g.single_linked_output(o, k).unwrap();
        if x != i {
            check(h.single_linked_output(*n, *p) == Some((map[&x], q)), "cut-links", &format!("{n} {p}"))?;
            check(h.single_linked_output(map[&x], 0).map(|y| a.contains_node(y.0)) == Some(true) || true, "cut-links", "")?;
        }
    }
    Ok(Some(true))
}
fn consts(c: &mut Ctx, h: &mut Hugr) -> Result<Option<bool>, Fail> {
    if c.t.flag() {
        // make some loads unused first
        let v: Vec<Node> = h.nodes().filter(|n| h.get_optype(*n).as_load_constant().is_some_and(|l| l.constant_type().copyable())).collect();
        if v.is_empty() {
            return Ok(None);
        }
        let n = *c.t.pick(&v);
        let src = h.static_source(n).unwrap();
        let op = h.get_optype(n).clone();
        let up = h.get_parent(n).unwrap();
        let x = h.add_node_with_parent(up, op);
        h.connect(src, 0, x, 0);
        if c.t.flag() {
            // a constant of its own
            let k = h.add_node_with_parent(up, h.get_optype(src).clone());
            h.disconnect(x, IncomingPort::from(0));
            h.connect(k, 0, x, 0);
        }
    }
    let Some(n) = site(c, h, |n| h.get_optype(n).is_load_constant()) else { return Ok(None) };
    let unused: Vec<Node> = h.nodes().filter(|n| h.get_optype(*n).is_load_constant() && h.linked_inputs(*n, OutgoingPort::from(0)).next().is_none()).collect();
    let n = if !unused.is_empty() && c.t.chance(3, 4) { *c.t.pick(&unused) } else { n };
    c.note(|| format!("remove load {n}"));
    let a = h.clone();
    let r = run("load", h, RemoveLoadConstant(n))?;
    let want = if !a.get_optype(n).is_load_constant() {
        Some(RemoveError::InvalidNode(n))
    } else if a.linked_inputs(n, OutgoingPort::from(0)).next().is_some() {
        Some(RemoveError::ValueUsed(n))
    } else {
        None
    };
    if let Some(w) = want {
        let Err(e) = &r else { return fail("load-accepted", format!("{n}")).map(|_: ()| None) };
        check(*e == text(&w), "load-error", e)?;
        if let Some(d) = canon::diff(&a, h, &Default::default()) {
            return fail("load-refused-changed", d).map(|_: ()| None);
        }
    } else {
        let src = match r {
            Ok(x) => x,
            Err(e) => return fail("load-refused", e).map(|_: ()| None),
        };
        check(Some(src) == a.static_source(n), "load-outcome", "")?;
        let new = kept("load", &a, h, &[n], &[], &BTreeMap::new())?;
        check(new.is_empty(), "load-added", "")?;
    }
    // constants
    let Some(n) = site(c, h, |n| h.get_optype(n).is_const()) else { return Ok(Some(true)) };
    let unused: Vec<Node> = h.nodes().filter(|n| h.get_optype(*n).is_const() && h.output_neighbours(*n).next().is_none()).collect();
    let n = if !unused.is_empty() && c.t.chance(3, 4) { *c.t.pick(&unused) } else { n };
    c.note(|| format!("remove constant {n}"));
    let a = h.clone();
    let r = run("const", h, RemoveConst(n))?;
    let want = if !a.get_optype(n).is_const() {
        Some(RemoveError::InvalidNode(n))
    } else if a.output_neighbours(n).next().is_some() {
        Some(RemoveError::ValueUsed(n))
    } else {
        None
    };
    if let Some(w) = want {
        let Err(e) = &r else { return fail("const-accepted", format!("{n}")).map(|_: ()| None) };
        check(*e == text(&w), "const-error", e)?;
        if let Some(d) = canon::diff(&a, h, &Default::default()) {
            return fail("const-refused-changed", d).map(|_: ()| None);
        }
    } else {
        let up = match r {
            Ok(x) => x,
            Err(e) => return fail("const-refused", e).map(|_: ()| None),
        };
        check(Some(up) == a.get_parent(n), "const-outcome", "")?;
        let new = kept("const", &a, h, &[n], &[], &BTreeMap::new())?;
        check(new.is_empty(), "const-added", "")?;
    }
    Ok(Some(true))
}
