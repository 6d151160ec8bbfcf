//! Shared machinery for program transformations: run before, transform, run after.
use crate::canon;
use crate::engine::*;
use crate::gen_::{self, Profile, Program, program};
use crate::interp::{self, Outcome, Prog, Stop, V};
use super::selftest::args_for;
use hugr::ops::OpType;
use hugr::{Hugr, HugrView, Node};

pub const FUEL: u64 = 20_000;

/// A profile without what transformations leave alone anyway.
pub fn profile(t: &mut Tape, size: usize) -> Profile {
    Profile {
        size: 3 + t.below(size),
        depth: 1 + t.below(3),
        funcs: t.below(4),
        bounded: !t.chance(1, 6),
        partial: t.chance(1, 3),
        panics: t.chance(1, 4),
        recursion: t.chance(1, 4),
        effects: t.flag(),
        consty: t.flag(),
        nonlocal: t.flag(),
        metadata: t.chance(1, 4),
        any_entry: false,
        ..Default::default()
    }
}
pub struct Run {
    pub func: Node,
    pub args: Vec<V>,
    pub out: Outcome,
    /// The edges of the program leave no choice in the order of effects.
    pub fixed: bool,
}
/// The function definitions without type parameters.
pub fn mono_funcs(h: &Hugr) -> Vec<Node> {
    h.children(h.module_root())
        .filter(|n| matches!(h.get_optype(*n), OpType::FuncDefn(f) if f.signature().params().is_empty()))
        .collect()
}
pub fn args(t: &mut Tape, h: &Hugr, f: Node) -> Option<Vec<V>> {
    let OpType::FuncDefn(d) = h.get_optype(f) else { return None };
    let s = d.signature().body().clone();
    args_for(t, &s)
}
/// Runs each of the functions on `k` input vectors.
pub fn runs(c: &mut Ctx, h: &Hugr, funcs: &[Node], k: usize) -> Result<Vec<Run>, Fail> {
    let p = Prog::new(h);
    let fixed = p.one_schedule();
    let mut v = vec![];
    for f in funcs {
        for _ in 0..k {
            let Some(a) = args(&mut c.t, h, *f) else { break };
            let out = interp::run_prog(&p, p.ix(*f), &a, FUEL);
            if let Err(Stop::Stuck(e)) = &out.res {
                return fail("harness-stuck", format!("{e}\n{}", canon::show(h)));
            }
            let none = a.is_empty();
            v.push(Run { func: *f, args: a, out, fixed });
            if none {
                break;
            }
        }
    }
    Ok(v)
}
#[derive(Clone, Copy, PartialEq)]
pub enum Trace {
    Same,
    /// Effects may be dropped but not added or reordered.
    Sub,
    Ignore,
}
fn subsequence(a: &[u64], b: &[u64]) -> bool {
    let mut i = b.iter();
    a.iter().all(|x| i.any(|y| x == y))
}
/// Checks that `after` does what the recorded runs did.
pub fn same(rs: &[Run], after: &Hugr, strict: bool, tr: Trace) -> R {
    same_at(rs, after, strict, tr, |f| Some(f))
}
/// As `same`, not asking that edges still fix the order of effects: merged
/// blocks are only related by the values they pass (by design).
pub fn same_as_run(rs: &[Run], after: &Hugr, strict: bool, tr: Trace) -> R {
    same_under(rs, after, strict, tr, &|f| Some(f), false)
}
pub fn same_at(rs: &[Run], after: &Hugr, strict: bool, tr: Trace, at: impl Fn(Node) -> Option<Node>) -> R {
    same_under(rs, after, strict, tr, &at, false)?;
    // the order of effects must still be fixed by edges, not by luck
    if tr != Trace::Ignore && rs.iter().any(|r| r.fixed && r.out.trace.len() > 1) {
        same_under(rs, after, strict, tr, &at, true)?;
    }
    Ok(())
}
fn same_under(
    rs: &[Run],
    after: &Hugr,
    strict: bool,
    tr: Trace,
    at: &impl Fn(Node) -> Option<Node>,
    last_first: bool,
) -> R {
    let p = Prog::scheduled(after, last_first);
    for r in rs {
        if last_first && !(r.fixed && r.out.trace.len() > 1 && r.out.res.is_ok()) {
            continue;
        }
        let Some(f) = at(r.func) else { continue };
        if !after.contains_node(f) || !after.get_optype(f).is_func_defn() {
            return fail("function-lost", format!("function {f} is gone\n{}", canon::show(after)));
        }
        let fuel = match &r.out.res {
            Ok(_) | Err(Stop::Panic(_)) => FUEL * 20,
            _ => continue,
        };
        let what = || format!("function {f} on ({})", r.args.iter().map(interp::show).collect::<Vec<_>>().join(", "));
        let o = interp::run_prog(&p, p.ix(f), &r.args, fuel);
        match (&r.out.res, &o.res) {
            (Ok(a), Ok(b)) => {
                ensure!(a == b, "behaviour", "{}: gave {a:?}, now gives {b:?}\n{}", what(), canon::show(after));
                let ok = match tr {
                    Trace::Same => r.out.trace == o.trace,
                    Trace::Sub => subsequence(&o.trace, &r.out.trace),
                    Trace::Ignore => true,
                };
                ensure!(ok, if last_first { "effect-order" } else { "effects" }, "{}: effects were {:x?}, now {:x?}\n{}", what(), r.out.trace, o.trace, canon::show(after));
            }
            (Ok(a), Err(e)) => return fail("behaviour", format!("{}: gave {a:?}, now {e:?}\n{}", what(), canon::show(after))),
            (Err(Stop::Panic(_)), Err(Stop::Panic(_))) => {}
            // which of two independent parts panics or runs forever is open
            (Err(Stop::Panic(_)), Err(Stop::Fuel)) => {}
            (Err(Stop::Panic(m)), x) => {
                if strict || matches!(x, Err(Stop::Stuck(_))) {
                    return fail("behaviour", format!("{}: panicked ({m}), now {x:?}\n{}", what(), canon::show(after)));
                }
            }
            _ => {}
        }
    }
    Ok(())
}
pub fn valid(h: &Hugr, what: &str) -> R {
    match no_panic(|| h.validate()) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => fail(format!("{what}-invalid"), format!("{e}\n{}", canon::show(h))),
        Err((m, at)) => fail(format!("{what}-invalid"), format!("validation panics: {m} at {at}\n{}", canon::show(h))),
    }
}
pub fn terminates(rs: &[Run]) -> bool {
    rs.iter().any(|r| r.out.res.is_ok())
}
pub fn label_runs(c: &mut Ctx, rs: &[Run]) {
    c.label_if(rs.iter().any(|r| r.out.res.is_ok()), "some-run-ok");
    c.label_if(rs.iter().any(|r| matches!(r.out.res, Err(Stop::Panic(_)))), "some-run-panics");
    c.label_if(rs.iter().any(|r| matches!(r.out.res, Err(Stop::Fuel))), "some-run-unfinished");
    c.label_if(rs.iter().any(|r| !r.out.trace.is_empty()), "effects");
    c.label_if(rs.iter().any(|r| r.fixed && r.out.trace.len() > 1 && r.out.res.is_ok()), "fixed-order");
}
/// Name and signature of every module child.
pub fn interface(h: &Hugr) -> Vec<String> {
    let mut v: Vec<String> = h
        .children(h.module_root())
        .filter(|n| !h.get_optype(*n).is_const())
        .map(|n| format!("{n} {}", canon::op(h.get_optype(n), false)))
        .collect();
    v.sort();
    v
}
pub fn gen_program(c: &mut Ctx, p: &Profile) -> Program {
    let g = program(&mut c.t, p);
    c.note(|| canon::show(&g.hugr));
    g
}
/// Containers strictly below functions that can be entrypoints.
pub fn containers(h: &Hugr) -> Vec<Node> {
    h.nodes().filter(|n| gen_container(h.get_optype(*n))).collect()
}
fn gen_container(o: &OpType) -> bool {
    matches!(o, OpType::DFG(_) | OpType::CFG(_) | OpType::Conditional(_) | OpType::TailLoop(_))
}
#[allow(unused)]
fn _u(_: &gen_::Profile) {}
