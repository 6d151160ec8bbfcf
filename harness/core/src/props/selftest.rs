//! Not a claimed property: checks the generator and the evaluator.
use crate::engine::*;
use crate::gen_::{Profile, program};
use crate::interp::{self, Stop};
use crate::canon;
use hugr::HugrView;

pub fn prop() -> Prop {
    Prop {
        id: "SELF",
        rule: "generated program",
        assumptions: &[],
        subs: vec![
            Sub { name: "valid", quick: 4000, thorough: 40000, f: valid },
            Sub { name: "runs", quick: 4000, thorough: 40000, f: runs },
        ],
        findings: vec![],
    }
}
fn valid(c: &mut Ctx) -> R {
    let p = Profile { size: 8 + c.t.below(30), aliases: true, odd_names: true, bounded: c.t.flag(), partial: true, panics: true, recursion: true, effects: c.t.flag(), ..Default::default() };
    let g = program(&mut c.t, &p);
    c.nontrivial(canon::graph_hash(&g.hugr));
    c.sample(|| canon::show(&g.hugr));
    c.note(|| canon::show(&g.hugr));
    if let Err(e) = g.hugr.validate() {
        return fail("invalid", format!("{e}\n{}", canon::show(&g.hugr)));
    }
    ensure!(canon::graph_hash(&g.hugr) == canon::graph_hash(&g.hugr.clone()), "hash", "hash");
    Ok(())
}
fn runs(c: &mut Ctx) -> R {
    let p = Profile { size: 8 + c.t.below(30), consty: c.t.flag(), effects: c.t.flag(), partial: c.t.flag(), panics: c.t.flag(), ..Default::default() };
    let g = program(&mut c.t, &p);
    c.note(|| canon::show(&g.hugr));
    let pr = interp::Prog::new(&g.hugr);
    let Some(args) = args_for(&mut c.t, &g.sig) else { c.label("no-args"); return Ok(()) };
    let o = interp::run_prog(&pr, pr.ix(g.main), &args, 20000);
    c.note(|| format!("{:?}", o.res));
    match &o.res {
        Ok(_) => c.label("ok"),
        Err(Stop::Fuel) => c.label("fuel"),
        Err(Stop::Panic(_)) => c.label("panic"),
        Err(e) => return fail("stuck", format!("{e:?}\n{}", canon::show(&g.hugr))),
    }
    c.nontrivial(o.steps);
    Ok(())
}
pub fn args_for(t: &mut Tape, s: &hugr::types::Signature) -> Option<Vec<interp::V>> {
    s.input().iter().map(|x| { let h = t.u64(); interp::value_from_hash(&interp::ty(x, &[]), h) }).collect()
}
