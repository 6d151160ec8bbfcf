//! C19: control-flow restructuring preserves behaviour.
use crate::canon;
use crate::engine::*;
use super::pass::{self, Trace};
use hugr::algorithms::ComposablePass;
use hugr::algorithms::nest_cfgs::{CfgNodeMap, EdgeClassifier, IdentityCfgMap, region_blocks, transform_all_cfgs};
use hugr::algorithms::normalize_cfgs::{NormalizeCFGPass, NormalizeCFGResult, merge_basic_blocks, normalize_cfg};
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::OpType;
use hugr::{Hugr, HugrView, Node};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        rule: "generated programs with arbitrary control-flow graphs (irreducible, loops, multi-edges, unreachable blocks, dominator and external edges, nested graphs, order edges), run before and after merging, normalising and nesting; random abstract flow graphs for region identification and edge classes against brute force; non-trivial: the pass changed something (programs), a region exists (regions)",
        assumptions: &["the harness evaluator gives the meaning of programs"],
        subs: vec![
            Sub { name: "merge", quick: 4000, thorough: 300_000, f: merge },
            Sub { name: "normalize", quick: 6000, thorough: 500_000, f: normalize },
            Sub { name: "nest", quick: 5000, thorough: 400_000, f: nest },
            Sub { name: "regions", quick: 30_000, thorough: 3_000_000, f: regions },
        ],
        findings: vec![],
    }
}
fn profile(t: &mut Tape) -> crate::gen_::Profile {
    let c_heavy = t.chance(3, 4);
    let mut p = pass::profile(t, 30);
    p.cfg = true;
    p.cfg_heavy = c_heavy;
    p.depth = 1 + t.below(3);
    p.order = t.flag();
    p.effects = t.flag();
    p.nonlocal = t.chance(2, 3);
    p.cond = t.flag();
    p.loops = t.flag();
    p.nested = t.flag();
    p.funcs = t.below(2);
    p
}
fn cfgs(h: &Hugr) -> Vec<Node> {
    h.entry_descendants().filter(|n| h.get_optype(*n).is_cfg()).collect()
}
/// Edges of a control-flow graph, with multiplicity.
fn flow(h: &Hugr, cfg: Node) -> Vec<(Node, Node)> {
    h.children(cfg).flat_map(|b| h.node_outputs(b).flat_map(move |p| h.linked_inputs(b, p).map(move |(t, _)| (b, t)))).collect()
}
fn mergeable(h: &Hugr, cfg: Node) -> Option<(Node, Node)> {
    let e = flow(h, cfg);
    let fixed: Vec<Node> = h.children(cfg).take(2).collect();
    for &(a, b) in &e {
        if !fixed.contains(&b) && a != b && e.iter().filter(|x| x.0 == a).count() == 1 && e.iter().filter(|x| x.1 == b).count() == 1 {
            return Some((a, b));
        }
    }
    None
}
/// Is there a value used in block `b` that comes from another block of the graph?
fn dom_into(h: &Hugr, cfg: Node, b: Node) -> bool {
    h.descendants(b).skip(1).any(|n| {
        h.input_neighbours(n).any(|s| {
            let mut a = s;
            loop {
                match h.get_parent(a) {
                    Some(p) if p == cfg => return a != b,
                    Some(p) => a = p,
                    None => return false,
                }
            }
        })
    })
}
fn pick_entry(c: &mut Ctx, h: &mut Hugr, main: Node) {
    match c.t.below(3) {
        0 | 1 => h.set_entrypoint(h.module_root()),
        _ => h.set_entrypoint(main),
    }
}
fn merge(c: &mut Ctx) -> R {
    let p = profile(&mut c.t);
    let g = pass::gen_program(c, &p);
    let mut h = g.hugr;
    pick_entry(c, &mut h, g.main);
    let all = pass::mono_funcs(&h);
    let rs = pass::runs(c, &h, &all, 2)?;
    let cs = cfgs(&h);
    if cs.is_empty() {
        // the entrypoint must be a CFG
        let mut h2 = h.clone();
        ensure!(merge_basic_blocks(&mut h2).is_err(), "not-a-cfg", "accepted");
        return Ok(());
    }
    let cfg = *c.t.pick(&cs);
    let mut h2 = h.clone();
    let before = h.children(cfg).count();
    let n = match no_panic(|| merge_basic_blocks(&mut h2.with_entrypoint_mut(cfg))) {
        Err((m, at)) => return fail("merge-crash", format!("{m} at {at}")),
        Ok(Err(e)) => return fail("merge-error", format!("{e}")),
        Ok(Ok(n)) => n,
    };
    pass::valid(&h2, "merge")?;
    ensure!(h2.entrypoint() == h.entrypoint() && pass::interface(&h2) == pass::interface(&h), "interface", "");
    ensure!(before - n == h2.children(cfg).count(), "merge-count", "{n} merged, {before} blocks, now {}", h2.children(cfg).count());
    if let Some((a, b)) = mergeable(&h2, cfg) {
        return fail("merge-left", format!("{a} and {b}\n{}", canon::show(&h2)));
    }
    pass::same_as_run(&rs, &h2, true, Trace::Same)?;
    pass::label_runs(c, &rs);
    if n > 0 && pass::terminates(&rs) {
        c.nontrivial(canon::graph_hash(&h));
        c.sample(|| canon::show(&h));
    }
    Ok(())
}
fn normalize(c: &mut Ctx) -> R {
    let p = profile(&mut c.t);
    let g = pass::gen_program(c, &p);
    let mut h = g.hugr;
    pick_entry(c, &mut h, g.main);
    let all = pass::mono_funcs(&h);
    let rs = pass::runs(c, &h, &all, 2)?;
    let cs = cfgs(&h);
    let mut h2 = h.clone();
    let mode = if cs.is_empty() { 0 } else { c.t.below(3) };
    let one = if cs.is_empty() { h.module_root() } else { *c.t.pick(&cs) };
    c.note(|| format!("mode {mode} cfg {one}"));
    let mut blocks: HashMap<Node, usize> = HashMap::new();
    for x in &cs {
        blocks.insert(*x, h.children(*x).count());
    }
    let r = no_panic(|| match mode {
        0 => NormalizeCFGPass::default().run(&mut h2).map_err(|e| format!("{e}")),
        1 => {
            let mut p = NormalizeCFGPass::default();
            p.cfgs().push(one);
            p.run(&mut h2).map_err(|e| format!("{e}"))
        }
        _ => normalize_cfg(&mut h2.with_entrypoint_mut(one)).map(|r| HashMap::from([(one, r)])).map_err(|e| format!("{e}")),
    });
    let res = match r {
        Err((m, at)) => return fail("normalize-crash", format!("{m} at {at}")),
        Ok(Err(e)) => return fail("normalize-error", e),
        Ok(Ok(r)) => r,
    };
    pass::valid(&h2, "normalize")?;
    ensure!(h2.entrypoint() == h.entrypoint() && pass::interface(&h2) == pass::interface(&h), "interface", "");
    pass::same_as_run(&rs, &h2, true, Trace::Same)?;
    let want: BTreeSet<Node> = if mode == 0 { cs.iter().copied().collect() } else { [one].into() };
    ensure!(res.keys().copied().collect::<BTreeSet<_>>() == want, "report", "{res:?} for {want:?}");
    let mut changed = false;
    for (cfg, r) in &res {
        if !h2.contains_node(*cfg) {
            // in a block that was thrown away
            let mut a = *cfg;
            let mut ok = false;
            while let Some(p) = h.get_parent(a) {
                ok |= matches!(res.get(&p), Some(NormalizeCFGResult::CFGToDFG));
                a = p;
            }
            ensure!(ok, "cfg-lost", "{cfg}");
            continue;
        }
        match r {
            NormalizeCFGResult::CFGToDFG => {
                changed = true;
                c.label("to DFG");
                ensure!(h2.get_optype(*cfg).is_dfg(), "report", "{cfg} is {}", h2.get_optype(*cfg));
            }
            NormalizeCFGResult::CFGPreserved { entry_nodes_moved, exit_dfg, num_merged } => {
                ensure!(h2.get_optype(*cfg).is_cfg(), "report", "{cfg} is {}", h2.get_optype(*cfg));
                changed |= !entry_nodes_moved.is_empty() || exit_dfg.is_some() || *num_merged > 0;
                c.label_if(!entry_nodes_moved.is_empty(), "entry lifted");
                c.label_if(exit_dfg.is_some(), "exit lifted");
                c.label_if(*num_merged > 0, "merged");
                // nodes that were moved next to the graph (it may have moved on with them)
                for n in entry_nodes_moved {
                    if h2.contains_node(*n) && mode != 0 {
                        ensure!(h2.get_parent(*n) == h2.get_parent(*cfg), "report", "{n} is not beside {cfg}");
                    }
                    ensure!(h2.contains_node(*n) || mode == 0, "report", "{n} is gone");
                }
                if let Some(d) = exit_dfg {
                    if mode != 0 || h2.contains_node(*d) {
                        ensure!(h2.get_optype(*d).is_dfg(), "report", "{d} is no DFG");
                    }
                    if mode != 0 {
                        ensure!(h2.get_parent(*d) == h2.get_parent(*cfg), "report", "{d} is not beside {cfg}");
                    }
                }
                // lifting the entry may go with an empty list of nodes moved
                let (b, a) = (blocks[cfg], h2.children(*cfg).count());
                let lifted = b as i64 - a as i64 - *num_merged as i64 - exit_dfg.is_some() as i64;
                let ok = if entry_nodes_moved.is_empty() { lifted == 0 || lifted == 1 } else { lifted == 1 };
                ensure!(ok, "report", "{b} blocks became {a}: {r:?}");
                changed |= lifted == 1;
                // nothing left to do
                if let Some((x, y)) = mergeable(&h2, *cfg) {
                    return fail("not-normal", format!("{x} and {y} could be merged\n{}", canon::show(&h2)));
                }
                let e = flow(&h2, *cfg);
                let io: Vec<Node> = h2.children(*cfg).take(2).collect();
                let entry_open = e.iter().filter(|x| x.0 == io[0]).count() == 1 && !e.iter().any(|x| x.1 == io[0]);
                ensure!(!entry_open, "not-normal", "the entry of {cfg} could be lifted\n{}", canon::show(&h2));
                let preds: Vec<Node> = e.iter().filter(|x| x.1 == io[1]).map(|x| x.0).collect();
                if let [p] = preds[..] {
                    let exit_open = p != io[0] && e.iter().filter(|x| x.0 == p).count() == 1 && !dom_into(&h2, *cfg, p);
                    ensure!(!exit_open, "not-normal", "the last block {p} of {cfg} could be lifted\n{}", canon::show(&h2));
                }
            }
        }
    }
    pass::label_runs(c, &rs);
    if changed && pass::terminates(&rs) {
        c.nontrivial(canon::graph_hash(&h));
        c.sample(|| canon::show(&h));
    }
    Ok(())
}
fn nest(c: &mut Ctx) -> R {
    let mut p = profile(&mut c.t);
    p.size += 10;
    let g = pass::gen_program(c, &p);
    let mut h = g.hugr;
    pick_entry(c, &mut h, g.main);
    let all = pass::mono_funcs(&h);
    let rs = pass::runs(c, &h, &all, 2)?;
    let mut h2 = h.clone();
    if let Err((m, at)) = no_panic(|| transform_all_cfgs(&mut h2)) {
        return fail("nest-crash", format!("{m} at {at}"));
    }
    pass::valid(&h2, "nest")?;
    ensure!(h2.entrypoint() == h.entrypoint() && pass::interface(&h2) == pass::interface(&h), "interface", "");
    pass::same(&rs, &h2, true, Trace::Same)?;
    // the original nodes are all there
    for n in h.nodes() {
        ensure!(h2.contains_node(n), "node-lost", "{n}");
    }
    // the classes of every graph agree with brute force
    for x in cfgs(&h) {
        let m = IdentityCfgMap::new(h.with_entrypoint(x));
        let nodes: Vec<Node> = h.children(x).collect();
        classes(&m, &nodes)?;
    }
    pass::label_runs(c, &rs);
    if h2.num_nodes() != h.num_nodes() && pass::terminates(&rs) {
        c.nontrivial(canon::graph_hash(&h));
        c.sample(|| canon::show(&h));
    }
    Ok(())
}
// ------------------------------------------------------------ abstract graphs
struct Flow {
    n: usize,
    e: Vec<(usize, usize)>,
}
impl CfgNodeMap<usize> for Flow {
    fn entry_node(&self) -> usize {
        0
    }
    fn exit_node(&self) -> usize {
        1
    }
    fn successors(&self, n: usize) -> impl Iterator<Item = usize> {
        self.e.iter().filter(move |x| x.0 == n).map(|x| x.1)
    }
    fn predecessors(&self, n: usize) -> impl Iterator<Item = usize> {
        self.e.iter().filter(move |x| x.1 == n).map(|x| x.0)
    }
}
fn reach<T: Copy + Ord>(from: T, e: &BTreeSet<(T, T)>) -> BTreeSet<T> {
    let mut s = BTreeSet::from([from]);
    let mut todo = vec![from];
    while let Some(x) = todo.pop() {
        for (_, b) in e.iter().filter(|y| y.0 == x) {
            if s.insert(*b) {
                todo.push(*b);
            }
        }
    }
    s
}
/// Edge classes against brute force: two edges belong together iff taking out
/// both cuts the graph (with an edge from exit to entry) in two.
fn classes<T: Copy + Ord + std::hash::Hash + std::fmt::Debug>(m: &impl CfgNodeMap<T>, nodes: &[T]) -> R {
    let all: BTreeSet<(T, T)> = nodes.iter().flat_map(|n| m.successors(*n).map(|s| (*n, s)).collect::<Vec<_>>()).collect();
    let (entry, exit) = (m.entry_node(), m.exit_node());
    let live = reach(entry, &all);
    let back: BTreeSet<(T, T)> = all.iter().map(|(a, b)| (*b, *a)).collect();
    let got = match no_panic(|| EdgeClassifier::get_edge_classes(m)) {
        Ok(g) => g,
        Err((m, at)) => return fail("classes-crash", format!("{m} at {at}")),
    };
    let e: Vec<(T, T)> = all.iter().copied().filter(|x| live.contains(&x.0)).collect();
    if all.contains(&(exit, entry)) || live != reach(exit, &back) {
        // the classes say nothing particular when there are blocks that control cannot pass through
        return Ok(());
    }
    // the undirected multigraph: one edge per pair of nodes and direction, and the closing edge
    let mut und: Vec<(T, T)> = e.clone();
    und.push((exit, entry));
    let parts = |skip: &[usize]| -> usize {
        let mut s: BTreeSet<T> = BTreeSet::new();
        let mut k = 0;
        for n in &live {
            if s.contains(n) {
                continue;
            }
            k += 1;
            let mut todo = vec![*n];
            s.insert(*n);
            while let Some(x) = todo.pop() {
                for (i, (a, b)) in und.iter().enumerate() {
                    if skip.contains(&i) {
                        continue;
                    }
                    for (p, q) in [(a, b), (b, a)] {
                        if *p == x && s.insert(*q) {
                            todo.push(*q);
                        }
                    }
                }
            }
        }
        k
    };
    for (i, x) in e.iter().enumerate() {
        for (j, y) in e.iter().enumerate().skip(i + 1) {
            let together = x.0 != x.1 && y.0 != y.1 && parts(&[i, j]) > 1;
            let g = matches!((got.get(x), got.get(y)), (Some(a), Some(b)) if a == b);
            ensure!(together == g, "edge-classes", "{x:?} {y:?}: classes {:?} and {:?}; removing both {} the graph\n{e:?}", got.get(x), got.get(y), if together { "cuts" } else { "does not cut" });
        }
    }
    Ok(())
}
fn regions(c: &mut Ctx) -> R {
    let n = 2 + c.t.below(7);
    let mut e: Vec<(usize, usize)> = vec![];
    for a in 0..n {
        if a == 1 {
            continue;
        }
        for _ in 0..c.t.below(3) + (c.t.chance(1, 8) as usize) {
            let b = c.t.below(n);
            e.push((a, b));
        }
    }
    if c.t.chance(3, 4) {
        // let everything get to the exit
        for a in 0..n {
            if a != 1 && !e.iter().any(|x| x.0 == a) {
                e.push((a, 1));
            }
        }
    }
    let f = Flow { n, e };
    c.note(|| format!("{n} nodes {:?}", f.e));
    let nodes: Vec<usize> = (0..f.n).collect();
    if f.e.iter().any(|x| x.1 == 1) && reach(0, &f.e.iter().copied().collect()).contains(&1) {
        classes(&f, &nodes)?;
    }
    let all: BTreeSet<(usize, usize)> = f.e.iter().copied().collect();
    let mut found = false;
    // pairs of edges, existing or not
    let mut pairs: Vec<((usize, usize), (usize, usize))> = vec![];
    for a in &all {
        for b in &all {
            pairs.push((*a, *b));
        }
    }
    for _ in 0..3 {
        pairs.push(((c.t.below(n), c.t.below(n)), (c.t.below(n), c.t.below(n))));
    }
    for (a, b) in pairs {
        let r = match no_panic(|| region_blocks(&f, a, b)) {
            Ok(r) => r,
            Err((m, at)) => return fail("region-crash", format!("{m} at {at}")),
        };
        // everything reachable from the target of the entry edge without the exit edge
        let cut: BTreeSet<_> = all.iter().copied().filter(|x| *x != b).collect();
        let blocks = reach(a.1, &cut);
        let entries: BTreeSet<usize> = all.iter().filter(|x| x.1 == a.1 && !blocks.contains(&x.0)).map(|x| x.0).collect();
        let ok = all.contains(&a) && !blocks.contains(&a.0) && entries == BTreeSet::from([a.0]) && (!blocks.contains(&b.0) || all.contains(&b));
        match r {
            Ok(got) => {
                let got: BTreeSet<usize> = got.into_iter().collect();
                ensure!(ok && got == blocks, "region-blocks", "{a:?} to {b:?}: {got:?}, expected {blocks:?} ({ok})");
                found |= blocks.len() > 1 && blocks.contains(&b.0);
            }
            Err(x) => ensure!(!ok, "region-blocks", "{a:?} to {b:?}: {x:?}, expected {blocks:?}"),
        }
    }
    if found {
        c.nontrivial(hash_of(&f.e));
    }
    c.sample(|| format!("{:?}", f.e));
    Ok(())
}
fn hash_of<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::{DefaultHasher, Hasher};
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
#[allow(unused)]
fn _u(_: &OpType, _: BTreeMap<u8, u8>) {}
