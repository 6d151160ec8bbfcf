//! C08: insertion, copying and extraction are faithful.
use super::{c11, pass};
use crate::canon;
use crate::engine::*;
use hugr::extension::ExtensionRegistry;
use hugr::hugr::hugrmut::{HugrMut, InsertForestError};
use hugr::hugr::views::{ExtractionResult, SiblingSubgraph};
use hugr::ops::{OpTrait, OpType};
use crate::ext;
use hugr::types::type_param::TypeParam;
use hugr::types::{Signature, Substitution, Type, TypeArg, TypeBound};
use hugr::{Hugr, HugrView, Node, PortIndex};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        rule: "pairs of generated programs, host and source with metadata and holes in the numbering, and random regions, subgraphs, forests (disjoint or not) and places; what is inserted, copied or extracted is compared node by node and link by link with its source, the host with what it was; non-trivial: at least three nodes were copied",
        assumptions: &["descendants whose values leave the copied part are not copied"],
        subs: vec![
            Sub { name: "insert", quick: 40_000, thorough: 2_000_000, f: insert },
            Sub { name: "copy", quick: 10_000, thorough: 1_000_000, f: copy },
            Sub { name: "extract", quick: 10_000, thorough: 1_000_000, f: extract },
        ],
        findings: vec![],
    }
}

type Link = (Node, usize, Node, usize);
fn links(h: &Hugr) -> Vec<Link> {
    let mut v: Vec<Link> = h
        .nodes()
        .flat_map(|n| h.node_outputs(n).flat_map(move |p| h.linked_inputs(n, p).map(move |(m, q)| (n, p.index(), m, q.index()))))
        .collect();
    v.sort();
    v
}
fn graph(c: &mut Ctx) -> Result<Hugr, Fail> {
    let mut p = c11::profile(&mut c.t);
    p.size = 2 + c.t.below(12);
    p.depth = 1 + c.t.below(3);
    p.metadata = c.t.chance(3, 4);
    p.nested = true;
    p.cfg = c.t.flag();
    p.loops = c.t.flag();
    p.holes = c.t.flag();
    p.poly = c.t.flag();
    let mut h = pass::gen_program(c, &p).hugr;
    if c.t.chance(1, 3) {
        // indices to be used again
        let r = h.module_root();
        let k = 1 + c.t.below(6);
        let v: Vec<Node> = (0..k).map(|_| h.add_node_with_parent(r, hugr::ops::AliasDecl::new("gone", TypeBound::Copyable))).collect();
        for n in &v {
            h.set_metadata(*n, "old", 1);
        }
        for n in v {
            h.remove_node(n);
        }
    }
    if c.t.flag() {
        let v = pass::containers(&h);
        if !v.is_empty() {
            let e = *c.t.pick(&v);
            h.set_entrypoint(e);
        }
    }
    Ok(h)
}
fn node(c: &mut Ctx, h: &Hugr) -> Node {
    let v: Vec<Node> = h.nodes().collect();
    // containers are more interesting
    let w: Vec<Node> = v.iter().filter(|n| h.first_child(**n).is_some()).copied().collect();
    if c.t.chance(2, 3) { *c.t.pick(&w) } else { *c.t.pick(&v) }
}
/// Expected copies.
struct Copy<'a> {
    src: &'a Hugr,
    /// where each copied node went
    map: BTreeMap<Node, Node>,
    /// the copies that have a parent that is not a copy
    roots: BTreeMap<Node, Node>,
    /// the copies without a parent
    orphans: BTreeSet<Node>,
    ordered: bool,
    op: &'a dyn Fn(Node) -> OpType,
}
/// `after` holds all that `before` did and the copies.
fn check(what: &str, before: &Hugr, after: &Hugr, k: &Copy, extra: &[Link]) -> R {
    let bad = |s: &str, m: String| fail(format!("{what}-{s}"), m);
    let new: BTreeSet<Node> = k.map.values().copied().collect();
    if new.len() != k.map.len() || new.iter().any(|n| before.contains_node(*n)) {
        return bad("map", format!("{:?}", k.map));
    }
    let want: BTreeSet<Node> = before.nodes().chain(new.iter().copied()).collect();
    let got: BTreeSet<Node> = after.nodes().collect();
    if want != got {
        return bad("nodes", format!("{:?}", want.symmetric_difference(&got).collect::<Vec<_>>()));
    }
    if before.module_root() != after.module_root() || before.entrypoint() != after.entrypoint() {
        return bad("entrypoint", String::new());
    }
    for n in before.nodes() {
        if canon::op(before.get_optype(n), false) != canon::op(after.get_optype(n), false) {
            return bad("host-op", format!("{n}"));
        }
        if canon::metadata(before, n) != canon::metadata(after, n) {
            return bad("host-metadata", format!("{n}"));
        }
        if before.get_parent(n) != after.get_parent(n) {
            return bad("host-parent", format!("{n}"));
        }
        if before.num_inputs(n) != after.num_inputs(n) || before.num_outputs(n) != after.num_outputs(n) {
            return bad("host-ports", format!("{n}"));
        }
        let ch: Vec<Node> = before.children(n).collect();
        let now: Vec<Node> = after.children(n).collect();
        let mut more: Vec<Node> = k.roots.iter().filter(|x| *x.1 == n).map(|x| k.map[x.0]).collect();
        more.sort();
        let mut rest: Vec<Node> = now.iter().skip(ch.len()).copied().collect();
        rest.sort();
        if now.len() < ch.len() || now[..ch.len()] != ch || rest != more {
            return bad("host-children", format!("{n}: {now:?} for {ch:?} and {more:?}"));
        }
    }
    for (o, n) in &k.map {
        let want = (k.op)(*o);
        if canon::op(after.get_optype(*n), false) != canon::op(&want, false) {
            return bad("op", format!("{o} -> {n}: {} for {want}", after.get_optype(*n)));
        }
        if canon::metadata(after, *n) != canon::metadata(k.src, *o) {
            return bad("metadata", format!("{o} -> {n}: {:?} for {:?}", canon::metadata(after, *n), canon::metadata(k.src, *o)));
        }
        if after.num_inputs(*n) != k.src.num_inputs(*o) || after.num_outputs(*n) != k.src.num_outputs(*o) {
            return bad("ports", format!("{o} -> {n}"));
        }
        let p = match k.roots.get(o) {
            Some(p) => Some(*p),
            None if k.orphans.contains(o) => None,
            None => Some(k.map[&k.src.get_parent(*o).unwrap()]),
        };
        if after.get_parent(*n) != p {
            return bad("parent", format!("{o} -> {n}: {:?} for {p:?}", after.get_parent(*n)));
        }
        let mut want: Vec<Node> = k.src.children(*o).filter(|x| k.map.contains_key(x) && !k.roots.contains_key(x)).map(|x| k.map[&x]).collect();
        // something may be placed below a copy
        let mut got: Vec<Node> = after.children(*n).collect();
        if !k.ordered {
            want.sort();
            got.sort();
        }
        if want != got {
            return bad("children", format!("{o} -> {n}: {got:?} for {want:?}"));
        }
    }
    let mut want = links(before);
    want.extend(links(k.src).into_iter().filter_map(|l| Some((*k.map.get(&l.0)?, l.1, *k.map.get(&l.2)?, l.3))));
    want.extend(extra);
    want.sort();
    let got = links(after);
    if want != got {
        let a: Vec<_> = want.iter().filter(|x| !got.contains(x)).collect();
        let b: Vec<_> = got.iter().filter(|x| !want.contains(x)).collect();
        return bad("links", format!("missing {a:?} surplus {b:?}"));
    }
    Ok(())
}
fn carried(what: &str, before: &ExtensionRegistry, src: &ExtensionRegistry, after: &ExtensionRegistry) -> R {
    for e in before.iter().chain(src.iter()) {
        ensure!(after.get(e.name()).is_some_and(|x| x.version() >= e.version()), format!("{what}-extensions"), "{}", e.name());
    }
    Ok(())
}
fn insert(c: &mut Ctx) -> R {
    let host0 = graph(c)?;
    let src = graph(c)?;
    let mut host = host0.clone();
    let at = node(c, &host0);
    let map_of = |m: HashMap<Node, Node>| -> BTreeMap<Node, Node> { m.into_iter().collect() };
    let same = |n: Node| src.get_optype(n).clone();
    let kind = c.t.below(6);
    let one = |map: BTreeMap<Node, Node>, r: Node| Copy { src: &src, map, roots: BTreeMap::from([(r, at)]), orphans: BTreeSet::new(), ordered: true, op: &same };
    let copied = match kind {
        0 => {
            let r = src.entrypoint();
            let res = if c.t.chance(1, 4) {
                let e = node(c, &host0);
                host.with_entrypoint_mut(e).insert_hugr(at, src.clone())
            } else {
                host.insert_hugr(at, src.clone())
            };
            ensure!(res.inserted_entrypoint == res.node_map[&r], "hugr-entrypoint", "");
            let map = map_of(res.node_map);
            ensure!(map.keys().copied().collect::<BTreeSet<_>>() == src.descendants(r).collect(), "hugr-domain", "{map:?}");
            c.label("hugr");
            check("hugr", &host0, &host, &one(map.clone(), r), &[])?;
            map.len()
        }
        1 => {
            let r = node(c, &src);
            let res = host.insert_region(at, src.clone(), r);
            ensure!(res.inserted_entrypoint == res.node_map[&r], "region-entrypoint", "");
            let map = map_of(res.node_map);
            ensure!(map.keys().copied().collect::<BTreeSet<_>>() == src.descendants(r).collect(), "region-domain", "{map:?}");
            c.label("region");
            check("region", &host0, &host, &one(map.clone(), r), &[])?;
            map.len()
        }
        2 => {
            let r = node(c, &src);
            let v = src.with_entrypoint(r);
            let res = host.insert_from_view(at, &v);
            ensure!(res.inserted_entrypoint == res.node_map[&r], "view-entrypoint", "");
            let map = map_of(res.node_map);
            ensure!(map.keys().copied().collect::<BTreeSet<_>>() == src.descendants(r).collect(), "view-domain", "{map:?}");
            c.label("view");
            check("view", &host0, &host, &one(map.clone(), r), &[])?;
            map.len()
        }
        3 => {
            let parents = c11::dataflow_parents(&src);
            if parents.is_empty() {
                return Ok(());
            }
            let p = *c.t.pick(&parents);
            let all: Vec<Node> = src.children(p).filter(|n| !matches!(src.get_optype(*n), OpType::Input(_) | OpType::Output(_))).collect();
            let set: Vec<Node> = all.into_iter().filter(|_| c.t.chance(2, 3)).collect();
            if set.is_empty() {
                return Ok(());
            }
            let Ok(sub) = SiblingSubgraph::try_from_nodes(set.clone(), &src) else { return Ok(()) };
            let map = map_of(host.insert_subgraph(at, &src, &sub));
            ensure!(map.keys().copied().collect::<BTreeSet<_>>() == set.iter().copied().collect(), "subgraph-domain", "{map:?} for {set:?}");
            c.label("subgraph");
            let k = Copy { src: &src, map: map.clone(), roots: set.iter().map(|n| (*n, at)).collect(), orphans: BTreeSet::new(), ordered: true, op: &same };
            check("subgraph", &host0, &host, &k, &[])?;
            map.len()
        }
        4 => {
            let k = c.t.below(5);
            let mut roots: Vec<(Node, Node)> = vec![];
            for _ in 0..k {
                let r = if !roots.is_empty() && c.t.chance(1, 8) { roots[0].0 } else { node(c, &src) };
                if c.t.chance(2, 3) && roots.iter().any(|x| x.0 != r && (src.descendants(x.0).any(|y| y == r) || src.descendants(r).any(|y| y == x.0))) {
                    continue;
                }
                roots.push((r, node(c, &host0)));
            }
            let last: BTreeMap<Node, Node> = roots.iter().copied().collect();
            let clash = last.keys().any(|a| last.keys().any(|b| a != b && src.descendants(*a).any(|y| y == *b)));
            let res = if c.t.chance(1, 4) {
                let e = node(c, &host0);
                host.with_entrypoint_mut(e).insert_forest(src.clone(), roots.clone())
            } else {
                host.insert_forest(src.clone(), roots.clone())
            };
            match res {
                Err(e) => {
                    ensure!(clash, "forest-refused", "{e}");
                    let InsertForestError::SubtreeAlreadyCopied { subtree, parent } = e else { return fail("forest-error", format!("{e}")) };
                    ensure!(
                        subtree != parent && last.contains_key(&subtree) && last.contains_key(&parent) && src.descendants(parent).any(|y| y == subtree),
                        "forest-error",
                        "{subtree} {parent}"
                    );
                    if let Some(d) = canon::diff(&host0, &host, &Default::default()) {
                        return fail("forest-refused-changed", d);
                    }
                    ensure!(host.num_nodes() == host0.num_nodes(), "forest-refused-changed", "");
                    c.label("forest-refused");
                    return Ok(());
                }
                Ok(res) => {
                    ensure!(!clash, "forest-accepted", "{last:?}");
                    let map = map_of(res.node_map);
                    let dom: BTreeSet<Node> = last.keys().flat_map(|r| src.descendants(*r)).collect();
                    ensure!(map.keys().copied().collect::<BTreeSet<_>>() == dom, "forest-domain", "{map:?}");
                    c.label("forest");
                    c.label_if(last.len() < roots.len(), "forest-override");
                    check("forest", &host0, &host, &Copy { src: &src, map: map.clone(), roots: last, orphans: BTreeSet::new(), ordered: true, op: &same }, &[])?;
                    map.len()
                }
            }
        }
        _ => {
            // any nodes, some with another place
            let k = 1 + c.t.below(3);
            let mut nodes: Vec<Node> = vec![];
            for _ in 0..k {
                let r = node(c, &src);
                for n in src.descendants(r) {
                    if !nodes.contains(&n) && !c.t.chance(1, 12) {
                        nodes.push(n);
                    }
                }
            }
            if nodes.is_empty() {
                return Ok(());
            }
            let inside: BTreeSet<Node> = nodes.iter().copied().collect();
            let mut roots: Vec<(Node, Node)> = vec![];
            let mut orphans = BTreeSet::new();
            for n in &nodes {
                let top = !src.get_parent(*n).is_some_and(|p| inside.contains(&p));
                if top && c.t.chance(1, 10) {
                    orphans.insert(*n);
                } else if top || c.t.chance(1, 12) {
                    roots.push((*n, node(c, &host0)));
                }
            }
            if !roots.is_empty() && c.t.chance(1, 4) {
                let n = roots[0].0;
                roots.push((n, node(c, &host0)));
            }
            let ordered = c.t.chance(2, 3);
            if ordered {
                let rank: BTreeMap<Node, usize> = src.descendants(src.module_root()).enumerate().map(|(i, n)| (n, i)).collect();
                nodes.sort_by_key(|n| rank[n]);
            } else {
                c.t.shuffle(&mut nodes);
            }
            let dup = c.t.chance(1, 6);
            if dup {
                let n = *c.t.pick(&nodes);
                let i = c.t.below(nodes.len() + 1);
                nodes.insert(i, n);
            }
            let last: BTreeMap<Node, Node> = roots.iter().copied().collect();
            match host.insert_view_forest(&src, nodes.iter().copied(), roots.clone()) {
                Err(e) => {
                    ensure!(dup, "view-forest-refused", "{e}");
                    ensure!(matches!(e, InsertForestError::DuplicateNode(_)), "view-forest-error", "{e}");
                    // the host may have been changed (a unit test of the repository says so)
                    c.label("view-forest-refused");
                    return Ok(());
                }
                Ok(res) => {
                    ensure!(!dup, "view-forest-accepted", "");
                    let map = map_of(res.node_map);
                    ensure!(map.keys().copied().collect::<BTreeSet<_>>() == inside, "view-forest-domain", "{map:?}");
                    c.label("view-forest");
                    c.label_if(!orphans.is_empty(), "orphans");
                    check("view-forest", &host0, &host, &Copy { src: &src, map: map.clone(), roots: last, orphans, ordered, op: &same }, &[])?;
                    map.len()
                }
            }
        }
    };
    carried("insert", host0.extensions(), src.extensions(), host.extensions())?;
    if copied > 2 {
        c.nontrivial(canon::graph_hash(&src) ^ canon::graph_hash(&host0).rotate_left(7) ^ (kind as u64));
        c.sample(|| format!("kind {kind}, {copied} nodes of\n{}", canon::show(&src)));
    }
    Ok(())
}
/// An argument for a parameter.
pub fn arg(c: &mut Ctx, p: &TypeParam) -> TypeArg {
    let copyable = |c: &mut Ctx| match c.t.below(4) {
        0 => ext::t_ty(),
        1 => Type::new_tuple(vec![ext::t_ty(), Type::UNIT]),
        2 => Type::new_function(Signature::new_endo(ext::l_ty())),
        _ => hugr::extension::prelude::bool_t(),
    };
    match p {
        TypeParam::RuntimeType(TypeBound::Copyable) => copyable(c).into(),
        TypeParam::RuntimeType(_) => if c.t.flag() { ext::l_ty() } else { copyable(c) }.into(),
        TypeParam::BoundedNatType(b) => TypeArg::from((c.t.below(4) as u64).min(b.value().map(|x| x.get()).unwrap_or(9) - 1)),
        TypeParam::ListType(x) => TypeArg::new_list((0..c.t.below(3)).map(|_| arg(c, x)).collect::<Vec<_>>()),
        TypeParam::StringType => TypeArg::new_string("s"),
        p => panic!("parameter {p}"),
    }
}
fn copy(c: &mut Ctx) -> R {
    let h0 = graph(c)?;
    let mut h = h0.clone();
    let v: Vec<Node> = h0.nodes().filter(|n| h0.first_child(*n).is_some() && *n != h0.module_root()).collect();
    let root = *c.t.pick(&v);
    let inside: BTreeSet<Node> = h0.descendants(root).skip(1).collect();
    let all = links(&h0);
    if all.iter().any(|l| inside.contains(&l.0) && !inside.contains(&l.2)) {
        c.label("leaves");
        return Ok(());
    }
    let at = match c.t.below(4) {
        0 => root,
        1 => {
            let v: Vec<Node> = inside.iter().copied().collect();
            *c.t.pick(&v)
        }
        2 => {
            let p = h0.get_parent(root).unwrap();
            let o = h0.get_optype(root).clone();
            let n = h.add_node_with_parent(p, o);
            h.set_metadata(n, "new", 1);
            n
        }
        _ => node(c, &h0),
    };
    let before = h.clone();
    // arguments for the function's parameters
    let mut args: Option<Vec<TypeArg>> = None;
    if let OpType::FuncDefn(f) = h0.get_optype(root)
        && !f.signature().params().is_empty()
        && c.t.chance(3, 4)
    {
        args = Some(f.signature().params().iter().map(|p| arg(c, p)).collect());
    }
    let subst = args.as_ref().map(|a| Substitution::new(a));
    let map = h.copy_descendants(root, at, subst);
    ensure!(map.keys().copied().collect::<BTreeSet<_>>() == inside, "copy-domain", "{map:?}");
    let op = |n: Node| match &args {
        Some(a) => h0.get_optype(n).substitute(&Substitution::new(a)),
        None => h0.get_optype(n).clone(),
    };
    // edges into the copied part come to the copies as well
    let extra: Vec<Link> = all.iter().filter(|l| !inside.contains(&l.0) && inside.contains(&l.2)).map(|l| (l.0, l.1, map[&l.2], l.3)).collect();
    let roots: BTreeMap<Node, Node> = h0.children(root).map(|n| (n, at)).collect();
    c.label(if inside.contains(&at) { "into-itself" } else if at == root { "beside" } else { "elsewhere" });
    c.label_if(args.is_some(), "substituted");
    c.label_if(!extra.is_empty(), "entering-edges");
    // the order of copied children
    let now: Vec<Node> = h.children(at).skip(before.children(at).count()).collect();
    let want: Vec<Node> = h0.children(root).map(|n| map[&n]).collect();
    ensure!(now == want, "copy-order", "{now:?} for {want:?}");
    let src = h0.clone();
    check("copy", &before, &h, &Copy { src: &src, map: map.clone(), roots, orphans: BTreeSet::new(), ordered: true, op: &op }, &extra)?;
    if map.len() > 2 {
        c.nontrivial(canon::graph_hash(&h));
        c.sample(|| canon::show(&h));
    }
    Ok(())
}
fn extract(c: &mut Ctx) -> R {
    let h = graph(c)?;
    let n = node(c, &h);
    let via = c.t.chance(1, 4);
    let e = node(c, &h);
    let under: Vec<Node> = h.descendants(n).collect();
    let (x, map): (Hugr, BTreeMap<Node, Node>) = if via {
        let (x, m) = h.with_entrypoint(e).extract_hugr(n);
        (x, under.iter().map(|k| (*k, m.extracted_node(*k))).collect())
    } else {
        let (x, m) = h.extract_hugr(n);
        (x, under.iter().map(|k| (*k, m.extracted_node(*k))).collect())
    };
    let new: BTreeSet<Node> = map.values().copied().collect();
    ensure!(new.len() == map.len() && new.iter().all(|k| x.contains_node(*k)), "extract-map", "{map:?}");
    ensure!(x.entrypoint() == map[&n], "extract-entrypoint", "{} for {} of {n} {}", x.entrypoint(), map[&n], h.get_optype(n));
    ensure!(x.get_optype(x.module_root()).is_module(), "extract-root", "");
    for (o, k) in &map {
        ensure!(canon::op(h.get_optype(*o), false) == canon::op(x.get_optype(*k), false), "extract-op", "{o}");
        ensure!(canon::metadata(&h, *o) == canon::metadata(&x, *k), "extract-metadata", "{o} {:?} {:?}", canon::metadata(&h, *o), canon::metadata(&x, *k));
        ensure!(h.num_inputs(*o) == x.num_inputs(*k) && h.num_outputs(*o) == x.num_outputs(*k), "extract-ports", "{o}");
        let want: Vec<Node> = h.children(*o).map(|i| map[&i]).collect();
        ensure!(want == x.children(*k).collect::<Vec<_>>(), "extract-children", "{o}");
    }
    // links of the extracted part
    let mut want: Vec<Link> = links(&h).into_iter().filter_map(|l| Some((*map.get(&l.0)?, l.1, *map.get(&l.2)?, l.3))).collect();
    want.sort();
    let got: Vec<Link> = links(&x).into_iter().filter(|l| new.contains(&l.0) && new.contains(&l.2)).collect();
    ensure!(want == got, "extract-links", "{want:?} {got:?}");
    // nothing but the ports of the extracted node leads outside
    let below: BTreeSet<Node> = under[1..].iter().copied().collect();
    let closed = !links(&h).iter().any(|l| below.contains(&l.2) && !below.contains(&l.0) || below.contains(&l.0) && !below.contains(&l.2));
    let mut vars = false;
    let mut a = h.get_parent(n);
    while let Some(k) = a {
        vars |= matches!(h.get_optype(k), OpType::FuncDefn(f) if !f.signature().params().is_empty());
        a = h.get_parent(k);
    }
    carried("extract", x.extensions(), h.extensions(), x.extensions())?;
    if closed && !vars && h.get_optype(n).static_input().is_none() && pass::containers(&h).contains(&n) {
        let part = |o: &OpType| matches!(o, OpType::Case(_) | OpType::DataflowBlock(_) | OpType::ExitBlock(_));
        if !part(h.get_optype(n)) {
            c.label("closed");
            pass::valid(&x, "extract")?;
        }
    }
    if matches!(h.get_optype(n), OpType::FuncDefn(f) if f.signature().params().is_empty()) && closed {
        // it runs as before
        let mut y = h.clone();
        y.set_entrypoint(y.module_root());
        let rs = pass::runs(c, &y, &[n], 1)?;
        pass::same_at(&rs, &x, true, pass::Trace::Same, |k| map.get(&k).copied())?;
        c.label("ran");
    }
    c.label(if h.get_optype(n).is_module() { "module" } else if under.len() == 1 { "leaf" } else { "container" });
    if map.len() > 2 {
        c.nontrivial(canon::graph_hash(&h) ^ (hugr::NodeIndex::index(n) as u64));
        c.sample(|| format!("{n} of\n{}", canon::show(&h)));
    }
    Ok(())
}
