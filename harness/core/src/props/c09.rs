//! C09: linking modules follows the directives.
use super::{c11, pass};
use crate::canon;
use crate::engine::*;
use hugr::hugr::hugrmut::HugrMut;
use hugr_core::hugr::internal::HugrMutInternals;
use hugr_core::hugr::linking::{HugrLinking, NodeLinkingDirective as Dir, NodeLinkingError as Bad};
use hugr::ops::{FuncDecl, OpTrait, OpType};
use hugr::{Hugr, HugrView, Node, PortIndex};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        rule: "pairs of generated modules (unrelated, or two variants of one program whose functions are in part only declared), random or matching directives for their functions, declarations and constants, by value and through a view, with or without the entrypoint region; the result is compared node by node and link by link with an abstract linker, refusals with the conditions stated for them; well-typed requests must give valid modules; non-trivial: at least two directives of which one replaces or uses something existing",
        assumptions: &["the host's entrypoint and the place of insertion are not inside what is replaced"],
        subs: vec![
            Sub { name: "link", quick: 40_000, thorough: 3_000_000, f: |c| link(c, false) },
            Sub { name: "matching", quick: 25_000, thorough: 2_000_000, f: |c| link(c, true) },
        ],
        findings: vec![],
    }
}

fn graph(c: &mut Ctx) -> Result<Hugr, Fail> {
    let mut p = c11::profile(&mut c.t);
    p.size = 1 + c.t.below(8);
    p.depth = c.t.below(3);
    p.funcs = 1 + c.t.below(5);
    p.decls = c.t.flag();
    p.metadata = c.t.chance(1, 3);
    p.poly = c.t.chance(1, 3);
    p.recursion = c.t.flag();
    p.indirect = c.t.flag();
    Ok(pass::gen_program(c, &p).hugr)
}
/// Names every node, so that indices may be used again.
fn mark(h: &mut Hugr, s: &str) {
    for n in h.nodes().collect::<Vec<_>>() {
        let v = format!("{s}{}", hugr::NodeIndex::index(n));
        h.set_metadata(n, "id", v);
    }
}
fn id(h: &Hugr, n: Node) -> String {
    h.get_metadata(n, "id").and_then(|v| v.as_str()).unwrap_or("?").to_string()
}
#[derive(Clone, PartialEq, Debug)]
struct N {
    op: String,
    meta: String,
    parent: Option<String>,
    ports: [usize; 2],
}
type L = (String, usize, String, usize);
#[derive(Clone, PartialEq, Debug, Default)]
struct Model {
    nodes: BTreeMap<String, N>,
    links: BTreeSet<L>,
    count: usize,
    children: BTreeMap<String, Vec<String>>,
}
fn model(h: &Hugr) -> Model {
    let mut m = Model::default();
    for n in h.nodes() {
        let i = id(h, n);
        m.nodes.insert(
            i.clone(),
            N { op: canon::op(h.get_optype(n), false), meta: format!("{:?}", canon::metadata(h, n)), parent: h.get_parent(n).map(|p| id(h, p)), ports: [h.num_inputs(n), h.num_outputs(n)] },
        );
        m.children.insert(i.clone(), h.children(n).map(|x| id(h, x)).collect());
        for p in h.node_outputs(n) {
            for (t, q) in h.linked_inputs(n, p) {
                m.links.insert((i.clone(), p.index(), id(h, t), q.index()));
                m.count += 1;
            }
        }
    }
    m
}
fn module_children(h: &Hugr) -> Vec<Node> {
    h.children(h.module_root()).collect()
}
fn kind(op: &OpType) -> Option<String> {
    op.static_output().map(|k| format!("{k:?}"))
}
/// Turns some definitions into declarations.
fn declare(c: &mut Ctx, h: &mut Hugr) {
    for n in module_children(h) {
        let OpType::FuncDefn(f) = h.get_optype(n).clone() else { continue };
        if !c.t.chance(1, 4) {
            continue;
        }
        let below: Vec<Node> = h.descendants(n).collect();
        if below.contains(&h.entrypoint()) {
            continue;
        }
        while let Some(x) = h.first_child(n) {
            h.remove_subtree(x);
        }
        h.replace_op(n, FuncDecl::new_vis(f.func_name().clone(), f.signature().clone(), f.visibility().clone()));
    }
}
fn link(c: &mut Ctx, matching: bool) -> R {
    let mut host = graph(c)?;
    let related = matching || c.t.flag();
    let mut src = if related { host.clone() } else { graph(c)? };
    if related && c.t.chance(3, 4) {
        declare(c, &mut host);
        declare(c, &mut src);
    }
    mark(&mut host, "h");
    mark(&mut src, "s");
    for (h, p) in [(&mut host, 2), (&mut src, if matching { 3 } else { 4 })] {
        let r = h.module_root();
        let v = pass::containers(h);
        let e = if c.t.chance(1, p) || v.is_empty() { r } else { *c.t.pick(&v) };
        h.set_entrypoint(e);
    }
    // a link from a function into a constant's place cannot be told apart: all static links leave port 0
    let above = |h: &Hugr, n: Node| -> BTreeSet<Node> { std::iter::successors(Some(n), |x| h.get_parent(*x)).collect() };
    let parent = if matching {
        let top: Vec<Node> = module_children(&src).into_iter().filter(|n| src.get_optype(*n).is_func_defn()).collect();
        if c.t.chance(2, 3) || top.is_empty() {
            None
        } else {
            let e = *c.t.pick(&top);
            src.set_entrypoint(e);
            Some(host.module_root())
        }
    } else if c.t.flag() {
        let v: Vec<Node> = host.nodes().filter(|n| host.first_child(*n).is_some()).collect();
        Some(*c.t.pick(&v))
    } else {
        None
    };
    let mut keep = above(&host, host.entrypoint());
    if let Some(p) = parent {
        keep.extend(above(&host, p));
    }
    let hosts = module_children(&host);
    let mut free: Vec<Node> = hosts.iter().filter(|n| !keep.contains(n)).copied().collect();
    let sources = module_children(&src);
    let mut dirs: HashMap<Node, Dir> = HashMap::new();
    let mut typed = true;
    let key = |h: &Hugr, n: Node| h.get_metadata(n, "id").unwrap().as_str().unwrap()[1..].to_string();
    for s in &sources {
        if !matching && c.t.chance(1, 3) || parent.is_some() && *s == src.entrypoint() && (matching || c.t.chance(7, 8)) {
            continue;
        }
        if !matching && parent.is_some() && above(&src, src.entrypoint()).contains(s) && c.t.chance(7, 8) {
            // the function that holds the entrypoint
            if hosts.is_empty() || c.t.flag() {
                continue;
            }
            dirs.insert(*s, Dir::UseExisting(*c.t.pick(&hosts)));
            continue;
        }
        let k = kind(src.get_optype(*s));
        let same: Vec<Node> = hosts.iter().filter(|n| k.is_some() && kind(host.get_optype(**n)) == k).copied().collect();
        let twin = hosts.iter().find(|n| related && key(&host, **n) == key(&src, *s) && kind(host.get_optype(**n)) == k).copied();
        let d = match c.t.weighted(&[3, 4, 4]) {
            1 => {
                let mut v = vec![];
                for n in if matching || c.t.chance(4, 5) { same } else { hosts.clone() } {
                    let i = free.iter().position(|x| *x == n);
                    if i.is_some() && (Some(n) == twin && c.t.chance(3, 4) || c.t.chance(1, 3)) {
                        if matching || c.t.chance(30, 31) {
                            free.remove(i.unwrap());
                        }
                        typed &= kind(host.get_optype(n)) == k;
                        v.push(n);
                    }
                }
                Dir::replace(v)
            }
            2 => {
                let v = if matching || c.t.chance(4, 5) { same } else { hosts.clone() };
                match twin {
                    Some(t) if c.t.flag() => Dir::UseExisting(t),
                    _ if v.is_empty() => Dir::add(),
                    _ => {
                        let t = *c.t.pick(&v);
                        typed &= kind(host.get_optype(t)) == k;
                        Dir::UseExisting(t)
                    }
                }
            }
            _ => Dir::add(),
        };
        dirs.insert(*s, d);
    }
    if !matching && c.t.chance(1, 20) {
        let v: Vec<Node> = src.nodes().collect();
        dirs.insert(*c.t.pick(&v), Dir::add());
    }
    let show = |d: &HashMap<Node, Dir>| d.iter().collect::<BTreeMap<_, _>>().iter().map(|(n, d)| format!("{n}: {d:?}")).collect::<Vec<_>>().join(", ");
    c.note(|| format!("host:\n{}\nsource:\n{}\nparent {parent:?}, directives {}", canon::show(&host), canon::show(&src), show(&dirs)));

    // what may be refused, and for which reason
    let up = above(&src, src.entrypoint());
    let whole = parent.is_some() && src.entrypoint() == src.module_root();
    let child_of_entry = whole && !dirs.is_empty();
    let contains: Vec<Node> =
        if parent.is_some() && !whole { dirs.iter().filter(|(n, d)| **n == src.entrypoint() || up.contains(n) && matches!(d, Dir::Add { .. })).map(|x| *x.0).collect() } else { vec![] };
    let strangers: Vec<Node> = dirs.keys().filter(|n| src.get_parent(**n) != Some(src.module_root())).copied().collect();
    let mut by: BTreeMap<Node, Vec<Node>> = BTreeMap::new();
    for (s, d) in &dirs {
        if let Dir::Add { replace } = d {
            for r in replace {
                by.entry(*r).or_default().push(*s);
            }
        }
    }
    let twice: Vec<Node> = by.iter().filter(|x| x.1.len() > 1).map(|x| *x.0).collect();
    let refused = child_of_entry || !contains.is_empty() || !strangers.is_empty() || !twice.is_empty();
    // what comes of it
    let mut want = model(&host);
    let sm = model(&src);
    let name = |n: &Node| id(&src, *n);
    let mut roots: BTreeMap<String, String> = BTreeMap::new();
    let mut copied: BTreeSet<Node> = BTreeSet::new();
    if let Some(p) = parent {
        copied.extend(src.entry_descendants());
        roots.insert(name(&src.entrypoint()), id(&host, p));
    }
    for (s, d) in &dirs {
        if matches!(d, Dir::Add { .. }) {
            copied.extend(src.descendants(*s));
            roots.insert(name(s), id(&host, host.module_root()));
        }
    }
    let ids: BTreeSet<String> = copied.iter().map(name).collect();
    let mut gone: BTreeSet<String> = BTreeSet::new();
    for r in by.keys() {
        gone.extend(host.descendants(*r).map(|n| id(&host, n)));
    }
    let now: BTreeMap<String, String> = by.iter().map(|(r, s)| (id(&host, *r), name(&s[0]))).collect();
    let used: BTreeMap<String, String> = dirs
        .iter()
        .filter_map(|(s, d)| match d {
            Dir::UseExisting(t) => Some((name(s), id(&host, *t))),
            _ => None,
        })
        .collect();
    let resolve = |x: &String| now.get(x).unwrap_or(x).clone();
    want.nodes.retain(|i, _| !gone.contains(i));
    want.children.retain(|i, _| !gone.contains(i));
    for v in want.children.values_mut() {
        v.retain(|i| !gone.contains(i));
    }
    want.links = want.links.iter().filter(|l| !gone.contains(&l.2)).map(|l| (resolve(&l.0), l.1, l.2.clone(), l.3)).collect();
    for n in &copied {
        let i = name(n);
        let mut x = sm.nodes[&i].clone();
        if let Some(p) = roots.get(&i) {
            x.parent = Some(p.clone());
            want.children.get_mut(p).unwrap().push(i.clone());
        }
        want.nodes.insert(i.clone(), x);
        // the entrypoint may be inserted somewhere else than below its parent
        want.children.insert(i.clone(), sm.children[&i].clone());
    }
    for l in &sm.links {
        if !ids.contains(&l.2) {
            continue;
        }
        if ids.contains(&l.0) {
            want.links.insert(l.clone());
        } else if let Some(t) = used.get(&l.0) {
            want.links.insert((resolve(t), l.1, l.2.clone(), l.3));
        }
    }
    want.count = want.links.len();

    let before = host.clone();
    let by_view = c.t.flag();
    let (h0, s0, d0) = (&mut host, src.clone(), dirs.clone());
    let got = no_panic(std::panic::AssertUnwindSafe(move || if by_view { h0.insert_link_view_by_node(parent, &s0, d0) } else { h0.insert_link_hugr_by_node(parent, s0, d0) }));
    let res = match got {
        Ok(r) => r,
        Err((e, at)) => return fail("crash", format!("{e} at {at}")),
    };
    let res = match res {
        Err(e) => {
            ensure!(refused, "refused", "{e}");
            let right = match &e {
                Bad::ChildOfEntrypoint(n) => child_of_entry && dirs.contains_key(n),
                Bad::ChildContainsEntrypoint(n) => contains.contains(n),
                Bad::NotChildOfRoot(n) => strangers.contains(n),
                Bad::NodeMultiplyReplaced(t, a, b) => twice.contains(t) && a != b && by[t].contains(a) && by[t].contains(b),
                _ => false,
            };
            ensure!(right, "reason", "{e}");
            ensure!(model(&host) == model(&before), "refused-changed", "{e}");
            ensure!(host.entrypoint() == before.entrypoint(), "refused-changed", "entrypoint after {e}");
            c.label("refused");
            return Ok(());
        }
        Ok(r) => r,
    };
    ensure!(!refused, "accepted", "entry {child_of_entry} {contains:?}, not children {strangers:?}, twice {twice:?}");
    let got = model(&host);
    for (o, n) in &res.node_map {
        ensure!(host.contains_node(*n) && id(&host, *n) == name(o), "map", "{o} -> {n}");
    }
    ensure!(res.node_map.keys().copied().collect::<BTreeSet<_>>() == copied, "map-domain", "{:?}", res.node_map);
    let (a, b): (BTreeSet<&String>, BTreeSet<&String>) = (want.nodes.keys().collect(), got.nodes.keys().collect());
    ensure!(a == b && host.num_nodes() == b.len(), "nodes", "{:?}", a.symmetric_difference(&b).collect::<Vec<_>>());
    for (i, n) in &want.nodes {
        ensure!(n == &got.nodes[i], "node", "{i}: {:?} for {n:?}", got.nodes[i]);
        let (mut x, mut y) = (want.children[i].clone(), got.children[i].clone());
        if roots.values().any(|p| p == i) {
            // what was inserted comes last, in any order
            let k = x.iter().position(|z| roots.contains_key(z)).unwrap();
            ensure!(y.len() == x.len() && y[..k] == x[..k], "children", "of {i}: {y:?} for {x:?}");
            x.sort();
            y.sort();
        }
        ensure!(x == y, "children", "of {i}: {y:?} for {x:?}");
    }
    ensure!(
        want.links == got.links && want.count == got.count,
        "links",
        "missing {:?} surplus {:?}",
        want.links.difference(&got.links).collect::<Vec<_>>(),
        got.links.difference(&want.links).collect::<Vec<_>>()
    );
    ensure!(host.entrypoint() == before.entrypoint() && host.module_root() == before.module_root(), "entrypoint", "{}", host.entrypoint());
    for e in src.extensions().iter().chain(before.extensions().iter()) {
        ensure!(host.extensions().get(e.name()).is_some_and(|x| x.version() >= e.version()), "extensions", "{}", e.name());
    }
    // a well-typed request for valid modules, that provides all that is called, gives a valid module
    let mut names: Vec<String> = vec![];
    for n in host.children(host.module_root()) {
        match host.get_optype(n) {
            OpType::FuncDefn(f) if *f.visibility() == hugr_core::Visibility::Public => names.push(f.func_name().to_string()),
            OpType::FuncDecl(f) if *f.visibility() == hugr_core::Visibility::Public => names.push(f.func_name().to_string()),
            _ => {}
        }
    }
    let distinct = names.iter().collect::<BTreeSet<_>>().len() == names.len();
    let provided = sm.links.iter().all(|l| !ids.contains(&l.2) || ids.contains(&l.0) || used.contains_key(&l.0));
    if typed && distinct && provided && (parent.is_none() || matching) {
        c.label("valid");
        if let Err(e) = host.validate() {
            return fail("invalid", format!("{e}\n{}", canon::show(&host)));
        }
    }
    let existing = !by.is_empty() || !used.is_empty();
    c.label_if(!by.is_empty(), "replace");
    c.label_if(!used.is_empty(), "use-existing");
    c.label_if(now.keys().any(|t| used.values().any(|u| u == t)), "replaced-and-used");
    c.label_if(parent.is_some(), "entrypoint");
    if existing && dirs.len() > 1 {
        c.nontrivial(canon::graph_hash(&host));
    }
    Ok(())
}
