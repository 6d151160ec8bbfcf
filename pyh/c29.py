"""C29: edits of the Python graph store behave as edits of an abstract graph."""
from collections import Counter

from engine import Fail, Skip, ensure
from hugr import ops, tys, val
from hugr.hugr.base import Hugr
from hugr.hugr.node_port import Direction, InPort, Node, OutPort
from hugr.utils import BiMap, NotBijection

KINDS = 5


def make_op(k, tag):
    t = [tys.Bool, tys.USize(), tys.Qubit][tag % 3]
    match k:
        case 0:
            return ops.Custom(f"op{tag}", tys.FunctionType([t] * (tag % 4), [t] * ((tag // 4) % 4)), extension="vt")
        case 1:
            return ops.DFG([t] * (tag % 3), None) if False else ops.DFG([t] * (tag % 3), [t] * ((tag // 3) % 3))
        case 2:
            return ops.Const(val.TRUE if tag % 2 else val.FALSE)
        case 3:
            return ops.Noop(t)
        case _:
            return ops.MakeTuple([t] * (tag % 4))


def ordered(op):
    return not isinstance(op, ops.Const | ops.Module)


class Model:
    """Nodes with parent, ordered children, metadata; a multiset of links."""

    def __init__(self):
        self.nodes, self.links, self.entry, self.root = {}, [], 0, 0

    def add(self, idx, op, parent, meta):
        self.nodes[idx] = {"op": op, "parent": parent, "kids": [], "meta": dict(meta), "ports": [0, 0], "handle": None}
        if parent is not None:
            self.nodes[parent]["kids"].append(idx)

    def link(self, s, so, d, do):
        self.links.append((s, so, d, do))
        n = self.nodes
        n[s]["ports"][1] = max(n[s]["ports"][1], so + 1)
        n[d]["ports"][0] = max(n[d]["ports"][0], do + 1)

    def remove(self, idx):
        p = self.nodes[idx]["parent"]
        self.nodes[p]["kids"].remove(idx)
        del self.nodes[idx]
        self.links = [l for l in self.links if l[0] != idx and l[2] != idx]

    def below(self, idx):
        out, todo = [], [idx]
        while todo:
            n = todo.pop(0)
            out.append(n)
            todo += self.nodes[n]["kids"]
        return out


def idx(ns):
    return [n.idx for n in ns]


def tup(s, d):
    return (s.node.idx, s.offset, d.node.idx, d.offset)


def compare(h, m):
    live = sorted(m.nodes)
    ensure(sorted(idx(h)) == live, "nodes", lambda: f"{sorted(idx(h))} for {live}")
    ensure(len(h) == len(live) == h.num_nodes(), "num_nodes", lambda: f"{len(h)} for {len(live)}")
    ensure(sorted((n.idx, id(d)) for n, d in h.nodes()) == sorted((i, id(h[Node(i)])) for i in live), "nodes()")
    ensure(h.entrypoint.idx == m.entry, "entrypoint", lambda: f"{h.entrypoint} for {m.entry}")
    ensure(h.module_root.idx == m.root, "module_root")
    ensure(h.entrypoint_op() is m.nodes[m.entry]["op"] or m.entry == 0, "entrypoint_op")
    links = Counter(m.links)
    got = Counter(tup(s, d) for s, d in h.links())
    ensure(got == links, "links", lambda: f"links not in the model {sorted((got - links).elements())}, links lost {sorted((links - got).elements())}")
    f, b = h._links.fwd, h._links.bck
    ensure(len(f) == len(b) and all(b.get(v) == k for k, v in f.items()), "bijection")
    by_out, by_in = {}, {}
    for s, so, d, do in m.links:
        by_out.setdefault(s, {}).setdefault(so, []).append((d, do))
        by_in.setdefault(d, {}).setdefault(do, []).append((s, so))
    for i in live:
        n, x = Node(i), m.nodes[i]
        d = h[n]
        ensure(i == 0 or d.op is x["op"], "op", lambda: f"{d.op} for {x['op']}")
        ensure((d.parent.idx if d.parent is not None else None) == x["parent"], "parent", lambda: f"{d.parent} for {x['parent']} of {i}")
        ensure(idx(h.children(n)) == x["kids"], "children", lambda: f"{h.children(n)} for {x['kids']} of {i}")
        ensure(d.metadata == x["meta"], "metadata", lambda: f"{d.metadata} for {x['meta']} of {i}")
        ensure(idx(h.descendants(n)) == m.below(i), "descendants", lambda: f"{idx(h.descendants(n))} for {m.below(i)}")
        for direction, table, links_of, count, nb in (
            (Direction.OUTGOING, by_out, h.outgoing_links, h.num_outgoing, h.output_neighbours),
            (Direction.INCOMING, by_in, h.incoming_links, h.num_incoming, h.input_neighbours),
        ):
            want = {o: sorted(ps) for o, ps in table.get(i, {}).items()}
            ports = h.num_ports(n, direction)
            ensure(ports >= max([o + 1 for o in want] + [0]), "num_ports", lambda: f"{ports} ports at {i} {direction}, links at {sorted(want)}")
            ensure(ports == (h.num_out_ports(n) if direction == Direction.OUTGOING else h.num_in_ports(n)), "num_ports")
            ensure(ports <= x["ports"][direction.value], "num_ports", lambda: f"{ports} ports at {i} {direction}, for {x['ports']}")
            for o in range(-1, max(5, ports + 1)):
                p = n.port(o, direction)
                ps = list(h.linked_ports(p))
                ensure(all(q.direction != direction for q in ps), "direction")
                ensure(sorted((q.node.idx, q.offset) for q in ps) == want.get(o, []), "linked_ports", lambda: f"{ps} for {want.get(o, [])} at {p}")
            seen = {}
            for p, ps in links_of(n):
                ensure(p.node.idx == i and p.direction == direction and p.offset not in seen, "links_of", lambda: f"{p} at {i}")
                seen[p.offset] = sorted((q.node.idx, q.offset) for q in ps)
            ensure({o: ps for o, ps in seen.items() if ps} == want, "links_of", lambda: f"{seen} for {want} at {i} {direction}")
            ensure(count(n) == sum(map(len, want.values())), "num_links", lambda: f"{count(n)} for {want}")
            neigh = sorted(q for ps in want.values() for q, _ in ps)
            ensure(sorted(idx(nb(n))) == neigh, "neighbours", lambda: f"{idx(nb(n))} for {neigh}")
            ensure(sorted(idx(h.neighbours(n, direction))) == neigh, "neighbours")
        both = Counter(q for t in (by_out, by_in) for ps in t.get(i, {}).values() for q, _ in ps)
        ensure(Counter(idx(h.neighbours(n))) == both, "neighbours")
        ensure(sorted(idx(h.outgoing_order_links(n))) == sorted(q for q, _ in by_out.get(i, {}).get(-1, [])), "order_links")
        ensure(sorted(idx(h.incoming_order_links(n))) == sorted(q for q, _ in by_in.get(i, {}).get(-1, [])), "order_links")
        if x["kids"]:
            region(h, m, i)


def region(h, m, i):
    kids = m.nodes[i]["kids"]
    inside = [(s, d) for s, _, d, _ in m.links if s in kids and d in kids]
    left, order = set(kids), []
    while True:
        ready = [k for k in kids if k in left and not any(d == k and s in left for s, d in inside)]
        if not ready:
            break
        left -= set(ready)
    try:
        order = idx(h.sorted_region_nodes(Node(i)))
    except ValueError:
        ensure(left, "sorted_region_nodes", lambda: f"a cycle is reported in region {i} with links {inside}")
        return
    ensure(not left, "sorted_region_nodes", lambda: f"no cycle is reported in region {i} with links {inside}")
    ensure(sorted(order) == sorted(kids), "sorted_region_nodes", lambda: f"{order} for {kids}")
    at = {n: k for k, n in enumerate(order)}
    ensure(all(at[s] < at[d] for s, d in inside), "sorted_region_nodes", lambda: f"{order} with links {inside}")


def number(m):
    """Canonical numbers: the position in the walk by ordered children."""
    out = []

    def walk(n):
        out.append(n)
        for k in m.nodes[n]["kids"]:
            walk(k)

    walk(m.root)
    return {n: k for k, n in enumerate(out)}


def serial(h, m, c):
    """The stored form, read as it is documented, describes the model."""
    name = lambda op, parent: repr({k: v for k, v in op._to_serial(Node(0)).model_dump().items() if k != "parent"})
    pos = number(m)
    want_nodes = [name(m.nodes[n]["op"], 0) if n else "Module" for n in sorted(pos, key=pos.get)]
    want_parents = [pos[m.nodes[n]["parent"]] if m.nodes[n]["parent"] is not None else 0 for n in sorted(pos, key=pos.get)]
    want_meta = [m.nodes[n]["meta"] for n in sorted(pos, key=pos.get)]
    want_links = sorted((pos[s], so, pos[d], do) for s, so, d, do in m.links)
    s = h._to_serial()
    ns = [n.root for n in s.nodes]
    ensure(len(ns) == len(pos), "serial: nodes", lambda: f"{len(ns)} for {len(pos)}")
    kids, roots = {}, []
    for i, n in enumerate(ns):
        ensure(0 <= n.parent < len(ns), "serial: parent", lambda: f"node {i} has parent {n.parent} of {len(ns)}")
        (roots if n.parent == i else kids.setdefault(n.parent, [])).append(i)
    ensure(roots == [0], "serial: root", lambda: f"{roots}")
    order = []

    def walk(i):
        order.append(i)
        for k in kids.get(i, []):
            walk(k)

    walk(0)
    at = {i: k for k, i in enumerate(order)}
    ensure(len(order) == len(ns), "serial: tree")
    show = lambda i: repr({k: v for k, v in ns[i].model_dump().items() if k != "parent"}) if i else "Module"
    ensure([show(i) for i in order] == want_nodes, "serial: operations", lambda: f"{[show(i)[:60] for i in order]} for {[x[:60] for x in want_nodes]}")
    ensure([at[ns[i].parent] for i in order] == want_parents, "serial: parents")
    ensure([(s.metadata or [])[i] or {} for i in order] == want_meta, "serial: metadata")
    edges = sorted((at.get(a, a), -1 if ao is None else ao, at.get(b, b), -1 if bo is None else bo) for (a, ao), (b, bo) in s.edges)
    ensure(edges == want_links, "serial: links", lambda: f"{edges} for {want_links}")
    ensure(at.get(s.entrypoint) == pos[m.entry], "serial: entrypoint", lambda: f"{s.entrypoint} for {m.entry}")
    # Reading it back gives the same graph.
    back = c.t.below(3)
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        h2 = [lambda: Hugr.load_json(h.to_json()), lambda: Hugr.from_str(h.to_str()), lambda: Hugr._from_serial(h._to_serial())][back]()
    m2 = Model()
    for n in h2:
        d = h2[n]
        m2.nodes[n.idx] = {"op": d.op, "parent": d.parent.idx if d.parent is not None else None, "kids": idx(d.children), "meta": dict(d.metadata), "ports": [99, 99]}
    m2.links = [tup(*l) for l in h2.links()]
    m2.entry = h2.entrypoint.idx
    compare(h2, m2)
    pos2 = number(m2)
    got_nodes = [name(m2.nodes[n]["op"], 0) if n else "Module" for n in sorted(pos2, key=pos2.get)]
    ensure(got_nodes == want_nodes, "reload: operations", lambda: f"{[g[:60] for g in got_nodes]} for {[w[:60] for w in want_nodes]}")
    ensure([m2.nodes[n]["meta"] for n in sorted(pos2, key=pos2.get)] == want_meta, "reload: metadata")
    ensure(sorted((pos2[a], ao, pos2[b], bo) for a, ao, b, bo in m2.links) == want_links, "reload: links")
    ensure(pos2[m2.entry] == pos[m.entry], "reload: entrypoint", lambda: f"{m2.entry} for {m.entry}")
    handles(h2, m2, c)


def handles(h, m, c):
    """Metadata written through any handle the library hands out is seen in the graph."""
    n = c.t.pick(sorted(m.nodes))
    pick = {x.idx: x for x in h}
    hs = [pick[n]]
    if m.nodes[n].get("handle") is not None:
        hs.append(m.nodes[n]["handle"])
    if n == m.entry:
        hs.append(h.entrypoint)
    if n == m.root:
        hs.append(h.module_root)
    p = m.nodes[n]["parent"]
    if p is not None:
        hs.append(h.children(Node(p))[m.nodes[p]["kids"].index(n)])
    x = c.t.pick(hs)
    x.metadata["via"] = c.t.below(9)
    m.nodes[n]["meta"]["via"] = x.metadata["via"]
    ensure(h[Node(n)].metadata == m.nodes[n]["meta"], "handle metadata", lambda: f"{h[Node(n)].metadata} for {m.nodes[n]['meta']} written through handle {hs.index(x)} of {n}")


def step(c, h, m, others):
    t = c.t
    live = sorted(m.nodes)
    match t.weighted([10, 9, 3, 6, 3, 4, 2, 2, 2]):
        case 0:
            k = t.below(KINDS)
            op = make_op(k, t.below(24))
            parents = [i for i in live if i == 0 or isinstance(m.nodes[i]["op"], ops.DFG)]
            p = t.pick(parents)
            use_default = t.chance(1, 8)
            if use_default:
                p = m.entry
            meta = {"k": t.below(5)} if t.flag() else {}
            given = dict(meta) if meta or t.flag() else None
            outs = t.below(4) if t.flag() else None
            kw = {} if given is None else {"metadata": given}
            parent = None if use_default else (m.nodes[p]["handle"] or Node(p))
            if isinstance(op, ops.Const) and t.flag():
                n = h.add_const(op.val, parent, **kw)
                op, outs = h[n].op, None
            else:
                n = h.add_node(op, parent, num_outs=outs, **kw)
            c.note(f"add_node({op}, {p}, {outs}, {meta}) = {n.idx}")
            ensure(n.idx not in m.nodes, "fresh index", lambda: f"{n.idx} is in use")
            m.add(n.idx, op, p, meta)
            m.nodes[n.idx]["ports"][1] = outs or 0
            m.nodes[n.idx]["handle"] = n
            if outs is not None:
                ensure(h.num_out_ports(n) == outs and idx(p.node for p in n.outputs()) == [n.idx] * outs, "outputs", lambda: f"{list(n.outputs())} for {outs}")
        case 1:
            s, d = t.pick(live), t.pick(live)
            if m.links and t.chance(1, 3):
                l = t.pick(m.links)
                s, so, d, do = (l[0], l[1], d, t.below(3)) if t.flag() else (s, t.below(3), l[2], l[3])
                if min(so, do) < 0:
                    return
            else:
                so, do = t.below(4), t.below(4)
            c.note(f"add_link({s}.{so}, {d}.{do})")
            h.add_link(OutPort(Node(s), so), InPort(Node(d), do))
            m.link(s, so, d, do)
        case 2:
            can = [i for i in live if ordered(m.nodes[i]["op"])]
            if len(can) < 1:
                return
            s, d = t.pick(can), t.pick(can)
            c.note(f"add_order_link({s}, {d})")
            h.add_order_link(Node(s), Node(d))
            if (s, -1, d, -1) not in m.links:
                m.link(s, -1, d, -1)
        case 3:
            if m.links and not t.chance(1, 8):
                l = t.pick(m.links)
            else:
                l = (t.pick(live), t.below(3), t.pick(live), t.below(3))
            c.note(f"delete_link{l}")
            h.delete_link(OutPort(Node(l[0]), l[1]), InPort(Node(l[2]), l[3]))
            if l in m.links:
                m.links.remove(l)
                c.label("link deleted")
            else:
                c.label("absent link deleted")
        case 4:
            can = [i for i in live if not m.nodes[i]["kids"] and i not in (0, m.entry)]
            if not can:
                return
            i = t.pick(can)
            k = t.below(3)
            n = [Node(i), m.nodes[i]["handle"] or Node(i), next(x for x in h if x.idx == i)][k]
            c.note(f"delete_node({i}, handle {k})")
            w = h.delete_node(n)
            ensure(w is not None and w.op is m.nodes[i]["op"], "delete_node result")
            if any(i in (l[0], l[2]) for l in m.links):
                c.label("linked node deleted")
            m.remove(i)
            try:
                h[Node(i)]
            except KeyError:
                pass
            else:
                raise Fail("deleted node", f"{i} can still be looked up")
        case 5:
            handles(h, m, c)
        case 6:
            e = t.pick([0] + [i for i in live if isinstance(m.nodes[i]["op"], ops.DFG)])
            h.entrypoint = m.nodes[e]["handle"] or Node(e, h[Node(e)].metadata)
            m.entry = e
            c.note(f"entrypoint = {e}")
        case 7:
            if len(live) > 40:
                return
            # A copy of the same kind of graph, built by its own history.
            g, gm = build(c, t.below(12), False)
            if gm.entry == 0:
                tops = [i for i in gm.nodes if isinstance(gm.nodes[i]["op"], ops.DFG)]
                if not tops:
                    return
                gm.entry = t.pick(sorted(tops))
                g.entrypoint = Node(gm.entry, g[Node(gm.entry)].metadata)
            p = t.pick([i for i in live if i == 0 or isinstance(m.nodes[i]["op"], ops.DFG)])
            c.note(f"insert_hugr(<graph above>, {p})")
            c.label("insert_hugr")
            mapping = h.insert_hugr(g, Node(p))
            want = gm.below(gm.entry)
            ensure(sorted(k.idx for k in mapping) == sorted(want), "insert_hugr: mapping", lambda: f"{mapping} for {want}")
            new = [v.idx for v in mapping.values()]
            ensure(len(set(new)) == len(new) and not set(new) & set(live), "insert_hugr: fresh", lambda: f"{mapping}")
            f = {k.idx: v.idx for k, v in mapping.items()}
            for k in want:
                x = gm.nodes[k]
                m.add(f[k], x["op"], p if k == gm.entry else f[x["parent"]], x["meta"])
                m.nodes[f[k]]["ports"] = list(x["ports"])
            for k, v in mapping.items():
                m.nodes[v.idx]["handle"] = v
            for s, so, d, do in gm.links:
                if s in f and d in f:
                    m.link(f[s], so, f[d], do)
            compare(g, gm)
            others.append((g, gm))
        case _:
            if others:
                g, gm = t.pick(others)
                handles(g, gm, c)
                c.note("metadata of an inserted graph written")


def build(c, steps, checks=True):
    h, m, others = Hugr(), Model(), []
    m.add(0, h[h.module_root].op, None, {})
    m.nodes[0]["handle"] = h.module_root
    c.note("new graph")
    compare(h, m)
    for _ in range(steps):
        step(c, h, m, others)
        if checks:
            compare(h, m)
            for g, gm in others:
                compare(g, gm)
    if not checks:
        compare(h, m)
    return h, m


def histories(c):
    h, m = build(c, c.t.range(1, 40))
    serial(h, m, c)
    c.sample("; ".join(c.notes)[:600])
    if len(m.nodes) >= 3 and m.links:
        c.nontrivial(c.notes)
    if len(h._nodes) > len(m.nodes):
        c.label("holes")
    if any(n > 1 for n in Counter((l[0], l[1]) for l in m.links).values()):
        c.label("several links at a port")


def bimap(c):
    """BiMap against a set of pairs."""
    t = c.t
    keys = [0, 1, 2, "a", "", (), (1, 2), False and 0, 7]
    vals = ["x", "", 0, 5, (), "y", ("z",)]
    try:
        init = {t.pick(keys): t.pick(vals) for _ in range(t.below(4))}
        c.note(f"BiMap({init})")
        want = None if len(set(init.values())) < len(init) else set(init.items())
        b = BiMap(init)
        ensure(want is not None, "NotBijection", lambda: f"{init} is accepted")
    except NotBijection:
        ensure(want is None, "NotBijection", lambda: f"{init} is refused")
        return
    pairs = dict(init)
    for _ in range(t.range(1, 20)):
        k, v = t.pick(keys), t.pick(vals)
        do = t.below(8)
        c.note(f"{['insert_left', 'insert_right', 'setitem', 'delete_left', 'delete_right', 'delitem', 'pop', 'setdefault'][do]} {k!r} {v!r}")
        if do in (0, 1, 2):
            [lambda: b.insert_left(k, v), lambda: b.insert_right(v, k), lambda: b.__setitem__(k, v)][do]()
            pairs = {x: y for x, y in pairs.items() if x != k and y != v}
            pairs[k] = v
        elif do in (3, 5, 6):
            try:
                [lambda: b.delete_left(k), lambda: b.__delitem__(k), lambda: b.pop(k)][[3, 5, 6].index(do)]()
                ensure(k in pairs, "delete of an absent key")
                del pairs[k]
            except KeyError:
                ensure(k not in pairs, "KeyError for a key that is there")
        elif do == 4:
            try:
                b.delete_right(v)
                ensure(v in pairs.values(), "delete of an absent value")
                pairs = {x: y for x, y in pairs.items() if y != v}
            except KeyError:
                ensure(v not in pairs.values(), "KeyError for a value that is there")
        else:
            if k not in pairs:
                pairs = {x: y for x, y in pairs.items() if y != v}
            got = b.setdefault(k, v)
            pairs.setdefault(k, v)
            ensure(got == pairs[k], "setdefault")
        ensure(dict(b.items()) == pairs, "items", lambda: f"{dict(b.items())} for {pairs}")
        ensure(dict(b.fwd) == pairs and dict(b.bck) == {y: x for x, y in pairs.items()}, "bijection", lambda: f"{b.fwd} {b.bck}")
        ensure(len(b) == len(pairs) and set(b) == set(pairs), "len")
        for x in keys:
            ensure(b.get_right(x) == pairs.get(x) and (x in b) == (x in pairs), "get_right")
        for y in vals:
            ensure(b.get_left(y) == next((p for p, q in pairs.items() if q == y), None), "get_left")
    c.sample("; ".join(c.notes))
    if len(pairs) >= 2:
        c.nontrivial(c.notes)


def prop():
    return {
        "id": "C29",
        "rule": "random histories of 1-40 edits (nodes with and without ports and metadata, links, parallel links, order links, deletions of links and leaf nodes by any handle, entrypoint changes, insertion of other graphs, metadata written through handles) with every query compared after every edit, and the stored form compared at the end and read back; random histories of the bidirectional map; non-trivial: at least three nodes and a link remain (two pairs for the map), counted by distinct history",
        "assumptions": ["the order of parallel links of one port is not compared", "nodes are deleted only when they have no children, and never the entrypoint or the root"],
        "subs": [
            {"name": "histories", "quick": 4000, "thorough": 150000, "f": histories},
            {"name": "bimap", "quick": 4000, "thorough": 200000, "f": bimap},
        ],
        "findings": {},
    }
