"""Random programs written with the Python builders."""
from engine import ensure
from hugr import ops, tys, val
from hugr.build.cfg import Cfg
from hugr.build.cond_loop import Conditional, TailLoop
from hugr.build.dfg import Dfg
from hugr.build.function import Function, Module
from hugr.build.tracked_dfg import TrackedDfg
from hugr.std import float as fl
from hugr.std import int as it
from hugr.std import logic, prelude
from hugr.std.collections.array import Array, ArrayVal
from hugr.std.collections.list import List, ListVal
from hugr.std.collections.value_array import ValueArray, ValueArrayVal

STR = prelude.STRING_T
INT2 = ["iadd", "isub", "imul", "iand", "ior", "ixor", "imax_u", "imin_s"]
CMP = ["ieq", "ilt_s", "ige_u"]
FL2 = ["fadd", "fsub", "fmul", "fmax"]


def key(t):
    """A text that two types share exactly if they are equal."""
    if isinstance(t, tys.Sum):
        return "sum" + str([[key(x) for x in r] for r in t.variant_rows])
    if isinstance(t, tys.FunctionType):
        return "fn" + str([[key(x) for x in t.input], [key(x) for x in t.output]])
    return repr(t._to_serial_root().model_dump())


class Prog:
    """The state of one generation."""

    def __init__(self, c, budget=25):
        self.c, self.t, self.budget = c, c.t, budget
        self.funcs = []  # (builder or node, poly signature)
        self.fn_consts = False
        self.n = 0

    # types and values ----------------------------------------------------
    def ty(self, d=2):
        t = self.t
        k = t.weighted([5, 4, 3, 1, 2, 1] + ([3, 3, 2, 2, 1, 1] if d else []))
        if k == 0:
            return tys.Bool
        if k == 1:
            return it.int_t(t.pick([5, 6, 3, 0]))
        if k == 2:
            return fl.FLOAT_T
        if k == 3:
            return STR
        if k == 4:
            return tys.Unit
        if k == 5:
            return tys.USize()
        if k == 6:
            return tys.Tuple(*self.row(d - 1))
        if k == 7:
            return self.sum(d - 1)
        if k == 8:
            return tys.Option(*self.row(d - 1))
        if k == 9:
            return tys.Either(self.row(d - 1), self.row(d - 1))
        if k == 10:
            return List(self.ty(d - 1)) if t.flag() else ValueArray(self.ty(d - 1), t.below(3))
        return tys.FunctionType(self.row(d - 1), self.row(d - 1))

    def row(self, d=1, most=2):
        return [self.ty(d) for _ in range(self.t.below(most + 1))]

    def sum(self, d=1):
        if self.t.chance(1, 4):
            return tys.UnitSum(self.t.range(1, 4))
        return tys.Sum([self.row(d) for _ in range(self.t.range(1, 3))])

    def const(self, ty):
        """A value of the type, or None."""
        t = self.t
        if isinstance(ty, tys.UnitSum):
            if ty.size == 2 and t.flag():
                return val.bool_value(t.flag())
            return val.UnitSum(t.below(ty.size), ty.size)
        if isinstance(ty, tys.Sum):
            rows = ty.variant_rows
            for k in range(len(rows)):
                i = (k + t.below(len(rows))) % len(rows) if k == 0 else k - 1
                vs = [self.const(x) for x in rows[i]]
                if None not in vs:
                    if isinstance(ty, tys.Tuple):
                        return val.Tuple(*vs)
                    if isinstance(ty, tys.Option):
                        return val.Some(*vs) if i == 1 else val.None_(*rows[1])
                    if isinstance(ty, tys.Either) and t.flag():
                        return val.Left(vs, rows[1]) if i == 0 else val.Right(rows[0], vs)
                    return val.Sum(i, ty, vs)
            return None
        if isinstance(ty, tys.FunctionType):
            if self.t.below(3):
                return None
            self.fn_consts = True
            d = Dfg(*ty.input)
            top, self.top = self.top, True
            outs = [self.make(d, x, self.scope(d), []) for x in ty.output]
            self.top = top
            if None in outs:
                return None
            d.set_outputs(*outs)
            return val.Function(d.hugr)
        if isinstance(ty, List):
            vs = [self.const(ty.ty) for _ in range(t.below(3))]
            return None if None in vs else ListVal(vs, ty.ty)
        if isinstance(ty, ValueArray):
            vs = [self.const(ty.ty) for _ in range(ty.size)]
            return None if None in vs else ValueArrayVal(vs, ty.ty)
        if isinstance(ty, tys.ExtType):
            if ty.type_def.name == "int":
                w = ty.args[0].n
                bits = 1 << w
                lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
                return it.IntVal(t.pick([0, lo, hi, -1 if bits > 1 else 0, lo + t.below(1 << min(bits, 40))]), w)
            if ty.type_def.name == "float64":
                return fl.FloatVal(t.pick([0.0, 1.0, -2.5, 1e300, 1e-310, 0.1]))
            if ty.type_def.name == "string":
                return prelude.StringVal(t.pick(["", "a", "é\U0001f600", "q\"\\\n"]))
        return None

    # wires -----------------------------------------------------------------
    def scope(self, b):
        """The copyable inputs of a builder, and its linear ones apart."""
        ws = b.inputs()
        return [(w, x) for w, x in zip(ws, b._input_op().types, strict=True) if not linear(x)]

    def lins(self, b):
        return [w for w, x in zip(b.inputs(), b._input_op().types, strict=True) if linear(x)]

    def make(self, b, ty, cp, doms):
        """A wire of the type."""
        k = key(ty)
        have = [w for w, x in cp + doms if key(x) == k]
        if have and self.t.below(4):
            return self.t.pick(have)
        v = self.const(ty)
        if v is None:
            if have:
                return self.t.pick(have)
            return self.grow(b, ty, cp, doms)
        if self.t.chance(1, 5) and self.top:
            # a constant of the module
            n = b.add_const(v, b.hugr.module_root)
            return b.load(n)[0]
        return b.load(v)[0]

    # whether constants may live in the module
    top = True

    def grow(self, b, ty, cp, doms):
        """Assembled from parts, for types without constants."""
        if isinstance(ty, tys.Sum):
            for i, r in enumerate(ty.variant_rows):
                ws = [self.make(b, x, cp, doms) for x in r]
                if None not in ws:
                    return b.add_op(ops.Tag(i, ty), *ws)[0]
        return None

    def some(self, cp, most=2):
        """A few wires in scope."""
        return [self.t.pick(cp) for _ in range(self.t.below(most + 1))] if cp else []

    # steps -------------------------------------------------------------------
    def body(self, b, cp, lin, depth, outer=(), doms=()):
        """Fill a builder; returns all wires in scope."""
        cp, lin, doms = list(cp) + list(outer), list(lin), list(doms)
        nodes = []
        for _ in range(self.t.below(7 if depth else 4)):
            if self.budget <= 0:
                break
            self.budget -= 1
            n = self.step(b, cp, lin, depth, doms)
            if n is not None:
                nodes.append(n)
        if len(nodes) >= 2 and self.t.chance(1, 4):
            i = self.t.below(len(nodes) - 1)
            j = self.t.range(i + 1, len(nodes) - 1)
            if nodes[i] != nodes[j]:
                b.add_state_order(nodes[i], nodes[j])
                self.c.label("order edge")
        return cp, lin

    def outs(self, b, n, types, cp):
        for i, x in enumerate(types):
            cp.append((n[i], x))

    def op(self, b, op, ws, types, cp):
        md = {"k": self.t.pick([1, "x", None, [1.5], {"a": True}])} if self.t.chance(1, 5) else None
        how = self.t.below(3)
        if how == 0:
            n = b.add(op(*ws), metadata=md)
        else:
            n = b.add_op(op, *ws, metadata=md)
        self.outs(b, n, types, cp)
        return n

    def step(self, b, cp, lin, depth, doms):
        t, c = self.t, self.c
        here = cp + doms
        k = t.weighted([5, 3, 3, 4, 4, 2, 2, 2, 2, 2] + ([4, 4, 2, 4, 4, 3] if depth else []))
        if k == 0:
            ty = self.ty()
            w = self.make(b, ty, cp, doms)
            if w is None:
                return None
            cp.append((w, ty))
            return None
        if k == 1:
            a = self.make(b, tys.Bool, cp, doms)
            if t.flag():
                return self.op(b, logic.Not, [a], [tys.Bool], cp)
            o = logic.EXTENSION.operations[t.pick(["And", "Or", "Xor", "Eq"])].instantiate([], tys.FunctionType([tys.Bool] * 2, [tys.Bool]))
            return self.op(b, o, [a, self.make(b, tys.Bool, cp, doms)], [tys.Bool], cp)
        if k == 2:
            w = t.pick([5, 6, 3])
            i = it.int_t(w)
            a, a2 = self.make(b, i, cp, doms), self.make(b, i, cp, doms)
            what = t.below(3)
            if what == 0 and w == 5:
                return self.op(b, it.DivMod, [a, a2], [i, i], cp)
            if what <= 1:
                o = it.INT_OPS_EXTENSION.operations[t.pick(INT2)].instantiate([tys.BoundedNatArg(w)], tys.FunctionType([i, i], [i]))
                return self.op(b, o, [a, a2], [i], cp)
            o = it.INT_OPS_EXTENSION.operations[t.pick(CMP)].instantiate([tys.BoundedNatArg(w)], tys.FunctionType([i, i], [tys.Bool]))
            return self.op(b, o, [a, a2], [tys.Bool], cp)
        if k == 3 and here:
            ws = self.some(here, 3)
            c.label("tuple")
            return self.op(b, ops.MakeTuple(), [w for w, _ in ws], [tys.Tuple(*[x for _, x in ws])], cp)
        if k == 4:
            tup = [(w, x) for w, x in here if isinstance(x, tys.Sum) and len(x.variant_rows) == 1]
            if tup:
                w, x = t.pick(tup)
                c.label("untuple")
                return self.op(b, ops.UnpackTuple(), [w], x.variant_rows[0], cp)
            if here:
                w, x = t.pick(here)
                return self.op(b, ops.Noop(), [w], [x], cp)
            return None
        if k == 5:
            s = self.ty()
            if not isinstance(s, tys.Sum):
                return None
            i = t.below(len(s.variant_rows))
            ws = [self.make(b, x, cp, doms) for x in s.variant_rows[i]]
            if None in ws:
                return None
            if isinstance(s, tys.Option) and i == 1:
                o = ops.Some(*s.variant_rows[1])
            elif isinstance(s, tys.Either) and t.flag():
                o = (ops.Left if i == 0 else ops.Right)(s)
            else:
                o = ops.Tag(i, s)
            return self.op(b, o, ws, [s], cp)
        if k == 6 and lin:
            i = t.below(len(lin))
            n = b.add_op(ops.Noop(), lin[i])
            lin[i] = n[0]
            c.label("linear op")
            return n
        if k == 7 and self.funcs:
            return self.call(b, cp, lin, doms, t.pick(self.funcs))
        if k == 8 and self.funcs:
            f, sig, _ = t.pick(self.funcs)
            inst, args = self.instance(sig)
            n = b.load_function(f, *([inst, args] if sig.params else []))
            cp.append((n[0], inst))
            c.label("load function")
            return n
        if k == 9:
            fs = [(w, x) for w, x in here if isinstance(x, tys.FunctionType)]
            if not fs:
                return None
            w, x = t.pick(fs)
            if any(linear(y) for y in x.input + x.output):
                return None
            ws = [self.make(b, y, cp, doms) for y in x.input]
            if None in ws:
                return None
            n = b.add_op(ops.CallIndirect(), w, *ws)
            self.outs(b, n, x.output, cp)
            c.label("indirect call")
            return n
        if k == 10:
            return self.nested(b, cp, lin, depth, here)
        if k in (11, 12):
            return self.conditional(b, cp, lin, depth, doms, k == 12)
        if k == 13:
            return self.loop(b, cp, lin, depth, doms)
        if k == 14:
            return self.cfg(b, cp, lin, depth, here)
        if k == 15:
            return self.inserted(b, cp, lin, depth, here)
        return None

    def take(self, lin):
        """Some linear wires, taken out of scope."""
        n = self.t.below(len(lin) + 1)
        got = lin[:n]
        del lin[:n]
        return got

    def result(self, n, types, cp, lin):
        for i, x in enumerate(types):
            if linear(x):
                lin.append(n[i])
            else:
                cp.append((n[i], x))
        return n

    def instance(self, sig):
        """An instantiation of a function, and its arguments."""
        args = []
        for p in sig.params:
            args.append(self.ty(1))
        ins = tys.FunctionType([subst(x, args) for x in sig.body.input], [subst(x, args) for x in sig.body.output])
        return ins, [tys.TypeTypeArg(a) for a in args]

    def call(self, b, cp, lin, doms, f):
        f, sig, _ = f
        inst, args = self.instance(sig)
        ls = [x for x in inst.input if linear(x)]
        if len(ls) > len(lin):
            return None
        ws = []
        for x in inst.input:
            if not linear(x):
                w = self.make(b, x, cp, doms)
                if w is None:
                    return None
                ws.append(w)
        ws += [lin.pop() for _ in ls]
        self.c.label("call")
        if sig.params:
            self.c.label("polymorphic call")
            n = b.call(f, *ws, instantiation=inst, type_args=args)
        else:
            n = b.call(f, *ws)
        return self.result(n, inst.output, cp, lin)

    def nested(self, b, cp, lin, depth, here):
        ws = self.some(here)
        ls = self.take(lin)
        self.c.label("nested dfg")
        with b.add_nested(*[w for w, _ in ws], *ls) as d:
            types = self.finish_free(d, depth - 1, cp)
        return self.result(d.parent_node, types, cp, lin)

    def finish_free(self, d, depth, outer=(), doms=()):
        """Fill a builder and choose its outputs."""
        cp, lin = self.body(d, self.scope(d), self.lins(d), depth, outer, doms)
        out = self.some(cp + list(doms), 3)
        d.set_outputs(*[w for w, _ in out], *lin)
        return [x for _, x in out] + [tys.Qubit] * len(lin)

    def fill(self, d, depth, types, outer=(), doms=(), first=None):
        """Fill a builder that has to give the types (and its linear wires)."""
        cp, lin = self.body(d, self.scope(d), self.lins(d), depth, outer, doms)
        ws = []
        for x in types:
            w = self.make(d, x, cp, list(doms))
            assert w is not None
            ws.append(w)
        if first:
            ws = [first(d, cp)] + ws
        return ws + lin

    def simple(self, most=2):
        """Types that always have a value."""
        return [self.t.pick([tys.Bool, it.INT_T, fl.FLOAT_T, tys.Tuple(tys.Bool, it.INT_T), tys.Option(fl.FLOAT_T), tys.UnitSum(3)]) for _ in range(self.t.below(most + 1))]

    def conditional(self, b, cp, lin, depth, doms, if_):
        s = tys.Bool if if_ else tys.Sum([self.simple() for _ in range(self.t.range(1, 3))])
        w = self.make(b, s, cp, doms)
        ws = self.some(cp + doms)
        ls = self.take(lin)
        types = self.simple()
        args = [x for x, _ in ws] + ls
        if if_:
            self.c.label("if")
            i = b.add_if(w, *args)
            i.set_outputs(*self.fill(i, depth - 1, types, cp))
            e = i.add_else()
            e.set_outputs(*self.fill(e, depth - 1, types, cp))
            n = e.finish()
        else:
            self.c.label("conditional")
            with b.add_conditional(w, *args) as cond:
                order = list(range(len(s.variant_rows)))
                if self.t.flag():
                    order.reverse()
                for i in order:
                    with cond.add_case(i) as case:
                        case.set_outputs(*self.fill(case, depth - 1, types, cp))
            n = cond.parent_node
        return self.result(n, types + [tys.Qubit] * len(ls), cp, lin)

    def again(self, ins, outs):
        """The wire that decides whether a loop goes on."""

        def go(d, cp):
            e = tys.Either(ins, outs)
            if self.t.flag():
                i = self.t.below(2)
                ws = [self.make(d, x, cp, []) for x in (outs if i else ins)]
                return d.add_op(ops.Break(e) if i else ops.Continue(e), *ws)[0]
            with d.add_conditional(self.make(d, tys.Bool, cp, [])) as cond:
                for i in range(2):
                    with cond.add_case(i) as case:
                        ws = [self.make(case, x, [], []) for x in (outs if i else ins)]
                        case.set_outputs(case.add_op(ops.Break(e) if i else ops.Continue(e), *ws))
            return cond.parent_node[0]

        return go

    def loop(self, b, cp, lin, depth, doms):
        ins, outs = self.simple(), self.simple()
        rest = self.simple()
        iw = [self.make(b, x, cp, doms) for x in ins]
        rw = [self.make(b, x, cp, doms) for x in rest]
        ls = self.take(lin)
        self.c.label("loop")
        with b.add_tail_loop(iw, rw + ls) as tl:
            w, *r = self.fill(tl, depth - 1, rest, cp, first=self.again(ins, outs))
            tl.set_loop_outputs(w, *r)
        return self.result(tl.parent_node, outs + rest + [tys.Qubit] * len(ls), cp, lin)

    def cfg(self, b, cp, lin, depth, here):
        ws = self.some(here)
        ls = self.take(lin)
        self.c.label("cfg")
        with b.add_cfg(*[w for w, _ in ws], *ls) as g:
            types = self.fill_cfg(g, depth - 1, cp)
        return self.result(g.parent_node, types + [tys.Qubit] * len(ls), cp, lin)

    def fill_cfg(self, g, depth, outer=()):
        t = self.t
        types = self.simple()
        how = t.below(4)
        with g.add_entry() as entry:
            if how == 0:
                entry.set_single_succ_outputs(*self.fill(entry, depth, types, outer))
            elif how == 1:
                s = tys.Sum([self.simple() for _ in range(t.range(1, 3))])
                others = self.simple()
                ecp = []

                def first(d, cp):
                    ecp.extend(x for x in cp if x not in outer)
                    return self.make(d, s, cp, [])

                w, *r = self.fill(entry, depth, others, outer, first=first)
                entry.set_block_outputs(w, *r)
            else:
                entry.set_single_succ_outputs(*self.fill(entry, depth, types, outer))
        if how == 0:
            g.branch_exit(entry[0])
        elif how == 1:
            self.c.label("diamond")
            merge = None
            for i in range(len(s.variant_rows)):
                with g.add_successor(entry[i]) as blk:
                    doms = list(ecp) if t.flag() else []
                    if doms:
                        self.c.label("dominating wires")
                    blk.set_single_succ_outputs(*self.fill(blk, depth, types, outer, doms))
                if t.flag():
                    g.branch_exit(blk[0])
                elif merge is None:
                    with g.add_successor(blk[0]) as merge:
                        merge.set_single_succ_outputs(*self.fill(merge, 0, types, outer))
                    g.branch(merge[0], g.exit)
                else:
                    g.branch(blk[0], merge)
        else:
            self.c.label("cfg loop")
            with g.add_successor(entry[0]) as head:
                w, *r = self.fill(head, depth, types, outer, first=lambda d, cp: self.make(d, tys.Bool, cp, []))
                head.set_block_outputs(w, *r)
            if how == 2:
                g.branch(head[0], head)
            else:
                with g.add_successor(head[0]) as back:
                    back.set_single_succ_outputs(*self.fill(back, depth, types, outer))
                g.branch(back[0], head)
            g.branch_exit(head[1])
        return types

    def inserted(self, b, cp, lin, depth, here):
        """A region that is built on its own and then inserted."""
        k = self.t.below(4)
        # only the descendants of its entrypoint are inserted
        (saved, top), self.funcs, self.top = (self.funcs, self.top), [], False
        self.c.label("inserted")
        try:
            if k == 0:
                ws = self.some(here)
                ls = self.take(lin)
                d = Dfg(*[x for _, x in ws], *[tys.Qubit] * len(ls))
                types = self.finish_free(d, depth - 1)
                n = b.insert_nested(d, *[w for w, _ in ws], *ls)
                return self.result(n, types, cp, lin)
            if k == 1:
                ws = self.some(here)
                ls = self.take(lin)
                g = Cfg(*[x for _, x in ws], *[tys.Qubit] * len(ls))
                types = self.fill_cfg(g, depth - 1) + [tys.Qubit] * len(ls)
                return self.result(b.insert_cfg(g, *[w for w, _ in ws], *ls), types, cp, lin)
            if k == 2:
                g, s, other, types = self.free_conditional(depth, len(lin))
                w = self.make(b, s, cp, [])
                ws = [self.make(b, x, cp, []) for x in other if not linear(x)]
                ls = [lin.pop() for x in other if linear(x)]
                return self.result(b.insert_conditional(g, w, *ws, *ls), types, cp, lin)
            g, ins, rest, types = self.free_loop(depth, len(lin))
            iw = [self.make(b, x, cp, []) for x in ins]
            rw = [self.make(b, x, cp, []) for x in rest if not linear(x)]
            ls = [lin.pop() for x in rest if linear(x)]
            return self.result(b.insert_tail_loop(g, iw, rw + ls), types, cp, lin)
        finally:
            self.funcs, self.top = saved, top

    def free_conditional(self, depth, q):
        s = tys.Sum([self.simple() for _ in range(self.t.range(1, 3))])
        q = self.t.below(q + 1)
        other = self.simple() + [tys.Qubit] * q
        types = self.simple()
        g = Conditional(s, other)
        for i in range(len(s.variant_rows)):
            with g.add_case(i) as case:
                case.set_outputs(*self.fill(case, depth - 1, types))
        return g, s, other, types + [tys.Qubit] * q

    def free_loop(self, depth, q):
        ins, outs = self.simple(), self.simple()
        q = self.t.below(q + 1)
        rest = self.simple()
        g = TailLoop(ins, rest + [tys.Qubit] * q)
        w, *r = self.fill(g, depth - 1, rest, first=self.again(ins, outs))
        g.set_loop_outputs(w, *r)
        return g, ins, rest + [tys.Qubit] * q, outs + rest + [tys.Qubit] * q

    # whole programs ------------------------------------------------------------
    def args(self):
        return self.row(1, 3) + [tys.Qubit] * self.t.below(3)

    def module(self):
        t = self.t
        m = Module()
        for i in range(t.range(1, 3)):
            k = t.below(5)
            name = f"f{i}" if t.below(4) else t.pick(["main", "a b", "é", "x.y"]) + str(i)
            if k == 0:
                sig = tys.PolyFuncType([], tys.FunctionType(self.args(), self.args()))
                if sum(map(linear, sig.body.input)) != sum(map(linear, sig.body.output)):
                    sig = tys.PolyFuncType([], tys.FunctionType(self.row(), self.row()))
                self.funcs.append((m.declare_function(name, sig), sig, name))
                self.c.label("declaration")
            elif k == 1:
                bound = tys.TypeBound.Copyable
                ps = [tys.TypeTypeParam(bound) for _ in range(t.range(1, 2))]
                vs = [tys.Variable(j, bound) for j in range(len(ps))]
                f = m.define_function(name, vs + self.row(), None, ps)
                types = self.finish_free(f, 1)
                self.funcs.append((f.parent_node, tys.PolyFuncType(ps, tys.FunctionType(list(f._input_op().types), types)), name))
                self.c.label("polymorphic function")
            else:
                ins = self.args()
                q = [tys.Qubit] * sum(map(linear, ins))
                if t.flag():
                    outs = self.simple() + q
                    f = m.define_function(name, ins, outs)
                    if t.flag():
                        self.funcs.append((f.parent_node, tys.PolyFuncType([], tys.FunctionType(ins, outs)), name))
                        self.c.label("recursive function")
                    f.set_outputs(*self.fill(f, 2, outs[: len(outs) - len(q)]))
                else:
                    f = m.define_function(name, ins)
                    outs = self.finish_free(f, 2)
                self.funcs.append((f.parent_node, tys.PolyFuncType([], tys.FunctionType(ins, outs)), name))
            if t.chance(1, 4):
                m.hugr[m.hugr.module_root].metadata["m"] = t.pick([1, "two"])
        if t.chance(1, 4):
            # another entrypoint
            h = m.hugr
            cand = [n for n, d in h.nodes() if isinstance(d.op, (ops.FuncDefn, ops.DFG, ops.CFG, ops.Conditional, ops.TailLoop))]
            if cand:
                h.entrypoint = t.pick(cand)
                self.c.label("inner entrypoint")
        return m.hugr

    def hugr(self):
        k = self.t.weighted([8, 3, 2, 2, 2, 2, 2])
        if k == 0:
            return self.module()
        if k == 1:
            d = Dfg(*self.args())
            self.finish_free(d, 2)
            return d.hugr
        if k == 2:
            f = Function("fn", self.args())
            self.finish_free(f, 2)
            return f.hugr
        if k == 3:
            g = Cfg(*self.args())
            self.fill_cfg(g, 2)
            return g.hugr
        if k == 4:
            return self.free_conditional(3, 2)[0].hugr
        if k == 5:
            return self.free_loop(3, 2)[0].hugr
        return self.tracked()

    def tracked(self):
        """Wires followed by index; the expected wiring is kept beside."""
        t = self.t
        n = t.range(1, 4)
        types = [t.pick([tys.Bool, tys.Qubit]) for _ in range(n)]
        d = TrackedDfg(*types, track_inputs=True)
        self.c.label("tracked")
        self.lines = [[] for _ in range(n)]
        for _ in range(t.below(8)):
            i = t.below(n)
            if types[i] == tys.Bool and t.flag():
                d.add(logic.Not(i))
                self.lines[i] = [*self.lines[i], "Not"]
            else:
                d.add(ops.Noop()(i))
                self.lines[i] = [*self.lines[i], "Noop"]
        if t.flag():
            d.set_tracked_outputs()
        else:
            d.set_indexed_outputs(*range(n))
        self.check_lines(d)
        return d.hugr


    def check_lines(self, d):
        """The wires carry the operations applied to their index, in order."""
        h = d.hugr
        for i, want in enumerate(self.lines):
            got, at = [], d.output_node.inp(i)
            while True:
                [src] = h.linked_ports(at)
                if src.node == d.input_node:
                    break
                got.append(h[src.node].op.op_def().name)
                at = src.node.inp(src.offset)
            ensure(src.offset == i and got[::-1] == want, "tracked wires", f"wire {i} is {got[::-1]} from input {src.offset}, expected {want}")


def linear(x):
    return x is tys.Qubit or x == tys.Qubit


def subst(t, args):
    if isinstance(t, tys.Variable):
        return args[t.idx]
    if isinstance(t, tys.Sum):
        if isinstance(t, tys.UnitSum):
            return t
        return tys.Sum([[subst(x, args) for x in r] for r in t.variant_rows])
    if isinstance(t, tys.FunctionType):
        return tys.FunctionType([subst(x, args) for x in t.input], [subst(x, args) for x in t.output])
    return t
