"""The dumped program: functions, types, and opaque values of a type."""
import json
from .vals import *

REF_PAYLOAD = ("std::vec::Vec", "std::string::String")


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.fns = d["fns"]
        self.types = d["types"]
        self.externs = d["externs"]
        self.vtables = d["vtables"]
        self.entry = d["entry"]
        self.statics = d["statics"]
        self.unsafe = d["unsafe"]
        self.closures = set()
        for t in self.types.values():
            if t["k"] == "closure":
                self.closures.update(t["fn"])
        self.cfgs = {}

    # ---- types

    def desc(self, ty):
        return self.types.get(ty) or {"k": "other"}

    def irange(self, ty):
        """The range of an integer-like type, or None."""
        d = self.types.get(ty)
        if d is None:
            return None
        k = d["k"]
        if k == "bool":
            return (0, 1)
        if k == "char":
            return (0, 0x10FFFF)
        if k == "int":
            b = d["bits"]
            if d["signed"]:
                return (-(1 << (b - 1)), (1 << (b - 1)) - 1)
            return (0, (1 << b) - 1)
        return None

    def is_enum(self, ty):
        d = self.desc(ty)
        return d["k"] == "adt" and d["enum"]

    def variants(self, ty):
        return self.desc(ty)["v"]

    def variant_index(self, ty, name):
        for i, v in enumerate(self.variants(ty)):
            if v["n"] == name:
                return i
        raise KeyError((ty, name))

    def field_index(self, ty, name, variant=0):
        for i, f in enumerate(self.variants(ty)[variant]["f"]):
            if f[0] == name:
                return i
        raise KeyError((ty, name))

    def discr_of(self, ty, variant):
        d = self.variants(ty)[variant]["d"]
        return variant if d is None else d

    # ---- opaque values

    def opaque(self, op, args, ty, depth=0):
        """An unknown value of a type, structured as far as the type allows."""
        r = self.irange(ty)
        if r is not None:
            a = App(op, args, ("i",) + r)
            if r == (0, 1):
                return lit(a, 2)
            return a
        d = self.desc(ty)
        k = d["k"]
        if k == "never":
            return BOT
        if k == "tuple":
            return Tup(self.opaque(op + ".%d" % i, args, t, depth) for i, t in enumerate(d["e"]))
        if k in ("ref", "ptr"):
            e = self.desc(d["e"])
            if e["k"] in ("str", "slice"):
                base = App(op, args, d["e"])
                return Slice(base, F, App("len", (base,), LEN))
            if e["k"] == "dyn":
                return App(op, args, ty)
            if depth < 3:
                return Sref(self.opaque(op, args, d["e"], depth + 1))
            return App(op, args, ty)
        if k == "array" and d["n"] is not None and d["n"] <= 64:
            return Arr(self.opaque(op, tuple(args) + (Int(i),), d["e"], depth) for i in range(d["n"]))
        if k == "adt" and not d.get("union"):
            p = d["path"]
            if p in ("std::vec::Vec", "std::string::String"):
                base = App(op, args, ty)
                return Seq((mk("span", T, Slice(base, F, App("len", (base,), LEN))),))
            if depth < 6 and (d["local"] or p in ("std::option::Option", "std::result::Result", "std::cmp::Ordering", "std::ops::Range", "std::ops::ControlFlow")):
                vs = d["v"]
                if d["enum"]:
                    if not vs:
                        return BOT
                    base = App(op, args, ty)
                    if len(vs) <= 64:
                        disc = App("discr", (base,), ("i", 0, len(vs) - 1)) if len(vs) > 1 else None
                        pairs = []
                        for i, v in enumerate(vs):
                            fs = [self.opaque("%s@%s.%s" % (op, v["n"], f[0]), args, f[1], depth + 1) for f in v["f"]]
                            x = Adt(ty, i, fs)
                            if disc is None:
                                return x
                            pairs.append((s_of(disc, [i]), x))
                        return mkdd(disc, pairs)
                elif len(vs) == 1:
                    return Adt(ty, 0, [self.opaque("%s.%s" % (op, f[0]), args, f[1], depth + 1) for f in vs[0]["f"]])
        if ty == "()":
            return UNIT
        return App(op, args, ty)

    # ---- control flow graphs

    def cfg(self, name):
        c = self.cfgs.get(name)
        if c is None:
            c = self.cfgs[name] = Cfg(self.fns[name])
        return c


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        out = []
        for _, b in t[2]:
            if b not in out:
                out.append(b)
        if t[3] is not None and t[3] not in out:
            out.append(t[3])
        return out
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    return []


def mentioned(x, out):
    """The locals that a part of a statement may read."""
    if isinstance(x, (list, tuple)) and x:
        if isinstance(x[0], int) and not isinstance(x[0], bool):
            out.add(x[0])
        elif x[0] == "i" and len(x) > 1 and isinstance(x[1], int):
            out.add(x[1])
        for y in x:
            mentioned(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            mentioned(y, out)


def liveness(f, cfg):
    """For each block the locals whose values may be read from its start on, or None for the ones that always may."""
    always = set()
    gen, kill = {}, {}
    for b in cfg.rpo:
        stmts, term, _ = f["blocks"][b]
        g, k = set(), set()

        def use(x):
            u = set()
            mentioned(x, u)
            g.update(u - k)

        for s in stmts:
            if s[0] == "=":
                use(s[2])
                if s[2][0] in ("ref", "addr") and (s[2][0] == "addr" or len(s[2]) < 3 or s[2][2]) and not any(e == "*" for e in s[2][1][1:]):
                    always.add(s[2][1][0])
                if len(s[1]) == 1:
                    k.add(s[1][0])
                else:
                    use(s[1])
            else:
                use(s[1:])
        if term[0] == "call":
            use([term[1], term[2]])
            if len(term[3]) == 1:
                k.add(term[3][0])
            else:
                use(term[3])
        elif term[0] == "return":
            g |= {0} - k
        elif term[0] != "goto":
            use(term[1:])
        gen[b], kill[b] = g, k
    live = {b: set(gen[b]) for b in cfg.rpo}
    changed = True
    while changed:
        changed = False
        for b in reversed(cfg.rpo):
            out = set()
            for s in cfg.succ[b]:
                out |= live[s]
            new = gen[b] | (out - kill[b])
            if new != live[b]:
                live[b] = new
                changed = True
    return {b: l | always for b, l in live.items()}


class Cfg:
    def __init__(self, f):
        n = len(f["blocks"])
        self.succ = [succs(b[1]) for b in f["blocks"]]
        order = []
        seen = [False] * n
        stack = [(0, iter(self.succ[0]))]
        seen[0] = True
        while stack:
            b, it = stack[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = order
        self.num = {b: i for i, b in enumerate(order)}
        self.live = None
        self.pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators
        idom = {order[0]: order[0]}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        new = p if new is None else self._meet(idom, new, p)
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    todo = [b]
                    while todo:
                        x = todo.pop()
                        if x not in body:
                            body.add(x)
                            todo.extend(self.pred[x])

    def _meet(self, idom, a, b):
        while a != b:
            while self.num[a] > self.num[b]:
                a = idom[a]
            while self.num[b] > self.num[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while self.num[b] > self.num[a]:
            b = self.idom[b]
        return a == b
