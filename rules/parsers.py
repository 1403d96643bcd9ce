"""The two TLV parsers as loops over elements, shared by C03 to C07.

A parser is summarised with everything that its loop changes unknown (the position, and the elements so far).  What's left is one
iteration as a decision diagram: when it goes on and where to, when the parser returns and with what, and the element it appends."""
from engine.interp import elem as element
from .common import *
from .tags import uninterpreted

BER = "emv::tlv_parsing::ber_tlv::parse"
INGENICO = "emv::tlv_parsing::ingenico_tlv::parse"
NODE = "emv::tlv_parsing::RawEmvNode"
MASKED_U8 = "emv::tlv_parsing::is_masked_u8"
MASKED_STR = "emv::tlv_parsing::is_masked_str"
HEX = "util::parse_hex_str_strict"
TRIM = "util::trim_leading_0_bytes"


def callees(p, f):
    out = set()
    for stmts, term, loc in p.fns[f]["blocks"] or ():
        if term[0] == "call" and isinstance(term[1], dict):
            out.add(term[1].get("fn"))
    return out & set(p.fns)


def reach(p, f, seen=None):
    seen = set() if seen is None else seen
    for g in callees(p, f):
        if g not in seen:
            seen.add(g)
            reach(p, g, seen)
    return seen


def core(p):
    """The functions through which BER-TLV parsing descends into itself."""
    if BER not in p.fns:
        return set()
    from_parse = reach(p, BER) | {BER}
    return {f for f in from_parse if f in reach(p, f) and "RawEmvBlock, error::ParseError" in p.fns[f]["locals"][0]} | {BER}


class Element:
    """What an iteration appends: when, and the fields of the node."""

    def __init__(self, p, guard, node):
        self.guard = guard
        self.tag = field(p, node, "tag", "tag")
        self.class_ = field(p, node, "tag", "class")
        self.type = field(p, node, "tag", "data_object_type")
        self.data = field(p, node, "tag", "data")
        self.children = field(p, node, "child_block")


def field(p, v, *names):
    for n in names:
        def f(x, n=n):
            if x.k != "adt" or x.a[0] not in p.types:
                raise Undecided("an element of another form: %s" % show(x, 2))
            i = p.field_index(x.a[0], n, x.a[1])
            if i is None:
                raise Undecided("elements have no field %s" % n)
            return x.a[2][i]
        v = smap(f, v)
    return v


class Parser:
    def __init__(self, ctx, name, pins=()):
        p = self.p = ctx.p
        self.ctx, self.name = ctx, name
        if ctx.fn(name) is None:
            raise Undecided("no parser")
        pinned = {f for f in (MASKED_U8, MASKED_STR, HEX, TRIM) if f in p.fns} | set(pins)
        if name == INGENICO:
            pinned |= core(p)
        self.r = r = ctx.run(name, None, opaque={f: uninterpreted for f in pinned})
        self.I = r.I
        self.base = App("arg1", (), self.arg_type())
        self.n = App("len", (self.base,), LEN)
        found = []
        for rec in r.I.loops:
            for ph in rec.phis:
                if ph.mode == "seq" and ph.back.k == "seq" and any(NODE in str(x.a[0]) for s in ph.back.a[0] if s.k == "el" for x in leaves(s.a[1]) if x.k == "adt"):
                    found.append((rec, ph))
        if len(found) != 1:
            raise Undecided("%s isn't a loop that collects elements" % name)
        self.rec, self.nodes = found[0]
        self.pos = [ph for ph in self.rec.phis if ph.mode == "int" and ph.phi in apps(r.guard) | apps(r.ret)
                    and ph.init.k == "int" and ph.init.a[0] == 0]
        if len(self.pos) != 1:
            raise Undecided("the parser's position isn't one number")
        self.pos = self.pos[0]
        self.P = self.pos.phi
        segs = self.nodes.back.a[0]
        if segs[0].k != "pre" or self.nodes.init != Seq():
            raise Undecided("elements that aren't collected in order")
        self.elements = []
        for s in segs[1:]:
            if s.k != "el":
                raise Undecided("elements of another form: %s" % s.k)
            self.elements.append(Element(p, s.a[0], s.a[1]))
        self.go = self.rec.back_guard
        self.next = self.pos.back
        ok, val = ok_part(r.ret)
        self.ok = And(r.guard, ok)
        self.err = And(r.guard, Not(ok))
        self.value = val
        self.error = err_part(r.ret)
        self.others = {a for ph in self.rec.phis if ph is not self.pos for a in apps(ph.phi)}

    def rewrite(self, m):
        """Replaces terms everywhere."""
        f = lambda v: subst(v, m)
        self.go, self.next, self.ok, self.err, self.error, self.value = [f(v) for v in (self.go, self.next, self.ok, self.err, self.error, self.value)]
        for e in self.elements:
            e.guard, e.tag, e.class_, e.type, e.data, e.children = [f(v) for v in (e.guard, e.tag, e.class_, e.type, e.data, e.children)]

    def arg_type(self):
        for a in apps(self.r_args()):
            if a.a[0] == "arg1":
                return a.a[2]
        raise Undecided("no data")

    def r_args(self):
        return Tup((self.r.guard, self.r.ret) + tuple(ph.back for rec in self.I.loops for ph in rec.phis))

    def kinds(self):
        """{error kind: condition} over the iteration."""
        out = {}
        for x in leaves(self.error):
            if x is BOT:
                continue
            if x.k != "adt":
                raise Undecided("an unknown error")
            g = And(self.err, leaf_guard(self.error, lambda y: y is x) if self.error.k == "dd" else T)
            k = variant_name(self.p, x)
            out[k] = Or(out.get(k, F), drop(g))
        return out

    def at(self, i):
        """The input's element at a position (a diagram of them)."""
        return smap(lambda x: element(Slice(self.base, F, self.n), x), i)

    def view(self, lo, hi):
        return smap(lambda a, b: Slice(self.base, a, b), lo, hi)


def drop(g):
    """Undefined parts of a condition as false."""
    return dmap(lambda x: F if x is BOT else x, (g,))


def content(v):
    """The view that a value's bytes are, or None."""
    out = []
    for x in leaves(v):
        if x is BOT:
            continue
        if x.k == "slice":
            out.append(x)
        elif x.k == "seq" and len(x.a[0]) == 1 and x.a[0][0].k == "span" and x.a[0][0].a[0] is T:
            out.append(x.a[0][0].a[1])
        else:
            return None
    return out


def shortened(q, v):
    """A condition under which a result that should be the collected elements is only a part of them, or F."""
    out = F
    for x in leaves(v):
        if x is BOT or x is q.nodes.phi or x.k != "seq":
            continue
        g = leaf_guard(v, lambda y: y is x) if v.k == "dd" else T
        size = App("len", (q.nodes.phi,), LEN) if q.nodes.phi.k == "app" else None
        whole = F
        for s in x.a[0]:
            if s.k == "pre":
                whole = Or(whole, s.a[0])
            elif s.k == "span":
                for y in leaves(s.a[1]):
                    if y.k != "slice":
                        raise Undecided("elements of another form")
            else:
                raise Undecided("elements of another form: %s" % s.k)
        rest = And(drop(g), Not(whole))
        for s in x.a[0]:
            if s.k == "span":
                for y in leaves(s.a[1]):
                    h = And(And(rest, s.a[0]), drop(leaf_guard(s.a[1], lambda z, y=y: z is y)) if s.a[1].k == "dd" else T)
                    sizes = [a for a in apps(y.a[2]) | apps(h) if a.a[0] == "len"]
                    for a in sizes:
                        if a is not q.n:
                            d = differ(constrain(y.a[2], h), a, h)
                            if d is not None:
                                out = Or(out, And(h, d))
    return out
