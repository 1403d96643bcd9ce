"""C07: child elements come only from readable constructed values."""
from engine.interp import length_of
from .c04 import searches_by_name, LAX
from .c05 import first_byte
from .parsers import *

RULE = ("Both parsers are summarised as one iteration of their element loop. The children of the new element must be present exactly when the "
        "type of that element is constructed (by the first byte of its tag field), its data field isn't masked and the recursive parse of its data succeeds; they must be "
        "the whole result of that parse, whose arguments must be the element's own data and the parser's own masking characters. The "
        "loop's other results must not depend on whether the recursive parse succeeds. The argument that bounds the nesting depth is "
        "followed from the entry for the number of levels that must be supported.")

LEVELS = 32


class Child:
    """What a parser's iteration does with the children of an element."""

    def __init__(self, ctx, q, what):
        self.ctx, self.q, self.what = ctx, q, what
        self.p = ctx.p
        self.core = core(ctx.p)

    def need(self, key, cond, message):
        ctx, q = self.ctx, self.q
        ctx.count("obligations")
        cond = drop(cond)
        if cond is F:
            return
        cube = cube_of(ctx, q.I, cond, 30000)
        if cube is None:
            return
        odd = [a for a, s in cube if any(self.unknown(b) for b in apps(a) | {a})]
        if odd:
            ctx.undecided("%s:%s" % (self.what, key), "it depends on %s" % show(odd[0], 3)[:120])
        else:
            ctx.violation("%s:%s" % (self.what, key), "%s: %s" % (self.what, message),
                          " and ".join("%s in %s" % (show(a, 5), s_show(a, s)) for a, s in cube)[:3000])

    def unknown(self, a):
        if a.a[0] == "phi":
            return a is not self.q.P
        return a.a[0] in ("unk", "utf8") or a in self.q.others

    def variant(self, v, name):
        """The condition of being a variant."""
        def f(x):
            if x.k != "adt":
                raise Undecided("a field of another form: %s" % show(x, 2))
            return T if variant_name(self.p, x) == name else F
        return drop(smap(f, v))

    def constructed(self, e, type_, sub):
        """The condition of being constructed: by the tag's first byte if the type is a function of it, else by the type."""
        by_type = self.variant(type_, "Constructed")
        try:
            first = sub(first_byte(e.tag))
        except Undecided:
            return by_type
        if first.k != "app" or first not in apps(type_):
            return by_type
        return drop(lit(first, s_of(first, [b for b in range(256) if b & 0x20])))

    def calls(self, *vs):
        """The recursive parses that values depend on: {(function, arguments): condition of success}."""
        out = {}
        for a in apps(Tup(vs)):
            for f in self.core:
                if a.a[0] == "discr" and len(a.a[1]) == 1:
                    b = a.a[1][0]
                    if b.k == "app" and b.a[0] == "call:" + f:
                        out[(f, b.a[1])] = a
                elif a.a[0].startswith("call:" + f + "@"):
                    out.setdefault((f, a.a[1]), None)
        return out

    def ok(self, f, args):
        return ok_part(self.p.opaque("call:" + f, args, self.p.fns[f]["locals"][0]))

    def element(self, e, m=None, deep=False):
        """Judges the children of an element; returns the remaining arguments of the recursive parse."""
        sub = (lambda v: subst(v, m)) if m else (lambda v: v)
        go = drop(sub(self.q.go))
        here = And(go, drop(sub(e.guard)))
        children, data, type_ = sub(e.children), sub(e.data), sub(e.type)
        readable = And(And(self.constructed(e, type_, sub), self.variant(data, "Normal")), here)
        nodes = field(self.p, children, "nodes")
        present = F
        more = None
        for x in leaves(nodes):
            if x is BOT:
                continue
            g = And(here, drop(leaf_guard(nodes, lambda y, x=x: y is x)) if nodes.k == "dd" else T)
            if x.k != "seq":
                raise Undecided("children of another form")
            for s in x.a[0]:
                if s.k != "span":
                    raise Undecided("children of another form: %s" % s.k)
                h = And(g, s.a[0])
                for y in leaves(s.a[1]):
                    if y is BOT:
                        continue
                    k = And(h, drop(leaf_guard(s.a[1], lambda z, y=y: z is y)) if s.a[1].k == "dd" else T)
                    b = y.a[0]
                    f = next((f for f in self.core if b.k == "app" and b.a[0].startswith("call:%s@Ok" % f)), None)
                    if f is None:
                        if b.k == "app" and b.a[0].startswith("call:") and not any(self.unknown(c) for c in apps(b)):
                            self.need("source", k, "some children don't come from the BER-TLV parser but from %s" % b.a[0][5:])
                            continue
                        raise Undecided("children of another form: %s" % show(b, 3))
                    succeeded, value = self.ok(f, b.a[1])
                    self.need("unread", And(k, Not(succeeded)), "children are reported although the value isn't valid BER-TLV")
                    self.need("unreadable", And(k, Not(readable)), "a primitive or masked element has children")
                    whole = Or(self.differs(y.a[1], F, k), self.differs(y.a[2], App("len", (b,), LEN), k))
                    self.need("part", And(k, whole), "only a part of the children is reported")
                    more = self.arguments(f, b.a[1], k, data)
                    present = Or(present, k)
        if not deep:
            calls = [c for c in self.calls(children, sub(e.guard), go)]
            if present is F:
                self.need("none", readable, "no element has children")
            elif len(calls) == 1:
                succeeded, _ = self.ok(*calls[0])
                self.need("missing", And(And(And(readable, self.nonempty(data, readable)), succeeded), Not(present)), "some readable constructed elements have no children")
            else:
                raise Undecided("%d recursive parses" % len(calls))
        return more

    def nonempty(self, data, g):
        """The data field has bytes (there are no children in nothing)."""
        out = F
        for x in leaves(data):
            if x is BOT or x.k != "adt" or variant_name(self.p, x) != "Normal":
                continue
            h = And(g, drop(leaf_guard(data, lambda y, x=x: y is x)) if data.k == "dd" else T)
            if h is F:
                continue
            for k, v in self.bytes(x.a[2][0], h):
                if v is not None:
                    out = Or(out, And(And(h, k), drop(Lt(v.a[1], v.a[2]))))
        return out

    def differs(self, a, b, g):
        if a is b:
            return F
        d = differ(constrain(a, g), constrain(b, g), g)
        if d is None:
            raise Undecided("values can't be compared")
        return d

    def arguments(self, f, args, g, data):
        """The recursive parse must be given the element's data and the masking characters."""
        q = self.q
        if len(args) < 2:
            raise Undecided("a recursive parse without masking characters")
        for x in leaves(data):
            if x is BOT or x.k != "adt" or variant_name(self.p, x) != "Normal":
                continue
            h = And(g, drop(leaf_guard(data, lambda y, x=x: y is x)) if data.k == "dd" else T)
            if h is F:
                continue
            want = self.bytes(x.a[2][0], h)
            got = self.bytes(args[0], h)
            for gw, w in want:
                for gg, v in got:
                    k = And(And(gw, gg), h)
                    if k is F or w == v:
                        continue
                    if w is None or v is None:
                        z = w or v
                        self.need("data", And(k, drop(Lt(z.a[1], z.a[2]))), "children are parsed from something else than the element's value")
                    elif w.a[0] is v.a[0]:
                        self.need("data", And(k, Or(self.differs(w.a[1], v.a[1], k), self.differs(w.a[2], v.a[2], k))),
                                  "children are parsed from something else than the element's value")
                    elif any(self.unknown(c) for c in apps(Tup((w, v)))):
                        raise Undecided("the data that children are parsed from is of another form")
                    else:
                        self.need("data", k, "children are parsed from something else than the element's value")
        masks = args[1]
        for x in leaves(masks):
            if x is BOT:
                continue
            base = x.a[0] if x.k == "slice" else x
            if base.k == "app" and base.a[0] == "arg2":
                whole = x.k == "slice" and x.a[1] is F and x.a[2] is App("len", (base,), LEN)
                if not whole:
                    self.need("masks", g, "children are parsed with some of the masking characters")
            elif base.k == "arr" or (x.k == "slice" and not any(self.unknown(c) for c in apps(x))):
                self.need("masks", g, "children are parsed with other masking characters")
            else:
                raise Undecided("the masking characters of children are of another form: %s" % show(x, 3))
        return args[2:]

    def bytes(self, v, g):
        """[(condition, view or None)] for the bytes that a value stands for."""
        out = []
        for x in leaves(constrain(v, g)):
            if x is BOT:
                continue
            h = drop(leaf_guard(v, lambda y, x=x: y is x)) if v.k == "dd" else T
            if x.k == "slice" and x.a[0].k == "seq":
                if self.cut(x, And(g, h)):
                    raise Undecided("a part of the data")
                out += [(And(h, i), y) for i, y in self.bytes(x.a[0], And(g, h))]
            elif x.k == "slice":
                out.append((h, x))
            elif x.k == "seq":
                left = h
                for s in x.a[0]:
                    if s.k != "span":
                        raise Undecided("data of another form")
                    if And(And(left, s.a[0]), g) is F:
                        continue
                    out += [(And(And(left, s.a[0]), i), y) for i, y in self.bytes(s.a[1], And(g, s.a[0]))]
                    left = And(left, Not(s.a[0]))
                if And(left, g) is not F:
                    out.append((left, None))
            else:
                raise Undecided("data of another form")
        return out

    def cut(self, x, g):
        if x.a[1] is not F:
            return True
        d = differ(constrain(x.a[2], g), constrain(length_of(x.a[0]), g), g)
        if d is None:
            raise Undecided("data of another form")
        return cube_of(self.ctx, self.q.I, And(g, drop(d)), 20000) is not None

    def siblings(self):
        """Nothing else depends on the success of the recursive parse."""
        q = self.q
        for e in q.elements:
            for (f, args), atom in self.calls(q.go, q.err, q.next, e.guard, e.tag, e.data, e.type).items():
                if atom is None:
                    continue
                fail, fine = ({atom: Int(1)}, {atom: Int(0)})
                f_ = lambda v, m: drop(subst(v, m))
                self.need("refused", And(f_(q.err, fail), Not(f_(q.err, fine))), "invalid data in an element makes the parser refuse everything")
                self.need("stopped", And(f_(q.go, fine), Not(f_(q.go, fail))), "invalid data in an element ends the parsing")
                self.need("dropped", And(f_(And(q.go, e.guard), fine), Not(f_(And(q.go, e.guard), fail))), "an element with invalid data isn't reported")


def depths(ctx, start, what):
    """Follows the remaining arguments of the recursive parses for the supported levels."""
    p = ctx.p
    todo = start
    level = 0
    runs = {}
    while level < LEVELS:
        rec, args = todo
        if rec not in runs:
            q = Parser(ctx, rec, core(p) - {rec})
            runs[rec] = Child(ctx, q, "BER-TLV, nested")
        c = runs[rec]
        m = {}
        for i, a in enumerate(args):
            if a.k != "int":
                raise Undecided("the nesting depth isn't followed")
            m[App("arg%d" % (i + 3), (), ("i",) + p.irange(p.fns[rec]["locals"][i + 3]))] = a
        seen = (rec, tuple(args))
        more = None
        for e in c.q.elements:
            before = len(ctx.violations)
            more = c.element(e, m)
            if more is None:
                ctx.violation("depth:%d" % level, "%s: elements at nesting level %d have no children" % (what, level))
                return
            if len(ctx.violations) > before:
                return
        nxt = next(iter(c.calls(*[e.children for e in c.q.elements])))
        todo = (nxt[0], tuple(subst(a, m) for a in more))
        if todo == seen:
            break
        level += 1
    # whatever the depth, children are never anything else
    for c in runs.values():
        for e in c.q.elements:
            c.element(e, None, True)
        c.siblings()


def check(ctx):
    for name, what in ((BER, "BER-TLV"), (INGENICO, "Ingenico TLV")):
        with ctx.guardeds(what):
            q = Parser(ctx, name, [f for f in (LAX,) if f in ctx.p.fns])
            if name == INGENICO:
                q = searches_by_name(q)
            c = Child(ctx, q, what)
            if not q.elements:
                raise Undecided("no elements")
            start = None
            for e in q.elements:
                more = c.element(e)
                call = [k for k in c.calls(e.children)]
                if more is not None and call:
                    start = (call[0][0], tuple(more))
            c.siblings()
            ctx.sample({"routine": name, "elements": len(q.elements), "recursive parse": [f for f, a in c.calls(*[e.children for e in q.elements])]})
            if start is not None:
                depths(ctx, start, what)
