"""C06: a value is masked exactly when it is one masking character repeated."""
from engine.std import is_ascii_atom
from .c03 import unfold
from .c04 import searches_by_name, LAX, Format, Case, pieces_of
from .parsers import *
from .tags import TagRun, outcome

RULE = ("The tests for masked bytes and text are summarised as decision diagrams over quantified terms of the value and the list of masking "
        "characters, and must be: at least two long, and some masking character such that no byte differs from it (proved for every "
        "length when the quantifiers have that form; compared for all values of up to 4 bytes and 3 masking characters, all unknown, "
        "otherwise). In the summary of each parser's iteration, the data field must be masked exactly where that test holds for the "
        "element's own bytes or characters and the parser's own masking characters. A masked data field must have no payload, no "
        "children, and the summary of its processing over all tags must neither decode nor refuse it and must keep its tag.")

DATA = "emv::tlv_parsing::EmvData"


def quantified(v):
    """The parts of `exists m: not exists b: differs`, or None."""
    if v.k != "app" or v.a[0] != "any":
        return None
    return v.a[1]


def single(dd):
    """The atom of a yes/no diagram and whether it's taken when true."""
    if dd.k != "dd" or len(dd.a[1]) != 2:
        return None
    a = dd.a[0]
    if dom(a) != (0, 1):
        return None
    if dd is lit(a, 2):
        return a, True
    if dd is Not(lit(a, 2)):
        return a, False
    return None


def general(ctx, I, cond, data, masks, size, what):
    """Whether the test has the form that proves it for every length."""
    for n in (0, 1):
        if drop(at(cond, {size: n})) is not F:
            return False
    rest = constrain(cond, i_le(Int(2), size))
    s = single(rest)
    if s is None or not s[1]:
        return False
    q = quantified(s[0])
    if q is None:
        return False
    bv, lo, hi, pred = q
    m = element(masks, bv)
    if lo is not F or hi is not masks.a[2]:
        return False
    s = single(pred.a[0])
    if s is None or s[1]:
        return False
    q = quantified(s[0])
    if q is None:
        return False
    bw, lo, hi, pred = q
    if lo is not F or hi is not data.a[2]:
        return False
    differs = pred.a[0]
    want = Not(Eq(element(data, bw), m))
    ctx.count("obligations")
    for x, y in ((differs, want), (want, differs)):
        if cube_of(ctx, I, And(x, Not(y)), 2000) is not None:
            return False
    return True


def bounded(ctx, I, cond, data, masks, size, what):
    """All values of up to 4 elements and 3 masking characters; longer ones, as far as the test distinguishes lengths, with all elements
    beyond the third equal to the first."""
    count = App("len", (masks.a[0],), LEN)
    longer = sorted(lo for lo, hi in classes(cond, size) if 4 < lo <= 300)[:4]
    for n, k in [(n, k) for n in range(5) for k in range(4)] + [(n, k) for n in longer for k in (1, 2)]:
        ctx.count("obligations")
        item = lambda i: element(data, Int(i if i < 3 or n <= 4 else 0))
        m = {size: Int(n), count: Int(k)}
        got = drop(unfold(subst(cond, m)))
        if n > 4:
            got = subst(got, {element(data, Int(i)): item(0) for i in range(3, n)})
        want = F
        if n >= 2:
            for j in range(k):
                g = T
                for i in range(min(n, 4)):
                    g = And(g, Eq(item(i), element(masks, Int(j))))
                want = Or(want, drop(g))
        for x, y, text in ((want, got, "isn't recognised as masked"), (got, want, "is taken as masked")):
            cube = cube_of(ctx, I, And(x, Not(y)), 20000)
            if cube is None:
                continue
            odd = [a for a, s in cube if any(b.a[0] in ("unk", "phi", "any", "ffirst") for b in apps(a) | {a})]
            if odd:
                raise Undecided("it depends on %s" % show(odd[0], 3)[:100])
            ctx.violation("%s:%s" % (what, "missed" if x is want else "wrong"),
                          "%s: a value of %d, with %d masking character(s), %s" % (what, n, k, text),
                          " and ".join("%s in %s" % (show(a, 5), s_show(a, s)) for a, s in cube)[:2000])
            return


def classes(cond, size):
    """The ranges of lengths that a condition distinguishes."""
    out, seen = set(), set()

    def walk(x):
        if x.k != "dd" or x in seen:
            return
        seen.add(x)
        if x.a[0] is size:
            for s, c in x.a[1]:
                if not isinstance(s, int):
                    out.update(s)
        for s, c in x.a[1]:
            walk(c)
    walk(cond)
    return out


def tests(ctx):
    """The two tests on their own."""
    p = ctx.p
    for fn, what, text in ((MASKED_U8, "bytes", False), (MASKED_STR, "text", True)):
        with ctx.guardeds(what):
            if fn not in p.fns:
                raise Undecided("no test for masked %s" % what)
            tys = p.fns[fn]["locals"][1:3]
            data, masks = [p.opaque("arg%d" % (i + 1), (), t) for i, t in enumerate(tys)]
            if data.k != "slice" or masks.k != "slice":
                raise Undecided("the test for masked %s has other arguments" % what)
            guard = is_ascii_atom(data) if text else T
            r = ctx.run(fn, [data, masks], guard=guard)
            cond = drop(constrain(r.ret, guard))
            size = App("len", (data.a[0],), LEN)
            ctx.count("obligations")
            lost = cube_of(ctx, r.I, And(guard, Not(r.guard)), 5000)
            if lost is not None and not any(a.a[0] in ("unk", "phi", "any", "ffirst") for a in apps(r.guard)):
                ctx.violation("%s:fails" % what, "the test for masked %s doesn't always end normally" % what)
            if not general(ctx, r.I, cond, data, masks, size, what):
                before = len(ctx.violations)
                bounded(ctx, r.I, cond, data, masks, size, what)
                if len(ctx.violations) == before:
                    ctx.undecided(what, "the test for masked %s has another form; no difference was found" % what)
            ctx.sample({"routine": fn, "condition": show(cond, 5)[:600]})


def is_masked(p, v):
    def f(x):
        if x.k != "adt":
            raise Undecided("data of another form: %s" % show(x, 2))
        return T if variant_name(p, x) == "Masked" else F
    return drop(smap(f, v))


class Use:
    """The use of a test in a parser."""

    def __init__(self, ctx, q, what):
        self.ctx, self.q, self.what = ctx, q, what

    def unknown(self, a):
        if a.a[0] == "phi":
            return a is not self.q.P
        if a.a[0] in ("any", "ffirst"):
            return any(b.a[0] == "arg2" for b in apps(a))
        return a.a[0] in ("unk", "utf8") or a in self.q.others

    def need(self, key, cond, message):
        ctx, q = self.ctx, self.q
        ctx.count("obligations")
        cond = drop(cond)
        if cond is F:
            return
        cube = cube_of(ctx, q.I, cond, 30000)
        if cube is None:
            return
        odd = [a for a, s in cube if any(self.unknown(b) for b in apps(a) | {a})]
        if odd:
            ctx.undecided("%s:%s" % (self.what, key), "it depends on %s" % show(odd[0], 3)[:120])
        else:
            ctx.violation("%s:%s" % (self.what, key), "%s: %s" % (self.what, message),
                          " and ".join("%s in %s" % (show(a, 5), s_show(a, s)) for a, s in cube)[:3000])

    def tests_in(self, v, fn):
        return [a for a in apps(v) if a.a[0] == "call:" + fn]

    def exact(self, g, data, fn, want, children):
        """The data field is masked exactly where the test holds for the element's bytes."""
        p = self.ctx.p
        masked = is_masked(p, data)
        calls = self.tests_in(data, fn)
        other = self.tests_in(data, MASKED_U8 if fn == MASKED_STR else MASKED_STR)
        if not calls and other:
            calls = other
        right = F
        for a in calls:
            held = lit(a, 2)
            right = Or(right, held)
            self.views(a, g, data, want)
            self.masks(a, g)
        if not calls:
            if any(self.unknown(a) for a in apps(data)):
                raise Undecided("no test for masked values")
            self.need("never", g, "values are never tested for masking" if masked is F else "values are masked without being tested")
            return
        if len(calls) == 1:
            self.need("missed", And(g, And(right, Not(masked))), "some masked values are taken as readable")
            self.need("wrong", And(g, And(masked, Not(right))), "some readable values are taken as masked")
        else:
            raise Undecided("%d tests for masked values" % len(calls))
        nodes = field(p, children, "nodes")
        for x in leaves(nodes):
            if x is BOT:
                continue
            if x.k != "seq":
                raise Undecided("children of another form")
            h = And(g, drop(leaf_guard(nodes, lambda y, x=x: y is x)) if nodes.k == "dd" else T)
            for s in x.a[0]:
                self.need("children", And(And(h, s.a[0]) if isinstance(s.a[0], V) else h, masked), "masked values are descended into")

    def views(self, a, g, data, want):
        raise NotImplementedError

    def masks(self, a, g):
        masks = a.a[1][1]
        for x in leaves(masks):
            if x is BOT:
                continue
            base = x.a[0] if x.k == "slice" else x
            if base.k == "app" and base.a[0] == "arg2":
                if not (x.k == "slice" and x.a[1] is F and x.a[2] is App("len", (base,), LEN)):
                    self.need("masks", g, "only some of the masking characters are used")
            elif any(self.unknown(c) for c in apps(x)):
                raise Undecided("masking characters of another form")
            else:
                self.need("masks", g, "other masking characters are used than those given")

    def same(self, key, g, x, want, message):
        for h, y in parts_of(x, g):
            if y is None:
                self.need(key, And(h, drop(Lt(want.a[1], want.a[2]))), message)
            elif y.a[0] is want.a[0]:
                a, b = differ(constrain(y.a[1], h), constrain(want.a[1], h), h), differ(constrain(y.a[2], h), constrain(want.a[2], h), h)
                if a is None or b is None:
                    raise Undecided("the tested value can't be compared")
                short = drop(Le(Sub(y.a[2], y.a[1]), Int(1))) if y.a[1] is not BOT else F
                both_short = And(short, drop(Le(Sub(want.a[2], want.a[1]), Int(1))))
                self.need(key, And(h, And(Or(a, b), Not(both_short))), message)
            elif any(self.unknown(c) for c in apps(y)):
                raise Undecided("the tested value is of another form")
            else:
                self.need(key, h, message)


def parts_of(v, g):
    v = constrain(v, g)
    if v.k == "slice" and v.a[0].k == "seq":
        return list(pieces_of(v.a[0], g))
    return list(pieces_of(v, g))


class BerUse(Use):
    def views(self, a, g, data, want):
        """The bytes tested are those that are reported when they aren't masked."""
        for x in leaves(data):
            if x is BOT or variant_name(self.ctx.p, x) != "Normal":
                continue
            for h, own in parts_of(x.a[2][0], g):
                if own is not None:
                    self.same("value", h, a.a[1][0], own, "something else than the element's value is tested for masking")


class IngenicoUse(Use):
    def views(self, a, g, data, want):
        self.same("value", g, a.a[1][0], want, "something else than the record's characters is tested for masking")


def ber(ctx):
    q = Parser(ctx, BER)
    use = BerUse(ctx, q, "BER-TLV")
    if not q.elements:
        raise Undecided("no elements")
    for e in q.elements:
        use.exact(And(drop(q.go), drop(e.guard)), e.data, MASKED_U8, None, e.children)
    ctx.sample({"routine": q.rec.fn, "elements": len(q.elements)})


def ingenico(ctx):
    q = searches_by_name(Parser(ctx, INGENICO, [f for f in (LAX,) if f in ctx.p.fns]))
    use = IngenicoUse(ctx, q, "Ingenico TLV")
    f = Format(q)
    if not q.elements:
        raise Undecided("no elements")
    for k in range(5):
        length = F
        for j in range(k):
            length = l_add(length, element(f.size, Int(j)), 256 ** (k - 1 - j))
        for fmt in (97, 104):
            with ctx.guardeds("Ingenico TLV, %d length byte(s), format %s" % (k, chr(fmt))):
                m = {f.size_len: Int(k), f.format: Int(fmt)}
                whole = And(And(And(f.tag_ok, f.len_ok), And(f.inside, f.r3)),
                            And(lit(f.format, s_of(f.format, (fmt,))), And(i_le(f.size_len, Int(k)), i_le(Int(k), f.size_len))))
                c = Case(q, subst(whole, m), m)
                stop = l_add(f.start, l_scale(length, 2 if fmt == 104 else 1))
                data = Slice(q.base, f.start, stop)
                for e in q.elements:
                    use.exact(And(c.go, drop(c.f(e.guard))), c.f(e.data), MASKED_STR, data, c.f(e.children))
    ctx.sample({"routine": q.rec.fn, "elements": len(q.elements)})


def processed(ctx):
    p = ctx.p
    key = next((t for t, d in p.types.items() if d.get("path") == DATA and d["k"] == "adt"), None)
    if key is None:
        raise Undecided("no type for data")
    for v in p.variants(key):
        ctx.count("obligations")
        if v["n"] == "Masked" and v["f"]:
            ctx.violation("payload", "masked data has a payload")
    run = TagRun(ctx, True)
    results = [("a tag of 1 byte", at(run.r.ret, {run.size: 1})), ("a tag of 2 bytes", at(run.r.ret, {run.size: 2}))]
    results += [("a tag of %d bytes" % n, x) for n, x in run.others()]
    for what, x in results:
        for y in leaves(x):
            ctx.count("obligations")
            if y is BOT:
                continue
            if y.k != "adt":
                raise Undecided("a result of another form")
            if y.a[1] != 0:
                if tainted(leaf_guard(x, lambda z, y=y: z is y) if x.k == "dd" else T):
                    raise Undecided("a result of another form")
                ctx.violation("refused", "%s: a masked value is refused" % what)
                continue
            for z in leaves(y.a[2][0]):
                if z is BOT:
                    continue
                if z.k != "adt":
                    raise Undecided("a result of another form")
                name, fields = outcome(p, z)
                if name == "Parsed":
                    ctx.violation("decoded", "%s: a masked value is decoded" % what)
                raw = fields.get("raw_tag")
                if raw is not None and raw is not run.raw:
                    same = [a for a, b in zip(raw.a[2], run.raw.a[2]) if not equal_cell(a, b, what)] if raw.k == "adt" else [raw]
                    if same and not any(tainted(a) for a in same):
                        ctx.violation("tag", "%s: processing changes a masked element: %s" % (what, show(same[0], 3)[:200]))
                    elif same:
                        ctx.undecided("tag", "the processed element is of another form")


def equal_cell(a, b, what):
    """Equal, when the length of the tag has been fixed."""
    if a is b:
        return True
    sizes = [t for t in apps(b) if t.a[0] == "len"]
    n = int(what.split()[3]) if what.startswith("a tag of ") else None
    return any(a is at(b, {t: n}) for t in sizes)


def check(ctx):
    tests(ctx)
    with ctx.guardeds("BER-TLV"):
        ber(ctx)
    with ctx.guardeds("Ingenico TLV"):
        ingenico(ctx)
    with ctx.guardeds("processing"):
        processed(ctx)
