"""C03: BER-TLV data is split exactly at the boundaries the encoding defines."""
from .parsers import *

RULE = ("The element loop of BER-TLV parsing is summarised as one iteration with an unknown position and unknown earlier elements: "
        "the condition to go on, the next position, the tag and value views of the appended element and every way to return, as "
        "decision diagrams over the bytes. The induction start (position 0, no elements), the only successful end (position at the "
        "end of the data, with exactly the collected elements) and the step (boundaries, announced length, each error kind) are "
        "compared with the encoding for all bytes and lengths; where the search for the end of the tag isn't in a recognised form, "
        "the step is compared for every input of up to 9 bytes, with all bytes unknown.")

NC, UNS = "NonCompliant", "Unsupported"


class Spec:
    """One step of the encoding at position P of n bytes, given where the tag ends."""

    def __init__(self, q, P, n, found, end):
        byte = lambda i: smap(lambda x: element(Slice(q.base, F, q.n), x), i)
        multi = smap(lambda b: masked_eq(b, 0x1F, 0x1F), byte(P))
        has_tag = Or(Not(multi), found)
        e = join(Not(multi), P, And(multi, found), end)
        self.e = e
        l_at = Add(e, Int(1))
        has_len = And(has_tag, drop(Lt(l_at, n)))
        l0 = byte(l_at)
        short = And(has_len, drop(smap(lambda b: i_lt(b, Int(0x80)), l0)))
        size, start, fits = BOT, BOT, F
        size = join(F, size, short, l0)
        start = join(F, start, short, Add(e, Int(2)))
        done = short
        self.unspecified = And(has_len, is_byte(l0, 0x80))
        count_ok = short
        for k in range(1, 5):
            g = And(has_len, is_byte(l0, 0x80 + k))
            h = Add(e, Int(2 + k))
            room = And(g, drop(Le(h, n)))
            v = Int(0)
            for j in range(k):
                v = smap(lambda a, b, j=j: l_add(a, b, 256 ** (k - 1 - j)), v, byte(Add(e, Int(2 + j))))
            size = join(count_ok, size, room, v)
            start = join(count_ok, start, room, h)
            count_ok = Or(count_ok, room)
        long_ = And(has_len, drop(smap(lambda b: i_lt(Int(0x84), b), l0)))
        self.start, self.size = constrain(start, count_ok), constrain(size, count_ok)
        self.stop = Add(self.start, self.size)
        whole = And(count_ok, drop(Le(self.stop, n)))
        self.go = whole
        bad = And(Not(whole), Not(self.unspecified))
        self.bad = bad
        self.reason = {NC: bad, UNS: And(bad, long_)}
        # more length bytes than supported: non-compliant as well when they aren't there
        self.only = {NC: And(bad, Or(Not(long_), drop(smap(lambda i, b, m: i_lt(m, l_add(l_add(i, Int(2)), l_add(b, Int(-128)))), e, l0, n)))),
                     UNS: And(bad, long_)}


def masked_eq(b, m, v):
    return lit(b, s_of(b, [x for x in range(256) if x & m == v])) if b.k == "app" else (T if b.a[0] & m == v else F)


def is_byte(b, v):
    return drop(smap(lambda x: i_eq(x, Int(v)), b))


class Step:
    """What the program does in one iteration, under the same substitution as the specification."""

    def __init__(self, q, m, guard):
        f = (lambda v: subst(v, m)) if m else (lambda v: v)
        self.inside = guard
        self.go = And(guard, drop(f(q.go)))
        self.errs = {k: And(guard, drop(f(g))) for k, g in q.kinds().items()}
        self.err = F
        for g in self.errs.values():
            self.err = Or(self.err, g)
        self.next = f(q.next)
        self.elements = [(drop(f(e.guard)), f(e.tag), f(e.data)) for e in q.elements]


def parts(v):
    """(condition, view) for every form that bytes have; None for a form that isn't a view of the input."""
    for x in leaves(v):
        if x is BOT:
            continue
        g = leaf_guard(v, lambda y, x=x: y is x) if v.k == "dd" else T
        if x.k == "slice":
            yield g, x
        elif x.k == "seq" and len(x.a[0]) == 1 and x.a[0][0].k == "span" and x.a[0][0].a[0] is T:
            for y in leaves(x.a[0][0].a[1]):
                if y is not BOT:
                    h = leaf_guard(x.a[0][0].a[1], lambda z, y=y: z is y) if x.a[0][0].a[1].k == "dd" else T
                    yield And(drop(g), drop(h)), y
        elif x.k == "seq" and not x.a[0]:
            yield g, None
        else:
            yield g, x


class Compare:
    """Reports feasible differences between a step and its specification."""

    def __init__(self, ctx, q, what, where):
        self.ctx, self.q, self.what, self.where = ctx, q, what, where
        self.clean = True

    def need(self, key, cond, message):
        ctx = self.ctx
        ctx.count("obligations")
        cond = drop(cond)
        if cond is F:
            return
        cube = cube_of(ctx, self.q.I, cond, 20000)
        if cube is None:
            return
        self.clean = False
        strange = [a for a, s in cube if not self.known(a)]
        if strange:
            ctx.undecided(key, "it depends on %s" % show(strange[0], 3)[:120])
        else:
            ctx.violation("%s:%s" % (self.what, key), "%s%s" % (message, self.where),
                          " and ".join("%s in %s" % (show(a, 5), s_show(a, s)) for a, s in cube)[:3000])

    def known(self, a):
        return not any(x.a[0] in ("unk",) or x in self.q.others or (x.a[0] == "phi" and x is not self.q.P) for x in apps(a) | {a})

    def step(self, spec, step, n):
        for k, g in step.errs.items():
            why = spec.only.get(k)
            if why is None:
                self.need("kind:" + k, And(g, Not(spec.unspecified)), "some data is refused as %s" % k)
            else:
                self.need("kind:" + k, And(And(g, spec.bad), Not(why)), "some data that isn't BER-TLV is refused as %s for another reason" % k)
        self.need("refused", And(step.err, spec.go), "some valid data is refused")
        self.need("accepted", And(step.go, spec.bad), "some data that isn't BER-TLV is accepted")
        self.need("neither", And(step.inside, And(Not(spec.unspecified), And(Not(step.go), Not(step.err)))),
                  "some data is neither accepted nor refused (parsing fails)")
        both = And(step.go, spec.go)
        self.need("next", And(both, self.different(step.next, spec.stop, both)), "the next element doesn't start where the value ends")
        for i, (g, tag, data) in enumerate(step.elements):
            self.need("element", And(both, Not(g)), "some elements aren't reported")
            h = And(both, g)
            self.bytes("tag", h, tag, spec.P, Add(spec.e, Int(1)))
            normal = F
            for x in leaves(data):
                if x is BOT:
                    continue
                if x.k != "adt":
                    raise Undecided("a value of another form")
                if variant_name(self.ctx.p, x) == "Normal":
                    normal = And(h, drop(leaf_guard(data, lambda y, x=x: y is x)) if data.k == "dd" else T)
                    self.bytes("value", normal, x.a[2][0], spec.start, spec.stop)
        if not step.elements:
            self.need("element", both, "no elements are reported")

    def different(self, a, b, g):
        d = differ(constrain(a, g), constrain(b, g), g)
        if d is None:
            raise Undecided("values can't be compared")
        return d

    def bytes(self, key, g, v, lo, hi):
        for h, x in parts(constrain(v, g)):
            k = And(g, drop(h))
            if x is None:
                self.need(key, And(k, self.different(lo, hi, k)), "the %s of some elements is left out" % key)
            elif x.k == "slice" and x.a[0] is self.q.base:
                a, b = x.a[1], x.a[2]
                d = Or(self.different(a, lo, k), self.different(b, hi, k))
                # an empty value is the same anywhere
                empty = And(drop(Eq(a, b)), drop(Eq(constrain(lo, k), constrain(hi, k))))
                self.need(key, And(k, And(d, Not(empty))), "the %s of some elements isn't the bytes that the encoding announces" % key)
            else:
                raise Undecided("the %s isn't a part of the data" % key)


def searches(q):
    """The searches in the parser: [(any or ffirst term)]."""
    vs = Tup([q.go, q.next, q.err] + [x for e in q.elements for x in (e.guard, e.tag, e.data)])
    return [a for a in apps(vs) if a.a[0] in ("any", "ffirst")]


def recognised(q, t):
    """Whether a search is the one for the end of the tag."""
    bv, lo, hi, pred = t.a[1]
    want = smap(lambda b: lit(b, s_of(b, range(128))), q.at(bv))
    if lam_body(pred) is not want or not is_intleaf(lo) or not is_intleaf(hi):
        return False
    d = l_add(q.n, hi, -1)
    return l_add(q.P, Int(1)) is lo and d.k == "int" and d.a[0] in (0, 1)


def general(ctx, q):
    """Every position and length at once."""
    ss = searches(q)
    if not ss or not all(recognised(q, t) for t in ss):
        return False
    first = {t for t in ss if t.a[0] == "ffirst"}
    anys = {t for t in ss if t.a[0] == "any"}
    if len({t.a[1] for t in ss}) != 1 or len(first) != 1 or len(anys) != 1:
        return False
    E, found = first.pop(), anys.pop()
    bv, lo, hi, pred = E.a[1]
    d, k = lin_of(l_add(lo, E, -1))
    q.I.facts.add(E, d, k)
    inside = drop(Lt(q.P, q.n))
    clean = True
    for hit in (1, 0):
        s = Spec(q, q.P, q.n, T if hit else F, E)
        s.P = q.P
        c = Compare(ctx, q, "step", "")
        c.step(s, Step(q, {found: Int(hit)}, inside), q.n)
        clean = clean and c.clean
    return True


def unfold(v):
    """Writes out the searches over constant ranges."""
    for _ in range(40):
        ts = [a for a in apps(v) if a.a[0] in ("any", "ffirst") and a.a[1][1].k == "int" and a.a[1][2].k == "int"
              and not any(b.a[0] in ("any", "ffirst") for b in apps(Tup(a.a[1])) if b is not a)]
        if not ts:
            return v
        m = {}
        for t in ts:
            bv, lo, hi, pred = t.a[1]
            res = F if t.a[0] == "any" else BOT
            miss = T
            for i in range(lo.a[0], hi.a[0]):
                g = drop(subst(lam_body(pred), {bv: Int(i)}))
                if t.a[0] == "any":
                    res = Or(res, g)
                else:
                    res = join(Not(miss), res, And(miss, g), Int(i))
                    miss = And(miss, Not(g))
            m[t] = res
        v = subst(v, m)
    return v


def lam_body(pred):
    return pred.a[0] if pred.k == "lam" else pred.a[1][0]


def bounded(ctx, q, most=9):
    for n in range(1, most + 1):
        m = {q.P: Int(0), q.n: Int(n)}
        found, end, miss = F, BOT, T
        for i in range(1, n):
            g = smap(lambda b: lit(b, s_of(b, range(128))), q.at(Int(i)))
            end = join(Not(miss), end, And(miss, g), Int(i))
            found = Or(found, g)
            miss = And(miss, Not(g))
        s = Spec(q, F, Int(n), found, end)
        s.P = F
        c = Compare(ctx, q, "step", " (data of %d bytes)" % n)
        st = Step(q, m, T)
        st.go, st.err, st.next = unfold(st.go), unfold(st.err), unfold(st.next)
        st.errs = {k: unfold(g) for k, g in st.errs.items()}
        st.elements = [tuple(unfold(x) for x in e) for e in st.elements]
        c.step(s, st, Int(n))


def check(ctx):
    with ctx.guardeds("BER-TLV"):
        q = Parser(ctx, BER)
        c = Compare(ctx, q, "end", "")
        end = drop(Le(q.n, q.P))
        c.need("early", And(q.ok, Not(end)), "parsing ends successfully before the end of the data")
        c.need("late", And(Or(q.err, q.go), end), "parsing doesn't end at the end of the data")
        nodes = constrain(field(ctx.p, q.value, "nodes"), q.ok)
        ctx.count("obligations")
        if nodes is not q.nodes.phi:
            if any(x.k == "seq" for x in leaves(nodes)) and not tainted(nodes):
                ctx.violation("result", "the result isn't the elements that were found: %s" % show(nodes, 4)[:300])
            else:
                less = cube_of(ctx, q.I, shortened(q, nodes), 20000)
                if less:
                    ctx.violation("result", "the result isn't all the elements that were found",
                                  " and ".join("%s in %s" % (show(a, 3), s_show(a, s)) for a, s in less)[:1000])
                else:
                    ctx.undecided("result", "the result is of another form: %s" % show(nodes, 4)[:200])
        ctx.sample({"routine": q.rec.fn, "loop": q.rec.loc, "position": q.pos.name, "ways to return": {k: show(g, 2) for k, g in q.kinds().items()}})
        if not general(ctx, q):
            before = len(ctx.violations)
            bounded(ctx, q)
            if len(ctx.violations) == before:
                ctx.undecided("tag", "the end of the tag is searched for in another way")
