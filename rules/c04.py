"""C04: Ingenico TLV data is split exactly as the format defines."""
from engine.lin import Facts
from engine.std import is_ascii_atom
from .parsers import *

RULE = ("The record loop of Ingenico TLV parsing is summarised as one iteration with an unknown position and unknown earlier elements; "
        "the searches for the colons and the strict hex decoding are terms over views of the string. The step is compared with the "
        "format for every position, length and character: when it goes on, where the next record starts, the tag and value that are "
        "reported, and the kind of each refusal; split by the number of length bytes (none to four, more) and the format character. "
        "The induction start and the only successful end are compared as well, and the removal of leading zeros for all vectors of up "
        "to eight bytes, with all bytes unknown.")

NC, UNS = "NonCompliant", "Unsupported"
COLON = 58
LAX = "util::parse_hex_str"


class Format:
    """The format's terms for the record at the position P."""

    def __init__(self, q):
        self.q, p = q, q.p
        P, n = q.P, q.n
        view = lambda lo, hi: Slice(q.base, lo, hi)
        has = lambda v: lit(App("scontains", (v, Int(COLON)), BOOL), 2)
        find = lambda v: App("sfind", (v, Int(COLON)), ("i", 0, 2**63 - 2))
        inside = lambda i: drop(Lt(i, n))
        self.ascii = is_ascii_atom(view(F, n))
        self.inside = And(self.ascii, inside(P))
        t = l_add(P, Int(1))
        r1 = And(self.inside, inside(t))
        v1 = view(t, n)
        self.found1 = And(r1, has(v1))
        self.find1 = find(v1)
        c1 = l_add(t, self.find1)
        tag_ok, tag = self.hex(view(t, c1))
        self.tag = content(tag)[0]
        self.tag_len = App("len", (self.tag.a[0],), LEN)
        self.tag_ok = And(self.found1, tag_ok)
        u = l_add(c1, Int(1))
        r2 = And(self.found1, inside(u))
        v2 = view(u, n)
        self.found2 = And(r2, has(v2))
        self.find2 = find(v2)
        c2 = l_add(u, self.find2)
        len_ok, size = self.hex(view(u, c2))
        self.size = content(size)[0]
        self.size_len = App("len", (self.size.a[0],), LEN)
        self.len_ok = And(self.found2, len_ok)
        w = l_add(c2, Int(1))
        self.r3 = And(self.found2, inside(w))
        self.format = element(view(F, n), w)
        self.start = l_add(w, Int(1))
        self.type = element(view(F, n), P)
        for a, k in ((self.find1, v1), (self.find2, v2)):
            d, c = lin_of(l_add(l_add(a, Int(1)), l_add(n, k.a[1], -1), -1))
            q.I.facts.add(a, d, c)
        # two digits for a byte (C21)
        for a, f in ((self.tag_len, self.find1), (self.size_len, self.find2)):
            for s in (1, -1):
                d, c = lin_of(l_scale(l_add(l_scale(a, 2), f, -1), s))
                q.I.facts.add(a, d, c)

    def hex(self, v):
        p = self.q.p
        res = p.opaque("call:" + HEX, (v,), result_of(p, HEX))
        return ok_part(res)

    def masked(self, v):
        p = self.q.p
        masks = [a for a in apps(self.q.r_args()) if a.a[0] == "arg2"]
        if MASKED_STR not in p.fns or len(masks) != 1:
            raise Undecided("no test for masked values")
        m = masks[0]
        return p.opaque("call:" + MASKED_STR, (v, Slice(m, F, App("len", (m,), LEN))), "bool")


def result_of(p, f):
    return p.fns[f]["locals"][0]


def searches_by_name(q):
    """Searches for a character that are written as loops, as the terms of str::find and str::contains."""
    m = {}
    for a in apps(q.r_args()):
        if a.a[0] in ("any", "ffirst") and a.a[1][3].k == "lam":
            bv, lo, hi, pred = a.a[1]
            y = pred.a[0]
            if y.k != "dd" or y.a[0].a[0] != "elem" or y.a[0].a[1][0] is not q.base or y is not lit(y.a[0], s_of(y.a[0], (COLON,))):
                continue
            off = l_add(y.a[0].a[1][1], bv, -1)
            if not is_intleaf(lo) or not is_intleaf(hi) or bv in apps(off):
                continue
            v = Slice(q.base, l_add(off, lo), l_add(off, hi))
            if a.a[0] == "any":
                m[a] = lit(App("scontains", (v, Int(COLON)), BOOL), 2)
            else:
                m[a] = l_add(lo, App("sfind", (v, Int(COLON)), ("i", 0, 2**63 - 2)))
    for _ in range(3):
        if m:
            q.rewrite(m)
            m = {a: subst(v, m) for a, v in m.items()}
    return q


class Case:
    """The program and the format in one case."""

    def __init__(self, q, guard, m=None, facts=()):
        self.q, self.guard = q, guard
        f = self.f = (lambda v: subst(v, m)) if m else (lambda v: v)
        self.go = And(guard, drop(f(q.go)))
        self.errs = {k: And(guard, drop(f(g))) for k, g in q.kinds().items()}
        self.err = F
        for g in self.errs.values():
            self.err = Or(self.err, g)
        self.facts = facts


class Judge:
    def __init__(self, ctx, q):
        self.ctx, self.q = ctx, q
        self.trimmed = None

    def unknown(self, a):
        op = a.a[0]
        if op == "phi":
            return a is not self.q.P
        if op == "any" or op == "ffirst" or TRIM in op:
            return a is not self.trimmed
        return op in ("unk", "utf8") or a in self.q.others

    def need(self, key, case, cond, message):
        ctx, q = self.ctx, self.q
        ctx.count("obligations")
        cond = drop(cond)
        if cond is F:
            return
        keep = q.I.facts
        mine = q.I.facts = Facts()
        mine.byapp = {a: list(fs) for a, fs in keep.byapp.items()}
        mine.byop = keep.byop
        for a, d, k in case.facts:
            mine.add(a, d, k)
        try:
            cube = cube_of(ctx, q.I, cond, 30000)
        finally:
            q.I.facts = keep
        if cube is None:
            return
        odd = [a for a, s in cube if self.unknown(a) or any(self.unknown(b) for b in apps(a))]
        if odd:
            ctx.undecided(key, "it depends on %s" % show(odd[0], 3)[:120])
        else:
            ctx.violation("record:" + key, message, " and ".join("%s in %s" % (show(a, 5), s_show(a, s)) for a, s in cube)[:3000])


def sizes(k, size):
    v = Int(0)
    for j in range(k):
        v = l_add(v, element(size, Int(j)), 256 ** (k - 1 - j))
    return v


def ranges(a, lo, hi):
    g = T
    if lo is not None:
        g = And(g, i_le(Int(lo), a))
    if hi is not None:
        g = And(g, i_le(a, Int(hi)))
    return g


def records(ctx, q):
    f = Format(q)
    j = Judge(ctx, q)
    trimmed = j.trimmed = trim_term(ctx, q, f)
    consistent = T
    if trimmed is not None:
        tl = App("len", (trimmed,), LEN)
        zero = lambda a: ranges(a, None, 0)
        consistent = Or(And(zero(tl), zero(f.tag_len)), And(Not(zero(tl)), Not(zero(f.tag_len))))
        d, c = lin_of(l_add(tl, f.tag_len, -1))
        q.I.facts.add(tl, d, c)
    non_empty = ranges(f.tag_len, 1, None)
    refusal = "some data that isn't Ingenico TLV is "

    # text that isn't ASCII: nothing is accepted, nothing else happens
    c = Case(q, And(drop(Lt(q.P, q.n)), Not(f.ascii)))
    j.need("ascii", c, Or(c.go, And(c.guard, q.ok)), "text that isn't ASCII is accepted")
    for k, g in c.errs.items():
        if k != NC:
            j.need("kind:" + k, c, g, "text that isn't ASCII is refused as %s" % k)
    j.need("neither", c, And(c.guard, And(Not(c.err), Not(c.go))), "text that isn't ASCII is neither accepted nor refused (parsing fails)")

    inside = And(f.inside, consistent)
    head = And(And(f.tag_ok, non_empty), And(f.len_ok, f.r3))
    short = And(f.len_ok, ranges(f.size_len, None, 4))
    long_ = And(f.len_ok, ranges(f.size_len, 5, None))
    formats = lit(f.format, s_of(f.format, (97, 104)))

    # no complete record head
    c = Case(q, And(inside, Not(And(And(head, short), formats))))
    j.need("accepted", c, c.go, refusal + "accepted")
    j.need("neither", c, And(c.guard, And(Not(c.go), Not(c.err))), "some data is neither accepted nor refused (parsing fails)")
    only_unsupported = And(And(And(f.tag_ok, non_empty), long_), f.r3)
    for k, g in c.errs.items():
        bad = g if k not in (NC, UNS) else And(g, only_unsupported) if k == NC else And(g, Not(long_))
        j.need("kind:" + k, c, bad, refusal + "refused as %s for another reason" % k)

    # a complete head: by the number of length bytes and the format
    for k in range(5):
        for fmt in (97, 104):
            name = "%d length byte(s), format %s" % (k, chr(fmt))
            with ctx.guardeds(name):
                record(ctx, q, f, j, And(And(inside, head), And(short, formats)), trimmed, k, fmt, name)
    return f


def record(ctx, q, f, j, g, trimmed, k, fmt, name):
    refusal = "some data that isn't Ingenico TLV is "
    facts = [(f.find2,) + lin_of(l_scale(l_add(f.find2, Int(-2 * k)), s)) for s in (1, -1)]
    m = {f.size_len: Int(k), f.format: Int(fmt)}
    c = Case(q, subst(g, m), m, facts)
    stop = l_add(f.start, l_scale(sizes(k, f.size), 2 if fmt == 104 else 1))
    data = Slice(q.base, f.start, stop)
    fits = drop(Le(stop, q.n))
    ok, payload = fits, None
    if fmt == 104:
        hex_ok, payload = f.hex(data)
        ok = And(fits, Or(f.masked(data), hex_ok))
    j.need("refused", c, And(c.err, ok), "some valid data is refused (%s)" % name)
    j.need("accepted", c, And(c.go, Not(ok)), refusal + "accepted (%s)" % name)
    j.need("neither", c, And(c.guard, And(Not(c.go), Not(c.err))), "some data is neither accepted nor refused (%s)" % name)
    for kind, e in c.errs.items():
        if kind != NC:
            j.need("kind:" + kind, c, e, refusal + "refused as %s (%s)" % (kind, name))
    both = And(c.go, ok)
    nxt = c.f(q.next)
    j.need("next", c, And(both, different(nxt, l_add(stop, Int(1)), both)), "the next record doesn't start after this one's separator (%s)" % name)
    is_emv = lit(f.type, s_of(f.type, (84,)))
    if not q.elements:
        j.need("reported", c, And(both, is_emv), "records aren't reported")
    for e in q.elements:
        when = drop(c.f(e.guard))
        j.need("reported", c, And(both, And(when, Not(is_emv))), "a record of another type is reported")
        j.need("left out", c, And(both, And(is_emv, Not(when))), "some records of type T aren't reported")
        h = And(both, And(when, is_emv))
        tags(j, c, h, c.f(e.tag), f, trimmed)
        values(j, c, h, c.f(e.data), data, payload, name)


def different(a, b, g):
    d = differ(constrain(a, g), constrain(b, g), g)
    if d is None:
        raise Undecided("values can't be compared")
    return d


def trim_term(ctx, q, f):
    """The term of the trimmed tag, if there is one."""
    for e in q.elements:
        for b in apps(e.tag):
            if TRIM in b.a[0] and [x for y in b.a[1] for x in unwrap(y)] == [f.tag]:
                return b
    return None


def unwrap(v):
    """Views in an argument."""
    if v.k == "sref":
        v = v.a[0]
    return content(v) or []


def tags(j, c, g, v, f, trimmed):
    many = And(ranges(f.tag_len, 2, None), lit(element(f.tag, F), s_of(element(f.tag, F), (0,))))
    whole = lambda y, b: y.a[0] is b and y.a[1] is F and y.a[2] is App("len", (b,), LEN)
    for h, y in pieces_of(v, g):
        if y is None:
            j.need("tag", c, h, "some tags are left out")
        elif trimmed is not None and whole(y, trimmed):
            continue
        elif whole(y, f.tag.a[0]):
            # untrimmed: only where nothing can be trimmed
            j.need("tag", c, And(h, many), "leading zeros of some tags aren't removed")
        else:
            raise Undecided("tags of another form: %s" % show(y, 4)[:200])


def values(j, c, g, v, data, payload, name):
    ctx = j.ctx
    for x in leaves(v):
        if x is BOT:
            continue
        if x.k != "adt":
            raise Undecided("a value of another form")
        if variant_name(ctx.p, x) != "Normal":
            continue
        k = And(g, drop(leaf_guard(v, lambda y, x=x: y is x)) if v.k == "dd" else T)
        for h, y in pieces_of(x.a[2][0], k):
            if payload is None:
                if y is None:
                    j.need("value", c, And(h, drop(Lt(data.a[1], data.a[2]))), "some values are left out (%s)" % name)
                    continue
                if y.a[0].k == "app" and (y.a[0].a[0] == "trimmed" or y.a[0].a[0].startswith("str:")) and y.a[0].a[1][0] is data:
                    j.need("value", c, h, "some values are changed by %s (%s)" % (show(y.a[0], 1)[:60], name))
                    continue
                if y.a[0] is not data.a[0]:
                    raise Undecided("values that aren't a part of the data")
                d = Or(different(y.a[1], data.a[1], h), different(y.a[2], data.a[2], h))
                empty = And(drop(Eq(y.a[1], y.a[2])), drop(Eq(data.a[1], data.a[2])))
                j.need("value", c, And(h, And(d, Not(empty))), "some values aren't the record's characters (%s)" % name)
            else:
                want = content(payload)[0]
                size = App("len", (want.a[0],), LEN)
                if y is None:
                    j.need("value", c, And(h, ranges(size, 1, None)), "some values are left out (%s)" % name)
                elif y.a[0] is want.a[0]:
                    j.need("value", c, And(h, Or(different(y.a[1], want.a[1], h), different(y.a[2], want.a[2], h))),
                           "some values are only a part of the record's bytes (%s)" % name)
                elif y.a[0].k == "app" and y.a[0].a[0] == "call:" + LAX and y.a[0].a[1][0] is data:
                    pass  # the same for hex digits (C21)
                elif y.a[0] is j.q.base:
                    j.need("value", c, h, "some values aren't decoded (%s)" % name)
                elif y.a[0].k == "app" and y.a[0].a[0].startswith("call:" + HEX) and not any(j.unknown(a) for a in apps(y)):
                    other = y.a[0].a[1][0]
                    d = Or(different(other.a[1], data.a[1], h), different(other.a[2], data.a[2], h))
                    j.need("value", c, And(h, d), "some values aren't decoded from the record's digits (%s)" % name)
                else:
                    raise Undecided("values of another form: %s" % show(y, 4)[:200])


def pieces_of(v, g):
    v = constrain(v, g)
    for x in leaves(v):
        if x is BOT:
            continue
        k = And(g, drop(leaf_guard(v, lambda y: y is x)) if v.k == "dd" else T)
        if x.k == "slice":
            yield k, x
        elif x.k == "seq":
            live = [(s, And(k, s.a[0])) for s in x.a[0] if s.k == "span"]
            if len(live) != len(x.a[0]):
                raise Undecided("values of another form")
            got = F
            for s, h in live:
                if And(got, h) is not F:
                    raise Undecided("values of several parts")
                got = Or(got, h)
                if h is F:
                    continue
                w = s.a[1]
                for y in leaves(w):
                    if y is not BOT:
                        yield And(h, drop(leaf_guard(w, lambda z, y=y: z is y)) if w.k == "dd" else T), y
            rest = And(k, Not(got))
            if rest is not F:
                yield rest, None
        else:
            raise Undecided("values of another form")


def trimming(ctx, most=8):
    """The removal of leading zeros, for all vectors of each length."""
    p = ctx.p
    if TRIM not in p.fns:
        return
    for n in range(most + 1):
        base = App("arg1", (), "std::vec::Vec<u8>")
        bytes_ = [element(Slice(base, F, Int(n)), Int(i)) for i in range(n)]
        arms = trim_of(ctx, bytes_)
        lead = T
        for z in range(max(n, 1)):
            # exactly the first z bytes are removed
            here = And(lead, Not(lit(bytes_[z], s_of(bytes_[z], (0,))))) if z + 1 < n else lead
            if z + 1 < n:
                lead = And(lead, lit(bytes_[z], s_of(bytes_[z], (0,))))
            ctx.count("obligations")
            for g, parts in arms:
                g = And(g, here)
                if g is F:
                    continue
                now = []
                for h, y in parts:
                    a, b = And(g, h), And(g, Not(h))
                    if b is F or (a is not F and y not in bytes_[z:]):
                        now.append(y)
                    elif a is not F:
                        now = None  # some are there although the number of zeros is the same
                        break
                if now != bytes_[z:]:
                    ctx.violation("trim:%d:%d" % (n, z), "%d byte(s) that start with %d zero(s) become %s instead of %s"
                                  % (n, z, "something else" if now is None else [show(y, 3) for y in now], [show(y, 3) for y in bytes_[z:]]))


def trim_of(ctx, bytes_):
    """[(condition, [(condition, byte)])] of the trimmed vector."""
    v = call_mut(ctx, TRIM, Seq([mk("el", T, b) for b in bytes_]))
    out = []
    for x in leaves(v):
        if x is BOT:
            continue
        if x.k != "seq":
            raise Undecided("the removal of zeros has another form")
        arms = [(drop(leaf_guard(v, lambda y: y is x)) if v.k == "dd" else T, [])]
        for s in x.a[0]:
            if s.k == "el":
                arms = [(g, parts + [(s.a[0], s.a[1])]) for g, parts in arms]
                continue
            if s.k != "span":
                raise Undecided("the removal of zeros has another form")
            more = [(And(g, Not(s.a[0])), parts) for g, parts in arms]
            for h, y in cases_of(s.a[0], s.a[1]):
                if y.k != "slice" or y.a[0].k != "arr":
                    raise Undecided("the removal of zeros has another form")
                for k, a in cases_of(h, y.a[1]):
                    for l, b in cases_of(k, y.a[2]):
                        if a.k != "int" or b.k != "int":
                            raise Undecided("the removal of zeros has another form")
                        more += [(And(g, l), parts + [(T, z) for z in y.a[0].a[0][a.a[0]:b.a[0]]]) for g, parts in arms]
            arms = [(g, parts) for g, parts in more if g is not F]
        out += arms
    return out


def cases_of(g, v):
    for x in leaves(v):
        if x is not BOT:
            h = And(g, drop(leaf_guard(v, lambda y: y is x)) if v.k == "dd" else T)
            if h is not F:
                yield h, x


def call_mut(ctx, fn, value):
    f = ctx.p.fns[fn]
    d = ctx.p.desc(f["locals"][1])
    cell = ("in", "arg1")
    if d["k"] == "ref" and d["mut"]:
        r = ctx.run(fn, [mk("mref", cell, ())], env={cell: value})
        if r.guard is not T:
            raise Undecided("the removal of zeros doesn't always end")
        return r.env[cell]
    r = ctx.run(fn, [interp.ref_of(value) if d["k"] == "ref" else value])
    if r.guard is not T:
        raise Undecided("the removal of zeros doesn't always end")
    return r.ret


def check(ctx):
    with ctx.guardeds("Ingenico TLV"):
        q = searches_by_name(Parser(ctx, INGENICO, [f for f in (LAX,) if f in ctx.p.fns]))
        j = Judge(ctx, q)
        whole = is_ascii_atom(Slice(q.base, F, q.n))
        c = Case(q, whole)
        end = drop(Le(q.n, q.P))
        j.need("early", c, And(And(whole, q.ok), Not(end)), "parsing ends successfully before the end of the data")
        j.need("late", c, And(whole, And(Or(q.err, q.go), end)), "parsing doesn't end at the end of the data")
        nodes = constrain(field(ctx.p, q.value, "nodes"), q.ok)
        ctx.count("obligations")
        if nodes is not q.nodes.phi:
            if any(x.k == "seq" for x in leaves(nodes)) and not tainted(nodes):
                ctx.violation("result", "the result isn't the elements that were found: %s" % show(nodes, 4)[:300])
            elif cube_of(ctx, q.I, shortened(q, nodes), 20000):
                ctx.violation("result", "the result isn't all the elements that were found")
            else:
                ctx.undecided("result", "the result is of another form: %s" % show(nodes, 4)[:200])
        f = records(ctx, q)
        ctx.sample({"routine": q.rec.fn, "loop": q.rec.loc, "position": q.pos.name, "tag": show(f.tag, 5)[:300], "length digits": show(f.size, 5)[:400]})
    with ctx.guardeds("leading zeros"):
        trimming(ctx)
