"""C16: CVM lists and CVM results are laid out as specified."""
from spec.enums import ENUMS
from engine.interp import length_of
from .flags import Flag, expected, concrete
from .show import *
from .tags import decoder, key_of, uninterpreted
from .common import *

RULE = ("The summary of the CVM list's decoder over 8 + 2n bytes, with n unknown, is composed with the summary of its display. The rules "
        "must be repeated for every i below n, with the bytes 8 + 2i and 9 + 2i of the data and nothing else deciding what is shown for "
        "rule i; the text for each of the 256 values of either byte must be the one that the tables define. The amounts must be the "
        "big-endian numbers of bytes 0..4 and 4..8, and the condition for showing them must be that one of them isn't zero or some "
        "condition byte is in 6..9. For CVM results, the ranges explained for every value of each byte must be those of the table.")

TY = "emv::cvm_list::CardholderVerificationMethodList"
RESULTS = "emv::cvm_results::CardholderVerificationMethodResults"
METHODS = ENUMS["emv::cv_rule::cv_method::CvMethod"]["table"]
CONDITIONS = ENUMS["emv::cv_rule::cvm_condition::CvmCondition"]["table"]
NO_METHOD = "Unknown (likely issuer or payment system-specific)"
NO_CONDITION = "Unknown (likely payment system-specific)"
N = App("pairs", (), ("i", 0, 1 << 59))
BASE = raw_bytes().a[0]


def byte(i):
    return App("elem", (BASE, i if isinstance(i, V) else Int(i)), U8)


def big_endian(lo):
    v = Int(0)
    for i in range(4):
        v = Add(v, l_scale(byte(lo + i), 256 ** (3 - i)))
    return v


class List:
    def __init__(self, ctx):
        self.ctx = ctx
        self.dec = ctx.fn(decoder(TY))
        self.disp = ctx.display_fn(TY)
        if self.dec is None or self.disp is None:
            raise Undecided("missing anchors")
        self.r = ctx.run(self.dec, [Slice(BASE, F, Add(Add(N, N), Int(8)))])
        ok, val = ok_part(self.r.ret)
        ctx.count("obligations")
        c = cube_of(ctx, self.r.I, Not(ok))
        if c is not None:
            if tainted(ok) or any(a.a[0].startswith("phi") for a in apps(ok)):
                raise Undecided("which lists are accepted: %s" % show(ok, 4)[:200])
            ctx.violation("refuses", "%s refuses a list of 8 bytes and pairs" % ctx.loc(self.dec), str(c)[:300])
            raise Undecided("not every list is decoded")
        self.val = within(val, ok)
        self.decoded_rules()
        # padding isn't part of this property
        pads = {f: uninterpreted for f in ctx.p.fns if f == "util::num_dec_digits"}
        vals.coarse(COARSE)
        try:
            o = opaque_for(ctx.p, self.disp)
            o = {f: h for f, h in o.items() if not f.endswith("references_x_or_y_value")}
            o.update(pads)
            self.out = ctx.run(self.disp, [Sref(self.val), None, INDENT, SEV], opaque=o).out
        finally:
            vals.coarse(False)

    def decoded_rules(self):
        """Where the decoded value holds a list of structures, there must be one for each pair."""
        p = self.ctx.p
        for x in leaves(self.val):
            for fd in x.a[2] if x.k == "adt" else ():
                els = [s.a[1] for s in (fd.a[0] if fd.k == "seq" else ()) if s.k == "el"]
                els += [e.a[1] for s in (fd.a[0] if fd.k == "seq" else ()) if s.k == "rep" for e in s.a[4] if e.k == "el"]
                if not els or any(e.k != "adt" or not p.desc(e.a[0]).get("path", "").startswith("emv::") for e in els):
                    continue
                self.ctx.count("obligations")
                n = length_of(fd)
                if n is N or BOT in leaves(n) or tainted(n):
                    continue
                g = And(leaf_guard(self.val, lambda y: y is x), differ(n, N) or F)
                c = cube_of(self.ctx, self.r.I, g)
                if c is not None:
                    self.ctx.violation("rules:decoded", "%s keeps only %s of %s rules" % (self.ctx.loc(self.dec), show(n, 3)[:100], show(N, 3)), str(c)[:300])
                    raise Undecided("not every rule is decoded")

    def bad(self, key, msg, detail=None):
        self.ctx.violation(key, "%s %s" % (self.ctx.loc(self.disp), msg), detail)

    def check(self):
        toks = flatten(self.out)
        rules = [t for t in toks if isinstance(t, Tok) and t.kind == "rep" and tabs_of(t.v) is None]
        if not rules:
            if unresolved(self.out):
                raise Undecided("the output has no closed form: %s" % sorted(unresolved(self.out)))
            self.bad("rules", "doesn't display the rules")
            return
        k = toks.index(rules[0])
        for t in rules:
            g, bv, lo, hi, body = t.v.a
            if hi is N and len(rules) == 1:
                continue
            self.ctx.count("obligations")
            if tainted(g, hi) or unresolved(Seq((El(g, hi),))):
                raise Undecided("the number of rules: %s" % show(hi, 3)[:200])
            if hi is not N and cube_of(self.ctx, self.r.I, And(g, Not(i_eq(hi, N)))) is not None:
                self.bad("rules:count", "displays only %s of %s rules" % (show(hi, 3)[:100], show(N, 3)), show(g, 4)[:300])
                return
        if len(rules) > 1:
            raise Undecided("several repetitions")
        with self.ctx.guardeds("the amounts"):
            self.amounts(toks[:k])
        with self.ctx.guardeds("the rules"):
            self.rules(rules[0].v)
        self.ctx.count("obligations")
        if any(isinstance(t, str) and t.strip() or isinstance(t, Tok) and t.kind != "event" for t in toks[k + 1:]):
            raise Undecided("there is output after the rules")

    def amounts(self, toks):
        ctx = self.ctx
        x, y = big_endian(0), big_endian(4)
        want = Or(Or(Not(i_eq(x, Int(0))), Not(i_eq(y, Int(0)))), lit(self.any_cond(), 2))
        label, seen = "", {}
        for t in toks:
            if isinstance(t, str):
                label = t
            elif t.kind == "text":
                label = t.v.a[0] if t.v.a[0].strip() else label
                if "alue:" in label and t.v.a[0].strip() == label.strip() and label.strip() in ("X Value:", "Y Value:"):
                    self.condition(label.strip(), t.g, want)
            elif t.kind == "fmt":
                name = label.strip().split(" ")[0]
                seen[name] = t
        for name, v, lo in (("X", x, 0), ("Y", y, 4)):
            ctx.count("obligations", 8)
            t = seen.get(name)
            if t is None:
                if tainted(*[t.v for t in toks if isinstance(t, Tok) and t.kind == "fmt"]):
                    raise Undecided("the amounts")
                self.bad("amount:" + name, "doesn't show the amount %s" % name)
                continue
            self.condition("the amount " + name, t.g, want)
            got = t.v.a[1]
            if t.v.a[0] != "display":
                self.bad("amount:" + name, "shows the amount %s in another notation" % name)
            if got is not v:
                d = differ(got, v)
                if d is None or tainted(got):
                    raise Undecided("the amount %s is %s" % (name, show(got, 4)[:200]))
                c = cube_of(ctx, self.r.I, And(d, t.g))
                if c is not None:
                    self.bad("amount:" + name, "shows something other than the big-endian number in bytes %d to %d as the amount %s" % (lo, lo + 3, name), show(got, 5)[:400])

    def any_cond(self):
        """Whether some rule's condition refers to an amount, as the term that a search over the rules gives."""
        bv = App("bv", (1,), POS)
        a = byte(Add(Add(bv, bv), Int(9)))
        return App("any", (bv, F, N, mk("lam", lit(a, s_of(a, [6, 7, 8, 9])))), BOOL)

    def condition(self, what, g, want):
        ctx = self.ctx
        ctx.count("obligations", 4)
        if g is want:
            return
        d = Or(And(g, Not(want)), And(want, Not(g)))
        try:
            if cube_of(ctx, self.r.I, d) is None:
                return
        except Undecided:
            pass
        # which byte values a search over the rules looks for
        m = {}
        own = set()
        for a in apps(g):
            if a.a[0] == "any":
                m[a] = self.hits(a)
            elif a.a[0] == "bv":
                own.add(a)
        inputs = {byte(i): 0 for i in range(8)}
        for a in apps(g):
            if a in m or a in inputs or a.a[0] in ("bv", "raw", "pairs", "le0") or any(a in apps(b) for b in m):
                continue
            if apps(a) & set(inputs) and not tainted(a):
                continue
            raise Undecided("%s is shown depending on %s" % (what, show(a, 4)[:200]))
        cases = [dict(inputs)] + [dict(inputs, **{}) | {byte(i): v} for i in range(8) for v in (1, 128, 255)]
        cases += [dict.fromkeys(inputs, 255), dict.fromkeys(inputs, 1)]
        for case in cases:
            zero = not any(case.values())
            for conds in [set()] + [{c} for c in range(256)]:
                if not zero and len(conds) and conds != {0}:
                    continue
                s = dict(case)
                s.update({a: 1 if h & conds else 0 for a, h in m.items()})
                got = at(g, s)
                if got not in (T, F):
                    raise Undecided("%s is shown depending on %s" % (what, show(got, 4)[:200]))
                exp = not zero or bool(conds & {6, 7, 8, 9})
                if (got is T) != exp:
                    self.bad("condition", "%s %s although %s" % (
                        "shows" if got is T else "doesn't show", what,
                        "both amounts are zero and no rule refers to them (condition %s)" % (sorted(conds) or "none") if not exp else
                        "a rule's condition is %02X" % min(conds) if zero else "an amount isn't zero: bytes %s" % " ".join("%02X" % case[byte(i)] for i in range(8))))
                    return
        if m.keys() - {self.any_cond()}:
            raise Undecided("%s is shown if %s" % (what, show(g, 4)[:200]))
        raise Undecided("%s is shown if %s" % (what, show(g, 4)[:200]))

    def hits(self, a):
        bv, lo, hi, lam = a.a[1]
        cond = byte(Add(Add(bv, bv), Int(9)))
        body = lam.a[0]
        if lo is not F or hi is not N:
            if tainted(hi) or unresolved(Seq((El(T, hi),))):
                raise Undecided("a search over %s rules" % show(hi, 3)[:100])
            self.bad("condition:all", "looks for conditions only in some of the rules")
            raise Undecided("a search over some rules")
        out = set()
        for c in range(256):
            v = at(body, {cond: c})
            if v not in (T, F):
                raise Undecided("a search for %s" % show(body, 4)[:200])
            if v is T:
                out.add(c)
        return out

    def rules(self, rep):
        ctx = self.ctx
        g, bv, lo, hi, body = rep.a
        ctx.count("obligations", 3)
        if g is not T:
            self.bad("rules:some", "displays the rules only if %s" % show(g, 3)[:200])
            return
        if lo is not F or hi is not N:
            d = Sub(hi, N)
            if tainted(hi) or unresolved(Seq(body)):
                raise Undecided("the number of rules: %s" % show(hi, 3)[:200])
            self.bad("rules:count", "displays the rules %s to %s of %s" % (show(lo, 3)[:60], show(hi, 3)[:60], show(N, 3)))
            return
        seq = Seq(tuple(body))
        if unresolved(seq):
            raise Undecided("the rules have no closed form: %s" % sorted(unresolved(seq)))
        two = Add(bv, bv)
        a, b = byte(Add(two, Int(8))), byte(Add(two, Int(9)))
        inner = {x for x in apps(seq) if x.a[0] == "elem" and x.a[1][0] is BASE}
        for x in inner - {a, b}:
            self.bad("rules:bytes", "shows byte %s of the data for the rule with index %s" % (show(x.a[1][1], 3), show(bv, 2)))
            return
        for x in apps(seq) - inner - {bv, INDENT}:
            if bv not in apps(x) and x.a[0] == "bv" or x.a[0] in ("raw", "pairs"):
                continue
            if x.a[0] in ("le0", "rem") and apps(x) - {x} <= {bv, INDENT, N}:
                continue
            raise Undecided("the rules depend on %s" % show(x, 3)[:200])
        for i, n in ((0, 5), (0, 1), (1, 2), (1, 9), (8, 9)):
            q = at(seq, {bv: i, N: n})
            ai, bi = byte(8 + 2 * i), byte(9 + 2 * i)
            for va, vb in [(n, 0) for n in range(256)] + [(n, 9) for n in range(256)] + [(1, n) for n in range(256)] + [(0x5F, n) for n in range(256)]:
                if (i, n) != (0, 5) and (va not in (0x1F, 0x41) and vb not in (0, 3)):
                    continue
                ctx.count("obligations")
                text = squeeze(canon(at(q, {ai: va, bi: vb}), lambda x: None))
                want = squeeze("<+0>CVM %d:\n<+1>Method: %s\n<+1>Condition: %s\n<+1>If Unsuccessful: %s\n" % (
                    i + 1, METHODS.get(va & 0x3F, NO_METHOD), CONDITIONS.get(vb, NO_CONDITION), "Next CVM" if va & 0x40 else "Fail"))
                if text != want:
                    x, y = next((x, y) for x, y in zip(text.split("\n") + [""], want.split("\n") + [""]) if x != y)
                    self.bad("rule", "shows %r instead of %r for rule %d of %d with the bytes %02X %02X" % (x, y, i + 1, n, va, vb), text)
                    return
        ctx.sample({"rules": "0..%s" % show(hi, 2), "bytes": [show(a, 3), show(b, 3)]})


def tabs_of(rep):
    """The bounds of a repetition of tabs only, or None."""
    body = rep.a[4]
    if len(body) == 1 and body[0].k == "el" and body[0].a[1] is Str("\t"):
        return rep.a[2], rep.a[3]
    return None


def results(ctx):
    fl = Flag(ctx, RESULTS)
    for i in range(3):
        for n in range(256):
            ctx.count("obligations")
            want = expected(RESULTS, i, n)
            base = {j: 0 for j in range(3) if j != i}
            m = {fl.atoms[j]: v for j, v in base.items()}
            m[fl.atoms[i]] = n
            ok = at(fl.cond, m)
            if want is None:
                if ok is T:
                    ctx.violation("results:accepts", "CVM results with byte %d = %02X are accepted" % (i, n))
                continue
            if ok is not T:
                if ok is F:
                    ctx.violation("results:refuses", "CVM results with byte %d = %02X are refused" % (i, n))
                    return
                raise Undecided("acceptance of byte %d = %02X" % (i, n))
            got = [concrete(ctx, e) for e in fl.entries(i, n, base)]
            if any(None in x for x in got):
                raise Undecided("the explanations of byte %d = %02X" % (i, n))
            texts = [x[3] for x in want]
            rest = [x[3] for j in base for x in expected(RESULTS, j, 0)]
            if sorted(x[3] for x in got) != sorted(texts + rest):
                ctx.violation("results:%d" % i, "CVM results with byte %d = %02X are explained as %s instead of %s" % (
                    i, n, [x[3] for x in got], texts + rest))
                return


def check(ctx):
    with ctx.guardeds("CVM lists"):
        List(ctx).check()
    with ctx.guardeds("CVM results"):
        results(ctx)
