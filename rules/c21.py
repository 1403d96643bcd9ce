"""C21: hex input is decoded digit pair by digit pair, in order."""
import time

from engine.std import is_ascii_atom
from .c04 import LAX
from .parsers import *
from .tags import uninterpreted

RULE = ("The decoder is summarised as a loop over a position and the bytes so far. An iteration must look for the next two bytes that are hex "
        "digits (the searched class of bytes is compared with 0-9 A-F a-f), stop when there's no such pair, append exactly one byte, whose "
        "decision diagram over the two digits is evaluated on all 22 x 22 pairs, and go on behind the second digit; the result must be the "
        "bytes so far. Loops that take one byte at a time must be the two-state machine of a pending digit. The strict decoder's condition "
        "for success, over which classes of characters occur, the length's parity and other terms, must be that nothing but hex digits "
        "occurs and the length is even, and its result the tolerant decoder's result for the same text.")

DIGITS = {c: int(chr(c), 16) for c in b"0123456789abcdefABCDEF"}


def name_of(c):
    return repr(chr(c)) if 32 <= c < 127 else "byte 0x%02x" % c


class Lax:
    def __init__(self, ctx, r):
        self.ctx, self.r, self.p = ctx, r, ctx.p
        self.base = App("arg1", (), "str")
        self.n = App("len", (self.base,), LEN)

    def byte(self, i):
        return element(Slice(self.base, F, self.n), i)

    def check(self):
        found = []
        for rec in self.r.I.loops:
            for ph in rec.phis:
                if ph.mode == "seq" and ph.back.k == "seq" and any(s.k == "el" for s in ph.back.a[0]):
                    found.append((rec, ph))
        if len(found) != 1:
            raise Undecided("the decoder isn't a loop that collects bytes")
        self.rec, self.out = found[0]
        if self.out.init != Seq():
            raise Undecided("the decoder doesn't start with nothing")
        segs = self.out.back.a[0]
        if segs[0].k != "pre" or any(s.k != "el" for s in segs[1:]):
            raise Undecided("bytes of another form")
        self.els = [(s.a[0], s.a[1]) for s in segs[1:]]
        if self.searching():
            pass
        elif not self.machine():
            raise Undecided("the decoder has another form")
        self.result()

    def result(self):
        """Nothing but the collected bytes is returned."""
        ctx = self.ctx
        ctx.count("obligations")
        v = self.r.ret
        if v is self.out.phi:
            return
        for x in leaves(v):
            if x is BOT or x is self.out.phi:
                continue
            g = And(self.r.guard, drop(leaf_guard(v, lambda y: y is x)) if v.k == "dd" else T)
            if x.k == "seq" and x.a[0] and x.a[0][0] is self.out.phi.a[0][0] and all(s.k == "el" for s in x.a[0][1:]):
                for s in x.a[0][1:]:
                    h = And(g, s.a[0])
                    if cube_of(ctx, self.r.I, h) is not None:
                        if tainted(h):
                            raise Undecided("a result of another form")
                        ctx.violation("extra", "decoding ends with another byte: %s" % show(s.a[1], 3)[:200])
            elif x == Seq() and cube_of(ctx, self.r.I, g) is not None and not tainted(g):
                ctx.violation("result", "the decoded bytes are dropped when %s" % show(g, 5)[:300])
            else:
                raise Undecided("a result of another form: %s" % show(x, 3)[:200])

    # ---- two searches per iteration

    def searching(self):
        ctx, I = self.ctx, self.r.I
        terms = apps(Tup((self.rec.back_guard,) + tuple(constrain(ph.back, self.rec.back_guard) for ph in self.rec.phis if ph.mode != "seq")))
        firsts = [a for a in terms if a.a[0] == "ffirst"]
        pos = [ph for ph in self.rec.phis if ph.mode == "int" and any(a.a[1][1] is ph.phi for a in firsts)]
        if len(pos) != 1:
            return False
        P = pos[0].phi
        if pos[0].init is not F:
            if pos[0].init.k == "int":
                ctx.violation("start", "decoding starts at character %d" % pos[0].init.a[0])
            raise Undecided("an unknown start")
        one = [a for a in firsts if a.a[1][1] is P and a.a[1][2] is self.n]
        if len(one) != 1:
            return False
        one = one[0]
        bv, lo, hi, pred = one.a[1]
        self.digits(pred, bv, "first")
        has1 = lit(App("any", one.a[1], BOOL), 2)
        after = l_add(one, T)
        two = [a for a in firsts if a is not one]
        if not two:
            return False
        if len(two) != 1 or two[0].a[1][2] is not self.n:
            raise Undecided("another number of searches")
        two = two[0]
        if two.a[1][1] is not after:
            ctx.count("obligations")
            if two.a[1][1] is P or two.a[1][1] is one:
                ctx.violation("second", "the second digit isn't looked for behind the first one")
            raise Undecided("the second digit is looked for elsewhere: %s" % show(two.a[1][1], 4)[:200])
        self.digits(two.a[1][3], two.a[1][0], "second")
        has2 = lit(App("any", two.a[1], BOOL), 2)
        inside = i_lt(P, self.n)
        want = And(And(inside, has1), has2)
        # a search that succeeds starts inside
        sane = And(Or(inside, Not(has1)), Or(i_lt(after, self.n), Not(And(has1, has2))))
        for has, i in ((has1, one), (has2, two)):
            b = self.byte(i)
            sane = And(sane, Or(Not(has), lit(b, s_of(b, tuple(DIGITS)))))
        go = And(self.rec.back_guard, sane)
        for a, b, what in ((And(want, sane), go, "decoding stops although there is another pair of digits"),
                           (go, And(want, sane), "decoding goes on without another pair of digits")):
            ctx.count("obligations")
            c = And(a, Not(b))
            if c is not F:
                if self.unknown(c, P):
                    raise Undecided("the loop's condition: %s" % show(c, 5)[:500])
                cube = cube_of(ctx, I, c)
                if cube is not None:
                    ctx.violation("pairs", "%s: %s" % (what, show(c, 5)[:300]), {"where": self.rec.loc})
        ctx.count("obligations")
        back = constrain(pos[0].back, go)
        if back is not l_add(two, T):
            if any(tainted(x) for x in leaves(back)) or not all(x.k in ("app", "lin", "int") for x in leaves(back)):
                raise Undecided("the next position")
            ctx.violation("next", "decoding doesn't go on behind the second digit but at %s" % show(back, 4)[:200], {"where": self.rec.loc})
        # the bytes
        self.pair(go, self.byte(one), self.byte(two))
        ctx.sample({"loop": self.rec.loc, "first digit": show(one, 3)[:200], "second digit": show(two, 3)[:200], "digit class": "%d bytes" % len(DIGITS)})
        return True

    def unknown(self, c, P):
        """Whether a condition depends on something else than the position, the text and the number of bytes so far (each number is
        reached: one byte is added at a time)."""
        own = {P} | apps(self.out.phi)
        whole = [a for a in apps(c) if a.a[0] == "len" and a.a[1] and a.a[1][0] in (self.out.phi, self.out.phi.a[0][0])]
        return any(a.a[0] in UNRESOLVED and a is not P and not (a in own and whole) for a in apps(c))

    def digits(self, pred, bv, which):
        """Whether a search looks for hex digits."""
        ctx = self.ctx
        ctx.count("obligations")
        e = self.byte(bv)
        for c in range(256):
            v = drop(at(pred.a[0], {e: c}))
            if v not in (T, F):
                raise Undecided("a search for something else: %s" % show(pred, 3)[:200])
            if (v is T) != (c in DIGITS):
                ctx.violation("digits:" + which, "the %s digit of a pair %s %s" % (which, "may be" if v is T else "is never", name_of(c)))
                return

    def pair(self, go, h, l, stored=None):
        """One byte, the first digit high, for all pairs of digits."""
        ctx = self.ctx
        for a in sorted(DIGITS):
            for b in sorted(DIGITS):
                ctx.count("obligations")
                m = {h: DIGITS[a] if stored else a, l: b}
                m = {k: Int(v) for k, v in m.items()}
                k = drop(subst(go, m))
                if k is F:
                    continue
                got = []
                for g, v in self.els:
                    g = drop(subst(g, m))
                    if And(g, k) is F:
                        continue
                    if And(k, Not(g)) is not F:
                        raise Undecided("bytes under other conditions")
                    got.append(constrain(subst(v, m), k))
                if any(x.k != "int" for x in got):
                    raise Undecided("bytes of another form: %s" % [show(x, 3)[:100] for x in got])
                got = [x.a[0] for x in got]
                if got != [DIGITS[a] * 16 + DIGITS[b]]:
                    ctx.violation("pair", "the digits %s%s become %s" % (chr(a), chr(b), " and ".join("0x%02X" % x for x in got) or "nothing"),
                                  {"where": self.rec.loc})
                    return

    # ---- one byte per iteration

    def machine(self):
        ctx, I = self.ctx, self.r.I
        pending = [ph for ph in self.rec.phis if ph.mode == "val"]
        pos = [ph for ph in self.rec.phis if ph.mode == "int"]
        if len(pos) != 1 or len(pending) != 1 or len(self.rec.phis) != 3:
            return False
        P, pending = pos[0].phi, pending[0]
        if pos[0].init is not F:
            if pos[0].init.k == "int":
                ctx.violation("start", "decoding starts at character %d" % pos[0].init.a[0])
            raise Undecided("an unknown start")
        state = [a for a in apps(pending.phi) if a.a[0] == "discr"]
        stored = [a for a in apps(pending.phi) if a.a[0].startswith("phi@")]
        if len(state) != 1 or len(stored) != 1 or pending.init.k != "adt" or pending.init.a[2]:
            return False
        D, H, none = state[0], stored[0], pending.init.a[1]
        if none != 0:
            return False
        go = self.rec.back_guard
        firsts = [a for a in apps(constrain(pos[0].back, go)) if a.a[0] == "ffirst"]
        if not firsts:
            at_, want, domain = P, i_lt(P, self.n), range(256)
            has = T
        elif len(firsts) == 1 and firsts[0].a[1][1] is P and firsts[0].a[1][2] is self.n:
            at_, domain = firsts[0], sorted(DIGITS)
            self.digits(at_.a[1][3], at_.a[1][0], "next")
            has = lit(App("any", at_.a[1], BOOL), 2)
            want = And(i_lt(P, self.n), has)
        else:
            return False
        sane = Or(i_lt(P, self.n), Not(has))
        for a, b, what in ((want, go, "decoding stops although there may be more digits"), (go, want, "decoding goes on without more digits")):
            ctx.count("obligations")
            c = And(And(a, Not(b)), sane)
            if c is not F:
                if self.unknown(c, P):
                    raise Undecided("the loop's condition: %s" % show(c, 5)[:500])
                if cube_of(ctx, I, c) is not None:
                    ctx.violation("pairs", "%s: %s" % (what, show(c, 5)[:300]), {"where": self.rec.loc})
        ctx.count("obligations")
        if constrain(pos[0].back, go) is not l_add(at_, T):
            raise Undecided("the next position")
        e = self.byte(at_)
        for h in [None] + list(range(16)):
            for c in domain if h in (None, 5) else sorted(DIGITS):
                ctx.count("obligations")
                m = {D: F if h is None else T, e: Int(c)}
                if h is not None:
                    m[H] = Int(h)
                k = drop(subst(go, m))
                got, bad = [], False
                for g, v in self.els:
                    g = drop(subst(g, m))
                    if And(g, k) is F:
                        continue
                    bad = bad or And(k, Not(g)) is not F
                    got.append(constrain(subst(v, m), k))
                after = constrain(subst(pending.back, m), k)
                if bad or any(x.k != "int" for x in got) or after.k != "adt" or any(x.k != "int" for x in after.a[2]):
                    raise Undecided("a step of another form")
                got, after = [x.a[0] for x in got], after.a[2][0].a[0] if after.a[2] else None
                d = DIGITS.get(c)
                need = ([], h) if d is None else ([], d) if h is None else ([h * 16 + d], None)
                if (got, after) != need:
                    ctx.violation("step", "%s%s yields %s and leaves %s, instead of %s and %s"
                                  % (name_of(c), "" if h is None else " after the digit %X" % h, got, "nothing" if after is None else "the digit %X" % after,
                                     need[0], "nothing" if need[1] is None else "the digit %X" % need[1]), {"where": self.rec.loc})
                    return True
        ctx.sample({"loop": self.rec.loc, "digit": show(at_, 3)[:200], "states": 17})
        return True


WORDS = ["".join("dx"[n >> i & 1] for i in range(k)) for k in range(5) for n in range(2 ** k)] + ["ddddd", "dddddd", "xdxdxdxd", "dudd", "udd", "du", "uu"]


def bounded(ctx, fn, strict):
    """All texts of some shapes: a shape says which characters are digits (d), other ASCII characters (x) or two bytes of UTF-8 (u); the
    characters themselves are unknown.  Returns whether everything could be compared."""
    base = App("text", (), "str")
    sure, lost, start = True, 0, time.time()
    for w in WORDS:
        if lost > 3 or time.time() - start > 40:
            return False
        spots, shape = [], []
        g = T
        for c in w:
            for part in (("u1", "u2") if c == "u" else (c,)):
                e = App("elem", (base, Int(len(spots))), U8)
                own = {"d": tuple(DIGITS), "x": tuple(c for c in range(128) if c not in DIGITS), "u1": tuple(range(0xC2, 0xE0)), "u2": tuple(range(0x80, 0xC0))}[part]
                g = And(g, lit(e, s_of(e, own)))
                spots.append((e, own))
                shape.append(part)
        n = len(spots)
        try:
            r = ctx.run(fn, [Slice(Arr(e for e, _ in spots), F, Int(n))], guard=g, short=40, limit=5)
        except Undecided:
            sure = False
            lost += 1
            continue
        ctx.count("obligations")
        if not settle(ctx, fn, strict, w, shape, spots, g, r):
            sure = False
        if ctx.violations:
            break
    return sure


def settle(ctx, fn, strict, w, shape, spots, g, r):
    digits = [e for (e, _), s in zip(spots, shape) if s == "d"]
    if strict:
        ok, val = ok_part(r.ret)
        ok = drop(And(r.guard, ok))
    else:
        ok, val = r.guard, r.ret
    refuse = strict and ("x" in shape or "u1" in shape or len(digits) % 2 == 1)
    pairs = list(zip(digits[::2], digits[1::2]))
    conds, els = [ok], []
    for x in leaves(val):
        if x is BOT:
            continue
        if x.k == "slice":
            x = seq_of_view(x)
        k = drop(And(ok, leaf_guard(val, lambda y, x=x: y is x))) if val.k == "dd" else ok
        if x is None or x.k != "seq" or any(s.k != "el" for s in x.a[0]):
            return False
        for s in x.a[0]:
            els.append((And(k, s.a[0]), s.a[1]))
            conds.append(els[-1][0])
    if any(tainted(c) or apps_beyond(c, spots) for c in conds) or any(tainted(v) or apps_beyond(v, spots) for _, v in els):
        return False
    tries = [{}]
    for c in conds:
        for k in (And(g, c), And(g, Not(c))):
            m = model(k, dict(spots))
            if m is not None:
                tries.append(m)
    pins = [{h: a, l: b} for h, l in pairs for a in DIGITS for b in DIGITS] if not refuse and els else []
    for m in tries + pins:
        m = {e: Int(m.get(e, own[0])) for e, own in spots}
        good = drop(subst(ok, m))
        got = [subst(v, m) for c, v in els if drop(subst(c, m)) is T]
        if good not in (T, F) or any(v.k != "int" for v in got) or any(drop(subst(c, m)) not in (T, F) for c in conds):
            return False
        got = [v.a[0] for v in got] if good is T else None
        want = None if refuse else [DIGITS[m[h].a[0]] * 16 + DIGITS[m[l].a[0]] for h, l in pairs]
        if got != want:
            text = bytes(m[e].a[0] for e, _ in spots).decode("utf-8", "replace")
            say = lambda x: "refused" if x is None else "decoded to %s" % (" ".join("%02X" % v for v in x) or "nothing")
            ctx.violation(("strict:" if strict else "text:") + w, "%r is %s instead of %s" % (text, say(got), say(want)), {"where": ctx.loc(fn)})
            return True
    return True


def apps_beyond(v, spots):
    return apps(v) - {e for e, _ in spots} - {x for e, _ in spots for x in apps(e)}


def seq_of_view(x):
    from engine.std import seq_of
    return seq_of(x)


def model(c, own):
    """Bytes that fulfil a condition."""
    m = {}
    while c.k == "dd":
        a = c.a[0]
        for v in own.get(a, ()):
            d = drop(subst(c, {a: Int(v)}))
            if d is not F:
                m[a] = v
                c = d
                break
        else:
            return None
    return m if c is T else None


def check(ctx):
    for fn, proof, strictly in ((LAX, lambda: tolerant(ctx), False), (HEX, lambda: strict(ctx), True)):
        what = "strict decoding" if strictly else "tolerant decoding"
        with ctx.guardeds(what):
            if not ctx.fn(fn):
                continue
            before = len(ctx.violations)
            try:
                proof()
                continue
            except Undecided as e:
                why = str(e)
            if len(ctx.violations) == before:
                bounded(ctx, fn, strictly)
            if len(ctx.violations) == before:
                ctx.undecided(what, why)


def tolerant(ctx):
    Lax(ctx, ctx.run(LAX, limit=30)).check()


def strict(ctx):
    p = ctx.p
    r = ctx.run(HEX, None, opaque={f: uninterpreted for f in (LAX,) if f in p.fns})
    base = App("arg1", (), "str")
    n = App("len", (base,), LEN)
    view = Slice(base, F, n)
    ok, val = ok_part(r.ret)
    ok = drop(And(r.guard, ok))
    err = drop(And(r.guard, Not(ok)))
    ctx.count("obligations")
    # which characters occur
    chars = App("chars", (view,), "[char]")
    nc = App("len", (chars,), LEN)
    sets = {}

    def quantified(a):
        """(class of bytes, class of other characters) of an existence term over the whole text."""
        if a.a[0] == "is_ascii" and a.a[1] == (view,):
            return False, frozenset(range(128, 256)), frozenset(("other",))
        if a.a[0] != "any":
            return None
        bv, lo, hi, pred = a.a[1]
        if lo is not F:
            return None
        if hi is n:
            e = element(view, bv)
            top = 256
        elif hi is nc:
            e = element(Slice(chars, F, nc), bv)
            top = 128
        else:
            return None
        s = set()
        for c in range(top):
            v = drop(at(pred.a[0], {e: c}))
            if v not in (T, F):
                return None
            if v is T:
                s.add(c)
        if hi is nc:
            rest = constrain(drop(pred.a[0]), i_le(Int(128), e))
            if rest is T:
                s.add("other")
            elif rest is not F:
                some = {drop(at(rest, {e: c})) for c in range(128, 0x300)}
                if some != {T, F}:
                    return None
                s.add("some")  # some of the other characters
        return True, s
    terms = apps(ok)
    q = {}
    for a in terms:
        x = quantified(a)
        if x is None:
            continue
        if x[0] is False:
            q[a] = (False, frozenset(range(128, 256)))
        else:
            q[a] = (True, frozenset(x[1]))
    # classes of bytes that all these terms treat alike
    groups = {}
    for c in range(128):
        key = (c in DIGITS,) + tuple(c in s for _, s in q.values())
        groups.setdefault(key, set()).add(c)
    atoms = {}

    def exists(c):
        for i, (key, g) in enumerate(sorted(groups.items(), key=str)):
            if c in g:
                return lit(App("occurs", (Int(min(g)),), BOOL), 2)

    high = lit(App("occurs", (Int(128),), BOOL), 2)
    rep = [min(g) for g in groups.values()]
    m = {}
    for a, (pos, s) in q.items():
        v = F
        for c in rep:
            if c in s:
                v = Or(v, exists(c))
        parts = {x for x in s if not isinstance(x, int)} | {x for x in s if isinstance(x, int) and x >= 128}
        if parts:
            whole = "other" in parts or parts == set(range(128, 256))
            v = Or(v, high if whole else And(high, lit(App("occurs", (Int(129), a), BOOL), 2)))
        m[a] = v if pos else Not(v)
    cond = drop(subst(ok, m))
    bad = high
    for c in rep:
        if c not in DIGITS:
            bad = Or(bad, exists(c))
    odd = Not(i_eq(muldiv("Rem", n, Int(2), 0, 1), F))
    want = And(Not(bad), Not(odd))
    some = F
    for c in rep:
        some = Or(some, exists(c))
    sane = And(Or(Or(some, high), i_eq(n, F)), Or(Not(Or(some, high)), i_le(T, n)))
    for a, b, what in ((cond, want, "accepted"), (want, cond, "refused")):
        ctx.count("obligations")
        c = And(And(a, Not(b)), sane)
        if c is F:
            continue
        if tainted(c):
            raise Undecided("the condition of strict decoding")
        known = {x for x in apps(c) if x.a[0] == "occurs"} | apps(odd) | {n, base}
        strange = apps(c) - known - {x for k in known for x in apps(k)}
        cube = cube_of(ctx, r.I, c)
        if cube is None:
            continue
        # certain only if it doesn't depend on terms that aren't understood
        if strange:
            for x in strange:
                if x.a[0] not in ("le0", "rem", "div"):
                    raise Undecided("the condition of strict decoding: %s" % show(x, 3)[:200])
        names = {x: sorted(next(g for g in groups.values() if x.a[1][0].a[0] in g)) if x.a[1][0].a[0] < 128 else None for x in known if x.a[0] == "occurs" and len(x.a[1]) == 1}
        say = []
        for x, g in names.items():
            v = constrain_to(c, x)
            if v is T:
                say.append("with " + (name_of(g[0]) if g else "a character that isn't ASCII"))
            elif v is F:
                say.append("without " + (name_of(g[0]) if g else "characters that aren't ASCII"))
        if And(c, Not(odd)) is F:
            say.append("of odd length")
        elif And(c, odd) is F:
            say.append("of even length")
        ctx.violation("strict:" + what, "strict decoding %s some text %s" % ("accepts" if what == "accepted" else "refuses", ", ".join(sorted(say))), {"where": ctx.loc(HEX)})
    # the bytes
    ctx.count("obligations")
    for x in leaves(constrain(val, ok)):
        if x is BOT:
            continue
        y = content(x)
        if y and len(y) == 1 and y[0].a[0].k == "app" and y[0].a[0].a[0].startswith("call:" + LAX):
            src = y[0].a[0].a[1][0]
            whole = y[0].a[1] is F and y[0].a[2] is App("len", (y[0].a[0],), LEN)
            if src is view and whole:
                continue
            if src.k == "slice" and src.a[0] is base or not whole:
                ctx.violation("bytes", "strict decoding yields only a part: %s" % show(x, 5)[:200])
                continue
        raise Undecided("the strict decoder's bytes: %s" % show(x, 5)[:300])


def constrain_to(c, x):
    a = lit(x, 2)
    return T if And(c, Not(a)) is F else F if And(c, a) is F else None
