"""C28: the bit diagram connects every explanation with its bit column."""
from spec.flags import FLAGS
from .show import *

RULE = ("The output summary of each bitflag display is a closed form over an arbitrary list of explained ranges: the line of binary digits, a "
        "header line and one line per range. The column of bit b of an N-bit value is (N-1-b) plus one for each whole byte left of it. For every "
        "offset, the summary of a range's line must be as wide up to its corner as the column of its offset, with an arm in the column of "
        "bit b exactly when some range starts at b, all symbolically over the other ranges; by induction over the list, every segment of the header "
        "line must start at the column of its range and end at that of its last bit, for every pair of neighbouring fields; the lines must be "
        "printed from the least significant range to the most significant one, and all lines be indented alike.")

INFO = "get_bit_display_information"
REPR = "get_binary_representation"


class Ragged(Exception):
    """The text's width depends on something."""

    def __init__(self, g):
        self.g = g


def column(n, b):
    return (n - 1 - b) + (n - 1 - b) // 8


def pieces(seq):
    """(guard, text) in order for a sequence without repetitions; events are left out."""
    out = []

    def leaf_pieces(g, v, kind="char"):
        for x in leaves(v):
            if x is BOT:
                continue
            h = And(g, leaf_guard(v, lambda y: y is x))
            if h is F:
                continue
            t = None
            if x.k == "str":
                t = x.a[0]
            elif x.k == "int":
                t = chr(x.a[0]) if kind == "char" else str(x.a[0])
            out.append((h, t if t is not None else x))
    for t in flatten(seq):
        if isinstance(t, str):
            out.append((T, t))
        elif t.kind == "event":
            continue
        elif t.kind == "fmt":
            kind, v, opts = t.v.a
            s = render_piece(t.v)
            if s is not None:
                out.append((t.g, s))
            elif kind in ("display", "char") and opts is None and v.k == "dd":
                leaf_pieces(t.g, v, kind)
            else:
                out.append((t.g, t.v))
        elif t.kind in ("text", "dd", "int"):
            leaf_pieces(t.g, t.v)
        else:
            out.append((t.g, t.v))
    return out


def cells(ps):
    """The characters of guarded pieces, as values per column; stops at the first piece that isn't text."""
    out, rest, pend, union = [], None, [], F
    for i, (g, t) in enumerate(ps):
        if not isinstance(t, str):
            if pend:
                raise Ragged(union)
            return out, ps[i:]
        if And(union, g) is not F:
            raise Ragged(union)
        pend.append((g, t))
        union = Or(union, g)
        if union is T:
            if len({len(x) for _, x in pend}) != 1:
                raise Ragged(pend[0][0])
            for j in range(len(pend[0][1])):
                v = BOT
                for h, x in pend:
                    v = join(Not(h), v, h, Str(x[j])) if v is not BOT else smap(lambda b, x=x: Str(x[j]) if b is T else BOT, h)
                out.append(v)
            pend, union = [], F
    if pend:
        raise Ragged(union)
    return out, []


class Diagram:
    def __init__(self, ctx, ty, fn):
        self.ctx, self.ty, self.fn = ctx, ty, fn
        self.short = ty.split("::")[-1]
        self.n = FLAGS[ty][0] * 8
        self.fields = sorted({(m.bit_length() - 1 + (FLAGS[ty][0] - b - 1) * 8, bin(m).count("1")) for b, m, _, _, _ in FLAGS[ty][1]}, reverse=True)
        self.r = summary(ctx, fn)
        if self.r.out.k != "seq" or unresolved(self.r.out):
            raise Undecided("the output has no closed form: %s" % sorted(unresolved(self.r.out)))
        self.out = expand(self.r.out, {INDENT: 2})
        self.list = None
        for a in sorted(apps(self.out), key=lambda a: a.id):
            if a.a[0] == "elem.explanation":
                self.list = a.a[1][0]
        if self.list is None:
            ctx.violation(self.short + ":explanation", "%s doesn't display the explanations" % ctx.loc(fn))
            raise Undecided("no explanations")
        self.len = App("len", (self.list,), LEN)

    def field(self, name, idx):
        return next((a for a in apps(self.out) if a.a[0] == "elem." + name and a.a[1][0] is self.list), None)

    def of(self, what, idx):
        ty = "u8"
        return App("elem." + what, (self.list, idx), U8)

    def bad(self, key, msg, detail=None):
        self.ctx.violation("%s:%s" % (self.short, key), "%s: %s" % (self.ctx.loc(self.fn), msg), detail)

    # ---- splitting the output into its parts

    def run(self):
        segs = list(self.out.a[0])
        over = [i for i, s in enumerate(segs) if s.k == "rep" and any(a is self.list for a in apps(s.a[3]))]
        lines = [i for i in over if any(a.a[0] == "elem.explanation" for a in self.seg_apps(segs[i]))]
        if len(lines) != 1:
            raise Undecided("the explanations aren't displayed by a single repetition")
        at_ = lines[0]
        heads = [i for i in over if i < at_]
        if any(i > at_ for i in over) or len(heads) > 1:
            raise Undecided("there are other lines over the ranges")
        first = heads[0] if heads else at_
        self.binary()
        if heads:
            self.header(segs, heads[0], at_)
        self.lines(segs[at_])

    def seg_apps(self, s):
        out = set()
        for x in s.a[4]:
            out |= apps(x)
        return out

    # ---- the binary digits

    def binary(self):
        ctx = self.ctx
        bits = raw_bytes(None, "bits")
        count = self.n // 8
        atoms, length = byte_atoms(count, "bits"), App("len", (App("bits", (), "[u8]"),), LEN)
        b = "emv::bitflag_values::BitflagValue"
        opaque = {
            "<%s as %s>::%s" % (self.ty, b, REPR): lambda I, st, name, vs, ty: Seq((mk("span", T, bits),)),
            "<%s as %s>::%s" % (self.ty, b, INFO): lambda I, st, name, vs, ty: Seq(()),
        }
        vals.coarse(COARSE)
        try:
            r = ctx.run(self.fn, display_args(App("value", (), self.ty), INDENT), opaque=opaque)
        finally:
            vals.coarse(False)
        for k in (0, 2):
            out = expand(r.out, {length: count, INDENT: k})
            ctx.count("obligations")
            ps = pieces(out)
            line = []
            for g, t in ps:
                if isinstance(t, str) and "\n" in t:
                    line.append((g, t.split("\n")[0]))
                    break
                line.append((g, t))
            try:
                cs, rest = cells(line)
            except Ragged as e:
                self.bad("digits", "the line of binary digits doesn't have a fixed width", show(e.g, 4)[:300])
                return
            if rest:
                raise Undecided("the line of binary digits: %s" % show(rest[0][1], 3)[:120])
            want = column(self.n, 0) + 1 + k
            if len(cs) != want:
                self.bad("digits", "the line of binary digits is %d wide instead of %d" % (len(cs), want))
                return
            for i, c in enumerate(cs):
                ctx.count("obligations")
                texts = {x.a[0] for x in leaves(c) if x is not BOT}
                j = i - k
                sep = j >= 0 and j % 9 == 8
                if i < k and texts != {"\t"}:
                    self.bad("indent", "the line of binary digits isn't indented")
                elif sep and texts != {" "} or not sep and i >= k and not texts <= {"0", "1"}:
                    self.bad("digits", "column %d of the binary digits is %s" % (j, "/".join(sorted(texts))))

    # ---- the header

    def header(self, segs, i, end):
        ctx = self.ctx
        h = segs[i]
        g, bv, lo, hi, body = h.a
        if lo is not Int(0) or constrain(hi, g) is not self.len:
            raise Undecided("the header line's repetition")
        # what's before it on its line, and after it
        before = self.line_before(segs[:i], g)
        if before is None or before != "\t\t":
            self.bad("indent", "the header line starts with %r instead of the indentation" % (before,))
        after = segs[i + 1:end]
        ps = [(constrain(x, g), t) for x, t in pieces(Seq(after)) if And(x, g) is not F]
        if [t for _, t in ps if not isinstance(t, str)] or "".join(t for x, t in ps if x is T) != "\n":
            self.bad("header", "the header line isn't ended by a line break")
        prefix = T
        for k in (0, 1):
            part = Seq(tuple(body))
            part = within_seq(part, self.bv_case(bv, k))
            for o, l in self.fields:
                for po, pl in (self.fields if k else [(None, None)]):
                    if k and o > po - pl:
                        continue
                    ctx.count("obligations")
                    m = {self.of("offset", bv): o, self.of("len", bv): l}
                    if k:
                        p = Sub(bv, Int(1))
                        m.update({self.of("offset", p): po, self.of("len", p): pl})
                    text = self.text(self.fix(part, m, bv, k), g)
                    end_ = column(self.n, po - pl + 1) + 1 if k else 0
                    gap = column(self.n, o) - end_
                    width = column(self.n, o - l + 1) - column(self.n, o) + 1
                    what = "the header's segment for bits %d..%d%s" % (o, o - l + 1, " after bits %d..%d" % (po, po - pl + 1) if k else "")
                    if len(text) != gap + width or text[:gap].strip() or (text + " ")[gap].isspace() or (text[gap:].strip() != text[gap:]):
                        self.bad("header:%d:%d" % (o, l), "%s is %r, which doesn't start at its column (after %d spaces, %d wide)" % (what, text, gap, width))
                        return

    def bv_case(self, bv, k):
        return Lt(bv, Int(1)) if k == 0 else Not(Lt(bv, Int(1)))

    def fix(self, part, m, bv, k):
        q = at(part, m)
        if k == 0:
            q = at(q, {bv: 0})
            q = at(q, {self.of(n, Int(0)): v for n, v in (("offset", m[self.of("offset", bv)]), ("len", m[self.of("len", bv)]))})
        return expand(q)

    def text(self, q, g=T):
        out = ""
        for h, t in pieces(q):
            h = constrain(h, g)
            if h is F:
                continue
            if h is not T or not isinstance(t, str):
                raise Undecided("the header line: %s if %s" % (t if isinstance(t, str) else show(t, 3)[:100], show(h, 4)[:200]))
            out += t
        return out

    def line_before(self, segs, g):
        """The text since the last line break, under a condition."""
        text = ""
        for h, t in reversed(pieces(Seq(tuple(segs)))):
            h2 = constrain(h, g)
            if h2 is F:
                continue
            if h2 is not T:
                return None
            if not isinstance(t, str):
                return None
            if "\n" in t:
                return t.rsplit("\n", 1)[1] + text
            text = t + text
        return text

    # ---- the explanations' lines

    def lines(self, s):
        ctx = self.ctx
        g, bv, lo, hi, body = s.a
        if lo is not Int(0) or constrain(hi, g) is not self.len or g is not T:
            raise Undecided("the explanations' repetition")
        idxs = {a.a[1][1] for x in body for a in apps(x) if a.a[0] in ("elem.explanation",) and a.a[1][0] is self.list}
        if len(idxs) != 1:
            raise Undecided("a line explains several ranges")
        idx = idxs.pop()
        if idx is bv:
            self.bad("order", "the ranges are explained from the most significant one on, so that arms cross the explanations")
            return
        if idx is not Sub(Sub(self.len, bv), Int(1)):
            raise Undecided("the order of the explanations")
        part = Seq(tuple(body))
        arm = None
        for o in range(self.n):
            ctx.count("obligations")
            q = expand(at(part, {self.of("offset", idx): o}))
            what = "the line of bit %d" % o
            try:
                cs, rest = cells(pieces(q))
            except Ragged as e:
                if self.known(e.g):
                    self.bad("line:%d" % o, "%s isn't always equally wide" % what, show(e.g, 4)[:300])
                    return
                raise Undecided("%s: its width depends on %s" % (what, show(e.g, 4)[:200]))
            if not rest:
                self.bad("line:%d" % o, "%s has no explanation" % what)
                return
            if not any(a.a[0] == "elem.explanation" for a in apps(rest[0][1])):
                raise Undecided("%s: %s" % (what, show(rest[0][1], 3)[:200]))
            chars = [c.a[0] if c.k == "str" else c for c in cs]
            if "\n" in chars:
                self.bad("line:%d" % o, "%s is broken before the explanation" % what)
                return
            if chars[:2] != ["\t", "\t"] or (len(chars) > 2 and chars[2] == "\t"):
                self.bad("indent", "%s isn't indented like the other lines" % what)
                return
            chars = chars[2:]
            corner = column(self.n, o)
            if len(chars) <= corner or not isinstance(chars[corner], str) or chars[corner].isspace():
                self.bad("line:%d" % o, "%s doesn't have its corner in the bit's column, %d" % (what, corner))
                return
            cols = {column(self.n, b): b for b in range(o + 1, self.n)}
            for j in range(corner):
                ctx.count("obligations")
                c = chars[j]
                if j not in cols:
                    if c != " ":
                        self.bad("line:%d" % o, "%s has %s between two bytes" % (what, c if isinstance(c, str) else "an arm"))
                        return
                    continue
                b = cols[j]
                if isinstance(c, str):
                    self.bad("line:%d" % o, "%s always has %r in the column of bit %d" % (what, c, b))
                    return
                m = self.meaning(c, what)
                if m != {b}:
                    self.bad("line:%d" % o, "%s has an arm in the column of bit %d exactly for ranges starting at %s" % (what, b, sorted(m, key=str)))
                    return
            tail = "".join(c for c in chars[corner + 1:] if isinstance(c, str))
            if tail.strip() or len(tail) != len(chars) - corner - 1:
                self.bad("line:%d" % o, "%s has %r between its corner and the explanation" % (what, tail))
                return
        ctx.sample({"type": self.short, "bits": self.n, "fields": len(self.fields)})

    def known(self, g):
        try:
            for a in apps(g):
                if a.a[0].startswith("elem.") and a.a[1][0] is not self.list:
                    return False
            return not tainted(g)
        except Undecided:
            return False

    def meaning(self, c, what):
        """The offsets of ranges whose presence puts an arm into a cell."""
        if c.k != "dd":
            raise Undecided("%s: %s" % (what, show(c, 3)[:100]))
        texts = sorted({x.a[0] for x in leaves(c) if x is not BOT}, key=lambda t: t == " ")
        if len(texts) != 2 or texts[1] != " ":
            raise Undecided("%s has cells of %s" % (what, texts))
        armed = leaf_guard(c, lambda y: y.k == "str" and y.a[0] != " ")
        if armed.k != "dd":
            raise Undecided(what)
        a = armed.a[0]
        others = [b for _, x in armed.a[1] for b in apps(x)]
        if others:
            raise Undecided("%s: an arm depends on %s" % (what, show(armed, 3)[:200]))
        key = (a, armed)
        memo = self.__dict__.setdefault("memo", {})
        if key not in memo:
            memo[key] = self.decode(a, armed, what)
        return memo[key]

    def decode(self, a, armed, what):
        if a.a[0] == "any" and armed is lit(a, s_of(a, [1])):
            return self.hits(a.a[1], what, lambda v: v is T)
        if a.a[0] == "bitBitAnd":
            x, y = a.a[1]
            if x.k == "int":
                x, y = y, x
            if y.k == "int" and x.k == "app" and x.a[0] == "bitsover" and armed is Not(lit(a, s_of(a, [0]))):
                m = y.a[0]
                return self.hits(x.a[1], what, lambda v: bool(v.a[0] & m) if v.k == "int" else None)
            if (y is Int(1) and x.k == "app" and x.a[0] == "bitShr" and x.a[1][1].k == "int"
                    and x.a[1][0].k == "app" and x.a[1][0].a[0] == "bitsover"
                    and armed is Not(lit(a, s_of(a, [0])))):
                m = 1 << x.a[1][1].a[0]
                return self.hits(x.a[1][0].a[1], what, lambda v: bool(v.a[0] & m) if v.k == "int" else None)
        if a.a[0] == "rem" and a.a[1][1] in (2, Int(2)) and armed is Not(lit(a, s_of(a, [0]))):
            x, m = a.a[1][0], 1
            if x.k == "app" and x.a[0] == "div":
                x, m = x.a[1]
                m = m.a[0] if isinstance(m, V) and m.k == "int" else m
            if x.k == "app" and x.a[0] == "bitsover" and isinstance(m, int) and m & (m - 1) == 0:
                return self.hits(x.a[1], what, lambda v: bool(v.a[0] & m) if v.k == "int" else None)
        raise Undecided("%s: an arm depends on %s" % (what, show(a, 4)[:200]))

    def hits(self, args, what, f):
        bv, lo, hi, lam = args
        if lo is not Int(0) or hi is not self.len:
            raise Undecided("%s: an arm depends on only some ranges" % what)
        body = lam.a[-1] if lam.k == "lam" else lam
        out = set()
        offs = [x for x in apps(body) if x.a[0] == "elem.offset" and x.a[1][0] is self.list]
        lens = [x for x in apps(body) if x.a[0] == "elem.len" and x.a[1][0] is self.list]
        if len(offs) != 1 or len(lens) > 1 or any(x.a[1][1] is not offs[0].a[1][1] for x in lens):
            raise Undecided("%s: an arm depends on %s" % (what, show(body, 4)[:200]))
        if offs[0].a[1][1] not in (bv, Sub(Sub(self.len, bv), Int(1))):
            raise Undecided("%s: an arm depends on only some ranges" % what)
        for o in range(self.n):
            rs = set()
            for n in [n for n in (1, 2, 3, 4, 8) if n <= o + 1] if lens else [None]:
                v = at(body, {offs[0]: o} if n is None else {offs[0]: o, lens[0]: n})
                r = f(v)
                if r is None:
                    raise Undecided("%s: an arm depends on %s" % (what, show(v, 4)[:200]))
                rs.add(r)
            if rs == {True}:
                out.add(o)
            elif True in rs:
                out.add("%d of some lengths" % o)
        return out


def within_seq(q, g):
    """A sequence, with the bounds and bodies of its repetitions, where `g` holds."""
    out = []
    for s in q.a[0]:
        h = constrain(s.a[0], g)
        if h is F:
            continue
        if s.k == "rep":
            body = within_seq(Seq(tuple(s.a[4])), g)
            out.append(mk("rep", h, s.a[1], constrain(s.a[2], g), constrain(s.a[3], g), tuple(body.a[0])))
        else:
            out.append(mk(s.k, h, constrain_deep(s.a[1], g), *s.a[2:]))
    return Seq(tuple(out))


def check(ctx):
    p = ctx.p
    for ty in FLAGS:
        fn = "emv::bitflag_values::<impl DisplayBreakdown for %s>::display_breakdown" % ty
        if fn not in p.fns:
            continue  # isn't displayed on its own
        with ctx.guardeds(ty):
            Diagram(ctx, ty, fn).run()
