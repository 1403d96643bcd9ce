"""What the rules share: running the value-flow analysis, reading its summaries, reporting."""
import signal
import time
import traceback

from engine import interp
from engine.interp import Interp, OUT, constrain_deep, elem
from engine.lin import Budget, feasible_cube
from engine.std import Summaries
from engine.vals import *


class Undecided(Exception):
    I = None  # what was found until then


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout("time limit")


class seconds:
    """Raises Timeout when the block takes longer."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(self.seconds)

    def __exit__(self, *_):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)


class Result:
    """One summarised function: its interpreter, return value, final state and output."""

    def __init__(self, fn, I, st, ret):
        self.fn, self.I, self.st, self.ret = fn, I, st, ret
        self.guard = st.guard
        self.env = st.env
        self.out = st.env.get(OUT, Seq())


class Ctx:
    def __init__(self, pid, program, tier="quick", seed=1):
        self.id, self.p, self.tier, self.seed = pid, program, tier, seed
        interp.PROG = program
        self.violations = []   # (key, message, detail)
        self.undecided_list = []
        self.counts = {}
        self.samples = []
        self.analysed = set()
        self.notes = []
        self.limit = 120

    # ---- reporting

    def violation(self, key, message, detail=None):
        if all(k != key for k, _, _ in self.violations):
            self.violations.append((key, message, detail))

    def undecided(self, what, why=""):
        self.undecided_list.append("%s%s" % (what, ": " + why if why else ""))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    # ---- the program

    def fn(self, name, required=True):
        """An anchor: a function that the property is about."""
        f = self.p.fns.get(name)
        if f is None and required:
            self.violation("anchor:" + name, "the function %s, which the property is anchored at, doesn't exist any more" % name)
        return name if f is not None else None

    def impl(self, trait, ty, method):
        return "<%s as %s>::%s" % (ty, trait, method)

    def display_fn(self, ty):
        """The DisplayBreakdown implementation for a type (its own, or the bitflag one)."""
        for n in ("<%s as DisplayBreakdown>::display_breakdown" % ty,
                  "emv::bitflag_values::<impl DisplayBreakdown for %s>::display_breakdown" % ty):
            if n in self.p.fns:
                return n
        return self.fn("<%s as DisplayBreakdown>::display_breakdown" % ty)

    def loc(self, fn):
        f = self.p.fns.get(fn)
        return "%s (%s)" % (fn, f["loc"]) if f else fn

    # ---- analysis

    def run(self, fn, args=None, opaque=None, guard=T, env=None, limit=None, names=None, short=0, plain=False):
        """Summarises a function; raises Undecided when the analysis can't."""
        I = Interp(self.p, Summaries(self.p), opaque or {})
        I.short, I.plain = short, plain
        if args is None or any(not isinstance(a, V) for a in args):
            args, e = I.entry_args(fn, args if args is not None else names)
            e.update(env or {})
            env = e
        self.count("functions summarised from an entry point")
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(int(limit or self.limit))
        try:
            st, r = I.run(fn, args, guard, env)
        except Timeout:
            e = Undecided("the analysis of %s took too long" % fn)
            e.I = I
            raise e
        except (Budget, RuntimeError, RecursionError, MemoryError) as e:
            raise Undecided("the analysis of %s gave up: %s" % (fn, e))
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        self.analysed |= I.analysed
        return Result(fn, I, st, r)

    def call_value(self, f, args, ty):
        """The result of calling a closure or function value."""
        I = Interp(self.p, Summaries(self.p), {})
        st = interp.State(T, {})
        I.ctxpath = ["run"]
        I.stack.append(("main", "", ))
        try:
            return I.call_value(st, f, args, ty)
        except (Budget, RuntimeError, RecursionError) as e:
            raise Undecided("a function value: %s" % e)

    def guardeds(self, what):
        return Guarded(self, what)


class Guarded:
    """Turns analysis failures into "undecided" for one obligation."""

    def __init__(self, ctx, what):
        self.ctx, self.what = ctx, what

    def __enter__(self):
        return self

    def __exit__(self, t, e, tb):
        if t is None:
            return False
        if issubclass(t, Undecided):
            self.ctx.undecided(self.what, str(e))
            return True
        if issubclass(t, Exception):
            last = traceback.extract_tb(tb)[-1]
            self.ctx.undecided(self.what, "%s: %s (%s:%d)" % (t.__name__, str(e)[:200], last.filename.split("/")[-1], last.lineno))
            if self.ctx.tier == "debug":
                traceback.print_exception(t, e, tb)
            return True
        return False


# ------------------------------------------------------------------ inputs


def raw_bytes(n=None, name="raw"):
    """An opaque byte slice of a known or unknown length."""
    base = App(name, (), "[u8]")
    return Slice(base, F, Int(n) if n is not None else App("len", (base,), LEN))


def byte_atoms(n, name="raw"):
    base = App(name, (), "[u8]")
    return [App("elem", (base, Int(i)), U8) for i in range(n)]


def raw_str(name="text"):
    base = App(name, (), "str")
    return Slice(base, F, App("len", (base,), LEN))


def display_args(value, indent=F, sev=T):
    return [value if value.k in ("sref", "mref") else Sref(value), "stdout", indent, sev]


# ------------------------------------------------------------------ results


def variant_name(p, x):
    return p.variants(x.a[0])[x.a[1]]["n"]


def is_ok(x):
    return x.k == "adt" and x.a[1] == 0


def ok_part(r):
    """The payload of the `Ok` cases, and the condition of being one."""
    val = smap(lambda x: x.a[2][0] if x.k == "adt" and x.a[1] == 0 else BOT, r)
    cond = smap(lambda x: (T if x.a[1] == 0 else F) if x.k == "adt" else BOT, r)
    return cond, val


def err_part(r):
    return smap(lambda x: x.a[2][0] if x.k == "adt" and x.a[1] == 1 else BOT, r)


def error_text(p, e):
    """A readable name for a ParseError value (or a diagram of them)."""
    if e.k == "adt":
        n = variant_name(p, e)
        if e.a[2]:
            return "%s(%s)" % (n, ", ".join(error_text(p, x) if x.k == "adt" else show(x, 3) for x in e.a[2]))
        return n
    return show(e, 3)


def describe(p, x, depth=3):
    if x.k == "adt":
        n = variant_name(p, x) if p.is_enum(x.a[0]) else x.a[0].split("::")[-1]
        if x.a[2] and depth:
            return "%s(%s)" % (n, ", ".join(describe(p, y, depth - 1) for y in x.a[2]))
        return n
    if x.k == "int":
        return str(x.a[0])
    if x.k == "str":
        return repr(x.a[0])
    return show(x, depth)


# ------------------------------------------------------------------ output text


class Tok:
    """A piece of output that isn't constant text."""
    __slots__ = ("kind", "v", "g")

    def __init__(self, kind, v, g=T):
        self.kind, self.v, self.g = kind, v, g

    def __repr__(self):
        return "{%s %s%s}" % (self.kind, show(self.v, 4)[:160] if isinstance(self.v, V) else self.v, "" if self.g is T else " if " + show(self.g, 3)[:80])

    def __eq__(self, o):
        return isinstance(o, Tok) and (self.kind, self.v, self.g) == (o.kind, o.v, o.g)

    def __hash__(self):
        return hash((self.kind, self.v, self.g))


def flags_of(opts):
    if opts is None:
        return None
    fl, w, pr = opts.a
    fl = 0x20 | 3 << 29 if fl == "-" else fl
    return {"fill": chr(fl & 0x1FFFFF), "align": (fl >> 29) & 3, "plus": fl >> 21 & 1, "alt": fl >> 23 & 1,
            "zero": fl >> 24 & 1, "width": w, "prec": pr}


def render_piece(pc):
    """The text of a formatted value whose parts are all constant, or None."""
    kind, v, opts = pc.a
    o = flags_of(opts)
    if kind == "pad":
        body = flatten(v)
        if len(body) > 1 or (body and not isinstance(body[0], str)):
            return None
        s, num = (body[0] if body else ""), False
    elif v.k == "int" and kind == "display":
        s, num = str(v.a[0]), True
    elif v.k == "int" and kind in ("upper_hex", "lower_hex"):
        s, num = ("%X" if kind == "upper_hex" else "%x") % v.a[0], True
        if o and o["alt"]:
            s = "0x" + s
    elif v.k == "str" and kind == "display":
        s, num = v.a[0], False
    elif kind == "char" and v.k == "int":
        s, num = chr(v.a[0]), False
    else:
        return None
    if o is None:
        return s
    w = o["width"]
    if isinstance(w, V):
        if w.k != "int":
            return None
        w = w.a[0]
    if w in ("-", None) or len(s) >= w:
        return s
    pad = w - len(s)
    if num and o["zero"]:
        pre = "0x" if s.startswith("0x") else ""
        return pre + "0" * pad + s[len(pre):]
    al = o["align"]
    if al == 3:
        al = 1 if num else 0
    if al == 0:
        return s + o["fill"] * pad
    if al == 1:
        return o["fill"] * pad + s
    return o["fill"] * (pad // 2) + s + o["fill"] * (pad - pad // 2)


def flatten(seq, guard=T):
    """The pieces of an output sequence in order: strings, and `Tok` for everything else."""
    out = []

    def text(s):
        if s == "":
            return
        if out and isinstance(out[-1], str):
            out[-1] += s
        else:
            out.append(s)

    def seg(s, g0):
        if s.k == "el":
            g = And(g0, s.a[0])
            if g is F:
                return
            v = s.a[1]
            if v.k == "pc" and g is T:
                t = render_piece(v)
                if t is not None:
                    text(t)
                    return
            if v.k == "str" and g is T:
                text(v.a[0])
                return
            if v.k == "int" and g is T:
                text(chr(v.a[0]))
                return
            out.append(Tok({"str": "text", "pc": "fmt", "ev": "event"}.get(v.k, v.k), v, g))
            return
        if s.k == "span":
            g = And(g0, s.a[0])
            if g is not F:
                out.append(Tok("span", s.a[1], g))
            return
        if s.k == "rep":
            out.append(Tok("rep", s, g0))
            return
        out.append(Tok(s.k, s, g0))

    def walk(q, g):
        if q.k == "seq":
            for s in q.a[0]:
                seg(s, g)
        elif q.k == "str":
            text(q.a[0]) if g is T else out.append(Tok("text", q, g))
        elif q.k == "dd":
            ls = leaves(q)
            for x in ls:
                walk(x, And(g, leaf_guard(q, lambda y, x=x: y is x)))
        elif q is not BOT:
            out.append(Tok(q.k, q, g))

    walk(seq, guard)
    return out


def at(v, m):
    """The value for particular atom values ({atom: int})."""
    return subst(v, {a: Int(n) for a, n in m.items()})


def expand(seq, m=None, fuel=4096):
    """Writes out the repetitions of a sequence whose bounds are constant (after substituting `m`)."""
    if m:
        seq = at(seq, m)
    if seq.k == "dd":
        return dmap(lambda x: x if x is BOT else expand(x, None, fuel), (seq,))
    if seq.k != "seq":
        return seq
    out = []
    for s in seq.a[0]:
        if s.k == "rep":
            g, bv, lo, hi, body = s.a
            if lo.k == "int" and hi.k == "int" and hi.a[0] - lo.a[0] <= fuel:
                for i in range(lo.a[0], hi.a[0]):
                    sub = {bv: Int(i)}
                    inner = expand(Seq(subst(x, sub) for x in body), m, fuel)
                    for y in inner.a[0] if inner.k == "seq" else [El(T, inner)]:
                        out.append(y if g is T else mk(y.k, And(g, y.a[0]), *y.a[1:]))
                continue
        elif s.k == "el" and s.a[1].k == "pc" and s.a[1].a[0] == "pad":
            s = El(s.a[0], mk("pc", "pad", expand(s.a[1].a[1], None, fuel), s.a[1].a[2]))
        out.append(s)
    return Seq(out)


def within(v, g):
    """`v`, and everything inside of it, where `g` holds."""
    v = constrain(v, g)
    if v.k == "dd":
        return dmap(lambda x: BOT if x is BOT else _inner(x, g), (v,))
    return _inner(v, g)


def _inner(x, g):
    if x.k == "adt":
        return mk("adt", x.a[0], x.a[1], tuple(within(y, g) for y in x.a[2]))
    return constrain_deep(x, g)


def own_atoms(v, known):
    """The terms of `v` that aren't part of the known input terms."""
    inner = set()
    for a in known:
        inner |= apps(a)
    return [a for a in apps(v) if a not in inner]


def events(toks):
    return [t for t in toks if isinstance(t, Tok) and t.kind == "event"]


def plain(toks):
    """The constant text with events and unknown parts left out."""
    return "".join(t for t in toks if isinstance(t, str))


def tainted(*vs):
    return any(taint(v) for v in vs)


def bind(x, v, m):
    """Makes the unknowns in `x` stand for the parts of `v`."""
    if x is v:
        return
    if x.k in ("app", "seq"):
        m[x] = v
    elif x.k == "dd" and all(l.k == "int" for l in leaves(x)):
        m[x.a[0]] = smap(lambda y: Int(1 if y is T else 0) if y.k == "int" else y, v)
    elif x.k == "dd":
        alive = [l for l in leaves(x) if l.k == "adt"]
        m[x.a[0]] = smap(lambda y: Int(y.a[1]) if y.k == "adt" else BOT, v)
        for l in alive:
            for i, fd in enumerate(l.a[2]):
                bind(fd, smap(lambda y, l=l, i=i: y.a[2][i] if y.k == "adt" and y.a[1] == l.a[1] else BOT, v), m)
    elif x.k == "adt":
        for i, fd in enumerate(x.a[2]):
            bind(fd, smap(lambda y, i=i: y.a[2][i] if y.k == "adt" and len(y.a[2]) > i else BOT, v), m)
    elif x.k == "tup":
        for i, fd in enumerate(x.a[0]):
            bind(fd, smap(lambda y, i=i: y.a[0][i] if y.k == "tup" else BOT, v), m)
    elif x.k in ("sref", "box"):
        bind(x.a[0], smap(lambda y: y.a[0] if y.k == x.k else BOT, v), m)


def cube_of(ctx, I, cond, limit=2000):
    """A description of an input in `cond`, or None when there is none."""
    if cond is F:
        return None
    try:
        return feasible_cube(cond, I.facts, (), limit)
    except Budget:
        raise Undecided("the condition is too complex")


def differ(a, b, g=T):
    """The condition under which two values differ; None if that isn't known."""
    if a is b or g is F:
        return F
    if a.k == "dd" or b.k == "dd":
        out = F
        xs = [(T, a)] if a.k != "dd" else [(leaf_guard(a, lambda y, x=x: y is x), x) for x in leaves(a) if x is not BOT]
        ys = [(T, b)] if b.k != "dd" else [(leaf_guard(b, lambda y, x=x: y is x), x) for x in leaves(b) if x is not BOT]
        for h, x in xs:
            for k, y in ys:
                hk = And(And(g, h), k)
                if hk is F or x is y:
                    continue
                d = differ(x, y, hk)
                if d is None:
                    return None
                out = Or(out, And(hk, d))
        return out
    if a.k in ("int", "app", "lin") and b.k in ("int", "app", "lin") and is_intleaf(a) and is_intleaf(b):
        return Not(i_eq(a, b))
    if a.k == "adt" and b.k == "adt" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return T
        out = F
        for x, y in zip(a.a[2], b.a[2]):
            d = differ(x, y, g)
            if d is None:
                return None
            out = Or(out, d)
        return out
    return None
