"""The summaries of all breakdown displays, shared by C06, C12, C22, C24, C27 and C28."""
from engine import vals
from .flow import *

COARSE = True
DISPLAY_OPAQUE = ("::get_bit_display_information", "::get_binary_representation", "::references_x_or_y_value")


def displays(p):
    return sorted(f for f in p.fns if is_display(f) and not f.endswith("#ShimReify"))


def opaque_for(p, fn, extra=()):
    o = {f: shown for f in displays(p) if f != fn}
    o.update({f: shown for f in p.fns if f.endswith("#ShimReify") and is_display(f)})
    o.update({g: uninterpreted for g in p.fns if g.endswith(DISPLAY_OPAQUE + tuple(extra))})
    return o


SEV = lit(App("severities", (), BOOL), 2)
INDENT = App("indentation", (), ("i", 0, 100))


def summary(ctx, fn, args=None, extra=(), limit=60):
    """A display's summary for a symbolic value, indentation and severity flag; nested displays are events."""
    if args is None:
        n = ctx.p.fns[fn]["argc"]
        args = [None] * n
        if n == 4 and is_display(fn):
            args[2] = INDENT
    vals.coarse(COARSE)
    try:
        return ctx.run(fn, args, opaque=opaque_for(ctx.p, fn, extra), limit=limit)
    finally:
        vals.coarse(False)


def unresolved(seq):
    """The kinds of segments that a summary couldn't put in closed form."""
    bad = set()

    def walk(q):
        if q.k == "seq":
            for s in q.a[0]:
                if s.k == "rep":
                    walk(Seq(s.a[4]))
                elif s.k not in ("el", "span"):
                    bad.add(s.k)
        elif q.k == "dd":
            for x in leaves(q):
                walk(x)
    walk(seq)
    bad |= {a.a[0] for a in apps(seq) if a.a[0] in ("phi", "phiseq", "unk")}
    return bad


# ------------------------------------------------------------------ canonical text


def strip_refs(v):
    while v.k in ("sref", "box"):
        v = v.a[0]
    return v


def canon(seq, name_of, calls=None, cond=T):
    """The output as a text where inputs are placeholders, for a comparison with a template.

    A byte or number in some format is <name:format>, n tabs of indentation more than the caller's are <+n>,
    and displays of parts are <display k>, with their arguments in `calls`. `name_of(term)` names an input.
    """
    out = []
    for t in flatten(seq):
        if isinstance(t, str):
            out.append(t)
            continue
        if t.g is not T:
            raise Undecided("output that depends on %s: %r" % (show(t.g, 3)[:200], t))
        if t.kind == "event":
            if t.v.a[0] in ("color", "reset"):
                continue
            if t.v.a[0] in ("call", "dyncall") and calls is not None:
                out.append("<display %d>" % len(calls))
                calls.append(t)
                continue
        elif t.kind == "fmt":
            s = formatted(t.v, name_of)
            if s is not None:
                out.append(s)
                continue
        elif t.kind == "rep":
            n = tabs(t.v)
            if n is not None:
                out.append("<+%d>" % n)
                continue
        elif t.kind == "span":
            n = name_of(t.v)
            if n is not None:
                out.append("<%s>" % n)
                continue
        raise Undecided("the output: %r" % t)
    return "".join(out)


def tabs(rep):
    """How many tabs more than the caller's indentation a repetition writes, or None."""
    g, bv, lo, hi, body = rep.a
    if g is not T or len(body) != 1 or body[0].k != "el" or body[0].a[0] is not T or body[0].a[1] is not Str("\t"):
        return None
    d = Sub(Sub(hi, lo), INDENT)
    return d.a[0] if d.k == "int" else None


FORMATS = {"02X": "%02X", "0x02X": "0x%02X", "02x": "%02x", "d": "%d", "03d": "%03d", "X": "%X"}


def formatted(pc, name_of):
    """The placeholder of a formatted number."""
    kind, v, opts = pc.a
    if v.k == "str":
        return render_piece(pc)
    a = v
    if v.k != "app":
        mine = [a for a in apps(v) if name_of(a) is not None]
        if len(mine) != 1 or apps(v) - apps(mine[0]) - {mine[0]}:
            return None
        a = mine[0]
    n = name_of(a)
    if n is None:
        return None
    hi = dom(a)[1]
    samples = list(range(0, min(hi, 300) + 1)) + [x for x in (999, 1000, 4095, 65535, 2**32 - 1) if 300 < x <= hi]
    got = [render_piece(mk("pc", kind, Int(x) if v is a else at(v, {a: x}), opts)) for x in samples]
    if None in got:
        return None
    for f, pat in FORMATS.items():
        if got == [pat % x for x in samples]:
            return "<%s:%s>" % (n, f)
    return "<%s:%s>" % (n, ",".join(got[:3]))


def squeeze(text):
    """Runs of blanks as one; line ends count."""
    import re
    return re.sub(r"[ ]+", " ", text)
