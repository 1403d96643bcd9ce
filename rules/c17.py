"""C17: issuer application data is split at the CCD-defined offsets."""
from .show import *
from .tags import decoder, key_of
from .common import *

RULE = ("The condition under which the decoder's summary over a byte slice of unknown length is Ok must be the conjunction that the CCD "
        "specification states (32 bytes, 0x0F at 0 and 16, a known identifier at 1), and every other cell must be the not-compliant "
        "error. The summary of the display is composed with that of the decoder: every byte shown under a name must be the byte of the "
        "input at that field's offset, and the nested displays must be given the values that the decoders of the identifier and of the "
        "card verification results have for bytes 1 and 3..8.")

TY = "emv::ccd::iad::IssuerApplicationData"
CCI = "emv::ccd::cci::CommonCoreIdentifier"
CVR = "emv::ccd::cvr::CardVerificationResults"

TEMPLATE = (
    "<+0>Common Core Identifier:\n<display 0>"
    "<+0>Derivation Key Index: <2:0x02X>\n"
    "<+0>Card Verification Results:\n<display 1>"
    "<+0>Counters: (Payment System-Specific)\n<+1>" + " ".join("<%d:02X>" % i for i in range(8, 16)) + "\n"
    "<+0>Issuer-Discretionary Data\n<+1>" + " ".join("<%d:02X>" % i for i in range(17, 32)) + "\n"
)


def check(ctx):
    fn = ctx.fn(decoder(TY))
    if fn is None:
        return
    raw = raw_bytes()
    size = raw.a[2]
    b = byte_atoms(32)
    want = lit(size, s_of(size, [32]))
    for a, ns in ((b[0], [15]), (b[16], [15]), (b[1], [0xA5, 0xA6])):
        want = And(want, lit(a, s_of(a, ns)))
    with ctx.guardeds("the decoder"):
        r = ctx.run(fn, [raw])
        ok, val = ok_part(r.ret)
        for what, d in (("accepts", And(ok, Not(want))), ("refuses", And(Not(ok), want))):
            ctx.count("obligations")
            c = cube_of(ctx, r.I, d)
            if c is not None:
                if tainted(ok):
                    raise Undecided("which data is accepted: %s" % show(ok, 4)[:200])
                ctx.violation(what, "%s %s data that %s CCD-compliant" % (ctx.loc(fn), what, "isn't" if what == "accepts" else "is"), show_cube_text(c))
        errs = err_part(r.ret)
        for x in leaves(errs):
            ctx.count("obligations")
            if x is BOT:
                continue
            if x.k != "adt":
                ctx.undecided("an error", show(x, 3)[:200])
            elif variant_name(ctx.p, x) != "NonCcdCompliant":
                g = And(And(r.guard, Not(want)), leaf_guard(errs, lambda y: y is x) if errs.k == "dd" else T)
                c = cube_of(ctx, r.I, g)
                if c is not None:
                    ctx.violation("error:" + variant_name(ctx.p, x), "%s refuses data as %s instead of as not CCD-compliant" % (ctx.loc(fn), error_text(ctx.p, x)), show_cube_text(c))
        ret = And(want, Not(r.guard))
        ctx.count("obligations")
        if cube_of(ctx, r.I, ret) is not None:
            ctx.undecided("the decoder", "may not return for compliant data")
        if ctx.violations:
            return
        shows(ctx, within(val, want), want)


def show_cube_text(c):
    from engine.lin import show_cube
    return show_cube(c)[:400]


def shows(ctx, val, want):
    disp = ctx.display_fn(TY)
    if disp is None:
        return
    base = raw_bytes().a[0]
    names = {a: str(i) for i, a in enumerate(byte_atoms(32))}
    r = summary(ctx, disp, [Sref(val), None, INDENT, SEV])
    un = unresolved(r.out)
    if un:
        raise Undecided("the output has no closed form: %s" % sorted(un))
    calls = []
    out = within(r.out, want)
    for a in sorted(apps(out) - {INDENT}, key=lambda a: a.id):
        if tainted(a):
            raise Undecided("the output depends on %s" % show(a, 3)[:200])
    got = squeeze(canon(out, lambda a: names.get(a), calls))
    ctx.count("obligations", 40)
    if got != TEMPLATE:
        g, w = got.split("\n"), TEMPLATE.split("\n")
        for x, y in zip(g + [""] * len(w), w + [""] * max(0, len(g) - len(w))):
            if x != y:
                ctx.violation("display", "%s shows %r where %r belongs (<n> is byte n of the data)" % (ctx.loc(disp), x, y), got)
                return
    for t, ty, lo, hi in zip(calls, (CCI, CVR), (1, 3), (2, 8)):
        ctx.count("obligations", hi - lo)
        short = ty.split("::")[-1]
        if t.v.a[1] != ctx.display_fn(ty):
            ctx.violation("display:" + short, "%s displays %s where the %s belongs" % (ctx.loc(disp), t.v.a[1], short))
            continue
        part = ctx.run(decoder(ty), [Slice(base, Int(lo), Int(hi))])
        v = within(ok_part(part.ret)[1], want)
        d = differ(strip_refs(t.v.a[2]), v)
        if d is None:
            raise Undecided("the displayed %s: %s" % (short, show(t.v.a[2], 4)[:300]))
        if And(d, want) is not F:
            ctx.violation("value:" + short, "%s doesn't display the %s that bytes %d to %d encode" % (ctx.loc(disp), short, lo, hi - 1), show(And(d, want), 4)[:300])
        if Sub(t.v.a[4], INDENT) is not Int(1):
            ctx.violation("level:" + short, "%s doesn't display the %s one level deeper" % (ctx.loc(disp), short))
        if t.v.a[5] is not SEV:
            ctx.violation("severity:" + short, "%s doesn't pass on whether to show severities" % ctx.loc(disp))
    ctx.sample({"decoder": decoder(TY), "display": disp, "text": got[:300]})
