"""C27: issuer action codes are TVR masks shown without severity and with their text."""
from spec.flags import FLAGS
from .show import *
from .c09 import one_tag
from .tags import TagRun, key_of, decoder
from .common import *

RULE = ("For each of the three kinds, the value-flow summary of its decoder over a byte slice of unknown length must be, cell by cell, "
        "the summary of the TVR's decoder over the same slice, wrapped; the errors must be the same. The summary of its display must be "
        "the introduction of its kind followed by exactly one display of its own TVR, at the given indentation and with the severity "
        "argument false whatever the caller's argument is. The summary of its Default must be the TVR that the decoder gives for five "
        "bytes of all ones (default, online) or all zeros (denial). Each kind's own tag must be decoded by its decoder.")

TVR = "emv::tvr::TerminalVerificationResults"
KINDS = {
    "default": ("Default", 0xFF, "If not an online transaction and any of the following match the TVR, reject the transaction:"),
    "denial": ("Denial", 0x00, "If any of the following match the TVR, deny the transaction without even going online:"),
    "online": ("Online", 0xFF, "If any of the following match the TVR, complete the transaction online:"),
}
TAGS = {"default": "9F0D", "denial": "9F0E", "online": "9F0F"}


def wrapped(ctx, ty, v):
    """The TVR inside of an issuer action code (a diagram of them)."""
    i = next((i for i, f in enumerate(ctx.p.variants(key_of(ctx.p, ty))[0]["f"]) if f[1] == key_of(ctx.p, TVR)), None)
    if i is None:
        raise Undecided("%s doesn't hold a TVR" % ty)
    return smap(lambda x: x.a[2][i] if x.k == "adt" else BOT, v)


def decoding(ctx, kind, ty, tvr):
    fn = ctx.fn(decoder(ty))
    if fn is None or tvr is None:
        return
    ctx.count("obligations")
    r = ctx.run(fn, [raw_bytes()])
    ok, val = ok_part(r.ret)
    ok2, val2 = ok_part(tvr.ret)
    d = Not(Or(And(ok, ok2), And(Not(ok), Not(ok2))))
    c = cube_of(ctx, r.I, d)
    if c is not None:
        if tainted(ok, ok2):
            raise Undecided("whether it is accepted")
        ctx.violation("accepts:" + kind, "%s doesn't accept exactly the byte strings that the TVR's decoder accepts" % ctx.loc(fn), str(c)[:300])
        return
    for what, a, b in (("value", wrapped(ctx, ty, val), val2), ("error", err_part(r.ret), err_part(tvr.ret))):
        ctx.count("obligations")
        d = differ(a, b)
        if d is None or tainted(a):
            raise Undecided("the %s: %s" % (what, show(a, 3)[:200]))
        c = cube_of(ctx, r.I, d)
        if c is not None:
            ctx.violation("decodes:%s:%s" % (kind, what), "%s doesn't give the %s that the TVR's decoder gives for the same bytes" % (ctx.loc(fn), what), str(c)[:300])
    ctx.sample({"kind": kind, "decoder": fn, "compared with": decoder(TVR)})


def defaults(ctx, kind, ty, byte):
    fn = ctx.fn("<%s as std::default::Default>::default" % ty)
    dec = ctx.fn(decoder(TVR))
    if fn is None or dec is None:
        return
    r = ctx.run(fn, [])
    got = wrapped(ctx, ty, r.ret)
    n, flags = FLAGS[TVR]
    t = ctx.run(dec, [raw_bytes(n)])
    want = at(ok_part(t.ret)[1], {b: byte for b in byte_atoms(n)})
    ctx.count("obligations", max(1, len(flags)))
    d = differ(got, want)
    if d is None or tainted(got):
        raise Undecided("its default is %s" % show(got, 3)[:200])
    if d is not F:
        ctx.violation("default:" + kind, "%s isn't the TVR of five bytes %02X: %s" % (ctx.loc(fn), byte, show(got, 4)[:300]))


def display(ctx, kind, ty, text):
    fn = ctx.display_fn(ty)
    if fn is None:
        return
    p = ctx.p
    tvr = p.opaque("the tvr", (), key_of(p, TVR))
    fs = [tvr if t == key_of(p, TVR) else p.opaque("iac." + n, (), t) for n, t in p.variants(key_of(p, ty))[0]["f"]]
    r = summary(ctx, fn, [Sref(Adt(key_of(p, ty), 0, fs)), None, INDENT, None])
    un = unresolved(r.out)
    if un:
        raise Undecided("the output has no closed form: %s" % sorted(un))
    toks = flatten(r.out)
    out, calls = "", []
    for t in toks:
        if isinstance(t, str):
            out += t
        elif t.kind == "event" and t.v.a[0] in ("color", "reset"):
            continue
        elif t.kind == "event" and t.v.a[0] in ("call", "dyncall"):
            calls.append(t)
            out += "\0"
        elif t.kind == "rep" and [x.a[1] for x in t.v.a[4] if x.k == "el"] == [Str("\t")]:
            ctx.count("obligations")
            if t.v.a[2] is not F or t.v.a[3] is not INDENT:
                ctx.violation("indent:" + kind, "%s doesn't indent its introduction by the given indentation" % ctx.loc(fn))
        else:
            raise Undecided("the output: %r" % t)
    ctx.count("obligations", 3)
    if out != text + "\n\0":
        if "\0" not in out:
            ctx.violation("shows:" + kind, "%s doesn't display the TVR" % ctx.loc(fn))
        else:
            ctx.violation("text:" + kind, "%s introduces the TVR by %r instead of %r" % (ctx.loc(fn), out.replace("\0", "<TVR>"), text + "\n<TVR>"))
        return
    t = calls[0]
    name, v = t.v.a[1], t.v.a[2]
    while v.k in ("sref", "box"):
        v = v.a[0]
    if t.g is not T:
        ctx.violation("shows:" + kind, "%s displays the TVR only if %s" % (ctx.loc(fn), show(t.g, 3)[:200]))
    if name != ctx.display_fn(TVR) or v is not tvr:
        if tainted(v):
            raise Undecided("what is displayed: %s" % show(v, 3)[:200])
        ctx.violation("shows:" + kind, "%s displays %s with %s instead of its TVR" % (ctx.loc(fn), show(v, 2)[:200], name))
    if t.v.a[4] is not INDENT:
        ctx.violation("level:" + kind, "%s displays the TVR at another indentation" % ctx.loc(fn))
    sev = t.v.a[5]
    if sev is not F:
        if tainted(sev):
            raise Undecided("the severity argument")
        ctx.violation("severity:" + kind, "%s displays the TVR with severity colours: the argument is %s instead of false" % (ctx.loc(fn), show(sev, 3)[:100]))
    ctx.sample({"kind": kind, "display": fn})


def check(ctx):
    tvr = None
    with ctx.guardeds("the TVR's decoder"):
        dec = ctx.fn(decoder(TVR))
        if dec:
            tvr = ctx.run(dec, [raw_bytes()])
    for kind, (name, byte, text) in KINDS.items():
        ty = "emv::iac::%s::IssuerActionCode%s" % (kind, name)
        with ctx.guardeds("decoding " + kind):
            decoding(ctx, kind, ty, tvr)
        with ctx.guardeds("default of " + kind):
            defaults(ctx, kind, ty, byte)
        with ctx.guardeds("display of " + kind):
            display(ctx, kind, ty, text)
    run = None
    with ctx.guardeds("the tags"):
        run = TagRun(ctx, False)
    for kind, tag in TAGS.items() if run else ():
        name = KINDS[kind][0]
        with ctx.guardeds("tag of " + kind):
            one_tag(ctx, run, tag, "emv::iac::%s::IssuerActionCode%s" % (kind, name))
