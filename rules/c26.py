"""C26: automatic detection tries Ingenico first, then BER-TLV, and labels the result."""
from .flow import *

RULE = ("The summary of automatic parsing is read as a function of the results of its three parts (the hex bytes of the text, the Ingenico "
        "parser on the text, the BER-TLV parser on the hex bytes, each with the given masking characters) and compared with the table of "
        "the property. In the summary of main for the automatic option, the text that is printed before the breakdown must name the "
        "detected format, exactly where processing succeeds.")

FORMATS = {"BerTlv": "BER-TLV", "Ingenico": "Ingenico"}
FORMAT = "emv::tlv_parsing::TlvFormat"


def detection(ctx):
    p = ctx.p
    auto, ber, ing = PARSERS
    for f in PARSERS + [HEX]:
        if ctx.fn(f) is None:
            return
    r = ctx.run(auto, ["text", "mask"], opaque={ber: uninterpreted, ing: uninterpreted, HEX: uninterpreted})
    args, _ = r.I.entry_args(auto, ["text", "mask"])
    text, mask = args
    rt = lambda f: p.fns[f]["locals"][0]
    hexv = as_view(p.opaque("call:" + HEX, (text,), rt(HEX)))
    ti = p.opaque("call:" + ing, (text, mask), rt(ing))
    tb = p.opaque("call:" + ber, (hexv, mask), rt(ber))
    none = i_eq(length(hexv), F)
    some_text = i_lt(F, length(text))
    (oki, vi), (okb, vb) = ok_part(ti), ok_part(tb)
    fmt = key_of(p, FORMAT)
    index = {v["n"]: i for i, v in enumerate(p.variants(fmt))}
    cases = [
        ("a text without bytes", none, None, None),
        ("valid Ingenico data", And(Not(none), oki), "Ingenico", vi),
        ("valid BER-TLV data that isn't valid Ingenico data", AndAll([Not(none), Not(oki), okb]), "BerTlv", vb),
        ("data that's valid in neither format", AndAll([Not(none), Not(oki), Not(okb)]), None, None),
    ]
    for name, g, want, block in cases:
        ctx.count("obligations")
        if want is not None or name.startswith("data"):
            g = And(g, some_text)
        x = within(r.ret, g)
        key = "detect:" + name
        for y in leaves(x):
            if y is BOT:
                continue
            h = And(g, leaf_guard(x, lambda z: z is y))
            if h is F:
                continue
            if y.k != "adt" or tainted(h):
                ctx.undecided(key, show(y, 3)[:200])
                continue
            if y.a[1] == 1:
                if want is not None:
                    ctx.violation(key, "%s is refused by automatic detection" % name, show(h, 5)[:500])
                    continue
                for e in leaves(y.a[2][0]):
                    if e.k == "adt" and variant_name(p, e) != "Unrecognised" and And(h, leaf_guard(y.a[2][0], lambda z: z is e)) is not F:
                        ctx.violation(key, "%s gives the error %s instead of Unrecognised" % (name, variant_name(p, e)))
                continue
            if want is None:
                ctx.violation(key, "%s is accepted by automatic detection" % name, show(h, 5)[:500])
                continue
            for z in leaves(y.a[2][0]):
                if z is BOT:
                    continue
                if z.k != "tup":
                    ctx.undecided(key, show(z, 3)[:100])
                    continue
                f, b = within(z.a[0][0], h), within(z.a[0][1], h)
                for q in leaves(f):
                    if q.k == "adt" and q.a[1] != index[want]:
                        ctx.violation(key, "%s is labelled as %s" % (name, variant_name(p, q)))
                if settled(b, h) is not settled(block, h):
                    if tainted(b):
                        ctx.undecided(key, show(b, 3)[:200])
                    else:
                        ctx.violation(key, "%s doesn't give the block that the %s parser gives for it with the same masking characters" % (name, want))
    ctx.sample({"detection": [c[0] for c in cases]})


def settled(v, g):
    from .c18 import settle
    return settle(v, g)


def length(v):
    from engine.interp import length_of
    return length_of(v)


def label(ctx):
    p = ctx.p
    flow = Flow(ctx)
    fmt = key_of(p, FORMAT)
    for op in ops(ctx, flow):
        if op.name != "auto-tlv":
            continue
        for i, v in enumerate(p.variants(fmt)):
            ctx.count("obligations", 2)
            sel = leaf_guard(op.format, lambda y: y.k == "adt" and y.a[1] == i)
            g = And(op.ok, sel)
            if g is F:
                ctx.undecided("label:" + v["n"], "never detected")
                continue
            text, after = "", False
            for t in op.toks:
                h = T if isinstance(t, str) else And(t.g, g)
                if h is F:
                    continue
                if not isinstance(t, str) and t.kind == "event":
                    if t.v.a[0] == "call":
                        after = True
                    continue
                s = t if isinstance(t, str) else text_of(t.v)
                if s is None or not (isinstance(t, str) or implies(g, t.g)):
                    if tainted(t.g):
                        ctx.undecided("label:" + v["n"], "text")
                    elif s is not None and s.strip():
                        ctx.violation("label:" + v["n"], "%r is only printed in some of the cases where a %s block is displayed" % (s, v["n"]), show(t.g, 4)[:400])
                    continue
                if after and s.strip():
                    ctx.violation("label:order", "%r is printed after the breakdown" % s)
                    continue
                text += s
            want = FORMATS.get(v["n"])
            others = [x for n, x in FORMATS.items() if n != v["n"]]
            if want not in text:
                ctx.violation("label:" + v["n"], "a %s block is displayed under the label %r, which doesn't say %s" % (v["n"], text, want))
            elif any(o in text for o in others):
                ctx.violation("label:" + v["n"], "a %s block is displayed under the label %r" % (v["n"], text))
        # not where it fails
        ctx.count("obligations")
        for t in op.toks:
            if isinstance(t, str) or (t.kind != "event" and And(t.g, Not(op.ok)) is not F):
                g = T if isinstance(t, str) else t.g
                if tainted(g):
                    ctx.undecided("label:failure", "text")
                else:
                    ctx.violation("label:failure", "the label's text %s is printed although processing fails" % (repr(t) if isinstance(t, str) else show(t.v, 3)))
    # the plain options have no label
    ctx.sample({"label": FORMATS})


def check(ctx):
    with ctx.guardeds("detection"):
        detection(ctx)
    with ctx.guardeds("label"):
        label(ctx)
