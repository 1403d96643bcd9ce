"""C10: unrecognised values are annotated and never abort the rest of the block."""
from .tags import *

RULE = ("For each decoder that tolerates unknown values, the error kinds it gives for values of the right length (and text, for response "
        "codes) and for other values are read from its summary. In the summary of processing an element, each cell of a tolerant tag where "
        "the decoder gives a kind of the first sort must be an element of the same raw data annotated as unrecognised, and every other "
        "error of any decoder must be the result itself. In the summary of processing a block, the result must be the list of the "
        "processed nodes, one per node in order, and an error exactly when one of them has one.")

ASSUMPTIONS = ["a kind of error that a tolerant decoder gives both for unknown values and for malformed ones is treated alike for both"]

BLOCK = "<emv::tlv_parsing::ProcessedEmvBlock as std::convert::TryFrom<emv::tlv_parsing::RawEmvBlock>>::try_from"
SIZES = {"8A": 2, "9C": 1, "9F35": 1, "9F39": 1, "9F10": 32}


def kinds(ctx, tag, ty):
    """(kinds of errors for unknown values, for malformed ones) of a tolerant decoder."""
    fn = ctx.fn(decoder(ty))
    if fn is None:
        raise Undecided("no decoder " + ty)
    arg = raw_bytes()
    r = ctx.run(fn, [arg])
    unknown, malformed = set(), set()
    size = arg.a[2]
    for n in list(range(0, 40)) + [255, 256]:
        cell = at(r.ret, {size: n})
        text = [a for a in apps(cell) if a.a[0] == "utf8"]
        for valid in ((1, 0) if text else (1,)):
            c = at(cell, {a: valid for a in text})
            for x in leaves(err_part(c)):
                if x is BOT:
                    continue
                if x.k != "adt":
                    raise Undecided("unknown error of " + fn)
                g = leaf_guard(err_part(c), lambda y: y is x)
                if g is F:
                    continue
                k = variant_name(ctx.p, x)
                if tag == "9F10" or (n == SIZES[tag] and valid):
                    unknown.add(k)
                else:
                    malformed.add(k)
    return unknown, malformed


def elements(ctx):
    run = TagRun(ctx, False)
    p = ctx.p
    for tag, (ty, note) in DECODED.items():
        with ctx.guardeds("tag " + tag):
            unknown, malformed = kinds(ctx, tag, ty) if note else (set(), set())
            malformed -= unknown
            if note and not unknown:
                ctx.undecided("tag " + tag, "the decoder refuses nothing as unknown")
            cell = run.cell(bytes.fromhex(tag))
            call = p.opaque("call:" + decoder(ty), (view(run.data),), result_type(p, ty))
            cond, _ = ok_part(call)
            e = err_part(call)
            failed = within(cell, Not(cond))
            for kind in [v["n"] for v in p.variants(err_type(p))]:
                ctx.count("obligations")
                sel = leaf_guard(e, lambda y: y.k == "adt" and variant_name(p, y) == kind)
                if sel is F:
                    raise Undecided("no such error")
                x = within(failed, sel)
                for y in leaves(x):
                    if y is BOT:
                        continue
                    if y.k != "adt":
                        ctx.undecided("tag %s: %s" % (tag, kind), "unknown result")
                        continue
                    if kind in unknown:
                        tolerant(ctx, run, tag, note, kind, y)
                    elif y.a[1] == 0:
                        if note is None or kind in malformed:
                            ctx.violation("swallowed:%s:%s" % (tag, kind), "the error %s of decoding tag %s isn't returned" % (kind, tag))
                    else:
                        for z in leaves(y.a[2][0]):
                            if z.k == "adt" and variant_name(p, z) != kind and leaf_guard(y.a[2][0], lambda q: q is z) is not F:
                                if And(sel, leaf_guard(y.a[2][0], lambda q: q is z)) is not F:
                                    ctx.violation("changed:%s:%s" % (tag, kind), "the error %s of decoding tag %s is returned as %s" % (kind, tag, variant_name(p, z)))
    ctx.sample({"tolerant tags": [t for t, d in DECODED.items() if d[1]]})


def tolerant(ctx, run, tag, note, kind, y):
    p = ctx.p
    if y.a[1] == 1:
        ctx.violation("aborts:%s" % tag, "an unknown value of tag %s (%s) aborts the block instead of being annotated" % (tag, kind))
        return
    for z in leaves(y.a[2][0]):
        if z is BOT:
            continue
        variant, fs = outcome(p, z) if z.k == "adt" else (None, None)
        if variant is None:
            ctx.undecided("tag " + tag, "unknown element")
            continue
        if variant != "Annotated":
            ctx.violation("plain:%s" % tag, "an unknown value of tag %s gives a %s element instead of an annotated one" % (tag, variant))
            continue
        for n in leaves(fs["name"]):
            t = text_of(n)
            if t is None:
                if n is not BOT:
                    ctx.undecided("tag " + tag, "unknown annotation")
            elif note not in t:
                ctx.violation("note:%s" % tag, "an unknown value of tag %s is annotated as %r, which doesn't say %r" % (tag, t, note))
        kept(ctx, run, tag, fs["raw_tag"])


def kept(ctx, run, tag, raw):
    """The element itself must be unchanged."""
    p = ctx.p
    if raw is run.raw:
        return
    for y in leaves(raw):
        if y.k != "adt":
            ctx.undecided("tag " + tag, "unknown raw element")
            continue
        got = {f[0]: y.a[2][i] for i, f in enumerate(p.variants(y.a[0])[0]["f"])}
        want = {f[0]: run.raw.a[2][i] for i, f in enumerate(p.variants(run.raw.a[0])[0]["f"])}
        for nm in want:
            if got[nm] is not want[nm]:
                m = {run.size: len(bytes.fromhex(tag))}
                m.update({a: b for a, b in zip(run.byte, bytes.fromhex(tag))})
                if at(got[nm], m) is not at(want[nm], m):
                    ctx.undecided("tag " + tag, "the element's %s may differ" % nm)


def result_type(p, ty):
    for f, d in p.fns.items():
        if f == decoder(ty):
            return d["locals"][0]
    raise Undecided("no decoder")


def err_type(p):
    return key_of(p, ERR)


def block(ctx):
    p = ctx.p
    fn = ctx.fn(BLOCK)
    if fn is None:
        return
    r = ctx.run(fn, ["raw"], opaque={PROCESS: uninterpreted})
    cond, val = ok_part(r.ret)
    ctx.count("obligations", 4)
    if val.k != "adt":
        raise Undecided("block result " + show(val, 3)[:200])
    nodes = val.a[2][p.field_index(val.a[0], "nodes")]
    raw_ty = key_of(p, "emv::tlv_parsing::RawEmvBlock")
    given = p.opaque("raw", (), raw_ty).a[2][p.field_index(raw_ty, "nodes")]
    given = view(given)
    size = App("len", (given.a[0],), LEN)
    segs = nodes.a[0] if nodes.k == "seq" else ()
    if len(segs) != 1 or segs[0].k != "rep" or segs[0].a[0] is not T:
        # something definite is missing or added?
        raise Undecided("nodes are " + show(nodes, 4)[:300])
    _, bv, lo, hi, body = segs[0].a
    if lo is not F or hi is not size:
        if is_intleaf(lo) and is_intleaf(hi):
            ctx.violation("block:nodes", "a block's nodes are processed from %s to %s, not all of them" % (show(lo, 3), show(hi, 3)))
            return
        raise Undecided("range")
    node = elem(given, bv)
    nt = node.a[0]
    tag, child = node.a[2][p.field_index(nt, "tag")], node.a[2][p.field_index(nt, "child_block")]
    rt, rb = p.fns[PROCESS]["locals"][0], p.fns[BLOCK]["locals"][0]
    ctag = p.opaque("call:" + PROCESS, (tag,), rt)
    cblock = p.opaque("call:" + BLOCK, (child,), rb)
    (okt, vt), (okb, vb) = ok_part(ctag), ok_part(cblock)
    if len(body) != 1 or body[0].k != "el":
        raise Undecided("loop body")
    g, x = body[0].a
    both = And(okt, okb)
    if g is not T and constrain(g, both) is not T:
        ctx.violation("block:dropped", "a processed node is only kept if %s" % show(g, 3)[:200])
    x = within(x, both)
    if x.k != "adt":
        raise Undecided("node " + show(x, 3)[:200])
    got = {f[0]: x.a[2][i] for i, f in enumerate(p.variants(x.a[0])[0]["f"])}
    for nm, want in (("tag", vt), ("child_block", vb)):
        if within(got[nm], both) is not within(want, both):
            if tainted(got[nm]):
                ctx.undecided("block:" + nm, show(got[nm], 3)[:200])
            else:
                ctx.violation("block:" + nm, "the %s of a processed node isn't what processing its own %s gives" % (nm, nm))
    # fails exactly if a node does
    fails = [a for a in apps(cond) if a.a[0] == "any"]
    want = None
    for a in fails:
        b, lo, hi, lam = a.a[1]
        if lo is F and hi is size:
            want = a
            pred = subst(lam.a[0], {b: bv}) if b is not bv else lam.a[0]
            if pred is not Not(both):
                ctx.violation("block:fails", "processing a block fails on a node if %s instead of if the node can't be processed" % show(pred, 3)[:200])
    if want is None:
        if cond is T:
            ctx.violation("block:fails", "processing a block never fails, whatever its nodes give")
        else:
            ctx.undecided("block:fails", show(cond, 4)[:200])
    elif cond is not Not(lit(want, 2)):
        ctx.undecided("block:fails", show(cond, 4)[:200])
    # the error is that node's own
    for e in leaves(err_part(r.ret)):
        if e is BOT:
            continue
        if e.k != "adt":
            ctx.undecided("block:error", show(e, 3)[:100])
    ctx.sample({"block": "nodes = [process(n) for n in raw.nodes], error if any fails"})


def check(ctx):
    with ctx.guardeds("elements"):
        elements(ctx)
    with ctx.guardeds("blocks"):
        block(ctx)
