"""C09: every tag and every option is decoded by the decoder for its data object."""
from .c10 import result_type
from .flow import *

RULE = ("Tags: in the summary of processing an element, with the tag's bytes fixed, the result wherever the tag's decoder succeeds must be a "
        "decoded element that holds the result of that decoder's call on the element's whole value; every other tag's result (all one- and "
        "two-byte tags and other lengths) must not contain a decoded value. Options: in the summary of main, with the option's "
        "presence fixed, every breakdown that is displayed must be the result of the option's decoder on the hex bytes (or the "
        "number, or the text) of the option's own value. Option names and aliases are read from the command line definition.")


def unbox(p, v):
    """(type, value) behind trait objects and boxes."""
    ty = None
    while True:
        if v.k == "dyn":
            if p.desc(v.a[0])["k"] != "dyn":
                ty = v.a[0]
            v = v.a[1]
        elif v.k in ("box", "sref"):
            v = v.a[0]
        else:
            return ty, v


def decoded_elements(p, v):
    """(guard, name, fields) of every decoded element in a result."""
    cond, val = ok_part(v)
    for x in leaves(val):
        if x is BOT:
            continue
        g = leaf_guard(val, lambda y: y is x)
        if x.k != "adt":
            yield g, None, x
        else:
            n, fs = outcome(p, x)
            yield g, n, fs


def one_tag(ctx, run, tag, ty):
    """The readable values of a tag must be decoded as the type, over the whole value."""
    p = ctx.p
    fn = ctx.fn(decoder(ty))
    if fn is None:
        return
    ctx.count("obligations")
    call = p.opaque("call:" + fn, (view(run.data),), result_type(p, ty))
    cond, value = ok_part(call)
    cell = within(run.cell(bytes.fromhex(tag)), cond)
    want = within(value, cond)
    for g, n, fs in decoded_elements(p, cell):
        if n is None:
            ctx.undecided("tag " + tag, show(fs, 3)[:200])
        elif n != "Parsed":
            if tainted(g) or And(g, cond) is F:
                ctx.undecided("tag " + tag, "may not be decoded")
            else:
                ctx.violation("tag:" + tag, "a readable value of tag %s is only %s instead of decoded" % (tag, n.lower()))
        else:
            for b in leaves(fs["parsed"]):
                t, v = unbox(p, b)
                v = within(v, cond)
                if t is not None and t != ty:
                    ctx.violation("tag:" + tag, "tag %s is decoded as %s instead of %s" % (tag, t.split("::")[-1], ty.split("::")[-1]))
                elif v is not want:
                    other = {a.a[0] for a in apps(v) if isinstance(a.a[0], str) and a.a[0].startswith("call:") and a.a[0][5:].split("@")[0] == fn}
                    if tainted(v) or t is None:
                        ctx.undecided("tag " + tag, show(v, 3)[:200])
                    else:
                        ctx.violation("tag:" + tag, "the decoded value of tag %s isn't what %s gives for its whole value%s" % (
                            tag, fn, "" if other else " (that isn't called on it)"))
    cond2, _ = ok_part(run.cell(bytes.fromhex(tag)))
    if And(cond, Not(cond2)) is not F:
        x = And(cond, Not(cond2))
        if tainted(x):
            ctx.undecided("tag " + tag, "may fail")
        else:
            ctx.violation("tag:%s:fails" % tag, "tag %s fails although its decoder succeeds" % tag)


def tags(ctx):
    p = ctx.p
    run = TagRun(ctx, False)
    for tag, (ty, note) in DECODED.items():
        with ctx.guardeds("tag " + tag):
            one_tag(ctx, run, tag, ty)
    seen = set()
    known = {bytes.fromhex(t) for t in DECODED}
    for tag, x in run.cells():
        if bytes(tag) in known:
            continue
        ctx.count("obligations")
        if x in seen:
            continue
        bad = plain_only(ctx, "tag " + hexname(tag), x)
        if bad:
            ctx.violation("decoded:" + hexname(tag), "tag %s is %s although it has no decoder" % (hexname(tag), bad))
        seen.add(x)
    for n, x in run.others():
        ctx.count("obligations")
        bad = plain_only(ctx, "tags of %d bytes" % n, x)
        if bad:
            ctx.violation("decoded:length %d" % n, "tags of %d bytes can be %s although none has a decoder" % (n, bad))
    masked = TagRun(ctx, True)
    for n, x in [(1, at(masked.r.ret, {masked.size: 1})), (2, at(masked.r.ret, {masked.size: 2}))] + list(masked.others()):
        for g, v, fs in decoded_elements(p, x):
            if v == "Parsed":
                ctx.violation("masked", "a masked value is decoded")
    ctx.sample({"decoded tags": list(DECODED), "others": "every other one- and two-byte tag"})


def plain_only(ctx, what, x):
    for g, n, fs in decoded_elements(ctx.p, x):
        if n is None:
            ctx.undecided(what, show(fs, 3)[:100])
        elif n == "Parsed":
            return "decoded"
    cond, _ = ok_part(x)
    if cond is not T and not tainted(cond):
        return "refused"
    return None


def options(ctx):
    flow = Flow(ctx)
    for op in ops(ctx, flow):
        ctx.count("obligations")
        what = "option --" + op.name
        if not op.displays:
            if tainted(flow.r.out):
                ctx.undecided(what, "no breakdown")
            else:
                ctx.violation("option:" + op.name, "%s displays no breakdown" % what)
        for g, fn, v, indent, sev in op.shown():
            if fn != op.display:
                ctx.violation("option:" + op.name, "%s displays its value by %s instead of %s" % (what, fn, op.display))
                continue
            if op.block is not None:
                src = {a for a in apps(v) | apps(g) if a.a[0].startswith("call:") and a.a[0][5:].split("@")[0] in PARSERS}
                want = op.parse.a[0].a[1][0] if op.parse.k == "dd" else op.parse
                fns = {a.a[0][5:].split("@")[0] for a in src}
                right = OPERATIONS[op.name][0]
                if tainted(v):
                    ctx.undecided(what, show(v, 3)[:200])
                elif fns != {right}:
                    ctx.violation("option:" + op.name, "%s is parsed by %s instead of %s" % (what, ", ".join(sorted(fns)) or "nothing", right))
                elif any(a.a[1][0] is not want.a[1][0] for a in src):
                    ctx.violation("option:" + op.name, "%s parses something other than its whole value" % what)
                continue
            got, want = within(v, And(g, op.ok)), within(op.value, And(g, op.ok))
            if got is not want:
                if tainted(got):
                    ctx.undecided(what, show(got, 3)[:200])
                else:
                    ctx.violation("option:" + op.name, "%s displays something other than what %s gives for its whole value" % (what, OPERATIONS[op.name][0]))
        ctx.sample({"option": op.name, "decoder": OPERATIONS[op.name][0]})
    check_names(ctx, OPTION_NAMES)


def check(ctx):
    with ctx.guardeds("tags"):
        tags(ctx)
    with ctx.guardeds("options"):
        options(ctx)
