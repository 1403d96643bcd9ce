"""C08: every tag is named exactly as in the EMV data dictionary table."""
from .tags import *

RULE = ("The summaries of processing an element (readable and masked) and of identifying a tag, over tag bytes of any length, are decision "
        "diagrams over the length and the bytes. Each cell (all 256 one-byte tags, all 65536 two-byte tags, and the classes of other "
        "lengths) must name the element as the frozen data dictionary does, or leave it unnamed.")

IDENT = "<emv::tag_basic_info::TagBasicInfo as std::convert::TryFrom<&[u8]>>::try_from"


def same_name(name, want, tag):
    if name == want:
        return True
    # tolerant decoders annotate what they can't read
    d = DECODED.get(tag)
    return bool(d and d[1] and want is not None and name is not None and d[1] in name and want.split(" (")[0] in name)


def judge(ctx, tag, what, name, exact):
    """`name` is the text, () for unnamed or None for unknown."""
    ctx.count("obligations")
    want = NAMES.get(tag)
    if name is None:
        ctx.undecided("%s of tag %s" % (what, tag), "no definite name")
        return
    got = None if name == () else name
    if got == want or not exact and same_name(got, want, tag):
        return
    if got is None:
        ctx.violation("%s:%s" % (what, tag), "tag %s is left unnamed by %s instead of being named %r" % (tag, what, want))
    else:
        ctx.violation("%s:%s" % (what, tag), "tag %s is named %r by %s instead of %s" % (tag, got, what, "being left unnamed" if want is None else repr(want)))


def names_in(p, x, taken):
    """The names in the successful results of a cell: text, () for none, None for unknown."""
    out = []
    for y in leaves(x):
        if y is BOT or y.k == "adt" and y.a[1] == 1:
            continue
        if y.k != "adt":
            out.append(None)
            continue
        for z in leaves(y.a[2][0]):
            if z is BOT:
                continue
            if z.k != "adt":
                out.append(None)
                continue
            out += taken(z)
    return out


def processed_names(p):
    def f(z):
        variant, fs = outcome(p, z)
        if variant == "Raw":
            return [()]
        return [text_of(s) for s in leaves(fs["name"]) if s is not BOT]
    return f


def basic_names(p):
    def f(z):
        fs = outcome(p, z)[1]
        out = []
        for o in leaves(fs["name"]):
            if o is BOT:
                continue
            if o.k != "adt":
                out.append(None)
            elif not o.a[2]:
                out.append(())
            else:
                out += [text_of(s) for s in leaves(o.a[2][0]) if s is not BOT]
        return out
    return f


def table(ctx, run, v, what, taken, exact):
    seen = 0
    memo = {}
    for tag, x in run.cells(v):
        t = hexname(tag)
        ns = memo.get(x)
        if ns is None:
            ns = memo[x] = names_in(ctx.p, x, taken)
        for n in ns:
            judge(ctx, t, what, n, exact)
        if not ns and t in NAMES and what != "processing":
            ctx.undecided("%s of tag %s" % (what, t), "no result")
        seen += t in NAMES
    for size, x in run.others(v):
        ctx.count("obligations")
        for n in set(names_in(ctx.p, x, taken)):
            if n is None:
                ctx.undecided("%s of tags of %d bytes" % (what, size), "no definite name")
            elif n != ():
                ctx.violation("%s:length%d" % (what, size), "a tag of %d bytes is named %r by %s" % (size, n, what))
    ctx.sample({"what": what, "tags": 256 + 65536, "known": seen})


def check(ctx):
    for masked in (False, True):
        what = "processing (masked)" if masked else "processing"
        with ctx.guardeds(what):
            run = TagRun(ctx, masked)
            table(ctx, run, run.r.ret, what, processed_names(ctx.p), masked)
    with ctx.guardeds("identifying"):
        fn = ctx.fn(IDENT)
        if fn:
            r = ctx.run(fn, [view(run.tag)])
            table(ctx, run, r.ret, "identifying", basic_names(ctx.p), True)
