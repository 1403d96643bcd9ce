"""C11: every flag bit is reported with exactly its specified meaning and severity."""
from .flags import *

RULE = ("For each bitflag type, the value-flow summary of decoding a byte slice composed with the summary of its list of explained "
        "ranges gives each list entry a guard, position, severity and text as diagrams over the input bytes. For every byte of the value "
        "and each of its 256 contents the entries whose guard holds must be the ones that the EMV table defines, with that severity and "
        "text, at that position; an entry whose guard depends on more than one byte must agree for all-zero and all-one other bytes.")


def compare(ctx, fl, byte, n, rest, judge):
    want = expected(fl.ty, byte, n)
    m = dict((fl.atoms[i], v) for i, v in rest.items())
    m[fl.atoms[byte]] = n
    c = at(fl.cond, m)
    return want, c, m


def rests(fl, byte):
    """Contents of the other bytes that are known to be accepted: the lowest and highest accepted ones."""
    out = []
    for pick in (0, -1):
        r = {}
        for i in range(fl.n):
            if i == byte:
                continue
            ok = [x for x in range(256) if expected(fl.ty, i, x) is not None]
            r[i] = ok[pick]
        out.append(r)
    return out if fl.n > 1 else [{}]


def positions(fl, byte):
    """The diagram positions that belong to a byte."""
    top = (fl.n - byte) * 8 - 1
    return range(top - 7, top + 1)


def check_type(ctx, ty):
    short = ty.split("::")[-1]
    fl = Flag(ctx, ty)
    if fl.val is BOT:
        ctx.violation("%s:never" % short, "%s never accepts a value of %d bytes" % (ty, fl.n))
        return
    for byte in range(fl.n):
        done = set()
        for rest in rests(fl, byte):
            others = set()
            for i, v in rest.items():
                others |= set(e[:1] for e in expected(ty, i, v))
            for n in range(256):
                ctx.count("obligations")
                m = {fl.atoms[i]: v for i, v in rest.items()}
                m[fl.atoms[byte]] = n
                want = expected(ty, byte, n)
                c = at(fl.cond, m)
                key = "%s:byte%d" % (short, byte)
                if want is None:
                    if c is T:
                        ctx.violation(key + ":refuse", "%s accepts byte %d = 0x%02X, whose content isn't defined" % (short, byte, n))
                    continue
                if c is F:
                    ctx.violation(key + ":accept", "%s refuses byte %d = 0x%02X (others %s)" % (short, byte, n, rest), error_text(ctx.p, at(fl.err, m)))
                    continue
                if c is not T:
                    ctx.undecided(key, "acceptance isn't definite")
                    continue
                whole = []
                for i in range(fl.n):
                    whole += expected(ty, i, n if i == byte else rest[i])
                got = []
                unsure = False
                for g, fs in fl.read(at(fl.info, m)):
                    if g is not T:
                        unsure = True
                        continue
                    got.append(concrete(ctx, (g, fs)))
                if unsure or any(None in e for e in got):
                    ctx.undecided(key, "an entry isn't definite for byte %d = 0x%02X" % (byte, n))
                    continue
                for e in whole:
                    if e not in got:
                        same = [x for x in got if x[3] == e[3]]
                        ctx.violation("%s:%s" % (key, e[3][:60]), "%s byte %d = 0x%02X must be explained as %r (position %d, %d bits, severity %s)%s" % (
                            short, byte, n, e[3], e[0], e[1], e[2], ", but is given as %r" % (same[0],) if same else ", but isn't"), {"others": rest})
                for e in got:
                    if e not in whole:
                        ctx.violation("%s:%s" % (key, e[3][:60]), "%s byte %d = 0x%02X is explained as %r (position %d, %d bits, severity %s), which isn't defined for it" % (
                            short, byte, n, e[3], e[0], e[1], e[2]), {"others": rest})
                for e in whole:
                    if got.count(e) > 1:
                        ctx.violation("%s:twice" % key, "%s byte %d = 0x%02X gives %r twice" % (short, byte, n, e[3]))
    # the guard of each entry must not depend on anything but its own byte
    for g, fs in fl.read(fl.info):
        ctx.count("obligations")
        deps = sole_byte(fl, And(g, fl.cond), fs["offset"], fs["len"], fs["severity"], fs["explanation"])
        gd = sole_byte(fl, fl.cond)
        if len(deps - gd) > 1:
            ctx.undecided("%s:dependence" % short, "an entry depends on bytes %s" % sorted(deps))
    ctx.sample({"type": short, "bytes": fl.n, "entries": len(fl.read(fl.info)), "accepted when": show(fl.cond, 3)[:200]})


def check(ctx):
    for ty in FLAGS:
        with ctx.guardeds(ty):
            check_type(ctx, ty)
