"""C14: enumerated values are decoded by their tables and refused outside of them."""
from spec.enums import ENUMS, ARC, ARC_ERROR
from .common import *
from engine.std import STRINGS, string_id

RULE = ("For each enumeration, the value-flow summary of its decoding conversion composed with the summary of its display "
        "routine is a decision diagram over the encoded value; every cell of that diagram (each of the 256 byte values, each known "
        "string and the class of all other strings) must carry the text that the code table defines for it, or the table's error "
        "kind where it defines none. The conversions from byte slices are compared with the plain conversion in the same way.")


def text_of(ctx, ty, value, m):
    """What Display writes for a (diagram of) value(s), at the given atoms."""
    disp = ctx.fn("<%s as std::fmt::Display>::fmt" % ty)
    if disp is None:
        raise Undecided("no Display")
    return disp


def displayed(ctx, ty, value):
    """The text a value's own display writes, as a sequence."""
    fn = ctx.fn("<%s as std::fmt::Display>::fmt" % ty)
    if fn is None:
        raise Undecided("no Display for " + ty)
    cell = ("in", "sink")
    r = ctx.run(fn, [Sref(value), mk("mref", cell, ())], env={cell: Seq()})
    return r.env.get(cell, Seq())


def only_text(toks):
    return toks[0] if len(toks) == 1 and isinstance(toks[0], str) else ("" if not toks else None)


def judge(ctx, key, what, want, ok, text, err):
    """One cell: `want` is ("ok", text) or ("err", kind)."""
    ctx.count("obligations")
    if want[0] == "ok":
        if ok is F:
            ctx.violation(key, "%s is refused (%s) instead of being decoded as %r" % (what, error_text(ctx.p, err), want[1]))
        elif ok is not T or text is None:
            ctx.undecided(key, "no definite result")
        elif text != want[1]:
            ctx.violation(key, "%s is shown as %r instead of %r" % (what, text, want[1]))
    else:
        if ok is T:
            ctx.violation(key, "%s isn't in the table but is decoded as %r" % (what, text))
        elif ok is not F or err.k != "adt":
            ctx.undecided(key, "no definite result")
        elif variant_name(ctx.p, err) != want[1]:
            ctx.violation(key, "%s is refused as %s instead of %s" % (what, variant_name(ctx.p, err), want[1]))


def byte_table(ctx, ty, spec):
    short = ty.split("::")[-1]
    table, error = spec["table"], spec["error"]
    forms = [("<%s as std::convert::TryFrom<u8>>::try_from" % ty, [App("b", (), U8)], [App("b", (), U8)])]
    if spec.get("slice"):
        forms.append(("<%s as std::convert::TryFrom<&[u8]>>::try_from" % ty, [raw_bytes(1)], byte_atoms(1)))
    for name, args, atoms in forms:
        with ctx.guardeds(name):
            if ctx.fn(name) is None:
                continue
            r = ctx.run(name, args)
            cond, val = ok_part(r.ret)
            err = err_part(r.ret)
            txt = displayed(ctx, ty, val) if val is not BOT else Seq()
            extra = None
            if spec.get("slice") and name.endswith("<&[u8]>>::try_from"):
                extra = ctx.run(ctx.display_fn(ty), display_args(val)).out
            for n in range(256):
                m = {atoms[0]: n}
                want = ("ok", table[n]) if n in table else ("err", error)
                c, e = at(cond, m), at(err, m)
                t = only_text(flatten(at(txt, m))) if c is T else None
                judge(ctx, "%s:0x%02X" % (short, n), "%s 0x%02X (%s)" % (short, n, name), want, c, t, e)
                if extra is not None and c is T and want[0] == "ok":
                    ctx.count("obligations")
                    shown = plain(flatten(at(extra, m)))
                    if want[1] not in shown:
                        ctx.violation("%s:0x%02X:display" % (short, n), "the breakdown of %s 0x%02X shows %r instead of %r" % (short, n, shown, want[1]))
            ctx.sample({"enumeration": short, "conversion": name, "values": 256, "known": len(table)})


ARC_TY = "emv::authorisation_response_code::AuthorisationResponseCode"


def pins(v, base, s):
    """Atom values for the case that the view(s) of `base` hold the string `s` (None: text outside of every table)."""
    m = {}
    for a in apps(v):
        op = a.a[0]
        if op == "strval":
            m[a] = string_id(s) if s is not None else 0
        elif op == "is_ascii" or op == "utf8":
            m[a] = 1
        elif op == "elem" and s is not None and a.a[1][1].k == "int" and a.a[1][1].a[0] < len(s):
            m[a] = ord(s[a.a[1][1].a[0]])
        elif op == "len":
            m[a] = len(s) if s is not None else 2
    return m


def arc(ctx):
    for name, args in (("<%s as std::convert::TryFrom<&str>>::try_from" % ARC_TY, [raw_str()]),
                       ("<%s as std::convert::TryFrom<&[u8]>>::try_from" % ARC_TY, [raw_bytes(2)])):
        with ctx.guardeds(name):
            if ctx.fn(name) is None:
                continue
            r = ctx.run(name, args)
            cond, val = ok_part(r.ret)
            err = err_part(r.ret)
            txt = displayed(ctx, ARC_TY, val)
            shown = ctx.run(ctx.display_fn(ARC_TY), display_args(val)).out if "[u8]" in name else None
            strings = sorted(set(ARC) | {s for s in STRINGS[1:] if len(s) == 2 or "str>" in name})
            by_string = any(a.a[0] == "strval" for a in apps(cond))
            by_byte = any(a.a[0] == "elem" for a in apps(cond))
            if by_byte:
                strings = [chr(a) + chr(b) for a in range(128) for b in range(128)]
            for s in strings + ([None] if by_string and not by_byte else []):
                def cell(x):
                    return subst(x, {a: Int(n) for a, n in pins(x, args[0], s).items()})
                want = ("ok", ARC[s]) if s in ARC else ("err", ARC_ERROR)
                c = cell(cond)
                t = only_text(flatten(cell(txt))) if c is T else None
                judge(ctx, "ARC:%s" % ("other" if s is None else repr(s)),
                      "authorisation response code %s (%s)" % ("outside of the table" if s is None else repr(s), name), want, c, t, cell(err))
                if shown is not None and c is T and want[0] == "ok":
                    ctx.count("obligations")
                    if want[1] not in plain(flatten(cell(shown))):
                        ctx.violation("ARC:%s:display" % s, "the breakdown of authorisation response code %r doesn't show %r" % (s, want[1]))
            ctx.sample({"enumeration": "AuthorisationResponseCode", "conversion": name, "strings": len(strings), "known": len(ARC)})


def optional(ctx, name, ty, table, unknown):
    """CV methods and conditions: unknown values are shown as such."""
    with ctx.guardeds(name):
        b = App("b", (), U8)
        conv = "<%s as std::convert::From<u8>>::from" % ty
        if conv not in ctx.p.fns:
            conv = next((f for f in ctx.p.fns if f.endswith("From<u8>>::from") and ty.split("::")[-1] in f), None)
        if conv is None:
            raise Undecided("no conversion")
        r = ctx.run(conv, [b])
        txt = displayed(ctx, ty, r.ret)
        for n in range(256):
            ctx.count("obligations")
            t = only_text(flatten(at(txt, {b: n})))
            want = table.get(n, unknown)
            if t is None:
                ctx.undecided("%s:0x%02X" % (name, n), "no definite text")
            elif t != want and (n in table or not t.startswith("Unknown")):
                ctx.violation("%s:0x%02X:shown" % (name, n), "%s 0x%02X is shown as %r instead of %r" % (name, n, t, want))


def check(ctx):
    for ty, spec in ENUMS.items():
        byte_table(ctx, ty, spec)
    arc(ctx)
    cv = ENUMS["emv::cv_rule::cv_method::CvMethod"]["table"]
    cc = ENUMS["emv::cv_rule::cvm_condition::CvmCondition"]["table"]
    optional(ctx, "CvMethod", "emv::cv_rule::cv_method::OptionalCvMethod", cv, "Unknown (likely issuer or payment system-specific)")
    optional(ctx, "CvmCondition", "emv::cv_rule::cvm_condition::OptionalCvmCondition", cc, "Unknown (likely payment system-specific)")
