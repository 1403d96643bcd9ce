"""Summaries of the bitflag data objects, shared by C11, C12 and C27."""
from spec.enums import ENUMS
from spec.flags import FLAGS
from .common import *

RANGE = "emv::bitflag_values::EnabledBitRange"


def content_text(kind, n):
    """What a field's content is shown as, or None when it's refused."""
    if kind == "number":
        return str(n)
    if kind == "OptionalCvMethod":
        return ENUMS["emv::cv_rule::cv_method::CvMethod"]["table"].get(n, "Unknown (likely issuer or payment system-specific)")
    if kind == "OptionalCvmCondition":
        return ENUMS["emv::cv_rule::cvm_condition::CvmCondition"]["table"].get(n, "Unknown (likely payment system-specific)")
    for ty, spec in ENUMS.items():
        if ty.endswith("::" + kind):
            return spec["table"].get(n)
    raise KeyError(kind)


def shift_of(mask):
    return (mask & -mask).bit_length() - 1


def used_bits(ty):
    n, fields = FLAGS[ty]
    m = [0] * n
    for b, mask, _, _, _ in fields:
        m[b] |= mask
    return m


def expected(ty, byte, n):
    """The ranges that byte `byte` = n yields: [(offset, len, severity, text)], or None when it's refused."""
    count, fields = FLAGS[ty]
    out = []
    for b, mask, sev, kind, text in fields:
        if b != byte:
            continue
        offset = mask.bit_length() - 1 + (count - b - 1) * 8
        length = bin(mask).count("1")
        v = (n & mask) >> shift_of(mask)
        if kind == "flag":
            if v:
                out.append((offset, length, sev, text))
            continue
        t = content_text(kind, v)
        if t is None:
            return None
        out.append((offset, length, sev.get(t, "Normal") if isinstance(sev, dict) else sev, text.replace("{}", t)))
    return out


class Flag:
    """The summary of one bitflag type: accepted inputs, diagram bytes, explained ranges."""

    def __init__(self, ctx, ty):
        self.ctx, self.ty = ctx, ty
        self.n = FLAGS[ty][0]
        self.atoms = byte_atoms(self.n)
        conv = ctx.fn("<%s as std::convert::TryFrom<&[u8]>>::try_from" % ty)
        info = ctx.fn("<%s as emv::bitflag_values::BitflagValue>::get_bit_display_information" % ty)
        binr = ctx.fn("<%s as emv::bitflag_values::BitflagValue>::get_binary_representation" % ty)
        if None in (conv, info, binr):
            raise Undecided("missing anchors of " + ty)
        r = ctx.run(conv, [raw_bytes(self.n)])
        self.cond, self.val = ok_part(r.ret)
        self.err = err_part(r.ret)
        self.panics = r.guard
        self.info = self.bytes_ = None
        if self.val is not BOT:
            self.info = ctx.run(info, [Sref(self.val)]).ret
            self.bytes_ = ctx.run(binr, [Sref(self.val)]).ret

    def entries(self, byte, n, rest):
        """The ranges for byte `byte` = n while the other bytes are `rest` (a dict, may be partial)."""
        m = dict((self.atoms[i], v) for i, v in rest.items())
        m[self.atoms[byte]] = n
        q = at(self.info, m)
        return self.read(q)

    def read(self, q):
        """[(guard, offset, len, severity, text, entry)] of a sequence of ranges; None for unknown parts."""
        p = self.ctx.p
        out = []
        for s in q.a[0] if q.k == "seq" else ():
            if s.k != "el":
                raise Undecided("unexpected piece %s" % s.k)
            g, x = s.a
            if g is F:
                continue
            if x.k != "adt":
                raise Undecided("unexpected element %s" % show(x, 2))
            fs = {nm: x.a[2][p.field_index(x.a[0], nm)] for nm in ("offset", "len", "explanation", "severity")}
            out.append((g, fs))
        if q.k not in ("seq",):
            raise Undecided("unexpected list %s" % q.k)
        return out


def concrete(ctx, e):
    g, fs = e
    off = fs["offset"].a[0] if fs["offset"].k == "int" else None
    ln = fs["len"].a[0] if fs["len"].k == "int" else None
    sev = variant_name(ctx.p, fs["severity"]) if fs["severity"].k == "adt" else None
    toks = flatten(fs["explanation"])
    text = toks[0] if len(toks) == 1 and isinstance(toks[0], str) else None
    return (off, ln, sev, text)


def sole_byte(fl, *vs):
    """The indices of the bytes that some values depend on."""
    deps = set()
    for v in vs:
        for a in apps(v):
            if a in fl.atoms:
                deps.add(fl.atoms.index(a))
    return deps


def other(ctx, vs, fl):
    """Terms that are neither bytes nor derived from them."""
    return [a for v in vs for a in apps(v) if a not in fl.atoms and a.a[0] not in ("elem", "len")]
