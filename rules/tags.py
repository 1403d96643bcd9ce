"""The summary of turning a raw element into a processed one, shared by C06, C08, C09 and C10."""
from spec.tags import NAMES, DECODED
from .common import *

PROCESS = "<emv::tlv_parsing::ProcessedEmvTag as std::convert::TryFrom<emv::tlv_parsing::RawEmvTag>>::try_from"
RAW = "emv::tlv_parsing::RawEmvTag"
DATA = "emv::tlv_parsing::EmvData"
PROCESSED = "emv::tlv_parsing::ProcessedEmvTag"
ERR = "error::ParseError"


def decoder(ty):
    return "<%s as std::convert::TryFrom<&[u8]>>::try_from" % ty


def uninterpreted(I, st, name, vs, ty):
    return I.uninterpreted(st, name, vs, ty)


def all_decoders(p):
    return {f: uninterpreted for f in p.fns if f.endswith("std::convert::TryFrom<&[u8]>>::try_from")}


def vec(name):
    base = App(name, (), "std::vec::Vec<u8>")
    return Seq((mk("span", T, Slice(base, F, App("len", (base,), LEN))),))


def view(v):
    return v.a[0][0].a[1]


def key_of(p, path):
    """The type key of a named type."""
    for t, d in p.types.items():
        if d.get("path") == path and d["k"] == "adt":
            return t
    raise Undecided("no type " + path)


class TagRun:
    """The processing of one raw element with symbolic tag bytes; readable or masked."""

    def __init__(self, ctx, masked):
        p = ctx.p
        self.ctx = ctx
        self.tag = vec("tag")
        self.data = vec("data")
        raw_ty, data_ty = key_of(p, RAW), key_of(p, DATA)
        vs = p.variants(data_ty)
        i = next(n for n, v in enumerate(vs) if (v["n"] == "Masked") == masked)
        d = Adt(data_ty, i, () if masked else (self.data,))
        fs = []
        for nm, ty in p.variants(raw_ty)[0]["f"]:
            fs.append({"tag": self.tag, "data": d}.get(nm) or p.opaque("raw." + nm, (), ty))
        self.raw = Adt(raw_ty, 0, fs)
        fn = ctx.fn(PROCESS)
        if fn is None:
            raise Undecided("no processing of elements")
        self.r = ctx.run(fn, [self.raw], opaque=all_decoders(p))
        base = view(self.tag).a[0]
        self.size = App("len", (base,), LEN)
        self.byte = [App("elem", (base, Int(i)), U8) for i in range(4)]

    def cell(self, tag):
        m = {self.size: len(tag)}
        for a, b in zip(self.byte, tag):
            m[a] = b
        return at(self.r.ret, m)

    def cells(self, v=None, atoms=None, known=()):
        """(tag, result) for every one- and two-byte tag, in classes of equal results."""
        v = self.r.ret if v is None else v
        one = at(v, {self.size: 1})
        for a in range(256):
            yield (a,), at(one, {self.byte[0]: a})
        two = at(v, {self.size: 2})
        for a in range(256):
            x = at(two, {self.byte[0]: a})
            if self.byte[1] not in apps(x):
                for b in range(256):
                    yield (a, b), x
            else:
                for b in range(256):
                    yield (a, b), at(x, {self.byte[1]: b})

    def others(self, v=None):
        """(length, result) for the other lengths of tags."""
        v = self.r.ret if v is None else v
        for n in [0] + list(range(3, 12)) + [255, 256, 257]:
            yield n, at(v, {self.size: n})


def hexname(tag):
    return "".join("%02X" % b for b in tag)


def outcome(p, x):
    """(variant name, {field: value}) of a processed element."""
    vs = p.variants(x.a[0])[x.a[1]]
    return vs["n"], {f[0]: x.a[2][i] for i, f in enumerate(vs["f"])}


def text_of(v):
    if v.k == "str":
        return v.a[0]
    if v.k == "seq":
        t = flatten(v)
        return t[0] if len(t) == 1 and isinstance(t[0], str) else ("" if not t else None)
    return None
