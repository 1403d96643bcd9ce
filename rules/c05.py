"""C05: a tag's class and type are decoded from its first byte for all values."""
from .c14 import displayed, only_text
from .parsers import *
from .tags import view, vec

RULE = ("Both parsers are summarised as one iteration of their element loop, and the conversion behind tag identification as a "
        "function. The class and type fields of each new element are decision diagrams over the first byte of that element's own tag "
        "field (after the removal of leading zeros for Ingenico); all 256 cells of each must be the class of the top two bits and the "
        "type of the next bit. The display texts of both enumerations are compared for every variant.")

CLASSES = ("Universal", "Application", "ContextSpecific", "Private")
CLASS_NAMES = {"Universal": "Universal", "Application": "Application", "ContextSpecific": "Context-Specific", "Private": "Private"}
TYPES = ("Primitive", "Constructed")
CLASS = "emv::tlv_parsing::TagClass"
TYPE = "emv::tlv_parsing::DataObjectType"
INFO = "emv::tag_basic_info::TagBasicInfo"
META = "emv::tlv_parsing::ber_tlv::parse_tag_metadata"


def first_byte(v):
    """The term of the first byte of a tag field."""
    vs = content(v)
    if not vs:
        raise Undecided("a tag field of another form")
    atoms = {element(x, F) for x in vs}
    if len(atoms) != 1:
        raise Undecided("more than one first byte")
    a = atoms.pop()
    if a.k != "app":
        raise Undecided("no first byte")
    return a


def judge(ctx, what, cls, typ, first, place=None):
    for b in range(256):
        for name, v, table, i in (("class", cls, CLASSES, b >> 6), ("type", typ, TYPES, b >> 5 & 1)):
            ctx.count("obligations")
            x = at(v, {first: b})
            got = sorted({variant_name(ctx.p, y) if y.k == "adt" else "?" for y in leaves(x) if y is not BOT})
            if got == [table[i]]:
                continue
            key = "%s:%s:0x%02X" % (what, name, b)
            if "?" in got or not got or (len(got) > 1 and any(taint_of(a) and a is not place for a in apps(x))):
                ctx.undecided(key, "no definite %s" % name)
            else:
                ctx.violation(key, "%s: a tag that starts with 0x%02X has the %s %s instead of %s" % (what, b, name, "/".join(got), table[i]))


def taint_of(a):
    return a.a[0] in ("unk", "phi")


def named(ctx, ty, table):
    key = next((t for t, d in ctx.p.types.items() if d.get("path") == ty and d["k"] == "adt"), None)
    if key is None:
        ctx.violation("anchor:" + ty, "the type %s doesn't exist any more" % ty)
        return
    for i, v in enumerate(ctx.p.variants(key)):
        ctx.count("obligations")
        t = only_text(flatten(displayed(ctx, ty, Adt(key, i, ()))))
        want = table.get(v["n"])
        if t is None or want is None:
            ctx.undecided("%s:%s" % (ty, v["n"]), "no definite name")
        elif t != want:
            ctx.violation("name:%s" % v["n"], "the %s %s is displayed as %r instead of %r" % (ty.split("::")[-1], v["n"], t, want))


def identified(ctx):
    """Identifying a single tag."""
    fn = "<%s as std::convert::TryFrom<&[u8]>>::try_from" % INFO
    if ctx.fn(fn) is None:
        return
    opaque = {f: uninterpreted for f in ("emv::tlv_parsing::process_emv_tag::identify_tag",) if f in ctx.p.fns}
    r = ctx.run(fn, [raw_bytes()], opaque=opaque)
    ok, val = ok_part(r.ret)
    base = App("raw", (), "[u8]")
    size = App("len", (base,), LEN)
    first = element(raw_bytes(), F)
    cls, typ = field(ctx.p, val, "class"), field(ctx.p, val, "data_object_type")
    some = constrain(And(r.guard, ok), i_le(Int(1), size))
    for n in (1, 2, 3, 9):
        ctx.count("obligations")
        if drop(at(And(r.guard, ok), {size: n})) is not T:
            g = drop(at(And(r.guard, ok), {size: n}))
            (ctx.violation if g is F or not tainted(g) else ctx.undecided)("identify:%d" % n, "a tag of %d byte(s) can't be identified" % n)
        judge(ctx, "identification of %d byte(s)" % n, at(cls, {size: n}), at(typ, {size: n}), at(first, {size: n}))
    ctx.sample({"routine": fn, "values": 256})


def check(ctx):
    for name, what in ((BER, "BER-TLV"), (INGENICO, "Ingenico TLV")):
        with ctx.guardeds(what):
            q = Parser(ctx, name)
            if not q.elements:
                raise Undecided("no elements")
            for e in q.elements:
                judge(ctx, what, e.class_, e.type, first_byte(e.tag), q.P)
            ctx.sample({"routine": name, "elements": len(q.elements), "first byte": show(first_byte(q.elements[0].tag), 3)})
    with ctx.guardeds("identification"):
        identified(ctx)
    with ctx.guardeds("class names"):
        named(ctx, CLASS, CLASS_NAMES)
    with ctx.guardeds("type names"):
        named(ctx, TYPE, {t: t for t in TYPES})
