"""C12: a bitflag value's diagram shows the bits that were supplied."""
from .flags import *

RULE = ("The summary of decoding composed with the summary of the binary representation gives every diagram byte as a decision diagram "
        "over the input bytes: it must be the same byte with exactly the reserved bits cleared, for all 256 contents, and depend on no "
        "other byte. The summary of the explained ranges must hold only ranges inside of the value, in descending order and disjoint for "
        "every combination of entries whose guards are compatible, each exactly over the bits of a defined field. The output summary of "
        "the diagram routine must write the eight digits of every byte, most significant first, whatever ranges there are.")


def diagram_bytes(ctx, fl):
    b = fl.bytes_
    if b.k == "seq":
        els = seq_items(b)
        if els is None:
            raise Undecided("diagram bytes: " + show(b, 4)[:200])
        return els
    if b.k == "arr":
        return list(b.a[0])
    raise Undecided("diagram bytes: " + show(b, 4)[:200])


def seq_items(q):
    out = []
    for s in q.a[0]:
        if s.k == "el" and s.a[0] is T:
            out.append(s.a[1])
        elif s.k == "span" and s.a[0] is T and s.a[1].k == "slice" and s.a[1].a[1].k == "int" and s.a[1].a[2].k == "int":
            from engine.interp import elem
            for i in range(s.a[1].a[1].a[0], s.a[1].a[2].a[0]):
                out.append(elem(s.a[1].a[0], Int(i)))
        else:
            return None
    return out


def supplied(ctx, fl, short):
    mask = used_bits(fl.ty)
    els = diagram_bytes(ctx, fl)
    ctx.count("obligations")
    if len(els) != fl.n:
        ctx.violation(short + ":bytes", "the diagram of %s has %d bytes instead of %d" % (short, len(els), fl.n))
        return
    for i, x in enumerate(els):
        x = constrain(x, fl.cond)
        if own_atoms(x, fl.atoms):
            ctx.undecided("%s:byte%d" % (short, i), "depends on %s" % show(x, 4)[:160])
            continue
        for n in range(256):
            if expected(fl.ty, i, n) is None:
                continue
            ctx.count("obligations")
            y = at(x, {fl.atoms[i]: n})
            want = n & mask[i]
            wrong = [z for z in leaves(y) if z is not BOT and not (z.k == "int" and z.a[0] == want)]
            for z in wrong:
                if z.k != "int":
                    ctx.undecided("%s:byte%d" % (short, i), "content %s" % show(z, 3)[:120])
                    continue
                # only a violation if it's accepted with the other bytes that lead there
                g = And(leaf_guard(y, lambda q, z=z: q is z), at(fl.cond, {fl.atoms[i]: n}))
                if g is not F:
                    ctx.violation("%s:byte%d" % (short, i), "byte %d = 0x%02X of %s is shown as 0x%02X instead of 0x%02X" % (i, n, short, z.a[0], want),
                                  None if g is T else "if " + show(g, 3)[:200])
                    break
    ctx.sample({"type": short, "diagram bytes": [show(x, 2)[:60] for x in els]})


def geometry(ctx, fl, short):
    count, fields = FLAGS[fl.ty]
    want = {(m.bit_length() - 1 + (count - b - 1) * 8, bin(m).count("1")) for b, m, _, _, _ in fields}
    es = []
    for g, fs in fl.read(fl.info):
        g = And(g, fl.cond)
        if g is F:
            continue
        for off in leaves(fs["offset"]):
            for ln in leaves(fs["len"]):
                if off.k != "int" or ln.k != "int":
                    ctx.undecided(short + ":range", "position %s, width %s" % (show(off, 3)[:60], show(ln, 3)[:60]))
                    continue
                g2 = And(g, And(leaf_guard(fs["offset"], lambda y: y is off), leaf_guard(fs["len"], lambda y: y is ln)))
                if g2 is not F:
                    es.append((g2, off.a[0], ln.a[0]))
    for g, off, ln in es:
        ctx.count("obligations")
        if off >= count * 8 or ln < 1 or off - ln + 1 < 0:
            ctx.violation("%s:range:%d:%d" % (short, off, ln), "%s has a range at bit %d of width %d, outside of its %d bits" % (short, off, ln, count * 8))
        elif (off, ln) not in want:
            ctx.violation("%s:range:%d:%d" % (short, off, ln), "%s has a range at bit %d of width %d, which no field has" % (short, off, ln))
    for i, (g, off, ln) in enumerate(es):
        for g2, off2, ln2 in es[i + 1:]:
            ctx.count("obligations")
            if And(g, g2) is F:
                continue
            if off2 > off:
                ctx.violation("%s:order:%d:%d" % (short, off, off2), "%s lists the range at bit %d before the one at bit %d" % (short, off, off2))
            elif off2 > off - ln:
                ctx.violation("%s:overlap:%d:%d" % (short, off, off2), "the ranges of %s at bit %d (width %d) and bit %d overlap" % (short, off, ln, off2))


def digits(ctx, fl, short):
    """The digits that the diagram routine writes for given bytes and without ranges."""
    b = "emv::bitflag_values::BitflagValue"
    bits = raw_bytes(None, "bits")
    atoms, length = byte_atoms(fl.n, "bits"), App("len", (App("bits", (), "[u8]"),), LEN)
    opaque = {
        "<%s as %s>::get_binary_representation" % (fl.ty, b): lambda I, st, name, vs, ty: Seq((mk("span", T, bits),)),
        "<%s as %s>::get_bit_display_information" % (fl.ty, b): lambda I, st, name, vs, ty: Seq(()),
    }
    fn = "emv::bitflag_values::<impl DisplayBreakdown for %s>::display_breakdown" % fl.ty
    if fn not in ctx.p.fns:
        return  # isn't displayed on its own
    r = ctx.run(fn, display_args(App("value", (), fl.ty)), opaque=opaque)
    out = expand(r.out, {length: fl.n})
    for i in range(fl.n):
        one = at(out, {a: 0 for j, a in enumerate(atoms) if j != i})
        for n in range(256):
            ctx.count("obligations")
            toks = flatten(at(one, {atoms[i]: n}))
            if any(t.kind != "event" for t in toks if isinstance(t, Tok)):
                raise Undecided("unknown output: %s" % [t for t in toks if isinstance(t, Tok)][:2])
            text = "".join(t for t in toks if isinstance(t, str))
            shown = [w for w in text.split() if w]
            want = ["00000000"] * fl.n
            want[i] = format(n, "08b")
            if shown != want:
                ctx.violation(short + ":digits", "byte %d = 0x%02X of %s is drawn as %r instead of %r" % (i, n, short, " ".join(shown), " ".join(want)))
                return


def check(ctx):
    for ty in FLAGS:
        short = ty.split("::")[-1]
        with ctx.guardeds(ty):
            fl = Flag(ctx, ty)
            if fl.val is BOT:
                raise Undecided("never accepted")
            with ctx.guardeds(short + ": supplied bits"):
                supplied(ctx, fl, short)
            with ctx.guardeds(short + ": ranges"):
                geometry(ctx, fl, short)
            with ctx.guardeds(short + ": digits"):
                digits(ctx, fl, short)
