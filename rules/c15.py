"""C15: service codes are decoded digit by digit."""
from spec.service import DIGITS
from .show import *
from .tags import decoder
from .common import *

RULE = ("The summary of the conversion from a number of any 16-bit value must be Ok exactly for 0 to 999 and the invalid-number error "
        "otherwise. Composed with the summary of the display, the text for each of the 1000 numbers must be the number with at least three "
        "digits and, under each label, the meaning that the table gives for that digit. The summary of the conversion from two bytes must "
        "be a number parsed from the text that is, for each of the 65536 values, the four hex digits, given to the conversion from numbers. "
        "Reading a number from text must be the standard library's decimal parse of the whole text and refuse everything else as invalid.")

TY = "non_emv::service_code::ServiceCode"
CODE = "<%s as std::convert::TryFrom<u16>>::try_from" % TY
NUMBER = "util::parse_str_to_u16"
NUM = App("number", (), ("i", 0, 65535))


def foreign(v):
    """The terms that a value depends on besides the number and what is computed from it."""
    return {a for a in apps(v) if a not in (NUM, INDENT) and a.a[0] != "bv" and not (a.a[0] in ("div", "rem", "mul") and NUM in apps(a))}


def numbers(ctx):
    """Which numbers are accepted; returns the diagram of their decoded values."""
    fn = ctx.fn(CODE)
    if fn is None:
        return None
    r = ctx.run(fn, [NUM])
    ok, val = ok_part(r.ret)
    err = err_part(r.ret)
    if foreign(ok):
        raise Undecided("acceptance depends on %s" % show(ok, 3)[:200])
    whole = apps(ok) <= {NUM}
    for n in range(65536) if not whole else list(range(1100)):
        ctx.count("obligations")
        got = at(ok, {NUM: n})
        if got not in (T, F):
            raise Undecided("the number %d" % n)
        if (got is T) != (n <= 999):
            ctx.violation("range", "%s %s the number %d" % (ctx.loc(fn), "accepts" if got is T else "refuses", n))
            return None
    d = Or(And(ok, Not(lit(NUM, s_of(NUM, range(1000))))), And(lit(NUM, s_of(NUM, range(1000))), Not(ok)))
    if whole and d is not F:
        ctx.violation("range", "%s doesn't accept exactly the numbers 0 to 999" % ctx.loc(fn), show(ok, 4)[:300])
        return None
    for x in leaves(err):
        if x is BOT:
            continue
        if x.k != "adt":
            ctx.undecided("the error for large numbers", show(x, 3)[:100])
        elif variant_name(ctx.p, x) != "InvalidNumber":
            ctx.violation("error", "%s refuses numbers as %s" % (ctx.loc(fn), error_text(ctx.p, x)))
    return val


def shows(ctx, val):
    fn = ctx.display_fn(TY)
    if fn is None:
        return
    r = summary(ctx, fn, [Sref(val), None, INDENT, SEV])
    if unresolved(r.out):
        raise Undecided("the output has no closed form: %s" % sorted(unresolved(r.out)))
    if foreign(r.out):
        raise Undecided("the output depends on %s" % ", ".join(show(a, 3) for a in foreign(r.out))[:200])
    for n in range(1000):
        lines = [x.strip() for x in canon(at(r.out, {NUM: n}), lambda a: None).replace("<+0>", "").split("\n")]
        ctx.count("obligations", 6)
        if "%03d" % n != lines[0]:
            ctx.violation("number", "%s shows the number %d as %r" % (ctx.loc(fn), n, lines[0]))
            return
        for label, (pos, table) in DIGITS.items():
            digit = int(("%03d" % n)[pos])
            mine = [x.split(label, 1)[1].strip() for x in lines if label in x]
            if mine != [table[digit]]:
                ctx.violation(label, "%s shows %r under %r for the number %03d instead of %r" % (ctx.loc(fn), " / ".join(mine), label, n, table[digit]))
                return
    ctx.sample({"numbers": 1000, "labels": list(DIGITS)})


# ------------------------------------------------------------------ numbers from text


def parse_atoms(v):
    """The terms by which a value depends on a parsed text: [(whether it's a number, the number, text, type, radix)]."""
    out = {}
    for a in apps(v):
        if a.a[0] in ("parses", "parsed"):
            out.setdefault(a.a[1], {})[a.a[0]] = a
    return [(k[0], k[1], k[2], d.get("parses"), d.get("parsed")) for k, d in out.items()]


def untrimmed(v):
    """The text below any removal of characters at its ends, and what is removed: [(method, character)]."""
    cuts = []
    while v.k == "slice" and v.a[0].k == "app" and v.a[0].a[0] == "trimmed" and v.a[1] is F:
        inner, how = v.a[0].a[1][0], v.a[0].a[1][1:]
        if v.a[2] is not App("len", (v.a[0],), LEN):
            break
        if len(how) == 1 and how[0] in ("trim", "trim_start", "trim_end"):
            cuts.append((how[0], None))
        elif len(how) == 2 and how[0] in ("trim_matches", "trim_start_matches", "trim_end_matches") and how[1].k in ("int", "str"):
            cuts.append((how[0], chr(how[1].a[0]) if how[1].k == "int" else how[1].a[0]))
        else:
            break
        v = inner
    return v, cuts[::-1]


def cut(s, cuts):
    for how, c in cuts:
        if c is None:
            s = {"trim": s.strip(), "trim_start": s.lstrip(), "trim_end": s.rstrip()}[how]
            continue
        while c and how != "trim_end_matches" and s.startswith(c):
            s = s[len(c):]
        while c and how != "trim_start_matches" and s.endswith(c):
            s = s[:-len(c)]
    return s


def parse_rust(s, lo, hi):
    """What the standard library's decimal parse gives."""
    t = s[1:] if s[:1] == "+" else s
    if not t or not t.isdigit() or not t.isascii():
        return None
    n = int(t)
    return n if lo <= n <= hi else None


def text_numbers(ctx):
    fn = ctx.fn(NUMBER)
    if fn is None:
        return
    r = ctx.run(fn, [raw_str()])
    ok, val = ok_part(r.ret)
    ps = parse_atoms(r.ret)
    if len(ps) != 1:
        raise Undecided("the number is %s" % show(r.ret, 4)[:300])
    text, ty, radix, can, num = ps[0]
    ctx.count("obligations", 4)
    extra = {a for a in apps(r.ret) if a not in (can, num) and a not in apps(can) | apps(num)}
    if tainted(r.ret) or extra:
        raise Undecided("the number depends on %s" % show(r.ret, 4)[:300])
    if radix != 10:
        ctx.violation("radix", "%s reads numbers to the base %s" % (ctx.loc(fn), radix))
        return
    under, cuts = untrimmed(text)
    if under is not raw_str():
        raise Undecided("the parsed text is %s" % show(text, 4)[:200])
    lo, hi = ctx.p.irange(ty)
    for s in [str(n) for n in range(1000)] + ["%03d" % n for n in range(1000)]:
        ctx.count("obligations")
        if parse_rust(cut(s, cuts), lo, 65535) != int(s):
            ctx.violation("cut", "%s reads only %r of the text %r" % (ctx.loc(fn), cut(s, cuts), s))
            return
    if hi < 999:
        ctx.violation("type", "%s reads numbers as %s, which can't hold them" % (ctx.loc(fn), ty))
        return
    for n in (0, 1, 7, 42, 220, 255, 256, 999, 1000, 32768, 65535, 65536):
        if n > hi:
            continue
        ctx.count("obligations")
        x = at(r.ret, {can: 1, num: n})
        if x.k != "adt":
            raise Undecided("the number %d gives %s" % (n, show(x, 3)[:100]))
        if n <= 999 and (x.a[1] != 0 or x.a[2][0] is not Int(n)):
            ctx.violation("value", "%s gives %s for the text %r" % (ctx.loc(fn), describe(ctx.p, x), str(n)))
            return
        if x.a[1] == 0 and x.a[2][0] is not Int(n):
            ctx.violation("value", "%s gives %s for the text %r" % (ctx.loc(fn), describe(ctx.p, x), str(n)))
            return
    keep = lit(num, s_of(num, range(1000)))
    good = And(lit(can, 2), keep)
    if And(good, Not(ok)) is not F:
        ctx.violation("value", "%s refuses some numbers up to 999" % ctx.loc(fn), show(ok, 4)[:200])
    d = differ(within(val, good), num)
    if d is None:
        raise Undecided("the number is %s" % show(val, 4)[:200])
    if And(d, good) is not F:
        ctx.violation("value", "%s gives something other than the number that the text spells" % ctx.loc(fn), show(val, 4)[:200])
    c = And(ok, lit(can, 1))
    if c is not F:
        ctx.violation("text", "%s accepts text that isn't a number" % ctx.loc(fn), show(c, 4)[:200])
    for x in leaves(err_part(r.ret)):
        if x is not BOT and x.k == "adt" and variant_name(ctx.p, x) != "InvalidNumber":
            ctx.violation("text:error", "%s refuses text as %s" % (ctx.loc(fn), error_text(ctx.p, x)))
        elif x is not BOT and x.k != "adt":
            raise Undecided("the error is %s" % show(x, 3)[:100])


# ------------------------------------------------------------------ two-byte values


def spelled(view, atoms):
    """What a text of two bytes' digits is for each pair of bytes: a function."""
    if view.k != "slice" or view.a[0].k != "seq":
        raise Undecided("the text is %s" % show(view, 4)[:200])
    seq = view.a[0]
    tables, sizes = [], {}
    for s in seq.a[0]:
        if s.k != "el":
            raise Undecided("the text has %s" % s.k)
        deps = {a for v in s.a for a in apps(v) if a.a[0] != "raw"}
        if len(deps) > 1 or deps - set(atoms):
            raise Undecided("a digit depends on %s" % ", ".join(show(a, 2) for a in deps))
        a = next(iter(deps), None)
        row = []
        for n in range(256 if a is not None else 1):
            g, v = (at(x, {a: n}) if a is not None else x for x in s.a)
            if g is F:
                row.append("")
            elif g is T and v.k == "int":
                row.append(chr(v.a[0]))
            elif g is T and v.k == "pc" and render_piece(v) is not None:
                row.append(render_piece(v))
            elif g is T and v.k == "str":
                row.append(v.a[0])
            else:
                raise Undecided("a digit is %s" % show(v, 3)[:100])
        if len({len(x) for x in row}) > 1:
            raise Undecided("a digit has several lengths")
        sizes[App("len", (s.a[1],), LEN)] = len(row[0])
        tables.append((atoms.index(a) if a is not None else None, row))
    lo, hi = (at(x, sizes) for x in view.a[1:3])
    if lo.k != "int" or hi.k != "int":
        raise Undecided("the text is %s" % show(view, 4)[:200])
    lo, hi = lo.a[0], hi.a[0]
    return lambda pair: "".join(row[pair[i]] if i is not None else row[0] for i, row in tables)[lo:hi]


def two_bytes(ctx, val):
    fn = ctx.fn(decoder(TY))
    if fn is None:
        return
    atoms = byte_atoms(2)
    r = ctx.run(fn, [raw_bytes(2)])
    if tainted(r.ret):
        raise Undecided("the result is %s" % show(r.ret, 3)[:200])
    ps = parse_atoms(r.ret)
    wants = {}

    def expected(a, b):
        s = "%02X%02X" % (a, b)
        return int(s) if s.isdigit() and int(s) <= 999 else None

    def judge(a, b, x):
        n = expected(a, b)
        ctx.count("obligations")
        if x.k != "adt":
            raise Undecided("the bytes %02X %02X give %s" % (a, b, show(x, 3)[:200]))
        if n is None:
            if x.a[1] == 0:
                ctx.violation("bytes:accepts", "%s accepts the bytes %02X %02X" % (ctx.loc(fn), a, b), describe(ctx.p, x))
                return False
            e = variant_name(ctx.p, x.a[2][0]) if x.a[2][0].k == "adt" else None
            if e != "InvalidNumber":
                ctx.violation("bytes:error", "%s refuses the bytes %02X %02X as %s" % (ctx.loc(fn), a, b, e))
                return False
            return True
        if n not in wants:
            wants[n] = at(val, {NUM: n})
        if x.a[1] != 0:
            ctx.violation("bytes:refuses", "%s refuses the bytes %02X %02X" % (ctx.loc(fn), a, b), describe(ctx.p, x))
            return False
        if x.a[2][0] is not wants[n]:
            ctx.violation("bytes:value", "%s gives %s for the bytes %02X %02X, which spell %d" % (ctx.loc(fn), describe(ctx.p, x.a[2][0]), a, b, n))
            return False
        return True

    if not ps:
        if apps(r.ret) - set(atoms) - {raw_bytes().a[0]}:
            raise Undecided("the result depends on %s" % show(r.ret, 4)[:300])
        for a in range(256):
            half = at(r.ret, {atoms[0]: a})
            for b in range(256):
                if not judge(a, b, at(half, {atoms[1]: b})):
                    return
        return
    if len(ps) != 1:
        raise Undecided("several texts are parsed")
    text, ty, radix, can, num = ps[0]
    known = apps(can) | apps(num) | {can, num} if can is not None and num is not None else set()
    if {a for a in apps(r.ret) - known if not (a.a[0] in ("div", "rem", "mul") and num in apps(a))}:
        raise Undecided("the result depends on %s" % show(r.ret, 4)[:300])
    if radix != 10:
        ctx.violation("bytes:radix", "%s reads the digits to the base %s" % (ctx.loc(fn), radix))
        return
    under, cuts = untrimmed(text)
    spell = spelled(under, atoms)
    lo, hi = ctx.p.irange(ty)
    cache = {}
    for a in range(256):
        for b in range(256):
            n = parse_rust(cut(spell((a, b)), cuts), lo, hi)
            if n not in cache:
                cache[n] = at(r.ret, {can: 0} if n is None else {can: 1, num: n})
            if not judge(a, b, cache[n]):
                return
    ctx.sample({"two-byte values": 65536, "text": show(text, 3)[:100]})


def check(ctx):
    with ctx.guardeds("numbers"):
        val = numbers(ctx)
        if val is None:
            return
        with ctx.guardeds("the display"):
            shows(ctx, val)
        with ctx.guardeds("two-byte values"):
            two_bytes(ctx, val)
    with ctx.guardeds("text"):
        text_numbers(ctx)
