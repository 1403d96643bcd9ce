"""C22: everything in the data is displayed."""
import re
from .show import *
from .c03 import unfold
from .tags import key_of, decoder, text_of
from .common import *

RULE = ("The display of a node is summarised for each form of element (unknown, named, decoded; readable or masked), with the displays of the "
        "tag and of the raw bytes as a part of it and the displays of child blocks and decoded values as events. The summary is a text whose "
        "placeholders are the terms for the tag's bytes, the value's bytes and the name. For value lengths 0 to 36 and around every constant that "
        "the summary compares with, for tag lengths and child counts likewise: there must be one line at the caller's indentation that has the "
        "hex digits (as a function of the byte, for all 256 of them) of exactly the tag's bytes in order, the value's length or an unknown one, and "
        "the name; the value's bytes must be there in hex, each once and in order, unless masked; a decoded value's breakdown must be displayed "
        "once, and the children once and one level deeper. The display of a block must display each node once, in order and at the same level. "
        "For a tag's information, the same for its bytes and name, and its class and type must be those of its first byte for all 256 of them.")

BLOCK = "emv::tlv_parsing::ProcessedEmvBlock"
NODE = "emv::tlv_parsing::ProcessedEmvNode"
TAG = "emv::tlv_parsing::ProcessedEmvTag"
RAW = "emv::tlv_parsing::RawEmvTag"
DATA = "emv::tlv_parsing::EmvData"
INFO = "emv::tag_basic_info::TagBasicInfo"
IDENTIFY = "emv::tlv_parsing::process_emv_tag::identify_tag"
CLASSES = ("Universal", "Application", "Context-Specific", "Private")
TYPES = ("Primitive", "Constructed")
MOST = 700


def many(p, name, ty, n=None):
    """A vector of unknown elements and its length."""
    base = App(name, (), "std::vec::Vec<%s>" % ty if "<" not in ty else ty)
    size = App("len", (base,), LEN)
    return base, size, Seq((mk("span", T, Slice(base, F, size if n is None else Int(n))),))


def struct(p, path, variant=None, **fields):
    ty = key_of(p, path)
    vs = p.variants(ty)
    i = 0 if variant is None else next((i for i, v in enumerate(vs) if v["n"] == variant), None)
    if i is None:
        raise Undecided("%s has no variant %s" % (path, variant))
    known = {f[0] for f in vs[i]["f"]}
    if set(fields) - known - {"0"} and not set(fields) <= known:
        raise Undecided("%s has other fields" % path)
    return Adt(ty, i, [fields.get(f[0], None) if f[0] in fields else p.opaque(path + "." + f[0], (), f[1]) for f in vs[i]["f"]])


def field_type(p, path, variant, name):
    ty = key_of(p, path)
    for v in p.variants(ty):
        if variant is None or v["n"] == variant:
            for f in v["f"]:
                if f[0] == name:
                    return f[1]
    raise Undecided("%s has no field %s" % (path, name))


# ------------------------------------------------------------------ what is written, as lines of items


SPELLED = {}


def tab_string(v):
    """How many tabs more than the caller's indentation a text made of tabs has, or None."""
    if v.k != "slice" or v.a[1] is not F:
        return None
    b = v.a[0]
    if b.k != "app" or b.a[0] != "str:repeat" or v.a[2] is not App("len", (b,), LEN) or b.a[1][0] not in (Str("\t"), Int(9)):
        return None
    d = Sub(b.a[1][1], INDENT)
    return d.a[0] if d.k == "int" else None


class Out:
    """What a display writes: (kind, ...) items, with line ends as ("end",)."""

    def __init__(self, seq, groups, texts):
        self.groups, self.texts = groups, texts  # {byte term: (group, index)}, {text base: name}
        self.items = []
        self.run = None
        for t in flatten(seq):
            self.add(t)
        self.flush()

    def add(self, t):
        if isinstance(t, str):
            self.flush()
            parts = t.split("\n")
            for i, s in enumerate(parts):
                if i:
                    self.items.append(("end",))
                if s:
                    self.items.append(("text", s))
            return
        if t.kind == "event":
            k = t.v.a[0]
            if k in ("color", "reset"):
                return
            if k in ("call", "dyncall"):
                self.flush()
                self.items.append(("call", t))
                return
        if t.kind == "rep":
            if t.v.a[0] is F:
                return
            n = tabs(t.v)
            body = t.v.a[4]
            if n is not None or body and all(x.k == "el" and x.a[1] in (Str("\t"), Str(" ")) for x in body):
                self.flush()
                self.items.append(("tabs", n, t))
                return
        if t.kind == "span":
            n = tab_string(t.v)
            if n is not None:
                self.flush()
                self.items.append(("tabs", n if t.g is T else None, t))
                return
        if t.kind == "span" and t.g is T:
            for b, name in self.texts.items():
                if t.v.k == "slice" and t.v.a[0] is b:
                    self.flush()
                    self.items.append(("name", name) if t.v.a[1] is F and t.v.a[2] is App("len", (b,), LEN) else ("part", name))
                    return
        if t.kind in ("fmt", "text", "int", "app", "dd"):
            mine = (apps(t.v) | apps(t.g)) & set(self.groups)
            if len(mine) == 1 and not tainted(t.v, t.g):
                a = next(iter(mine))
                f = self.spelling(t, a)
                if f is not None:
                    if self.run is None or self.run[0] is not a:
                        self.flush()
                        self.run = (a, [""] * 256)
                    self.run = (a, [x + y for x, y in zip(self.run[1], f)])
                    return
        self.flush()
        self.items.append(("other", t))

    def spelling(self, t, a):
        """What is written for each value of a byte."""
        x = App("byte", (), U8)
        key = (subst(t.v, {a: x}), subst(t.g, {a: x}))
        if key not in SPELLED:
            SPELLED[key] = self.spell(Tok(t.kind, *key), x)
        return SPELLED[key]

    def spell(self, t, a):
        out = []
        for x in range(256):
            g = at(t.g, {a: x})
            if g is F:
                out.append("")
                continue
            if g is not T:
                return None
            v = t.v
            if v.k == "pc":
                b = at(v.a[1], {a: x})
                s = render_piece(mk("pc", v.a[0], b, v.a[2])) if b.k in ("int", "str", "seq") else None
            else:
                v = at(v, {a: x})
                s = v.a[0] if v.k == "str" else chr(v.a[0]) if v.k == "int" else None
            if s is None:
                return None
            out.append(s)
        return out

    def flush(self):
        if self.run is None:
            return
        a, f = self.run
        self.run = None
        group = self.groups[a]
        if [s.upper() for s in f] == ["%02X" % x for x in range(256)]:
            self.items.append(("hex", group[0], group[1]))
        elif all(len(s) == 1 for s in f):
            self.items.append(("char", group[0], group[1]))
        else:
            self.items.append(("odd", group[0], group[1], f))

    def lines(self):
        out = [[]]
        for i in self.items:
            if i[0] == "end":
                out.append([])
            else:
                out[-1].append(i)
        return out

    def unknown(self):
        return [i[1] for i in self.items if i[0] == "other"]

    def hexes(self, group):
        return [i[2] for i in self.items if i[0] == "hex" and i[1] == group]

    def calls(self):
        return [i[1] for i in self.items if i[0] == "call"]

    def text(self):
        return "\n".join("".join(i[1] for i in l if i[0] == "text") for l in self.lines())


def show_line(l):
    return "".join(i[1] if i[0] == "text" else "<%s>" % ":".join(str(x) for x in i[:3]) if i[0] != "tabs" else "\\t" for i in l)[:160]


def constants(*vs):
    """The numbers that a summary compares with."""
    out, seen = set(), set()

    def walk(v):
        if not isinstance(v, V) or v in seen:
            return
        seen.add(v)
        if v.k == "int":
            out.add(abs(v.a[0]))
        elif v.k == "lin":
            out.add(abs(v.a[1]))
            for t, c in v.a[0]:
                out.add(abs(c))
                walk(t)
        elif v.k == "dd":
            for s, c in v.a[1]:
                out.add(s_min(v.a[0], s))
                walk(c)
            walk(v.a[0])
        else:
            for x in v.a:
                for y in x if isinstance(x, tuple) else (x,):
                    walk(y)
    for v in vs:
        walk(v)
    return out


def around(cs, base, most, by=(-1, 0, 1, 17)):
    out = set(base)
    for c in cs:
        out |= {c + x for x in by if 0 <= c + x <= most}
    return sorted(out)


# ------------------------------------------------------------------ the display of a node


class NodeCase:
    """The display of a node of one form."""

    def __init__(self, ctx, fn, variant, masked):
        p = self.p = ctx.p
        self.ctx, self.fn, self.variant, self.masked = ctx, fn, variant, masked
        self.what = "%s, %s" % ({"Raw": "an unknown element", "Annotated": "a named element", "Parsed": "a decoded element"}[variant],
                                "masked" if masked else "readable")
        self.parsed = p.opaque("parsed", (), field_type(p, TAG, "Parsed", "parsed"))
        self.name = App("name", (), "str")
        self.nodes = many(p, "nodes", NODE)
        self.tag = many(p, "tag", "u8")
        self.data = many(p, "data", "u8")
        self.block = App("block", (), key_of(p, BLOCK))
        self.r, self.cs = None, set()
        try:
            r = self.summary(None, None, None)
            self.cs = constants(r.out)
            if not unresolved(r.out) and r.guard is T:
                self.r = r
        except Undecided:
            pass

    def value(self, nt, nd, nc):
        p = self.p
        t = many(p, "tag", "u8", nt)[2]
        d = struct(p, DATA, "Masked") if self.masked else Adt(key_of(p, DATA), self.normal(), (many(p, "data", "u8", nd)[2],))
        raw = struct(p, RAW, tag=t, data=d)
        fs = {"raw_tag": raw}
        if self.variant != "Raw":
            fs["name"] = Slice(self.name, F, App("len", (self.name,), LEN))
        if self.variant == "Parsed":
            fs["parsed"] = self.parsed
        return struct(p, NODE, tag=struct(p, TAG, self.variant, **fs), child_block=struct(p, BLOCK, nodes=many(p, "nodes", NODE, nc)[2]))

    def normal(self):
        return next(i for i, v in enumerate(self.p.variants(key_of(self.p, DATA))) if v["n"] == "Normal")

    def summary(self, nt, nd, nc):
        p = self.p
        inlined = {self.ctx.display_fn(TAG), self.ctx.display_fn(RAW)}
        o = {f: shown for f in displays(p) if f not in inlined and f != self.fn}
        o.update({f: shown for f in p.fns if f.endswith("#ShimReify") and is_display(f)})
        vals.coarse(True)
        try:
            return self.ctx.run(self.fn, [mk("sref", self.value(nt, nd, nc)), None, INDENT, SEV], opaque=o, limit=60,
                                short=0 if nd is None else max(nt, nd, nc, 16) + 2, plain=True)
        finally:
            vals.coarse(False)

    def at(self, nt, nd, nc):
        if self.r is not None:
            m = {self.tag[1]: nt, self.data[1]: nd, self.nodes[1]: nc}
            q = expand(unfold(subst(self.r.out, {t: Int(n) for t, n in m.items()})), m)
        else:
            r = self.summary(nt, nd, nc)
            if r.guard is not T:
                raise Undecided("whether the display ends")
            q = expand(unfold(r.out))
        groups = {App("elem", (self.tag[0], Int(i)), U8): ("tag", i) for i in range(nt)}
        groups.update({App("elem", (self.data[0], Int(i)), U8): ("data", i) for i in range(nd)})
        return Out(q, groups, {self.name: "name"})

    def check(self):
        cs = self.cs
        self.shapes = 0
        deep = self.ctx.tier == "thorough"
        sizes = around(cs, list(range(37)) + [47, 48, 49, 64, 255, 256, 300], MOST) if deep else around(cs, list(range(36)) + [48, 256], MOST, (0, 1) if self.r is None else (-1, 0, 1))
        for nd in [3] if self.masked else sizes:
            self.shape(2, nd, 0)
        for nt in around(cs, range(0, 7), 40 if deep else 18):
            for nd in (0, 1, 5) if deep else (1,):
                self.shape(nt, nd, 0)
        for nc in around(cs, range(0, 4), 300 if deep else 18):
            self.shape(2, 1, nc)
        self.ctx.sample({"display of": self.what, "shapes": self.shapes, "closed form for all lengths": self.r is not None})

    def shape(self, nt, nd, nc):
        ctx = self.ctx
        ctx.count("obligations")
        self.shapes += 1
        o = self.at(nt, nd, nc)
        msg = self.judge(o, nt, nd, nc)
        if msg is None:
            return
        if o.unknown():
            raise Undecided("%s: %s; there is %r" % (self.what, msg, o.unknown()[0]))
        k = msg.split(":")[0].split(" <")[0]
        ctx.violation("%s:%s:%s" % (self.variant, "masked" if self.masked else "readable", re.sub(r"\d+", "", k)[:60]),
                      "%s, for %s with %d tag bytes, %s and %d children: %s" % (ctx.loc(self.fn), self.what, nt,
                                                                           "a masked value" if self.masked else "a value of %d bytes" % nd, nc, msg))

    def judge(self, o, nt, nd, nc):
        ls = o.lines()
        heads = [l for l in ls if any(i[0] == "hex" and i[1] == "tag" for i in l)]
        if nt:
            odd = [i for i in o.items if i[0] == "odd" and i[1] == "tag"]
            if odd:
                return "a tag byte is displayed as %s" % ", ".join(repr(x) for x in odd[0][3][:3])
            if len(heads) != 1:
                return "the tag is displayed on %d lines" % len(heads)
            l = heads[0]
            got = [i[2] for i in l if i[0] == "hex" and i[1] == "tag"]
            if got != list(range(nt)):
                return "the tag's bytes are displayed as %s" % got
            text = "".join(i[1] if i[0] == "text" else "\0" for i in l)
            if self.variant == "Raw":
                if "<Unknown>" not in text:
                    return "the missing name isn't displayed as <Unknown>: %s" % show_line(l)
            elif [i for i in l if i[0] in ("name", "part")] != [("name", "name")]:
                return "the name isn't displayed as it is: %s" % show_line(l)
            elif "<Unknown>" in text:
                return "a named element is displayed as unknown"
            rest = text.replace("<Unknown>", "").replace("0x\0", "\0")
            nums = [int(x) for x in re.findall(r"(?<![\w])\d+(?![\w])", rest)]
            if self.masked:
                if nums or not ("?" in rest or "nknown" in rest):
                    return "the length of a masked value isn't displayed as unknown: %s" % show_line(l)
            elif nums != [nd]:
                return "the length is displayed as %s: %s" % (nums, show_line(l))
            if l[0][0] == "tabs":
                if l[0][1] is None:
                    raise Undecided("%s: the indentation %r" % (self.what, l[0][2]))
                if l[0][1] != 0:
                    return "the element isn't displayed at its own level"
            else:
                return "the element isn't indented: %s" % show_line(l)
        got = o.hexes("data")
        odd = [i for i in o.items if i[0] == "odd" and i[1] == "data"]
        if odd:
            return "a value's byte is displayed as %s" % ", ".join(repr(x) for x in odd[0][3][:3])
        if self.masked:
            if got:
                return "a masked value is displayed"
            if "masked" not in o.text().lower():
                return "a masked value isn't displayed as masked"
        else:
            if got != list(range(nd)):
                if sorted(set(got)) == list(range(nd)):
                    return "the value's bytes aren't displayed once each and in order"
                return "the value's bytes are displayed as %s" % brief(got)
            if "masked" in o.text().lower():
                return "a readable value is displayed as masked"
        return self.parts(o, nc)

    def parts(self, o, nc):
        bl, no = self.ctx.display_fn(BLOCK), self.ctx.display_fn(NODE)
        dyn = 0
        kids = []
        for t in o.calls():
            if t.g is not T:
                if tainted(t.g):
                    raise Undecided("%s: when a part is displayed" % self.what)
                return "a part is only displayed sometimes"
            a = t.v.a
            if a[0] == "dyncall":
                v = strip_refs(a[2][0] if isinstance(a[2], tuple) else a[2].a[0][0])
                if self.parsed in apps(v) or v is self.parsed or apps(self.parsed) & apps(v):
                    dyn += 1
                    continue
                return "something else is displayed by %s" % show(v, 3)[:80]
            v = strip_refs(a[2])
            if a[1] == bl:
                if v.k != "adt":
                    raise Undecided("%s: the block %s" % (self.what, show(v, 2)))
                c = self.contents(v.a[2][0])
                if c is None:
                    raise Undecided("%s: the children %s" % (self.what, show(v, 3)[:100]))
                kids.append((c[0], c[1], a[4]))
            elif a[1] == no:
                i = self.index(v)
                if i is None:
                    raise Undecided("%s: the child %s" % (self.what, show(v, 3)[:100]))
                kids.append((i, i + 1, a[4]))
            else:
                return "something else is displayed by %s" % a[1]
        if dyn != (1 if self.variant == "Parsed" else 0):
            return "the breakdown is displayed %d times" % dyn
        got = [i for a, b, _ in kids for i in range(a, b)]
        if got != list(range(nc)):
            return "the children are displayed as %s" % brief(got)
        for a, b, ind in kids:
            if a != b and ind is not Add(INDENT, T):
                if tainted(ind):
                    raise Undecided("%s: the children's level" % self.what)
                return "the children aren't displayed one level deeper, but at %s" % show(ind, 3)[:60]
        return None

    def contents(self, v):
        """The range of the children that a block has."""
        if v.k == "seq" and not v.a[0]:
            return 0, 0
        if v.k == "seq" and len(v.a[0]) == 1 and v.a[0][0].k == "span" and v.a[0][0].a[0] is T:
            w = v.a[0][0].a[1]
            if w.k == "slice" and w.a[0] is self.nodes[0] and w.a[1].k == "int" and w.a[2].k == "int":
                return w.a[1].a[0], w.a[2].a[0]
        return None

    def index(self, v):
        return index_of(v, self.nodes[0])


def index_of(v, base):
    ix = {a.a[1][1] for a in apps(v) if a.a[0].startswith("elem") and a.a[1][0] is base}
    if len(ix) == 1:
        i = ix.pop()
        if i.k == "int":
            return i.a[0]
    return None


def brief(xs):
    xs = [str(x) for x in xs]
    return "[%s]" % ", ".join(xs if len(xs) <= 12 else xs[:10] + ["...", xs[-1]])


# ------------------------------------------------------------------ the display of a block


def block(ctx):
    p = ctx.p
    fn, node = ctx.display_fn(BLOCK), ctx.display_fn(NODE)
    if fn is None or node is None:
        return
    base, size, _ = many(p, "nodes", NODE)

    def summarise(n):
        v = struct(p, BLOCK, nodes=many(p, "nodes", NODE, n)[2])
        o = {f: shown for f in displays(p) if f != fn}
        return ctx.run(fn, [mk("sref", v), None, INDENT, SEV], opaque=o, limit=30, short=0 if n is None else n + 2, plain=True)
    whole = summarise(None)
    cs = constants(whole.out)
    closed = not unresolved(whole.out)
    for n in around(cs, range(0, 8), 300):
        ctx.count("obligations")
        q = expand(whole.out, {size: n}) if closed else expand(summarise(n).out)
        o = Out(q, {}, {})
        if o.unknown():
            raise Undecided("the display of a block: %r" % o.unknown()[0])
        if o.text().strip():
            ctx.violation("block:text", "%s displays something besides its nodes: %r" % (ctx.loc(fn), o.text()[:60]))
        got = []
        for t in o.calls():
            a = t.v.a
            i = index_of(a[2], base)
            if a[1] != node or i is None:
                raise Undecided("the display of a block: %r" % t)
            if t.g is not T:
                if tainted(t.g):
                    raise Undecided("when a node is displayed")
                ctx.violation("block:skips", "%s displays a node only when %s" % (ctx.loc(fn), show(t.g, 3)[:100]))
            got.append(i)
            if a[4] is not INDENT:
                if tainted(a[4]):
                    raise Undecided("a node's level")
                ctx.violation("block:level", "%s doesn't display its nodes at its own level, but at %s" % (ctx.loc(fn), show(a[4], 3)[:60]))
        if got != list(range(n)):
            ctx.violation("block:nodes", "%s displays the nodes %s of a block with %d" % (ctx.loc(fn), brief(got), n))
    ctx.sample({"display of a block": fn, "closed form for all lengths": closed})


# ------------------------------------------------------------------ the information about a tag


def info(ctx):
    p = ctx.p
    fn = ctx.display_fn(INFO)
    if fn is None:
        return
    name = App("name", (), "str")
    base, size, _ = many(p, "tag", "u8")
    opt = field_type(p, INFO, None, "name")
    cls_ty, dot_ty = field_type(p, INFO, None, "class"), field_type(p, INFO, None, "data_object_type")
    some = Adt(opt, 1, (Slice(name, F, App("len", (name,), LEN)),))
    none = Adt(opt, 0, ())

    def order(ty, names):
        vs = [v["n"] for v in p.variants(ty)]
        want = [x.replace("-", "") for x in names]
        if sorted(vs) != sorted(want):
            raise Undecided("%s has other values" % ty)
        return [vs.index(x) for x in want]
    for has in (True, False):
        v = lambda n: struct(p, INFO, tag=many(p, "tag", "u8", n)[2], name=some if has else none)
        vals.coarse(True)
        try:
            r = ctx.run(fn, [mk("sref", v(None)), None, INDENT, SEV], limit=30)
        finally:
            vals.coarse(False)
        for ci, cd in enumerate(order(cls_ty, CLASSES)):
            for ti, td in enumerate(order(dot_ty, TYPES)):
                m = {}
                for a in apps(r.out):
                    if a.a[0] == "discr":
                        b = a.a[1][0]
                        if b.k == "app" and "class" in b.a[0]:
                            m[a] = cd
                        elif b.k == "app" and "data_object_type" in b.a[0]:
                            m[a] = td
                for n in around(constants(r.out), range(0, 6), 40) if (ci, ti) == (0, 0) else (1, 2):
                    ctx.count("obligations")
                    q = r.out
                    if unresolved(q):
                        raise Undecided("the display of a tag's information isn't in closed form")
                    o = Out(expand(q, {**m, size: n}), {App("elem", (base, Int(i)), U8): ("tag", i) for i in range(n)}, {name: "name"})
                    text = o.text()
                    words = [w for w in CLASSES + TYPES if re.search(r"(?<![\w-])%s(?![\w-])" % w, text)]
                    msg = None
                    if o.hexes("tag") != list(range(n)):
                        msg = "the tag's bytes are displayed as %s" % brief(o.hexes("tag"))
                    elif [i[1] for i in o.items if i[0] in ("name", "part")] != (["name"] if has else []) or any(i[0] == "part" for i in o.items):
                        msg = "the name isn't displayed as it is"
                    elif ("<Unknown>" in text) == has:
                        msg = "the name is displayed as %s" % ("unknown although there is one" if has else "something other than <Unknown>")
                    elif words != [CLASSES[ci], TYPES[ti]]:
                        msg = "%s, %s is displayed as %s" % (CLASSES[ci], TYPES[ti], ", ".join(words) or "nothing")
                    if msg:
                        if o.unknown():
                            raise Undecided("the display of a tag's information: %s; %r" % (msg, o.unknown()[0]))
                        ctx.violation("info:" + re.sub(r"\d+", "", msg)[:50], "%s, for a tag of %d bytes: %s" % (ctx.loc(fn), n, msg))


def decoding(ctx):
    p = ctx.p
    fn = ctx.fn(decoder(INFO))
    ident = ctx.fn(IDENTIFY)
    if fn is None or ident is None:
        return
    vec, base = raw_bytes(), None
    r = ctx.run(fn, [vec], opaque={IDENTIFY: lambda I, st, name, vs, ty: I.uninterpreted(st, name, vs, ty)})
    base = view_base(vec)
    size = App("len", (base,), LEN)
    ok, val = ok_part(r.ret)
    first = App("elem", (base, F), U8)
    ident_ty = p.fns[ident]["locals"][0]
    want_name = p.opaque("call:" + IDENTIFY, (vec,), ident_ty)
    for n in range(1, 7):
        v = at(val, {size: n})
        g = at(And(r.guard, ok), {size: n})
        ctx.count("obligations")
        if g is not T:
            if tainted(g):
                raise Undecided("which tags are identified")
            ctx.violation("info:refused", "%s refuses to identify some tags of %d bytes" % (ctx.loc(fn), n), show(g, 4)[:200])
            continue
        for x in leaves(v):
            if x is BOT:
                continue
            fs = {f[0]: x.a[2][i] for i, f in enumerate(p.variants(x.a[0])[0]["f"])}
            ctx.count("obligations")
            t = fs["tag"]
            for i in range(n):
                e = interp.elem(interp.view_of(t), Int(i))
                if e is not App("elem", (base, Int(i)), U8):
                    if tainted(e):
                        raise Undecided("the identified tag")
                    ctx.violation("info:tag", "%s doesn't keep byte %d of the tag" % (ctx.loc(fn), i))
            nm = at(want_name, {size: n})
            got = fs["name"]
            for a in [a for a in apps(got) if a.a[0] == "call:" + IDENTIFY]:
                same = same_bytes(a.a[1][0], base, n, size)
                if same is None:
                    raise Undecided("which name is looked up: %s" % show(a, 4)[:100])
                if not same:
                    ctx.violation("info:name", "%s looks up the name of something other than the tag, for one of %d bytes" % (ctx.loc(fn), n), show(a, 4)[:200])
                got = subst(got, {a: next(x for x in apps(nm) if x.a[0] == a.a[0])})
            d = differ(got, nm)
            if d is None or (d is not F and tainted(fs["name"])):
                raise Undecided("the identified name: %s" % show(fs["name"], 3)[:100])
            if d is not F:
                ctx.violation("info:name", "%s doesn't give the name of exactly this tag" % ctx.loc(fn), show(fs["name"], 3)[:200])
    for b in range(256):
        ctx.count("obligations")
        x = at(val, {size: 2, first: b})
        for y in leaves(x):
            if y is BOT:
                continue
            fs = {f[0]: y.a[2][i] for i, f in enumerate(p.variants(y.a[0])[0]["f"])}
            c, t = fs["class"], fs["data_object_type"]
            wrong = [z for z in leaves(c) if z.k == "adt" and variant_name(p, z) != CLASSES[b >> 6].replace("-", "")]
            wrong += [z for z in leaves(t) if z.k == "adt" and variant_name(p, z) != TYPES[b >> 5 & 1]]
            if (c.k != "adt" or t.k != "adt") and wrong and not tainted(c, t):
                ctx.violation("info:class", "%s gives some tags that start with %02X as %s" % (ctx.loc(fn), b, variant_name(p, wrong[0])), show(c, 4)[:200])
                continue
            if c.k != "adt" or t.k != "adt":
                raise Undecided("the class of a tag that starts with %02X" % b)
            got = (variant_name(p, c), variant_name(p, t))
            want = (CLASSES[b >> 6].replace("-", ""), TYPES[b >> 5 & 1])
            if got != want:
                ctx.violation("info:class", "%s gives a tag that starts with %02X as %s, %s instead of %s, %s" % ((ctx.loc(fn), b) + got + want))


def same_bytes(v, base, n, size):
    """Whether a view has exactly the bytes of a text of n, or None."""
    w = interp.view_of(strip_refs(v))
    if w is None:
        return None
    l = at(interp.length_of(w), {size: n})
    if l.k != "int":
        return None if tainted(l) else False
    if l.a[0] != n:
        return False
    return all(at(interp.elem(w, Int(i)), {size: n}) is App("elem", (base, Int(i)), U8) for i in range(n))


def view_base(v):
    v = strip_refs(v)
    w = v.a[0][0].a[1] if v.k == "seq" else v
    return w.a[0]


def check(ctx):
    fn = ctx.display_fn(NODE)
    if fn is not None:
        for variant in ("Raw", "Annotated", "Parsed"):
            for masked in (False, True):
                if masked and variant == "Parsed":
                    continue
                with ctx.guardeds("the display of a node, %s" % variant):
                    NodeCase(ctx, fn, variant, masked).check()
    with ctx.guardeds("the display of a block"):
        block(ctx)
    with ctx.guardeds("the display of a tag's information"):
        info(ctx)
    with ctx.guardeds("the information about a tag"):
        decoding(ctx)
