"""The summary of `main`, shared by C09, C18, C19, C20, C24 and C26."""
from spec.options import OPERATIONS, OPTION_NAMES, SETTING_NAMES, MISSING
from .tags import *

BLOCK = "<emv::tlv_parsing::ProcessedEmvBlock as std::convert::TryFrom<emv::tlv_parsing::RawEmvBlock>>::try_from"
BLOCK_TY = "emv::tlv_parsing::ProcessedEmvBlock"
SORT = "emv::tlv_parsing::ProcessedEmvBlock::sort_nodes"
HEX = "util::parse_hex_str"
NUMBER = "util::parse_str_to_u16"
CLI = "cli::build_cli"
CODE = "<non_emv::service_code::ServiceCode as std::convert::TryFrom<u16>>::try_from"
PARSERS = ["emv::tlv_parsing::%s::parse" % m for m in ("auto_tlv", "ber_tlv", "ingenico_tlv")]


def shown(I, st, name, vs, ty):
    I.emit(st, "call", name, *[I.snapshot(st, v) for v in vs])
    return UNIT


def is_display(f):
    return f.endswith("::display_breakdown") and "DisplayBreakdown" in f


def pinned(p):
    o = {f: uninterpreted for f in p.fns if f.endswith("std::convert::TryFrom<&[u8]>>::try_from")}
    for f in PARSERS + [BLOCK, SORT, HEX, NUMBER, CLI, CODE]:
        o[f] = uninterpreted
    o.update({f: shown for f in p.fns if is_display(f)})
    return o


def payload(v, variant):
    return smap(lambda x: x.a[2][0] if x.k == "adt" and x.a[1] == variant else BOT, v)


def as_view(v):
    """A text or byte sequence as the view of it that functions get."""
    if v.k in ("sref", "mref"):
        v = v.a[0]
    return view(v) if v.k == "seq" else v


class Flow:
    def __init__(self, ctx):
        p = self.p = ctx.p
        self.ctx = ctx
        for f in PARSERS + [BLOCK, SORT, HEX, NUMBER, CLI, CODE]:
            if ctx.fn(f) is None:
                raise Undecided("anchor " + f)
        self.r = ctx.run(ctx.fn("main"), [], opaque=pinned(p))
        self.option, self.setting = {}, {}
        terms = apps(self.r.out)
        for c in self.r.I.calls:
            terms = terms | apps(c[4])
        self.terms = terms
        for a in terms:
            if a.a[0] == "discr":
                b = a.a[1][0]
                op = b.a[0] if b.k == "app" else ""
                if op.startswith("call:ArgMatches::") and len(b.a[1]) > 1 and b.a[1][1].k == "str":
                    n = b.a[1][1].a[0]
                    if op in ("call:ArgMatches::get_one", "call:ArgMatches::remove_one"):
                        self.option.setdefault(n, []).append((a, b))
                elif op.startswith("call:Figment::extract") and "@" not in op:
                    self.setting.setdefault(b.a[1][1].a[0] if len(b.a[1]) > 1 and b.a[1][1].k == "str" else "", []).append((a, b))

    def selected(self, name):
        """Atom values for the case that exactly this operation is given and all settings are valid."""
        m = {}
        for n, ats in self.option.items():
            if n in OPERATIONS:
                for a, _ in ats:
                    m[a] = 1 if n == name else 0
        for ats in self.setting.values():
            for a, _ in ats:
                m[a] = 0
        return m

    def given(self, name):
        """The text that the option is given with, as the view that is decoded."""
        a, b = self.option[name][0]
        return as_view(payload(self.p.opaque(b.a[0], b.a[1], b.a[2]), 1))

    def setting_value(self, key, m):
        ats = self.setting.get(key)
        if not ats:
            return None
        _, b = ats[0]
        return at(payload(self.p.opaque(b.a[0], b.a[1], b.a[2]), 0), m)

    def ret_type(self, fn):
        return self.p.fns[fn]["locals"][0]

    def call(self, fn, *args):
        return self.p.opaque("call:" + fn, args, self.ret_type(fn))

    def operation(self, name):
        return Operation(self, name)


class Operation:
    """What the program does for one operation, and what it should decode."""

    def __init__(self, flow, name):
        self.f, self.name = flow, name
        p = flow.p
        m = self.m = flow.selected(name)
        self.toks = flatten(at(flow.r.out, m))
        self.displays = [t for t in events(self.toks) if t.v.a[0] == "call"]
        self.errors = [t for t in events(self.toks) if t.v.a[0] == "eprint"]
        self.texts = [t for t in self.toks if isinstance(t, str) or t.kind not in ("event",)]
        ty, how = OPERATIONS[name]
        text = flow.given(name)
        self.block = None
        if how == "hex":
            self.input = as_view(flow.call(HEX, text))
            d = flow.call(decoder(ty), self.input)
            self.ok, self.value = ok_part(d)
            self.error = err_part(d)
            self.display = flow.ctx.display_fn(ty)
            self.steps = [d]
        elif how == "number":
            n = flow.call(NUMBER, text)
            okn, num = ok_part(n)
            d = smap(lambda x: flow.call(CODE, x), num)
            okd, self.value = ok_part(d)
            self.ok = And(okn, okd)
            self.error = join(Not(okn), err_part(n), And(okn, Not(okd)), err_part(d))
            self.display = flow.ctx.display_fn(ty)
            self.steps = [n, d]
        else:
            mask = flow.setting_value("masking_characters", m)
            if mask is None:
                raise Undecided("the masking characters setting isn't read")
            src = as_view(flow.call(HEX, text)) if how == "tlv-hex" else text
            self.input = src
            q = flow.call(ty, src, as_view(mask))
            okp, raw = ok_part(q)
            self.format = None
            if raw.k == "tup":
                self.format, raw = raw.a[0]
            elif name == "auto-tlv":
                self.format = smap(lambda x: x.a[0][0], raw)
                raw = smap(lambda x: x.a[0][1], raw)
            self.parse = q
            b = flow.call(BLOCK, raw)
            okb, self.block = ok_part(b)
            self.ok = And(okp, okb)
            self.error = join(Not(okp), err_part(q), And(okp, Not(okb)), err_part(b))
            self.value = self.block
            self.display = flow.ctx.display_fn(BLOCK_TY)
            self.steps = [q, b]

    def shown(self):
        """(condition, function, value, indentation, severity) of every breakdown that is displayed."""
        for t in self.displays:
            a = t.v.a
            v = a[2]
            while v.k == "sref":
                v = v.a[0]
            yield t.g, a[1], v, a[4] if len(a) > 4 else None, a[5] if len(a) > 5 else None


def same(a, b):
    return a is b


def ops(ctx, flow):
    """The operations that can be analysed; reports those that the program doesn't look at."""
    for name in OPERATIONS:
        if name not in flow.option:
            ctx.count("obligations")
            mentioned = any(x.k == "str" and x.a[0] == name for a in flow.terms for x in a.a[1] if isinstance(x, V))
            if mentioned or tainted(flow.r.out):
                ctx.undecided("option " + name, "it isn't read in a way that is understood")
            else:
                ctx.violation("option:" + name, "the option --%s isn't looked at" % name)
            continue
        with ctx.guardeds("option " + name):
            op = flow.operation(name)
            yield op


# ------------------------------------------------------------------ the declared command line


def declared(ctx):
    """{option id: {property: [values]}} from the summary of the command-line definition."""
    fn = ctx.fn(CLI)
    if fn is None:
        raise Undecided("no command line definition")
    r = ctx.run(fn, [])
    out = {}

    def strip(v):
        while v.k == "sref":
            v = v.a[0]
        return v

    def const(v):
        v = strip(v)
        if v.k == "str":
            return v.a[0]
        if v.k == "int":
            return v.a[0]
        if v.k == "arr":
            return [const(x) for x in v.a[0]]
        return v

    def arg(v):
        props = []
        while v.k == "app" and v.a[0].startswith("call:Arg::"):
            m = v.a[0][10:]
            if m == "new":
                return const(v.a[1][0]), props[::-1]
            props.append((m, [const(x) for x in v.a[1][1:]]))
            v = v.a[1][0]
        raise Undecided("an argument's definition is " + show(v, 2)[:100])

    v = r.ret
    while v.k == "app" and v.a[0].startswith("call:Command::"):
        m = v.a[0][14:]
        if m == "arg":
            i, props = arg(v.a[1][1])
            out[i] = props
        elif m in ("args", "group", "groups", "subcommand", "mut_arg"):
            raise Undecided("definition by Command::" + m)
        if m == "new":
            return out
        v = v.a[1][0]
    raise Undecided("the command line definition is " + show(v, 2)[:100])


def names_of(props):
    out = []
    for m, a in props:
        if m in ("long", "alias", "visible_alias"):
            out.append(a[0])
        elif m in ("short", "short_alias", "visible_short_alias"):
            out.append("-" + (chr(a[0]) if isinstance(a[0], int) else str(a[0])))
        elif m in ("aliases", "visible_aliases"):
            out += list(a[0]) if isinstance(a[0], list) else []
    return out


def check_names(ctx, table):
    decl = declared(ctx)
    owner = {}
    for i, props in decl.items():
        for n in names_of(props):
            owner[n] = i
    for i, names in table.items():
        for n in names:
            ctx.count("obligations")
            if n not in owner:
                ctx.violation("name:" + n, "the command line has no option %s any more (documented for %s)" % (n if n[0] == "-" else "--" + n, i))
            elif owner[n] != i:
                ctx.violation("name:" + n, "%s selects %s instead of %s" % (n if n[0] == "-" else "--" + n, owner[n], i))
    return decl
