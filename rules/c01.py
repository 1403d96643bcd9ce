"""C01: no input, configuration or environment makes the program panic."""
import itertools
import multiprocessing
import os
import re
import resource
from engine import vals
from engine.std import key_of as library_key, string_id, STRINGS
from .c20 import fallible
from .effects import Graph
from .rank import rank, counter_facts
from .show import *
from spec.flags import FLAGS

RULE = ("Every place in the crate that can panic is enumerated: the checks that the compiler inserts (index, overflow, shift, division), the "
        "calls of panicking routines (failed unwrap, expect, assert and unreachable lead there) and the calls of library functions that are "
        "documented to panic or record their caller. Every entry routine (main, each parser, decoder, display and helper) is summarised for "
        "arbitrary arguments; at each such place the summary gives the condition under which it fails, over the routine's inputs and the "
        "state of its loops. Each condition must be contradictory: refuted by its decision diagram, or by linear arithmetic with invariants "
        "of the loops that are inferred and shown to be inductive. A condition that isn't refuted is a violation if it holds in one of the "
        "first iterations of its loops, or has no loop. Library functions that can panic must have a rule for when.")
TECHNIQUE = "enumeration of panic sites over MIR; path conditions from function summaries refuted by decision diagrams and inferred linear invariants"
ASSUMPTIONS = [
    "clap returns a value's source wherever it returns the value, and only returns values that the argument's value parser lets through",
    "memory doesn't run out, and stdout and stderr can be written to",
    "a tag that a display gets has at least one byte (C03 and C04 show it for both parsers)",
    "figment and serde only panic as documented",
]

# library functions whose panics are conditions of the summaries
CHECKED = {
    "BitAnd::bitand", "BitOr::bitor", "BitXor::bitxor", "Shl::shl", "Shr::shr", "Add::add", "Sub::sub", "Mul::mul", "Div::div", "Rem::rem",
    "int::pow", "Vec::remove", "Vec::swap_remove", "Vec::insert", "Vec::drain", "Vec::split_off", "slice::split_at", "str::split_at", "Index::index", "IndexMut::index_mut",
    "slice::copy_from_slice", "slice::clone_from_slice", "slice::chunks", "slice::chunks_exact", "Option::unwrap", "Option::expect",
    "Result::unwrap", "Result::expect", "Result::unwrap_err", "Result::expect_err", "panicking::panic", "panicking::panic_fmt", "Argument::from_usize",
}
# those that only fail when memory or numbers of elements run out, or that a contract of the types involved excludes
HARMLESS = {
    "Vec::push", "Vec::with_capacity", "Vec::append", "Vec::extend", "Vec::reserve", "Vec::extend_from_slice", "String::push",
    "String::push_str", "String::with_capacity", "String::reserve", "Iterator::enumerate", "Iterator::next", "Iterator::count", "Iterator::collect",
    "slice::sort", "slice::sort_by", "slice::sort_by_key", "slice::sort_unstable", "slice::sort_unstable_by",
    "slice::sort_unstable_by_key", "slice::to_vec", "Iterator::position", "slice::concat", "slice::repeat", "str::repeat",
    "Figment::from", "Figment::merge", "Figment::join", "Figment::admerge", "Figment::adjoin", "Serialized::defaults", "Serialized::global",
    "Command::get_matches", "Command::help_expected", "Iterator::last", "Iterator::sum", "Iterator::product", "RangeInclusive::next",
}
CLAP = {"ArgMatches::get_one", "ArgMatches::get_many", "ArgMatches::value_source", "ArgMatches::remove_one", "ArgMatches::remove_many",
        "ArgMatches::get_flag", "ArgMatches::get_count", "ArgMatches::contains_id"}
OUTPUT = re.compile(r"^call:(Command::print_(long_)?help|(\w+::)?(StandardStream|StandardStreamLock|Stdout|StdoutLock|Stderr|WriteColor|Write|BufWriter)::)")
OUTSIDE = re.compile(r"std::(env|fs)::")
# what these give can be any bytes or number, whatever else is known
FREE = {"util::parse_hex_str", "util::parse_hex_str_strict", "util::parse_str_to_u16"}
ALLOC = ("MisalignedPointerDereference", "NullPointerDereference")


def sites(p, f, seen=()):
    """[(what, location, library function or None)] of the places in a function that can panic."""
    out = []
    for _, t, loc in p.fns[f]["blocks"]:
        if t[0] == "assert":
            what = str(t[3] if len(t) > 3 else t[1])
            if not any(a in what for a in ALLOC):
                out.append((what, loc, None))
        elif t[0] == "call" and isinstance(t[1], dict):
            e = p.externs.get(t[1]["fn"])
            if e is not None and (e.get("doc_panics") or e.get("track_caller") or "panic" in t[1]["fn"]):
                out.append((t[1]["fn"], loc, t[1]["fn"]))
            h = t[1]["fn"]
            if e is None and h in p.fns and not p.fns[h]["local"] and h not in seen:
                out += [(w, loc, x) for w, _, x in sites(p, h, (*seen, h))]
    return out


def scalar(p, f):
    """Whether a function only takes numbers."""
    d = p.fns[f]
    return all(p.desc(d["locals"][i + 1])["k"] in ("int", "uint", "char", "bool", "prim") or d["locals"][i + 1] in
               ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "char", "bool") for i in range(d["argc"]))


def entries(p, g):
    """The routines that are summarised on their own, whatever their arguments."""
    o = {h: uninterpreted for h in g.reached if fallible(p, h) and "Infallible" not in h and not scalar(p, h)}
    o.update({h: v for h, v in pinned(p).items() if h in g.reached and h != CLI})
    o.update({h: shown for h in displays(p)})
    o.update({h: uninterpreted for h in g.reached if h.endswith(DISPLAY_OPAQUE)})
    o.update({h: uninterpreted for h, e in p.externs.items() if OUTSIDE.match(e["path"])})
    return o


# ------------------------------------------------------------------ facts


def axioms(ctx, guard, decl):
    """The part of a condition that clap and the output allow."""
    m = {}
    present, source = {}, {}
    for a in apps(guard):
        if a.a[0] == "discr" and a.a[1][0].k == "app":
            b = a.a[1][0]
            op = b.a[0]
            if OUTPUT.match(op):
                m[a] = 0
            elif op.startswith("call:ArgMatches::") and len(b.a[1]) > 1 and b.a[1][1].k == "str":
                n = b.a[1][1].a[0]
                kind = op[len("call:ArgMatches::"):]
                if kind in ("get_one", "get_many", "remove_one", "remove_many"):
                    present.setdefault(n, []).append(a)
                    if n in decl and any(k in ("default_value", "default_values") for k, _ in decl[n]):
                        m[a] = 1
                elif kind == "value_source":
                    source.setdefault(n, []).append(a)
    for n, ats in source.items():
        for s in ats:
            for a in present.get(n, ()):
                guard = And(guard, Not(And(lit(a, 2), lit(s, 1))))
            if n in decl and any(k in ("default_value", "default_values") for k, _ in decl[n]):
                m[s] = 1
    guard = at(guard, m) if m else guard
    return possible(guard, decl)


def possible(guard, decl):
    """The part of a condition with only values that the arguments can have."""
    for n, props in decl.items():
        values = next((x[0] for k, x in props if k == "value_parser" and x and isinstance(x[0], list)), None)
        if values is None or not all(isinstance(x, str) for x in values):
            continue
        ats = [a for a in apps(guard) if a.a[0] == "strval" and mentions(a, n)]
        if not ats:
            continue
        out = F
        for v in values:
            m = {}
            for a in ats:
                s = str([b.a[0] for b in apps(a)])
                if any(w in s for w in ("trim", "strip", "replace", "elem", "chars")):
                    m = None
                    break
                m[a] = string_id(v.lower() if "to_lowercase" in s or "to_ascii_lowercase" in s else v.upper() if "upper" in s else v)
            out = Or(out, guard if m is None else at(guard, m))
        guard = out
    return guard


def mentions(a, n):
    return any(b.a[0].startswith("call:ArgMatches::get_one@") and len(b.a[1]) > 1 and b.a[1][1].k == "str" and b.a[1][1].a[0] == n for b in apps(a))


def spans(ctx, fn):
    """{field: (least, greatest)} over everything that a routine lists in its result."""
    r = ctx.run(fn, ["a0"])
    out = {}
    for q in leaves(r.ret):
        if q is BOT:
            continue
        if q.k != "seq":
            return {}
        for s in q.a[0]:
            if s.k != "el":
                return {}
            for x in leaves(s.a[1]):
                if x is BOT:
                    continue
                if x.k != "adt":
                    return {}
                for i, fd in enumerate(ctx.p.variants(x.a[0])[0]["f"]):
                    for y in leaves(x.a[2][i]):
                        if y is BOT:
                            continue
                        nm = fd["n"] if isinstance(fd, dict) else fd[0]
                        if is_intleaf(y):
                            lo, hi = lrange(y)
                            a, b = out.get(nm, (lo, hi))
                            out[nm] = (min(a, lo), max(b, hi))
    return out


def know_spans(ctx, I, p):
    """Facts about the ranges that a flag type's own listing has."""
    memo = {}

    def fact(t):
        b = t.a[1][0]
        while b.k in ("slice", "sref", "mref"):
            b = b.a[0]
        if b.k != "app" or not b.a[0].startswith("call:"):
            return []
        f = b.a[0][5:]
        if f not in p.fns:
            return []
        if f not in memo:
            memo[f] = spans(ctx, f)
        r = memo[f].get(t.a[0].split(".", 1)[1])
        return [({t: 1}, -r[1]), ({t: -1}, r[0])] if r else []
    for nm in ("offset", "len"):
        I.facts.byop["elem." + nm] = fact


# ------------------------------------------------------------------ one routine


class Open:
    """A condition that wasn't refuted."""

    def __init__(self, root, ob, text, status, calls):
        self.root, self.fn, self.loc, self.kind, self.ctx = root, ob.fn, ob.loc, ob.kind, ob.ctx
        self.text, self.status, self.calls = text, status, calls


def describe_cube(cube):
    return " and ".join("%s in %s" % (show(a, 3), s_show(a, s)) for a, s in cube)[:600]


def solid(g, memo):
    """The part of a condition that holds whatever the unknown values are."""
    if g.k != "dd":
        return g
    r = memo.get(g)
    if r is None:
        cs = [(s, solid(c, memo)) for s, c in g.a[1]]
        if taint(g.a[0]):
            r = T
            for _, c in cs:
                r = And(r, c)
        else:
            r = assemble(g.a[0], cs)
        memo[g] = r
    return r


def concrete(ctx, I, guard):
    """A cube of the condition in one of the first iterations of its loops."""
    recs = [r for r in I.loops if any(apps(q.phi) & apps(guard) for q in r.phis)]
    recs.sort(key=lambda r: len(r.ctx))
    if not recs or len(recs) > 3:
        return None

    used = set(apps(guard))
    for r in recs:
        used |= apps(r.back_guard) | apps(r.entry_guard)
    needed = set()
    while True:
        more = [q for r in recs for q in r.phis if q not in needed and apps(q.phi) & used]
        if not more:
            break
        for q in more:
            needed.add(q)
            used |= apps(q.back)

    def states(ps, of):
        m = {}
        for q in ps:
            if q in needed:
                bind(q.phi, of(q), m)
        return m
    for ks in itertools.product(range(4 if len(recs) < 2 else 2), repeat=len(recs)):
        m, g = {}, guard
        for r, k in zip(recs, ks):
            step = states(r.phis, lambda q: subst(q.init, m))
            g = And(g, subst(r.entry_guard, m))
            for _ in range(k):
                g = And(g, subst(subst(r.back_guard, m), step))
                step = states(r.phis, lambda q: subst(subst(q.back, m), step))
            m.update(step)
        h = subst(g, m)
        h = solid(h, {})
        if h is F or tainted(h):
            continue
        cube = cube_of(ctx, I, h, 20000)
        if cube:
            return cube
    return None


def nonempty_tags(guard):
    for a in list(apps(guard)):
        if a.a[0] == "len" and re.search(r"\btag(\.0|\.tag)?\(", show(a, 4)) and ".data" not in show(a, 4):
            guard = And(guard, Not(lit(a, s_of(a, [0]))))
    return guard


def count_iterations(I):
    for rec in I.loops:
        try:
            k = rank(I, rec)
        except Undecided:
            continue
        if k is not None and k.most is not None:
            counter_facts(I, rec, k.most)


def examine(ctx, root, opaque, args, decl, limit=100, given=T, before=None):
    """The conditions of one routine that aren't refuted, and what was analysed."""
    p = ctx.p
    partial = None
    vals.coarse(COARSE and is_display(root))
    try:
        I = ctx.run(root, args, opaque={h: v for h, v in opaque.items() if h != root}, limit=limit).I
    except Undecided as e:
        if e.I is None:
            raise
        partial, I = e, e.I
    finally:
        vals.coarse(False)
    if before is not None:
        I.loops += before.loops
        for t, fs in before.facts.byapp.items():
            for d, k in fs:
                I.facts.add(t, d, k)
    know_spans(ctx, I, p)
    out = []
    settled = partial is not None
    for ob in I.obls:
        status, cube = "open", None
        try:
            guard = axioms(ctx, And(given, ob.guard), decl)
            if is_display(root):
                guard = nonempty_tags(guard)
            cube = cube_of(ctx, I, guard, 20000)
            if cube and tainted(guard) and not settled:
                settled = True
                try:
                    with seconds(40):
                        I.ensure_invariants()
                        count_iterations(I)
                except Timeout:
                    pass
            if cube and tainted(guard):
                cube = cube_of(ctx, I, guard, 20000)
            if cube is None:
                continue
            if tainted(Tup(tuple(a for a, _ in cube))):
                status = "unclear"
                with seconds(15):
                    found = concrete(ctx, I, guard)
                    if found:
                        status, cube = "open", found
        except (Undecided, Timeout):
            status = "unclear"
        ats = [a for a, _ in cube or ()]
        calls = sorted({b.a[0][5:].split("@")[0] for a in ats for b in apps(a) | {a} if b.a[0].startswith("call:")} & set(opaque))
        out.append(Open(root, ob, describe_cube(cube) if cube else "", status, calls))
    if partial is not None:
        if not any(o.status == "open" for o in out):
            raise partial
        out = [o for o in out if o.status == "open"]
    return out, len(I.obls), set(I.analysed)


JOB = {}


def lean():
    """In a worker: no more memory than its share."""
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def workers():
    return multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1), lean)


def work(item):
    """In a worker: examines one routine; opaque routines that a failing condition depends on are looked into."""
    ctx, opaque, decl = JOB["ctx"], JOB["opaque"], JOB["decl"]
    root, args = item
    sub = type(ctx)(ctx.id, ctx.p, ctx.tier, ctx.seed)
    sub.err_ty = ctx.err_ty
    try:
        opened, n, analysed = examine(sub, root, opaque, args, decl)
        rest = opaque
        for _ in range(4):
            inner = {h for o in opened for h in o.calls if h in ctx.p.fns and h in rest} - {root} - FREE
            if not inner:
                break
            rest = {h: v for h, v in rest.items() if h not in inner}
            try:
                opened, n, more = examine(sub, root, rest, args, decl)
                analysed |= more
            except Undecided as e:
                for o in opened:
                    o.status = "unclear"
                break
        return root, opened, n, analysed, None
    except Undecided as e:
        return root, [], 0, sub.analysed, str(e)
    except Exception as e:
        if os.environ.get("PEMV_TRACE"):
            raise
        return root, [], 0, sub.analysed, "%s: %s" % (type(e).__name__, e)


def arguments(p, f):
    if f == p.entry or f == "main":
        return []
    return ["a%d" % i for i in range(p.fns[f]["argc"])]


def library(ctx, p, where):
    """Every library function that can panic must have a rule."""
    for f, ss in where.items():
        for what, loc, ext in ss:
            ctx.count("obligations")
            if ext is None or "panicking" in ext:
                continue
            k = library_key(p.externs[ext]["path"])
            if k not in CHECKED and k not in HARMLESS and k not in CLAP:
                ctx.undecided("library:%s:%s" % (k, f), "no rule for when %s panics (%s)" % (k, loc))


def value_type(props):
    for k, x in reversed(props):
        if k == "value_parser" and x:
            v = x[0]
            if isinstance(v, list):
                return "std::string::String"
            while isinstance(v, V) and v.k in ("sref", "mref", "box"):
                v = v.a[0]
            if isinstance(v, V) and v.k == "app":
                if "StringValueParser" in v.a[0]:
                    return "std::string::String"
                for b in apps(v) | {v}:
                    m = re.search(r"_AutoValueParser<(.*)>$", str(b.a[2]))
                    if m:
                        return m.group(1)
                m = re.search(r"RangedI64ValueParser<(.*)>$", str(v.a[2]))
                if m:
                    return m.group(1)
            return None
    acts = [show(x[0], 1) for k, x in props if k == "action" and x]
    if acts and ("#2" in acts[-1] or "#3" in acts[-1]):
        return "bool"
    if acts and "#4" in acts[-1]:
        return "u8"
    return "std::string::String"


def lookups(ctx, flow_calls, decl):
    """The arguments that main looks up must be declared, with the type that they're looked up as."""
    p = ctx.p
    for name, loc, idv in flow_calls:
        ctx.count("obligations")
        key = library_key(p.externs[name]["path"]) if name in p.externs else name
        if idv.k != "str":
            ctx.undecided("lookup", "the argument that's looked up at %s isn't constant" % loc)
            continue
        n = idv.a[0]
        if n not in decl:
            if n != "operations" and not any(x and x[0] == n for props in decl.values() for k, x in props if k == "group"):
                ctx.violation("lookup:" + n, "%s looks up the argument %r, which isn't declared: clap panics (%s)" % (key, n, loc))
            continue
        m = re.search(r"::(?:get_one|get_many|remove_one|remove_many|get_occurrences)::<(.*)>$", name)
        if m:
            have = value_type(decl[n])
            if have is None:
                ctx.undecided("lookup:" + n, "the type of the argument's values")
            elif have != m.group(1):
                ctx.violation("lookup:%s:type" % n, "%s looks up the argument %r as %s although its values are %s: clap panics (%s)" % (key, n, m.group(1), have, loc))


def composed(ctx, root, opaque, decl):
    """The open conditions of a display or listing, for the values that the type's decoder makes."""
    p = ctx.p
    m = re.match(r"emv::bitflag_values::<impl DisplayBreakdown for (.*)>::", root) or re.match(r"<(.*) as .*>::", root)
    conv = m and "<%s as std::convert::TryFrom<&[u8]>>::try_from" % m.group(1)
    if conv not in p.fns:
        return None
    r = ctx.run(conv, [raw_bytes(FLAGS[m.group(1)][0] if m.group(1) in FLAGS else None)])
    cond, val = ok_part(r.ret)
    if val is BOT:
        return []
    rest = ["a%d" % i for i in range(1, p.fns[root]["argc"])]
    val = constrain(val, cond)
    return [o for o in examine(ctx, root, opaque, [Sref(val)] + rest, decl, given=cond, before=r.I)[0]]


def report(ctx, p, g, opaque, done, decl, where):
    sure = {"main", p.entry} | set(pinned(p)) | set(displays(p))
    again, later = set(), set()
    for root, (opened, err) in sorted(done.items()):
        if err:
            ctx.undecided(root, err)
        if any(o.status == "open" for o in opened) and root in opaque and root not in sure and not root.endswith(DISPLAY_OPAQUE):
            again.add(root)  # may depend on what its callers guarantee
    if again:
        # analyse the callers with these looked into
        less = {h: v for h, v in opaque.items() if h not in again}
        JOB["opaque"] = less
        callers = set()
        for root in done:
            if root in again:
                continue
            todo, reach = [root], set()
            while todo:
                f = todo.pop()
                for h in g.uses.get(f, ()):
                    if h not in reach and (h not in less or h == root):
                        reach.add(h)
                        todo.append(h)
            if reach & again:
                callers.add(root)
        with workers() as pool:
            for root, opened, n, analysed, err in pool.imap_unordered(work, [(f, arguments(p, f)) for f in sorted(callers)]):
                done[root] = (opened, err)
        for f in again:
            del done[f]
    for root, (opened, err) in sorted(done.items()):
        if not opened:
            continue
        alone = root not in sure
        if is_display(root) or root.endswith(DISPLAY_OPAQUE):
            alone = False
            with ctx.guardeds("values of " + root):
                less = composed(ctx, root, opaque, decl)
                if less is not None:
                    opened = less
        for o in opened:
            what = "%s can panic: %s at %s" % (o.fn, o.kind, o.loc)
            key = "%s:%s" % (o.fn, o.kind.split("(")[0])
            if o.status != "open":
                ctx.undecided(key, "not refuted: %s at %s, if %s" % (o.kind, o.loc, o.text))
            elif alone and o.text:
                ctx.undecided(key, "for arbitrary arguments of %s: %s at %s, if %s" % (root, o.kind, o.loc, o.text))
            else:
                ctx.violation(key, what, "if " + (o.text or "it is reached"))


def check(ctx):
    p = ctx.p
    ctx.err_ty = key_of(p, "error::ParseError")
    g = Graph(p)
    where = {f: ss for f in g.reached if p.fns[f]["local"] and "!" not in p.fns[f]["locals"][1:p.fns[f]["argc"] + 1] for ss in [sites(p, f)] if ss}
    opaque = entries(p, g)
    decl = {}
    with ctx.guardeds("command line definition"):
        decl = declared(ctx)
    roots = ["main" if "main" in p.fns else p.entry] + sorted(h for h in opaque if h in p.fns)
    JOB.update(ctx=ctx, opaque=opaque, decl=decl)
    done, conds, seen = {}, 0, set()
    jobs = sorted(((f, arguments(p, f)) for f in roots), key=lambda x: 0 if "ingenico" in x[0] else 1 if "ber_tlv" in x[0] else 2)
    for _ in range(3):
        with workers() as pool:
            for root, opened, n, analysed, err in pool.imap_unordered(work, jobs):
                done[root] = (opened, err)
                conds += n
                seen |= analysed
        ctx.analysed |= seen
        jobs = sorted((f, arguments(p, f)) for f in where if f not in seen and f not in done)
        if not jobs:
            break
    ctx.count("functions with places that can panic", len(where))
    ctx.count("places that can panic", sum(len(x) for x in where.values()))
    ctx.count("routines analysed for arbitrary arguments", len(done))
    ctx.count("obligations", conds)
    with ctx.guardeds("library functions"):
        library(ctx, p, where)
    report(ctx, p, g, opaque, done, decl, where)
    with ctx.guardeds("argument lookups"):
        r = ctx.run("main" if "main" in p.fns else p.entry, [], opaque=opaque)
        lookups(ctx, {(c[1], c[5], c[3][1]) for c in r.I.calls if len(c[3]) > 1 and library_key(c[2]) in CLAP}, decl)
    ctx.sample({"places": {f: len(ss) for f, ss in sorted(where.items())[:20]}})
