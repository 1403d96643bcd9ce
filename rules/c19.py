"""C19: settings given on the command line override environment, file and defaults."""
from engine.std import string_id
from .flow import *

RULE = ("In the summary of main, the configuration that the settings are extracted from is a term of merges. For each case (no option, "
        "or exactly one of the settings' options, given explicitly, with each value it can have), that term with the case's atoms fixed "
        "must be the layers defaults < configuration file < environment < command line in that order (counting figment's profiles: a "
        "layer for the global profile overrides the ones for named profiles), with exactly the given option's own setting on the "
        "command-line layer, holding its value (negated for the negated option); and the defaults layer must hold the documented "
        "defaults. The options' names and default values are read from the command-line definition.")

KEYS = {"colour": "cli_colour", "masking-character": "masking_characters", "sort-parsed-tags": "sort_parsed_tags",
        "no-sort-parsed-tags": "sort_parsed_tags"}
COLOURS = {"auto": "Auto", "always": "Always", "ansi": "AlwaysAnsi", "never": "Never"}
DEFAULTS = {"cli_colour": "automatic colour", "masking_characters": "the masking character '*'", "sort_parsed_tags": "sorting on"}


def strip(v):
    while v.k in ("sref", "mref", "box"):
        v = v.a[0]
    return v


def text(v):
    """The constant text of a value, or None."""
    v = strip(v)
    if v.k == "str":
        return v.a[0]
    if v.k == "slice" and v.a[1] is F:
        base = strip(v.a[0])
        if v.a[2].k == "int" and base.k == "seq":
            t = flatten(base)
            s = "".join(t) if all(isinstance(x, str) for x in t) else None
            return s if s is not None and len(s) == v.a[2].a[0] else None
        return text(base) if base.k == "str" else None
    if v.k == "seq":
        t = flatten(v)
        return "".join(t) if all(isinstance(x, str) for x in t) else None
    return None


def source_atoms(flow):
    """{option: ([atoms of it being present], [(atom, {variant: value}) of its source])}"""
    p = flow.p
    out = {n: ([], []) for n in KEYS}
    src = next((t for t in p.types if p.desc(t).get("path", "").endswith("ValueSource")), None)
    for a in flow.terms:
        if a.a[0] == "discr":
            b = a.a[1][0]
            op = b.a[0] if b.k == "app" else ""
            if not op.startswith("call:ArgMatches::") or len(b.a[1]) < 2:
                continue
            n = text(b.a[1][1])
            if n not in out:
                continue
            m = op[len("call:ArgMatches::"):]
            if m.startswith("value_source@"):
                out[n][1].append((a, {0: 0, 2: 2}))
            elif "@" not in m:
                out[n][0].append(a)
        elif a.a[0] == "equal":
            x, y = a.a[1]
            if x.k == "adt":
                x, y = y, x
            if y.k == "adt" and x.k == "app" and x.a[0].startswith("call:ArgMatches::value_source@"):
                n = text(x.a[1][1])
                if n in out:
                    i = y.a[1]
                    out[n][1].append((a, {0: int(i == 0), 2: int(i == 2)}))
        elif a.a[0].startswith("call:ArgMatches::contains_id") and len(a.a[1]) > 1 and text(a.a[1][1]) in out:
            out[text(a.a[1][1])][0].append(a)
    return out


def layers(ctx, v, out):
    """The configuration's layers from the lowest to the highest priority of one profile."""
    v = strip(v)
    if v.k != "app" or not v.a[0].startswith("call:Figment::"):
        raise Undecided("the configuration is %s" % show(v, 2)[:100])
    m = v.a[0][14:]
    if m == "new":
        return
    if m == "from":
        out.append(provider(ctx, v.a[1][0]))
    elif m == "select":
        layers(ctx, v.a[1][0], out)
    elif m in ("merge", "admerge"):
        layers(ctx, v.a[1][0], out)
        out.append(provider(ctx, v.a[1][1]) + (m,))
    elif m in ("join", "adjoin"):
        layers(ctx, v.a[1][0], out)
        out.insert(0, provider(ctx, v.a[1][1]) + (m,))
    else:
        raise Undecided("the configuration is made by Figment::" + m)


def provider(ctx, v):
    """(kind, payload)"""
    v = strip(v)
    if v.k == "tup" and len(v.a[0]) == 2:
        return ("option", text(v.a[0][0]), v.a[0][1])
    if v.k != "app":
        raise Undecided("a configuration source is %s" % show(v, 2)[:100])
    op = v.a[0][5:]
    if op.startswith("Serialized::"):
        m = op[12:]
        if m == "defaults":
            return ("defaults", v.a[1][0])
        if m == "global" and len(v.a[1]) == 2:
            return ("option", text(v.a[1][0]), v.a[1][1])
        if m in ("default", "global"):
            return ("other", op)
    if op.startswith("Data::") or op.startswith("Format::"):
        nested = False
        while v.k == "app" and v.a[0].startswith("call:Data::"):
            if v.a[0] == "call:Data::nested":
                nested = True
            elif v.a[0] != "call:Data::profile":
                raise Undecided("a configuration file is read with " + v.a[0])
            v = strip(v.a[1][0])
        if v.k == "app" and v.a[0] == "call:Format::file":
            return ("file", nested, v.a[1][0])
        raise Undecided("a configuration source is %s" % show(v, 2)[:100])
    if op.startswith("Env::"):
        mods = []
        while v.k == "app" and v.a[0].startswith("call:Env::"):
            m = v.a[0][10:]
            mods.append((m, v.a[1][1:]))
            if m in ("prefixed", "raw"):
                return ("env", text(v.a[1][0]) if m == "prefixed" else "", mods)
            v = strip(v.a[1][0])
    raise Undecided("a configuration source is %s" % show(v, 2)[:100])


def describe_layer(l):
    return {"option": "--option (%s)" % (l[1] if len(l) > 1 else "")}.get(l[0], l[0])


def judge_case(ctx, key, what, ls, given, wanted):
    """`given` is the setting given on the command line (or None), `wanted(value)` tells if the value is right."""
    kinds = [l[0] for l in ls]
    for k, name in (("defaults", "the built-in defaults"), ("file", "the configuration file"), ("env", "the environment")):
        if kinds.count(k) != 1:
            if "other" in kinds or kinds.count(k) > 1:
                raise Undecided("the configuration's layers are %s" % kinds)
            ctx.violation("layer:" + k, "%s, %s aren't used" % (what, name))
            return
    rank = {"defaults": 0, "file": 1, "env": 2, "option": 3}
    order = [rank[k] for k in kinds if k in rank]
    for l in ls:
        if l[0] == "file" and not l[1]:
            ctx.violation("file:flat", "the configuration file's profiles aren't told apart, so a setting of its default profile is ignored")
        if l[0] == "env":
            mods = dict((m, a) for m, a in l[2])
            if l[1] != "PEMV_":
                ctx.violation("env:prefix", "the environment variables' prefix is %r instead of 'PEMV_'" % l[1])
            if "global" not in mods:
                if "profile" in mods:
                    raise Undecided("the environment's profile")
                ctx.violation("env:profile", "the environment's values don't override the ones of the configuration file's selected profile")
            for m in mods:
                if m in ("ignore", "only", "filter", "map", "split", "filter_map"):
                    if m not in ("ignore", "only"):
                        raise Undecided("the environment is read with " + m)
                    names = [text(x) for x in strip_list(mods[m][0])]
                    if None in names:
                        raise Undecided("the environment is read with " + m)
                    for k in set(KEYS.values()):
                        if (k in [n.lower() for n in names]) == (m == "ignore"):
                            ctx.violation("env:%s" % k, "the environment variable for %s is ignored" % k)
                elif m not in ("prefixed", "global", "raw"):
                    raise Undecided("the environment is read with " + m)
        if l[-1] in ("admerge", "adjoin") and l[0] != "defaults":
            ctx.violation("array:" + describe_layer(l), "the masking characters of %s are added to the other ones instead of replacing them" % describe_layer(l))
    opts = [l for l in ls if l[0] == "option"]
    if order != sorted(order):
        i = next(i for i in range(len(order) - 1) if order[i] > order[i + 1])
        ks = [k for k in kinds if k in rank]
        ctx.violation("order:%s-%s" % (ks[i], ks[i + 1]), "%s, %s overrides %s" % (what, ks[i + 1], ks[i]))
        return
    keys = [l[1] for l in opts]
    if None in keys:
        raise Undecided("the setting of a command-line value isn't known")
    for k in keys:
        if k != given:
            ctx.violation("%s:changes:%s" % (key, k), "%s, the command line overrides the setting %s" % (what, k))
    if given is not None:
        vals = [l[2] for l in opts if l[1] == given]
        if not vals:
            ctx.violation(key + ":ignored", "%s, the command line doesn't override the setting %s" % (what, given))
        else:
            ok = wanted(vals[-1])
            if ok is None:
                raise Undecided("%s, the value is %s" % (what, show(vals[-1], 3)[:160]))
            if not ok:
                ctx.violation(key + ":value", "%s, the setting %s gets the value %s" % (what, given, describe(ctx.p, strip(vals[-1]))[:120]))


def strip_list(v):
    v = strip(v)
    if v.k == "slice":
        v = strip(v.a[0])
    if v.k == "arr":
        return v.a[0]
    if v.k == "seq" and all(s.k == "el" and s.a[0] is T for s in v.a[0]):
        return [s.a[1] for s in v.a[0]]
    raise Undecided("a list of names is " + show(v, 2)[:80])


def contains(v, w, seen=None):
    seen = set() if seen is None else seen
    todo = [v]
    while todo:
        x = todo.pop()
        if x is w:
            return True
        if isinstance(x, V):
            if x in seen:
                continue
            seen.add(x)
            todo += x.a
        elif isinstance(x, tuple):
            todo += x
    return False


def all_values(v, option):
    """Whether a value is the list of all the option's values."""
    v = strip(v)
    bad = ("take", "skip", "rev", "step", "filter", "first", "last", "nth", "dedup", "sort")
    many, other = False, False
    for a in apps(v):
        op = a.a[0]
        if op.startswith("call:ArgMatches::get_many") and text(a.a[1][1]) == option:
            many = True
        elif op.startswith("call:ArgMatches::get_one") or op.startswith("call:ArgMatches::value_source"):
            other = True
    if v.k == "seq" and not tainted(v):
        for g in v.a[0]:
            # something that has nothing to do with the option
            if not any(a.a[0].startswith("call:ArgMatches::") for a in apps(g.a[1])) and (g.k == "el" or any(a.a[0].startswith("call:Figment::") for a in apps(g.a[1]))):
                return False
    ops_used = set()

    def walk(x):
        if not isinstance(x, V):
            if isinstance(x, tuple):
                for y in x:
                    walk(y)
            return
        if x.k == "it":
            ops_used.add(x.a[0])
        for y in x.a:
            walk(y)
    walk(v)
    if not many:
        return False if other or v.k in ("seq", "slice") and not tainted(v) else None
    if ops_used & set(bad):
        return False
    if ops_used - {"copied", "cloned", "slice", "map"} or tainted(v):
        return None
    if v.k == "seq" and len(v.a[0]) == 1 and v.a[0][0].k in ("span", "rep") and v.a[0][0].a[0] is T:
        s = v.a[0][0]
        if s.k == "span" and s.a[1].k == "slice":
            if s.a[1].a[1] is F and s.a[1].a[2].k == "app" and s.a[1].a[2].a[0] == "len":
                return True
            return False
    return None


def check(ctx):
    p = ctx.p
    with ctx.guardeds("layers"):
        flow = Flow(ctx)
        decl = declared(ctx)
        figs = {}
        for key in sorted(set(KEYS.values())):
            ctx.count("obligations")
            ats = flow.setting.get(key)
            if not ats:
                if "" in flow.setting or tainted(flow.r.out):
                    raise Undecided("the setting %s isn't read on its own" % key)
                ctx.violation("setting:" + key, "the setting %s isn't read" % key)
                continue
            # sources that are only looked into on the way to others don't count
            sources = list(dict.fromkeys(strip(b.a[1][0]) for a, b in ats))
            last = [f for f in sources if not any(f is not h and contains(h, f) for h in sources)]
            if len(last) != 1:
                ctx.undecided("setting:" + key, "the setting %s is read from several sources" % key)
                continue
            figs[key] = last[0]
        src = source_atoms(flow)
        base = {}
        for n, (present, source) in src.items():
            if n not in decl:
                continue
            has_default = any(m in ("default_value", "default_values") for m, _ in decl[n])
            for a in present:
                base[a] = 1 if has_default else 0
            for a, vals in source:
                base[a] = vals[0]
        cases = [(None, None, "with no option given", None)]
        for n, key in KEYS.items():
            if n not in decl:
                continue
            if n == "colour":
                vals = [(c, "--colour %s is given" % c) for c in COLOURS]
            elif n == "masking-character":
                vals = [(None, "--masking-character is given")]
            else:
                vals = [(0, "--%s false is given" % n), (1, "--%s true is given" % n)]
            cases += [(n, x, "when " + w, key) for x, w in vals]
        for n, x, what, key in cases:
            m = dict(base)
            want = None
            if n is not None:
                present, source = src[n]
                for a in present:
                    m[a] = 1
                for a, vals in source:
                    m[a] = vals[2]
                if n == "colour":
                    given = {a for f in figs.values() for a in apps(f) if a.a[0] == "strval" and any(
                        b.a[0].startswith("call:ArgMatches::") and text(b.a[1][1]) == n for b in apps(a) if len(b.a[1]) > 1)}
                    for a in given:
                        m[a] = string_id(x)
                    def want(v, x=x):
                        v = strip(v)
                        if v.k == "adt":
                            return variant_name(p, v) == COLOURS[x]
                        return None if tainted(v) or v.k != "str" else v.a[0] == x
                elif n == "masking-character":
                    def want(v):
                        return all_values(v, "masking-character")
                else:
                    for f in figs.values():
                        for a in apps(f):
                            op = a.a[0]
                            if op.startswith("call:ArgMatches::get_") and "@Some" in op and text(a.a[1][1]) == n:
                                m[a] = x
                    def want(v, x=x, n=n):
                        v = strip(v)
                        return v.a[0] == (x if n == "sort-parsed-tags" else 1 - x) if v.k == "int" else None
            for k, f in figs.items():
                ctx.count("obligations")
                ckey = (n or "none") + ("" if x is None else "=%s" % x)
                with ctx.guardeds("%s for %s" % (what, k)):
                    v = at(f, m)
                    if v.k == "dd":
                        ls = [y for y in leaves(v) if y is not BOT]
                        if len(ls) != 1:
                            raise Undecided("it depends on " + ", ".join(sorted({show(a, 3)[:80] for a in own_dd_atoms(v)})))
                        v = ls[0]
                    out = []
                    layers(ctx, v, out)
                    judge_case(ctx, ckey, what, out, key, want)
                    if n is None:
                        for l in out:
                            if l[0] == "defaults":
                                defaults(ctx, l[1])
            ctx.sample({"case": what, "command line sets": key})
    with ctx.guardeds("names"):
        decl = check_names(ctx, SETTING_NAMES)
        for n, want in MISSING.items():
            ctx.count("obligations")
            got = [a[0] for m, a in decl.get(n, []) if m == "default_missing_value"]
            if got and got[-1] != want:
                ctx.violation("missing:" + n, "--%s without a value means %s instead of %s" % (n, got[-1], want))
        if not any("no-sort-parsed-tags" in map(str, a) for m, a in decl.get("sort-parsed-tags", []) if m.startswith("conflicts")) and \
                not any("sort-parsed-tags" in map(str, a) for m, a in decl.get("no-sort-parsed-tags", []) if m.startswith("conflicts")):
            ctx.undecided("both sorting options", "they can be given together")


def own_dd_atoms(v):
    out, todo = set(), [v]
    while todo:
        x = todo.pop()
        if x.k == "dd":
            out.add(x.a[0])
            todo += [y for _, y in x.a[1]]
    return out


def defaults(ctx, v):
    p = ctx.p
    v = strip(v)
    if v.k != "adt":
        raise Undecided("the defaults are " + show(v, 2)[:80])
    fields = {f[0]: x for f, x in zip(p.variants(v.a[0])[v.a[1]]["f"], v.a[2])}
    for key, what in DEFAULTS.items():
        ctx.count("obligations")
        x = fields.get(key)
        if x is None:
            ctx.violation("default:" + key, "there's no default for %s" % key)
            continue
        if key == "cli_colour":
            ok = x.k == "adt" and variant_name(p, x) == "Auto"
        elif key == "masking_characters":
            ok = x.k == "seq" and flatten(x) == ["*"]
        else:
            ok = x is T or (x.k == "int" and x.a[0] == 1)
        if not ok:
            if tainted(x):
                ctx.undecided("default " + key, show(x, 2)[:80])
            else:
                ctx.violation("default:" + key, "the default of %s isn't %s" % (key, what))
