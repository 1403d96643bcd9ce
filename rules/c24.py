"""C24: colours are always reset, and follow the colour setting."""
from engine.std import string_id
from .c14 import displayed
from .show import *

RULE = ("Typestate over the output summary of main and of every display routine: the state after each colour event is the condition of a style "
        "being active, and it must be unsatisfiable at the routine's end; nested routines may only get severity colours where they're enabled. "
        "In every bitflag display, the foreground active while an explanation is printed must be yellow for a warning and red for an error where "
        "they're enabled and none otherwise. The writer's colour choice, as a function of the setting and the terminal check, must be the setting's "
        "own with `auto` off a terminal turned into never, and the conversions and serialised names must be the documented one-to-one table.")

NAMES = {"Always": "always", "AlwaysAnsi": "ansi", "Auto": "auto", "Never": "never"}
CHOICE = "config::colour_choice::ColourChoice"
TERM = "termcolor::ColorChoice"


class Style:
    """The style that is active at a point of the output: the condition of any, and the foreground."""

    def __init__(self):
        self.on = F          # condition of a style being active
        self.unknown = F     # ... that couldn't be decided


def spec_parts(v):
    """(condition of the specification being empty, foreground) of a colour specification."""
    fg, bold, other = v.a[0]
    plain_fg = smap(lambda x: T if x.k == "ev" or (x.k == "adt" and not x.a[2]) else F, fg)
    empty = And(plain_fg, And(Not(bold), Not(other)))
    return empty, fg


def style_after(seq, on):
    """The condition of a style being active after an output sequence, given the one before."""
    if seq.k == "dd":
        acc = F
        for x in leaves(seq):
            if x is BOT:
                continue
            g = leaf_guard(seq, lambda y, x=x: y is x)
            acc = Or(acc, And(g, style_after(x, on)))
        return acc
    if seq.k != "seq":
        return on
    for s in seq.a[0]:
        if s.k == "el":
            g, v = s.a
            if v.k != "ev":
                continue
            if v.a[0] == "color":
                if v.a[1].k != "tup":
                    raise Undecided("a colour specification isn't known")
                empty, _ = spec_parts(v.a[1])
                on = Or(And(on, Not(g)), And(g, Not(empty)))
            elif v.a[0] == "reset":
                on = And(on, Not(g))
        elif s.k == "rep":
            g, bv, lo, hi, body = s.a
            d0, d1 = style_after(Seq(body), F), style_after(Seq(body), T)
            some = And(g, Lt(lo, hi))
            last = {bv: Sub(hi, Int(1))}
            after = Or(subst(d0, last) if d0 is not F else F, And(on, subst(d1, last) if d1 not in (T, F) else d1))
            on = Or(And(on, Not(some)), And(some, after))
        elif s.k not in ("span",):
            raise Undecided("part of the output has no closed form")
    return on


def resets(ctx, fn, r):
    ctx.count("obligations")
    on = style_after(r.out, F)
    if on is F:
        return
    if tainted(on):
        raise Undecided("the condition of a style being left active isn't known")
    w = cube_of(ctx, r.I, on)
    if w is not None:
        ctx.violation("reset:" + fn, "%s leaves a colour or style active at its end" % ctx.loc(fn), show(on, 5)[:600])


def each(seq, f, g=T):
    """Calls f(guard, element) for every element, also inside of repetitions."""
    if seq.k == "dd":
        for x in leaves(seq):
            if x is not BOT:
                each(x, f, And(g, leaf_guard(seq, lambda y, x=x: y is x)))
    elif seq.k == "seq":
        for s in seq.a[0]:
            if s.k == "rep":
                each(Seq(s.a[4]), f, And(g, s.a[0]))
            else:
                f(And(g, s.a[0]) if isinstance(s.a[0], V) else g, s)


def ansi(ctx, fn, r):
    def f(g, s):
        v = s.a[1] if len(s.a) > 1 else None
        if s.k == "el" and isinstance(v, V) and v.k in ("str", "int"):
            t = v.a[0] if v.k == "str" else chr(v.a[0])
            if "\x1b" in t and g is not F:
                ctx.violation("escape:" + fn, "%s writes a terminal escape sequence whatever the colour setting is" % ctx.loc(fn))
    each(r.out, f)


def streams(ctx, fn, r):
    for c in r.I.calls:
        n = c[1]
        if n.startswith("termcolor::") and n.endswith(("::stdout", "::stderr", "::ansi", "::new")) and "ColorSpec" not in n:
            ctx.violation("stream:" + fn, "%s makes a colour writer of its own (%s)" % (ctx.loc(fn), n))


def severity_passed(ctx, fn, r):
    """Nested breakdowns only get severity colours where the outer one has them."""
    flag = None
    I = r.I
    args = I_args(ctx, fn)
    if len(args) < 4:
        return
    flag = args[3]

    def f(g, s):
        if s.k != "el" or s.a[1].k != "ev" or s.a[1].a[0] not in ("call", "dyncall"):
            return
        a = s.a[1].a
        sev = a[-1]
        if not isinstance(sev, V):
            return
        ctx.count("obligations")
        bad = And(And(g, sev), Not(flag)) if sev.k in ("dd", "int") else None
        if bad is None or tainted(bad):
            ctx.undecided(fn, "the severity flag of a nested breakdown isn't known")
        elif bad is not F and cube_of(ctx, r.I, bad) is not None:
            ctx.violation("flag:" + fn, "%s shows a nested breakdown with severity colours although they're disabled" % ctx.loc(fn))
    each(r.out, f)


def I_args(ctx, fn):
    I = Interp(ctx.p, Summaries(ctx.p), {})
    return I.entry_args(fn, [None] * ctx.p.fns[fn]["argc"])[0]


def colour_names(ctx, fg):
    """The foreground's name as a text value: '' when there is none, '?' when it isn't known."""
    def one(x):
        if x.k == "ev" or (x.k == "adt" and not x.a[2]):
            return Str("")
        if x.k == "adt":
            return smap(lambda c: Str(variant_name(ctx.p, c)) if c.k == "adt" else Str("?"), x.a[2][0])
        return Str("?")
    return smap(lambda x: BOT if x is BOT else one(x), fg)


def fg_while(seq, hit, fg, out, g=T):
    """Collects (guard, foreground) at each element for which hit(element); returns the foreground afterwards."""
    for s in seq.a[0]:
        if s.k == "el" and s.a[1].k == "ev" and s.a[1].a[0] in ("color", "reset"):
            new = mk("ev", "none")
            if s.a[1].a[0] == "color":
                new = s.a[1].a[1].a[0][0]
            fg = join(s.a[0], new, Not(s.a[0]), fg)
        elif s.k == "rep":
            inner = Seq(s.a[4])
            fg2 = fg_while(inner, hit, fg, out, And(g, s.a[0]))
            if fg2 is not fg:
                # the repetition starts again with what the body leaves
                fg_while(inner, hit, fg2, out, And(g, s.a[0]))
                fg = join(T, fg2) if fg2 is fg else fg2
        elif hit(s):
            out.append((And(g, s.a[0]), fg, s))
    return fg


def severities(ctx, fn, r):
    """The explanations' colours in a bitflag display."""
    p = ctx.p
    if r.out.k != "seq":
        raise Undecided("the output has no closed form")
    out = []

    def hit(s):
        return s.k == "span" and any(a.a[0].startswith("elem.explanation") for a in apps(s.a[1])) or \
            s.k == "el" and s.a[1].k == "pc" and any(a.a[0].startswith("elem.explanation") for a in apps(s.a[1]))
    fg_while(r.out, hit, mk("ev", "none"), out)
    if not out:
        ctx.violation("explanation:" + fn, "%s doesn't display the explanations" % ctx.loc(fn))
        return
    flag = I_args(ctx, fn)[3]
    sev_ty = "emv::bitflag_values::Severity"
    names = [v["n"] for v in p.variants(sev_ty)]
    for g, fg, s in out:
        fg = colour_names(ctx, fg)
        # the severity of the same bit
        base = next(a for a in sorted(apps(s.a[1]), key=lambda a: a.id) if a.a[0] == "elem.explanation")
        sev = App("discr", (App("elem.severity", base.a[1], sev_ty),), ("i", 0, len(names) - 1))
        for on in (T, F):
            for i, n in enumerate(names):
                ctx.count("obligations")
                case = And(And(g, lit(sev, s_of(sev, [i]))), flag if on is T else Not(flag))
                if case is F:
                    continue
                want = {"Warning": "Yellow", "Error": "Red"}.get(n) if on is T else None
                for x in leaves(constrain(fg, case)):
                    if x is BOT:
                        continue
                    h = And(case, leaf_guard(fg, lambda y: y is x))
                    if h is F:
                        continue
                    got = x.a[0] or None
                    if got == "?" or tainted(h):
                        raise Undecided("the colour of an explanation isn't known")
                    if got != want and cube_of(ctx, r.I, h) is not None:
                        ctx.violation("severity:%s:%s" % (n, "on" if on is T else "off"),
                                      "%s shows a %s explanation in %s with severity colours %s" % (ctx.loc(fn), n.lower(), got or "no colour", "enabled" if on is T else "disabled"))
    ctx.sample({"display": fn, "explanations": len(out)})


def others(ctx, fn, r):
    """Yellow and red are kept for severities."""
    flag = I_args(ctx, fn)[3]

    def f(g, s):
        if s.k == "el" and s.a[1].k == "ev" and s.a[1].a[0] == "color" and s.a[1].a[1].k == "tup":
            fg = colour_names(ctx, s.a[1].a[1].a[0][0])
            for x in leaves(fg):
                if x is not BOT and x.a[0] in ("Yellow", "Red"):
                    bad = And(And(g, leaf_guard(fg, lambda y: y is x)), Not(flag))
                    if bad is not F and not tainted(bad) and cube_of(ctx, r.I, bad) is not None:
                        ctx.violation("disabled:" + fn, "%s uses severity colours although they're disabled" % ctx.loc(fn))
    each(r.out, f)


# ------------------------------------------------------------------ the setting


def choice(ctx, flow):
    p = ctx.p
    r = flow.r
    sts = sorted((a for a in apps(r.out) if a.a[0] == "stream"), key=lambda a: a.id)
    if not sts:
        raise Undecided("no colour writer is made")
    ats = flow.setting.get("cli_colour")
    if not ats:
        ctx.violation("setting", "the colour setting isn't read")
        return
    _, b = ats[0]
    cs = payload(p.opaque(b.a[0], b.a[1], b.a[2]), 0)
    tty = [a for a in flow.terms | apps(r.out) if a.a[0] == "tty"]
    for st in sts:
        method, ch = st.a[1][0], st.a[1][1]
        m = method.a[0] if isinstance(method, V) and method.k == "str" else method
        if not isinstance(ch, V) or ch.k not in ("dd", "adt"):
            raise Undecided("the writer's colour choice isn't known")
        for i, v in enumerate(p.variants(CHOICE)):
            sel = leaf_guard(cs, lambda y: y.k == "adt" and y.a[1] == i)
            for t in (0, 1):
                ctx.count("obligations")
                g = sel
                for a in tty:
                    if not stdout_tty(p, a):
                        if v["n"] == "Auto":
                            ctx.violation("tty:stream", "the automatic colour setting looks at another stream than stdout")
                        continue
                    g = And(g, lit(a, s_of(a, [t])))
                want = v["n"] if v["n"] != "Auto" or t else "Never"
                for x in leaves(constrain(ch, g)):
                    if x is BOT:
                        continue
                    h = And(g, leaf_guard(ch, lambda y: y is x))
                    if h is F:
                        continue
                    if x.k != "adt" or tainted(h):
                        raise Undecided("the writer's colour choice isn't known")
                    got = variant_name(p, x)
                    if got != want and cube_of(ctx, r.I, h) is not None:
                        ctx.violation("choice:%s:%d" % (v["n"], t), "with the colour setting %s and output %s a terminal, the writer's choice is %s instead of %s" % (
                            NAMES.get(v["n"], v["n"]), "that is" if t else "that isn't", got, want))


def stdout_tty(p, a):
    x = a.a[1][0]
    return not isinstance(x, V) or x.k != "adt" or variant_name(p, x) == "Stdout"


def names(ctx):
    """The one-to-one table of names, configuration values and writer choices."""
    p = ctx.p
    mine = [v["n"] for v in p.variants(CHOICE)]
    term = [v["n"] for v in p.variants(TERM)]
    if set(mine) != set(NAMES):
        raise Undecided("the colour setting's values are other ones")

    def table(fn, src, result):
        if ctx.fn(fn) is None:
            return
        r = ctx.run(fn, None)
        arg = Interp(p, Summaries(p), {}).entry_args(fn, [None])[0][0]
        for i, n in enumerate(src):
            ctx.count("obligations")
            if arg.k == "app":
                d = App("discr", (arg,), ("i", 0, len(src) - 1))
                g = lit(d, s_of(d, [i]))
            else:
                g = leaf_guard(arg, lambda y: y.k == "adt" and y.a[1] == i)
            got = {result(x) for x in leaves(constrain(r.ret, g)) if x is not BOT and And(g, leaf_guard(r.ret, lambda y: y is x)) is not F}
            want = {NAMES[n] if result is text else n}
            if got != want:
                if None in got:
                    raise Undecided("the result of " + fn)
                ctx.violation("conversion:%s:%s" % (fn, n), "%s converts %s to %s" % (ctx.loc(fn), n, "/".join(sorted(got))))

    def var(x):
        return variant_name(p, x) if x.k == "adt" else None

    def text(x):
        return x.a[0] if x.k == "str" else None
    table("<%s as std::convert::From<%s>>::from" % (CHOICE, TERM), term, var)
    table("config::colour_choice::<impl std::convert::From<%s> for %s>::from" % (CHOICE, TERM), mine, var)
    table("config::colour_choice::<impl std::convert::From<%s> for &str>::from" % CHOICE, mine, text)

    for fn, what in (("<%s as std::convert::TryFrom<&str>>::try_from" % CHOICE, "the command line"), (visitor(p), "the configuration")):
        if fn is None:
            ctx.undecided("the serialised names", "the derived deserialiser isn't found")
            continue
        if ctx.fn(fn) is None:
            continue
        opaque = {}
        n = p.fns[fn]["argc"]
        r = ctx.run(fn, [None] * n, opaque=opaque)
        sv = sorted({a for a in apps(r.ret) if a.a[0] == "strval"}, key=lambda a: a.id)
        if len(sv) != 1:
            ctx.undecided(fn, "it doesn't compare its text with constants")
            continue
        a = sv[0]
        cond, val = ok_part(r.ret)
        for i, n in enumerate(mine):
            ctx.count("obligations")
            g = lit(a, s_of(a, [string_id(NAMES[n])]))
            got = {x.a[1] for x in leaves(constrain(val, g)) if x is not BOT and x.k == "adt" and And(And(g, cond), leaf_guard(val, lambda y: y is x)) is not F}
            if And(g, Not(cond)) is not F:
                ctx.violation("name:%s:%s" % (what, n), "the colour setting '%s' is refused by %s" % (NAMES[n], what))
            elif got != {i}:
                ctx.violation("name:%s:%s" % (what, n), "the colour setting '%s' means %s to %s" % (NAMES[n], "/".join(mine[j] for j in sorted(got)), what))
        ctx.count("obligations")
        known = lit(a, s_of(a, [string_id(t) for t in NAMES.values()]))
        if And(cond, Not(known)) is not F:
            ctx.violation("extra:" + what, "%s accepts other names for the colour setting" % what)


def visitor(p):
    return next((f for f in sorted(p.fns) if f.startswith("<config::colour_choice::_::<impl") and "::visit_str" in f), None)


def check(ctx):
    p = ctx.p
    fns = displays(p)
    for fn in fns:
        with ctx.guardeds(fn):
            r = summary(ctx, fn)
            resets(ctx, fn, r)
            ansi(ctx, fn, r)
            streams(ctx, fn, r)
            severity_passed(ctx, fn, r)
            if "emv::bitflag_values::<impl" in fn:
                severities(ctx, fn, r)
            else:
                others(ctx, fn, r)
    with ctx.guardeds("main"):
        flow = Flow(ctx)
        resets(ctx, "main", flow.r)
        ansi(ctx, "main", flow.r)
        choice(ctx, flow)
    with ctx.guardeds("names"):
        names(ctx)
