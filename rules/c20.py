"""C20: every decoding error is reported on stderr, and nothing else is shown for it."""
from .c10 import result_type
from .c14 import displayed
from .flow import *

RULE = ("In the summary of main, for each operation with its option present: where its decoding fails, stderr must get exactly one text, the "
        "description of that error, and stdout no breakdown; where it succeeds, the breakdown must be displayed exactly once, with no "
        "indentation and severity colours, and stderr must get nothing. The same for invalid settings. In the summary of "
        "each composite decoder, wherever a decoder that it calls fails, it must fail as well.")

# decoders that may turn another decoder's error into a value: the documented cases
TOLERANT = {
    "emv::cv_rule::OptionalCvMethod", "emv::cv_rule::OptionalCvmCondition",
}


def description(ctx, e):
    """What the error's own display writes, as flat pieces."""
    return displayed(ctx, ctx.err_ty, e)


def describe_error(ctx, op, flow):
    """The text on stderr, per kind of error."""
    p = ctx.p
    for kind, v in enumerate(p.variants(ctx.err_ty)):
        sel = leaf_guard(op.error, lambda y: y.k == "adt" and y.a[1] == kind)
        g = And(Not(op.ok), sel)
        if g is F:
            continue
        ctx.count("obligations")
        want = None
        for y in leaves(within(op.error, g)):
            if y is not BOT and y.k == "adt" and y.a[1] == kind:
                want = flatten(description(ctx, within(y, g)), T)
        got = []
        for t in op.errors:
            h = And(t.g, g)
            if h is F:
                continue
            if implies(g, t.g):
                got += flatten(within_text(t.v.a[1], g))
            else:
                got = None
                break
        what = "option --%s, error %s" % (op.name, v["n"])
        if got is None:
            continue
        if any(not isinstance(t, str) for t in got) or any(not isinstance(t, str) for t in want):
            a, b = plain(got).strip(), plain(want).strip()
            if not b or a == b or any(tainted(t.v) for t in got if isinstance(t, Tok)):
                continue
        else:
            a, b = "".join(got).strip(), "".join(want).strip()
        if not b:
            ctx.violation("silent:" + v["n"], "the error %s has no description" % v["n"])
        elif a != b:
            ctx.violation("text:%s:%s" % (op.name, v["n"]), "%s: stderr gets %r instead of the error's description %r" % (what, a[:80], b[:80]))


def within_text(v, g):
    if v.k == "seq":
        out = []
        for s in v.a[0]:
            h = constrain(s.a[0], g)
            if And(g, s.a[0]) is F:
                continue
            out.append(mk(s.k, h, *s.a[1:]))
        return Seq(out)
    return v


def unless(ctx, key, what, g, more=""):
    """A condition that must not occur."""
    if g is F:
        return
    if tainted(g):
        ctx.undecided(key, "the condition isn't known")
    else:
        ctx.violation(key, what, show(g, 5)[:600])


def main_flow(ctx):
    p = ctx.p
    ctx.err_ty = key_of(p, ERR)
    flow = Flow(ctx)
    for op in ops(ctx, flow):
        what = "option --" + op.name
        k = op.name
        ctx.count("obligations", 5)
        calls = {a.a[0][5:].split("@")[0] for t in op.displays for a in apps(t.v) | apps(t.g) if a.a[0].startswith("call:")}
        used = {s.a[0].a[1][0].a[0][5:] for s in op.steps if s.k == "dd"} if op.steps else set()
        # which calls decide the operation isn't judged here (C09): only their errors are
        fail = Not(op.ok)
        shown = F
        for g, fn, v, i, sev in op.shown():
            unless(ctx, k + ":shown", "%s displays a breakdown although its decoding fails" % what, And(g, fail))
            unless(ctx, k + ":twice", "%s displays a breakdown twice" % what, And(shown, g))
            shown = Or(shown, g)
            if i is not None and i is not F and not tainted(i):
                ctx.violation(k + ":indentation", "%s displays its breakdown indented" % what)
            if sev is not None and sev is not T and not tainted(sev):
                ctx.violation(k + ":severity", "%s displays its breakdown without severity colours" % what)
        unless(ctx, k + ":missing", "%s displays no breakdown although its decoding succeeds" % what, And(op.ok, Not(shown)))
        err = F
        for t in op.errors:
            unless(ctx, k + ":error", "%s writes to stderr although its decoding succeeds" % what, And(t.g, op.ok))
            unless(ctx, k + ":errors", "%s writes to stderr twice" % what, And(err, t.g))
            err = Or(err, t.g)
        unless(ctx, k + ":silent", "%s reports nothing although its decoding fails" % what, And(fail, Not(err)))
        for t in op.toks:
            if isinstance(t, str):
                ctx.violation(k + ":text", "%s prints %r although its decoding fails" % (what, t[:40]))
            elif t.kind not in ("event",):
                unless(ctx, k + ":text", "%s prints text although its decoding fails" % what, And(t.g, fail))
        describe_error(ctx, op, flow)
        ctx.sample({"option": op.name, "error shown": "exactly when decoding fails"})
    settings(ctx, flow)


def settings(ctx, flow):
    """Invalid settings are reported too, and nothing is done then."""
    ats = {n: [a for a, _ in v] for n, v in flow.setting.items()}
    bad = F
    for n, v in ats.items():
        for a in v:
            bad = Or(bad, lit(a, s_of(a, [1])))
    if bad is F:
        ctx.undecided("settings", "they aren't read in a way that is understood")
        return
    ctx.count("obligations", 2)
    err = F
    for t in flatten(flow.r.out):
        g = T if isinstance(t, str) else t.g
        if not isinstance(t, str) and t.kind == "event" and t.v.a[0] == "eprint":
            err = Or(err, g)
            continue
        if isinstance(t, str) or t.kind != "event" or t.v.a[0] == "call":
            # only for the case that all settings before the first operation are known to be invalid
            unless(ctx, "settings:shown", "something is displayed although a setting is invalid", And(g, first_bad(flow, ats)))
    unless(ctx, "settings:silent", "an invalid setting isn't reported", And(first_bad(flow, ats), Not(err)))


def first_bad(flow, ats):
    g = F
    for v in ats.values():
        for a in v:
            g = Or(g, lit(a, s_of(a, [1])))
    return g


# ------------------------------------------------------------------ composite decoders


def fallible(p, f):
    d = p.fns[f]
    if not d["local"] or "{closure" in f or d.get("argc") == 0:
        return False
    t = p.desc(d["locals"][0])
    return t["k"] == "adt" and t.get("path") == "std::result::Result" and t["args"][1] == key_of(p, ERR)


COMPOSITE = [
    "<emv::cvm_list::CardholderVerificationMethodList as std::convert::TryFrom<&[u8]>>::try_from",
    "<emv::cvm_results::CardholderVerificationMethodResults as std::convert::TryFrom<&[u8]>>::try_from",
    "<emv::ccd::iad::IssuerApplicationData as std::convert::TryFrom<&[u8]>>::try_from",
    "<emv::ccd::cvr::CardVerificationResults as std::convert::TryFrom<&[u8]>>::try_from",
    "<emv::ccd::iad::CommonCoreIdentifier as std::convert::TryFrom<u8>>::try_from",
    "<emv::iac::default::IssuerActionCodeDefault as std::convert::TryFrom<&[u8]>>::try_from",
    "<emv::iac::denial::IssuerActionCodeDenial as std::convert::TryFrom<&[u8]>>::try_from",
    "<emv::iac::online::IssuerActionCodeOnline as std::convert::TryFrom<&[u8]>>::try_from",
    "<non_emv::service_code::ServiceCode as std::convert::TryFrom<&[u8]>>::try_from",
    "<non_emv::service_code::ServiceCode as std::convert::TryFrom<u16>>::try_from",
    "<emv::tag_basic_info::TagBasicInfo as std::convert::TryFrom<&[u8]>>::try_from",
    "<emv::tlv_parsing::ProcessedEmvNode as std::convert::TryFrom<emv::tlv_parsing::RawEmvNode>>::try_from",
    "<emv::terminal_type::TerminalType as std::convert::TryFrom<&[u8]>>::try_from",
    "<emv::pos_entry_mode::PosEntryMode as std::convert::TryFrom<&[u8]>>::try_from",
    "<emv::transaction_type::TransactionType as std::convert::TryFrom<&[u8]>>::try_from",
    "<emv::authorisation_response_code::AuthorisationResponseCode as std::convert::TryFrom<&[u8]>>::try_from",
]


def composite(ctx):
    p = ctx.p
    callees = {f: uninterpreted for f in p.fns if "{closure" not in f and fallible(p, f)}
    for fn in COMPOSITE:
        if fn not in p.fns:
            continue
        with ctx.guardeds(fn):
            r = ctx.run(fn, ["raw"], opaque=callees)
            cond, _ = ok_part(r.ret)
            done = set()
            for c in r.I.calls:
                f, g = c[1], c[4]
                if f not in callees or f in done:
                    continue
                for a in apps(cond) | apps(r.ret):
                    if a.a[0] == "discr" and a.a[1][0].a[0] == "call:" + f:
                        done.add(f)
                        break
                ctx.count("obligations")
            # every call's failure must be a failure of the whole
            for a in sorted(apps(r.ret) | apps(cond), key=lambda a: a.id):
                if a.a[0] == "discr" and isinstance(a.a[1][0].a[0], str) and a.a[1][0].a[0][5:] in callees:
                    f = a.a[1][0].a[0][5:]
                    if any(x.a[0] == "bv" for x in apps(a)):
                        continue
                    called = F
                    for c in r.I.calls:
                        if c[1] == f:
                            called = Or(called, c[4])
                    bad = And(lit(a, s_of(a, [1])), And(cond, called))
                    key = "swallowed:%s:%s" % (fn, f)
                    unless(ctx, key, "%s succeeds although %s fails" % (fn, f), bad)
            # a result that's never looked at
            for c in r.I.calls:
                f = c[1]
                if f in callees and f not in done and c[4] is not F and not tainted(r.ret):
                    if not any(x.a[0].startswith("call:" + f) for x in apps(r.ret)):
                        ctx.undecided("%s: %s" % (fn, f), "its error isn't looked at")
            ctx.sample({"decoder": fn, "calls": sorted(done)})


def check(ctx):
    with ctx.guardeds("main"):
        main_flow(ctx)
    with ctx.guardeds("composite decoders"):
        composite(ctx)
