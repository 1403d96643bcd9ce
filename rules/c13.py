"""C13: values of the wrong length are rejected with the right numbers."""
from spec.flags import FLAGS
from .common import *

RULE = ("For every decoder, the summary over a byte slice of unknown length is a diagram over that length (and the content). Each of its "
        "cells outside of the right length must be the byte-count error with the right comparison and expected number and with the "
        "slice's own length as the number found, whatever the content; no cell of the right length may be a byte-count error. The cells "
        "are covered by a representative of every interval (and residue) of lengths that the diagram distinguishes.")

# decoder: (comparison, expected) for all other lengths
EXACT = {ty: n for ty, (n, _) in FLAGS.items()}
EXACT.update({
    "emv::authorisation_response_code::AuthorisationResponseCode": 2,
    "emv::pos_entry_mode::PosEntryMode": 1,
    "emv::terminal_type::TerminalType": 1,
    "emv::transaction_type::TransactionType": 1,
    "emv::iac::default::IssuerActionCodeDefault": 5,
    "emv::iac::denial::IssuerActionCodeDenial": 5,
    "emv::iac::online::IssuerActionCodeOnline": 5,
    "non_emv::service_code::ServiceCode": 2,
})


def want_exact(n):
    return lambda size: None if size == n else ("ByteCountIncorrect", "Equal", n, size)


def want_list(size):
    if size < 8:
        return ("ByteCountIncorrect", "Greater", 8, size)
    return ("ByteCountNotDivisibleIntoComponents",) if size % 2 else None


def want_tag(size):
    return ("ByteCountIncorrect", "Greater", 1, 0) if size == 0 else None


def want_iad(size):
    return None if size == 32 else ("NonCcdCompliant",)


CASES = [(ty, want_exact(n), "%d bytes" % n) for ty, n in EXACT.items()] + [
    ("emv::cvm_list::CardholderVerificationMethodList", want_list, "8 bytes and pairs"),
    ("emv::tag_basic_info::TagBasicInfo", want_tag, "at least 1 byte"),
    ("emv::ccd::iad::IssuerApplicationData", want_iad, "32 bytes"),
]


def lengths(ret, size):
    """Representatives of every set of lengths that the summary tells apart."""
    out = set(range(0, 80))
    for x in parts(ret):
        if x.k == "dd" and x.a[0] is size:
            for s, _ in x.a[1]:
                lo = s_min(size, s)
                out |= {lo, lo + 1, max(0, lo - 1)}
    out |= {255, 256, 257, 65535, 65536, 65537}
    return sorted(n for n in out if n < 2**62)


def parts(v):
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.k == "dd":
            todo += [c for _, c in x.a[1]]


def kind(ctx, e, size):
    """A comparable form of an error value."""
    if e.k != "adt":
        return None
    n = variant_name(ctx.p, e)
    if n != "ByteCountIncorrect":
        return (n,)
    fs = dict(zip(("type", "expected", "found"), e.a[2]))
    t = variant_name(ctx.p, fs["type"]) if fs["type"].k == "adt" else None
    return (n, t) + tuple(fs[k].a[0] if fs[k].k == "int" else None for k in ("expected", "found"))


def check_one(ctx, ty, want, what):
    short = ty.split("::")[-1]
    fn = ctx.fn("<%s as std::convert::TryFrom<&[u8]>>::try_from" % ty)
    if fn is None:
        return
    arg = raw_bytes()
    size = arg.a[2]
    r = ctx.run(fn, [arg])
    sizes = lengths(r.ret, size)
    for n in sizes:
        ctx.count("obligations")
        w = want(n)
        cell = at(r.ret, {size: n})
        stop = at(r.guard, {size: n})
        if stop is F and cell is BOT:
            ctx.undecided("%s:%d" % (short, n), "doesn't return")
            continue
        for x in leaves(cell):
            if x is BOT:
                continue
            if x.k != "adt":
                ctx.undecided("%s:%d" % (short, n), "unknown result %s" % show(x, 3)[:100])
                continue
            if x.a[1] == 0:
                if w is not None:
                    ctx.violation("%s:accepts" % short, "%s accepts %d bytes instead of %s" % (short, n, what))
                continue
            for e in leaves(x.a[2][0]):
                if e is BOT:
                    continue
                k = kind(ctx, e, size)
                if k is None or None in k:
                    ctx.undecided("%s:%d" % (short, n), "unknown error %s" % show(e, 3)[:100])
                elif w is None and k[0].startswith("ByteCount"):
                    g = And(leaf_guard(cell, lambda y: y is x), leaf_guard(x.a[2][0], lambda y: y is e) if x.a[2][0] is not e else T)
                    r.I.ensure_invariants()
                    if cube_of(ctx, r.I, g) is None:
                        continue
                    if any(a.a[0].startswith("phi") for a in apps(g)):
                        ctx.undecided("%s:%d" % (short, n), "may be rejected for its length inside of a loop")
                        continue
                    ctx.violation("%s:rejects" % short, "%s rejects %d bytes for their number: %s" % (short, n, error_text(ctx.p, e)))
                elif w is not None and k != w:
                    ctx.violation("%s:error" % short, "%s answers %d bytes with %s instead of %s" % (short, n, k, w))
    # the lengths between the representatives: the number found must be the length itself
    for x in leaves(err_part(r.ret)):
        if x.k == "adt" and variant_name(ctx.p, x) == "ByteCountIncorrect":
            ctx.count("obligations")
            found = x.a[2][2]
            if found.k == "app" and found is not size:
                ctx.undecided(short, "number found is %s" % show(found, 3)[:100])
    ctx.sample({"decoder": short, "right length": what, "lengths": len(sizes)})


def check(ctx):
    for ty, want, what in CASES:
        with ctx.guardeds(ty.split("::")[-1]):
            check_one(ctx, ty, want, what)
