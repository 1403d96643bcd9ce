"""Ranking functions of loops: something that strictly moves towards a fixed bound in every iteration."""
from .common import *


class Rank:
    def __init__(self, what, most=None):
        self.what, self.most = what, most  # `most`: a constant bound on the number of iterations, if there is one


def whole(x):
    return x is not BOT and is_intleaf(x)


def measures(I, rec):
    """[(name, value at the start of an iteration, value at its end or None where the loop ends)]"""
    out = []
    for q in rec.phis:
        if q.mode == "int" and q.phi.k == "app" and all(whole(b) for b in leaves(q.back) if b is not BOT):
            out.append((q.name or show(q.phi, 2), q.phi, q.back))
        elif q.mode == "val" and q.phi.k == "dd":
            alive = [x for x in leaves(q.phi) if x.k == "adt" and And(rec.back_guard, leaf_guard(q.phi, lambda y, x=x: y is x)) is not F]
            if len(alive) != 1:
                continue
            x = alive[0]
            for i, fd in enumerate(x.a[2]):
                if fd.k != "app" or not is_intleaf(fd):
                    continue

                def part(b, x=x, i=i):
                    if b.k != "adt":
                        return BOT
                    return b.a[2][i] if b.a[1] == x.a[1] else UNIT
                back = smap(part, q.back)
                if all(whole(b) or b is UNIT for b in leaves(back) if b is not BOT) and BOT not in leaves(q.back):
                    out.append((q.name or show(fd, 2), fd, back))
    return out


def never(I, g, bad, limit=6000):
    g = And(g, bad)
    if g is F:
        return True
    try:
        return feasible_cube(g, I.facts, (), limit) is None
    except Budget:
        return False


def over(b, f):
    """The condition of an end value being such that `f <= 0` doesn't hold for it."""
    return smap(lambda y: F if y is UNIT or y is BOT else Not(le0(f(y))), b)


def bounds(rec, x):
    """Loop-constant terms that the value may be bounded by."""
    mine = set()
    for q in rec.phis:
        mine |= apps(q.phi)
    out = []
    for a in apps(rec.back_guard) | apps(rec.entry_guard):
        if a.a[0] == "len" and not (apps(a) & mine):
            out.append(a)
        elif a.a[0] == "le0" and x in lin_of(a.a[1][0])[0]:
            for t in lin_of(a.a[1][0])[0]:
                if t is not x and t not in mine and not (apps(t) & mine):
                    out.append(t)
    return list(dict.fromkeys(out))


def rank(I, rec):
    """A ranking function of a loop, or None."""
    if rec.bound is not None:
        return Rank("counts up to " + show(rec.bound, 2)[:60])
    ms = measures(I, rec)
    g = rec.back_guard
    for name, x, back in ms:
        lo, hi = lrange(x)
        # halves at least
        if lo >= 0 and hi < 2**64 and never(I, g, over(back, lambda y: l_add(l_scale(y, 2), x, -1))) and (never(I, g, over(back, lambda y: l_add(T, y, -1))) or never(I, g, Not(le0(l_add(T, x, -1))))):
            return Rank("%s at least halves" % name, hi.bit_length() + 1)
        if lo >= 0 and never(I, g, over(back, lambda y: l_add(l_add(y, T), x, -1))):
            return Rank("%s decreases" % name, hi + 1 if hi < 2**16 else None)
        if never(I, g, over(back, lambda y: l_add(l_add(x, T), y, -1))):
            if hi < 2**17:
                return Rank("%s increases" % name, hi - lo + 1)
            for t in bounds(rec, x):
                if never(I, g, Not(le0(l_add(x, t, -1)))):
                    return Rank("%s increases up to %s" % (name, show(t, 2)[:60]))
            # a constant bound
            if never(I, g, Not(le0(l_add(x, Int(-2**17))))):
                return Rank("%s increases up to a constant" % name, 2**17)
    for i, (n1, x, b1) in enumerate(ms):
        for n2, y, b2 in ms[:i] + ms[i + 1:]:
            d = smap(lambda p, q: BOT if UNIT in (p, q) or BOT in (p, q) else l_add(p, q, -1), b2, b1)
            if any(not whole(z) for z in leaves(d)):
                continue
            now = l_add(y, x, -1)
            if never(I, g, Not(le0(l_scale(now, -1)))) and never(I, g, over(d, lambda z: l_add(l_add(z, T), now, -1))):
                return Rank("%s - %s decreases" % (n2, n1))
    return None


def control(rec):
    """The state that decides whether the loop goes on."""
    todo = list(apps(rec.back_guard))
    out = []
    for a in apps(rec.back_guard):
        pass
    seen = set()
    while todo:
        a = todo.pop()
        for q in rec.phis:
            if q not in seen and a in apps(q.phi):
                seen.add(q)
                out.append(q)
                todo += list(apps(q.back))
    return out


def stuck(I, rec):
    """The condition of an iteration that leaves the loop's control state as it was; None if that isn't known."""
    g = rec.back_guard
    for q in control(rec):
        if q.mode in ("seq", "map"):
            if q.back is not q.phi:
                return None
            continue
        d = differ(q.back, q.phi, g)
        if d is None:
            return None
        g = And(g, Not(d))
    return g


def counter_facts(I, rec, most):
    """Bounds of what counts the iterations."""
    for q in rec.phis:
        if q.mode != "int" or q.phi.k != "app" or not whole(q.init):
            continue
        d = smap(lambda b: l_add(b, q.phi, -1) if whole(b) else BOT, q.back)
        steps = [x.a[0] if x.k == "int" else None for x in leaves(d)]
        if None in steps or not steps:
            continue
        hi = lrange(q.init)[1] + max(0, max(steps)) * most
        I.facts.add(q.phi, {q.phi: 1}, -hi)
