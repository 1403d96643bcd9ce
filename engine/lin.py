"""Linear infeasibility over the integers (Fourier-Motzkin elimination).

Used to discharge index, slice and overflow obligations and to check inductive
loop invariants; it never searches for a model of the program.
"""
from math import gcd
from .vals import *


def _norm(d, k):
    g = 0
    for c in d.values():
        g = gcd(g, c)
    if g > 1:
        d = {t: c // g for t, c in d.items()}
        k = -((-k) // g)
    return d, k


def infeasible(cons, cap=4000):
    """True when the constraints `sum + k <= 0` have no integer solution (sound, incomplete)."""
    work = {}
    for d, k in cons:
        d = {t: c for t, c in d.items() if c}
        if not d:
            if k > 0:
                return True
            continue
        d, k = _norm(d, k)
        key = tuple(sorted(((t.id, c) for t, c in d.items())))
        if key not in work or work[key][1] < k:
            work[key] = (d, k)
    cs = list(work.values())
    n = 0
    while True:
        vars_ = {}
        for d, k in cs:
            for t, c in d.items():
                p = vars_.setdefault(t, [0, 0])
                p[0 if c > 0 else 1] += 1
        if not vars_:
            return any(k > 0 for _, k in cs)
        t = min(vars_, key=lambda t: (vars_[t][0] * vars_[t][1] - vars_[t][0] - vars_[t][1], t.id))
        pos = [(d, k) for d, k in cs if d.get(t, 0) > 0]
        neg = [(d, k) for d, k in cs if d.get(t, 0) < 0]
        rest = [(d, k) for d, k in cs if d.get(t, 0) == 0]
        work = {}
        for d, k in rest:
            work[tuple(sorted((x.id, c) for x, c in d.items()))] = (d, k)
        for d1, k1 in pos:
            for d2, k2 in neg:
                n += 1
                if n > cap:
                    return False
                a, b = d1[t], -d2[t]
                d = {}
                for x, c in d1.items():
                    if x is not t:
                        d[x] = d.get(x, 0) + b * c
                for x, c in d2.items():
                    if x is not t:
                        d[x] = d.get(x, 0) + a * c
                d = {x: c for x, c in d.items() if c}
                k = b * k1 + a * k2
                if not d:
                    if k > 0:
                        return True
                    continue
                d, k = _norm(d, k)
                key = tuple(sorted((x.id, c) for x, c in d.items()))
                if key not in work or work[key][1] < k:
                    work[key] = (d, k)
        cs = list(work.values())


def lit_cons(atom, s):
    """The linear constraints that `atom in s` implies."""
    if atom.a[0] == "le0":
        d, k = lin_of(atom.a[1][0])
        if s == 2:
            return [(d, k)]
        if s == 1:
            return [({t: -c for t, c in d.items()}, 1 - k)]
        return []
    lo, hi = s_min(atom, s), s_max(atom, s)
    return [({atom: 1}, -hi), ({atom: -1}, lo)]


def _constant(b):
    """The value of a constant divisor, 0 when it isn't one."""
    if isinstance(b, int):
        return b
    return b.a[0] if b.k == "int" else 0


def _division(t):
    """a / n = q: n * q <= a <= n * q + n - 1, for a >= 0 and constant n > 0."""
    a, b = t.a[1]
    n = _constant(b)
    if n <= 0 or not is_intleaf(a) or lrange(a)[0] < 0:
        return []
    d, k = lin_of(a)
    lo = {x: -c for x, c in d.items()}
    lo[t] = lo.get(t, 0) + n
    hi = dict(d)
    hi[t] = hi.get(t, 0) - n
    return [(lo, -k), (hi, k - n + 1)]


def _remainder(t):
    """a % n = a - n * (a / n)."""
    a, b = t.a[1]
    n = _constant(b)
    if n <= 0 or not is_intleaf(a) or lrange(a)[0] < 0:
        return []
    q = muldiv("Div", a, Int(n), 0, 2**64 - 1)
    if not is_intleaf(q):
        return []
    d, k = lin_of(a)
    up = dict(d)
    dq, kq = lin_of(q)
    for x, c in dq.items():
        up[x] = up.get(x, 0) - n * c
    up[t] = up.get(t, 0) - 1
    kk = k - n * kq
    return [(up, kk), ({x: -c for x, c in up.items()}, -kk)]


class Facts:
    """Background facts about uninterpreted terms."""

    def __init__(self):
        self.byapp = {}
        self.byop = {"div": _division, "rem": _remainder}

    def add(self, app, d, k):
        self.byapp.setdefault(app, []).append((d, k))

    def closure(self, cons):
        """The constraints together with the ranges of and facts about their terms."""
        out = list(cons)
        todo = []
        seen = set()

        def note(d):
            for t in d:
                if t not in seen:
                    seen.add(t)
                    todo.append(t)

        for d, k in cons:
            note(d)
        while todo:
            t = todo.pop()
            lo, hi = dom(t)
            out.append(({t: 1}, -hi))
            out.append(({t: -1}, lo))
            fs = list(self.byapp.get(t, ()))
            h = self.byop.get(t.a[0])
            if h is not None:
                fs += h(t)
            for d, k in fs:
                out.append((d, k))
                note(d)
        return out


def cons_of_le(v):
    """`v <= 0` for an integer leaf."""
    d, k = lin_of(v)
    return (d, k)


def feasible_cube(g, facts, extra=(), limit=20000):
    """A cube of `g` whose linear part isn't refuted, as [(atom, set)], or None."""
    count = [0]
    dead = set()
    budget = [limit]

    def walk(n, cube, cons):
        if n is F or n is BOT:
            return None
        if n is T:
            if infeasible(facts.closure(cons)):
                return None
            return cube
        key = (n, tuple(sorted((tuple(sorted((t.id, c) for t, c in d.items())), k) for d, k in cons)))
        if key in dead:
            return None
        budget[0] -= 1
        if budget[0] < 0:
            raise Budget()
        atom = n.a[0]
        for s, c in n.a[1]:
            if c is F or c is BOT:
                continue
            new = lit_cons(atom, s)
            cons2 = cons + new
            if new and infeasible(facts.closure(cons2)):
                continue
            r = walk(c, cube + [(atom, s)], cons2)
            if r is not None:
                return r
        dead.add(key)
        return None

    return walk(g, [], list(extra))


class Budget(Exception):
    pass


def show_cube(cube):
    return " & ".join("%s in %s" % (show(a), s_show(a, s)) for a, s in cube)
