"""The value domain of the analysis.

Every abstract value is an interned, immutable node `V`.  Values that depend on
a decision are decision diagrams (`dd`): a finite-domain atom and a partition of
its domain into sets, each with a child value.  Merging two control-flow edges
joins their values into one such diagram, so the analysis never enumerates
paths.
"""
import sys
from math import gcd

sys.setrecursionlimit(100000)


class V:
    __slots__ = ("k", "a", "id", "_taint", "_apps", "_leaves", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id  # the same in every run


_tab = {}
SMALL = 65536


def mk(k, *a):
    key = (k,) + a
    v = _tab.get(key)
    if v is None:
        v = V()
        v.k = k
        v.a = a
        v.id = len(_tab)
        v._taint = None
        v._apps = None
        v._leaves = None
        _tab[key] = v
    return v


def Int(n):
    return mk("int", int(n))


BOT = mk("bot")
F = Int(0)
T = Int(1)
UNIT = mk("tup", ())
BOOL = ("i", 0, 1)
U8 = ("i", 0, 255)
USIZE = ("i", 0, 2**64 - 1)
LEN = ("i", 0, 2**62 - 1)   # nothing in memory is longer
POS = ("i", 0, 2**62)        # a position in something


def Str(s):
    return mk("str", s)


def Adt(ty, variant, fields=()):
    return mk("adt", ty, variant, tuple(fields))


def Tup(fields):
    return mk("tup", tuple(fields))


def Arr(fields):
    return mk("arr", tuple(fields))


def Sref(v):
    return mk("sref", v)


def Seq(segs=()):
    return mk("seq", tuple(segs))


def El(guard, v):
    return mk("el", guard, v)


def Slice(base, start, end):
    return mk("slice", base, start, end)


def App(op, args, ty):
    """An uninterpreted term of integer range `ty` = ("i", lo, hi) or type key."""
    if isinstance(ty, tuple) and ty[1] == ty[2]:
        return Int(ty[1])
    return mk("app", op, tuple(args), ty)


# ---------------------------------------------------------------- sub-values


def kids(v):
    """The direct sub-values of `v`."""
    k, a = v.k, v.a
    if k in ("int", "str", "bot", "fn"):
        return ()
    if k == "app":
        return tuple(x for x in a[1] if isinstance(x, V))
    if k == "lin":
        return tuple(t for t, _ in a[0])
    if k == "dd":
        return (a[0],) + tuple(c for _, c in a[1])
    out = []
    for x in a:
        if isinstance(x, V):
            out.append(x)
        elif isinstance(x, tuple):
            out.extend(y for y in x if isinstance(y, V))
    return tuple(out)


UNRESOLVED = ("unk", "phi", "phiseq", "phimap")


def taint(v):
    """Whether `v` contains something that the analysis doesn't know."""
    if v._taint is None:
        v._taint = False
        v._taint = (v.k == "app" and v.a[0] in UNRESOLVED) or any(taint(x) for x in kids(v))
    return v._taint


_E = frozenset()


def apps(v):
    """Every `app` node inside of `v`, transitively."""
    if v._apps is None:
        s = _E
        for x in kids(v):
            s = s | apps(x)
        if v.k == "app":
            s = s | {v}
        v._apps = s
    return v._apps


# ------------------------------------------------------------------ sets
# A set over a small domain is a bit mask offset by the domain's minimum, over a
# large one a tuple of disjoint ascending intervals.


def dom(atom):
    ty = atom.a[2]
    if not (isinstance(ty, tuple) and ty[0] == "i"):
        raise ValueError("no domain: %s" % show(atom))
    return ty[1], ty[2]


def is_small(atom):
    lo, hi = dom(atom)
    return hi - lo < SMALL


def s_full(atom):
    lo, hi = dom(atom)
    if hi - lo < SMALL:
        return (1 << (hi - lo + 1)) - 1
    return ((lo, hi),)


def s_range(atom, lo, hi):
    dl, dh = dom(atom)
    lo, hi = max(lo, dl), min(hi, dh)
    if dh - dl < SMALL:
        if lo > hi:
            return 0
        return ((1 << (hi - lo + 1)) - 1) << (lo - dl)
    return ((lo, hi),) if lo <= hi else ()


def s_of(atom, values):
    dl, dh = dom(atom)
    if dh - dl < SMALL:
        m = 0
        for x in values:
            if dl <= x <= dh:
                m |= 1 << (x - dl)
        return m
    out = []
    for x in sorted(set(values)):
        if dl <= x <= dh:
            if out and out[-1][1] == x - 1:
                out[-1] = (out[-1][0], x)
            else:
                out.append((x, x))
    return tuple(out)


def s_and(a, b):
    if isinstance(a, int):
        return a & b
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def s_or(a, b):
    if isinstance(a, int):
        return a | b
    out = []
    for lo, hi in sorted(a + b):
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def s_not(atom, a):
    if isinstance(a, int):
        return s_full(atom) & ~a
    lo, hi = dom(atom)
    out = []
    cur = lo
    for x, y in a:
        if cur < x:
            out.append((cur, x - 1))
        cur = y + 1
    if cur <= hi:
        out.append((cur, hi))
    return tuple(out)


def s_min(atom, s):
    if isinstance(s, int):
        return dom(atom)[0] + (s & -s).bit_length() - 1
    return s[0][0]


def s_max(atom, s):
    if isinstance(s, int):
        return dom(atom)[0] + s.bit_length() - 1
    return s[-1][1]


def s_count(s):
    if isinstance(s, int):
        return bin(s).count("1")
    return sum(h - l + 1 for l, h in s)


def s_single(atom, s):
    """The only element of `s`, or None."""
    if isinstance(s, int):
        if s & (s - 1) == 0 and s:
            return dom(atom)[0] + s.bit_length() - 1
        return None
    if len(s) == 1 and s[0][0] == s[0][1]:
        return s[0][0]
    return None


def s_has(atom, s, n):
    if isinstance(s, int):
        i = n - dom(atom)[0]
        return i >= 0 and bool(s >> i & 1)
    return any(l <= n <= h for l, h in s)


def s_iter(atom, s):
    if isinstance(s, int):
        lo = dom(atom)[0]
        i = 0
        while s:
            if s & 1:
                yield lo + i
            s >>= 1
            i += 1
    else:
        for l, h in s:
            yield from range(l, h + 1)


def s_show(atom, s):
    if isinstance(s, int):
        xs = list(s_iter(atom, s))
        out = []
        for x in xs:
            if out and out[-1][1] == x - 1:
                out[-1][1] = x
            else:
                out.append([x, x])
        s = out
    r = ",".join("%d" % a if a == b else "%d..%d" % (a, b) for a, b in list(s)[:8])
    return "{%s%s}" % (r, ",.." if len(s) > 8 else "")


# ------------------------------------------------------------------ diagrams


def mkdd(atom, pairs):
    """Children must only test atoms after `atom`."""
    by = {}
    for s, c in pairs:
        if not s:
            continue
        by[c] = s_or(by[c], s) if c in by else s
    if BOT in by and len(by) > 1:
        s = by.pop(BOT)
        big = max(by, key=lambda c: (s_count(by[c]), -s_min(atom, by[c])))
        by[big] = s_or(by[big], s)
    if len(by) == 1:
        return next(iter(by))
    ch = tuple(sorted(((s, c) for c, s in by.items()), key=lambda p: s_min(atom, p[0])))
    return mk("dd", atom, ch)


def assemble(atom, pairs):
    for s, c in pairs:
        if s and c.k == "dd" and c.a[0].id <= atom.id:
            break
    else:
        return mkdd(atom, pairs)
    acc = BOT
    for s, c in pairs:
        if s:
            acc = dmap(_ite, (lit(atom, s), c, acc), nonorm=True)
    return acc


def _ite(g, a, b):
    return a if g is T else b


def choice(g, a, b):
    """`a` where the condition holds, `b` elsewhere."""
    return norm(dmap(_ite, (g, a, b), nonorm=True))


def lit(atom, s):
    """The condition `atom in s`."""
    return mkdd(atom, ((s, T), (s_not(atom, s), F)))


def subst_one(v, atom, n):
    """Replaces `atom` by the constant `n` in an integer leaf."""
    if v is atom:
        return Int(n)
    if v.k == "lin":
        for t, c in v.a[0]:
            if t is atom:
                d = dict(v.a[0])
                del d[atom]
                return lin_make(d, v.a[1] + c * n)
    return v


def dmap(f, args, memo=None, nonorm=False):
    """Applies `f` to every combination of leaves of the diagrams in `args`."""
    top = memo is None
    if top:
        memo = {}
    r = memo.get(args)
    if r is not None:
        return r
    atom = None
    for x in args:
        if x.k == "dd" and (atom is None or x.a[0].id < atom.id):
            atom = x.a[0]
    if atom is None:
        r = f(*args)
    else:
        blocks = [(None, ())]
        for x in args:
            if x.k == "dd" and x.a[0] is atom:
                nb = []
                for s, xs in blocks:
                    for s2, c in x.a[1]:
                        s3 = s2 if s is None else s_and(s, s2)
                        if s3:
                            nb.append((s3, xs + (c,)))
                blocks = nb
            else:
                blocks = [(s, xs + (x,)) for s, xs in blocks]
        pairs = []
        for s, xs in blocks:
            n = s_single(atom, s)
            if n is not None:
                xs = tuple(subst_one(x, atom, n) for x in xs)
            pairs.append((s, dmap(f, xs, memo, True)))
        r = assemble(atom, pairs)
    memo[args] = r
    if top and not nonorm:
        r = norm(r)
    return r


def smap(f, *args):
    """`dmap` for strict functions: an undefined argument gives an undefined result."""

    def g(*xs):
        for x in xs:
            if x is BOT:
                return BOT
        return f(*xs)

    return dmap(g, args)


_andm = {}
_orm = {}
_notm = {}


def _boolop(cache, f, a, b):
    if a.id > b.id:
        a, b = b, a
    k = (a, b)
    r = cache.get(k)
    if r is None:
        r = dmap(f, (a, b), nonorm=True)
        cache[k] = r
    return r


def And(a, b):
    if a is F or b is F:
        return F
    if a is T:
        return b
    if b is T or a is b:
        return a

    def f(x, y):
        if x is F or y is F:
            return F
        if x is BOT or y is BOT:
            return BOT
        return T

    return _boolop(_andm, f, a, b)


def Or(a, b):
    if a is T or b is T:
        return T
    if a is F:
        return b
    if b is F or a is b:
        return a

    def f(x, y):
        if x is T or y is T:
            return T
        if x is BOT or y is BOT:
            return BOT
        return F

    return _boolop(_orm, f, a, b)


def Not(a):
    r = _notm.get(a)
    if r is None:
        r = dmap(lambda x: F if x is T else T if x is F else BOT, (a,), nonorm=True)
        _notm[a] = r
    return r


def AndAll(xs):
    r = T
    for x in xs:
        r = And(r, x)
    return r


def OrAll(xs):
    r = F
    for x in xs:
        r = Or(r, x)
    return r


def implies(a, b):
    return And(a, Not(b)) is F


def leaves(v):
    if v.k != "dd":
        return (v,)
    if v._leaves is None:
        out = {}
        for _, c in v.a[1]:
            for x in leaves(c):
                out[x] = 1
        v._leaves = tuple(out)
    return v._leaves


def leaf_guard(v, pred):
    """The condition under which the leaf of `v` satisfies `pred`."""
    return dmap(lambda x: BOT if x is BOT else (T if pred(x) else F), (v,), nonorm=True)


def constrain(v, g):
    """`v` where `g` holds, anything elsewhere."""
    if g is T:
        return v
    return dmap(lambda x, y: x if y is T else BOT, (v, g))


def shape(v):
    k = v.k
    if k == "adt":
        return ("adt", v.a[0], v.a[1])
    if k in ("tup", "arr"):
        return (k, len(v.a[0]))
    if k in ("sref", "seq", "box"):
        return (k,)
    if k == "slice":
        return (k, v.a[0])
    if k == "clo":
        return (k, v.a[0])
    if k == "it":
        return (k, v.a[0], len(v.a[1]))
    if k == "ev":
        return None
    if k == "dyn":
        return (k, v.a[0])
    return None


_normm = {}


def norm(v):
    """Merges the leaves of a diagram that are built by the same constructor."""
    if v.k != "dd":
        return v
    r = _normm.get(v)
    if r is not None:
        return r
    groups = {}
    for x in leaves(v):
        s = shape(x)
        if s is not None:
            groups.setdefault(s, []).append(x)
    rep = {}
    for s, xs in groups.items():
        if len(xs) > 1:
            g = leaf_guard(v, lambda x: x is xs[0])
            m = xs[0]
            for y in xs[1:]:
                gy = leaf_guard(v, lambda x: x is y)
                m = join(g, m, gy, y)
                g = Or(g, gy)
            for x in xs:
                rep[x] = m
    r = v
    if rep:
        r = dmap(lambda x: rep.get(x, x), (v,), nonorm=True)
    _normm[v] = r
    return r


def rel(g1, g2):
    """The condition that tells `g1` from `g2`, where either holds."""
    return dmap(lambda a, b: T if a is T else (F if b is T else BOT), (g1, g2), nonorm=True)


def join(g1, v1, g2, v2):
    """The value that is `v1` under `g1` and `v2` under `g2`; they exclude each other."""
    if v1 is v2 or v2 is BOT:
        return v1
    if v1 is BOT:
        return v2
    if v1.k != "dd" and v2.k != "dd":
        s1 = shape(v1)
        if s1 is not None and s1 == shape(v2):
            return join_struct(s1, g1, v1, g2, v2)
    return norm(dmap(lambda a, x, b, y: x if a is T else (y if b is T else BOT), (g1, v1, g2, v2), nonorm=True))


def join_struct(s, g1, v1, g2, v2):
    k = s[0]

    def js(xs, ys):
        return tuple(join(g1, x, g2, y) for x, y in zip(xs, ys))

    if k == "adt":
        return mk("adt", v1.a[0], v1.a[1], js(v1.a[2], v2.a[2]))
    if k in ("tup", "arr"):
        return mk(k, js(v1.a[0], v2.a[0]))
    if k in ("sref", "box"):
        return mk(k, join(g1, v1.a[0], g2, v2.a[0]))
    if k in ("clo", "it"):
        return mk(k, v1.a[0], js(v1.a[1], v2.a[1]))
    if k == "dyn":
        return mk(k, v1.a[0], join(g1, v1.a[1], g2, v2.a[1]))
    if k == "slice":
        return mk(k, v1.a[0], join(g1, v1.a[1], g2, v2.a[1]), join(g1, v1.a[2], g2, v2.a[2]))
    assert k == "seq"
    a, b = v1.a[0], v2.a[0]
    n = 0
    while n < len(a) and n < len(b) and a[n] is b[n]:
        n += 1
    r1 = rel(g1, g2)
    r2 = Not(r1)
    ra, rb = a[n:], b[n:]
    # the same things, appended in the same order
    if len(ra) == len(rb) and all(x.a[1:] == y.a[1:] and x.k == y.k for x, y in zip(ra, rb)):
        out = [
            mk(x.k, Or(And(x.a[0], r1), And(y.a[0], r2)), *x.a[1:]) for x, y in zip(ra, rb)
        ]
        return Seq(a[:n] + tuple(out))
    # the same repetition, to different bounds
    if len(ra) == 1 and len(rb) == 1 and ra[0].k == "rep" and rb[0].k == "rep":
        x, y = ra[0].a, rb[0].a
        if x[1] is y[1] and x[2] is y[2] and x[4] == y[4]:
            return Seq(a[:n] + (mk("rep", Or(And(x[0], r1), And(y[0], r2)), x[1], x[2], join(g1, x[3], g2, y[3]), x[4]),))
    return Seq(a[:n] + tuple(guard_seg(r1, x) for x in ra) + tuple(guard_seg(r2, x) for x in rb))


def guard_seg(g, seg):
    """Every segment has its guard as its first argument."""
    return mk(seg.k, And(g, seg.a[0]), *seg.a[1:])


# ------------------------------------------------------------------ integers


def lin_make(d, k):
    ts = tuple(sorted(((t, c) for t, c in d.items() if c), key=lambda p: p[0].id))
    if not ts:
        return Int(k)
    if len(ts) == 1 and ts[0][1] == 1 and k == 0:
        return ts[0][0]
    return mk("lin", ts, k)


def lin_of(v):
    """(terms, constant) of an integer leaf, or None."""
    if v.k == "int":
        return {}, v.a[0]
    if v.k == "app":
        return {v: 1}, 0
    if v.k == "lin":
        return dict(v.a[0]), v.a[1]
    return None


def is_intleaf(v):
    return v.k in ("int", "lin") or (v.k == "app" and isinstance(v.a[2], tuple))


def lrange(v):
    """The interval of an integer leaf."""
    if v.k == "int":
        return v.a[0], v.a[0]
    if v.k == "app":
        return v.a[2][1], v.a[2][2]
    d, k = lin_of(v)
    lo = hi = k
    for t, c in d.items():
        a, b = dom(t)
        if c > 0:
            lo += c * a
            hi += c * b
        else:
            lo += c * b
            hi += c * a
    return lo, hi


def vrange(v):
    lo = hi = None
    for x in leaves(v):
        if x is BOT:
            continue
        if not is_intleaf(x):
            return None
        a, b = lrange(x)
        lo = a if lo is None else min(lo, a)
        hi = b if hi is None else max(hi, b)
    return (lo, hi) if lo is not None else None


def l_add(a, b, sb=1):
    da, ka = lin_of(a)
    db, kb = lin_of(b)
    d = dict(da)
    for t, c in db.items():
        d[t] = d.get(t, 0) + sb * c
    return lin_make(d, ka + sb * kb)


def l_scale(a, c):
    d, k = lin_of(a)
    return lin_make({t: x * c for t, x in d.items()}, k * c)


def le0(v):
    """The condition `v <= 0` on an integer leaf."""
    d, k = lin_of(v)
    if not d:
        return T if k <= 0 else F
    lo, hi = lrange(v)
    if hi <= 0:
        return T
    if lo > 0:
        return F
    if len(d) == 1:
        ((t, c),) = d.items()
        if c > 0:
            return lit(t, s_range(t, dom(t)[0], (-k) // c))
        return lit(t, s_range(t, -((-k) // (-c)), dom(t)[1]))
    g = 0
    for c in d.values():
        g = gcd(g, c)
    if g > 1:
        d = {t: c // g for t, c in d.items()}
        k = -((-k) // g)
    ts = sorted(d.items(), key=lambda p: p[0].id)
    if ts[0][1] > 0:
        return lit(mk("app", "le0", (lin_make(d, k),), BOOL), 2)
    # not (-(v) + 1 <= 0)
    return lit(mk("app", "le0", (lin_make({t: -c for t, c in d.items()}, 1 - k),), BOOL), 1)


def _int2(f):
    def g(a, b):
        if not (is_intleaf(a) and is_intleaf(b)):
            return None
        return f(a, b)

    return g


def i_le(a, b):
    return le0(l_add(a, b, -1))


def i_lt(a, b):
    return le0(l_add(l_add(a, b, -1), T))


def i_eq(a, b):
    d = l_add(a, b, -1)
    ds, k = lin_of(d)
    if len(ds) == 1:
        ((t, c),) = ds.items()
        if k % c:
            return F
        return lit(t, s_of(t, [-k // c]))
    return And(le0(d), le0(l_scale(d, -1)))


def Le(a, b):
    return smap(i_le, a, b)


def Lt(a, b):
    return smap(i_lt, a, b)


def Eq(a, b):
    return smap(i_eq, a, b)


def Add(a, b):
    return smap(l_add, a, b)


def Sub(a, b):
    return smap(lambda x, y: l_add(x, y, -1), a, b)


def wrap(n, lo, hi):
    m = hi - lo + 1
    return (n - lo) % m + lo


COARSE = False  # keeps remainders and shifts by an unknown amount as they are


def coarse(on):
    global COARSE
    COARSE = on


def enum_fn(v, f):
    """Applies a function of one small-domain atom to an integer leaf by enumeration."""
    d, k = lin_of(v)
    if not d:
        return Int(f(k))
    if len(d) == 1:
        ((t, c),) = d.items()
        if is_small(t):
            lo, hi = dom(t)
            by = {}
            for x in range(lo, hi + 1):
                by.setdefault(f(c * x + k), []).append(x)
            if len(by) > 4096:
                return None
            return mkdd(t, [(s_of(t, xs), Int(n)) for n, xs in by.items()])
    return None


def fit(v, lo, hi):
    """Truncates an integer leaf to the range of a type."""
    a, b = lrange(v)
    if lo <= a and b <= hi:
        return v
    r = enum_fn(v, lambda n: wrap(n, lo, hi))
    if r is not None:
        return r
    return App("wrap", (v, lo, hi), ("i", lo, hi))


def low_zeros(v):
    """The number of low bits of an integer leaf that are known to be zero."""
    d, k = lin_of(v)
    n = 64
    for c in list(d.values()) + ([k] if k else []):
        n = min(n, (c & -c).bit_length() - 1)
    return n


def bitop(op, a, b, lo, hi):
    """A bitwise operation or shift on two integer leaves of a type."""
    if op in ("Shl", "Shr") and b.k == "int" and not 0 <= b.a[0] < 128:
        return F  # (overflows; only on a path that doesn't happen)
    if a.k == "int" and b.k == "int":
        return Int(wrap(_bit(op, a.a[0], b.a[0]), lo, hi))
    if op in ("BitAnd", "BitOr", "BitXor") and a.k == "int":
        a, b = b, a
    if b.k == "int":
        n = b.a[0]
        if op == "BitAnd" and n == 0:
            return F
        if op in ("BitOr", "BitXor", "Shl", "Shr") and n == 0:
            return a
        if op == "BitAnd" and n >= 0 and (n & (n + 1)) == 0 and lrange(a)[0] >= 0 and lrange(a)[1] <= n:
            return a
        if op == "Shl":
            r = l_scale(a, 1 << n)
            x, y = lrange(r)
            if lo <= x and y <= hi:
                return r
        if op == "Shr" and lrange(a)[0] >= 0 and lrange(a)[1] < (1 << n):
            return F
        r = enum_fn(a, lambda x: wrap(_bit(op, x, n), lo, hi))
        if r is not None:
            return r
        if op == "BitAnd" and n > 0 and (n & (n + 1)) == 0 and lrange(a)[0] >= 0:
            return muldiv("Rem", a, Int(n + 1), lo, hi)
        if op == "Shr" and lrange(a)[0] >= 0:
            return muldiv("Div", a, Int(1 << n), lo, hi)
    if a is b:
        if op in ("BitAnd", "BitOr"):
            return a
        if op == "BitXor":
            return F
    if op in ("BitOr", "BitXor") and lrange(a)[0] >= 0 and lrange(b)[0] >= 0:
        if lrange(b)[1] < (1 << low_zeros(a)) or lrange(a)[1] < (1 << low_zeros(b)):
            return l_add(a, b)
    ts = set(lin_of(a)[0]) | set(lin_of(b)[0])
    if len(ts) == 1:
        (t,) = ts
        if is_small(t) and dom(t)[1] - dom(t)[0] < (2 if COARSE and b.k != "int" else 1024):
            l, h = dom(t)
            by = {}
            for x in range(l, h + 1):
                p = subst_one(a, t, x).a[0]
                q = subst_one(b, t, x).a[0]
                if op in ("Shl", "Shr") and not 0 <= q < 64:
                    continue
                by.setdefault(wrap(_bit(op, p, q), lo, hi), []).append(x)
            return mkdd(t, [(s_of(t, xs), Int(n)) for n, xs in by.items()])
    if op in ("BitAnd", "BitOr", "BitXor") and a.id > b.id:
        a, b = b, a
    rlo, rhi = lo, hi
    if lrange(a)[0] >= 0 and lrange(b)[0] >= 0:
        rlo = 0
        if op == "BitAnd":
            rhi = min(hi, lrange(a)[1], lrange(b)[1])
        elif op in ("BitOr", "BitXor"):
            rhi = min(hi, (1 << max(lrange(a)[1].bit_length(), lrange(b)[1].bit_length())) - 1)
        elif op == "Shr":
            rhi = min(hi, lrange(a)[1])
    return App("bit" + op, (a, b), ("i", rlo, rhi))


def _bit(op, x, n):
    if op == "BitAnd":
        return x & n
    if op == "BitOr":
        return x | n
    if op == "BitXor":
        return x ^ n
    if op == "Shl":
        return x << n
    if op == "Shr":
        return x >> n
    raise ValueError(op)


def muldiv(op, a, b, lo, hi):
    """Multiplication, division or remainder of two integer leaves, not wrapped."""
    if op == "Mul":
        if a.k == "int":
            a, b = b, a
        if b.k == "int":
            return l_scale(a, b.a[0])
        if a.id > b.id:
            a, b = b, a
        xs = [x * y for x in lrange(a) for y in lrange(b)]
        return App("mul", (a, b), ("i", min(xs), max(xs)))
    if b.k == "int" and b.a[0] != 0:
        n = b.a[0]

        def tdiv(x):
            q = abs(x) // abs(n)
            return q if (x >= 0) == (n >= 0) else -q

        f = tdiv if op == "Div" else (lambda x: x - tdiv(x) * n)
        r = None if COARSE and a.k != "int" else enum_fn(a, f)
        if r is not None:
            return r
        x, y = lrange(a)
        if x >= 0 and n > 0:
            # a = n * q + r, when every coefficient is divisible
            d, k = lin_of(a)
            if all(c % n == 0 for c in d.values()):
                if op == "Div":
                    return lin_make({t: c // n for t, c in d.items()}, k // n)
                return Int(k % n)
            q = App("div", (a, n), ("i", x // n, y // n))
            if op == "Div":
                return q
            return App("rem", (a, n), ("i", 0, min(y, n - 1)))
    x, y = lrange(a)
    if x >= 0 and lrange(b)[0] >= 0:
        return App("div" if op == "Div" else "rem", (a, b), ("i", 0, y))
    return App("div" if op == "Div" else "rem", (a, b), ("i", lo, hi))


# ------------------------------------------------------------------ rewriting


def rebuild(v, f):
    """Rebuilds `v` with `f` applied to its sub-values."""
    k, a = v.k, v.a
    if k in ("int", "str", "bot", "fn"):
        return v
    if k == "lin":
        acc = Int(a[1])
        for t, c in a[0]:
            x = f(t)
            acc = smap(lambda p, q: l_add(p, q, c), acc, x)
        return acc
    if k == "dd":
        atom = f(a[0])
        if atom is a[0]:
            return assemble(atom, [(s, f(c)) for s, c in a[1]])
        if atom.k == "int":
            n = atom.a[0]
            for s, c in a[1]:
                if s_has(a[0], s, n):
                    return f(c)
            return BOT
        acc = BOT
        for s, c in a[1]:
            g = member(atom, a[0], s)
            c2 = f(c)
            acc = dmap(_ite, (g, c2, acc), nonorm=True)
        return norm(acc)
    if k == "app":
        args = tuple(f(x) if isinstance(x, V) else x for x in a[1])
        if args == a[1]:
            return v
        return reapp(a[0], args, a[2])
    new = []
    for x in a:
        if isinstance(x, V):
            new.append(f(x))
        elif isinstance(x, tuple):
            new.append(tuple(f(y) if isinstance(y, V) else y for y in x))
        else:
            new.append(x)
    return mk(k, *new)


def member(val, atom, s):
    """The condition that the integer value `val` lies in the set `s` over `atom`."""
    ivs = []
    if isinstance(s, int):
        for x in s_iter(atom, s):
            if ivs and ivs[-1][1] == x - 1:
                ivs[-1] = (ivs[-1][0], x)
            else:
                ivs.append((x, x))
    else:
        ivs = list(s)

    def f(x):
        r = F
        for lo, hi in ivs:
            r = Or(r, And(i_le(Int(lo), x), i_le(x, Int(hi))))
        return r

    return smap(f, val)


REAPP = {}


def reapp(op, args, ty):
    """Rebuilds an application whose arguments changed, simplifying where it can."""
    h = REAPP.get(op)
    if h is not None:
        r = h(args, ty)
        if r is not None:
            return r
    if any(isinstance(x, V) and x.k == "dd" for x in args):
        vs = tuple(x for x in args if isinstance(x, V))

        def f(*ys):
            it = iter(ys)
            return reapp(op, tuple(next(it) if isinstance(x, V) else x for x in args), ty)

        return smap(f, *vs)
    return App(op, args, ty)


def _re_muldiv(op):
    def f(args, ty):
        a, b = args
        if isinstance(b, int):
            b = Int(b)
        if a.k == "dd":
            return smap(lambda x: reapp(op.lower(), (x, b), ty), a)
        if b.k == "dd":
            return None
        if a.k == "bot" or b.k == "bot":
            return BOT
        if op != "Mul" and b.k == "int" and b.a[0] == 0:
            return BOT
        return muldiv(op, a, b, ty[1], ty[2])

    return f


REAPP["mul"] = _re_muldiv("Mul")
REAPP["div"] = _re_muldiv("Div")
REAPP["rem"] = _re_muldiv("Rem")
REAPP["wrap"] = lambda args, ty: smap(lambda v: fit(v, args[1], args[2]) if is_intleaf(v) else v, args[0]) if args[0].k in ("int", "app", "lin", "dd") else None
REAPP["le0"] = lambda args, ty: _bool_to_int(smap(le0, args[0]))


def _re_bit(op):
    def f(args, ty):
        a, b = (Int(x) if isinstance(x, int) else x for x in args)
        if a.k == "dd" or b.k == "dd":
            return None
        if a.k == "bot" or b.k == "bot":
            return BOT
        if not (is_intleaf(a) and is_intleaf(b)):
            return None
        if op == "Shl" and ty[2] not in (255, 65535, 2 ** 32 - 1, 2 ** 64 - 1, 2 ** 128 - 1):
            return None
        if op in ("Shl", "Shr") and b.k == "int" and not 0 <= b.a[0] < 128:
            return None
        return bitop(op, a, b, ty[1], ty[2])

    return f


for _op in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
    REAPP["bit" + _op] = _re_bit(_op)


def _bool_to_int(g):
    return g


def subst(v, m):
    """Replaces the applications in `m` by their values."""
    memo = {}
    keys = frozenset(m)

    def f(x):
        if not (keys & apps(x)):
            return x
        r = memo.get(x)
        if r is None:
            r = m[x] if x in m else rebuild(x, f)
            memo[x] = r
        return r

    return f(v)


# ------------------------------------------------------------------ printing


def show(v, depth=4):
    k, a = v.k, v.a
    if k == "int":
        return str(a[0])
    if k == "str":
        return repr(a[0])
    if k == "bot":
        return "_|_"
    if depth <= 0:
        return "..."
    s = lambda x: show(x, depth - 1) if isinstance(x, V) else str(x)
    if k == "lin":
        return "(" + "+".join(("%d*" % c if c != 1 else "") + s(t) for t, c in a[0]) + "%+d)" % a[1]
    if k == "app":
        return "%s(%s)" % (a[0], ",".join(s(x) for x in a[1]))
    if k == "dd":
        return "{%s: %s}" % (s(a[0]), "; ".join("%s->%s" % (s_show(a[0], t), s(c)) for t, c in a[1][:6]))
    if k == "adt":
        return "%s#%d(%s)" % (a[0].split("::")[-1][:30], a[1], ",".join(s(x) for x in a[2]))
    if k == "slice":
        return "%s[%s..%s]" % (s(a[0]), s(a[1]), s(a[2]))
    out = []
    for x in a:
        if isinstance(x, tuple):
            out.append("[" + ",".join(s(y) for y in x) + "]")
        else:
            out.append(s(x))
    return "%s(%s)" % (k, ",".join(out))
