"""Meanings of the library functions the program calls."""
import re
from . import interp as IN
from .interp import *
from .interp import get, put, elem, length_of, view_of, subview, ref_of, truth

OPTION = "std::option::Option"
RESULT = "std::result::Result"

# ------------------------------------------------------------------ names


def strip_generics(s):
    out, d = [], 0
    i = 0
    while i < len(s):
        ch = s[i]
        if ch == "<":
            d += 1
        elif ch == ">" and not (i and s[i - 1] == "-"):
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    return "".join(out).replace("::::", "::").strip(":")


def split_top(s, sep):
    d = 0
    i = 0
    while i < len(s):
        ch = s[i]
        if ch in "<([":
            d += 1
        elif ch in ")]" or (ch == ">" and not (i and s[i - 1] == "-")):
            d -= 1
        elif d == 0 and s.startswith(sep, i):
            return s[:i], s[i + len(sep):]
        i += 1
    return None


def matching(s, i):
    """Index just past the `>` which closes the `<` at i."""
    d = 0
    while i < len(s):
        if s[i] == "<":
            d += 1
        elif s[i] == ">" and s[i - 1] != "-":
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    return len(s)


INTS = "u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize".split()


def type_name(t):
    t = t.strip()
    while t.startswith("&"):
        t = re.sub(r"^&('\w+ )?(mut )?", "", t)
    if t.startswith("["):
        return "array" if ";" in t else "slice"
    if t in INTS:
        return "int"
    return strip_generics(t).split("::")[-1]


_key = {}


def key_of(path):
    """`Trait::method` or `Type::method` for the path of a library function."""
    r = _key.get(path)
    if r is None:
        r = _key[path] = _key_of(path)
    return r


def _key_of(path):
    j = path.find("<impl ")
    if j >= 0:
        e = matching(path, j)
        inner = path[j + 6: e - 1]
        m = strip_generics(path[e:]).split("::")[-1]
        p = split_top(inner, " for ")
        if p:
            return strip_generics(p[0]).split("::")[-1] + "::" + m
        return type_name(inner) + "::" + m
    if path.startswith("<"):
        e = matching(path, 0)
        inner = path[1: e - 1]
        m = strip_generics(path[e:]).split("::")[-1]
        p = split_top(inner, " as ")
        if p:
            return strip_generics(p[1]).split("::")[-1] + "::" + m
        return type_name(inner) + "::" + m
    parts = strip_generics(path).split("::")
    return "::".join(parts[-2:])


def int_type(path):
    m = re.search(r"<impl (\w+)>", path)
    return m.group(1) if m else None


S = {}


def summary(*keys):
    def deco(f):
        for k in keys:
            S[k] = f
        return f

    return deco


FOREIGN = re.compile(r"^<?&*(std::iter::Copied<)?(clap|clap_builder|figment|serde|atty)::")


class Summaries:
    def __init__(self, prog, extra=None):
        self.p = prog
        self.extra = extra or {}
        self.memo = {}

    def get(self, path, name):
        r = self.memo.get((path, name), 0)
        if r == 0:
            f = self.p.fns.get(name)
            r = None
            if name in self.p.closures or (f is not None and f["local"]):
                r = None
            else:
                k = key_of(path)
                r = self.extra.get(k) or S.get(k)
                if (r is None or "Copied<clap" in name) and FOREIGN.search(name):
                    r = s_clone if k.endswith("Clone::clone") else pure
            self.memo[(path, name)] = r
        return r


# ------------------------------------------------------------------ small helpers


def opt_ty(I, ty, payload=None):
    return ty


def some(ty, v):
    return Adt(ty, 1, (v,))


def none(ty):
    return Adt(ty, 0, ())


def option(ty, c, v):
    if c is T:
        return some(ty, v)
    if c is F:
        return none(ty)
    return join(c, some(ty, v), Not(c), none(ty))


def result(ty, c, v, e):
    if c is T:
        return Adt(ty, 0, (v,))
    if c is F:
        return Adt(ty, 1, (e,))
    return join(c, Adt(ty, 0, (v,)), Not(c), Adt(ty, 1, (e,)))


def cases(v):
    if v.k != "dd":
        return [(T, v)]
    out = []
    for x in leaves(v):
        if x is not BOT:
            out.append((leaf_guard(v, lambda y: y is x), x))
    return out


def by_case(I, st, v, f):
    """Runs `f(state, leaf)` for each possible `v` and merges states and results."""
    cs = cases(v)
    if len(cs) == 1 and cs[0][0] is T:
        return f(st, cs[0][1])
    outs = []
    base = st.guard
    for g, x in cs:
        s2 = st.fork(And(base, g))
        if s2.guard is F:
            continue
        r = f(s2, x)
        if s2.guard is not F:
            s2.env[("ret",)] = r
            outs.append(s2)
    if not outs:
        st.guard = F
        return BOT
    r = join_states(outs)
    st.guard = r.guard
    ret = r.env.pop(("ret",))
    st.env = r.env
    return ret


def load(I, st, v):
    """What a reference refers to, through every level of references."""
    n = 0
    while n < 6:
        if v.k == "mref":
            v = get(st.env.get(v.a[0], BOT), v.a[1])
        elif v.k == "sref":
            v = v.a[0]
        elif v.k == "box":
            v = v.a[0]
        elif v.k == "dd" and all(x is BOT or x.k in ("sref", "mref", "box") for x in leaves(v)):
            v = dmap(lambda x: BOT if x is BOT else load(I, st, x), (v,))
        else:
            return v
        n += 1
    return v


def load1(I, st, v):
    return I.deref(st, v)


def viewof(I, st, v):
    v = load(I, st, v)
    if v.k == "mslice":
        return I.mslice_view(st, v)
    if v.k == "dd":
        return dmap(lambda x: BOT if x is BOT else viewof(I, st, x), (v,))
    v = view_of(v)
    if v.k == "slice" and v.a[0].k == "slice":
        return subview(v.a[0], v.a[1], v.a[2])
    return v


def base_of(view):
    """(base, start, end) of a view."""
    if view.k == "slice":
        return view.a[0], view.a[1], view.a[2]
    return view, F, length_of(view)


def setref(I, st, ref, v):
    I.store(st, ref, (), v)


def segs_of_view(view):
    """The segments of a sequence with a view's contents."""
    if view.k == "str":
        return (El(T, view),) if view.a[0] else ()
    if view.k == "slice":
        b = view.a[0]
        if b.k == "seq" and view.a[1] is F and view.a[2] is length_of(b):
            return b.a[0]
        if view.a[1].k == "int" and view.a[2].k == "int" and b.k == "arr":
            return tuple(El(T, x) for x in b.a[0][view.a[1].a[0]:view.a[2].a[0]])
    return (mk("span", T, view),)


def seq_of(view):
    """A fresh sequence holding a view's contents."""
    if view.k == "dd":
        return dmap(lambda x: BOT if x is BOT else seq_of(x), (view,))
    if view.k == "seq":
        return view
    if view.k in ("sref", "arr"):
        view = view_of(view)
    if view.k == "bot":
        return BOT
    return Seq(segs_of_view(view))


def concat(seq, segs):
    for s in segs:
        seq = seq_push(seq, s)
    return seq


def guarded_segs(v, f):
    """Segments of a value with alternatives: those of each, under its guard."""
    if v.k != "dd":
        return tuple(f(v))
    out = []
    for x in leaves(v):
        if x is BOT:
            continue
        g = leaf_guard(v, lambda y: y is x)
        out += [guard_seg(g, s) for s in f(x)]
    return tuple(out)


def callable_(I, st, f):
    """A closure that's called repeatedly lives in a cell, so that it can keep state."""
    if f.k == "clo" and f.a[1]:
        cell = ("clo", mk("cloc", f.a[0], str(I.ctx())).id)
        st.env[cell] = f
        return mk("mref", cell, ())
    return f


# ------------------------------------------------------------------ panics


def panic(I, st, c, what="panic"):
    I.oblige(st, what, T)
    st.guard = F
    return BOT


def is_panic(path):
    return "::panicking::" in path or path.endswith(("unwrap_failed", "expect_failed", "unwrap_failed_inner", "slice_index_fail", "panic_display"))


@summary("panicking::panic", "panicking::panic_fmt", "panicking::panic_display", "panicking::panic_explicit",
         "panicking::panic_bounds_check", "panicking::assert_failed", "panicking::unreachable_display", "panicking::panic_nounwind",
         "panicking::begin_panic", "option::unwrap_failed", "option::expect_failed", "result::unwrap_failed",
         "unwrap_failed::unwrap_failed_inner", "panicking::panic_const", "panicking::panic_str_2015", "rt::panic_fmt", "rt::begin_panic")
def s_panic(I, st, c):
    return panic(I, st, c, "panic")


@summary("process::exit", "process::abort", "intrinsics::abort")
def s_exit(I, st, c):
    I.emit(st, "exit", c.args[0] if c.args else UNIT)
    st.guard = F
    return BOT


# ------------------------------------------------------------------ integers


def int_arg(I, st, v):
    return load(I, st, v)


@summary("BitAnd::bitand", "BitOr::bitor", "BitXor::bitxor", "Shl::shl", "Shr::shr", "Add::add", "Sub::sub", "Mul::mul", "Div::div", "Rem::rem")
def s_op(I, st, c):
    op = {"bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor"}.get(key_of(c.path).split("::")[1]) or key_of(c.path).split("::")[1].capitalize()
    a, b = int_arg(I, st, c.args[0]), int_arg(I, st, c.args[1])
    r = I.p.irange(c.ty)
    if r is None or not (is_int(a) and is_int(b)):
        return NotImplemented
    lo, hi = r
    if op in ("Add", "Sub", "Mul"):
        v = smap(lambda x, y: arith(op, x, y, lo, hi), a, b)
        over = smap(lambda x: Or(i_lt(x, Int(lo)), i_lt(Int(hi), x)), v)
        I.oblige(st, "Overflow(%s)" % op, over)
        st.guard = And(st.guard, Not(over))
        return v
    if op in ("Div", "Rem"):
        z = smap(lambda y: i_eq(y, F), b)
        I.oblige(st, "DivisionByZero", z)
        st.guard = And(st.guard, Not(z))
    return I.binop(op, a, b, c.ty)


@summary("Not::not")
def s_not_(I, st, c):
    v = int_arg(I, st, c.args[0])
    r = I.p.irange(c.ty)
    if r is None:
        return NotImplemented
    if r == (0, 1):
        return Not(truth(v))
    return smap(lambda x: l_add(Int(r[1] if r[0] == 0 else -1), x, -1), v)


def int_summary(name, f):
    """f(value, bits, lo, hi) on concrete integers, applied pointwise."""

    def h(I, st, c):
        ty = int_type(c.path)
        r = I.p.irange(ty) if ty else None
        if r is None:
            return NotImplemented
        bits = (r[1] - r[0] + 1).bit_length() - 1
        v = int_arg(I, st, c.args[0])

        def g(x):
            if x.k == "int":
                return Int(f(x.a[0] & ((1 << bits) - 1), bits))
            y = enum_fn(x, lambda n: f(n & ((1 << bits) - 1), bits))
            if y is not None:
                return y
            return App(name, (x,), ("i", 0, bits))

        return smap(g, v)

    S["int::" + name] = h


int_summary("leading_zeros", lambda n, b: b - n.bit_length())
int_summary("trailing_zeros", lambda n, b: b if n == 0 else (n & -n).bit_length() - 1)
int_summary("leading_ones", lambda n, b: b - ((1 << b) - 1 - n).bit_length())
int_summary("trailing_ones", lambda n, b: ((n + 1) & -(n + 1)).bit_length() - 1)
int_summary("count_ones", lambda n, b: bin(n).count("1"))
int_summary("count_zeros", lambda n, b: b - bin(n).count("1"))
int_summary("reverse_bits", lambda n, b: int(bin(n)[2:].zfill(b)[::-1], 2))


def exact(I, c, op, a, b):
    ty = int_type(c.path)
    lo, hi = I.p.irange(ty)
    v = smap(lambda x, y: arith(op, x, y, lo, hi), a, b)
    return v, lo, hi


def op_name(m):
    return {"add": "Add", "sub": "Sub", "mul": "Mul"}[m.split("_")[-1]]


@summary("int::saturating_add", "int::saturating_sub", "int::saturating_mul")
def s_sat(I, st, c):
    a, b = int_arg(I, st, c.args[0]), int_arg(I, st, c.args[1])
    v, lo, hi = exact(I, c, op_name(key_of(c.path)), a, b)
    def f(x):
        low, high = i_lt(x, Int(lo)), i_lt(Int(hi), x)
        y = join(high, Int(hi), Not(high), x)
        return join(low, Int(lo), Not(low), y)
    return smap(f, v)


@summary("int::checked_add", "int::checked_sub", "int::checked_mul")
def s_chk(I, st, c):
    a, b = int_arg(I, st, c.args[0]), int_arg(I, st, c.args[1])
    v, lo, hi = exact(I, c, op_name(key_of(c.path)), a, b)
    ok = smap(lambda x: And(i_le(Int(lo), x), i_le(x, Int(hi))), v)
    return option(c.ty, ok, v)


@summary("int::wrapping_add", "int::wrapping_sub", "int::wrapping_mul")
def s_wrp(I, st, c):
    a, b = int_arg(I, st, c.args[0]), int_arg(I, st, c.args[1])
    v, lo, hi = exact(I, c, op_name(key_of(c.path)), a, b)
    return smap(lambda x: fit(x, lo, hi), v)


@summary("int::overflowing_add", "int::overflowing_sub", "int::overflowing_mul")
def s_ovf(I, st, c):
    a, b = int_arg(I, st, c.args[0]), int_arg(I, st, c.args[1])
    v, lo, hi = exact(I, c, op_name(key_of(c.path)), a, b)
    return Tup((smap(lambda x: fit(x, lo, hi), v), smap(lambda x: Or(i_lt(x, Int(lo)), i_lt(Int(hi), x)), v)))


@summary("int::wrapping_shl", "int::wrapping_shr")
def s_wsh(I, st, c):
    a, b = int_arg(I, st, c.args[0]), int_arg(I, st, c.args[1])
    ty = int_type(c.path)
    lo, hi = I.p.irange(ty)
    n = (hi - lo + 1).bit_length() - 1
    b = I.binop("BitAnd", b, Int(n - 1), "u32")
    return I.binop("Shl" if c.path.endswith("shl") else "Shr", a, b, ty)


@summary("int::checked_shl", "int::checked_shr")
def s_csh(I, st, c):
    a, b = int_arg(I, st, c.args[0]), int_arg(I, st, c.args[1])
    ty = int_type(c.path)
    lo, hi = I.p.irange(ty)
    n = (hi - lo + 1).bit_length() - 1
    ok = smap(lambda y: i_lt(y, Int(n)), b)
    v = I.binop("Shl" if c.path.endswith("shl") else "Shr", a, b, ty)
    return option(c.ty, ok, v)


@summary("int::rotate_left", "int::rotate_right")
def s_rot(I, st, c):
    a, b = int_arg(I, st, c.args[0]), int_arg(I, st, c.args[1])
    ty = int_type(c.path)
    lo, hi = I.p.irange(ty)
    n = (hi - lo + 1).bit_length() - 1
    if b.k != "int":
        return NotImplemented
    k = b.a[0] % n
    if c.path.endswith("right"):
        k = (n - k) % n
    def f(x):
        r = enum_fn(x, lambda v: ((v << k) | (v >> (n - k))) & hi)
        return r if r is not None else App("rotl", (x, b), ("i", lo, hi))
    return smap(f, a)


@summary("int::is_power_of_two")
def s_pow2(I, st, c):
    def f(x):
        r = enum_fn(x, lambda v: int(v > 0 and v & (v - 1) == 0))
        return r if r is not None else lit(App("pow2", (x,), BOOL), 2)
    return truth(smap(f, int_arg(I, st, c.args[0])))


@summary("int::pow")
def s_pow(I, st, c):
    a, b = int_arg(I, st, c.args[0]), int_arg(I, st, c.args[1])
    lo, hi = I.p.irange(int_type(c.path))
    def f(x, y):
        if x.k == "int" and y.k == "int":
            return Int(x.a[0] ** y.a[0])
        if x.k == "int":
            r = enum_fn(y, lambda n: x.a[0] ** min(n, 300))
            if r is not None:
                return r
        if y.k == "int":
            r = enum_fn(x, lambda n: n ** y.a[0])
            if r is not None:
                return r
        return App("pow", (x, y), ("i", lo, hi))
    v = smap(f, a, b)
    over = smap(lambda x: Or(i_lt(x, Int(lo)), i_lt(Int(hi), x)), v)
    I.oblige(st, "Overflow(Pow)", over)
    st.guard = And(st.guard, Not(over))
    return v


@summary("int::abs_diff")
def s_absd(I, st, c):
    a, b = int_arg(I, st, c.args[0]), int_arg(I, st, c.args[1])
    def f(x, y):
        le = i_le(x, y)
        return join(le, l_add(y, x, -1), Not(le), l_add(x, y, -1))
    return smap(f, a, b)


@summary("int::div_ceil")
def s_divceil(I, st, c):
    a, b = int_arg(I, st, c.args[0]), int_arg(I, st, c.args[1])
    lo, hi = I.p.irange(int_type(c.path))
    return smap(lambda x, y: muldiv("Div", l_add(x, l_add(y, T, -1)), y, lo, hi), a, b)


def bytes_num(I, st, v, big, bits):
    v = load(I, st, v)
    n = bits // 8
    r = F
    for i in range(n):
        x = elem(v, Int(i if big else n - 1 - i))
        r = smap(lambda p, q: l_add(l_scale(p, 256), q), r, x)
    return r


@summary("int::from_be_bytes", "int::from_le_bytes", "int::from_ne_bytes")
def s_frombytes(I, st, c):
    lo, hi = I.p.irange(int_type(c.path))
    if lo < 0:
        return NotImplemented
    return bytes_num(I, st, c.args[0], "from_be" in c.path, hi.bit_length())


@summary("int::to_be_bytes", "int::to_le_bytes")
def s_tobytes(I, st, c):
    lo, hi = I.p.irange(int_type(c.path))
    n = hi.bit_length() // 8
    v = int_arg(I, st, c.args[0])
    out = []
    for i in range(n):
        out.append(smap(lambda x: bitop("BitAnd", bitop("Shr", x, Int(8 * (n - 1 - i)), lo, hi), Int(255), lo, hi), v))
    if "to_le" in c.path:
        out.reverse()
    return Arr(out)


@summary("intrinsics::integer_max", "Ord::max")
def s_max_(I, st, c):
    a, b = int_arg(I, st, c.args[0]), int_arg(I, st, c.args[1])
    if not (is_int(a) and is_int(b)):
        return NotImplemented
    def f(x, y):
        le = i_le(x, y)
        return join(le, y, Not(le), x)
    return smap(f, a, b)


@summary("intrinsics::integer_min", "Ord::min")
def s_min_(I, st, c):
    a, b = int_arg(I, st, c.args[0]), int_arg(I, st, c.args[1])
    if not (is_int(a) and is_int(b)):
        return NotImplemented
    def f(x, y):
        le = i_le(x, y)
        return join(le, x, Not(le), y)
    return smap(f, a, b)


def char_fn(name, f):
    def h(I, st, c):
        v = int_arg(I, st, c.args[0])
        def g(x):
            if x.k == "int":
                return T if f(x.a[0]) else F
            d = dom(x) if x.k == "app" else None
            if d and is_small(x):
                return lit(x, s_of(x, [n for n in range(d[0], d[1] + 1) if f(n)]))
            if x.k == "app":
                # outside of ASCII it's always false for these
                return lit(x, s_of(x, [n for n in range(0, 128) if f(n)]))
            return lit(App(name, (x,), BOOL), 2)
        return smap(g, v)
    S["int::" + name] = h
    S["char::" + name] = h


char_fn("is_ascii_digit", lambda n: 48 <= n <= 57)
char_fn("is_ascii_hexdigit", lambda n: 48 <= n <= 57 or 65 <= n <= 70 or 97 <= n <= 102)
char_fn("is_ascii_alphabetic", lambda n: 65 <= n <= 90 or 97 <= n <= 122)
char_fn("is_ascii_alphanumeric", lambda n: 48 <= n <= 57 or 65 <= n <= 90 or 97 <= n <= 122)
char_fn("is_ascii_uppercase", lambda n: 65 <= n <= 90)
char_fn("is_ascii_lowercase", lambda n: 97 <= n <= 122)
char_fn("is_ascii_whitespace", lambda n: n in (32, 9, 10, 12, 13))
char_fn("is_ascii_graphic", lambda n: 33 <= n <= 126)
char_fn("is_ascii_control", lambda n: n < 32 or n == 127)
char_fn("is_ascii_punctuation", lambda n: 33 <= n <= 47 or 58 <= n <= 64 or 91 <= n <= 96 or 123 <= n <= 126)
char_fn("is_ascii", lambda n: n < 128)


# ------------------------------------------------------------------ moves and conversions


@summary("hint::must_use", "convert::identity", "IntoIterator::into_iter@id", "Box::into_inner", "hint::black_box")
def s_id(I, st, c):
    return c.args[0]


@summary("Box::new")
def s_box(I, st, c):
    return mk("box", c.args[0])


@summary("Box::new_uninit")
def s_uninit(I, st, c):
    cell = ("uninit", mk("un", str(I.ctx())).id)
    st.env[cell] = BOT
    return mk("box", mk("mref", cell, ()))


@summary("boxed::box_assume_init_into_vec_unsafe", "slice::into_vec")
def s_intovec(I, st, c):
    v = load(I, st, c.args[0])
    if v.k == "arr":
        return Seq(El(T, x) for x in v.a[0])
    return seq_of(v)


@summary("intrinsics::raw_eq")
def s_raweq(I, st, c):
    return values_eq(I, st, c.args[0], c.args[1])


@summary("Clone::clone")
def s_clone(I, st, c):
    if c.name in I.p.fns:
        return NotImplemented
    return load1(I, st, c.args[0])


@summary("ToOwned::to_owned", "String::from", "slice::to_vec", "slice::into_vec", "str::to_string", "ToString::to_string", "SpecToString::spec_to_string", "slice::concat1", "str::to_owned", "slice::to_owned")
def s_owned(I, st, c):
    v = load(I, st, c.args[0])
    t = (c.callee or {}).get("g") or []
    if key_of(c.path) in ("ToString::to_string", "SpecToString::spec_to_string"):
        ty = impl_self(c)
        return Seq(display_segs(I, st, c.args[0], ty, "display", None))
    if v.k in ("seq", "slice", "str", "arr", "dd", "mslice"):
        return seq_of(viewof(I, st, v) if v.k in ("mslice",) else v)
    return NotImplemented


def impl_self(c):
    m = re.match(r"<(.*) as ", c.name)
    return m.group(1) if m else None


@summary("From::from", "Into::into")
def s_from(I, st, c):
    if c.name in I.p.fns:
        return NotImplemented
    d = I.p.desc(c.ty)
    if d.get("path") in ("std::string::String", "std::vec::Vec"):
        v = load(I, st, c.args[0])
        if v.k in ("seq", "slice", "str", "arr", "dd"):
            return seq_of(v)
        if is_int(v):
            return Seq((char_seg(v),))
    r = I.p.irange(c.ty)
    if r is not None:
        v = c.args[0]
        if is_int(v):
            return v
    if d.get("path") == "std::boxed::Box":
        return mk("box", c.args[0])
    return NotImplemented


@summary("TryFrom::try_from", "TryInto::try_into")
def s_tryfrom(I, st, c):
    if c.name in I.p.fns:
        return NotImplemented
    d = I.p.desc(c.ty)
    if d.get("path") != RESULT:
        return NotImplemented
    okty = d["v"][0]["f"][0][1]
    errty = d["v"][1]["f"][0][1]
    err = App("error", (errty,), errty)
    r = I.p.irange(okty)
    v = load(I, st, c.args[0])
    if r is not None and is_int(v):
        lo, hi = r
        ok = smap(lambda x: And(i_le(Int(lo), x), i_le(x, Int(hi))), v)
        return result(c.ty, ok, v, err)
    od = I.p.desc(okty)
    if od["k"] == "ref" and I.p.desc(od["e"])["k"] == "array":
        od = I.p.desc(od["e"])
        wrapped = True
    else:
        wrapped = False
    if od["k"] == "array":
        view = viewof(I, st, v)
        n = od["n"]
        ok = smap(lambda x: i_eq(x, Int(n)), length_of(view))
        arr = Arr(elem(view, Int(i)) for i in range(n))
        return result(c.ty, ok, Sref(arr) if wrapped else arr, err)
    return NotImplemented


@summary("AsRef::as_ref", "Borrow::borrow", "Deref::deref", "Vec::as_slice", "String::as_str", "String::as_bytes", "str::as_bytes", "array::as_slice", "String::into_bytes",
         "slice::as_ref", "String::into_boxed_str", "Vec::into_boxed_slice", "str::as_str", "Vec::leak", "Box::leak", "Cow::into_owned", "array::each_ref0")
def s_asref(I, st, c):
    v = load(I, st, c.args[0])
    if v.k == "dd":
        return dmap(lambda x: BOT if x is BOT else (viewof(I, st, x) if x.k in ("seq", "arr", "slice", "str") else ref_of(x)), (v,))
    if v.k in ("seq", "arr", "slice", "str", "mslice", "bot"):
        if key_of(c.path) in ("String::into_bytes",):
            return v
        return viewof(I, st, v)
    if v.k == "app":
        return viewof(I, st, v)
    return ref_of(v)


@summary("AsMut::as_mut", "BorrowMut::borrow_mut", "DerefMut::deref_mut", "Vec::as_mut_slice", "array::as_mut_slice", "slice::as_mut")
def s_asmut(I, st, c):
    r = c.args[0]
    if r.k == "mref":
        v = get(st.env.get(r.a[0], BOT), r.a[1])
        if v.k == "box":
            return mk("mref", r.a[0], r.a[1] + (("box", 0),))
        if v.k == "dd":
            return mk("mslice", r.a[0], r.a[1], F, length_of(v))
        return mk("mslice", r.a[0], r.a[1], F, length_of(v))
    return r


# ------------------------------------------------------------------ vectors and strings


@summary("Vec::new", "Vec::with_capacity", "String::new", "String::with_capacity", "Vec::default")
def s_vnew(I, st, c):
    return Seq()


@summary("Default::default")
def s_default(I, st, c):
    if c.name in I.p.fns:
        return NotImplemented
    d = I.p.desc(c.ty)
    if d.get("path") in ("std::string::String", "std::vec::Vec"):
        return Seq()
    if I.p.irange(c.ty) is not None:
        return F
    if d["k"] == "ref" and I.p.desc(d["e"])["k"] == "str":
        return Str("")
    if d["k"] == "ref" and I.p.desc(d["e"])["k"] == "slice":
        return Slice(Arr(()), F, F)
    if d.get("path") == OPTION:
        return none(c.ty)
    if d["k"] == "tuple" and not d["e"]:
        return UNIT
    return NotImplemented


def update(I, st, ref, f):
    """Replaces what `ref` refers to by `f(old)`."""
    for g, r in cases(ref):
        if r.k not in ("mref",):
            if r.k == "mslice":
                r = mk("mref", r.a[0], r.a[1])
            else:
                I.unknown.setdefault("update through " + r.k, I.stack[-1][0])
                continue
        old = get(st.env.get(r.a[0], BOT), r.a[1])
        new = f(old)
        if g is not T:
            new = join(g, new, Not(g), old)
        # follow a reference held in the place
        if old.k in ("mref",):
            update(I, st, old, f)
            continue
        st.env[r.a[0]] = put(st.env[r.a[0]], r.a[1], new)


@summary("Vec::push", "Vec::push_mut", "VecDeque::push_back")
def s_push(I, st, c):
    update(I, st, c.args[0], lambda o: seq_push(o, El(T, c.args[1])))
    return UNIT


def char_seg(v):
    if v.k == "int":
        return El(T, Str(chr(v.a[0])))
    return El(T, mk("pc", "char", v, None))


@summary("String::push")
def s_spush(I, st, c):
    v = c.args[1]
    segs = guarded_segs(v, lambda x: (char_seg(x),)) if v.k == "dd" and len(leaves(v)) <= 8 else (char_seg(v),)
    update(I, st, c.args[0], lambda o: concat(o, segs))
    return UNIT


@summary("String::push_str", "Vec::extend_from_slice", "Write::write_str@s")
def s_pushstr(I, st, c):
    segs = guarded_segs(viewof(I, st, c.args[1]), segs_of_view)
    update(I, st, c.args[0], lambda o: concat(o, segs))
    return UNIT


@summary("Vec::append")
def s_append(I, st, c):
    other = load(I, st, c.args[1])
    segs = guarded_segs(other, lambda x: x.a[0] if x.k == "seq" else segs_of_view(viewof(I, st, x)))
    update(I, st, c.args[0], lambda o: concat(o, segs))
    setref(I, st, c.args[1], Seq())
    return UNIT


@summary("Vec::clear", "String::clear")
def s_clear(I, st, c):
    update(I, st, c.args[0], lambda o: Seq())
    return UNIT


@summary("Vec::truncate", "String::truncate")
def s_trunc(I, st, c):
    n = c.args[1]
    def f(o):
        v = viewof(I, st, o)
        m = smap(lambda a, b: join(i_le(a, b), a, Not(i_le(a, b)), b), n, length_of(v))
        return seq_of(subview(v, F, m))
    update(I, st, c.args[0], f)
    return UNIT


@summary("Vec::remove", "Vec::swap_remove")
def s_remove(I, st, c):
    r, i = c.args
    old = load(I, st, r)
    v = viewof(I, st, old)
    n = length_of(v)
    ok = smap(i_lt, i, n)
    I.oblige(st, "remove out of bounds", Not(ok))
    st.guard = And(st.guard, ok)
    x = elem(v, i)
    if key_of(c.path).endswith("swap_remove"):
        return NotImplemented
    if i is F:
        new = seq_of(subview(v, T, n))
    else:
        new = concat(seq_of(subview(v, F, i)), segs_of_view(subview(v, Add(i, T), n)))
    update(I, st, r, lambda o: new)
    return x


@summary("Vec::drain", "Vec::split_off")
def s_drain(I, st, c):
    r, idx = c.args
    if not is_int(idx) and idx.k != "adt":
        return NotImplemented
    v = viewof(I, st, load(I, st, r))
    n = length_of(v)
    if c.path.endswith("split_off") or key_of(c.path).endswith("split_off"):
        a, b, bad = idx, n, smap(lambda x, y: i_lt(y, x), idx, n)
    else:
        where = range_bounds(I, v, idx)
        if where is None:
            return NotImplemented
        a, b, bad = where
    I.oblige(st, "drain out of bounds", bad)
    st.guard = And(st.guard, Not(bad))
    taken = seq_of(subview(v, a, b))
    new = concat(seq_of(subview(v, F, a)), segs_of_view(subview(v, b, n)))
    update(I, st, r, lambda o: new)
    return taken if key_of(c.path).endswith("split_off") else to_iter(I, st, taken)


@summary("Vec::pop", "VecDeque::pop_back")
def s_pop(I, st, c):
    r = c.args[0]
    old = load(I, st, r)
    v = viewof(I, st, old)
    n = length_of(v)
    ok = smap(lambda a: i_lt(F, a), n)
    x = elem(v, Sub(n, T))
    new = seq_of(subview(v, F, Sub(n, T)))
    if ok is not T:
        new = join(ok, new, Not(ok), old)
    update(I, st, r, lambda o: new)
    return option(c.ty, ok, x)


@summary("Vec::insert")
def s_insert(I, st, c):
    r, i, x = c.args
    v = viewof(I, st, load(I, st, r))
    n = length_of(v)
    ok = smap(i_le, i, n)
    I.oblige(st, "insert out of bounds", Not(ok))
    st.guard = And(st.guard, ok)
    new = concat(concat(seq_of(subview(v, F, i)), (El(T, x),)), segs_of_view(subview(v, i, n)))
    update(I, st, r, lambda o: new)
    return UNIT


@summary("Vec::reserve", "String::reserve", "Vec::shrink_to_fit", "String::shrink_to_fit", "mem::drop", "mem::forget")
def s_nop(I, st, c):
    return UNIT


@summary("Vec::len", "slice::len", "str::len", "String::len", "array::len", "VecDeque::len")
def s_len(I, st, c):
    return length_of(viewof(I, st, c.args[0]))


@summary("Vec::is_empty", "slice::is_empty", "str::is_empty", "String::is_empty")
def s_empty(I, st, c):
    return smap(lambda x: i_eq(x, F), length_of(viewof(I, st, c.args[0])))


@summary("slice::first", "slice::last", "slice::first_mut0")
def s_first(I, st, c):
    v = viewof(I, st, c.args[0])
    n = length_of(v)
    ok = smap(lambda x: i_lt(F, x), n)
    x = elem(v, F if c.path.endswith("first") else Sub(n, T))
    return option(c.ty, ok, ref_of(x))


@summary("slice::split_first", "slice::split_last")
def s_splitfirst(I, st, c):
    v = viewof(I, st, c.args[0])
    n = length_of(v)
    ok = smap(lambda x: i_lt(F, x), n)
    if c.path.endswith("first"):
        p = Tup((ref_of(elem(v, F)), subview(v, T, n)))
    else:
        p = Tup((ref_of(elem(v, Sub(n, T))), subview(v, F, Sub(n, T))))
    return option(c.ty, ok, p)


@summary("slice::split_at", "str::split_at")
def s_splitat(I, st, c):
    v = viewof(I, st, c.args[0])
    n = length_of(v)
    i = c.args[1]
    ok = smap(i_le, i, n)
    I.oblige(st, "split_at out of bounds", Not(ok))
    st.guard = And(st.guard, ok)
    if "str" == key_of(c.path).split("::")[0]:
        boundary(I, st, v, i)
    return Tup((subview(v, F, i), subview(v, i, n)))


@summary("slice::split_at_checked", "slice::split_at_checked")
def s_splitatc(I, st, c):
    v = viewof(I, st, c.args[0])
    n = length_of(v)
    i = c.args[1]
    ok = smap(i_le, i, n)
    return option(c.ty, ok, Tup((subview(v, F, i), subview(v, i, n))))


def is_stringy(v):
    if v.k == "str":
        return True
    return v.k == "slice" and v.a[0].k == "app" and v.a[0].a[2] in ("str", "std::string::String")


def range_bounds(I, v, idx):
    """(start, end, fail) of indexing a view by a range value."""
    n = length_of(v)
    if idx.k != "adt":
        return None
    path = I.p.desc(idx.a[0]).get("path", "") or idx.a[0]
    f = idx.a[2]
    if "RangeFull" in path:
        return F, n, F
    if "RangeFrom" in path:
        return f[0], n, smap(lambda a, b: i_lt(b, a), f[0], n)
    if "RangeToInclusive" in path:
        e = Add(f[0], T)
        return F, e, smap(lambda a, b: i_lt(b, a), e, n)
    if "RangeTo" in path:
        return F, f[0], smap(lambda a, b: i_lt(b, a), f[0], n)
    if "RangeInclusive" in path:
        e = Add(f[1], T)
        return f[0], e, Or(smap(lambda a, b: i_lt(b, a), e, n), smap(lambda a, b: i_lt(b, a), f[0], e))
    if "Range" in path:
        return f[0], f[1], Or(smap(lambda a, b: i_lt(b, a), f[1], n), smap(lambda a, b: i_lt(b, a), f[0], f[1]))
    return None


def boundary(I, st, v, i):
    """The obligation that a byte position is between characters."""
    def f(view, x):
        if view.k == "str":
            if view.a[0].isascii():
                return F
            bs = view.a[0].encode()
            if x.k == "int":
                return F if (x.a[0] >= len(bs) or (bs[x.a[0]] & 0xC0) != 0x80) else T
            return lit(App("midchar", (view, x), BOOL), 2)
        if x is F:
            return F
        b, s, e = base_of(view)
        pos = l_add(x, s) if is_intleaf(x) and is_intleaf(s) else x
        if pos is F or pos is e:
            return F
        if b.k in ("arr",) and is_int(b) and all(y.k == "int" and y.a[0] < 128 for y in b.a[0]):
            return F
        # next to an ASCII character that was found there
        d, k = lin_of(pos)
        for t in d:
            if t.a[0] == "sfind" and d[t] == 1:
                rest = l_add(pos, t, -1)
                if rest.k == "int" and t.a[1][1].k == "int" and 0 <= rest.a[0] <= 1:
                    return F
                if l_add(rest, s, -1).k == "int" and 0 <= l_add(rest, s, -1).a[0] <= 1:
                    return F
        whole = is_ascii_atom(Slice(b, F, App("len", (b,), LEN)))
        mid = App("midchar", (b, pos), BOOL)
        return And(Not(whole), lit(mid, 2))
    g = smap(f, v, i)
    if g is not F:
        I.oblige(st, "char boundary", g)
        st.guard = And(st.guard, Not(g))


def index_view(I, st, v, idx, stringy):
    if idx.k == "dd":
        return by_case(I, st, idx, lambda s, x: index_view(I, s, v, x, stringy))
    if is_int(idx):
        n = length_of(v)
        bad = smap(lambda a, b: i_le(b, a), idx, n)
        I.oblige(st, "index out of bounds", bad)
        st.guard = And(st.guard, Not(bad))
        return ref_of(elem(v, idx))
    r = range_bounds(I, v, idx)
    if r is None:
        return NotImplemented
    s, e, bad = r
    I.oblige(st, "slice out of bounds", bad)
    st.guard = And(st.guard, Not(bad))
    if stringy:
        boundary(I, st, v, s)
        boundary(I, st, v, e)
    return subview(v, s, e)


@summary("Index::index")
def s_index(I, st, c):
    v = load(I, st, c.args[0])
    if v.k not in ("seq", "slice", "str", "arr", "dd", "app", "mslice"):
        return NotImplemented
    stringy = "str>" in c.path or "for str" in c.path or "String as" in c.path
    return index_view(I, st, viewof(I, st, v), c.args[1], stringy)


@summary("IndexMut::index_mut")
def s_indexmut(I, st, c):
    r = c.args[0]
    idx = c.args[1]
    if r.k == "mref":
        v = get(st.env.get(r.a[0], BOT), r.a[1])
        n = length_of(v)
        cell, path, off, end = r.a[0], r.a[1], F, n
    elif r.k == "mslice":
        cell, path, off, end = r.a
        n = Sub(end, off)
    else:
        return NotImplemented
    if is_int(idx):
        bad = smap(lambda a, b: i_le(b, a), idx, n)
        I.oblige(st, "index out of bounds", bad)
        st.guard = And(st.guard, Not(bad))
        return mk("mref", cell, path + (("I", Add(off, idx)),))
    x = mk("slice", Arr(()), F, n)
    rb = range_bounds(I, x, idx)
    if rb is None:
        return NotImplemented
    s, e, bad = rb
    I.oblige(st, "slice out of bounds", bad)
    st.guard = And(st.guard, Not(bad))
    return mk("mslice", cell, path, Add(off, s), Add(off, e))


@summary("slice::get", "str::get", "slice::get_mut0")
def s_get(I, st, c):
    v = viewof(I, st, c.args[0])
    idx = c.args[1]
    if idx.k == "dd" and not is_int(idx):
        return NotImplemented
    if is_int(idx):
        ok = smap(i_lt, idx, length_of(v))
        return option(c.ty, ok, ref_of(elem(v, idx)))
    r = range_bounds(I, v, idx)
    if r is None:
        return NotImplemented
    s, e, bad = r
    if key_of(c.path).startswith("str"):
        b, _, _ = base_of(v)
        mid = lit(App("midchar", (v, s, e), BOOL), 2)
        bad = Or(bad, And(Not(is_ascii_atom(v)), mid))
    return option(c.ty, Not(bad), subview(v, s, e))


@summary("slice::copy_from_slice", "slice::clone_from_slice")
def s_copyfrom(I, st, c):
    dst = c.args[0]
    src = viewof(I, st, c.args[1])
    if dst.k == "mref":
        v = get(st.env.get(dst.a[0], BOT), dst.a[1])
        dst = mk("mslice", dst.a[0], dst.a[1], F, length_of(v))
    if dst.k != "mslice":
        return NotImplemented
    cell, path, a, b = dst.a
    n = length_of(src)
    bad = smap(lambda x, y: Not(i_eq(x, y)), Sub(b, a), n)
    I.oblige(st, "copy_from_slice length", bad)
    st.guard = And(st.guard, Not(bad))
    old = get(st.env.get(cell, BOT), path)
    if old.k == "arr":
        fs = list(old.a[0])
        for j in range(len(fs)):
            # position j holds src[j - a] when a <= j < b
            inside = And(smap(lambda x: i_le(x, Int(j)), a), smap(lambda x: i_lt(Int(j), x), b))
            if inside is F:
                continue
            x = elem(src, Sub(Int(j), a))
            fs[j] = x if inside is T else join(inside, x, Not(inside), fs[j])
        st.env[cell] = put(st.env[cell], path, Arr(fs))
        return UNIT
    if a is F and b is length_of(old):
        st.env[cell] = put(st.env[cell], path, seq_of(src))
        return UNIT
    st.env[cell] = put(st.env[cell], path, seq_of(Slice(App("unk", ("copied", old, src, a, b), "?"), F, length_of(old))))
    return UNIT


@summary("slice::fill")
def s_fill(I, st, c):
    dst = c.args[0]
    if dst.k == "mslice" and dst.a[2].k == "int" and dst.a[3].k == "int":
        for j in range(dst.a[2].a[0], dst.a[3].a[0]):
            st.env[dst.a[0]] = put(st.env[dst.a[0]], dst.a[1] + (("I", Int(j)),), c.args[1])
        return UNIT
    return NotImplemented


@summary("slice::sort", "slice::sort_unstable", "slice::sort_by", "slice::sort_by_key", "slice::sort_unstable_by", "slice::sort_by_cached_key", "slice::sort_unstable_by_key", "slice::reverse", "slice::rotate_left", "slice::rotate_right", "slice::swap", "Vec::dedup", "Vec::retain")
def s_sort(I, st, c):
    kind = key_of(c.path).split("::")[1]
    dst = c.args[0]
    if dst.k not in ("mslice", "mref"):
        return NotImplemented
    ref = mk("mref", dst.a[0], dst.a[1])
    old = load(I, st, ref)
    view = viewof(I, st, old)
    ety = ((c.callee or {}).get("g") or ["?"])[0]
    args = (view, kind, ety) + tuple(c.args[1:])
    vty = None
    for t, d in I.p.types.items():
        if d.get("path") == "std::vec::Vec" and d["args"][0] == ety:
            vty = t
    base = App("sorted", args, vty or "?")
    I.calls.append((I.stack[-1][0], "sort:" + kind, ety, tuple(c.args), st.guard, I.stack[-1][1]))
    if kind in ("dedup", "retain"):
        n = App("len", (base,), LEN)
    else:
        n = length_of(view)
    setref(I, st, ref, Seq((mk("span", T, Slice(base, F, n)),)))
    return UNIT


# ------------------------------------------------------------------ text


def is_ascii_atom(view):
    if view.k == "str":
        return T if view.a[0].isascii() else F
    if view.k == "slice" and view.a[0].k == "arr" and view.a[1].k == "int" and view.a[2].k == "int":
        return AndAll(smap(lambda x: i_lt(x, Int(128)), y) for y in view.a[0].a[0][view.a[1].a[0]:view.a[2].a[0]])
    return lit(App("is_ascii", (view,), BOOL), 2)


@summary("str::is_ascii", "slice::is_ascii")
def s_isascii(I, st, c):
    v = viewof(I, st, c.args[0])
    return smap(is_ascii_atom, v)


STRINGS = ["\0other"]
STRING_ID = {}


def string_id(s):
    i = STRING_ID.get(s)
    if i is None:
        i = STRING_ID[s] = len(STRINGS)
        STRINGS.append(s)
    return i


def strval(view):
    return App("strval", (view,), ("i", 0, 4095))


def str_eq(a, b):
    if a is b:
        return T
    if a.k == "str" and b.k == "str":
        return T if a.a[0] == b.a[0] else F
    for x, y in ((a, b), (b, a)):
        if y.k == "str":
            if x.k == "slice" and x.a[0].k == "app":
                at = strval(x)
                return lit(at, s_of(at, [string_id(y.a[0])]))
            return view_eq(x, y)
    return view_eq(a, b)


def view_eq(a, b):
    la, lb = length_of(a), length_of(b)
    same = smap(i_eq, la, lb)
    if same is F:
        return F
    n = la if la.k == "int" else (lb if lb.k == "int" else None)
    if n is not None and n.a[0] <= 64:
        g = same
        for i in range(n.a[0]):
            x, y = elem(a, Int(i)), elem(b, Int(i))
            g = And(g, constrain(value_eq(x, y), g) if g is not F else F)
        return g
    if a.id > b.id:
        a, b = b, a
    return And(same, Not(lit(App("differ", (a, b), BOOL), 2)))


def value_eq(x, y):
    if x is y:
        return T
    if x.k == "dd" or y.k == "dd":
        return dmap(lambda p, q: BOT if p is BOT or q is BOT else value_eq(p, q), (x, y), nonorm=True)
    if is_intleaf(x) and is_intleaf(y):
        return i_eq(x, y)
    if x.k in ("str", "slice") or y.k in ("str", "slice"):
        if is_stringy(x) or is_stringy(y):
            return str_eq(x, y)
        return view_eq(x, y)
    if x.k == "seq" or y.k == "seq":
        return view_eq(view_of(x), view_of(y))
    if x.k == y.k == "adt":
        if x.a[1] != y.a[1]:
            return F
        return AndAll(value_eq(p, q) for p, q in zip(x.a[2], y.a[2]))
    if x.k == y.k and x.k in ("tup", "arr") and len(x.a[0]) == len(y.a[0]):
        return AndAll(value_eq(p, q) for p, q in zip(x.a[0], y.a[0]))
    if x.k == y.k and x.k in ("sref", "box"):
        return value_eq(x.a[0], y.a[0])
    if x.id > y.id:
        x, y = y, x
    return lit(App("equal", (x, y), BOOL), 2)


def values_eq(I, st, a, b):
    a, b = load(I, st, a), load(I, st, b)
    if a.k == "mslice":
        a = I.mslice_view(st, a)
    if b.k == "mslice":
        b = I.mslice_view(st, b)
    return value_eq(a, b)


@summary("PartialEq::eq", "slice::starts_with0", "SpecArrayEq::spec_eq", "SlicePartialEq::equal", "str::eq")
def s_eq(I, st, c):
    f = I.p.fns.get(c.name)
    if f is not None and not structural_eq_ok(I, c):
        return NotImplemented
    return values_eq(I, st, c.args[0], c.args[1])


@summary("PartialEq::ne")
def s_ne(I, st, c):
    f = I.p.fns.get(c.name)
    if f is not None and not structural_eq_ok(I, c):
        return NotImplemented
    return Not(values_eq(I, st, c.args[0], c.args[1]))


def structural_eq_ok(I, c):
    """Inlined library equality may be computed structurally when no local `eq` is involved."""
    return "[u8" in c.name or "SpecArrayEq" in c.name or "&str" in c.name or "std::vec::Vec<u8>" in c.name or "for u" in c.name


@summary("Ord::cmp")
def s_cmp(I, st, c):
    if c.name in I.p.fns:
        return NotImplemented
    a, b = load(I, st, c.args[0]), load(I, st, c.args[1])
    if is_int(a) and is_int(b):
        def f(x, y):
            lt, eq = i_lt(x, y), i_eq(x, y)
            return join(lt, Adt(c.ty, 0, ()), Not(lt), join(eq, Adt(c.ty, 1, ()), Not(eq), Adt(c.ty, 2, ())))
        return smap(f, a, b)
    va, vb = viewof(I, st, a), viewof(I, st, b)
    x = App("lexcmp", (va, vb), c.ty)
    disc = App("discr", (x,), ("i", 0, 2))
    return mkdd(disc, [(s_of(disc, [i]), Adt(c.ty, i, ())) for i in range(3)])


@summary("PartialOrd::partial_cmp")
def s_pcmp(I, st, c):
    if c.name in I.p.fns:
        return NotImplemented
    d = I.p.desc(c.ty)
    oty = d["v"][1]["f"][0][1]
    c2 = Call(c.name, c.path, c.args, oty, c.callee)
    r = s_cmp(I, st, c2)
    return dmap(lambda x: BOT if x is BOT else some(c.ty, x), (r,))


@summary("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def s_ltle(I, st, c):
    if c.name in I.p.fns:
        return NotImplemented
    a, b = load(I, st, c.args[0]), load(I, st, c.args[1])
    if not (is_int(a) and is_int(b)):
        return NotImplemented
    m = c.path.split("::")[-1]
    f = {"lt": i_lt, "le": i_le, "gt": lambda x, y: i_lt(y, x), "ge": lambda x, y: i_le(y, x)}[m]
    return smap(f, a, b)


@summary("slice::starts_with", "slice::ends_with", "str::starts_with", "str::ends_with")
def s_starts(I, st, c):
    v = viewof(I, st, c.args[0])
    p = load(I, st, c.args[1])
    if is_int(p):
        p = Slice(Arr((p,)), F, T)
    else:
        p = viewof(I, st, p)
    n = length_of(p)
    def f(a, q):
        m = length_of(a)
        k = length_of(q)
        if k.k != "int":
            return lit(App("starts", (a, q, c.path.split("::")[-1]), BOOL), 2)
        g = smap(lambda y: i_le(k, y), m)
        for i in range(k.a[0]):
            pos = Int(i) if c.path.endswith("starts_with") else Sub(Add(m, Int(i)), k)
            g = And(g, value_eq(elem(a, pos), elem(q, Int(i))))
        return g
    return smap(f, v, p)


@summary("slice::contains")
def s_slicecontains(I, st, c):
    v = viewof(I, st, c.args[0])
    x = load(I, st, c.args[1])
    b, s, e = base_of(v)
    if s.k == "int" and e.k == "int" and e.a[0] - s.a[0] <= 64:
        return OrAll(value_eq(elem(b, Int(i)), x) for i in range(s.a[0], e.a[0]))
    it = mk("it", "view", (v,) if False else (b, s, e))
    return any_of(I, st, it, lambda s2, item: value_eq(load(I, s2, item), x), "contains")


def pattern_id(I, st, p):
    """A search pattern: a character, a string, a set of characters or a predicate."""
    p = load(I, st, p)
    return p


def is_predicate(p):
    return all(x is BOT or x.k in ("clo", "fn") for x in leaves(p)) and p is not BOT


@summary("str::contains")
def s_contains(I, st, c):
    v = viewof(I, st, c.args[0])
    p = pattern_id(I, st, c.args[1])
    if is_predicate(p):
        # the same as chars().any(p)
        f = callable_(I, st, p)
        return any_of(I, st, characters(I, st, v), lambda s, x: I.call_value(s, f, [x], "bool"), "any")
    if p.k in ("slice", "seq", "arr"):
        p = viewof(I, st, p)
    return smap(lambda a: lit(App("scontains", (a, p), BOOL), 2), v)


@summary("str::find", "str::rfind")
def s_find(I, st, c):
    v = viewof(I, st, c.args[0])
    p = pattern_id(I, st, c.args[1])
    op = "s" + c.path.split("::")[-1]

    def f(a):
        has = lit(App("scontains", (a, p), BOOL), 2)
        i = App(op, (a, p), ("i", 0, 2**63 - 2))
        n = length_of(a)
        if is_intleaf(n):
            d, k = lin_of(l_add(l_add(i, T), n, -1))
            I.facts.add(i, d, k)  # i + 1 <= n, where it exists
        return option(c.ty, has, i)

    return smap(f, v)


def short_text(I, st, a, most=16):
    """The bytes of a short text that's known to be ASCII, or None."""
    if a.k == "str":
        return [Int(b) for b in a.a[0].encode()] if a.a[0].isascii() and len(a.a[0]) <= most else None
    if a.k == "slice" and a.a[0].k == "arr" and a.a[1].k == "int" and a.a[2].k == "int" and a.a[2].a[0] - a.a[1].a[0] <= most:
        if constrain(is_ascii_atom(a), st.guard) is T:
            return list(a.a[0].a[0][a.a[1].a[0]:a.a[2].a[0]])
    return None


def pattern_test(I, st, p):
    """Whether a character (a value) matches a pattern, as a function; None if that isn't known."""
    if p is None:
        white = (9, 10, 11, 12, 13, 32)
        return lambda s, x: OrAll(smap(lambda y, w=w: i_eq(y, Int(w)), x) for w in white)
    p = load(I, st, p)
    if is_int(p):
        return lambda s, x: smap(i_eq, x, p)
    if is_predicate(p):
        f = callable_(I, st, p)
        return lambda s, x: truth(I.call_value(s, f, [x], "bool"))
    return None


@summary("str::strip_prefix", "str::strip_suffix", "slice::strip_prefix", "slice::strip_suffix")
def s_strip(I, st, c):
    v = viewof(I, st, c.args[0])
    p = load(I, st, c.args[1])
    if is_int(p):
        p = Slice(Arr((p,)), F, T)
    elif is_predicate(p):
        return NotImplemented
    else:
        p = viewof(I, st, p)
    first = c.path.endswith("prefix")

    def f(a, q):
        m, k = length_of(a), length_of(q)
        if k.k != "int" or q.k == "str" and not q.a[0].isascii():
            return option(c.ty, lit(App("starts", (a, q, c.path.split("::")[-1]), BOOL), 2), App("stripped", (a, q), "str"))
        g = smap(lambda y: i_le(k, y), m)
        for i in range(k.a[0]):
            pos = Int(i) if first else Sub(Add(m, Int(i)), k)
            g = And(g, value_eq(elem(a, pos), elem(q, Int(i))))
        return option(c.ty, g, subview(a, k, m) if first else subview(a, F, Sub(m, k)))

    return smap(f, v, p)


@summary("str::trim", "str::trim_start", "str::trim_end", "str::trim_matches", "str::trim_start_matches", "str::trim_end_matches")
def s_trim(I, st, c):
    v = viewof(I, st, c.args[0])
    m = c.path.split("::")[-1]

    def f(a):
        if a.k == "str" and m == "trim":
            return Str(a.a[0].strip())
        bs = short_text(I, st, a)
        test = pattern_test(I, st, c.args[1] if len(c.args) > 1 else None)
        if bs is not None and test is not None:
            lo, hi = F, Int(len(bs))
            hits = [test(st, x) for x in bs]
            if "end" not in m:
                run = T
                for i, h in enumerate(hits):
                    run = And(run, h)
                    lo = join(run, Int(i + 1), Not(run), lo)
            if "start" not in m:
                run = T
                for i, h in reversed(list(enumerate(hits))):
                    run = And(run, h)
                    hi = join(run, Int(i), Not(run), hi)
                if lo is not F:
                    hi = smap(lambda x, y: y if x.a[0] <= y.a[0] else x, lo, hi)
            return subview(a, lo, hi)
        b, s, e = base_of(a)
        n = length_of(a)
        args = (a, m) + tuple(c.args[1:])
        x = App("trimmed", args, "str")
        return Slice(x, F, App("len", (x,), LEN))

    return dmap(lambda x: x if x is BOT else f(x), (v,))


@summary("str::to_lowercase", "str::to_uppercase", "str::to_ascii_lowercase", "str::to_ascii_uppercase", "str::replace", "str::repeat")
def s_case(I, st, c):
    v = viewof(I, st, c.args[0])
    m = c.path.split("::")[-1]

    def f(a):
        if a.k == "str" and m in ("to_lowercase", "to_ascii_lowercase"):
            return Seq((El(T, Str(a.a[0].lower())),))
        if a.k == "str" and m in ("to_uppercase", "to_ascii_uppercase"):
            return Seq((El(T, Str(a.a[0].upper())),))
        if m == "repeat" and a.k == "str" and a.a[0]:
            times = load(I, st, c.args[1])
            if is_int(times):
                return smap(lambda n: Seq((El(T, Str(a.a[0] * n.a[0])),) if n.k == "int" else (mk("rep", T, App("bv", (1,), POS), F, n, (El(T, a),)),)), times)
        x = App("str:" + m, (a,) + tuple(c.args[1:]), "str")
        return Seq((mk("span", T, Slice(x, F, App("len", (x,), LEN))),))

    return smap(f, v)


@summary("str::eq_ignore_ascii_case")
def s_eqic(I, st, c):
    a, b = viewof(I, st, c.args[0]), viewof(I, st, c.args[1])
    return smap(lambda x, y: lit(App("eqic", (x, y), BOOL), 2), a, b)


@summary("str::parse", "FromStr::from_str")
def s_parse(I, st, c):
    if c.name in I.p.fns:
        return NotImplemented
    v = viewof(I, st, c.args[0])
    d = I.p.desc(c.ty)
    if d.get("path") != RESULT:
        return NotImplemented
    okty, errty = d["v"][0]["f"][0][1], d["v"][1]["f"][0][1]
    if I.p.irange(okty) is None:
        return NotImplemented
    def f(a):
        ok = lit(App("parses", (a, okty, 10), BOOL), 2)
        return result(c.ty, ok, App("parsed", (a, okty, 10), ("i",) + I.p.irange(okty)), App("error", (errty,), errty))
    return smap(f, v)


@summary("int::from_str_radix", "int::from_ascii_radix", "int::from_ascii")
def s_radix(I, st, c):
    v = viewof(I, st, c.args[0])
    d = I.p.desc(c.ty)
    okty, errty = d["v"][0]["f"][0][1], d["v"][1]["f"][0][1]
    r = c.args[1] if len(c.args) > 1 else Int(10)
    r = r.a[0] if r.k == "int" else r
    def f(a):
        ok = lit(App("parses", (a, okty, r), BOOL), 2)
        return result(c.ty, ok, App("parsed", (a, okty, r), ("i",) + I.p.irange(okty)), App("error", (errty,), errty))
    return smap(f, v)


@summary("str::from_utf8", "String::from_utf8", "converts::from_utf8")
def s_utf8(I, st, c):
    v = viewof(I, st, c.args[0])
    d = I.p.desc(c.ty)
    errty = d["v"][1]["f"][0][1]
    own = I.p.desc(d["v"][0]["f"][0][1]).get("path") == "std::string::String"
    def f(a):
        ok = Or(is_ascii_atom(a), lit(App("utf8", (a,), BOOL), 2))
        x = App("text", (a,), "str")
        t = Slice(x, F, length_of(a))
        return result(c.ty, ok, seq_of(t) if own else t, App("error", (errty,), errty))
    return smap(f, v)


@summary("str::chars", "str::char_indices", "str::bytes")
def s_chars(I, st, c):
    v = viewof(I, st, c.args[0])
    m = c.path.split("::")[-1]
    if m == "bytes":
        return smap(lambda a: mk("it", "copied", (mk("it", "view", base_of(a)),)), v)
    return characters(I, st, v, m)


def characters(I, st, v, m="chars"):
    def f(a):
        if a.k == "str":
            base = Arr(Int(ord(ch)) for ch in a.a[0])
            it = mk("it", "copied", (mk("it", "view", (base, F, Int(len(a.a[0])))),))
            return it if m == "chars" else (mk("it", "enum", (it, F)) if a.a[0].isascii() else mk("it", "opaque", (App("char_indices", (a,), "?"), F)))
        ascii_ = constrain(is_ascii_atom(a), st.guard)
        if ascii_ is T:
            it = mk("it", "copied", (mk("it", "view", base_of(a)),))
            return it if m == "chars" else mk("it", "enum", (it, F))
        base = App("chars", (a,), "[char]")
        n = App("len", (base,), LEN)
        la = length_of(a)
        if is_intleaf(la):
            d, k = lin_of(l_add(n, la, -1))
            I.facts.add(n, d, k)
        it = mk("it", "copied", (mk("it", "view", (base, F, n)),))
        return it if m == "chars" else mk("it", "opaque", (App("char_indices", (a,), "?"), F))

    return smap(f, v)


# ------------------------------------------------------------------ iterators


def to_iter(I, st, v, by="value"):
    """The iterator of a value passed to `into_iter`."""
    if v.k == "it":
        return v
    if v.k == "dd":
        return dmap(lambda x: BOT if x is BOT else to_iter(I, st, x, by), (v,))
    if v.k == "adt":
        path = I.p.desc(v.a[0]).get("path", "")
        if "Range" in path:
            if range_kind(I, v) == "RangeInclusive" and v.a[2][2] is F:
                return mk("it", "count", (v.a[2][0], smap(lambda x: Add(x, T), v.a[2][1])))
            return v
        if path == OPTION:
            x = v.a[2][0] if v.a[1] == 1 else BOT
            return mk("it", "once", (x, T if v.a[1] == 1 else F))
        return v
    if v.k == "seq":
        w = view_of(v)
        b, s, e = base_of(w)
        return mk("it", "own", (b, s, e))
    if v.k == "arr":
        return mk("it", "own", (v, F, Int(len(v.a[0]))))
    if v.k in ("slice", "str"):
        return mk("it", "view", base_of(v))
    if v.k == "sref":
        return to_iter(I, st, viewof(I, st, v)) if load(I, st, v).k in ("seq", "arr", "slice", "str") else v
    if v.k == "mref":
        w = load(I, st, v)
        if w.k in ("seq", "arr"):
            return mk("it", "mview", (v, F, length_of(w)))
        if w.k == "it" or w.k == "adt":
            return mk("it", "byref", (v,))
        if w.k == "slice":
            return mk("it", "view", base_of(w))
        return v
    if v.k == "mslice":
        return mk("it", "mview", (mk("mref", v.a[0], v.a[1]), v.a[2], v.a[3]))
    return v


def is_range(I, it):
    return it.k == "adt" and "Range" in I.p.desc(it.a[0]).get("path", "")


def range_kind(I, it):
    return I.p.desc(it.a[0])["path"].split("::")[-1]


class NotIter(Exception):
    pass


def it_next(I, st, it):
    """(there is a next item, the item, the iterator after it); effects go into `st`."""
    if it.k == "dd":
        cs = cases(it)
        outs = []
        base = st.guard
        for g, x in cs:
            s2 = st.fork(And(base, g))
            if s2.guard is F:
                continue
            r = it_next(I, s2, x)
            s2.env[("ret",)] = Tup(r)
            outs.append(s2)
        r = join_states(outs)
        st.guard = r.guard
        ret = r.env.pop(("ret",))
        st.env = r.env
        return truth(get1(ret, ("tup", 0))), get1(ret, ("tup", 1)), get1(ret, ("tup", 2))
    if it is BOT:
        return F, BOT, BOT
    if is_range(I, it):
        k = range_kind(I, it)
        f = it.a[2]
        if k == "Range":
            c = smap(i_lt, f[0], f[1])
            return c, f[0], adv(it, c, lambda: Adt(it.a[0], 0, (Add(f[0], T), f[1])))
        if k == "RangeFrom":
            return T, f[0], Adt(it.a[0], 0, (Add(f[0], T),))
        if k == "RangeInclusive":
            done = truth(f[2])
            c = And(Not(done), smap(i_le, f[0], f[1]))
            last = smap(i_eq, f[0], f[1])
            nx = Adt(it.a[0], 0, (join(last, f[0], Not(last), Add(f[0], T)), f[1], last))
            return c, f[0], adv(it, c, lambda: nx)
    if it.k != "it":
        raise NotIter(it)
    k, a = it.a
    if k == "count":
        c = smap(i_lt, a[0], a[1])
        return c, a[0], adv(it, c, lambda: mk("it", k, (smap(lambda x: Add(x, T), a[0]), a[1])))
    if k in ("view", "own"):
        b, i, j = a
        c = smap(i_lt, i, j)
        x = elem(b, i)
        return c, (ref_of(x) if k == "view" else x), adv(it, c, lambda: mk("it", k, (b, Add(i, T), j)))
    if k == "rview":
        b, i, j, n, how = a
        c = smap(i_lt, Add(i, n), j)
        x = elem(b, Sub(Sub(j, T), n))
        return c, (ref_of(x) if how is F else x), adv(it, c, lambda: mk("it", k, (b, i, j, Add(n, T), how)))
    if k == "mview":
        r, i, j = a
        c = smap(i_lt, i, j)
        return c, mk("mref", r.a[0], r.a[1] + (("I", i),)), adv(it, c, lambda: mk("it", k, (r, Add(i, T), j)))
    if k == "chunks":
        b, s, e, size, n, ex = a
        p = Add(s, smap(lambda x, y: muldiv("Mul", x, y, 0, 2**64 - 1), size, n))
        q = Add(p, size)
        le = smap(i_le, q, e)
        if ex is T:
            c = le
            end = q
        else:
            c = smap(i_lt, p, e)
            end = join(le, q, Not(le), e)
        return c, Slice(b, p, end), adv(it, c, lambda: mk("it", k, (b, s, e, size, Add(n, T), ex)))
    if k == "windows":
        b, s, e, size = a
        q = Add(s, size)
        c = smap(i_le, q, e)
        return c, Slice(b, s, q), adv(it, c, lambda: mk("it", k, (b, Add(s, T), e, size)))
    if k == "enum":
        inner, n = a
        c, x, ni = it_next(I, st, inner)
        return c, Tup((n, x)), adv(it, c, lambda: mk("it", k, (ni, Add(n, T))))
    if k == "fuse":
        if len(a) == 2:
            # over something that may go on after its end
            inner, alive = a
            got = []

            def step(s):
                c, x, ni = it_next(I, s, inner)
                got.append(c)
                return Tup((c, x, ni))

            r = under(I, st, truth(alive), step)
            if r is BOT:
                return F, BOT, it
            c = And(truth(alive), truth(get1(r, ("tup", 0))))
            return c, get1(r, ("tup", 1)), mk("it", k, (join(truth(alive), get1(r, ("tup", 2)), Not(truth(alive)), inner), c))
        c, x, ni = it_next(I, st, a[0])
        return c, x, mk("it", k, (ni,))
    if k == "byref":
        inner = load(I, st, a[0])
        c, x, ni = it_next(I, st, inner)
        setref(I, st, a[0], ni)
        return c, x, it
    if k == "copied":
        c, x, ni = it_next(I, st, a[0])
        return c, load1(I, st, x) if x.k in ("sref", "mref", "dd") else x, adv(it, c, lambda: mk("it", k, (ni,)))
    if k == "once":
        return truth(a[1]), a[0], mk("it", k, (a[0], F))
    if k == "empty":
        return F, BOT, it
    if k == "zip":
        c1, x, n1 = it_next(I, st, a[0])
        c2, y, n2 = it_next(I, st, a[1])
        c = And(c1, c2)
        return c, Tup((x, y)), mk("it", k, (n1, n2))
    if k == "chain":
        c1, x, n1 = it_next(I, st, a[0])
        if c1 is T:
            return T, x, mk("it", k, (n1, a[1]))
        c2, y, n2 = it_next(I, st, a[1])
        if c1 is F:
            return c2, y, mk("it", k, (n1, n2))
        return Or(c1, c2), join(c1, x, Not(c1), y), mk("it", k, (n1, join(c1, a[1], Not(c1), n2)))
    if k == "take":
        inner, n = a
        c0 = smap(lambda x: i_lt(F, x), n)
        c1, x, ni = it_next(I, st, inner)
        return And(c0, c1), x, mk("it", k, (ni, Sub(n, T)))
    if k == "stepby":
        inner, n, first = a
        raise NotIter(it)
    if k in ("map", "inspect"):
        inner, f = a
        c, x, ni = it_next(I, st, inner)
        y = under(I, st, c, lambda s: I.call_value(s, f, [x], None if False else ret_ty(I, f)))
        return c, y, mk("it", k, (ni, f))
    if k in ("filter", "fmap", "skipwhile"):
        # searching for the next item
        inner, f = a[:2]

        def step(s, x):
            if k == "filter":
                r = truth(I.call_value(s, f, [ref_of(x)], "bool"))
                if len(a) == 3:
                    r = Not(r)
                hit = s.fork(And(s.guard, r))
                hit.env[("found",)] = x
            else:
                r = I.call_value(s, f, [x], ret_ty(I, f))
                g = leaf_guard(r, lambda y: y.k == "adt" and y.a[1] == 1) if r.k == "dd" else (T if r.k == "adt" and r.a[1] == 1 else F)
                hit = s.fork(And(s.guard, g))
                hit.env[("found",)] = get(get(r, (("V", 1),)), (("F", 0, "?"),))
                r = g
            miss = s.fork(And(s.guard, Not(r)))
            return [("hit", hit), (None, miss)]

        ic = ("inner", mk("inn", str(I.ctx())).id)
        st.env[ic] = inner
        res = I.iter_loop(st, "next:" + k, mk("it", "byref", (mk("mref", ic, ()),)), step)
        sts = list(res.values())
        if not sts:
            st.guard = F
            return F, BOT, it
        for lab, s in res.items():
            s.env[("hitflag",)] = T if lab == "hit" else F
            s.env.setdefault(("found",), BOT)
        r = join_states(sts)
        st.guard, st.env = r.guard, r.env
        ni = st.env.pop(ic)
        return truth(st.env.pop(("hitflag",))), st.env.pop(("found",)), mk("it", k, (ni, f))
    if k == "takewhile":
        inner, f, alive = a
        c, x, ni = it_next(I, st, inner)
        c = And(c, truth(alive))
        r = truth(under(I, st, c, lambda s: I.call_value(s, f, [ref_of(x)], "bool")))
        ok = And(c, r)
        return ok, x, mk("it", k, (ni, f, ok))
    if k in ("mapwhile", "fromfn", "scan"):
        if k == "fromfn":
            c, args = T, []
            f, ni = a[0], None
        else:
            c, x, ni = it_next(I, st, a[0])
            f, args = a[1], [x] if k == "mapwhile" else [a[2], x]
        r = under(I, st, c, lambda s: I.call_value(s, f, args, ret_ty(I, f)))
        if r is BOT:
            return F, BOT, it
        g = is_some(r)
        return And(c, g), get(get(r, (("V", 1),)), (("F", 0, "?"),)), it if k == "fromfn" else mk("it", k, (ni,) + tuple(a[1:]))
    if k == "rstep":
        p, e, n = a
        c = smap(i_lt, p, e)
        return c, p, adv(it, c, lambda: mk("it", k, (Add(p, n), e, n)))
    if k == "skipwhile":
        inner, f, done = a
        if done is T:
            c, x, ni = it_next(I, st, inner)
            return c, x, mk("it", k, (ni, f, T))
        c, x, ni = it_next(I, st, mk("it", "filter", (inner, f, T)))
        return c, x, mk("it", k, (ni.a[1][0], f, T))
    if k == "successors":
        nextv, f = a
        g = leaf_guard(nextv, lambda y: y.k == "adt" and y.a[1] == 1) if nextv.k == "dd" else (T if nextv.k == "adt" and nextv.a[1] == 1 else F)
        x = get(get(nextv, (("V", 1),)), (("F", 0, "?"),))
        y = under(I, st, g, lambda s: I.call_value(s, f, [ref_of(x)], ret_ty(I, f)))
        return g, x, mk("it", k, (y, f))
    raise NotIter(it)


def adv(it, c, f):
    """The iterator after a call of `next`, which doesn't change when it's exhausted."""
    if c is F:
        return it
    return f()


def ret_ty(I, f):
    x = f
    if x.k == "mref":
        return "?"
    if x.k == "clo":
        fn = I.p.types[x.a[0]]["fn"][0]
        return I.p.fns[fn]["locals"][0]
    if x.k == "fn" and x.a[0] in I.p.fns:
        return I.p.fns[x.a[0]]["locals"][0]
    return "?"


def under(I, st, c, f):
    """Runs `f(state)` where `c` holds, leaving the state elsewhere alone."""
    if c is F:
        return BOT
    if implies(st.guard, c):
        return f(st)
    base = st.guard
    s1 = st.fork(And(base, c))
    if s1.guard is F:
        return BOT
    r = f(s1)
    s2 = st.fork(And(base, Not(c)))
    s1.env[("ret",)] = r
    j = join_states([s for s in (s1, s2) if s.guard is not F] or [s1])
    st.guard, st.env = j.guard, j.env
    return st.env.pop(("ret",), BOT)


def it_back(I, st, it):
    """Like `it_next`, from the other end."""
    if is_range(I, it):
        k = range_kind(I, it)
        f = it.a[2]
        if k == "Range":
            c = smap(i_lt, f[0], f[1])
            e = Sub(f[1], T)
            return c, e, adv(it, c, lambda: Adt(it.a[0], 0, (f[0], e)))
        if k == "RangeInclusive":
            c = And(Not(truth(f[2])), smap(i_le, f[0], f[1]))
            last = smap(i_eq, f[0], f[1])
            return c, f[1], adv(it, c, lambda: Adt(it.a[0], 0, (f[0], join(last, f[1], Not(last), Sub(f[1], T)), last)))
    if it.k != "it":
        raise NotIter(it)
    k, a = it.a
    if k == "count":
        c = smap(i_lt, a[0], a[1])
        e = smap(lambda x: Sub(x, T), a[1])
        return c, e, adv(it, c, lambda: mk("it", k, (a[0], e)))
    if k in ("view", "own"):
        b, i, j = a
        c = smap(i_lt, i, j)
        x = elem(b, Sub(j, T))
        return c, (ref_of(x) if k == "view" else x), adv(it, c, lambda: mk("it", k, (b, i, Sub(j, T))))
    if k == "rview":
        b, i, j, n, how = a
        c = smap(i_lt, Add(i, n), j)
        x = elem(b, i)
        return c, (ref_of(x) if how is F else x), adv(it, c, lambda: mk("it", k, (b, Add(i, T), j, n, how)))
    if k == "mview":
        r, i, j = a
        c = smap(i_lt, i, j)
        return c, mk("mref", r.a[0], r.a[1] + (("I", Sub(j, T)),)), adv(it, c, lambda: mk("it", k, (r, i, Sub(j, T))))
    if k == "enum":
        inner, n = a
        m = it_len(I, inner)
        c, x, ni = it_back(I, st, inner)
        return c, Tup((Sub(Add(n, m), T), x)), adv(it, c, lambda: mk("it", k, (ni, n)))
    if k == "fuse":
        c, x, ni = it_back(I, st, a[0])
        return c, x, mk("it", k, (ni,))
    if k == "copied":
        c, x, ni = it_back(I, st, a[0])
        return c, load1(I, st, x) if x.k in ("sref", "mref", "dd") else x, mk("it", k, (ni,))
    if k == "rev":
        c, x, ni = it_next(I, st, a[0])
        return c, x, mk("it", k, (ni,))
    if k == "map":
        inner, f = a
        c, x, ni = it_back(I, st, inner)
        y = under(I, st, c, lambda s: I.call_value(s, f, [x], ret_ty(I, f)))
        return c, y, mk("it", k, (ni, f))
    if k == "once":
        return truth(a[1]), a[0], mk("it", k, (a[0], F))
    raise NotIter(it)


def it_len(I, it):
    if is_range(I, it):
        k = range_kind(I, it)
        f = it.a[2]
        if k == "Range":
            return smap(lambda x, y: join(i_le(x, y), l_add(y, x, -1), Not(i_le(x, y)), F), f[0], f[1])
        if k == "RangeInclusive":
            return Add(Sub(f[1], f[0]), T)
    if it.k == "it":
        k, a = it.a
        if k == "count":
            return smap(lambda x, y: join(i_le(x, y), l_add(y, x, -1), Not(i_le(x, y)), F), a[0], a[1])
        if k in ("view", "own", "mview"):
            return Sub(a[2], a[1])
        if k == "rview":
            return Sub(Sub(a[2], a[1]), a[3])
        if k in ("enum", "fuse", "copied", "rev", "map"):
            return it_len(I, a[0])
        if k == "chunks":
            b, s, e, size, n, ex = a
            if n is F and size.k == "int":
                d = Sub(e, s)
                up = d if ex is T else Add(d, Int(size.a[0] - 1))
                return smap(lambda x: muldiv("Div", x, size, 0, 2**64 - 1), up)
        if k == "zip":
            x, y = it_len(I, a[0]), it_len(I, a[1])
            return smap(lambda p, q: join(i_le(p, q), p, Not(i_le(p, q)), q), x, y)
        if k == "take":
            x, y = it_len(I, a[0]), a[1]
            return smap(lambda p, q: join(i_le(p, q), p, Not(i_le(p, q)), q), x, y)
    raise NotIter(it)


_base_next = it_next


def it_next_full(I, st, it):
    if it.k == "it" and it.a[0] == "rev":
        c, x, ni = it_back(I, st, it.a[1][0])
        return c, x, mk("it", "rev", (ni,))
    return _base_next(I, st, it)


it_next = it_next_full
IN.it_next = it_next_full


def mk_rev(I, it):
    if it.k == "adt":
        it = to_iter(I, None, it)
    if it.k == "it":
        k, a = it.a
        if k in ("view", "own"):
            return mk("it", "rview", (a[0], a[1], a[2], F, F if k == "view" else T))
        if k == "copied":
            return mk("it", "copied", (mk_rev(I, a[0]),))
        if k == "map":
            return mk("it", "map", (mk_rev(I, a[0]), a[1]))
        if k == "rview" and a[3] is F:
            return mk("it", "view" if a[4] is F else "own", (a[0], a[1], a[2]))
        if k == "rev":
            return a[0]
    return mk("it", "rev", (it,))


def iter_arg(I, st, v):
    """The iterator behind an argument, and the reference to write it back to."""
    if v.k == "mref":
        w = load(I, st, v)
        return w, v
    return v, None


@summary("Iterator::next")
def s_next(I, st, c):
    if c.name in I.p.fns and I.p.fns[c.name]["local"]:
        return NotImplemented
    it, ref = iter_arg(I, st, c.args[0])
    try:
        cnd, x, ni = it_next(I, st, it)
    except NotIter:
        return NotImplemented
    if ref is not None:
        if cnd is not T and ni is not it and ni.k == it.k and not (ni.k == "it" and ni.a[0] in ("filter", "fmap", "byref", "map")):
            ni = join(cnd, ni, Not(cnd), it)
        setref(I, st, ref, ni)
    return option(c.ty, cnd, x)


@summary("DoubleEndedIterator::next_back")
def s_nextback(I, st, c):
    it, ref = iter_arg(I, st, c.args[0])
    try:
        cnd, x, ni = it_back(I, st, it)
    except NotIter:
        return NotImplemented
    if ref is not None:
        if cnd is not T and ni is not it and ni.k == it.k:
            ni = join(cnd, ni, Not(cnd), it)
        setref(I, st, ref, ni)
    return option(c.ty, cnd, x)


@summary("IntoIterator::into_iter", "slice::iter", "slice::iter_mut", "Vec::iter", "array::iter", "Vec::drain0")
def s_intoiter(I, st, c):
    return to_iter(I, st, c.args[0])


@summary("slice::chunks", "slice::chunks_exact")
def s_chunks(I, st, c):
    v = viewof(I, st, c.args[0])
    n = c.args[1]
    z = smap(lambda x: i_eq(x, F), n)
    I.oblige(st, "chunk size zero", z)
    st.guard = And(st.guard, Not(z))
    ex = T if c.path.endswith("exact") else F
    return smap(lambda a: mk("it", "chunks", base_of(a) + (n, F, ex)), v)


@summary("slice::windows")
def s_windows(I, st, c):
    v = viewof(I, st, c.args[0])
    return smap(lambda a: mk("it", "windows", base_of(a) + (c.args[1],)), v)


def adaptor(name, f):
    @summary("Iterator::" + name)
    def h(I, st, c):
        it = to_iter(I, st, c.args[0])
        if it.k == "dd":
            return dmap(lambda x: BOT if x is BOT else f(I, st, x, c), (it,))
        return f(I, st, it, c)


def adaptor_fn(name):
    def deco(f):
        adaptor(name, f)
        return f

    return deco


adaptor("enumerate", lambda I, st, it, c: mk("it", "enum", (it, F)))
adaptor("rev", lambda I, st, it, c: mk_rev(I, it))
adaptor("fuse", lambda I, st, it, c: mk("it", "fuse", (it, T) if resumes(it) else (it,)))
adaptor("map_while", lambda I, st, it, c: mk("it", "mapwhile", (it, callable_(I, st, c.args[1]))))
adaptor("skip_while", lambda I, st, it, c: mk("it", "skipwhile", (it, callable_(I, st, c.args[1]), F)))
adaptor("copied", lambda I, st, it, c: mk("it", "copied", (it,)))
adaptor("cloned", lambda I, st, it, c: mk("it", "copied", (it,)))
adaptor("map", lambda I, st, it, c: mk("it", "map", (it, callable_(I, st, c.args[1]))))
adaptor("filter", lambda I, st, it, c: mk("it", "filter", (it, callable_(I, st, c.args[1]))))
adaptor("filter_map", lambda I, st, it, c: mk("it", "fmap", (it, callable_(I, st, c.args[1]))))
adaptor("take_while", lambda I, st, it, c: mk("it", "takewhile", (it, callable_(I, st, c.args[1]), T)))
adaptor("zip", lambda I, st, it, c: mk("it", "zip", (it, to_iter(I, st, c.args[1]))))
adaptor("chain", lambda I, st, it, c: mk("it", "chain", (it, to_iter(I, st, c.args[1]))))
adaptor("by_ref", lambda I, st, it, c: c.args[0])


def mk_take(I, st, it, c):
    n = c.args[1]
    if it.k == "it" and it.a[0] in ("view", "own", "mview"):
        b, i, j = it.a[1]
        e = Add(i, n)
        le = smap(i_le, e, j)
        return mk("it", it.a[0], (b, i, join(le, e, Not(le), j)))
    return mk("it", "take", (it, n))


def mk_skip(I, st, it, c):
    n = c.args[1]
    if it.k == "it" and it.a[0] in ("view", "own", "mview"):
        b, i, j = it.a[1]
        s = Add(i, n)
        le = smap(i_le, s, j)
        return mk("it", it.a[0], (b, join(le, s, Not(le), j), j))
    if it.k == "it" and it.a[0] == "copied":
        return mk("it", "copied", (mk_skip(I, st, it.a[1][0], c),))
    if it.k == "it" and it.a[0] == "rview":
        b, i, j, m, how = it.a[1]
        m2 = Add(m, n)
        le = smap(i_le, Add(i, m2), j)
        return mk("it", "rview", (b, i, j, join(le, m2, Not(le), Sub(j, i)), how))
    if it.k == "it" and it.a[0] == "enum":
        inner, k = it.a[1]
        return mk("it", "enum", (mk_skip(I, st, inner, c), Add(k, n)))
    if is_range(I, it) and range_kind(I, it) == "Range":
        s, e = it.a[2]
        s2 = Add(s, n)
        le = smap(i_le, s2, e)
        return Adt(it.a[0], 0, (join(le, s2, Not(le), e), e))
    return mk("it", "opaque", (App("skip", (it, n), "?"), F))


adaptor("take", mk_take)
adaptor("skip", mk_skip)


def resumes(it):
    """Whether an iterator may yield something after its end."""
    return it.k == "it" and (it.a[0] in ("mapwhile", "fromfn", "scan", "opaque") or any(isinstance(x, V) and resumes(x) for x in it.a[1]))


def is_some(r):
    return leaf_guard(r, lambda y: y.k == "adt" and y.a[1] == 1) if r.k == "dd" else (T if r.k == "adt" and r.a[1] == 1 else F)


@adaptor_fn("scan")
def a_scan(I, st, it, c):
    cell = ("scan", mk("scan", str(I.ctx())).id)
    st.env[cell] = c.args[1]
    return mk("it", "scan", (it, callable_(I, st, c.args[2]), mk("mref", cell, ())))


@adaptor_fn("step_by")
def a_stepby(I, st, it, c):
    n = c.args[1]
    if is_range(I, it) and range_kind(I, it) == "Range" and n.k == "int" and n.a[0] > 0:
        return mk("it", "rstep", (it.a[2][0], it.a[2][1], n))
    return mk("it", "opaque", (App("step_by", (it, n), "?"), F))


@summary("iter::from_fn", "from_fn::from_fn")
def s_fromfn(I, st, c):
    return mk("it", "fromfn", (callable_(I, st, c.args[0]),))


@summary("iter::once", "once::once")
def s_once(I, st, c):
    return mk("it", "once", (c.args[0], T))


@summary("iter::empty", "empty::empty")
def s_emptyit(I, st, c):
    return mk("it", "empty", ())


@summary("iter::successors", "successors::successors")
def s_succ(I, st, c):
    return mk("it", "successors", (c.args[0], callable_(I, st, c.args[1])))


@summary("ExactSizeIterator::len")
def s_itlen(I, st, c):
    it, _ = iter_arg(I, st, c.args[0])
    try:
        return it_len(I, it)
    except NotIter:
        return NotImplemented


# ---- consumers


def consume(I, st, it, tag, step, init=()):
    """Drives `it` to its end or a break; [(label, state)] merged per label."""
    for cell, v in init:
        st.env[cell] = v
    return I.iter_loop(st, tag, it, step)


def finish(I, st, res, value):
    """Merges the states a consumer may end in; `value(label, state)` is its result there."""
    sts = []
    for lab, s in res.items():
        if s.guard is F:
            continue
        s.env[("ret",)] = value(lab, s)
        sts.append(s)
    if not sts:
        st.guard = F
        return BOT
    r = join_states(sts)
    st.guard, st.env = r.guard, r.env
    return st.env.pop(("ret",))


def any_of(I, st, it, pred, tag):
    def step(s, x):
        r = truth(pred(s, x))
        return [("hit", s.fork(And(s.guard, r))), (None, s.fork(And(s.guard, Not(r))))]

    res = consume(I, st, it, tag, step)
    return finish(I, st, res, lambda lab, s: T if lab == "hit" else F)


def consumer(name):
    def deco(f):
        @summary("Iterator::" + name, "DoubleEndedIterator::" + name)
        def h(I, st, c):
            v = c.args[0]
            ref = None
            it = v
            if v.k == "mref":
                w = load(I, st, v)
                if w.k == "it" or is_range(I, w):
                    ref = v
                    it = mk("it", "byref", (v,))
            it = to_iter(I, st, it)
            if it.k not in ("it", "dd") and not is_range(I, it):
                return NotImplemented
            saved = st.fork(st.guard)
            try:
                return f(I, st, it, c)
            except NotIter:
                st.guard, st.env = saved.guard, saved.env
                return NotImplemented

        return h

    return deco


@consumer("any")
def c_any(I, st, it, c):
    f = callable_(I, st, c.args[1])
    return any_of(I, st, it, lambda s, x: I.call_value(s, f, [x], "bool"), "any")


@consumer("all")
def c_all(I, st, it, c):
    f = callable_(I, st, c.args[1])
    return Not(truth(any_of(I, st, it, lambda s, x: Not(truth(I.call_value(s, f, [x], "bool"))), "any")))


@consumer("for_each")
def c_foreach(I, st, it, c):
    f = callable_(I, st, c.args[1])

    def step(s, x):
        I.call_value(s, f, [x], "()")
        return [(None, s)]

    res = consume(I, st, it, "for_each", step)
    return finish(I, st, res, lambda lab, s: UNIT)


@consumer("count")
def c_count(I, st, it, c):
    try:
        return it_len(I, it)
    except NotIter:
        pass
    cell = ("acc", mk("cnt", str(I.ctx())).id)

    def step(s, x):
        s.env[cell] = Add(s.env[cell], T)
        return [(None, s)]

    res = consume(I, st, it, "count", step, [(cell, F)])
    return finish(I, st, res, lambda lab, s: s.env.pop(cell))


@consumer("find")
def c_find(I, st, it, c):
    f = callable_(I, st, c.args[1])
    cell = ("acc", mk("fnd", str(I.ctx())).id)

    def step(s, x):
        r = truth(I.call_value(s, f, [ref_of(x)], "bool"))
        hit = s.fork(And(s.guard, r))
        hit.env[cell] = x
        return [("hit", hit), (None, s.fork(And(s.guard, Not(r))))]

    res = consume(I, st, it, "find", step)
    return finish(I, st, res, lambda lab, s: some(c.ty, s.env.pop(cell)) if lab == "hit" else none(c.ty))


@consumer("find_map")
def c_findmap(I, st, it, c):
    f = callable_(I, st, c.args[1])
    cell = ("acc", mk("fnm", str(I.ctx())).id)

    def step(s, x):
        r = I.call_value(s, f, [x], c.ty)
        g = leaf_guard(r, lambda y: y.k == "adt" and y.a[1] == 1) if r.k == "dd" else (T if r.k == "adt" and r.a[1] == 1 else F)
        hit = s.fork(And(s.guard, g))
        hit.env[cell] = r
        return [("hit", hit), (None, s.fork(And(s.guard, Not(g))))]

    res = consume(I, st, it, "find", step)
    return finish(I, st, res, lambda lab, s: constrain_deep(s.env.pop(cell), s.guard) if lab == "hit" else none(c.ty))


@consumer("position")
def c_position(I, st, it, c):
    f = callable_(I, st, c.args[1])
    cell = ("acc", mk("pos", str(I.ctx())).id)

    def step(s, x):
        r = truth(I.call_value(s, f, [get(x, (("F", 1, "?"),))], "bool"))
        hit = s.fork(And(s.guard, r))
        hit.env[cell] = get(x, (("F", 0, "?"),))
        return [("hit", hit), (None, s.fork(And(s.guard, Not(r))))]

    res = consume(I, st, mk("it", "enum", (it, F)), "find", step)
    return finish(I, st, res, lambda lab, s: some(c.ty, s.env.pop(cell)) if lab == "hit" else none(c.ty))


@consumer("fold")
def c_fold(I, st, it, c):
    f = callable_(I, st, c.args[2])
    cell = ("acc", mk("fold", str(I.ctx())).id)

    def step(s, x):
        s.env[cell] = I.call_value(s, f, [s.env[cell], x], c.ty)
        return [(None, s)]

    res = consume(I, st, it, "fold", step, [(cell, c.args[1])])
    return finish(I, st, res, lambda lab, s: s.env.pop(cell))


def tried(name, folds):
    @consumer(name)
    def h(I, st, it, c):
        d = I.p.desc(c.ty)
        path = d.get("path", "")
        if not path.endswith(("Result", "Option")):
            return NotImplemented
        good = 0 if path.endswith("Result") else 1
        f = callable_(I, st, c.args[2 if folds else 1])
        cell = ("acc", mk("try", str(I.ctx())).id)

        def step(s, x):
            r = I.call_value(s, f, [s.env[cell], x] if folds else [x], c.ty)
            g = leaf_guard(r, lambda y: y.k == "adt" and y.a[1] == good) if r.k == "dd" else (T if r.k == "adt" and r.a[1] == good else F)
            if any(y is not BOT and y.k != "adt" for y in leaves(r)):
                raise NotIter(it)
            bad = s.fork(And(s.guard, Not(g)))
            bad.env[cell] = constrain(r, Not(g))
            go = s.fork(And(s.guard, g))
            go.env[cell] = get(get(constrain(r, g), (("V", good),)), (("F", 0, "?"),))
            return [("stop", bad), (None, go)]

        res = consume(I, st, it, name, step, [(cell, c.args[1] if folds else Tup(()))])
        return finish(I, st, res, lambda lab, s: s.env.pop(cell) if lab == "stop" else Adt(c.ty, good, (s.env.pop(cell),)))


tried("try_fold", True)
tried("try_for_each", False)


@consumer("sum")
def c_sum(I, st, it, c):
    cell = ("acc", mk("sum", str(I.ctx())).id)
    r = I.p.irange(c.ty)
    if r is None:
        return NotImplemented

    def step(s, x):
        v = smap(lambda a, b: l_add(a, b), s.env[cell], load(I, s, x))
        over = smap(lambda a: i_lt(Int(r[1]), a), v)
        I.oblige(s, "Overflow(Add)", over)
        s.guard = And(s.guard, Not(over))
        s.env[cell] = v
        return [(None, s)]

    res = consume(I, st, it, "sum", step, [(cell, F)])
    return finish(I, st, res, lambda lab, s: s.env.pop(cell))


@consumer("last")
def c_last(I, st, it, c):
    try:
        cnd, x, _ = it_back(I, st, it)
        return option(c.ty, cnd, x)
    except NotIter:
        return NotImplemented


@consumer("nth")
def c_nth(I, st, it, c):
    n = c.args[1]
    if n.k == "int" and n.a[0] <= 16:
        ok = T
        x = BOT
        for _ in range(n.a[0] + 1):
            cn, x, it = it_next(I, st, it)
            ok = And(ok, cn)
        return option(c.ty, ok, x)
    return NotImplemented


def extreme(name):
    @consumer(name)
    def h(I, st, it, c):
        cell = ("acc", mk(name, str(I.ctx())).id)

        def step(s, x):
            v = load(I, s, x)
            old = s.env[cell]
            if not all(is_intleaf(y) for y in leaves(v) if y is not BOT):
                raise NotIter(it)
            first = leaf_guard(old, lambda y: y.k == "adt" and y.a[1] == 0)
            kept = get(get(constrain(old, Not(first)), (("V", 1),)), (("F", 0, "?"),))
            was = load(I, s, kept)
            better = smap(lambda p, q: F if BOT in (p, q) else i_le(q, p) if name == "max" else i_lt(p, q), v, was)
            s.env[cell] = choice(Or(first, better), some(c.ty, x), old)
            return [(None, s)]

        res = consume(I, st, it, name, step, [(cell, none(c.ty))])
        return finish(I, st, res, lambda lab, s: s.env.pop(cell))


extreme("max")
extreme("min")


@consumer("collect")
def c_collect(I, st, it, c):
    return collect(I, st, it, c.ty)


@summary("FromIterator::from_iter", "Extend::extend0")
def s_fromiter(I, st, c):
    try:
        return collect(I, st, to_iter(I, st, c.args[0]), c.ty)
    except NotIter:
        return NotImplemented


def collect(I, st, it, ty):
    d = I.p.desc(ty)
    path = d.get("path")
    cell = ("acc", mk("col", str(I.ctx())).id)
    if path in ("std::vec::Vec", "std::string::String", "std::collections::VecDeque"):
        if path == "std::vec::Vec" and it.k == "it" and (it.a[0] == "own" or (it.a[0] == "copied" and it.a[1][0].k == "it" and it.a[1][0].a[0] == "view")):
            a = it.a[1] if it.a[0] == "own" else it.a[1][0].a[1]
            return seq_of(Slice(*a))

        def step(s, x):
            push_item(I, s, cell, x, path)
            return [(None, s)]

        res = consume(I, st, it, "collect", step, [(cell, Seq())])
        return finish(I, st, res, lambda lab, s: s.env.pop(cell))
    if path in (RESULT, OPTION):
        okv = 0 if path == RESULT else 1
        okty = d["v"][okv]["f"][0][1]
        ip = I.p.desc(okty).get("path")
        if ip not in ("std::vec::Vec", "std::string::String"):
            raise NotIter(it)
        bad = ("acc", mk("colx", str(I.ctx())).id)

        def step(s, x):
            g = leaf_guard(x, lambda y: y.k == "adt" and y.a[1] == okv) if x.k == "dd" else (T if x.k == "adt" and x.a[1] == okv else F)
            s1 = s.fork(And(s.guard, g))
            push_item(I, s1, cell, get(get(x, (("V", okv),)), (("F", 0, "?"),)), ip)
            s2 = s.fork(And(s.guard, Not(g)))
            s2.env[bad] = get(get(x, (("V", 1),)), (("F", 0, "?"),)) if path == RESULT else UNIT
            return [("bad", s2), (None, s1)]

        res = consume(I, st, it, "collect", step, [(cell, Seq())])

        def value(lab, s):
            e = s.env.pop(bad, BOT)
            acc = s.env.pop(cell)
            if lab == "bad":
                return Adt(ty, 1 - okv, (e,) if path == RESULT else ())
            return Adt(ty, okv, (acc,))

        return finish(I, st, res, value)
    raise NotIter(it)


def push_item(I, s, cell, x, path):
    if path == "std::string::String":
        y = load(I, s, x)
        if is_int(y):
            s.env[cell] = concat(s.env[cell], guarded_segs(y, lambda z: (char_seg(z),)) if y.k == "dd" and len(leaves(y)) <= 8 else (char_seg(y),))
        else:
            s.env[cell] = concat(s.env[cell], guarded_segs(viewof(I, s, y), segs_of_view))
    else:
        s.env[cell] = seq_push(s.env[cell], El(T, x))


@summary("Extend::extend")
def s_extend(I, st, c):
    ref = c.args[0]
    it = to_iter(I, st, c.args[1])
    ty = None
    text = "String" in c.path
    if it.k == "it" and not text:
        a = None
        if it.a[0] == "own":
            a = it.a[1]
        elif it.a[0] == "copied" and it.a[1][0].k == "it" and it.a[1][0].a[0] == "view":
            a = it.a[1][0].a[1]
        elif it.a[0] == "view":
            b = it.a[1][0]
            if "Extend<&" in c.path:
                a = it.a[1]
        if a is not None:
            update(I, st, ref, lambda o: concat(o, segs_of_view(Slice(*a))))
            return UNIT
    if ref.k != "mref":
        return NotImplemented

    def step(s, x):
        if text:
            cell = ("acc", "tmp")
            s.env[cell] = Seq()
            push_item(I, s, cell, x, "std::string::String")
            segs = s.env.pop(cell).a[0]
            update(I, s, ref, lambda o: concat(o, segs))
        else:
            y = load(I, s, x) if "Extend<&" in c.path else x
            update(I, s, ref, lambda o: seq_push(o, El(T, y)))
        return [(None, s)]

    saved = st.fork(st.guard)
    try:
        res = consume(I, st, it, "extend", step)
    except NotIter:
        st.guard, st.env = saved.guard, saved.env
        m = re.match(r"<(std::vec::Vec<.*?>) as ", c.path)
        src = it
        while src.k == "it" and src.a[0] in ("copied", "cloned"):
            src = src.a[1][0]
        if text or not m or src.k != "app":
            return NotImplemented
        # what an unknown iterator gives, as a list
        got = I.p.opaque("call:Iterator::collect", (I.snapshot(st, it),), m.group(1))
        update(I, st, ref, lambda o: concat(o, segs_of_view(Slice(got, F, length_of(viewof(I, st, got))))))
        return UNIT
    return finish(I, st, res, lambda lab, s: UNIT)


# ------------------------------------------------------------------ formatting


def template(bs):
    """The pieces of a compiled format string: text, or (argument, options)."""
    out = []
    i = 0
    arg = 0
    while i < len(bs):
        n = bs[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(bytes(bs[i:i + n]).decode())
            i += n
        elif n == 0x80:
            m = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(bytes(bs[i:i + m]).decode())
            i += m
        else:
            flags = width = prec = None
            if n != 0xC0:
                if n & 1:
                    flags = int.from_bytes(bytes(bs[i:i + 4]), "little")
                    i += 4
                if n & 2:
                    width = bs[i] | bs[i + 1] << 8
                    i += 2
                    if n & 16:
                        width = ("arg", width)
                if n & 4:
                    prec = bs[i] | bs[i + 1] << 8
                    i += 2
                    if n & 32:
                        prec = ("arg", prec)
                if n & 8:
                    arg = bs[i] | bs[i + 1] << 8
                    i += 2
            opts = None if flags is None and width is None and prec is None else (flags, width, prec)
            out.append((arg, opts))
            arg += 1
    return out


@summary("Arguments::new")
def s_argnew(I, st, c):
    t = load(I, st, c.args[0])
    args = load(I, st, c.args[1])
    if t.k != "arr" or args.k not in ("arr",):
        return NotImplemented
    pieces = template([x.a[0] for x in t.a[0]])
    segs = []
    for p in pieces:
        if isinstance(p, str):
            segs.append(El(T, Str(p)))
            continue
        i, opts = p
        a = args.a[0][i]
        if opts is not None:
            fl, w, pr = opts
            if isinstance(w, tuple):
                w = args.a[0][w[1]].a[1]
            if isinstance(pr, tuple):
                pr = args.a[0][pr[1]].a[1]
            opts = mk("opts", *[x if x is not None else "-" for x in (fl, w, pr)])
        kind, val, ty = a.a
        segs += display_segs(I, st, val, ty, kind, opts)
    return Seq(segs)


@summary("Arguments::from_str", "Arguments::from_str_nonconst", "Arguments::new_const")
def s_argstr(I, st, c):
    return Seq(guarded_segs(viewof(I, st, c.args[0]), segs_of_view))


@summary("Argument::new_display", "Argument::new_debug", "Argument::new_upper_hex", "Argument::new_lower_hex", "Argument::new_binary", "Argument::new_octal", "Argument::from_usize")
def s_argument(I, st, c):
    kind = c.path.split("::")[-1].replace("new_", "")
    if kind == "from_usize":
        n = load(I, st, c.args[0])
        I.oblige(st, "width or precision out of range", smap(lambda x: Not(le0(l_add(x, Int(-65535)))) if is_intleaf(x) else F, n))
        return mk("farg", kind, n, "usize")
    ty = ((c.callee or {}).get("g") or ["?"])[0]
    return mk("farg", kind, c.args[0], ty)


def peel(ty):
    while ty.startswith("&"):
        ty = re.sub(r"^&('\w+ )?(mut )?", "", ty)
    return ty


def display_segs(I, st, v, ty, kind, opts):
    """The text a value is formatted to."""
    ty = peel(ty or "?")
    x = load(I, st, v)
    if kind == "debug":
        return [El(T, mk("pc", "debug", snap(I, st, x), opts))]
    tr = {"display": "Display", "upper_hex": "UpperHex", "lower_hex": "LowerHex"}.get(kind, "?")
    name = "<%s as std::fmt::%s>::fmt" % (ty, tr)
    f = I.p.fns.get(name)
    if f is None:
        m = re.match(r"std::boxed::Box<(.*)>$", ty)
        if m:
            return display_segs(I, st, x, m.group(1), kind, opts)
    if f is not None and f["local"]:
        cell = ("fmt", mk("fmtc", str(I.ctx()), name).id)
        n = 0
        while cell in st.env:
            n += 1
            cell = ("fmt", mk("fmtc", str(I.ctx()), name, n).id)
        st.env[cell] = Seq()
        I.ctxpath.append("fmt:%s:%d" % (ty, n))
        I.call_fn(st, name, [ref_of(x), mk("mref", cell, ())], f["locals"][0], {"path": name})
        I.ctxpath.pop()
        s = st.env.pop(cell, Seq())
        if opts is not None:
            return [El(T, mk("pc", "pad", s, opts))] if PADS.get(name) else list(s.a[0])
        return list(s.a[0]) if s.k == "seq" else [mk("span", T, view_of(s))]
    if ty == "char" and kind == "display":
        if opts is not None:
            return [El(T, mk("pc", "char", x, opts))]
        return list(guarded_segs(x, lambda y: (char_seg(y),)))
    if ty == "bool" and kind == "display" and opts is None:
        return list(guarded_segs(smap(x, lambda y: Str("true") if y is T else Str("false") if y is F else y), segs_of_view)) if all(y in (T, F, BOT) for y in leaves(x)) else [El(T, mk("pc", "bool", x, None))]
    if kind == "binary" and opts is not None and ty == "u8" and is_int(x) and opts.a[1] == 8 and (opts.a[0] != "-" and opts.a[0] >> 24 & 1) and opts.a[2] == "-":
        # exactly eight digits
        out = []
        for n in range(7, -1, -1):
            one = smap(lambda y: y if y is BOT else smap(lambda z: Not(i_eq(z, F)), bitop("BitAnd", y, Int(1 << n), 0, 255)), x)
            out += [El(one, Str("1")), El(Not(one), Str("0"))]
        return out
    if x.k == "dd" and kind == "display" and all(y is BOT or y.k in ("str", "slice", "seq") for y in leaves(x)):
        return list(guarded_segs(x, lambda y: disp1(y, kind, opts)))
    if x.k == "mslice":
        x = I.mslice_view(st, x)
    return disp1(x, kind, opts)


PADS = {}


def snap(I, st, v):
    return v


def disp1(x, kind, opts):
    if kind == "display" and opts is None:
        if x.k in ("str", "slice"):
            return list(segs_of_view(x))
        if x.k == "seq":
            return list(x.a[0])
        if x.k == "int":
            return [El(T, mk("pc", "display", x, None))]
    return [El(T, mk("pc", kind, x, opts))]


@summary("fmt::format", "format::format", "fmt::format_inner")
def s_format(I, st, c):
    v = load(I, st, c.args[0])
    return v


OKFMT = lambda ty: Adt(ty, 0, (UNIT,))


def fmt_sink(I, st, v):
    while v.k in ("sref",):
        v = v.a[0]
    while v.k == "mref":
        w = get(st.env.get(v.a[0], BOT), v.a[1])
        if w.k != "mref":
            return v
        v = w
    return v


@summary("Formatter::write_str", "Write::write_str", "Formatter::pad")
def s_writestr(I, st, c):
    segs = guarded_segs(viewof(I, st, c.args[1]), segs_of_view)
    update(I, st, fmt_sink(I, st, c.args[0]), lambda o: concat(o, segs))
    return OKFMT(c.ty)


@summary("Formatter::write_fmt", "Write::write_fmt")
def s_writefmt(I, st, c):
    a = load(I, st, c.args[1])
    segs = guarded_segs(a, lambda x: x.a[0])
    sink = fmt_sink(I, st, c.args[0])
    if sink.k == "mref" and get(st.env.get(sink.a[0], BOT), sink.a[1]).k in ("seq", "dd"):
        update(I, st, sink, lambda o: concat(o, segs))
    else:
        out_text(I, st, segs)
    return OKFMT(c.ty)


@summary("Formatter::write_char", "Write::write_char")
def s_writechar(I, st, c):
    v = c.args[1]
    update(I, st, fmt_sink(I, st, c.args[0]), lambda o: concat(o, guarded_segs(v, lambda x: (char_seg(x),))))
    return OKFMT(c.ty)


@summary("Display::fmt")
def s_dispfmt(I, st, c):
    if c.name in I.p.fns and I.p.fns[c.name]["local"]:
        return NotImplemented
    ty = impl_self(c) or "?"
    m = re.search(r"Display for (.*?)>::fmt", c.name)
    if m:
        ty = m.group(1)
    segs = display_segs(I, st, c.args[0], ty, "display", None)
    update(I, st, fmt_sink(I, st, c.args[1]), lambda o: concat(o, segs))
    return OKFMT(c.ty)


def s_debugfmt(I, st, c):
    snaps = tuple(load(I, st, a) for a in c.args[1:])
    seg = El(T, mk("pc", "debugfmt", Tup(snaps), None))
    update(I, st, fmt_sink(I, st, c.args[0]), lambda o: concat(o, (seg,)))
    return OKFMT(c.ty)


for _n in ("debug_c_like_enum_write_str debug_struct_field1_finish debug_struct_field2_finish debug_struct_field3_finish debug_struct_field4_finish "
           "debug_struct_field5_finish debug_struct_fields_finish debug_tuple_field1_finish debug_tuple_field2_finish debug_tuple_fields_finish").split():
    S["Formatter::" + _n] = s_debugfmt


@summary("Debug::fmt", "UpperHex::fmt", "LowerHex::fmt")
def s_debug(I, st, c):
    if c.name in I.p.fns:
        return NotImplemented
    seg = El(T, mk("pc", key_of(c.path), load(I, st, c.args[0]), None))
    update(I, st, fmt_sink(I, st, c.args[1]), lambda o: concat(o, (seg,)))
    return OKFMT(c.ty)


# ------------------------------------------------------------------ output


def out_text(I, st, segs):
    seq = st.env.get(OUT, Seq())
    for s in segs:
        seq = seq_push(seq, s)
    st.env[OUT] = seq


@summary("io::_print", "stdio::_print")
def s_print(I, st, c):
    v = load(I, st, c.args[0])
    out_text(I, st, guarded_segs(v, lambda x: x.a[0]))
    return UNIT


@summary("io::_eprint", "stdio::_eprint")
def s_eprint(I, st, c):
    v = load(I, st, c.args[0])
    I.emit(st, "eprint", v)
    return UNIT


NOSPEC = None


@summary("ColorSpec::new", "ColorSpec::default")
def s_cs(I, st, c):
    return Tup((mk("ev", "none"), F, F))


def spec_set(i):
    def h(I, st, c):
        ref = c.args[0]
        x = c.args[1]
        def f(o):
            if o.k != "tup":
                return o
            fs = list(o.a[0])
            fs[i] = x
            return Tup(fs)
        update(I, st, ref, f)
        return ref
    return h


S["ColorSpec::set_fg"] = spec_set(0)
S["ColorSpec::set_bold"] = spec_set(1)


def spec_other(I, st, c):
    def f(o):
        if o.k != "tup":
            return o
        fs = list(o.a[0])
        fs[2] = mk("ev", key_of(c.path), fs[2], *c.args[1:])
        return Tup(fs)
    update(I, st, c.args[0], f)
    return c.args[0]


for _n in "set_bg set_underline set_intense set_dimmed set_italic set_reset set_strikethrough".split():
    S["ColorSpec::" + _n] = spec_other


@summary("StandardStream::stdout", "StandardStream::stderr")
def s_stdout(I, st, c):
    return App("stream", (c.path.split("::")[-1], c.args[0]), "termcolor::StandardStream")


@summary("WriteColor::set_color")
def s_setcolor(I, st, c):
    I.emit(st, "color", load(I, st, c.args[1]))
    return Adt(c.ty, 0, (UNIT,))


@summary("WriteColor::reset")
def s_reset(I, st, c):
    I.emit(st, "reset")
    return Adt(c.ty, 0, (UNIT,))


@summary("io::Write::flush", "Write::flush")
def s_flush(I, st, c):
    return Adt(c.ty, 0, (UNIT,))


@summary("io::stdout", "stdio::stdout")
def s_iostdout(I, st, c):
    return App("stdout", (), c.ty)


@summary("mem::swap", "mem::replace", "mem::take")
def s_mem(I, st, c):
    m = c.path.split("::")[-1]
    if m == "take":
        old = load1(I, st, c.args[0])
        if old.k == "seq":
            setref(I, st, c.args[0], Seq())
            return old
        d = I.p.desc(c.ty)
        if d.get("path") == OPTION:
            setref(I, st, c.args[0], none(c.ty))
            return old
        if I.p.irange(c.ty) is not None:
            setref(I, st, c.args[0], F)
            return old
        return NotImplemented
    if m == "replace":
        old = load1(I, st, c.args[0])
        setref(I, st, c.args[0], c.args[1])
        return old
    a, b = load1(I, st, c.args[0]), load1(I, st, c.args[1])
    setref(I, st, c.args[0], b)
    setref(I, st, c.args[1], a)
    return UNIT


# calls into other crates: what they return depends on their arguments only


def pure(I, st, c):
    return I.p.opaque("call:" + key_of(c.path), tuple(I.snapshot(st, load(I, st, a)) for a in c.args), c.ty)


@summary("atty::is")
def s_atty(I, st, c):
    return lit(App("tty", (load(I, st, c.args[0]),), BOOL), 2)


@summary("slice::join", "slice::concat", "Join::join", "Concat::concat")
def s_joined(I, st, c):
    """The text of several with a separator between them."""
    v = viewof(I, st, c.args[0])
    if not str(c.ty).endswith("String"):
        return NotImplemented
    sep = viewof(I, st, c.args[1]) if len(c.args) > 1 else Str("")
    acc = ("acc", mk("col", str(I.ctx())).id)
    first = ("acc", mk("colx", str(I.ctx())).id)

    def step(s, x):
        g = s.env[first]
        s.env[acc] = concat(s.env[acc], tuple(guard_seg(Not(g), y) for y in segs_of_view(sep)))
        s.env[first] = F
        push_item(I, s, acc, x, "std::string::String")
        return [(None, s)]

    def value(lab, s):
        s.env.pop(first, None)
        return s.env.pop(acc)

    try:
        it = to_iter(I, st, mk("sref", v))
        res = consume(I, st, it, "collect", step, [(acc, Seq()), (first, T)])
    except NotIter:
        return NotImplemented
    return finish(I, st, res, value)
