"""C02: parsing, processing, sorting and display always terminate."""
import os
import re
from engine import vals
from engine.program import Cfg
from engine.std import key_of as library_key
from . import c01
from .c01 import FREE, arguments, concrete, count_iterations, describe_cube, entries, know_spans, workers
from .effects import Graph
from .rank import control, measures, never, rank, stuck
from .show import *

RULE = ("Every loop in the compiler's representation of the functions that can run is enumerated. A loop is finite if each iteration takes an "
        "element from an iterator that has finitely many and that the loop doesn't replace; otherwise the summary of its iterations must "
        "have a ranking function: a value that strictly moves towards a bound that the loop doesn't change (also for library calls that use up "
        "an iterator without an end). An iteration that leaves everything unchanged that the loop depends on is a violation. Every cycle of "
        "calls must pass on a proper part of one of its arguments, or a number that strictly moves towards a constant bound; a cycle over "
        "encoded data must have such a bound, because its depth is the input's otherwise.")
TECHNIQUE = "ranking functions of the loops' summaries, checked by linear arithmetic; size-change analysis of the call graph's cycles over MIR"
ASSUMPTIONS = [
    "library functions return if the iterators and closures that they're given are finite and return",
]

MAX_DEPTH = 4096
ENDLESS = re.compile(r"\b(RangeFrom|Successors|Repeat|RepeatWith|FromFn|Cycle)<|\bRangeFrom\b|iter::(Repeat|Successors|Cycle)")
CONSUMERS = {"count", "any", "all", "for_each", "fold", "collect", "sum", "product", "last", "max", "min", "max_by_key", "min_by_key", "find",
             "find_map", "position", "nth", "partition", "unzip", "extend", "try_fold", "try_for_each", "eq", "cmp", "reduce"}


# ------------------------------------------------------------------ loops


def split_args(t):
    m = re.match(r"^&?(?:mut )?([\w:]+)<(.*)>$", t)
    if not m:
        return t, []
    out, depth, cur = [], 0, ""
    for ch in m.group(2):
        if ch in "<([{":
            depth += 1
        elif ch in ">)]}":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return m.group(1), out


def endless(p, t, depth=0):
    """Whether an iterator of this type may have no end (or is one of the crate's own)."""
    t = t.strip()
    while t.startswith("&"):
        t = re.sub(r"^&(mut )?('\w+ )?", "", t)
    name, args = split_args(t)
    last = name.split("::")[-1]
    if any(f.startswith("<%s as std::iter::Iterator>::next" % t) for f in p.fns if p.fns[f]["local"]):
        return True
    if last in ("Take", "TakeWhile") and last == "Take":
        return False
    if last == "Zip" and len(args) == 2:
        return endless(p, args[0], depth + 1) and endless(p, args[1], depth + 1)
    if last in ("RangeFrom", "Successors", "Repeat", "RepeatWith", "FromFn", "Cycle", "Lines", "Incoming", "Bytes") and "str" not in name:
        return True
    if "std::iter" in name or last in ("Map", "Filter", "Enumerate", "Rev", "Peekable", "Skip", "StepBy", "Fuse", "Chain", "Inspect", "Copied", "Cloned", "FilterMap", "FlatMap", "Flatten", "Scan", "TakeWhile", "MapWhile", "SkipWhile"):
        return any(endless(p, a, depth + 1) for a in args if not a.startswith("Closure"))
    if "dyn " in t or name.startswith("impl"):
        return True
    return False


def assigned(stmts, term, local):
    """Whether a block replaces a local as a whole."""
    for s in stmts:
        if s[0] == "=" and s[1] == [local]:
            return True
    return term[0] == "call" and len(term) > 3 and term[3] == [local]


def iterates(p, f, d, cfg, h, body):
    """Whether every iteration takes an element of one iterator that ends."""
    defs = {}
    for b in body:
        for s in d["blocks"][b][0]:
            if s[0] == "=" and len(s[1]) == 1:
                defs.setdefault(s[1][0], []).append(s[2])

    def source(o, n=0):
        """The local that a `&mut` operand points to."""
        if o[0] not in ("c", "m") or n > 8:
            return None
        l = o[1]
        if len(l) > 1 and l[1:] != ["*"]:
            return None
        rs = defs.get(l[0])
        if rs is None:
            return l[0]     # a reference from outside of the loop
        if len(rs) != 1:
            return None
        r = rs[0]
        if r[0] == "use":
            return source(r[1], n + 1)
        if r[0] == "ref":
            pl = r[1]
            if len(pl) == 1:
                return pl[0]
            if pl[1:] == ["*"]:
                return source(["c", [pl[0]]], n + 1)
        return None
    latches = [b for b in body if h in cfg.succ[b]]
    for b in body:
        t = d["blocks"][b][1]
        if t[0] != "call" or not isinstance(t[1], dict) or not re.search(r"Iterator(?: for .*)?>?::next(_back)?$", t[1].get("path") or t[1]["fn"]):
            continue
        if not all(cfg.dominates(b, l) for l in latches):
            continue
        x = source(t[2][0])
        if x is None or any(assigned(d["blocks"][c][0], d["blocks"][c][1], x) for c in body):
            continue
        if endless(p, d["locals"][x]):
            continue
        # the loop must be left when there is none: the result decides a switch in the loop that leaves it
        return True
    return False


def leaves_on_none(d, cfg, body, b):
    return True


# ------------------------------------------------------------------ in the workers


JOB = {}


def text_of(q):
    return "%s from %s to %s" % (q.name or show(q.phi, 2), show(q.init, 2)[:80], show(q.back, 2)[:160])


def work(item):
    ctx, opaque = JOB["ctx"], JOB["opaque"]
    root, args = item
    p = ctx.p
    done = None
    for _ in range(4):
        root, out, analysed, err, calls = summarised(ctx, opaque, root, args)
        if done is not None:
            analysed |= done[2]
            if err or len(out) < len(done[1]):
                # it can't be looked into: what's shown depends on a result that isn't known
                return root, [(*r[:4], None, *r[5:]) if r[6] else r for r in done[1]], analysed, None
        done = root, out, analysed, err
        inner = {h for h in calls if h in p.fns} - {root}
        if not inner:
            break
        opaque = {h: v for h, v in opaque.items() if h not in inner}
    else:
        done = root, [(*r[:4], None, *r[5:]) if r[6] else r for r in done[1]], done[2], done[3]
    return done


def summarised(ctx, opaque, root, args):
    p = ctx.p
    sub = type(ctx)(ctx.id, p, ctx.tier, ctx.seed)
    sub.err_ty = ctx.err_ty
    out, inner = [], set()
    try:
        vals.coarse(COARSE and is_display(root))
        try:
            I = sub.run(root, args, opaque={h: v for h, v in opaque.items() if h != root}, limit=100).I
        except Undecided as e:
            if e.I is None:
                raise
            I = e.I
        finally:
            vals.coarse(False)
        know_spans(sub, I, p)
        settled = False
        for rec in I.loops:
            k, found, calls = None, None, set()
            try:
                k = rank(I, rec)
                if k is None and not settled:
                    settled = True
                    try:
                        with seconds(40):
                            I.ensure_invariants()
                    except Timeout:
                        pass
                    k = rank(I, rec)
                if k is None:
                    cube = hang(sub, I, rec)
                    if cube is not None:
                        found = describe_cube(cube) or "always"
                        calls = {c.a[0][5:].split("@")[0] for x, _ in cube for c in apps(x) | {x} if c.a[0].startswith("call:")} & set(opaque) - FREE
                        inner |= calls
            except (Undecided, Timeout):
                pass
            out.append((rec.fn, str(rec.header), rec.loc, k.what if k else None, found, [text_of(q) for q in rec.phis if q.mode not in ("seq", "map")][:4], calls))
        return root, out, set(I.analysed), None, inner
    except Undecided as e:
        return root, out, sub.analysed, str(e), inner
    except Exception as e:
        if os.environ.get("PEMV_TRACE"):
            raise
        return root, out, sub.analysed, "%s: %s" % (type(e).__name__, e), inner


def hang(ctx, I, rec):
    """An input for which an iteration changes nothing that the loop depends on."""
    with seconds(20):
        cube = halted(ctx, I, rec)
    if cube is not None:
        return cube
    g = stuck(I, rec)
    if g is None or g is F:
        return None
    cube = cube_of(ctx, I, g, 20000)
    if cube is None:
        return None
    if not tainted(g):
        return cube
    with seconds(15):
        return concrete(ctx, I, g)


def halted(ctx, I, rec):
    """An input for which the iterations reach a state, of constants, that doesn't change any more."""
    qs = control(rec)
    if not qs or any(q.mode in ("seq", "map") for q in qs):
        return None
    step = {}
    for q in qs:
        bind(q.phi, q.init, step)
    g = rec.entry_guard
    for _ in range(400):
        if any(v.k != "int" and not (v.k == "adt" and not v.a[2]) for v in step.values()):
            return None
        g = And(g, subst(rec.back_guard, step))
        if g is F:
            return None
        new = {}
        for q in qs:
            bind(q.phi, subst(q.back, step), new)
        moved = {k for k in new if new[k] is not step.get(k)}
        if all(k.k == "app" and lrange(k)[1] >= 2**64 - 1 and new[k].k == "int" and 0 < new[k].a[0] - step[k].a[0] <= 16 for k in moved):
            # nothing but counters, whose only end may be that they can't count any further
            for far in (2**10, 2**16, 2**20, 2**32 - 1, 2**32, 2**40, 2**62):
                g = And(g, subst(rec.back_guard, {k: Int(step[k].a[0] + far * (new[k].a[0] - step[k].a[0])) if k in moved and far * (new[k].a[0] - step[k].a[0]) < 2**63 else v for k, v in step.items()}))
            if not tainted(g):
                return cube_of(ctx, I, g, 20000)
            return None
        step = new
    return None


def loops(ctx, p, g, opaque):
    need, finite = {}, 0
    for f in sorted(g.reached):
        d = p.fns[f]
        cfg = Cfg(d)
        for h, body in sorted(cfg.loops.items()):
            ctx.count("loops")
            ctx.count("obligations")
            if iterates(p, f, d, cfg, h, body):
                finite += 1
                continue
            need[(f, "L%d" % h)] = d["blocks"][h][2]
        # what library functions use up
        for _, t, loc in d["blocks"]:
            if t[0] == "call" and isinstance(t[1], dict) and t[2]:
                last = (t[1].get("path") or t[1]["fn"]).split("::")[-1]
                if last in CONSUMERS and t[1].get("g") and isinstance(t[1]["g"][0], str) and endless(p, t[1]["g"][0]):
                    ctx.count("obligations")
                    need[(f, last)] = loc
    ctx.count("loops over an iterator that ends", finite)
    if not need:
        return
    roots = ["main" if "main" in p.fns else p.entry] + sorted(h for h in opaque if h in p.fns)
    jobs = [(r, arguments(p, r)) for r in roots]
    recs, seen, errors = {}, set(), {}
    for _ in range(3):
        with workers() as pool:
            for root, out, analysed, err in pool.imap_unordered(work, jobs):
                seen |= analysed
                if err:
                    errors[root] = err
                for fn, header, loc, what, found, phis, _ in out:
                    m = re.match(r"L\d+", header)
                    recs.setdefault((fn, m.group(0) if m else header), []).append((root, loc, what, found, phis))
        ctx.analysed |= seen
        jobs = sorted({(f, tuple(arguments(p, f))) for f, _ in need if f not in seen and f not in opaque})
        jobs = [(f, list(a)) for f, a in jobs]
        if not jobs:
            break
    for (f, h), loc in sorted(need.items()):
        rs = recs.get((f, h))
        key = "%s:%s" % (f, h)
        if rs is None:
            if f not in seen:
                ctx.undecided(key, "the loop at %s wasn't analysed" % loc)
            elif any(f in str(e) for e in errors.values()):
                ctx.undecided(key, "the loop at %s" % loc)
            continue
        ctx.sample({"loop": "%s (%s)" % (f, loc), "ranking": sorted({w for _, _, w, _, _ in rs if w})})
        for root, l, what, found, phis in rs:
            if what is None and found:
                ctx.violation(key, "the loop at %s in %s can go on forever" % (loc, f), "if %s, an iteration changes nothing that the loop depends on: %s" % (found, "; ".join(phis)))
                break
        else:
            if any(what is None for _, _, what, _, _ in rs):
                ctx.undecided(key, "no ranking function for the loop at %s: %s" % (loc, "; ".join(next(ph for _, _, w, _, ph in rs if w is None))))
    # loops of other records that aren't in the compiler's representation are the library's, of finite iterators


# ------------------------------------------------------------------ recursion


TRAITS = (("new_display", "std::fmt::Display", "fmt"), ("to_string", "std::fmt::Display", "fmt"), ("new_debug", "std::fmt::Debug", "fmt"),
          ("clone", "std::clone::Clone", "clone"), ("to_vec", "std::clone::Clone", "clone"), ("to_owned", "std::clone::Clone", "clone"),
          ("eq", "std::cmp::PartialEq", "eq"), ("ne", "std::cmp::PartialEq", "eq"), ("cmp", "std::cmp::Ord", "cmp"), ("sort", "std::cmp::Ord", "cmp"),
          ("sort_unstable", "std::cmp::Ord", "cmp"), ("partial_cmp", "std::cmp::PartialOrd", "partial_cmp"), ("hash", "std::hash::Hash", "hash"))
INDEXING = re.compile(r"::(index|index_mut|get|get_mut|split_at|split_first|split_last|first|last|next|next_back|nth|iter|iter_mut|into_iter|chunks)$")


class Calls:
    """The calls of one function, with where their arguments come from."""

    def __init__(self, p, f, g):
        self.p, self.f, self.d = p, f, p.fns[f]
        self.defs = {}
        for i, (stmts, term, _) in enumerate(self.d["blocks"]):
            for s in stmts:
                if s[0] == "=":
                    self.defs.setdefault(s[1][0], []).append((s[1][1:], s[2]))
            if term[0] == "call" and len(term) > 3 and isinstance(term[3], list):
                self.defs.setdefault(term[3][0], []).append((term[3][1:], ("call", term)))
        self.memo = {}

    def of(self, l, stack=()):
        """{(parameter, 1 if it's a proper part)} that a local holds; None if unknown."""
        if 1 <= l <= self.d["argc"] and l not in self.defs:
            return {(l - 1, 0)}
        if l in self.memo:
            return self.memo[l]
        if l in stack:
            return set()
        out = set()
        if 1 <= l <= self.d["argc"]:
            out.add((l - 1, 0))
        for proj, r in self.defs.get(l, ()):
            x = self.rvalue(r, (*stack, l))
            if x is None:
                out = None
                break
            out |= x
        if not stack:
            self.memo[l] = out
        return out

    def operand(self, o, stack=()):
        if o[0] == "k":
            return set()
        pl = o[1]
        x = self.of(pl[0], stack)
        if x is None:
            return None
        part = any(isinstance(e, list) and e[0] in ("f", "i", "ci", "sub") and not self.wrapper(pl[0]) for e in pl[1:])
        return {(a, max(s, int(part))) for a, s in x}

    def wrapper(self, l):
        """A type whose content isn't a smaller part: what iterators return, closures' captures, and boxes."""
        t = self.d["locals"][l]
        return t.startswith(("std::option::Option<", "std::ops::ControlFlow<", "std::result::Result<")) or "{closure" in t or "Closure" in t

    def rvalue(self, r, stack):
        if r[0] == "call":
            t = r[1]
            xs = [self.operand(o, stack) for o in t[2]]
            if any(x is None for x in xs):
                return None
            path = (t[1].get("path") or t[1]["fn"]) if isinstance(t[1], dict) else ""
            if isinstance(t[1], dict) and t[1]["fn"] in self.p.fns and self.p.fns[t[1]["fn"]]["local"]:
                xs = [x for x in xs if x]
                return None if xs else set()
            out = set().union(*xs) if xs else set()
            if path.split("::")[-1] in ("next", "next_back", "nth", "pop", "first", "last") and "Iterator" in path:
                out = {(a, 1) for a, s in out}
            return out
        if r[0] in ("use", "un"):
            return self.operand(r[1] if r[0] == "use" else r[2], stack)
        if r[0] in ("ref", "addr"):
            return self.operand(["c", r[1]], stack)
        if r[0] == "cast":
            return self.operand(next(o for o in r[1:] if isinstance(o, list) and o and o[0] in ("c", "m", "k")), stack)
        if r[0] in ("discr", "len"):
            return set()
        if r[0] in ("bin", "chk"):
            xs = [self.operand(o, stack) for o in r[1:] if isinstance(o, list) and o and o[0] in ("c", "m", "k")]
            return set() if all(x == set() for x in xs) else None
        if r[0] == "agg":
            xs = [self.operand(o, stack) for o in r[2]]
            if any(x is None for x in xs):
                return None
            live = [x for x in xs if x]
            return set().union(*live) if len(live) <= 1 else None
        return None


def edges(p, g, f):
    """[(callee, [origins of its arguments] or None, location)]"""
    c = Calls(p, f, g)
    out = []
    for stmts, t, loc in p.fns[f]["blocks"]:
        if t[0] == "drop" or t[0] != "call" or not isinstance(t[1], dict):
            continue
        name = t[1]["fn"]
        xs = [c.operand(o) for o in t[2]]
        targets = []
        if t[1].get("virt") is not None:
            m = re.search(r"dyn ([\w:]+)", str(t[1].get("g")))
            targets = [v[str(t[1]["virt"])] for k, v in p.vtables.items() if m and k.startswith(m.group(1) + "|") and not k.split("|", 1)[1].startswith("dyn ") and isinstance(v.get(str(t[1]["virt"])), str)]
        elif name in p.fns:
            targets = [name]
        else:
            last = re.sub(r"::<.*", "", name).split("::")[-1]
            for w, trait, method in TRAITS:
                if last == w:
                    for ty in set(re.findall(r"(?<![\w:])(?:\w+::)+\w+(?:<'_>)?", name + str(t[1].get("g")))):
                        h = "<%s as %s>::%s" % (ty, trait, method)
                        if h in p.fns:
                            targets.append(h)
        for h in targets:
            out.append((h, xs, loc))
        for i, o in enumerate(t[2]):
            if o[0] in ("c", "m"):
                ty = c.d["locals"][o[1][0]]
                tt = p.types.get(ty)
                if tt and tt["k"] == "closure":
                    others = [x for j, x in enumerate(xs) if j != i]
                    merged = None if any(x is None for x in others) else {(a, 1 if "Iterator" in (t[1].get("path") or "") else s) for x in others for a, s in x}
                    for h in (tt["fn"] if isinstance(tt["fn"], list) else [tt["fn"]]):
                        if h in p.fns:
                            out.append((h, [xs[i]] + [merged] * (p.fns[h]["argc"] - 1), loc))
    return out


def components(graph):
    """Strongly connected components with a cycle."""
    index, low, on, stack, out, n = {}, {}, set(), [], [], [0]
    for s in graph:
        if s in index:
            continue
        work = [(s, iter(graph[s]))]
        index[s] = low[s] = n[0]
        n[0] += 1
        stack.append(s)
        on.add(s)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in graph:
                    continue
                if w not in index:
                    index[w] = low[w] = n[0]
                    n[0] += 1
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(graph[w])))
                    break
                if w in on:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == index[v]:
                    comp = set()
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        comp.add(w)
                        if w == v:
                            break
                    if len(comp) > 1 or v in graph[v]:
                        out.append(comp)
    return out


def size_change(graph):
    """[(edges) of cycles that pass on no proper part]: composes the calls until nothing new appears."""
    # a composition: (from, to, frozenset of (parameter, parameter, proper))
    def norm(xs):
        out = {}
        for a, b, s in xs:
            out[(a, b)] = min(s, out.get((a, b), 1))
        return frozenset((a, b, s) for (a, b), s in out.items())
    base = set()
    for f, es in graph.items():
        for h, xs, _ in es:
            rel = []
            for j, x in enumerate(xs or ()):
                if x and len({a for a, _ in x}) == 1:
                    a = next(iter(x))[0]
                    rel.append((a, j, min(s for _, s in x)))
            base.add((f, h, norm(rel)))
    done = set(base)
    todo = list(base)
    while todo and len(done) < 20000:
        f, h, r = todo.pop()
        for f2, h2, r2 in base:
            if f2 != h:
                continue
            c = norm((a, d, max(s, s2)) for a, b, s in r for b2, d, s2 in r2 if b == b2)
            n = (f, h2, c)
            if n not in done:
                done.add(n)
                todo.append(n)
    bad = []
    for f, h, r in done:
        if f != h:
            continue
        twice = norm((a, d, max(s, s2)) for a, b, s in r for b2, d, s2 in r if b == b2)
        if twice != r:
            continue    # only idempotent ones decide
        if not any(a == b and s for a, b, s in r):
            bad.append((f, r))
    return bad


def numbers(v, out, path=""):
    if v is BOT:
        return
    if is_intleaf(v) or (v.k == "dd" and all(is_intleaf(x) for x in leaves(v) if x is not BOT)):
        out[path] = v
    elif v.k in ("sref", "box"):
        numbers(v.a[0], out, path + "*")
    elif v.k == "tup":
        for i, x in enumerate(v.a[0]):
            numbers(x, out, path + ".%d" % i)
    elif v.k == "adt":
        for i, x in enumerate(v.a[2]):
            numbers(x, out, "%s.%d.%d" % (path, v.a[1], i))


def bounded_depth(ctx, p, opaque, comp, graph):
    """(head, None or why it isn't bounded, whether that's certain) for one component."""
    for head in sorted(comp):
        rest = {f: [h for h, _, _ in graph[f] if h in comp and h != head] for f in comp if f != head}
        if not components(rest):
            break
    else:
        return None, "more than one function that calls itself", False
    o = {h: v for h, v in opaque.items() if h not in comp}
    r = ctx.run(head, arguments(p, head), opaque=o)
    I = r.I
    names = [p.fns[head]["locals"][i + 1] for i in range(p.fns[head]["argc"])]
    start = {}
    args, _ = I.entry_args(head, arguments(p, head))
    for i, a in enumerate(args):
        numbers(a, start, str(i))
    evs = [(vs, g) for _, name, vs, g in I.rec_events if name == head and g is not F]
    if not evs:
        return head, "no call of itself was found", False
    candidates = []
    for k, a in start.items():
        if not is_intleaf(a) or a.k != "app":
            continue
        for up in (True, False):
            good = True
            for vs, g in evs:
                now = {}
                for i, v in enumerate(vs):
                    numbers(v, now, str(i))
                b = now.get(k)
                if b is None:
                    good = False
                    break
                moved = smap(lambda y: T if y is BOT else le0(l_add(l_add(a, T), y, -1) if up else l_add(l_add(y, T), a, -1)), b)
                inside = smap(lambda y: T if y is BOT else le0(l_add(y, Int(-MAX_DEPTH))) if up else le0(l_scale(y, -1)), b)
                if not never(I, g, Not(And(moved, inside))):
                    good = False
                    break
            if good and (up or lrange(a)[1] <= MAX_DEPTH):
                return head, None, True
            candidates.append(good)
    certain = all(cube_of(ctx, I, g, 5000) is not None for _, g in evs)
    return head, "no number that it passes on moves towards a constant bound", certain


def recursion(ctx, p, g, opaque):
    graph = {f: edges(p, g, f) for f in g.reached}
    comps = components({f: [h for h, _, _ in es] for f, es in graph.items()})
    ctx.count("cycles of calls", len(comps))
    for comp in sorted(comps, key=sorted):
        ctx.count("obligations")
        name = sorted(comp, key=lambda f: (not p.fns[f]["local"], f))[0]
        sub = {f: [(h, xs, l) for h, xs, l in graph[f] if h in comp] for f in comp}
        ctx.analysed |= comp
        data = any(isinstance(t, str) and re.match(r"^&(mut )?('\w+ )?(\[u8\]|str|\[char\])$", t) for f in comp for t in p.fns[f]["locals"][1:p.fns[f]["argc"] + 1])
        bad = size_change(sub) if not data else ["data"]
        if not bad:
            ctx.sample({"cycle": sorted(comp), "passes on": "a proper part of an argument"})
            continue
        head = why = None
        with ctx.guardeds("recursion of " + name):
            head, why, certain = bounded_depth(ctx, p, opaque, comp, {f: sub[f] for f in comp})
            if why is None:
                ctx.sample({"cycle": sorted(comp), "passes on": "a bounded depth"})
                continue
            if data and certain:
                ctx.violation("recursion:" + head, "the input can make %s call itself at any depth (%s)" % (head, p.fns[head]["loc"]),
                              "%s; the cycle is %s" % (why, ", ".join(sorted(comp))))
                continue
        same = [f for f, r in bad if r != "data" and p.fns[f]["local"] and len({a for a, b, s in r if a == b}) == p.fns[f]["argc"]] if not data else []
        if same:
            ctx.violation("recursion:" + same[0], "%s calls itself with the same arguments (%s)" % (same[0], p.fns[same[0]]["loc"]), "the cycle is " + ", ".join(sorted(comp)))
        else:
            ctx.undecided("recursion:" + name, "whether the calls of %s end: %s" % (", ".join(sorted(comp))[:300], why))


def check(ctx):
    p = ctx.p
    ctx.err_ty = key_of(p, "error::ParseError")
    g = Graph(p)
    opaque = entries(p, g)
    JOB.update(ctx=ctx, opaque=opaque)
    with ctx.guardeds("loops"):
        loops(ctx, p, g, opaque)
    with ctx.guardeds("recursion"):
        recursion(ctx, p, g, opaque)
