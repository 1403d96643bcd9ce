"""The abstract interpreter over MIR.

One pass over each function's control-flow graph in topological order, merging
values where edges meet.  Loops whose trip count the analysis knows are unrolled;
every other loop is summarised: what it changes is replaced by phi terms, and the
effect of one iteration on them is recorded.
"""
from .vals import *
from .lin import Facts, infeasible, feasible_cube, lit_cons, Budget
from .program import Program, liveness

OUT = ("out",)
UNROLL = 320


_nodes = {}


def nodes_of(v):
    """The size of a diagram."""
    n = _nodes.get(v)
    if n is None:
        seen, todo = {v}, [v]
        while todo:
            for _, c in todo.pop().a[1]:
                if c not in seen:
                    seen.add(c)
                    if c.k == "dd":
                        todo.append(c)
        n = _nodes[v] = len(seen)
    return n


def inside(vs):
    """The mutable references and callables inside of some values."""
    out, seen, todo = [], set(), [v for v in vs][::-1]
    while todo:
        v = todo.pop()
        if isinstance(v, tuple):
            todo.extend(reversed(v))
        elif isinstance(v, V) and v not in seen:
            seen.add(v)
            if v.k in ("mref", "mslice", "clo", "fn"):
                out.append(v)
            todo.extend(reversed(v.a))
    return out


class Env(dict):
    """The values of the cells; `dirty` tells which were written since `base`.

    What the path conditions rewrite (`refine`) still is the value of the base."""
    __slots__ = ("dirty", "base")

    def __init__(self, values, dirty=None, base=None):
        dict.__init__(self, values)
        if base is None:
            base, dirty = dict(values), set()
        self.dirty, self.base = dirty, base

    def __setitem__(self, c, v):
        self.dirty.add(c)
        dict.__setitem__(self, c, v)

    def setdefault(self, c, v):
        if c not in self:
            self[c] = v
        return self[c]

    def refine(self, c, v):
        dict.__setitem__(self, c, v)

    def copy(self):
        return Env(self, set(self.dirty), self.base)

    def narrowed(self, g):
        """The same cells with values simplified for a case; what was written so far stays comparable with the other cases."""
        return Env({c: v if c is OUT or c == OUT else constrain_deep(v, g) for c, v in self.items()}, set(self.dirty), self.base)

    def mapped(self, f):
        """The same cells with simplified values."""
        return Env({c: f(v) for c, v in self.items()}, set(self.dirty), self.base)


class State:
    __slots__ = ("guard", "env")

    def __init__(self, guard, env):
        self.guard = guard
        self.env = env if isinstance(env, Env) else Env(env)

    def fork(self, guard):
        return State(guard, self.env.copy())


class Obligation:
    __slots__ = ("fn", "loc", "kind", "guard", "ctx", "what")

    def __init__(self, fn, loc, kind, guard, ctx, what=""):
        self.fn, self.loc, self.kind, self.guard, self.ctx, self.what = fn, loc, kind, guard, ctx, what


class Phi:
    __slots__ = ("narrow", "cell", "path", "mode", "ty", "phi", "init", "back", "name")


FEW = 8


def few(bound):
    """The greatest trip count of a loop that never runs more than a few times."""
    if bound is None or bound.k not in ("int", "dd", "node"):
        return None
    if any(x.k != "int" for x in leaves(bound)):
        return None
    n = max(x.a[0] for x in leaves(bound))
    return n if n <= FEW else None


class LoopRec:
    __slots__ = ("key", "fn", "header", "guard", "phis", "back_guard", "exits", "ctx", "entry_guard", "trip", "loc", "back_env", "head_env", "ncalls", "bound", "pos", "pred", "split", "peel", "peeled")


class Frame:
    __slots__ = ("fn", "f", "ctx", "cfg", "id")


class Interp:
    def __init__(self, prog, summaries, opaque=None):
        self.p = prog
        self.sums = summaries
        self.opaque_fns = opaque or {}
        self.facts = Facts()
        self.obls = []
        self.loops = []
        self.stack = []
        self.calls = []  # (caller fn, callee, args, guard, loc)
        self.unknown = {}  # callees nothing is known about
        self.rec_events = []
        self.analysed = set()
        self.steps = 0
        self.loc = "?"
        self.inv_done = set()
        self.short = 0  # unrolls loops that end within that many iterations first
        self.plain = False  # ... only if how many there are is constant

    # ------------------------------------------------------------- helpers

    def unk(self, reason, ty, ctx=()):
        a = App("unk", (reason,) + tuple(str(c) for c in ctx), "?")
        return self.p.opaque("unk", (a,), ty)

    def unk_raw(self, reason):
        return App("unk", (reason,), "?")

    def oblige(self, st, kind, fail, what=""):
        g = And(st.guard, fail)
        if g is F:
            return
        fn = loc = None
        for fr_fn, fr_loc in reversed(self.stack):
            if self.p.fns[fr_fn]["local"]:
                fn, loc = fr_fn, fr_loc
                break
        if fn is None:
            fn, loc = self.stack[-1] if self.stack else ("?", "?")
        self.obls.append(Obligation(fn, loc, kind, g, tuple(f for f, _ in self.stack), what))

    def assume(self, st, cond):
        st.guard = And(st.guard, cond)

    def emit(self, st, kind, *args):
        seq = st.env.get(OUT, Seq())
        st.env[OUT] = seq_push(seq, El(T, mk("ev", kind, *args)))

    def ctx(self):
        return tuple(self.ctxpath)

    # ------------------------------------------------------------- entry

    def run(self, fn, args, guard=T, env=None):
        """Analyses `fn` from the given argument values; returns (state, return value)."""
        self.ctxpath = ["run"]
        st = State(guard, dict(env or {}))
        st.env.setdefault(OUT, Seq())
        ret = self.exec_fn(fn, tuple(args), st)
        return st, ret

    def entry_args(self, fn, names=None):
        """Opaque arguments for a function, named by position; returns (args, env)."""
        f = self.p.fns[fn]
        env = {}
        args = []
        for i in range(1, f["argc"] + 1):
            ty = f["locals"][i]
            d = self.p.desc(ty)
            nm = names[i - 1] if names and names[i - 1] is not None else "arg%d" % i
            if isinstance(nm, V):
                args.append(nm)
                continue
            if d["k"] == "ref" and d["mut"]:
                cell = ("in", nm)
                env[cell] = self.p.opaque(nm, (), d["e"])
                args.append(mk("mref", cell, ()))
            else:
                args.append(self.p.opaque(nm, (), ty))
        return args, env

    # ------------------------------------------------------------- functions

    def exec_fn(self, name, args, st):
        p = self.p
        f = p.fns[name]
        self.analysed.add(name)
        fr = Frame()
        fr.fn, fr.f, fr.cfg = name, f, p.cfg(name)
        fr.ctx = self.ctx()
        fr.id = (name,) + fr.ctx
        fid = mk("fid", *[str(x) for x in fr.id]).id
        fr.id = fid
        for i, a in enumerate(args):
            st.env[(fid, i + 1)] = a
        self.stack.append([name, f["loc"]])
        exits = self.region(fr, 0, None, st.fork(st.guard))
        self.stack.pop()
        rets = [s for tgt, s, _ in exits if tgt == "ret"]
        if not rets:
            st.guard = F
            return BOT
        r = join_states(rets)
        ret = r.env.get((fid, 0), UNIT if f["locals"][0] == "()" else BOT)
        st.guard = r.guard
        st.env = Env({c: v for c, v in r.env.items() if c[0] != fid}, r.env.dirty, r.env.base)
        return ret

    def region(self, fr, start, nodes, st, header_loop=None):
        """Executes a region; returns [(target, state, source)] with "ret" for returns."""
        cfg = fr.cfg
        pending = {start: [st]}
        exits = []
        for b in cfg.rpo:
            if nodes is not None and b not in nodes:
                continue
            sts = pending.pop(b, None)
            if not sts:
                continue
            s = join_states(sts)
            if b in cfg.loops and not (b == start and header_loop):
                outs = self.loop(fr, b, s)
            else:
                outs = self.block(fr, b, s)
            for tgt, s2, src in outs:
                if s2.guard is F:
                    continue
                if tgt == "ret" or (nodes is not None and tgt not in nodes) or (header_loop and tgt == start):
                    exits.append((tgt, s2, src))
                else:
                    pending.setdefault(tgt, []).append(s2)
        return exits

    # ------------------------------------------------------------- loops

    def mark(self):
        return len(self.obls), len(self.loops), len(self.calls), len(self.rec_events)

    def reset(self, m):
        del self.obls[m[0]:]
        del self.loops[m[1]:]
        del self.calls[m[2]:]
        del self.rec_events[m[3]:]

    def loop(self, fr, h, entry):
        nodes = fr.cfg.loops[h]
        if fr.cfg.live is None:
            fr.cfg.live = liveness(fr.f, fr.cfg)
        live = fr.cfg.live[h]

        def forget(s):
            """Values that are never read again would only make the states of different iterations differ."""
            for c in [c for c in s.env if c[0] == fr.id and c[1] not in live]:
                del s.env[c]

        forget(entry)

        def body(st):
            outs = self.region(fr, h, nodes, st, header_loop=True)
            for tgt, s, _ in outs:
                if tgt == h:
                    forget(s)
            return [("back" if tgt == h else tgt, s, src) for tgt, s, src in outs]

        return self.loop_core(fr, "L%d" % h, entry, body, fr.f["blocks"][h][2])

    def loop_core(self, fr, tag, entry, body, loc, peeled=False):
        """Summarises or unrolls a loop; `body` maps a state to [(target, state, source)]."""
        outs = []
        for tgt, s, src in self.loop_core1(fr, tag, entry, body, loc, peeled):
            dirty = s.env.dirty | entry.env.dirty
            dirty.update(c for c in s.env if c not in entry.env)
            outs.append((tgt, State(s.guard, Env(s.env, dirty, entry.env.base)), src))
        return outs

    def loop_core1(self, fr, tag, entry, body, loc, peeled):
        key = mk("loop", fr.fn, tag, str(self.ctx())).id
        base_ctx = list(self.ctxpath)
        H = {}
        m0 = self.mark()
        entry_env = dict(entry.env)
        if self.short:
            # the input is so small that loops end after a few iterations
            r = self.unroll(tag, entry, body, base_ctx, set(), self.short)
            if r is not None:
                return r
            self.reset(m0)
        wide = set()
        for attempt in range(40):
            self.reset(m0)
            st = State(entry.guard, dict(entry_env))
            phis = []
            for (cell, path), mode in sorted(H.items(), key=lambda kv: str(kv[0])):
                ph = self.make_phi(fr, key, cell, path, mode, entry_env, (cell, path) not in wide)
                if mode == "int" and ph.init.k == "dd":
                    ph.init = constrain(ph.init, entry.guard)
                phis.append(ph)
                st.env[cell] = put(st.env[cell], path, ph.phi)
            head_env = dict(st.env)
            st.env.base = head_env
            self.ctxpath = base_ctx + [tag]
            outs = body(st)
            self.ctxpath = list(base_ctx)
            backs = [s for tgt, s, _ in outs if tgt == "back" and s.guard is not F]
            back = join_states(backs) if backs else None
            new = False
            if back is not None:
                for cell, old in head_env.items():
                    nv = back.env.get(cell)
                    if nv is None or nv is old or cell not in back.env.dirty:
                        continue
                    nv = constrain_deep(nv, back.guard)
                    for path, mode in diff(constrain_deep(old, back.guard), nv, (), cell, H):
                        k = (cell, path)
                        if H.get(k) == mode:
                            continue
                        # a coarser position swallows the finer ones
                        if any(k2[0] == cell and k2[1] == path[: len(k2[1])] and H[k2] == "val" for k2 in H):
                            continue
                        H[k] = mode
                        for k2 in list(H):
                            if k2[0] == cell and k2 != k and k2[1][: len(path)] == path:
                                del H[k2]
                        new = True
            if not new:
                bad = [ph for ph in phis if ph.narrow and not self.stays_narrow(ph, entry, back)]
                if not bad:
                    break
                wide.update((ph.cell, ph.path) for ph in bad)
        else:
            raise RuntimeError("no fixpoint in %s" % fr.fn)
        outs = [o for o in outs if o[1].guard is not F]
        hav_edges = {(src, tgt) for tgt, s, src in outs if tgt != "back"}
        if back is not None:
            saved = (self.obls[m0[0]:], self.loops[m0[1]:], self.calls[m0[2]:], self.rec_events[m0[3]:])
            self.reset(m0)
            r = self.unroll(tag, entry, body, base_ctx, hav_edges)
            if r is not None:
                return r
            self.reset(m0)
            self.obls += saved[0]
            self.loops += saved[1]
            self.calls += saved[2]
            self.rec_events += saved[3]
        rec = LoopRec()
        rec.key, rec.fn, rec.header, rec.ctx = key, fr.fn, tag, self.ctx()
        rec.entry_guard = entry.guard
        rec.phis = phis
        rec.back_guard = back.guard if back is not None else F
        rec.back_env = back.env if back is not None else {}
        rec.head_env = head_env
        rec.exits = [(src, tgt, s.guard, s) for tgt, s, src in outs if tgt != "back"]
        rec.loc = loc
        rec.trip = None
        rec.peel, rec.peeled = False, peeled
        rec.ncalls = (m0[2], len(self.calls))
        for ph in phis:
            if back is not None:
                ph.back = stepped(ph, constrain_deep(get(back.env.get(ph.cell, BOT), ph.path), back.guard), back.guard)
            else:
                ph.back = ph.phi
        if back is None:
            return [(tgt, s, src) for tgt, s, src in outs if tgt != "back"]
        self.loops.append(rec)
        cases = bound_cases(self, rec)
        if cases:
            self.reset(m0)
            res = {}
            for g in cases:
                e = State(And(rec.entry_guard, g), entry.env.narrowed(g))
                for tgt, s, src in self.loop_core(fr, tag, e, body, loc, peeled):
                    res.setdefault((tgt, src), []).append(s)
            return [(tgt, join_states(ss), src) for (tgt, src), ss in res.items()]
        exits = [(tgt, s, src) for tgt, s, src in outs if tgt != "back"]
        r = closed_form(self, rec, exits)
        most = few(rec.bound)
        if most is None and rec.bound is not None and is_intleaf(rec.bound):
            for n in (4, 8):
                if self.holds(entry.guard, ({rec.phis[0].phi: 1}, -n), {rec.phis[0].phi: rec.bound}, ()):
                    most = n
                    break
        if most is not None:
            saved = (self.obls[m0[0]:], self.loops[m0[1]:], self.calls[m0[2]:], self.rec_events[m0[3]:])
            self.reset(m0)
            short = self.unroll(tag, entry, body, base_ctx, hav_edges, most + 2)
            if short is not None:
                return short
            self.reset(m0)
            self.obls += saved[0]
            self.loops += saved[1]
            self.calls += saved[2]
            self.rec_events += saved[3]
        if rec.peel and not peeled:
            self.reset(m0)
            self.ctxpath = base_ctx + [tag + "first"]
            outs = [o for o in body(entry.fork(entry.guard)) if o[1].guard is not F]
            self.ctxpath = list(base_ctx)
            res = {}
            for tgt, s, src in outs:
                if tgt != "back":
                    res.setdefault((tgt, src), []).append(s)
            backs = [s for tgt, s, _ in outs if tgt == "back"]
            if backs:
                e = join_states(backs)
                e.env = e.env.narrowed(e.guard)
                for tgt, s, src in self.loop_core(fr, tag + "p", e, body, loc, True):
                    res.setdefault((tgt, src), []).append(s)
            return [(tgt, join_states(ss), src) for (tgt, src), ss in res.items()]
        if rec.bound is None and rec.split is not None:
            self.reset(m0)
            res = {}
            for g in (rec.split, Not(rec.split)):
                e = State(And(rec.entry_guard, g), entry.env.narrowed(g))
                for tgt, s, src in self.loop_core(fr, tag, e, body, loc, peeled):
                    res.setdefault((tgt, src), []).append(s)
            return [(tgt, join_states(ss), src) for (tgt, src), ss in res.items()]
        return r

    def unroll(self, tag, entry, body, base_ctx, hav_edges, force=0):
        st = entry.fork(entry.guard)
        exits = []
        for it in range(force or UNROLL):
            self.ctxpath = base_ctx + ["%s#%d" % (tag, it)]
            outs = [o for o in body(st) if o[1].guard is not F]
            self.ctxpath = list(base_ctx)
            edges = {(src, tgt) for tgt, s, src in outs if tgt != "back"}
            backs = [s for tgt, s, _ in outs if tgt == "back"]
            exits += [(tgt, s, src) for tgt, s, src in outs if tgt != "back"]
            if not backs:
                return exits
            if self.plain and force == self.short and any(s.guard is not entry.guard for s in backs):
                return None
            if not force and (not (hav_edges - edges) or it >= 8 and len(exits) > it and is_symbolic(exits)):
                return None
            st = join_states(backs)
            st.env = st.env.narrowed(st.guard)
        return None

    def iter_loop(self, st, tag, it, step):
        """Drives an iterator: `step(state, item)` returns None to go on or a break label.

        Returns {label: state}; exhaustion has the label "done"."""
        pieces = segments(self, st, it)
        if pieces is not None:
            return self.segment_loop(st, pieces, step, it)
        fr = Frame()
        fr.fn = self.stack[-1][0]
        fr.f = self.p.fns[fr.fn]
        fr.cfg = None
        cell = ("iter", mk("itc", tag, str(self.ctx())).id)
        fr.id = cell[0]
        fr.f = {"locals": {cell[1]: None}, "names": {}}
        st.env[cell] = it

        def body(s):
            outs = []
            c, item, nit = it_next(self, s, s.env[cell])
            none = s.fork(And(s.guard, Not(c)))
            outs.append(("done", none, 0))
            s.guard = And(s.guard, c)
            if s.guard is F:
                return outs
            s.env[cell] = nit
            for label, s2 in step(s, item):
                outs.append(("back" if label is None else label, s2, 1 if label is None else str(label)))
            return outs

        outs = self.loop_core(fr, tag, st, body, self.stack[-1][1])
        res = {}
        for tgt, s, _ in outs:
            s.env.pop(cell, None)
            res.setdefault(tgt, []).append(s)
        return {k: join_states(v) for k, v in res.items()}

    def segment_loop(self, st, pieces, step, it):
        """Drives an iterator over the pieces of a sequence that may or may not be there."""
        cur, res = st.fork(st.guard), {}
        for g, item in pieces:
            s = cur.fork(And(cur.guard, g))
            skip = cur.fork(And(cur.guard, Not(g)))
            go = [skip] if skip.guard is not F else []
            if s.guard is not F:
                for label, s2 in step(s, item):
                    if s2.guard is F:
                        continue
                    if label is None:
                        go.append(s2)
                    else:
                        res.setdefault(label, []).append(s2)
            if not go:
                cur = None
                break
            cur = join_states(go)
            if it.a[0] == "mview" and len(go) > 1:
                # a piece that isn't there may be changed as well: its guard keeps it out
                c, path = it.a[1][0].a
                qs = [get(x.env[c], path) for x in go]
                if all(q.k == "seq" and len(q.a[0]) == len(pieces) for q in qs):
                    cur.env[c] = put(cur.env[c], path, qs[-1])
                else:
                    raise RuntimeError("a sequence changes its pieces while it's iterated over")
        if cur is not None:
            res.setdefault("done", []).append(cur)
        return {k: join_states(v) for k, v in res.items()}

    def stays_narrow(self, ph, entry, back):
        """Whether a position that's assumed to be a possible one always is."""
        top = dom(ph.phi)[1]
        if not self.holds(entry.guard, ({ph.phi: 1}, -top), {ph.phi: ph.init}, ()):
            return False
        if back is None:
            return True
        nv = constrain_deep(get(back.env.get(ph.cell, BOT), ph.path), back.guard)
        return self.holds(back.guard, ({ph.phi: 1}, -top), {ph.phi: nv}, ())

    def make_phi(self, fr, key, cell, path, mode, entry_env, narrow=False):
        ph = Phi()
        ph.narrow = False
        ph.cell, ph.path, ph.mode = cell, path, mode
        init = get(entry_env[cell], path)
        ph.init = init
        ph.name = self.cell_name(fr, cell)
        ty = self.path_type(fr, cell, path, entry_env)
        ph.ty = ty
        pid = "%s%s" % (cell, path)
        if mode == "seq":
            ph.phi = Seq((mk("pre", T, App("phiseq", (key, pid), "seq")),))
            return ph
        if mode == "map":
            ph.phi = Seq((mk("mapq", T, init, App("phimap", (key, pid), "seq")),))
            return ph
        if mode == "int":
            r = self.p.irange(ty) if isinstance(ty, str) else None
            if r is None:
                r = ty if isinstance(ty, tuple) else (-(2**63), 2**64 - 1)
            if narrow and tuple(r) == (0, 2**64 - 1):
                r = POS[1:]
                ph.narrow = True
            a = App("phi", (key, pid), ("i",) + tuple(r))
            ph.phi = lit(a, 2) if r == (0, 1) else a
            return ph
        if ty is None:
            # what's inside of an iterator: the type of what is there
            ts = {x.a[0] for x in leaves(init) if x.k == "adt"} if all(x.k == "adt" or x is BOT for x in leaves(init)) else ()
            ty = next(iter(ts)) if len(ts) == 1 else None
        if isinstance(ty, str) and ty in self.p.types:
            ph.phi = self.p.opaque("phi", (App("phi", (key, pid), "?"),), ty)
        else:
            ph.phi = self.p.opaque("phi", (App("phi", (key, pid), "?"),), "?")
        return ph

    def cell_name(self, fr, cell):
        if cell[0] == fr.id:
            return fr.f["names"].get(str(cell[1])) or "_%d" % cell[1]
        return str(cell)

    def path_type(self, fr, cell, path, env):
        """The type key at a position, an integer range, or None."""
        ty = None
        if cell[0] == fr.id:
            ty = fr.f["locals"][cell[1]]
        v = env[cell]
        for step in path:
            tag, i = step
            if tag == "adt":
                t, vi = v.a[0], v.a[1]
                ty = self.p.variants(t)[vi]["f"][i][1]
                v = v.a[2][i]
            elif tag in ("tup", "clo"):
                d = self.p.desc(ty) if isinstance(ty, str) else {"k": ""}
                ty = d["e"][i] if d["k"] == "tuple" else None
                v = (v.a[0] if tag == "tup" else v.a[1])[i]
            elif tag == "arr":
                d = self.p.desc(ty) if isinstance(ty, str) else {"k": ""}
                ty = d["e"] if d["k"] == "array" else None
                v = v.a[0][i]
            elif tag == "it":
                ty = (0, 2**64 - 1) if is_int(v.a[1][i]) else None
                v = v.a[1][i]
            elif tag == "slice":
                ty = POS[1:]
                v = v.a[1 + i]
            elif tag == "sq":
                ty = POS[1:]
                v = get1(v, step)
            elif tag in ("sref", "box"):
                d = self.p.desc(ty) if isinstance(ty, str) else {"k": ""}
                ty = d["e"] if d["k"] in ("ref", "ptr") else None
                v = v.a[0]
            elif tag == "dyn":
                ty = None
                v = v.a[1]
        return ty

    # ---- invariants

    def ensure_invariants(self):
        """Finds the invariants of the loops that were kept, outer loops first."""
        todo = [r for r in self.loops if r.key not in self.inv_done]
        for rec in sorted(todo, key=lambda r: len(r.ctx)):
            self.inv_done.add(rec.key)
            self.invariants(rec)

    def invariants(self, rec):
        """Linear invariants of the integer phis: guess from the guards, keep what is inductive."""
        ints = [ph for ph in rec.phis if ph.mode == "int" and ph.phi.k == "app"]
        if not ints:
            return
        pool = {}
        for g in [rec.back_guard] + [e[2] for e in rec.exits]:
            for a in apps(g):
                if a.a[0] == "le0":
                    for t in lin_of(a.a[1][0])[0]:
                        pool[t] = 1
                elif a.a[0] == "len":
                    pool[a] = 1
        for ph in ints:
            for x in leaves(ph.init):
                if is_intleaf(x):
                    for t in lin_of(x)[0]:
                        pool[t] = 1
            for x in leaves(ph.back):
                if x is not BOT and is_intleaf(x):
                    for t in lin_of(x)[0]:
                        pool[t] = 1
        phiset = {ph.phi for ph in ints}
        mine = set()
        for ph in rec.phis:
            mine |= apps(ph.phi)
        # terms that can't vary between iterations
        consts = [t for t in pool if not (apps(t) & phiset) and not (apps(t) & mine) and isinstance(t.a[2], tuple) and t.a[0] not in ("le0",)]
        cands = []
        for ph in ints:
            x = ph.phi
            for y in consts:
                for k in (-1, 0, 1):
                    cands.append(({x: 1, y: -1}, k))  # x + k <= y
                cands.append(({x: -1, y: 1}, 0))
            for x0 in leaves(ph.init):
                if x0 is not BOT and is_intleaf(x0):
                    d, k = lin_of(x0)
                    dd = {x: -1}
                    for t, c in d.items():
                        dd[t] = dd.get(t, 0) + c
                    cands.append((dd, k))  # init <= x
                    cands.append(({t: -c for t, c in dd.items()}, -k))  # x <= init
            for ph2 in ints:
                if ph2 is not ph:
                    cands.append(({x: 1, ph2.phi: -1}, 0))
                    for a in (-1, 1):
                        cands.append(({x: 1, ph2.phi: -1}, a))
                    i1, i2 = ph.init, ph2.init
                    if i1.k in ("int",) and i2.k in ("int",):
                        cands.append(({x: 1, ph2.phi: -1}, i2.a[0] - i1.a[0]))
            for k in (1,):
                cands.append(({x: -1}, k))
        init = {ph.phi: ph.init for ph in ints}
        back = {ph.phi: ph.back for ph in ints}
        keep = []
        seen = set()
        for c in cands:
            key = (tuple(sorted((t.id, x) for t, x in c[0].items())), c[1])
            if key in seen:
                continue
            seen.add(key)
            if self.holds(rec.entry_guard, c, init, ()):
                keep.append(c)
        while True:
            bad = [c for c in keep if not self.holds(rec.back_guard, c, back, keep)]
            if not bad:
                break
            keep = [c for c in keep if c not in bad]
            if not keep:
                break
        for d, k in keep:
            for t in d:
                if t in phiset:
                    self.facts.add(t, d, k)

    def holds(self, guard, cand, m, assumed):
        d, k = cand
        v = Int(k)
        for t, c in d.items():
            x = m.get(t, t)
            for l in leaves(x):
                if l is not BOT and not is_intleaf(l):
                    return False
            v = smap(lambda a, b: l_add(a, b, c), v, x)
        bad = smap(lambda x: Not(le0(x)), v)
        g = And(guard, bad)
        if g is F:
            return True
        try:
            return feasible_cube(g, self.facts, assumed, limit=3000) is None
        except Budget:
            return False

    # ------------------------------------------------------------- blocks

    def block(self, fr, b, st):
        stmts, term, loc = fr.f["blocks"][b]
        top = self.stack[-1]
        self.steps += 1
        for s in stmts:
            if s[0] == "=":
                top[1] = s[3] if len(s) > 3 else loc
                self.write(fr, st, s[1], self.rvalue(fr, st, s[2], s[1]))
            elif s[0] == "discr":
                cell, path = self.place(fr, st, s[1])
                ty = self.place_type(fr, s[1])
                self.write(fr, st, s[1], Adt(ty, s[2], ()))
            elif s[0] == "intrinsic":
                pass
        top[1] = loc
        k = term[0]
        if k == "goto":
            return [(term[1], st, b)]
        if k == "return":
            return [("ret", st, b)]
        if k in ("unreachable", "resume", "abort"):
            return []
        if k == "drop":
            return [(term[2], st, b)]
        if k == "switch":
            v = self.operand(fr, st, term[1])
            out = []
            rest = st.guard
            r = self.p.irange(term[4]) if len(term) > 4 else None
            targets = {}
            for n, tgt in term[2]:
                if r is not None and r[0] < 0:
                    n = wrap(n, r[0], r[1])
                c = smap(lambda x: i_eq(x, Int(n)) if is_intleaf(x) else self.weird_eq(x, n), v)
                g = And(rest, c)
                rest = And(rest, Not(c))
                targets[tgt] = Or(targets.get(tgt, F), g)
            if term[3] is not None:
                targets[term[3]] = Or(targets.get(term[3], F), rest)
            for tgt, g in targets.items():
                if g is not F:
                    s2 = st.fork(g)
                    if len(targets) > 1:
                        for cell, v in s2.env.items():
                            if v.k == "dd" and nodes_of(v) > 64:
                                s2.env.refine(cell, constrain(v, g))
                    out.append((tgt, s2, b))
            return out
        if k == "assert":
            c = self.operand(fr, st, term[1])
            msg = term[3]
            if isinstance(msg, list):
                msg = msg[0]
            if str(msg).startswith(("Misaligned", "NullPointer")):
                return [(term[4], st, b)]
            c = truth(c)
            ok = c if term[2] else Not(c)
            self.oblige(st, str(msg), Not(ok))
            st.guard = And(st.guard, ok)
            return [(term[4], st, b)] if st.guard is not F else []
        if k == "call":
            return self.call(fr, b, st, term, loc)
        raise NotImplementedError(term)

    def weird_eq(self, x, n):
        return lit(App("is", (x, n), BOOL), 2)

    # ------------------------------------------------------------- places

    def place(self, fr, st, pl):
        """Resolves a place to (cell, path), or (None, value) when it's behind a shared pointer."""
        cell, path = (fr.id, pl[0]), ()
        val = None
        for e in pl[1:]:
            if val is not None and e == "*" and val.k == "mref":
                cell, path, val = val.a[0], val.a[1], None
                continue
            if val is None:
                if e == "*":
                    v = get(st.env.get(cell, BOT), path)
                    if v.k == "mref":
                        cell, path = v.a[0], v.a[1]
                        continue
                    if v.k == "box" and isinstance(v.a[0], V) and v.a[0].k == "mref":
                        cell, path = v.a[0].a[0], v.a[0].a[1]
                        continue
                    val = self.deref(st, v)
                    continue
                path = path + (self.step(fr, st, e),)
            else:
                val = get(val, (self.step(fr, st, e),)) if e != "*" else self.deref(st, val)
        if val is not None:
            return None, val
        return cell, path

    def step(self, fr, st, e):
        if e[0] == "f":
            return ("F", e[1], e[2])
        if e[0] == "v":
            return ("V", e[1])
        if e[0] == "i":
            return ("I", st.env.get((fr.id, e[1]), BOT))
        if e[0] == "ci":
            return ("CI", e[1], bool(e[3]))
        if e[0] == "sub":
            return ("SUB", e[1], e[2], bool(e[3]))
        raise NotImplementedError(e)

    def deref(self, st, v):
        def f(x):
            if x.k in ("sref", "box"):
                y = x.a[0]
                if y.k == "mref":
                    return self.deref(st, y)
                return y
            if x.k == "mref":
                return get(st.env.get(x.a[0], BOT), x.a[1])
            if x.k == "mslice":
                return self.mslice_view(st, x)
            if x.k in ("str", "slice", "dyn", "bot", "seq"):
                return x
            if x.k == "app":
                d = self.p.desc(x.a[2]) if isinstance(x.a[2], str) else {"k": ""}
                if d["k"] in ("ref", "ptr"):
                    return self.p.opaque("deref", (x,), d["e"])
                if d["k"] == "adt" and d["path"] == "std::boxed::Box":
                    return self.p.opaque("deref", (x,), d["args"][0])
            return App("deref", (x,), "?")

        if v.k == "dd":
            return dmap(f, (v,))
        return f(v)

    def mslice_view(self, st, x):
        base = get(st.env.get(x.a[0], BOT), x.a[1])
        return Slice(base, x.a[2], x.a[3])

    def read(self, fr, st, pl):
        cell, path = self.place(fr, st, pl)
        if cell is None:
            return path
        return get(st.env.get(cell, BOT), path)

    def write(self, fr, st, pl, v):
        if len(pl) == 1:
            st.env[(fr.id, pl[0])] = v
            return
        # a write through a pointer that may be one of several
        cell, path = (fr.id, pl[0]), ()
        for i, e in enumerate(pl[1:]):
            if e == "*":
                x = get(st.env.get(cell, BOT), path)
                rest = tuple(self.step(fr, st, q) for q in pl[i + 2:])
                self.store(st, x, rest, v)
                return
            path = path + (self.step(fr, st, e),)
        st.env[cell] = put(st.env.get(cell, BOT), path, v)

    def store(self, st, ptr, rest, v):
        """Writes `v` at `rest` below what `ptr` points to."""
        if ptr.k == "dd":
            for x in leaves(ptr):
                if x.k == "mref":
                    g = leaf_guard(ptr, lambda y: y is x)
                    old = st.env.get(x.a[0], BOT)
                    new = put(old, x.a[1] + rest, v)
                    st.env[x.a[0]] = join(g, new, Not(g), old)
            return
        if ptr.k == "mref":
            c, path = ptr.a[0], ptr.a[1]
            if c[0] == "uninit":
                st.env[c] = v
                return
            for j, e in enumerate(rest):
                if e == "*":
                    self.store(st, get(st.env.get(c, BOT), path), rest[j + 1:], v)
                    return
                path = path + (e,)
            st.env[c] = put(st.env.get(c, BOT), path, v)
            return
        if ptr.k in ("sref", "box"):
            x = ptr.a[0]
            for j, e in enumerate(rest):
                if e == "*":
                    self.store(st, x, rest[j + 1:], v)
                    return
                x = get(x, (e,))
            if x.k in ("mref", "mslice") and not rest:
                self.store(st, x, (), v)
                return
        if ptr.k == "mslice":
            st.env[ptr.a[0]] = put(st.env.get(ptr.a[0], BOT), ptr.a[1] + rest, v)
            return
        if ptr.k == "bot":
            return
        self.unknown.setdefault("store through %s" % ptr.k, self.stack[-1][0])

    def place_type(self, fr, pl):
        ty = fr.f["locals"][pl[0]]
        for e in pl[1:]:
            d = self.p.desc(ty)
            if e == "*":
                ty = d.get("e") or (d["args"][0] if d.get("args") else "?")
            elif e[0] == "f":
                ty = e[2]
            elif e[0] in ("i", "ci"):
                ty = d.get("e", "?")
        return ty

    # ------------------------------------------------------------- operands

    def operand(self, fr, st, o):
        if o[0] in ("c", "m") and isinstance(o[1], list):
            return self.read(fr, st, o[1])
        return self.const(o[1], o[2])

    def const(self, ty, v):
        k = v[0]
        if k == "int":
            r = self.p.irange(ty)
            n = v[1]
            if r is not None and r[0] < 0:
                n = wrap(n, r[0], r[1])
            return Int(n)
        if k == "str":
            return Str(v[1])
        if k == "ref":
            d = self.p.desc(ty)
            inner_ty = d.get("e")
            di = self.p.desc(inner_ty)
            if v[1][0] == "arr" and di["k"] in ("slice",):
                x = self.const(inner_ty, v[1])
                return Slice(x, F, Int(len(x.a[0])))
            x = self.const(inner_ty, v[1])
            if x.k == "str" and di["k"] == "str":
                return x
            return Sref(x)
        if k == "arr":
            et = v[1]
            return Arr(self.const(et, x) for x in v[2])
        if k == "tup":
            d = self.p.desc(ty)
            return Tup(self.const(t, x) for t, x in zip(d["e"], v[1]))
        if k == "adt":
            t = v[1]
            fs = self.p.variants(t)[v[2]]["f"]
            if self.p.desc(t)["path"] in ("std::vec::Vec", "std::string::String"):
                return Seq()
            return Adt(t, v[2], [self.const(f[1], x) for f, x in zip(fs, v[3])])
        if k == "fn":
            return mk("fn", v[1])
        if k == "zst":
            d = self.p.desc(ty)
            if d["k"] == "fndef":
                return mk("fn", d["fn"])
            if d["k"] == "closure":
                return mk("clo", ty, ())
            if d["k"] == "tuple":
                return Tup(self.const(t, ["zst"]) for t in d["e"])
            if d["k"] == "adt" and not d["enum"]:
                return Adt(ty, 0, [self.const(f[1], ["zst"]) for f in d["v"][0]["f"]])
            if d["k"] == "adt" and len(d["v"]) >= 1:
                return Adt(ty, 0, ())
            if d["k"] == "array":
                return Arr(())
            return UNIT
        return App("const", (str(v),), ty)

    # ------------------------------------------------------------- rvalues

    def rvalue(self, fr, st, r, dest):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k in ("ref", "addr"):
            return self.reference(fr, st, r[1], r[2] if len(r) > 2 else False)
        if k == "bin":
            a, b = self.operand(fr, st, r[2]), self.operand(fr, st, r[3])
            return self.binop(r[1], a, b, self.op_type(fr, r[2]), self.op_type(fr, r[3]))
        if k == "chk":
            a, b = self.operand(fr, st, r[2]), self.operand(fr, st, r[3])
            ty = self.op_type(fr, r[2])
            lo, hi = self.p.irange(ty)

            def f(x, y):
                return arith(r[1], x, y, lo, hi)

            v = smap(f, a, b)
            over = smap(lambda x: Or(i_lt(x, Int(lo)), i_lt(Int(hi), x)) if is_intleaf(x) else lit(App("over", (x,), BOOL), 2), v)
            return Tup((v, over))
        if k == "un":
            v = self.operand(fr, st, r[2])
            if r[1] == "Not":
                ty = self.op_type(fr, r[2])
                lo, hi = self.p.irange(ty)
                if (lo, hi) == (0, 1):
                    return Not(truth(v))
                if lo == 0:
                    return smap(lambda x: l_add(Int(hi), x, -1), v)
                return smap(lambda x: l_add(Int(-1), x, -1), v)
            if r[1] == "Neg":
                lo, hi = self.p.irange(self.op_type(fr, r[2]))
                return smap(lambda x: fit(l_scale(x, -1), lo, hi), v)
            if r[1] == "PtrMetadata":
                return self.length(st, v)
            return App("un" + r[1], (v,), "?")
        if k == "cast":
            return self.cast(fr, st, r[1], self.operand(fr, st, r[2]), r[3], r[4])
        if k == "discr":
            v = self.read(fr, st, r[1])
            return self.discriminant(v)
        if k == "len":
            return self.length(st, self.read(fr, st, r[1]))
        if k == "agg":
            vs = [self.operand(fr, st, o) for o in r[2]]
            ak = r[1]
            if ak[0] == "array":
                return Arr(vs)
            if ak[0] == "tuple":
                return Tup(vs)
            if ak[0] == "adt":
                return Adt(ak[1], ak[2] or 0, vs)
            if ak[0] == "closure":
                return mk("clo", ak[1], tuple(vs))
            return App("agg", (str(ak),) + tuple(vs), "?")
        if k == "rep":
            v = self.operand(fr, st, r[1])
            n = r[2]
            if isinstance(n, int) and n <= 4096:
                return Arr([v] * n)
            return App("repeat", (v, str(n)), "?")
        raise NotImplementedError(r)

    def op_type(self, fr, o):
        if o[0] in ("c", "m") and isinstance(o[1], list):
            return self.place_type(fr, o[1])
        return o[1]

    def reference(self, fr, st, pl, mut):
        if mut is True or mut == "mut":
            # reborrows of what a pointer points to are that pointer
            cell, path = self.place_ptr(fr, st, pl)
            if cell is None:
                return path
            v = get(st.env.get(cell, BOT), path)
            return mk("mref", cell, path)
        cell, path = self.place(fr, st, pl)
        v = path if cell is None else get(st.env.get(cell, BOT), path)
        return ref_of(v)

    def place_ptr(self, fr, st, pl):
        """Like `place`, but hands back the pointer itself for `&mut *p`."""
        if len(pl) > 1 and pl[-1] == "*":
            v = self.read(fr, st, pl[:-1])
            if v.k == "mref":
                return v.a[0], v.a[1]
            if v.k == "box" and isinstance(v.a[0], V) and v.a[0].k == "mref":
                return v.a[0].a[0], v.a[0].a[1]
            return None, v
        cell, path = self.place(fr, st, pl)
        if cell is None:
            return None, ref_of(path)
        return cell, path

    def discriminant(self, v):
        def f(x):
            if x.k == "adt":
                return Int(self.p.discr_of(x.a[0], x.a[1]))
            if x.k == "app":
                ty = x.a[2]
                if isinstance(ty, str) and self.p.is_enum(ty):
                    n = len(self.p.variants(ty))
                    disc = App("discr", (x,), ("i", 0, n - 1))
                    return mkdd(disc, [(s_of(disc, [i]), Int(self.p.discr_of(ty, i))) for i in range(n)]) if n > 1 else Int(self.p.discr_of(ty, 0))
            return App("discr", (x,), ("i", 0, 255))

        return smap(f, v)

    def length(self, st, v):
        return smap(lambda x: length_of(x, self, st), v)

    def cast(self, fr, st, kind, v, src, dst):
        if kind == "IntToInt":
            r = self.p.irange(dst)
            return smap(lambda x: fit(x, r[0], r[1]) if is_intleaf(x) else App("cast", (x,), ("i",) + r), v)
        if kind.startswith("PointerCoercion(Unsize"):
            sd, dd = self.p.desc(src), self.p.desc(dst)
            se = sd.get("e") or (sd["args"][0] if sd.get("args") else None)
            de = dd.get("e") or (dd["args"][0] if dd.get("args") else None)
            k = self.p.desc(de)["k"]
            if k == "dyn":
                return smap(lambda x: mk("dyn", se, x), v)
            if k == "slice":
                n = self.p.desc(se)["n"]

                def f(x):
                    if x.k == "mref":
                        return mk("mslice", x.a[0], x.a[1], F, Int(n))
                    a = self.deref(st, x)
                    return Slice(a, F, Int(n))

                return smap(f, v)
            return v
        if kind == "BoxDerefTransmute":
            def f(x):
                if x.k == "box":
                    return x.a[0] if x.a[0].k == "mref" else Sref(x.a[0])
                return x

            return smap(f, v)
        if kind in ("PtrToPtr", "Transmute"):
            r = self.p.irange(dst)
            if r is not None:
                if self.p.irange(src) is not None:
                    return smap(lambda x: fit(x, r[0], r[1]), v)
                return App("addr", (v,), ("i",) + r)
            return v
        if kind.startswith("PointerCoercion"):
            return v
        r = self.p.irange(dst)
        if r is not None:
            return App("cast", (v, kind), ("i",) + r)
        return App("cast", (v, kind), dst)

    def binop(self, op, a, b, ty, tyb=None):
        r = self.p.irange(ty)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            def f(x, y):
                if is_intleaf(x) and is_intleaf(y):
                    if op in ("Eq", "Ne"):
                        c = i_eq(x, y)
                        return c if op == "Eq" else Not(c)
                    if op == "Lt":
                        return i_lt(x, y)
                    if op == "Le":
                        return i_le(x, y)
                    if op == "Gt":
                        return i_lt(y, x)
                    return i_le(y, x)
                return lit(App("cmp" + op, (x, y), BOOL), 2)

            return smap(f, a, b)
        lo, hi = r if r else (-(2**63), 2**64)

        def g(x, y):
            if not (is_intleaf(x) and is_intleaf(y)):
                return App("op" + op, (x, y), ("i", lo, hi))
            if op in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
                return bitop(op, x, y, lo, hi)
            v = arith(op, x, y, lo, hi)
            if v.k == "dd":
                return smap(lambda z: fit(z, lo, hi), v)
            return fit(v, lo, hi)

        return smap(g, a, b)

    # ------------------------------------------------------------- calls

    def call(self, fr, b, st, term, loc):
        callee, args, dest, tgt = term[1], term[2], term[3], term[4]
        vs = [self.operand(fr, st, a) for a in args]
        self.ctxpath.append("%s:%d" % (fr.fn, b))
        dest_ty = self.place_type(fr, dest)
        if "ptr" in callee and "fn" not in callee:
            fv = self.operand(fr, st, callee["ptr"])
            ret = self.call_value(st, fv, vs, dest_ty)
        else:
            ret = self.call_fn(st, callee["fn"], vs, dest_ty, callee)
        self.ctxpath.pop()
        if st.guard is F or tgt is None:
            return []
        self.write(fr, st, dest, ret)
        return [(tgt, st, b)]

    def call_fn(self, st, name, vs, dest_ty, callee=None):
        """Calls a named function; the state is updated in place."""
        p = self.p
        caller = self.stack[-1][0] if self.stack else ""
        path = (callee or {}).get("path") or p.externs.get(name, {}).get("path") or name
        virt = (callee or {}).get("virt")
        if virt is not None:
            return self.call_virtual(st, name, virt, vs, dest_ty)
        self.calls.append((caller, name, path, tuple(vs), st.guard, self.stack[-1][1] if self.stack else "?"))
        h = self.opaque_fns.get(name)
        if h is not None:
            return h(self, st, name, vs, dest_ty)
        h = self.sums.get(path, name)
        if h is not None:
            r = h(self, st, Call(name, path, vs, dest_ty, callee))
            if r is not NotImplemented:
                return r
        if name in p.fns:
            if name in p.closures and len(vs) == 2 and vs[1].k == "tup":
                vs = [vs[0]] + list(vs[1].a[0])
            if name in p.closures:
                t1 = p.desc(p.fns[name]["locals"][1])
                if t1["k"] == "ref" and vs[0].k == "clo":
                    vs = [Sref(vs[0])] + list(vs[1:])
                elif t1["k"] != "ref" and vs[0].k in ("sref", "mref"):
                    vs = [self.deref(st, vs[0])] + list(vs[1:])
            if any(f == name for f, _ in self.stack):
                self.rec_events.append((caller, name, tuple(vs), st.guard))
                return self.uninterpreted(st, name, vs, dest_ty)
            return self.exec_fn(name, tuple(vs), st)
        self.unknown.setdefault(path, caller)
        return self.havoc_call(st, name, vs, dest_ty)

    def uninterpreted(self, st, name, vs, dest_ty):
        """A call to a function that's analysed on its own: a pure term, in-out arguments rewritten."""
        args = tuple(self.snapshot(st, v) for v in vs)
        for i, v in enumerate(vs):
            for x in leaves(v):
                if x.k == "mref":
                    ty = self.value_type(get(st.env.get(x.a[0], BOT), x.a[1]))
                    if ty is None:
                        continue
                    st.env[x.a[0]] = put(st.env[x.a[0]], x.a[1], self.p.opaque("mut%d:%s" % (i, name), args, ty))
        return self.p.opaque("call:" + name, args, dest_ty)

    def value_type(self, v):
        if v.k == "seq":
            return "std::vec::Vec<u8>"
        if v.k == "adt":
            return v.a[0]
        return None

    def snapshot(self, st, v):
        """An argument as a pure value: mutable references by their target's value."""
        if v.k == "mref":
            return ref_of(self.snapshot(st, get(st.env.get(v.a[0], BOT), v.a[1])))
        return v

    def havoc_call(self, st, name, vs, dest_ty):
        args = tuple(self.snapshot(st, v) for v in vs)
        tag = App("unk", ("call:" + name,) + self.ctx(), "?")
        for x in inside(vs):
            if x.k in ("mref", "mslice") and x.a[0] in st.env:
                old = get(st.env[x.a[0]], x.a[1])
                new = App("unk", ("mut:" + name, tag, old), "?")
                if old.k == "seq":
                    base = App("unk", ("mut:" + name, tag, old), "std::vec::Vec<?>")
                    new = Seq((mk("span", T, Slice(base, F, App("len", (base,), LEN))),))
                st.env[x.a[0]] = put(st.env[x.a[0]], x.a[1], new)
            elif x.k in ("clo", "fn") and self.may_print(x.a[0]):
                st.env[OUT] = seq_push(st.env.get(OUT, Seq()), El(T, tag))
        return self.p.opaque("unk", (tag,) + args, dest_ty)

    def may_print(self, name):
        """Whether calling a function or closure may write output."""
        p = self.p
        todo = list(p.types[name]["fn"]) if name in p.types else [name]
        seen = set()
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.add(f)
            if f not in p.fns:
                if "print" in f or "Write" in f or "write" in f or "exit" in f:
                    return True
                continue
            for b in p.fns[f]["blocks"]:
                t = b[1]
                if t[0] == "call":
                    if "fn" not in t[1] or t[1].get("virt") is not None:
                        return True
                    todo.append(t[1]["fn"])
        return False

    def call_virtual(self, st, name, virt, vs, dest_ty):
        recv = vs[0]
        if recv.k == "mref":
            recv = get(st.env.get(recv.a[0], BOT), recv.a[1])
        # dispatch on each possible type
        parts = []
        for x in leaves(recv):
            g = leaf_guard(recv, lambda y: y is x) if recv.k == "dd" else T
            parts.append((And(st.guard, g), x))
        outs = []
        for g, x in parts:
            if g is F:
                continue
            s2 = st.fork(g)
            while x.k in ("sref", "box") and x.a[0].k in ("dyn", "sref", "box"):
                x = x.a[0]
            if x.k == "dyn":
                target = None
                for key, tab in self.p.vtables.items():
                    tr, ty = key.split("|", 1)
                    if ty == x.a[0] and str(virt) in tab:
                        target = tab[str(virt)]
                        if tr.split("::")[-1] in name:
                            break
                self.ctxpath.append(x.a[0])
                if target is not None:
                    inner = x.a[1]
                    if inner.k == "box":
                        inner = Sref(inner.a[0])
                    r = self.call_fn(s2, target, [inner] + list(vs[1:]), dest_ty)
                else:
                    r = self.dyncall(s2, name, virt, [x] + list(vs[1:]), dest_ty)
                self.ctxpath.pop()
            else:
                r = self.dyncall(s2, name, virt, [x] + list(vs[1:]), dest_ty)
            if s2.guard is not F:
                s2.env[("ret",)] = r
                outs.append(s2)
        if not outs:
            st.guard = F
            return BOT
        r = join_states(outs)
        st.guard = r.guard
        ret = r.env.pop(("ret",))
        st.env = r.env
        return ret

    def dyncall(self, st, name, virt, vs, dest_ty):
        self.emit(st, "dyncall", name, tuple(self.snapshot(st, v) for v in vs))
        return self.p.opaque("dyncall:" + name, tuple(self.snapshot(st, v) for v in vs), dest_ty)

    def call_value(self, st, fv, args, dest_ty):
        """Calls a function value (function item, closure, reference to either)."""
        while fv.k in ("sref", "box"):
            fv = fv.a[0]
        if fv.k == "mref":
            inner = get(st.env.get(fv.a[0], BOT), fv.a[1])
            if inner.k == "clo":
                name = self.p.types[inner.a[0]]["fn"]
                return self.call_fn(st, name[0], [fv, Tup(args)], dest_ty)
            fv = inner
        if fv.k == "fn":
            return self.call_fn(st, fv.a[0], list(args), dest_ty)
        if fv.k == "clo":
            name = self.p.types[fv.a[0]]["fn"]
            return self.call_fn(st, name[0], [fv, Tup(args)], dest_ty)
        if fv.k == "dd":
            outs = []
            for x in leaves(fv):
                g = And(st.guard, leaf_guard(fv, lambda y: y is x))
                if g is F:
                    continue
                s2 = st.fork(g)
                r = self.call_value(s2, x, args, dest_ty)
                if s2.guard is not F:
                    s2.env[("ret",)] = r
                    outs.append(s2)
            if not outs:
                st.guard = F
                return BOT
            r = join_states(outs)
            st.guard = r.guard
            ret = r.env.pop(("ret",))
            st.env = r.env
            return ret
        self.unknown.setdefault("call of %s" % show(fv, 2), self.stack[-1][0])
        return self.havoc_call(st, "fnvalue", list(args), dest_ty)


class Call:
    __slots__ = ("name", "path", "args", "ty", "callee")

    def __init__(self, name, path, args, ty, callee):
        self.name, self.path, self.args, self.ty, self.callee = name, path, args, ty, callee


# ------------------------------------------------------------------ value access


def truth(v):
    """A boolean value as a condition."""

    def f(x):
        if x.k == "int":
            return T if x.a[0] else F
        if x.k == "app" and x.a[2] == BOOL:
            return lit(x, 2)
        if x is BOT:
            return BOT
        return lit(App("truth", (x,), BOOL), 2)

    return dmap(f, (v,), nonorm=True)


def is_int(v):
    return all(x is BOT or is_intleaf(x) for x in leaves(v))


def arith(op, x, y, lo, hi):
    if not (is_intleaf(x) and is_intleaf(y)):
        return App("op" + op, (x, y), ("i", lo, hi))
    op = op.replace("Unchecked", "").replace("Wrapping", "")
    if op == "Add":
        return l_add(x, y)
    if op == "Sub":
        return l_add(x, y, -1)
    if op in ("Mul", "Div", "Rem"):
        return muldiv(op, x, y, lo, hi)
    if op in ("Shl", "Shr"):
        return bitop(op, x, y, lo, hi)
    return App("op" + op, (x, y), ("i", lo, hi))


def ref_of(v):
    """A shared reference to a value; views are their own reference."""

    def f(x):
        if x.k in ("str", "slice", "dyn", "bot"):
            return x
        if x.k == "app" and isinstance(x.a[2], str) and x.a[2] == "str":
            return Slice(x, F, App("len", (x,), LEN))
        return Sref(x)

    if v.k == "dd":
        if any(x.k in ("str", "slice", "dyn") for x in leaves(v)):
            return dmap(f, (v,))
        return Sref(v)
    return f(v)


PROG = None


def get(v, path):
    for s in path:
        v = get1(v, s)
    return v


def get1(v, s):
    if v.k == "dd":
        return dmap(lambda x: BOT if x is BOT else get1(x, s), (v,))
    tag = s[0]
    k = v.k
    if k == "bot":
        return BOT
    if tag == "F":
        i = s[1]
        if k == "adt":
            return v.a[2][i] if i < len(v.a[2]) else BOT
        if k == "tup":
            return v.a[0][i]
        if k == "clo":
            return v.a[1][i]
        if k == "box":
            return v
        if k == "app":
            return PROG.opaque("fld.%d" % i, (v,), s[2]) if PROG else App("fld.%d" % i, (v,), s[2])
        if k in ("seq", "it"):
            return PROG.opaque("fld.%d" % i, (v,), s[2])
        if k in ("sref", "mref"):
            return v  # newtype wrappers of pointers
        return BOT
    if tag == "V":
        if k == "adt":
            return v if v.a[1] == s[1] else BOT
        return v
    if tag == "I":
        return elem(v, s[1])
    if tag == "S":
        return v.a[0][s[1]].a[1] if k == "seq" and s[1] < len(v.a[0]) else BOT
    if tag == "CI":
        if s[2]:
            return elem(v, Sub(length_of(v), Int(s[1])))
        return elem(v, Int(s[1]))
    if tag == "SUB":
        n = length_of(v)
        end = Sub(n, Int(s[2])) if s[3] else Int(s[2])
        return subview(v, Int(s[1]), end)
    # structural steps (loop positions)
    i = s[1]
    if tag == "adt":
        return v.a[2][i] if k == "adt" and i < len(v.a[2]) else BOT
    if tag in ("tup", "arr"):
        return v.a[0][i]
    if tag in ("clo", "it"):
        return v.a[1][i]
    if tag in ("sref", "box"):
        return v.a[0]
    if tag == "dyn":
        return v.a[1]
    if tag == "slice":
        return v.a[1 + i]
    if tag == "sq":
        if k == "seq" and len(v.a[0]) == 1 and v.a[0][0].k == "span" and v.a[0][0].a[1].k == "slice":
            return v.a[0][0].a[1].a[1 + i]
        return BOT
    raise NotImplementedError(s)


def put(v, path, new):
    if not path:
        return new
    s = path[0]
    tag = s[0]
    if v.k == "dd":
        if tag == "V":
            return dmap(lambda x: x if x is BOT else (put(x, path, new) if x.k == "adt" and x.a[1] == s[1] else x), (v,))
        return dmap(lambda x: x if x is BOT else put(x, path, new), (v,))
    k, a = v.k, v.a
    if tag == "V":
        return put(v, path[1:], new)
    i = s[1]
    if tag in ("F", "adt"):
        if k == "adt":
            fs = list(a[2])
            if tag == "adt" and i >= len(fs):
                return v  # another variant, which a loop doesn't change
            while len(fs) <= i:
                fs.append(BOT)
            fs[i] = put(fs[i], path[1:], new)
            return mk("adt", a[0], a[1], tuple(fs))
        if k == "tup":
            fs = list(a[0])
            fs[i] = put(fs[i], path[1:], new)
            return mk("tup", tuple(fs))
        if k == "clo":
            fs = list(a[1])
            fs[i] = put(fs[i], path[1:], new)
            return mk("clo", a[0], tuple(fs))
        if k == "bot":
            return BOT
        return App("unk", ("put", v), "?")
    if tag == "I":
        return put_elem(v, s[1], path[1:], new)
    if tag == "S":
        segs = list(v.a[0])
        segs[i] = El(segs[i].a[0], put(segs[i].a[1], path[1:], new))
        return Seq(segs)
    if tag == "CI" and not s[2]:
        return put_elem(v, Int(s[1]), path[1:], new)
    if tag in ("tup", "arr"):
        fs = list(a[0])
        fs[i] = put(fs[i], path[1:], new)
        return mk(k, tuple(fs))
    if tag in ("it",):
        fs = list(a[1])
        fs[i] = put(fs[i], path[1:], new)
        return mk(k, a[0], tuple(fs))
    if tag in ("sref", "box"):
        return mk(k, put(a[0], path[1:], new))
    if tag == "dyn":
        return mk(k, a[0], put(a[1], path[1:], new))
    if tag == "slice":
        fs = [a[1], a[2]]
        fs[i] = put(fs[i], path[1:], new)
        return mk("slice", a[0], fs[0], fs[1])
    if tag == "sq":
        sl = a[0][0].a[1]
        fs = [sl.a[1], sl.a[2]]
        fs[i] = put(fs[i], path[1:], new)
        return Seq((mk("span", T, mk("slice", sl.a[0], fs[0], fs[1])),))
    raise NotImplementedError(path)


def put_elem(v, idx, path, new):
    if v.k == "bot":
        return BOT
    if v.k == "arr":
        fs = list(v.a[0])
        if idx.k == "int":
            if 0 <= idx.a[0] < len(fs):
                fs[idx.a[0]] = put(fs[idx.a[0]], path, new)
            return mk("arr", tuple(fs))
        for i in range(len(fs)):
            g = smap(lambda x: i_eq(x, Int(i)) if is_intleaf(x) else BOT, idx)
            fs[i] = join(g, put(fs[i], path, new), Not(g), fs[i])
        return mk("arr", tuple(fs))
    if v.k == "seq":
        els = seq_elems(v)
        if els is not None and idx.k == "int" and 0 <= idx.a[0] < len(els):
            els[idx.a[0]] = put(els[idx.a[0]], path, new)
            return Seq(El(T, x) for x in els)
    if v.k == "seq" and len(v.a[0]) == 1 and v.a[0][0].a[0] is T and idx.k != "dd":
        s = v.a[0][0]
        if s.k == "upd" and s.a[2] is idx:
            return Seq((mk("upd", T, s.a[1], idx, put(s.a[3], path, new)),))
        if s.k in ("span", "mapq") or (s.k == "rep" and elem_of_rep(s, idx) is not None):
            return Seq((mk("upd", T, v, idx, put(elem(v, idx), path, new) if path else new),))
    base = App("unk", ("putelem", v, idx, new), "?")
    if v.k == "seq":
        n = length_of(v)
        return Seq((mk("span", T, Slice(base, F, n)),))
    return base


def segments(I, st, it):
    """(guard, item) of an iterator over a sequence whose pieces are known but may be absent; else None."""
    if it.k != "it" or it.a[0] not in ("mview", "view", "own"):
        return None
    b, i, j = it.a[1]
    q = get(st.env.get(b.a[0], BOT), b.a[1]) if it.a[0] == "mview" else b
    if q.k != "seq" or i is not F or j is not length_of(q):
        return None
    segs = q.a[0]
    if any(s.k != "el" or s.a[1].k in ("pc", "str", "ev") for s in segs) or all(s.a[0] is T for s in segs):
        return None
    if it.a[0] == "mview":
        return [(s.a[0], mk("mref", b.a[0], b.a[1] + (("S", n),))) for n, s in enumerate(segs)]
    return [(s.a[0], ref_of(s.a[1]) if it.a[0] == "view" else s.a[1]) for s in segs]


def seq_push(seq, seg):
    if seq.k == "dd":
        return dmap(lambda x: seq_push(x, seg), (seq,))
    if seq.k == "bot":
        return BOT
    if seq.k != "seq":
        return Seq((mk("span", T, view_of(seq)), seg))
    segs = seq.a[0]
    return Seq(segs + (seg,))


def seq_elems(seq):
    """The elements of a sequence that consists of known elements only."""
    out = []
    for s in seq.a[0]:
        if s.k == "el" and s.a[0] is T:
            out.append(s.a[1])
        elif s.k == "span" and s.a[0] is T:
            v = s.a[1]
            if v.k == "slice" and v.a[1].k == "int" and v.a[2].k == "int":
                for i in range(v.a[1].a[0], v.a[2].a[0]):
                    out.append(elem(v.a[0], Int(i)))
            else:
                return None
        else:
            return None
    return out


def length_of(v, interp=None, st=None):
    if v.k == "dd":
        return smap(lambda x: length_of(x, interp, st), v)
    k = v.k
    if k == "str":
        return Int(len(v.a[0].encode()))
    if k == "slice":
        return Sub(v.a[2], v.a[1])
    if k == "arr":
        return Int(len(v.a[0]))
    if k == "sref":
        return length_of(v.a[0], interp, st)
    if k == "mref" and st is not None:
        return length_of(get(st.env.get(v.a[0], BOT), v.a[1]), interp, st)
    if k == "mslice":
        return Sub(v.a[3], v.a[2])
    if k == "seq":
        n = F
        for s in v.a[0]:
            if s.k == "el":
                one = T
                if s.a[1].k == "pc" or s.a[1].k == "str":
                    one = piece_len(s.a[1])
            elif s.k in ("span", "upd", "mapq"):
                one = length_of(s.a[1])
            elif s.k == "rep" and len(s.a[4]) == 1 and s.a[4][0].k == "el" and s.a[4][0].a[0] is T and s.a[4][0].a[1].k not in ("pc", "str"):
                one = Sub(s.a[3], s.a[2])
            else:
                one = App("len", (s,), LEN)
            if s.a[0] is not T:
                g = s.a[0]
                one = dmap(lambda c, x: x if c is T else (F if c is F else BOT), (g, one))
            n = Add(n, one)
        return n
    return App("len", (v,), LEN)


def piece_len(x):
    if x.k == "str":
        return Int(len(x.a[0].encode()))
    if x.k == "pc" and x.a[0] == "char" and x.a[1].k == "int" and x.a[1].a[0] < 128:
        return T
    return App("len", (x,), LEN)


ELEM_TY = {}
MAP_READS = {}


def elem_of_rep(s, idx):
    """The element of a repetition with one element per iteration."""
    g, bv, lo, hi, body = s.a
    if g is T and len(body) == 1 and body[0].k == "el" and body[0].a[0] is T and body[0].a[1].k not in ("pc", "str"):
        return subst(body[0].a[1], {bv: Add(lo, idx)})
    return None


def elem_type(v):
    """The element type key of a view's base."""
    if v.k == "app" and isinstance(v.a[2], str):
        ty = v.a[2]
        if ty == "str":
            return "u8"
        d = PROG.desc(ty)
        if d["k"] in ("slice", "array"):
            return d["e"]
        if d["k"] == "adt" and d["path"] == "std::vec::Vec":
            return d["args"][0]
        if d["k"] == "adt" and d["path"] == "std::string::String":
            return "u8"
        t = ELEM_TY.get(v)
        if t is not None:
            return t
        if ty.startswith("[") and ty.endswith("]"):
            return ty[1:-1].split(";")[0]
    return None


def elem(v, idx):
    """The element of an array, sequence or view."""
    if v.k == "dd" or idx.k == "dd":
        return dmap(lambda x, i: BOT if x is BOT or i is BOT else elem(x, i), (v, idx))
    k = v.k
    if k == "arr":
        fs = v.a[0]
        if idx.k == "int":
            return fs[idx.a[0]] if 0 <= idx.a[0] < len(fs) else BOT
        heavy = 1
        for x in fs:
            if x.k == "dd" and is_int(x):
                heavy *= len(leaves(x))
                if heavy > 64:
                    break
        if is_intleaf(idx) and fs and len(fs) <= 512 and heavy <= 64:
            acc = BOT
            for i, x in enumerate(fs):
                c = i_eq(idx, Int(i))
                if c is F:
                    continue
                if c is T:
                    return x
                acc = join(c, x, Not(c), acc)
            return acc
        if fs and all(is_int(x) for x in fs):
            rs = [vrange(x) for x in fs]
            return App("elem", (v, idx), ("i", min(r[0] for r in rs), max(r[1] for r in rs)))
        return App("elem", (v, idx), "?")
    if k == "slice":
        return elem(v.a[0], Add(v.a[1], idx))
    if k == "str":
        b = v.a[0].encode()
        if idx.k == "int":
            return Int(b[idx.a[0]]) if 0 <= idx.a[0] < len(b) else BOT
        return elem(Arr(Int(x) for x in b), idx)
    if k == "sref":
        return elem(v.a[0], idx)
    if k == "seq":
        segs = v.a[0]
        if len(segs) == 1 and segs[0].k == "span" and segs[0].a[0] is T:
            return elem(segs[0].a[1], idx)
        if len(segs) == 1 and segs[0].k == "upd":
            base, at, x = segs[0].a[1:]
            if at is idx:
                return x
            if is_intleaf(at) and is_intleaf(idx):
                c = i_eq(idx, at)
                return join(c, x, Not(c), elem(base, idx))
        if len(segs) == 1 and segs[0].k == "mapq":
            MAP_READS.setdefault(segs[0].a[2], set()).add(idx)
            return elem(segs[0].a[1], idx)
        if len(segs) == 1 and segs[0].k == "rep":
            x = elem_of_rep(segs[0], idx)
            if x is not None:
                return x
        els = seq_elems(v)
        if els is not None:
            if all(x.k not in ("pc", "str") for x in els):
                return elem(Arr(els), idx)
        return App("elem", (v, idx), "?")
    if k == "bot":
        return BOT
    t = elem_type(v)
    if t is not None:
        return PROG.opaque("elem", (v, idx), t)
    return App("elem", (v, idx), "?")


def _re_elem(args, ty):
    v, i = args[0], args[1]
    if v.k in ("slice", "arr", "str", "sref", "seq", "dd") or i.k == "dd":
        return elem(v, i)
    return None


def _re_len(args, ty):
    v = args[0]
    if v.k in ("slice", "arr", "str", "sref", "seq", "dd"):
        return length_of(v)
    return None


REAPP["elem"] = _re_elem
REAPP["len"] = _re_len


def view_of(v):
    """The contents of a container or pointer as a view."""
    if v.k == "dd":
        return dmap(lambda x: BOT if x is BOT else view_of(x), (v,))
    k = v.k
    if k in ("slice", "str", "bot", "mslice"):
        return v
    if k == "sref":
        return view_of(v.a[0])
    if k == "arr":
        return Slice(v, F, Int(len(v.a[0])))
    if k == "seq":
        segs = v.a[0]
        if len(segs) == 1 and segs[0].k == "span" and segs[0].a[0] is T:
            return segs[0].a[1]
        if len(segs) == 1 and segs[0].k == "el" and segs[0].a[0] is T and segs[0].a[1].k == "str":
            return segs[0].a[1]
        els = seq_elems(v)
        if els is not None and all(x.k not in ("pc", "str") for x in els):
            return Slice(Arr(els), F, Int(len(els)))
        return Slice(v, F, length_of(v))
    return Slice(v, F, App("len", (v,), LEN))


def subview(v, a, b):
    if v.k == "dd" :
        return dmap(lambda x: BOT if x is BOT else subview(x, a, b), (v,))
    if v.k == "str":
        if a.k == "int" and b.k == "int":
            s = v.a[0].encode()
            try:
                return Str(s[a.a[0]:b.a[0]].decode())
            except UnicodeDecodeError:
                pass
        s = v.a[0].encode()
        return Slice(Arr(Int(x) for x in s), a, b)
    if v.k == "slice":
        return Slice(v.a[0], Add(v.a[1], a), Add(v.a[1], b))
    if v.k in ("sref", "seq", "arr"):
        return subview(view_of(v), a, b)
    if v.k == "bot":
        return BOT
    return Slice(v, a, b)


# ------------------------------------------------------------------ states


def join_states(sts):
    r = sts[0]
    for s in sts[1:]:
        if s.guard is F:
            continue
        if r.guard is F:
            r = s
            continue
        env = {}
        a, b = r.env, s.env
        same = a.base is b.base
        dirty = (a.dirty | b.dirty) if same else None
        for c, v in a.items():
            w = b.get(c)
            if w is None:
                env[c] = v
            elif v is w:
                env[c] = v
            elif same and c not in dirty and c in a.base:
                env[c] = a.base[c]
            else:
                env[c] = join(r.guard, v, s.guard, w)
        for c, w in b.items():
            if c not in a:
                env[c] = w
        if not same:
            dirty = a.dirty | b.dirty | set(env)
        r = State(Or(r.guard, s.guard), Env(env, dirty, a.base))
    return r


_cd = {}


def constrain_deep(v, g):
    """Simplifies the diagrams anywhere inside of a value by what `g` decides."""
    if g is T:
        return v
    key = (v, g)
    r = _cd.get(key)
    if r is not None:
        return r
    k = v.k
    if k == "dd":
        r = constrain(v, g)
        if r.k != "dd":
            r = constrain_deep(r, g)
    elif k == "adt":
        r = mk("adt", v.a[0], v.a[1], tuple(constrain_deep(x, g) for x in v.a[2]))
    elif k in ("tup", "arr"):
        r = mk(k, tuple(constrain_deep(x, g) for x in v.a[0]))
    elif k in ("clo", "it"):
        r = mk(k, v.a[0], tuple(constrain_deep(x, g) if isinstance(x, V) else x for x in v.a[1]))
    elif k in ("sref", "box"):
        r = mk(k, constrain_deep(v.a[0], g))
    elif k == "slice":
        r = mk("slice", v.a[0], constrain_deep(v.a[1], g), constrain_deep(v.a[2], g))
    elif k == "seq":
        segs = []
        for s in v.a[0]:
            c = s.a[0]
            if c is not T:
                c2 = constrain(c, g)
                if c2 is F:
                    continue
                if c2 is BOT:
                    c2 = c
                s = mk(s.k, c2, *s.a[1:])
            segs.append(s)
        r = Seq(segs)
    else:
        r = v
    _cd[key] = r
    return r


def is_update(old, new):
    return old.k == "seq" and new.k == "seq" and len(new.a[0]) == 1 and new.a[0][0].k == "upd" and new.a[0][0].a[1] is old


def diff(old, new, path, cell, H):
    """The positions where a loop iteration changes a value, with how to abstract each."""
    if old is new:
        return
    mode = H.get((cell, path))
    if mode is not None:
        if mode == "map" and not is_update(old, new):
            yield path, "val"
        if mode == "seq":
            a, b = old.a[0], (new.a[0] if new.k == "seq" else None)
            if b is None or len(b) < len(a) or b[: len(a)] != a:
                yield path, "val"
        return
    so = shape(old)
    if so is not None and old.k != "dd" and new.k != "dd" and so == shape(new) and so[0] != "seq":
        k = so[0]
        if k == "adt":
            pairs = list(zip(old.a[2], new.a[2]))
        elif k in ("tup", "arr"):
            pairs = list(zip(old.a[0], new.a[0]))
        elif k in ("clo", "it"):
            pairs = list(zip(old.a[1], new.a[1]))
        elif k == "slice":
            pairs = [(old.a[1], new.a[1]), (old.a[2], new.a[2])]
        elif k == "dyn":
            pairs = None
        else:
            pairs = [(old.a[0], new.a[0])]
        if pairs is not None:
            for i, (x, y) in enumerate(pairs):
                if x is not y:
                    yield from diff(x, y, path + ((k, i),), cell, H)
            return
    if is_update(old, new):
        yield path, "map"
        return
    if old.k == "seq" and new.k == "seq":
        a, b = old.a[0], new.a[0]
        if (
            len(a) == 1 and len(b) == 1 and a[0].k == "span" and b[0].k == "span" and a[0].a[0] is T and b[0].a[0] is T
            and a[0].a[1].k == "slice" and b[0].a[1].k == "slice" and a[0].a[1].a[0] is b[0].a[1].a[0]
        ):
            x, y = a[0].a[1], b[0].a[1]
            for i in (0, 1):
                if x.a[1 + i] is not y.a[1 + i]:
                    yield from diff(x.a[1 + i], y.a[1 + i], path + (("sq", i),), cell, H)
            return
        if len(b) >= len(a) and b[: len(a)] == a:
            yield path, "seq"
            return
        yield path, "val"
        return
    if is_int(old) and is_int(new):
        yield path, "int"
        return
    yield path, "val"


# ------------------------------------------------------------------ closed forms


def closed_form(I, rec, outs):
    """Rewrites what leaves a counting loop over 0..N (or p0..N) in closed form.

    Anything appended per iteration becomes a `rep` segment, and leaving early on a
    condition of the element becomes a search (`any`/`ffirst`), so that a loop, an
    iterator chain and a library call which do the same give the same terms.
    """
    rec.pos = rec.bound = rec.pred = rec.split = None
    if rec.back_guard is F:
        return outs
    for ph in rec.phis:
        if ph.mode != "int" or ph.phi.k != "app" or ph.back.k == "dd" or ph.init.k == "dd":
            continue
        if not is_intleaf(ph.back) or not is_intleaf(ph.init):
            continue
        d = l_add(ph.back, ph.phi, -1)
        if d.k == "int" and d.a[0] not in (0, 1) and not any(up(q) for q in rec.phis):
            outs = counted_up(I, rec, ph, d.a[0], outs)
        if l_add(ph.back, ph.phi, -1) is not T:
            continue
        outs = in_step(rec, ph, outs)
        outs = in_blocks(rec, ph, outs)
        r = bound_of(I, rec, ph, outs)
        if r is None:
            continue
        N, done, outs = r
        others = [q for q in rec.phis if q is not ph]
        rec.pos, rec.bound = ph, N
        return close(I, rec, ph, N, done, others, outs)
    return outs


def stepped(ph, back, g):
    """A phi's next value as `phi + 1` when it only is a constant where the phi is one."""
    if ph.mode != "int" or ph.phi.k != "app" or not (back.k == "dd" or back.k == "int"):
        return back
    for step in (1, -1):
        nxt = l_add(ph.phi, Int(step))
        ok = True
        for x in leaves(back):
            if x is nxt or x is BOT:
                continue
            if x.k != "int":
                ok = False
                break
            h = And(g, leaf_guard(back, lambda y, x=x: y is x))
            if h is not F and not implies(h, i_eq(ph.phi, Int(x.a[0] - step))):
                ok = False
                break
        if ok:
            return nxt
    return back


def up(q):
    """Whether a phi counts up."""
    return q.mode == "int" and q.phi.k == "app" and is_intleaf(q.back) and q.back.k != "dd" and l_add(q.back, q.phi, -1) is T


def counted_up(I, rec, ph, step, outs):
    """The loop with a position that counts the iterations instead of one that takes other steps."""
    p = ph.phi
    k = App("down", (Str(str(p.id)),), LEN)
    m = {p: l_add(ph.init, k, step)}
    rec.back_guard = subst(rec.back_guard, m)
    for q in rec.phis:
        if q is not ph:
            q.back = subst(q.back, m)
    ph.phi, ph.init, ph.back = k, Int(0), l_add(k, T)
    res = []
    for tgt, s, src in outs:
        s2 = State(subst(s.guard, m), s.env.mapped(lambda v: subst(v, m)))
        res.append((tgt, s2, src))
    return res


def in_step(rec, ph, outs):
    """The loop with other positions that move by constant steps written in terms of `ph`."""
    mine = phi_apps(rec)
    m = {}
    for q in rec.phis:
        if q is ph or q.mode != "int" or q.phi.k != "app" or q.back.k == "dd" or q.init.k == "dd":
            continue
        if is_intleaf(q.back) and is_intleaf(q.init) and not apps(q.init) & mine:
            d = l_add(q.back, q.phi, -1)
            if d.k == "int" and d.a[0]:
                m[q.phi] = l_add(q.init, l_add(ph.phi, ph.init, -1), d.a[0])
    if not m or not any(apps(rec.back_guard) & set(m) for _ in (0,)):
        return outs
    rec.back_guard = subst(rec.back_guard, m)
    for q in rec.phis:
        if q is not ph and q.phi not in m:
            q.back = subst(q.back, m)
    return [(tgt, State(subst(s.guard, m), s.env.mapped(lambda v: subst(v, m))), src) for tgt, s, src in outs]


def in_blocks(rec, ph, outs):
    """The loop with comparisons of a multiple of the position written as comparisons of the position."""
    p = ph.phi
    others = phi_apps(rec) - {p}
    m = {}
    for a in apps(rec.back_guard):
        if a.a[0] != "le0":
            continue
        d, k = lin_of(a.a[1][0])
        c = d.get(p, 0)
        if abs(c) < 2 or apps(a) & others:
            continue
        neg = c > 0
        if neg:
            # c p + r <= 0 is not (1 - r <= c p)
            rest, k = {t: -x for t, x in d.items() if t is not p}, 1 - k
        else:
            rest = {t: x for t, x in d.items() if t is not p}
        c = abs(c)
        up = lin_make(rest, k + c - 1)
        if lrange(up)[0] < 0:
            continue
        # r <= c p, so that p is at least r / c, rounded up
        le = i_le(muldiv("Div", up, Int(c), 0, 2**64 - 1), p)
        m[a] = Not(le) if neg else le
    if not m:
        return outs
    rec.back_guard = subst(rec.back_guard, m)
    for q in rec.phis:
        q.back = subst(q.back, m)
    return [(tgt, State(subst(s.guard, m), s.env.mapped(lambda v: subst(v, m))), src) for tgt, s, src in outs]


def bound_cases(I, rec):
    """The conditions on the input under which a counting loop has different bounds."""
    if rec.back_guard is F:
        return None
    mine = phi_apps(rec)
    for ph in rec.phis:
        if ph.mode != "int" or ph.phi.k != "app" or ph.back.k == "dd" or not is_intleaf(ph.back) or l_add(ph.back, ph.phi, -1) not in (T, Int(-1)):
            continue
        if ph.init.k == "dd":
            ls = [x for x in leaves(ph.init) if x is not BOT]
            if 1 < len(ls) <= 8:
                gs = [leaf_guard(ph.init, lambda y, x=x: y is x) for x in ls]
                gs = [g for g in gs if And(rec.entry_guard, g) is not F]
                if len(gs) > 1 and not (set().union(*(apps(g) for g in gs)) & mine):
                    return gs
        p = ph.phi
        memo = {}

        def conds(g):
            """The comparison that bounds the position, as a diagram over the input."""
            r = memo.get(g)
            if r is None:
                r = BOT
                if g.k == "dd":
                    a = g.a[0]
                    if a.a[0] == "le0" and p in apps(a) or a is p:
                        r = a if a is not p else Tup((Int(0),) + tuple(Int(s_min(p, s)) for s, c in g.a[1]))
                    else:
                        kids = [conds(c) for _, c in g.a[1]]
                        real = {k for k in kids if k is not BOT}
                        if len(real) == 1:
                            r = real.pop()
                        elif real and not (apps(a) | {a}) & mine:
                            r = mkdd(a, [(s, k) for (s, _), k in zip(g.a[1], kids)])
                memo[g] = r
            return r
        c = conds(rec.back_guard)
        if c.k != "dd":
            gs = one_bound(rec, p, mine)
            if gs:
                return gs
            continue
        ls = [x for x in leaves(c) if x is not BOT]
        if 1 < len(ls) <= 8:
            gs = [leaf_guard(c, lambda y, x=x: y is x) for x in ls]
            rest = Not(OrAll(gs))
            gs = [g for g in gs + [rest] if And(rec.entry_guard, g) is not F]
            if len(gs) > 1:
                return gs
    return None


def one_bound(rec, p, mine):
    """A condition on the input, and its opposite, for each of which the position has fewer bounds."""
    def bounds(g):
        return {a for a in apps(g) if a.a[0] == "le0" and p in apps(a)}
    g = rec.back_guard
    n = len(bounds(g))
    if not 2 <= n <= 4:
        return None
    for a in sorted(apps(g), key=lambda a: a.id):
        if a.a[0] == "le0" and not apps(a) & mine:
            c = lit(a, 2)
            gs = [And(rec.entry_guard, c), And(rec.entry_guard, Not(c))]
            if F not in gs and all(len(bounds(constrain(g, h))) < n for h in gs):
                return [c, Not(c)]
    return None


def bound_of(I, rec, ph, outs):
    """N such that the loop goes on only while `ph < N`, and the exits for `ph >= N`."""
    p = ph.phi
    mine = set()
    for q in rec.phis:
        mine |= phi_atoms(q) if q.mode == "map" else apps(q.phi)
    cands = {}
    for a in apps(rec.back_guard):
        if a.a[0] == "le0":
            d, k = lin_of(a.a[1][0])
            c = d.get(p)
            if c in (1, -1):
                rest = {t: -x * c for t, x in d.items() if t is not p}
                # p - N + 1 <= 0  or  N - p <= 0
                n = lin_make(rest, -k * c + (1 if c == 1 else 0))
                n2 = lin_make(rest, -k * c)
                cands[n] = cands[n2] = 1
    seen = set()

    def consts(g):
        if g.k == "dd" and g not in seen:
            seen.add(g)
            if g.a[0] is p:
                for s, c in g.a[1]:
                    lo = s_min(p, s)
                    if lo > 0:
                        cands[Int(lo)] = 1
            for _, c in g.a[1]:
                consts(c)
    consts(rec.back_guard)
    def empty(g):
        if g is F:
            return True
        g = And(rec.entry_guard, g)
        if g is F:
            return True
        try:
            return feasible_cube(g, I.facts, limit=300) is None
        except Budget:
            return False

    fits = [n for n in cands if not (apps(n) & mine or p in apps(n)) and implies(rec.back_guard, i_lt(p, n))]
    for n in fits:
        lt = i_lt(p, n)
        test = (lambda g: g is F) if len(fits) == 1 else empty
        done = [o for o in outs if test(And(o[1].guard, lt))]
        rest = [o for o in outs if o not in done]
        if not done or any(not test(And(o[1].guard, Not(lt))) for o in rest):
            # leaving at once, whatever the position: a condition on the input
            for o in rest:
                go = constrain(constrain(o[1].guard, lt), rec.entry_guard)
                if rec.split is None and go is not F and go is not T and go.k == "dd" and not apps(go) & mine and not empty(go) and not empty(Not(go)):
                    rec.split = go
            continue
        # p0 <= N
        bad = smap(lambda a, b: i_lt(b, a), ph.init, n)
        g = And(rec.entry_guard, bad)
        if g is not F:
            try:
                if feasible_cube(g, I.facts, limit=500) is not None:
                    go = smap(i_lt, ph.init, n)
                    if not (apps(go) & mine) and And(rec.entry_guard, go) is not F and And(rec.entry_guard, Not(go)) is not F:
                        rec.split = go
                    continue
            except Budget:
                continue
        return n, done, outs
    if rec.split is None and len(fits) == 1:
        # leaving on another condition, also at the bound
        n = fits[0]
        lt = i_lt(p, n)
        bad = smap(lambda a, b: i_lt(b, a), ph.init, n)
        if empty(bad):
            done, rest = [], []
            for tgt, s, src in outs:
                for g, to in ((And(s.guard, Not(lt)), done), (And(s.guard, lt), rest)):
                    if not empty(g):
                        to.append((tgt, State(g, s.env.mapped(lambda v: constrain_deep(v, g))), src))
            if done and rest and not any(apps(o[1].guard) & free_of(rec) for o in rest):
                return n, done, done + rest
    if rec.split is None and 1 < len(fits) <= 4:
        for i, n in enumerate(fits):
            for k in fits[i + 1:]:
                go = smap(i_le, n, k)
                if And(rec.entry_guard, go) is not F and And(rec.entry_guard, Not(go)) is not F and not empty(go) and not empty(Not(go)):
                    rec.split = go
                    return None
    return None


def is_symbolic(exits):
    """Whether a loop may be left in almost every iteration so far, each time depending on something searched for."""
    return sum(any(a.a[0] in ("any", "ffirst", "phi") for a in apps(s.guard)) for _, s, _ in exits) * 2 > len(exits)


def bound_var(p, *bodies):
    """A bound variable that isn't used inside of `bodies` yet (numbered from the inside out)."""
    n = 0
    for b in bodies:
        for a in apps(b):
            if a.a[0] == "bv":
                n = max(n, a.a[1][0])
    return App("bv", (n + 1,), ("i",) + tuple(dom(p)))


def lam_body(v):
    return v.a[0]


def any_atom(bv, lo, hi, pred):
    """Whether something in lo..hi fulfils a predicate."""
    y = pred.a[0]
    if y.k == "dd" and y.a[0].a[0] == "elem" and len(y.a[1]) == 2 and lo is F:
        e = y.a[0]
        base, i = e.a[1]
        top = dom(e)[1]
        if i is bv and base.k == "app" and y is lit(e, s_of(e, range(128, top + 1))):
            # a text with a character that isn't ASCII
            if base.a[2] == "str" and top == 255:
                return Not(lit(App("is_ascii", (Slice(base, lo, hi),), BOOL), 2))
            if base.a[0] == "chars" and hi is App("len", (base,), LEN):
                return Not(lit(App("is_ascii", (base.a[1][0],), BOOL), 2))
    return lit(App("any", (bv, lo, hi, pred), BOOL), 2)


def close(I, rec, ph, N, done, others, outs):
    p = ph.phi
    base = And(rec.entry_guard, i_lt(p, N))
    p0 = ph.init
    # values the other phis have in an iteration, as far as they are functions of the position
    m = {}
    firsts = set()
    for q in others:
        if q.mode in ("seq", "map") or q.back is BOT:
            continue
        x = None
        if not (apps(q.back) & (phi_apps(rec) - {p})):
            x = subst(q.back, {p: l_add(p, T, -1)})
            if not rec.peeled or not agrees(rec.entry_guard, q.init, subst(x, {p: p0})):
                first = smap(i_eq, p, p0)
                x = join(first, q.init, Not(first), x)
                firsts |= phi_atoms(q)
        elif accumulated(q) is not None and not (apps(accumulated(q)[1]) & phi_apps(rec) - {p}):
            op, y = accumulated(q)
            y = constrain(y, base)
            bv = bound_var(p, y)
            y = subst(y, {p: bv})
            if op == "or":
                x = Or(q.init, any_atom(bv, p0, p, mk("lam", y)))
            elif op == "and":
                x = And(q.init, Not(any_atom(bv, p0, p, mk("lam", Not(y)))))
            else:
                x = App("bitsover", (bv, p0, p, mk("lam", y)), q.phi.a[2])
                if q.init is not F:
                    x = None
        elif q.mode == "int" and is_intleaf(q.back) and is_intleaf(q.init) and q.phi.k == "app":
            d = l_add(q.back, q.phi, -1)
            if not (apps(d) & phi_apps(rec)):
                if d.k == "int":
                    x = l_add(q.init, l_scale(l_add(p, p0, -1), d.a[0]))
        if x is not None:
            if q.phi.k == "app":
                m[q.phi] = x
            elif q.phi.k == "dd" and q.mode == "int":
                m[q.phi.a[0]] = x
    free = set()
    for q in others:
        if q.mode == "seq":
            free |= apps(q.phi)
        elif q.mode == "map":
            free |= phi_atoms(q)
        else:
            for a in phi_atoms(q):
                if a not in m:
                    free |= {a}
    early = [o for o in outs if o not in done]
    pred = OrAll(o[1].guard for o in early)
    # the loop can't be searched for when leaving it depends on what it accumulates
    searchable = not (apps(pred) & free)
    if pred is not F and not searchable:
        rec.pos = rec.bound = None
        return outs
    if pred is not F and apps(pred) & firsts and not rec.peeled:
        rec.peel = True
        rec.pos = rec.bound = None
        return outs
    if pred is not F:
        pred = subst(constrain(pred, base), m)
        bv = bound_var(p, pred)
        pred = mk("lam", subst(pred, {p: bv}))
    anyg = F
    if pred is not F:
        anyg = any_atom(bv, p0, N, pred)
        rec.pred = pred
    res = []
    at_n = dict((k, subst(v, {p: N})) for k, v in m.items())
    at_n[p] = N
    for tgt, s, src in outs:
        if (tgt, s, src) in done:
            s2 = State(BOT, Env({}, set(s.env.dirty), s.env.base))
            g = constrain(s.guard, And(rec.entry_guard, Not(i_lt(p, N))))
            g = subst(g, at_n)
            s2.guard = And(And(rec.entry_guard, Not(anyg)), g)
            seqs = {}
            for q in others:
                if q.mode == "seq":
                    seqs[q.phi.a[0][0]] = rep_segs(I, rec, q, p, p0, N, base, m, free)
                elif q.mode == "map":
                    seqs[q.phi.a[0][0]] = map_segs(q, p, p0, N, m, free)
            for c, v in s.env.items():
                v = replace_segs(v, seqs)
                s2.env.refine(c, subst(v, at_n))
            res.append((tgt, s2, src))
        else:
            if pred is F:
                continue
            ff = App("ffirst", (bv, p0, N, pred), LEN)
            I.facts.add(ff, *_lt_fact(ff, N))
            if is_intleaf(p0):
                I.facts.add(ff, *lin_of(l_add(p0, ff, -1)))
            at_f = dict((k, subst(v, {p: ff})) for k, v in m.items())
            at_f[p] = ff
            s2 = State(BOT, Env({}, set(s.env.dirty), s.env.base))
            g = constrain(s.guard, base)
            s2.guard = And(And(rec.entry_guard, anyg), subst(g, at_f) if len(early) > 1 else T)
            seqs = {}
            for q in others:
                if q.mode == "seq":
                    seqs[q.phi.a[0][0]] = rep_segs(I, rec, q, p, p0, ff, base, m, free)
            for c, v in s.env.items():
                s2.env.refine(c, subst(replace_segs(v, seqs), at_f))
            res.append((tgt, s2, src))
    return res


def agrees(g, a, b):
    """Whether two values are the same wherever `g` holds, as far as that's obvious."""
    if a is b:
        return True
    for x in leaves(a):
        for y in leaves(b):
            if x is y or x is BOT or y is BOT:
                continue
            h = And(And(g, leaf_guard(a, lambda z, x=x: z is x) if a.k == "dd" else T), leaf_guard(b, lambda z, y=y: z is y) if b.k == "dd" else T)
            if h is not F:
                return False
    return True


def free_of(rec):
    """The terms of a loop's sequences, which can't be searched for."""
    out = set()
    for q in rec.phis:
        if q.mode == "seq":
            out |= apps(q.phi)
        elif q.mode == "map":
            out |= phi_atoms(q)
    return out


def accumulated(q):
    """("or"/"and"/"bits", value) for a phi that only collects conditions or bits over the iterations."""
    b, f = q.back, q.phi
    if q.mode != "int":
        return None
    if f.k == "dd" and dom(f.a[0]) == (0, 1) and f is lit(f.a[0], 2):
        t = constrain(b, Not(f))
        if constrain(b, f) is T and f.a[0] not in apps(t):
            return "or", t
        t = constrain(b, f)
        if constrain(b, Not(f)) is F and f.a[0] not in apps(t):
            return "and", t
        return None
    def added(x):
        if x is f or x is BOT:
            return F
        if x.k == "app" and x.a[0] == "bitBitOr" and f in x.a[1]:
            y = x.a[1][0] if x.a[1][1] is f else x.a[1][1]
            if f not in apps(y):
                return y
        return None

    if f.k == "app":
        ys = [(x, added(x)) for x in leaves(b)]
        if all(y is not None for _, y in ys) and any(y is not F for _, y in ys):
            out = BOT
            g = F
            for x, y in ys:
                h = leaf_guard(b, lambda z, x=x: z is x)
                out, g = join(g, out, h, y), Or(g, h)
            if f not in apps(out):
                return "bits", out
    return None


def _lt_fact(x, n):
    d, k = lin_of(l_add(l_add(x, n, -1), T))
    return d, k


def phi_apps(rec):
    out = set()
    for q in rec.phis:
        out |= phi_atoms(q)
    return out


def phi_atoms(q):
    """The terms a phi introduces."""
    if q.mode == "seq":
        return set(apps(q.phi))
    if q.mode == "map":
        return {q.phi.a[0][0].a[2]}
    if q.mode == "int":
        return {q.phi} if q.phi.k == "app" else {q.phi.a[0]}
    return {a for a in apps(q.phi) if a.a[0] == "phi"} or set(apps(q.phi))


def rep_segs(I, rec, q, p, p0, N, base, m, free):
    """What a loop appends over all of its iterations to a sequence."""
    back = q.back
    init = q.init.a[0]
    if back.k != "seq" or back.a[0][:1] != q.phi.a[0][:1]:
        return None
    lam = []
    for seg in back.a[0][1:]:
        g = constrain(seg.a[0], base)
        seg = mk(seg.k, g, *seg.a[1:])
        if apps(seg) & free:
            return None
        lam.append(subst(seg, m))
    bv = bound_var(p, *lam)
    lam = [subst(x, {p: bv}) for x in lam]
    if not lam:
        return init
    if len(lam) == 1 and lam[0].k == "el" and lam[0].a[0] is T:
        x = lam[0].a[1]
        # copying a view element by element
        if x.k == "app" and x.a[0] == "elem":
            b, i = x.a[1]
            off = l_add(i, bv, -1) if is_intleaf(i) else None
            if off is not None and bv not in apps(off) and bv not in apps(b):
                return init + (mk("span", T, Slice(b, Add(p0, off), Add(N, off))),)
    return init + (mk("rep", T, bv, p0, N, tuple(lam)),)


def map_segs(q, p, p0, N, m, free):
    """A sequence whose elements a loop replaces one after the other."""
    back = q.back
    if not is_update(q.phi, back):
        return None
    _, at, x = back.a[0][0].a[1:]
    if at is not p or MAP_READS.get(q.phi.a[0][0].a[2], set()) - {p} or apps(x) & free:
        return None
    if p0 is not F or N is not length_of(q.init):
        return None
    x = subst(x, m)
    bv = bound_var(p, x)
    return (mk("rep", T, bv, p0, N, (El(T, subst(x, {p: bv})),)),)


def replace_segs(v, seqs):
    """Replaces the phi prefix of sequences anywhere inside of `v`."""
    if not seqs:
        return v
    targets = set()
    for seg, new in seqs.items():
        targets |= apps(seg)
    memo = {}

    def f(x):
        if not (apps(x) & targets):
            return x
        r = memo.get(x)
        if r is None:
            if x.k == "seq" and x.a[0] and x.a[0][0] in seqs and seqs[x.a[0][0]] is not None:
                r = Seq(seqs[x.a[0][0]] + tuple(f(y) for y in x.a[0][1:]))
            else:
                r = rebuild(x, f)
            memo[x] = r
        return r

    return f(v)
