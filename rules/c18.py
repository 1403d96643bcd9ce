"""C18: sorting orders every level by tag, keeps equal tags in order, and is optional."""
from engine.interp import State
from .flow import *

RULE = ("The summary of sorting a block must be: the block's nodes stably sorted in ascending order, each with its child block replaced "
        "by that block's sorted form and with everything else unchanged. The summary of comparing two nodes must be the lexicographic "
        "comparison of their tag bytes, for each pair of element variants. In the summary of main, for each TLV option, the block that is "
        "displayed must be the sorted one wherever the sorting setting is on, and the unsorted one wherever it's off.")

NODE = "emv::tlv_parsing::ProcessedEmvNode"
STABLE = {"sort", "sort_by", "sort_by_key", "sort_by_cached_key"}


def call_closure(ctx, clo, args, ty):
    r = ctx.call_value(clo, args, ty)
    return r


def tag_of(p, v, x):
    """A node of one variant, and the view of its tag bytes."""
    nt = key_of(p, NODE)
    tt = key_of(p, PROCESSED)
    rt = key_of(p, RAW)
    tag = vec(x + "tag")
    raw = Adt(rt, 0, [tag if nm == "tag" else p.opaque(x + "." + nm, (), ty) for nm, ty in p.variants(rt)[0]["f"]])
    el = Adt(tt, v, [raw if ty == rt else p.opaque("%s.%s" % (x, nm), (), ty) for nm, ty in p.variants(tt)[v]["f"]])
    node = Adt(nt, 0, [el if ty == tt else p.opaque("%s.%s" % (x, nm), (), ty) for nm, ty in p.variants(nt)[0]["f"]])
    return node, view(tag)


def order_cells(v):
    """{outcome of the comparison: ordering} if `v` is a function of one comparison of byte strings."""
    while v.k == "adt" and v.a[2]:
        v = v.a[2][0]
    if v.k != "dd" or v.a[0].a[0] != "discr" or v.a[0].a[1][0].a[0] != "lexcmp":
        return None, None
    cells = {}
    for s, c in v.a[1]:
        while c.k == "adt" and c.a[2]:
            c = c.a[2][0]
        for n in s_iter(v.a[0], s):
            cells[n] = c
    return v.a[0].a[1][0].a[1], cells


def comparison(ctx, what, compare):
    p = ctx.p
    tt = key_of(p, PROCESSED)
    for i, vi in enumerate(p.variants(tt)):
        for j, vj in enumerate(p.variants(tt)):
            ctx.count("obligations")
            key = "order:%s:%s-%s" % (what, vi["n"], vj["n"])
            a, ta = tag_of(p, i, "a.")
            b, tb = tag_of(p, j, "b.")
            ret = compare(a, b)
            args, cells = order_cells(ret)
            if args is None:
                if tainted(ret) or ret is BOT:
                    ctx.undecided(key, show(ret, 3)[:200])
                else:
                    ctx.violation(key, "%s of a %s and a %s element isn't the order of their tag bytes" % (what, vi["n"], vj["n"]), show(ret, 6)[:800])
                continue
            want = {n: n for n in (0, 1, 2)}
            got = {n: c.a[1] if c.k == "adt" else None for n, c in cells.items()}
            if tuple(args[:2]) == (tb, ta):
                want = {0: 2, 1: 1, 2: 0}
            elif tuple(args[:2]) != (ta, tb):
                if tainted(*args):
                    ctx.undecided(key, show(ret, 3)[:200])
                else:
                    ctx.violation(key, "%s compares something other than the elements' tag bytes" % what, [show(x, 5)[:300] for x in args])
                continue
            if got != want:
                ctx.violation(key, "%s of a %s and a %s element doesn't follow the ascending order of their tag bytes" % (what, vi["n"], vj["n"]))


def node_order(ctx):
    n = 0
    for m in ("std::cmp::Ord>::cmp", "std::cmp::PartialOrd>::partial_cmp"):
        f = ctx.fn("<%s as %s" % (NODE, m), False)
        if f:
            n += 1
            with ctx.guardeds(f):
                comparison(ctx, f, lambda a, b, f=f: ctx.run(f, [Sref(a), Sref(b)]).ret)
    for m in ("lt", "le", "gt", "ge", "max", "min"):
        for tr in ("PartialOrd", "Ord"):
            if ctx.fn("<%s as std::cmp::%s>::%s" % (NODE, tr, m), False):
                ctx.undecided("order", "the node type has its own " + m)
    if not n:
        ctx.undecided("order", "nodes have no order")


def levels(ctx):
    p = ctx.p
    if ctx.fn(SORT) is None:
        return
    bt = key_of(p, BLOCK_TY)
    cell = ("in", "block")
    block = p.opaque("block", (), bt)
    r = ctx.run(SORT, [mk("mref", cell, ())], opaque={SORT: uninterpreted}, env={cell: block})
    fi = p.field_index(bt, "nodes")
    given, got = block.a[2][fi], r.env[cell]
    if got.k != "adt":
        raise Undecided("the sorted block is " + show(got, 3)[:200])
    got = got.a[2][fi]
    ctx.count("obligations", 3)
    sorts = [a for a in apps(got) if a.a[0] == "sorted"]
    size = length_of_view(view(given))
    if not sorts:
        if tainted(got):
            raise Undecided("sorting gives " + show(got, 4)[:300])
        ctx.violation("unsorted", "sorting a block doesn't sort its nodes")
        return
    if len(sorts) > 1:
        kinds = {a.a[1][1] for a in sorts}
        for k in kinds - STABLE:
            bad_kind(ctx, k)
        raise Undecided("the nodes are sorted more than once")
    s = sorts[0]
    base, kind = s.a[1][0], s.a[1][1]
    if kind not in STABLE:
        bad_kind(ctx, kind)
        return
    if kind != "sort":
        custom(ctx, kind, s)
    else:
        node_order(ctx)
    nt = key_of(p, NODE)
    child = p.field_index(nt, "child_block")

    def expected(src, bv):
        n = elem(src, bv)
        if n.k != "adt":
            raise Undecided("node " + show(n, 2)[:100])
        fs = list(n.a[2])
        sub = p.opaque("mut0:" + SORT, (Sref(fs[child]),), bt)
        fs[child] = sub
        return Adt(n.a[0], n.a[1], fs), n

    def judge(segs, src):
        if len(segs) == 1 and segs[0].k == "rep":
            g, bv, lo, hi, body = segs[0].a
            if len(body) == 1 and body[0].k == "el":
                want, plain = expected(src, bv)
                x = body[0].a[1]
                if g is not T or body[0].a[0] is not T:
                    if not tainted(g, body[0].a[0]):
                        ctx.violation("dropped", "sorting drops nodes under a condition")
                        return True
                    return False
                if x is want:
                    if lo is F and hi is size:
                        return True
                    if is_intleaf(lo) and is_intleaf(hi) and not tainted(lo, hi):
                        ctx.violation("levels", "only the nodes from %s to %s are sorted in depth" % (show(lo, 3), show(hi, 3)))
                        return True
                    return False
                if not tainted(x):
                    if x is plain:
                        ctx.violation("levels", "nested levels aren't sorted")
                    else:
                        ctx.violation("changed", "sorting changes more of a node than its child block's order", show(x, 5)[:800])
                    return True
        return False

    if base is view(given):
        if got.k == "seq" and len(got.a[0]) == 1 and got.a[0][0].k == "span" and got.a[0][0].a[1] is Slice(s, F, size):
            ctx.violation("levels", "nested levels aren't sorted")
            return
        if got.k == "seq" and judge(got.a[0], s):
            ctx.sample({"sorting": "stable sort of the nodes, then of each child block", "by": kind})
            return
    else:
        b = base
        if b.k == "slice" and b.a[0].k == "seq" and b.a[1] is F:
            if judge(b.a[0].a[0], view(given)):
                return
    raise Undecided("sorting gives " + show(got, 4)[:400])


def length_of_view(v):
    from engine.interp import length_of
    return length_of(v)


def bad_kind(ctx, kind):
    if "unstable" in kind:
        ctx.violation("stable", "nodes are sorted by slice::%s, which doesn't keep elements with equal tags in order" % kind)
    else:
        ctx.violation("kind", "sorting a block applies slice::%s to its nodes" % kind)


def custom(ctx, kind, s):
    """A comparison or key function that is given to the sort."""
    p = ctx.p
    f = s.a[1][3]
    if kind == "sort_by":
        comparison(ctx, "the comparison", lambda a, b: ctx.call_value(f, [Sref(a), Sref(b)], "std::cmp::Ordering"))
        return
    tt = key_of(p, PROCESSED)
    for i, v in enumerate(p.variants(tt)):
        ctx.count("obligations")
        a, ta = tag_of(p, i, "a.")
        k = ctx.call_value(f, [Sref(a)], "std::vec::Vec<u8>")
        while k.k == "sref":
            k = k.a[0]
        if k.k == "seq" and len(k.a[0]) == 1 and k.a[0][0].k == "span":
            k = view(k)
        if k is not ta:
            if tainted(k):
                ctx.undecided("key:" + v["n"], show(k, 3)[:100])
            else:
                ctx.violation("key:" + v["n"], "the sort key of a %s element isn't its tag bytes" % v["n"], show(k, 4)[:300])


def optional(ctx):
    p = ctx.p
    flow = Flow(ctx)
    bt = key_of(p, BLOCK_TY)
    fi = p.field_index(bt, "nodes")
    for op in ops(ctx, flow):
        if op.block is None:
            continue
        what = "option --" + op.name
        ats = flow.setting.get("sort_parsed_tags")
        if not ats:
            if tainted(flow.r.out):
                raise Undecided("the sorting setting")
            ctx.violation("setting", "the sorting setting isn't looked at")
            return
        on = flow.setting_value("sort_parsed_tags", op.m)
        sorted_block = smap(lambda b: p.opaque("mut0:" + SORT, (Sref(b),), bt), op.block)
        for g, fn, v, i, sev in op.shown():
            for cond, want, txt in ((on, sorted_block, "enabled"), (Not(on), op.block, "disabled")):
                ctx.count("obligations")
                gg = And(g, cond)
                if gg is F:
                    ctx.undecided(what, "nothing is displayed with sorting " + txt)
                    continue
                x, w = within(v, gg), within(want, gg)
                if x is w or settle(x, gg) is settle(w, gg):
                    continue
                if tainted(x):
                    ctx.undecided(what, show(x, 3)[:200])
                else:
                    is_sorted = any(a.a[0].startswith("mut0:" + SORT) for a in apps(settle(x, gg)))
                    ctx.violation("optional:%s:%s" % (op.name, txt), "with sorting %s, %s displays the %s block" % (
                        txt, what, "sorted" if is_sorted else "unsorted"))
        ctx.sample({"option": op.name, "sorted": "exactly when sort_parsed_tags is set"})


def settle(v, g):
    """Sequence pieces that can't be there under `g` removed."""
    v = within(v, g)
    if v.k == "adt":
        return Adt(v.a[0], v.a[1], [settle(x, g) for x in v.a[2]])
    if v.k == "seq":
        out = []
        for s in v.a[0]:
            h = constrain(s.a[0], g)
            if And(g, s.a[0]) is F:
                continue
            out.append(mk(s.k, h, *s.a[1:]))
        return Seq(out)
    return v


def check(ctx):
    with ctx.guardeds("levels"):
        levels(ctx)
    with ctx.guardeds("optional"):
        optional(ctx)
