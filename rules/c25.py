"""C25: the output is a function of the input and the settings alone."""
import re
from .common import *
from .effects import Graph, short, crates_of, KNOWN

TECHNIQUE = "effect analysis over the call graph of the type-checked program"
RULE = ("The call graph from main (with every trait implementation, closure, virtual call and drop) is closed over the compiler's MIR; every "
        "library function in it, with its type arguments, is classified: reading the time, random state, process identity or threads, iterating "
        "over a hash table with a random state, and displaying, comparing, hashing or converting addresses are violations. Statics and "
        "thread-local values that can change (other than ones initialised once from constants) are violations when a function that can run "
        "uses them, as is every unsafe block (through which an address or an uninitialised value could be read).")
ASSUMPTIONS = ["functions of clap, figment, termcolor, serde and atty depend on their arguments, the command line, configuration, environment and terminal only"]

FORBIDDEN = [
    (r"\bstd::time::(Instant|SystemTime)\b", "depends on the time"),
    (r"\bstd::thread::(LocalKey|local_impl)", None),
    (r"\bstd::thread::", "depends on threads"),
    (r"\bstd::sync::(mpsc|mpmc|Barrier|Condvar)\b", "depends on threads"),
    (r"\bstd::process::id\b", "depends on the process"),
    (r"\b(std::hash|std::collections::hash_map|std::hash::random)::RandomState\b.*(new|default|build_hasher|hash_one)\b", "depends on a random state"),
    (r"fmt::Pointer\b|new_pointer\b|Formatter::<'_>::pointer_fmt", "displays an address"),
    (r"\b(addr|expose_provenance|to_bits|addr_eq)\b.*(\*const|\*mut)|(const_ptr|mut_ptr)::<impl \*(const|mut) [^>]*>::(addr|expose_provenance|to_bits|align_offset|is_aligned)", "depends on an address"),
    (r"<\*(const|mut) .* as std::(cmp::(Ord|PartialOrd)|hash::Hash)>|std::ptr::hash\b|impl std::(cmp::(Ord|PartialOrd)|hash::Hash) for \*", "depends on an address"),
    (r"(sort|binary_search|cmp|Ord\b|BTree|Hash|max|min|hash|partial_cmp|dedup|is_sorted).*\*(const|mut) ", "depends on the order of addresses"),
    (r"\bstd::random::", "depends on a random state"),
    (r"\bstd::fs::.*(modified|created|accessed)\b", "depends on the time"),
    (r"\bstd::mem::(MaybeUninit<.*>::assume_init|uninitialized)", None),
]
TABLES = re.compile(r"\bHash(Map|Set)::?<|hash_(map|set)::")
OVER = re.compile(r"(Hash(Map|Set)(::)?<.*>(::|.*)(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|extract_if|union|intersection|difference|symmetric_difference)\b"
                  r"|Hash(Map|Set)<.*> as std::(iter::IntoIterator|fmt::Debug)>"
                  r"|hash_(map|set)::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain)\b)")
ANY_ORDER = re.compile(r"Iterator>::(sum|count|any|all|max|min|len|product)\b")
CHANGING = re.compile(r"\b(Cell|RefCell|UnsafeCell|Mutex|RwLock|Atomic\w*|OnceCell|OnceLock|LazyCell|LazyLock|Once)\b")
ONCE = re.compile(r"^(std::sync::(LazyLock|OnceLock)|std::cell::(LazyCell|OnceCell)|LazyLock|OnceLock)<")


def sources(ctx, g):
    p = ctx.p
    for name, (f, loc) in sorted(g.outside.items()):
        ctx.count("obligations")
        d = p.externs.get(name) or {}
        full = name + " " + (d.get("path") or "")
        hit = next(((rx, w) for rx, w in FORBIDDEN if re.search(rx, full)), None)
        if hit is not None and hit[1] is not None:
            ctx.violation("source:" + short(name), "%s (%s) %s: it calls %s" % (f, loc, hit[1], name), "call path: " + " -> ".join(g.path(f)))
        elif hit is not None and "LocalKey" in name:
            ctx.violation("state:thread_local", "%s (%s) uses state that is kept between operations: it calls %s" % (f, loc, name), "call path: " + " -> ".join(g.path(f)))
        elif OVER.search(name) and "BuildHasherDefault" not in name and not ANY_ORDER.search(name):
            if any(sorts(u, name) for u in g.uses[f]):
                blind = [b for u in sorted(g.uses[f]) for b in ignored(ctx, u)]
                if blind:
                    ctx.violation("order:" + short(name), "%s (%s) depends on the order of a hash table, which is random: it calls %s, and sorts "
                                  "by an order that ignores %s" % (f, loc, name, " and ".join(blind)), "call path: " + " -> ".join(g.path(f)))
                    continue
                ctx.undecided("a hash table's order", "%s (%s) sorts something" % (f, loc))
            elif any(ANY_ORDER.search(u) and OVER.search(u) for u in g.uses[f]) and not re.search(r"IntoIterator|Iterator>::(next|for_each|map|filter)", name):
                continue
            else:
                ctx.violation("order:" + short(name), "%s (%s) depends on the order of a hash table, which is random: it calls %s" % (f, loc, name),
                              "call path: " + " -> ".join(g.path(f)))
        other = crates_of(d.get("path") or name) - KNOWN - {m.split("::")[0] for m in p.fns if p.fns[m]["local"] and not m.startswith("<")}
        if other:
            ctx.undecided(name, "it isn't known what functions of %s depend on" % ", ".join(sorted(other)))
    for f, kind, a, b, loc in g.casts:
        if not p.fns[f]["local"]:
            continue
        ctx.count("obligations")
        if "ExposeProvenance" in kind or "ExposeAddress" in kind:
            ctx.violation("address:" + f, "%s (%s) depends on an address: it converts %s to %s" % (f, loc, a, b))
    compared(ctx, g)
    for u in p.unsafe:
        ctx.violation("unsafe:" + re.sub(r":\d+", "", u), "there is unsafe code at %s" % u)


def ignored(ctx, u):
    """The fields of the sorted elements that their order doesn't depend on."""
    p = ctx.p
    m = re.search(r"impl \[(.*)\]>::sort(_unstable)?$", u)
    d = p.types.get(m.group(1)) if m else None
    cmp = "<%s as std::cmp::Ord>::cmp" % m.group(1) if m else None
    if d is None or d["k"] != "adt" or cmp not in p.fns:
        return []
    vs = p.variants(m.group(1))
    if len(vs) != 1:
        return []
    args = [Adt(m.group(1), 0, [p.opaque("%s.%s" % (x, n), (), t) for n, t in vs[0]["f"]]) for x in "ab"]
    try:
        ret = ctx.run(cmp, [Sref(a) for a in args]).ret
    except Undecided:
        return []
    seen = apps(ret)
    if any(a.a[0] in ("unk", "phi") for a in seen):
        return []
    return [n for n, t in vs[0]["f"] if not any(a.a[0].startswith("a." + n) for a in seen)]


def sorts(u, table):
    """Whether a call puts what a hash table gives into an order."""
    m = re.search(r"impl \[(.*)\]>::sort\w*", u) or re.search(r"BTree(?:Map|Set)(?:::)?<([^<>]*)>", u)
    return bool(m) and all(t in table for t in re.findall(r"[\w:]+", m.group(1).replace("std::vec::Vec", "")) if t not in ("mut", "_"))


def compared(ctx, g):
    """Orderings of addresses."""
    p = ctx.p
    for f in g.reached:
        d = p.fns[f]
        if not d["local"]:
            continue
        for stmts, _, loc in d["blocks"]:
            for s in stmts:
                if s[0] == "=" and s[2][0] in ("bin", "cbin") and s[2][1] in ("Lt", "Le", "Gt", "Ge", "Cmp", "Offset", "Sub"):
                    for o in s[2][2:4]:
                        if isinstance(o, list) and len(o) > 1 and isinstance(o[1], list) and len(o[1]) == 1 and isinstance(o[1][0], int):
                            t = d["locals"][o[1][0]]
                            if t.startswith(("*const", "*mut")) and s[2][1] != "Offset":
                                ctx.violation("address:" + f, "%s (%s) compares addresses" % (f, loc))


def state(ctx, g):
    p = ctx.p
    used = dict(g.statics)
    for s in p.statics:
        ctx.count("obligations")
        if s["constant"] or s["name"] not in used:
            continue
        f, loc = used[s["name"]]
        ty = s["ty"]
        inner = ty[ty.index("<") + 1:] if "<" in ty else ty
        if re.match(ONCE, ty) and not CHANGING.search(inner):
            bad = [u for u in g.outside if re.search(r"Once(Lock|Cell)(::)?<.*>::(set|take|get_mut|try_insert)\b", u)]
            caught = [c for u in g.outside if re.search(r"Once(Lock|Cell)(::)?<.*>::get_or_", u) for c in closures(p, u) if c["ups"]]
            if not bad and not caught:
                continue
        if not CHANGING.search(ty):
            t = p.types.get(ty)
            if t is None and "static mut" not in ty and not s.get("mutable"):
                ctx.undecided("the static %s" % s["name"], ty)
                continue
        ctx.violation("state:" + s["name"], "%s (%s) uses state that is kept between operations: the static %s (%s)" % (f, loc, s["name"], ty),
                      "call path: " + " -> ".join(g.path(f)))


def closures(p, name):
    return [t for k, t in p.types.items() if t["k"] == "closure" and k in name]


def check(ctx):
    g = Graph(ctx.p)
    for f in g.reached:
        ctx.analysed.add(f)
    sources(ctx, g)
    state(ctx, g)
    ctx.sample({"functions reached": len(g.reached), "library functions reached": len(g.outside), "statics": len(ctx.p.statics),
                "unsafe blocks": len(ctx.p.unsafe)})
