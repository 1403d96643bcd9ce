"""C23: no effects beyond printing and reading the configuration."""
import re
from .common import *
from .effects import Graph, short, crates_of, KNOWN
from .flow import Flow, pinned, uninterpreted
from .c20 import fallible
from .tags import key_of

TECHNIQUE = "effect analysis over the call graph of the type-checked program, value flow for file names and messages"
RULE = ("The call graph from main (with every trait implementation, closure, virtual call and drop) is closed over the compiler's MIR; every "
        "library function in it, with its type arguments, is classified: file system, network, process, environment-changing, operating-system "
        "specific and standard-input functions are violations. No unsafe block or function is allowed in the crate. At most one file is opened, "
        "and its name must come from constants, the environment and the command line's settings alone. The error type's fields can't hold "
        "text or bytes, the numbers in each decoder's errors depend on the input's length only, and nothing that is written to stderr depends "
        "on the supplied data in another way.")
ASSUMPTIONS = ["functions of clap, figment, termcolor, serde and atty have no effects besides printing and reading what is named here"]

FORBIDDEN = [
    (r"\bstd::fs::", "opens or changes a file"),
    (r"\bstd::net::", "uses the network"),
    (r"\bstd::process::(Command|Child|Stdio)", "starts a process"),
    (r"\bstd::env::(set_var|remove_var|set_current_dir)\b", "changes its environment"),
    (r"\bstd::os::", "uses the operating system directly"),
    (r"\bstd::path::Path(Buf)?(::<impl [^>]*>)?::(exists|try_exists|is_file|is_dir|is_symlink|metadata|symlink_metadata|read_dir|read_link|canonicalize)\b", "looks at the file system"),
    (r"\bstd::io::(pipe|PipeReader|PipeWriter)", "opens a pipe"),
    (r"\bfigment::Jail", "changes its environment"),
]
STDIN = re.compile(r"\bStdin(Lock)?\b.*(read|lines|lock|bytes|split|take|chars|fill_buf|consume)|io::(read_to_string|copy)\b.*Stdin")
FILES = re.compile(r"Format>?::file(_exact)?\b|providers::Data::<[^>]*>::file(_exact)?\b")
ERR = "error::ParseError"


def effects(ctx, g):
    p = ctx.p
    for name, (f, loc) in sorted(g.outside.items()):
        ctx.count("obligations")
        what = next((w for rx, w in FORBIDDEN if re.search(rx, name)), None)
        if what is None and STDIN.search(name):
            what = "reads its standard input"
        if what is not None:
            ctx.violation("effect:" + short(name), "%s (%s) %s: it calls %s" % (f, loc, what, name), "call path: " + " -> ".join(g.path(f)))
            continue
        d = p.externs.get(name) or {}
        other = crates_of(d.get("path") or name) - KNOWN - {m.split("::")[0] for m in p.fns if p.fns[m]["local"] and not m.startswith("<")}
        if other:
            ctx.undecided(name, "it isn't known what functions of %s do" % ", ".join(sorted(other)))
    for u in p.unsafe:
        ctx.violation("unsafe:" + re.sub(r":\d+", "", u), "there is unsafe code at %s" % u)
    ctx.sample({"functions reached": len(g.reached), "library functions reached": len(g.outside), "unsafe blocks": len(p.unsafe)})


def atoms(v, out=None):
    """The terms that a value is made of, without looking into those that stand for a decoding's error."""
    out = set() if out is None else out
    seen = set()

    def walk(x):
        if not isinstance(x, V) or x in seen:
            return
        seen.add(x)
        if x.k == "app":
            out.add(x)
            if "@Err" in x.a[0] or x.a[0] == "discr" or x.a[0].endswith("::extract_inner"):
                return
        for y in x.a:
            for z in y if isinstance(y, tuple) else (y,):
                if isinstance(z, tuple):
                    for w in z:
                        walk(w)
                else:
                    walk(z)
    walk(v)
    return out


def files(ctx, flow, g):
    """The one file's name."""
    sites = [n for n in g.outside if FILES.search(n)]
    names = {}
    for c in flow.r.I.calls:
        if FILES.search(c[1]) and c[4] is not F if len(c) > 4 else FILES.search(c[1]):
            names.setdefault(c[3][0] if isinstance(c[3], tuple) else c[3], c)
    ctx.count("obligations", 1 + len(names))
    if len(names) > 1:
        ctx.violation("files", "more than one file is read: %s" % "; ".join(show(n, 4)[:100] for n in names))
    for n, c in names.items():
        bad = [a for a in atoms(n) if a.a[0].startswith("call:") and not re.search(r"Env::|env::|ArgMatches|get_matches|build_cli|Command", a.a[0])]
        data = [a for a in atoms(n) if a.a[0].startswith("call:ArgMatches") and len(a.a[1]) > 1 and a.a[1][1].k == "str" and a.a[1][1].a[0] in flow.option]
        data = [a for a in data if a.a[1][1].a[0] in operations()]
        if tainted(n):
            ctx.undecided("the file's name", show(n, 3)[:100])
        elif data:
            ctx.violation("file:name", "the name of the file that is read depends on the data: %s" % show(n, 5)[:200])
        elif bad:
            ctx.undecided("the file's name", "%s" % show(bad[0], 3)[:100])
    if sites and not names:
        ctx.undecided("files", "the file's name isn't known")


def operations():
    from spec.options import OPERATIONS
    return OPERATIONS


# ------------------------------------------------------------------ error messages


def holds_data(p, ty, seen=None):
    """What a type can hold text or bytes in, or None."""
    seen = seen if seen is not None else set()
    if ty in seen:
        return None
    seen.add(ty)
    d = p.desc(ty)
    k = d["k"]
    if k == "adt":
        path = d.get("path", "")
        if path in ("std::string::String", "std::vec::Vec", "std::boxed::Box", "std::rc::Rc", "std::sync::Arc", "std::borrow::Cow"):
            return ty
        for v in d["v"]:
            for f in v["f"]:
                r = holds_data(p, f[1], seen)
                if r:
                    return "%s.%s" % (v["n"], f[0])
        return None
    if k in ("slice", "array"):
        return ty
    if k == "char":
        return ty
    if k == "tuple":
        for t in d.get("e", d.get("args", [])):
            r = holds_data(p, t, seen)
            if r:
                return r
    return None


def error_type(ctx):
    p = ctx.p
    try:
        ty = key_of(p, ERR)
    except Exception:
        ctx.undecided("the error type", "it isn't known")
        return None
    ctx.count("obligations")
    for v in p.variants(ty):
        for f in v["f"]:
            ctx.count("obligations")
            r = holds_data(p, f[1])
            if r:
                ctx.undecided("the error type", "%s.%s can hold %s" % (v["n"], f[0], r))
    return ty


def numbers(ctx, ty):
    """What the fields of the errors that decoders give depend on."""
    p = ctx.p
    if not any(v["f"] for v in p.variants(ty)):
        return
    ctx.err_ty = ty
    callees = {f: uninterpreted for f in p.fns if "{closure" not in f and fallible(p, f)}
    seen = 0
    for fn in sorted(callees):
        if any(f.startswith("call:") for f in ()) or "Infallible" in fn:
            continue
        makes = makes_error(p, fn, ty)
        if not makes:
            continue
        with ctx.guardeds("the errors of " + fn):
            r = ctx.run(fn, ["raw"] if p.fns[fn]["argc"] == 1 else None, opaque={k: v for k, v in callees.items() if k != fn})
            e = err_part(r.ret)
            for x in leaves(e):
                if x.k != "adt" or x.a[0] != ty:
                    continue
                for v, fld in zip(x.a[2], p.variants(ty)[x.a[1]]["f"]):
                    ctx.count("obligations")
                    seen += 1
                    bad = reads(v)
                    if bad is None:
                        ctx.undecided("the errors of " + fn, "the field %s" % fld[0])
                    elif bad:
                        ctx.violation("error:%s:%s" % (fn, fld[0]), "%s: the field %s of its error %s depends on the supplied data: %s" % (
                            ctx.loc(fn), fld[0], p.variants(ty)[x.a[1]]["n"], show(v, 4)[:150]))
    ctx.sample({"error fields analysed": seen})


def makes_error(p, fn, ty):
    """Whether a function, or one of its closures or other callees, constructs an error with a field."""
    def mentions(x):
        if isinstance(x, list):
            if len(x) >= 2 and x[0] == "agg" and any(y == ty for y in flat(x)):
                return True
            return any(mentions(y) for y in x)
        if isinstance(x, dict):
            return any(mentions(y) for y in x.values())
        return False

    def flat(x):
        for y in x:
            if isinstance(y, list):
                yield from flat(y)
            else:
                yield y
    todo, seen = [fn], set()
    while todo:
        f = todo.pop()
        if f in seen or f not in p.fns:
            continue
        seen.add(f)
        d = p.fns[f]
        if mentions(d["blocks"]):
            return True
        for t in d["locals"]:
            if p.desc(t)["k"] == "closure":
                todo += p.desc(t)["fn"]
        for _, term, _ in d["blocks"]:
            if term[0] == "call" and isinstance(term[1], dict) and term[1].get("fn") in p.fns and not fallible(p, term[1]["fn"]):
                todo.append(term[1]["fn"])
    return False


def reads(v):
    """Whether a value depends on something other than lengths (None when unknown)."""
    bad = False
    parts = leaves(v)
    if len([x for x in parts if x.k == "int"]) > 16:
        return True
    for x in parts:
        for a in outer(x):
            op = a.a[0]
            if op == "len" or "@Err" in op or op == "discr":
                continue
            if op.startswith("unk") or tainted(a):
                return None
            bad = True
    return bad


def outer(v):
    """The terms of a value; what a length is of doesn't count."""
    out, seen = set(), set()

    def walk(x):
        if not isinstance(x, V) or x in seen:
            return
        seen.add(x)
        if x.k == "app":
            out.add(x)
            return
        if x.k == "dd":
            for y in leaves(x):
                walk(y)
            return
        for y in x.a:
            for z in y if isinstance(y, tuple) else (y,):
                if isinstance(z, tuple):
                    for w in z:
                        walk(w)
                else:
                    walk(z)
    walk(v)
    return out


def messages(ctx, flow, g, ty):
    """What is written to stderr."""
    p = ctx.p
    n = 0
    where = [f for f, u in g.uses.items() if p.fns[f]["local"] and any(e in ("std::io::_eprint",) or re.search(r"\bStderr(Lock)?\b", e) for e in u)]
    below, todo = set(), list(pinned(p))
    while todo:
        f = todo.pop()
        if f not in below:
            below.add(f)
            todo += [h for h in g.uses.get(f, ()) if h in p.fns]
    others = [f for f in where if f in below]  # the rest are part of the summary of main
    data = {a for name in flow.option if name in operations() for a in [flow.given(name)]}
    toks = [t for t in flatten(flow.r.out) if not isinstance(t, str) and t.kind == "event" and t.v.a[0] == "eprint"]
    bases = {strip(x) for x in data}
    for t in toks:
        for x in flatten(t.v.a[1]) if t.v.a[1].k in ("seq", "dd") else []:
            if isinstance(x, str):
                continue
            ctx.count("obligations")
            n += 1
            if tainted(x.v):
                ctx.undecided("a message", show(x.v, 3)[:100])
                continue
            hit = [a for a in atoms(x.v) if leaks(a, bases)]
            if hit:
                ctx.violation("message", "a message on stderr contains %s" % show(hit[0], 4)[:150])
    for f in others:
        ctx.count("obligations")
        with ctx.guardeds("the messages of " + f):
            o = {k: v for k, v in pinned(p).items() if k != f}
            r = ctx.run(f, ["arg%d" % i for i in range(p.fns[f]["argc"])], opaque=o)
            errors = {"arg%d" % i for i in range(p.fns[f]["argc"]) if re.search(r"ParseError|figment::Error", p.fns[f]["locals"][i + 1])}
            for t in flatten(r.out):
                if isinstance(t, str) or t.kind != "event" or t.v.a[0] != "eprint":
                    continue
                for x in flatten(t.v.a[1]) if t.v.a[1].k in ("seq", "dd") else []:
                    if isinstance(x, str):
                        continue
                    n += 1
                    if tainted(x.v):
                        ctx.undecided("a message", show(x.v, 3)[:100])
                        continue
                    hit = [a for a in atoms(x.v) if a.a[0] not in ("len", "discr") and not (errors and any(a.a[0].startswith(e) for e in errors))]
                    if hit:
                        ctx.violation("message:" + f, "a message that %s writes to stderr contains %s" % (f, show(hit[0], 4)[:150]))
    ctx.sample({"functions that write to stderr": where, "values written": n})


def strip(v):
    while v.k in ("sref", "slice"):
        v = v.a[0]
    return v


def leaks(a, bases):
    """Whether a term is the supplied text, or made of it."""
    if a in bases or a.a[0].startswith("elem") and strip(a.a[1][0]) in bases:
        return True
    if "@Err" in a.a[0]:
        return False
    return a.a[0].startswith("call:util::") or a.a[0].startswith("call:emv::tlv_parsing")


def check(ctx):
    g = Graph(ctx.p)
    for f in g.reached:
        ctx.analysed.add(f)
    effects(ctx, g)
    ty = error_type(ctx)
    if ty is not None:
        numbers(ctx, ty)
    with ctx.guardeds("the program"):
        flow = Flow(ctx)
        files(ctx, flow, g)
        messages(ctx, flow, g, ty)
