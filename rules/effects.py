"""What the program can call: the call graph over the functions of the crate, and what the library functions it reaches can do."""
import re


class Graph:
    """Every function that can run, and every library function that one of them mentions, with where."""

    def __init__(self, p):
        self.p = p
        self.uses = {}       # function -> {mentioned function: location}
        self.casts = []      # (function, kind, from, to, location)
        self.statics = {}    # name -> (function, location)
        self.reached = set()
        self.outside = {}    # library function -> (function, location)
        byclosure = {k: t["fn"] for k, t in p.types.items() if t["k"] == "closure"}
        trait = [f for f, d in p.fns.items() if d["local"] and (f.startswith("<") or "::<impl " in f)]
        todo = [p.entry] + trait + [g for v in p.vtables.values() for g in v.values() if isinstance(g, str)]
        while todo:
            f = todo.pop()
            if f in self.reached or f not in p.fns:
                continue
            self.reached.add(f)
            found = {}
            d = p.fns[f]
            for t in d["locals"]:
                for g in byclosure.get(t, ()):
                    found.setdefault(g, d["loc"])
            for stmts, term, loc in d["blocks"]:
                for s in stmts:
                    self.scan(f, s, s[-1] if isinstance(s[-1], str) and ":" in s[-1] else loc, found, byclosure)
                self.scan(f, term, loc, found, byclosure)
            self.uses[f] = found
            for g, l in found.items():
                if g in p.fns:
                    todo.append(g)
                else:
                    self.outside.setdefault(g, (f, l))

    def scan(self, f, x, loc, found, byclosure):
        p = self.p
        if isinstance(x, str):
            if x in p.fns or x in p.externs:
                found.setdefault(x, loc)
            elif x in byclosure:
                for g in byclosure[x]:
                    found.setdefault(g, loc)
        elif isinstance(x, list):
            if x and x[0] == "cast" and len(x) >= 5:
                self.casts.append((f, x[1], x[3], x[4], loc))
            if len(x) == 2 and x[0] == "static" and isinstance(x[1], str):
                self.statics.setdefault(x[1], (f, loc))
            for y in x:
                self.scan(f, y, loc, found, byclosure)
        elif isinstance(x, dict):
            for y in x.values():
                self.scan(f, y, loc, found, byclosure)

    def path(self, f):
        """A call path from the program's start to a function."""
        back = {self.p.entry: None}
        todo = [self.p.entry]
        while todo:
            g = todo.pop(0)
            if g == f:
                break
            for h in self.uses.get(g, ()):
                if h not in back:
                    back[h] = g
                    todo.append(h)
        if f not in back:
            return [f]
        out = []
        while f is not None:
            out.append(f)
            f = back[f]
        return out[::-1]


def short(name):
    return re.sub(r"(?:\w+::)+(\w+)", r"\1", name)


CRATES = re.compile(r"(?<![\w:])([a-z_][a-z0-9_]*)::")
KNOWN = {"std", "core", "alloc", "clap", "clap_builder", "figment", "termcolor", "serde", "serde_core", "serde_derive", "atty", "toml", "uncased"}


def crates_of(name):
    return set(CRATES.findall(re.sub(r"\{closure@[^}]*\}", "", name)))
