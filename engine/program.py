"""Whole-program view over the dumped modules: symbol resolution, CFG, dominators,
natural loops, liveness."""
from functools import lru_cache


class Func:
    __slots__ = ("name", "mod", "j", "key", "blocks", "args", "decl", "internal", "file",
                 "line", "succ", "pred", "rpo", "rpon", "idom", "loops", "loop_of", "inst",
                 "iblock", "livein", "varname", "dbg", "ret", "_po", "domtree", "_short")

    def __init__(self, name, mod, j):
        self.name, self.mod, self.j = name, mod, j
        self._short = None
        self.internal = j["internal"]
        self.key = (mod["rel"] + "::" + name) if self.internal else name
        self.blocks = j["blocks"]
        self.args = j["args"]
        self.decl = j["decl"]
        self.file = j.get("file") or ""
        self.line = j.get("line") or 0
        self.dbg = j.get("dbg") or name
        self.ret = j["ret"]
        self.succ = None

    def prepare(self):
        if self.succ is not None:
            return self
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]
        self.pred = [[] for _ in range(n)]
        self.inst, self.iblock, self.varname = {}, {}, {}
        newblocks = []
        for b, insts in enumerate(self.blocks):
            keep = []
            for i in insts:
                if i["op"] in ("dbgvalue", "dbgdeclare"):
                    v = i["val"]
                    if v[0] in ("v", "a"):
                        self.varname.setdefault((v[0], v[1]), i["var"])
                    continue
                keep.append(i)
                self.inst[i["id"]] = i
                self.iblock[i["id"]] = b
            newblocks.append(keep)
            t = keep[-1]
            if t["op"] == "br":
                ss = [o[1] for o in t["ops"] if o[0] == "b"]
                # conditional: LLVM operand order is cond, false, true
            elif t["op"] == "switch":
                ss = [t["default"]] + [c[1] for c in t["cases"]]
            else:
                ss = []
            for s in ss:
                if s not in self.succ[b]:
                    self.succ[b].append(s)
                    self.pred[s].append(b)
        self.blocks = newblocks
        self._rpo()
        self._dom()
        self._loops()
        self._live()
        return self

    def _rpo(self):
        seen, po = set(), []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                po.append(b)
                stack.pop()
        self.rpo = po[::-1]
        self.rpon = {b: i for i, b in enumerate(self.rpo)}

    def _dom(self):
        idom = {self.rpo[0]: self.rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while self.rpon[x] > self.rpon[y]:
                                    x = idom[x]
                                while self.rpon[y] > self.rpon[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b not in self.idom or self.idom[b] == b:
                return False
            b = self.idom[b]

    def _loops(self):
        # header -> set of blocks
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in self.pred[x] if p in self.rpon)
        self.loop_of = {}
        for h, body in sorted(self.loops.items(), key=lambda kv: -len(kv[1])):
            for b in body:
                self.loop_of[b] = h  # innermost wins (smaller loops later)

    def irreducible(self):
        for b in self.rpo:
            for s in self.succ[b]:
                if self.rpon[s] <= self.rpon[b] and not self.dominates(s, b):
                    return True
        return False

    def _uses(self, i):
        if i["op"] == "phi":
            return []
        out = []

        def add(o):
            if o and o[0] in ("v", "a"):
                out.append((o[0], o[1]))
        for o in i.get("ops", ()):
            add(o)
        if "base" in i:
            add(i["base"])
            for x in i["idx"]:
                add(x[0])
        if "callee" in i:
            add(i["callee"])
        return out

    def _live(self):
        n = len(self.blocks)
        use, de = [set() for _ in range(n)], [set() for _ in range(n)]
        phiuse = {}
        for b, insts in enumerate(self.blocks):
            for i in insts:
                for u in self._uses(i):
                    if u[0] == "v" and u[1] not in de[b]:
                        use[b].add(u[1])
                if i["op"] == "phi":
                    for pb, o in i["inc"]:
                        if o[0] == "v":
                            phiuse.setdefault(pb, {}).setdefault(b, set()).add(o[1])
                de[b].add(i["id"])
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                out = set()
                for s in self.succ[b]:
                    out |= live[s]
                    out |= phiuse.get(b, {}).get(s, set())
                new = use[b] | (out - de[b])
                if new != live[b]:
                    live[b] = new
                    ch = True
        self.livein = live

    def loc(self, i):
        l = i.get("loc")
        if l:
            return "%s:%d" % (short(l[0]), l[1])
        return "%s:%d" % (short(self.file), self.line)


def short(p):
    for k in ("/repo/",):
        if p.startswith(k):
            return p[len(k):]
    i = p.find("/src/")
    for mark in ("/src/", "/interfaces/", "/examples/", "/include/"):
        i = p.find(mark)
        if i >= 0:
            return p[i + 1:]
    return p


class Program:
    """A set of modules linked together (one image)."""

    def __init__(self, mods, only=None):
        self.mods = [m for m in mods if only is None or only(m["rel"])]
        self.byname = {}     # external name -> Func (definition preferred)
        self.bymod = {}      # (rel, name) -> Func
        self.globs = {}      # key -> global dict
        self.types = {}
        for m in self.mods:
            for n, j in m["functions"].items():
                f = Func(n, m, j)
                self.bymod[(m["rel"], n)] = f
                if not f.internal:
                    if n not in self.byname or self.byname[n].decl:
                        self.byname[n] = f
            for n, g in m["globals"].items():
                k = (m["rel"] + "::" + n) if g["internal"] else n
                if k not in self.globs or self.globs[k]["decl"]:
                    self.globs[k] = dict(g, key=k, mod=m["rel"], name=n)
            for n, t in m["types"].items():
                if n not in self.types or len(t["members"]) > len(self.types[n]["members"]):
                    self.types[n] = t

    def resolve(self, mod, name):
        """Function for symbol `name` as seen from module `mod`."""
        f = self.bymod.get((mod["rel"], name))
        if f is None:
            return None
        if f.internal:
            return f
        return self.byname[name]

    def resolve_glob(self, mod, name):
        g = mod["globals"].get(name)
        if g is None:
            return None
        k = (mod["rel"] + "::" + name) if g["internal"] else name
        return self.globs[k]

    def functions(self):
        seen = set()
        for f in self.bymod.values():
            g = f if f.internal else self.byname[f.name]
            if not g.decl and g.key not in seen:
                seen.add(g.key)
                yield g

    def find(self, name, rel=None):
        """Function by source name."""
        c = [f for f in self.functions() if f.name == name and (rel is None or f.mod["rel"] == rel)]
        return c[0] if len(c) >= 1 else None

    def field(self, struct, name):
        for off, size, n, ty in self.types[struct]["members"]:
            if n == name:
                return off, size
        raise KeyError((struct, name))
