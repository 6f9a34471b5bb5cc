"""Composition of the derived transition relations of iterative loops.

Loops that call back into operators are not summarised in closed form: the interpreter leaves,
for each of them, what one iteration does to an arbitrary head state (LoopRec.head -> back /
exits).  Trace composes these relations, starting from the entry state, under one random
valuation.
"""
from numeval import Unknown, Uninit
from terms import *


class Hdr:
    """an array at a loop head: content in the valuation it was computed in"""

    def __init__(self, S, c):
        self.S, self.c, self.env, self.memo = S, c, dict(S.bound), {}
        self.gen = S.gen

    def get(self, off, size, kind):
        k = (off, size, kind)
        if k not in self.memo:
            S = self.S
            sv = S.bound, S.prefix, S.defs, S.gen
            S.bound, S.prefix, S.defs, S.gen = dict(self.env), {}, {}, self.gen
            try:
                self.memo[k] = S.readc(self.c, off, size, kind)
            finally:
                S.bound, S.prefix, S.defs, S.gen = sv
        return self.memo[k]


class TooLong(Unknown):
    """a loop went on beyond the limit"""


class Trace:
    def __init__(self, S, limit=400):
        self.S, self.I, self.limit = S, S.I, limit
        self.iters = {}                 # loop -> iterations begun, per run
        self.gens = 0
        self.watch = None               # watch(rec, k) at each loop head

    def head(self, rec, st):
        """values of the head symbols in state st"""
        S, I = self.S, self.I
        new = {}
        for i in rec.phis:
            if rec.modes[i["id"]] == "sym":
                if i["ty"] == "ptr":
                    if rec.pbase.get(i["id"]):
                        new[mk("lphi", rec.L, i["id"], "i")] = \
                            self.val(st.env[i["id"]].args[1])
                    continue
                k = "f" if i["ty"] in ("double", "float") else "i"
                new[mk("lphi", rec.L, i["id"], k)] = self.val(st.env.get(i["id"], UNDEF))
        for obj, v in rec.vary.items():
            if v == "ALL":
                new[mk("hdr", rec.L, obj)] = Hdr(S, I.content(st, obj))
            else:
                for o, sz, kd in v:
                    if kd == "p":
                        if rec.pbase.get((obj, o)):
                            new[mk("lmem", rec.L, obj, o, sz, "i")] = \
                                self.val(I.read(st, obj, ic(o), sz, kd).args[1])
                    else:
                        new[mk("lmem", rec.L, obj, o, sz, kd)] = \
                            self.val(I.read(st, obj, ic(o), sz, kd))
        return new

    def val(self, t):
        try:
            return self.S.ev(t)
        except (Unknown, Uninit) as e:
            self.why = e
            return None

    def run(self, kids):
        for rec in kids:
            if self.S.guard(rec.entry.guard):
                self.loop(rec)

    def bind(self, rec, h, k):
        b = self.S.bound
        self.gens += 1
        self.S.gen = self.gens
        for s, v in h.items():
            if v is None:
                b.pop(s, None)
            else:
                b[s] = v
        b[rec.t] = k

    def loop(self, rec):
        S = self.S
        h = self.head(rec, rec.entry)
        for k in range(self.limit):
            self.bind(rec, h, k)
            self.iters[rec.L] = k
            if self.watch:
                self.watch(rec, k)
            self.run(rec.kids)
            nxt = None
            for bs in rec.back:
                if S.guard(bs.guard):
                    nxt = bs
                    break
            if nxt is None:
                if not any(S.guard(s.guard) for _, _, s in rec.raw):
                    raise Unknown("neither another iteration nor an exit")
                return
            h = self.head(rec, nxt)
        raise TooLong("long loop in " + rec.f.dbg)
