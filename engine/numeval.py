"""Random interpretation of the summaries derived by the abstract interpreter.

The interpreter (numeric mode) turns a function into closed terms: what every array element
and result is, as a function of the inputs, with loops as map layers / folds.  Two such terms
(or a term and its specification) are compared by interpreting them over randomly chosen
values of their free symbols (identity testing, after Gulwani & Necula).  Anything that the
derivation left open raises Unknown: never a verdict.
"""
import math
import random

import terms as tm
from terms import T, free, sfree, cval, show
from absint import TRUE_G


def PKEY(kv):
    return kv[0].uid


class Unknown(Exception):
    pass


class Uninit(Exception):
    """the value depends on memory nobody wrote"""


class Sample:
    """one random valuation of the free symbols"""

    def __init__(self, I, seed, ints=None, lo=-1.0, hi=1.0):
        self.I = I
        self.rnd = random.Random(seed)
        self.seed = seed
        self.ints = dict(ints or {})      # atom term -> int
        self.vals = {}                    # symbol -> value (fsym, lphi, lmem)
        self.arr = {}                     # object -> function(byte offset, size, kind)
        self.hdrs = {}                    # hdr term -> function(byte offset) at loop heads
        self.ops = {}                     # op name -> function(sample, op term, vector) -> vector
        self.bound = {}                   # bv / t / lphi under evaluation
        self.prefix = {}                  # loop L -> current iteration while evaluating a layer
        self.heads = set()                # loops whose head state is sampled
        self.defs = {}                    # loop-head array -> definition in force
        self.memo = {}
        self.gen = 0                      # valuation of the open loops' head symbols
        self.wmemo = {}
        self.lo, self.hi = lo, hi
        self.null = {}                    # object -> bool
        self.steps = 0
        self.cond = None                  # hook for unknown conditions
        self.mode = 0                     # distribution of the random symbols
        self.consts = []
        self.strict = False
        self.prior = None                 # integers left in global variables
        self.scale, self.wide = 1.0, False    # overall magnitude, for scenario code

    def saw(self, c, r):
        """a comparison of real values came out as r"""
        if self.I is not None:
            self.I.seen[c] = self.I.seen.get(c, 0) | (1 if r else 2)

    def mag(self, lo, hi):
        """a positive number, of any magnitude in the widest samples"""
        v = self.rnd.uniform(lo, hi)
        return v * 10 ** self.rnd.uniform(-6, 6) if self.wide else v

    # -- random atoms
    def rand(self, key):
        v = self.vals.get(key)
        if v is None:
            v = self.vals[key] = self.draw()
        return v

    def draw(self):
        r = self.rnd
        if self.mode == 1:          # ties, zeros and small integers
            return float(r.choice((0, 0, 1, 1, 2, -1, -1, 3, .5)))
        if self.mode == 2:          # wide magnitudes
            return r.uniform(-1, 1) * 10.0 ** r.randint(-4, 5)
        if self.mode == 3 and self.consts:   # around the constants the code compares with
            c = r.choice(self.consts)
            return r.choice((1, -1)) * c * r.choice((.5, .999, 1, 1.001, 1.5, 3))
        return r.uniform(self.lo, self.hi)

    def bind(self, **kw):
        pass

    # -- terms
    def ev(self, t):
        fv, hd = t._sf or sfree(t)
        if hd and not all(map(self.bound.__contains__, hd)):
            key = (self.gen, t, tuple(map(self.bound.get, fv)), self.inside(hd))
        elif fv:
            key = (self.gen, t, tuple(map(self.bound.get, fv)))
        else:
            key = t
        r = self.memo.get(key)
        if r is None:
            self.steps += 1
            if self.steps > 3_000_000:
                raise Unknown("too many evaluation steps")
            r = self._ev(t)
            self.memo[key] = r
        return r

    def inside(self, hd):
        """what the value of a term with these loop-head arrays depends on"""
        I = self.I
        v = len(I.loopdefs), len(I.layerdefs)
        c = I.__dict__.get("_clos")
        if c is None or c[0] != v:
            al = {}
            for h, d in list(I.loopdefs.items()) + [x for m in I.layerdefs.values() if m
                                                    for x in m.items()]:
                al.setdefault(h, []).append(d)
            c = I._clos = v, al, {}
        _, al, memo = c
        r = memo.get(hd)
        if r is None:
            syms, todo = set(), list(hd)
            while todo:
                h = todo.pop()
                if h in syms:
                    continue
                syms.add(h)
                for d in al.get(h, ()) if h.op == "hdr" else ():
                    for x in d or ():
                        if x is not None:
                            todo += free(tm.mk("_", x))
            r = memo[hd] = (tuple(sorted({s.args[0] for s in syms if s.args}, key=lambda l: l.uid)),
                            frozenset(s for s in syms if s.op == "hdr"))
        if not r[1].isdisjoint(self.defs):
            return (tuple(sorted(self.prefix.items(), key=PKEY)),
                    tuple(id(self.defs.get(s)) for s in hd))
        return tuple(map(self.prefix.get, r[0]))

    def _ev(self, t):
        op, a = t.op, t.args
        if op == "p":
            s = 0
            for m, c in a[0]:
                x = c
                for y in m:
                    x *= self.int(y)
                s += x
            return s
        if op == "fc":
            return a[0]
        if op == "fadd":
            return self.ev(a[0]) + self.ev(a[1])
        if op == "fsub":
            return self.ev(a[0]) - self.ev(a[1])
        if op == "fmul":
            return self.ev(a[0]) * self.ev(a[1])
        if op == "fneg":
            return -self.ev(a[0])
        if op == "fdiv":
            n, d = self.ev(a[0]), self.ev(a[1])
            if d == 0:
                return math.nan if n == 0 or n != n else math.copysign(math.inf, n) * \
                    math.copysign(1, d)
            return n / d
        if op == "fn":
            return self.fn(a[0], self.ev(a[1]))
        if op == "fn2":
            x, y = self.ev(a[1]), self.ev(a[2])
            if a[0] != "pow":
                self.saw(t, x < y)
            return {"fmax": max, "fmin": min, "pow": pow}[a[0]](x, y)
        if op == "fapply":
            vs = [[self.readc(c, self.ev(o) + 8 * k, 8, "f") for k in range(self.ev(n))]
                  for c, o, n in a[1]]
            return self.ops[a[0]](self, *vs)
        if op == "i2f":
            return float(self.ev(a[0]))
        if op == "pw":
            for g, v in a[0]:
                if self.guard(g):
                    return self.ev(v)
            raise Unknown("no case of a piecewise value applies")
        if op == "fold":
            return self.fold(t)
        if op == "rd":
            return self.readc(a[0], self.ev(a[1]), a[2], a[3])
        if op == "init":
            return self.init(a[0], self.ev(a[1]), a[2], a[3])
        if op in ("lphi", "lmem"):
            if t in self.bound:
                return self.bound[t]
            if t in self.vals:
                return self.vals[t]
            if a[-1] == "f" and a[0] in self.heads:
                return self.rand(t)
            raise Unknown("loop symbol")
        if op == "fsym":
            return self.rand(t)
        if op in ("cmp", "fcmp", "not", "band", "bor", "isnan", "sym", "brk"):
            return self.b(t)
        if op in ("undef",):
            raise Uninit()
        if op in ("ptr", "null", "fptr"):
            return t
        if op == "FU":
            raise Unknown("lost value")
        return self.int(t)

    def fn(self, n, x):
        try:
            return {"sqrt": math.sqrt, "log": math.log, "exp": math.exp, "fabs": abs,
                    "ceil": math.ceil, "floor": math.floor}[n](x)
        except (ValueError, OverflowError):
            return math.nan

    def int(self, t):
        op, a = t.op, t.args
        if t in self.ints:
            return self.ints[t]
        if t in self.bound:
            return self.bound[t]
        if op == "p":
            return self.ev(t)
        if op == "max0":
            return max(0, self.ev(a[0]))
        if op == "ucnt":
            return max(0, -((-self.ev(a[0])) // a[1]))
        if op == "iop":
            x, y = self.ev(a[1]), self.ev(a[2])
            n = a[0]
            if n in ("sdiv", "udiv"):
                if y == 0:      # total, as guards may be evaluated out of order
                    return 0
                q = abs(x) // abs(y)
                return q if (x < 0) == (y < 0) else -q
            if n in ("srem", "urem"):
                if y == 0:
                    return x
                r = abs(x) % abs(y)
                return -r if x < 0 else r
            return {"and": x & y, "or": x | y, "xor": x ^ y, "ashr": x >> (y & 63),
                    "lshr": x >> (y & 63)}[n]
        if op == "xt":
            return self.leaves(a[0])[1]
        if op == "b2i":
            return 1 if self.b(a[0]) else 0
        if op == "f2i":
            x = self.ev(a[0])
            if x != x or abs(x) > 1e18:
                raise Unknown("conversion")
            return int(x)
        if op in ("init", "rd", "fold", "pw", "lphi", "lmem"):
            v = self.ev(t)
            return v
        raise Unknown("integer %s" % show(t, 3))

    # -- conditions
    def b(self, c):
        op, a = c.op, c.args
        if op == "p":
            return self.ev(c) != 0
        if op == "not":
            return not self.b(a[0])
        if op == "band":
            return self.b(a[0]) and self.b(a[1])
        if op == "bor":
            return self.b(a[0]) or self.b(a[1])
        if op == "isnan":
            x = self.ev(a[0])
            return x != x
        if op == "fcmp":
            x, y = self.ev(a[1]), self.ev(a[2])
            r = fcmp(a[0], x, y)
            self.saw(c, r)
            return r
        if op == "brk":
            return self.leaves(a[0])[0] == a[1]
        if op == "cmp":
            p, x, y = a
            if self.I._isptr(x) or self.I._isptr(y):
                return self.pcmp(p, x, y)
            x, y = self.ev(x), self.ev(y)
            if p[0] == "u":
                x, y = (v + (1 << 64) if isinstance(v, int) and v < 0 else v for v in (x, y))
            return {"eq": x == y, "ne": x != y, "slt": x < y, "sle": x <= y, "sgt": x > y,
                    "sge": x >= y, "ult": x < y, "ule": x <= y, "ugt": x > y,
                    "uge": x >= y}[p]
        if self.cond:
            r = self.cond(c)
            if r is not None:
                return r
        raise Unknown("condition %s" % show(c, 2))

    def pcmp(self, p, x, y):
        if x.op == "ptr" and y.op == "ptr" and x.args[0] is y.args[0]:
            return self.b(tm.mk("cmp", p, x.args[1], y.args[1]))
        if p not in ("eq", "ne"):
            raise Unknown("pointer order")
        e = None
        for u, v in ((x, y), (y, x)):
            if v.op == "null":
                if u.op == "null":
                    e = True
                else:
                    o = u.args[0] if u.op == "ptr" else u
                    e = self.null.get(o, False)
        if e is None:
            if x.op == "ptr" and y.op == "ptr":
                if x.args[0] is y.args[0]:
                    e = self.ev(x.args[1]) == self.ev(y.args[1])
                else:
                    e = False
        if e is None:
            raise Unknown("pointer comparison")
        return e if p == "eq" else not e

    def guard(self, g):
        unk = None
        for conj in g:
            open_ = None
            for c, v in conj:
                try:
                    if self.b(c) != v:
                        break
                except (Unknown, Uninit) as e:
                    open_ = e
            else:
                if open_ is None:
                    return True
                unk = open_
        if unk is not None:
            raise unk
        return False

    # -- memory
    def init(self, obj, off, size, kind):
        f = self.arr.get(obj)
        if f is not None:
            return f(off, size, kind)
        if len(obj.args) > 1 and isinstance(obj.args[1], T) and \
                obj.args[1].op in ("havoc", "lphi", "lmem"):
            raise Unknown("unknown memory")
        if kind == "f":
            return self.rand(("init", obj, off))
        k = (obj, off)
        if k in self.ints:
            return self.ints[k]
        t = tm.mk("init", obj, tm.ic(off), size, kind)
        if t in self.ints:
            return self.ints[t]
        if self.prior and obj.args[0] == "glob":
            v = self.ints[k] = self.prior(obj, off)
            return v
        raise Unknown("integer input %s" % show(t, 3))

    def readc(self, c, off, size, kind):
        layers = c.args[1]
        return self.readl(c.args[0], layers, len(layers), off, size, kind)

    def readl(self, base, layers, n, off, size, kind):
        for i in range(n - 1, -1, -1):
            l = layers[i]
            if l.op == "cells":
                hit = None
                for o, s, v in l.args[0]:
                    if o == off and s == size:
                        hit = v
                        break
                    if o < off + size and off < o + s:
                        raise Unknown("partial cell")
                if hit is not None:
                    return self.ev(hit)
                continue
            if l.op == "w":
                o = self.ev(l.args[0])
                if o == off:
                    if l.args[1] != size:
                        raise Unknown("partial write")
                    return self.ev(l.args[2])
                if o < off + size and off < o + l.args[1]:
                    raise Unknown("partial write")
                continue
            if l.op == "view":
                src, so, do, ln = l.args
                if do <= off and off + size <= do + ln:
                    return self.readc(src, off - do + self.ev(so), size, kind)
                continue
            if l.op == "fillz":
                o, ln = self.ev(l.args[0]), self.ev(l.args[1])
                if o <= off and off + size <= o + ln:
                    return 0.0 if kind == "f" else 0
                continue
            if l.op == "loop":
                bv, count, cases, hdr = l.args
                cnt = self.ev(count)
                r = self.scan(l, hdr, bv, cases, cnt, off, size, kind,
                              (base, layers, i))
                if r is not None:
                    return r[0]
                continue
            if l.op == "op":
                r = self.opread(l, off, size)
                if r is not None:
                    return r
                continue
            raise Unknown("layer " + l.op)
        return self.readbase(base, off, size, kind)

    def readbase(self, base, off, size, kind):
        k = base.op
        if k == "zero":
            return 0.0 if kind == "f" else 0
        if k == "undefc":
            raise Uninit()
        if k == "ext":
            return self.init(base.args[0], off, size, kind)
        if k == "hdr":
            L = base.args[0]
            if base in self.bound:
                return self.bound[base].get(off, size, kind)
            if L in self.prefix:
                if base in self.defs:
                    d = self.defs[base]
                elif base in self.I.clash:
                    d = None
                else:
                    d = self.I.loopdefs.get(base)
                if d is None or d[1] is None:
                    raise Unknown("loop-carried array")
                entry, cases, bv = d
                n = self.prefix[L]
                r = self.scan(None, base, bv, cases, n, off, size, kind, None)
                if r is not None:
                    return r[0]
                sv = self.leave(L, bv)
                try:
                    return self.readc(entry, off, size, kind)
                finally:
                    self.back(L, bv, sv)
            f = self.hdrs.get(base)
            if f is not None:
                return f(off)
            if kind == "f" and L in self.heads:
                return self.rand(("hdr", base, off))
            raise Unknown("array at a loop head")
        if k == "fillc":
            return self.ev(base.args[0])
        raise Unknown("memory " + k)

    def leave(self, L, bv):
        t = tm.mk("t", L)
        sv = (self.bound.pop(bv, None), self.bound.pop(t, None), self.prefix.pop(L, None))
        return sv

    def back(self, L, bv, sv):
        t = tm.mk("t", L)
        for k, v in ((bv, sv[0]), (t, sv[1])):
            if v is None:
                self.bound.pop(k, None)
            else:
                self.bound[k] = v
        if sv[2] is None:
            self.prefix.pop(L, None)
        else:
            self.prefix[L] = sv[2]

    def scan(self, layer, hdr, bv, cases, cnt, off, size, kind, below):
        """value at off written by iterations < cnt, or None"""
        L = bv.args[0]
        t = tm.mk("t", L)
        sv = self.leave(L, bv)
        od = self.enter(self.ldefs(layer, hdr, cases, bv, below) if layer is not None else None)
        try:
            rng = range(cnt - 1, -1, -1)
            if cnt > 3 and all(w.op == "w" for _, lay in cases for w in lay):
                at = {self.where(w.args[0], bv, t, off) for _, lay in cases for w in lay}
                if None not in at:
                    rng = sorted((k for k in at if 0 <= k < cnt), reverse=True)
            if len(rng) > 4000:
                raise Unknown("long loop")
            for j in rng:
                self.bound[bv] = j
                self.bound[t] = j
                self.prefix[L] = j
                lay = self.active(layer, hdr, cases, j)
                if lay is None:
                    continue
                r = self.layread(lay, off, size, kind)
                if r is not None:
                    return r
        finally:
            self.exit(od)
            self.back(L, bv, sv)
        return None

    def where(self, o, bv, t, off):
        """the only iteration whose write at o, linear in the iteration, meets off"""
        st = 0
        if o.op != "p":
            return None
        for m, c in o.args[0]:
            if any(y is bv or y is t for y in m):
                if len(m) > 1:
                    return None
                st += c
            elif any(bv in free(y) or t in free(y) for y in m):
                return None
        if abs(st) < 8:
            return None
        self.bound[bv] = self.bound[t] = 0
        d = off - self.ev(o)
        return d // st if d % st == 0 else None

    def ldefs(self, layer, hdr, cases, bv, below):
        d = self.I.layerdefs.get((cases, hdr))
        if below is None or hdr is None or not d or d.get(hdr) is not None:
            return d
        # the array's own entry content is what lies below the layer
        base, layers, i = below
        k = (id(layers), i, layer)
        r = self.wmemo.get(k)
        if r is None:
            c = tm.mk("content", base, layers[:i])
            r = self.wmemo[k] = ({**d, hdr: (c, cases, bv)}, layers)
        return r[0]

    def enter(self, d):
        if not d:
            return None
        old = {h: self.defs.get(h, self) for h in d}
        self.defs.update(d)
        return old

    def exit(self, old):
        for h, v in (old or {}).items():
            if v is self:
                self.defs.pop(h, None)
            else:
                self.defs[h] = v

    def active(self, layer, hdr, cases, j):
        if len(cases) == 1 and cases[0][0] == TRUE_G:
            return cases[0][1]
        for g, lay in cases:
            if self.guard(g):
                return lay
        return None

    def layread(self, lay, off, size, kind):
        for x in reversed(lay):
            if x.op == "w":
                o = self.ev(x.args[0])
                if o == off and x.args[1] == size:
                    return (self.ev(x.args[2]),)
                if o < off + size and off < o + x.args[1]:
                    raise Unknown("partial write")
            elif x.op == "loop":
                bv, count, cases, hdr = x.args
                r = self.scan(x, hdr, bv, cases, self.ev(count), off, size, kind, None)
                if r is not None:
                    return r
            elif x.op == "cells":
                for o, s, v in x.args[0]:
                    if o == off and s == size:
                        return (self.ev(v),)
            else:
                raise Unknown("layer " + x.op)
        return None

    def opread(self, l, off, size):
        opt, ooff, on, ic_, ioff, inn = l.args
        o0 = self.ev(ooff)
        n = self.ev(on)
        if not (o0 <= off < o0 + 8 * n):
            return None
        fv, hd = sfree(l)
        key = ("op", self.gen, l, tuple(map(self.bound.get, fv)),
               () if all(map(self.bound.__contains__, hd)) else self.inside(hd))
        y = self.memo.get(key)
        if y is None:
            i0, m = self.ev(ioff), self.ev(inn)
            x = [self.readc(ic_, i0 + 8 * k, 8, "f") for k in range(m)]
            h = self.ops.get(opt.op)
            if h is None:
                raise Unknown("operator " + opt.op)
            y = h(self, opt, x, n)
            self.memo[key] = y
        return y[(off - o0) // 8]

    # -- folds
    def fold(self, t):
        L, bv, count, j, fdefs = t.args
        n = self.ev(count)
        key = ("fold", self.gen, L, bv, fdefs, n,
               tuple(map(self.bound.get, sfree(t)[0])))
        r = self.memo.get(key)
        if r is None:
            if n > 150_000:
                raise Unknown("long loop")
            tt = tm.mk("t", L)
            sv = self.leave(L, bv)
            olds = {s: self.bound.get(s) for s, _, _ in fdefs}
            cur = []
            for s, i0, cs in fdefs:
                try:
                    cur.append(self.ev(i0))
                except Uninit:
                    cur.append(None)
            od = self.enter(self.I.layerdefs.get(fdefs))
            try:
                for k in range(n):
                    self.bound[bv] = k
                    self.bound[tt] = k
                    self.prefix[L] = k
                    for (s, _, _), v in zip(fdefs, cur):
                        if v is None:
                            self.bound.pop(s, None)
                        else:
                            self.bound[s] = v
                    nxt = []
                    for s, _, cs in fdefs:
                        v = None
                        if len(cs) == 1:
                            v = self.evx(cs[0][1])
                        else:
                            for g, x in cs:
                                if self.guard(g):
                                    v = self.evx(x)
                                    break
                        nxt.append(v)
                    cur = nxt
            finally:
                for s, v in olds.items():
                    if v is None:
                        self.bound.pop(s, None)
                    else:
                        self.bound[s] = v
                self.exit(od)
                self.back(L, bv, sv)
            r = cur
            self.memo[key] = r
        if r[j] is None:
            raise Unknown("fold (%s)" % getattr(self, "why", ""))
        return r[j]

    def leaves(self, X):
        """(exit taken, iteration) of a loop with several exits"""
        bv, guards, fdefs = X.args
        L = bv.args[0]
        key = (self.gen, X, tuple(map(self.bound.get, sfree(X)[0])),
               tuple(sorted(self.prefix.items(), key=lambda kv: kv[0].uid)))
        r = self.memo.get(key)
        if r is not None:
            return r
        tt = tm.mk("t", L)
        sv = self.leave(L, bv)
        olds = {s: self.bound.get(s) for s, _, _ in fdefs}
        try:
            cur = [self.evx(i0) for s, i0, cs in fdefs]
        finally:
            pass
        od = self.enter(self.I.layerdefs.get(X))
        try:
            for k in range(150_000):
                self.bound[bv] = k
                self.bound[tt] = k
                self.prefix[L] = k
                for (s, _, _), v in zip(fdefs, cur):
                    if v is None:
                        self.bound.pop(s, None)
                    else:
                        self.bound[s] = v
                for n, g in enumerate(guards):
                    if self.guard(g):
                        r = (n, k)
                        break
                if r:
                    break
                nxt = []
                for s, _, cs in fdefs:
                    v = None
                    if len(cs) == 1:
                        v = self.evx(cs[0][1])
                    else:
                        for g, x in cs:
                            if self.guard(g):
                                v = self.evx(x)
                                break
                    nxt.append(v)
                cur = nxt
        finally:
            for s, v in olds.items():
                if v is None:
                    self.bound.pop(s, None)
                else:
                    self.bound[s] = v
            self.exit(od)
            self.back(L, bv, sv)
        if r is None:
            raise Unknown("long loop")
        self.memo[key] = r
        return r

    def evx(self, t):
        try:
            return self.ev(t)
        except (Unknown, Uninit) as e:
            self.why = e
            return None

    # -- states
    def pick(self, rets):
        """the (value, state) whose guard holds in this sample"""
        hit = []
        for r, s in rets:
            if self.guard(s.guard):
                hit.append((r, s))
        if len(hit) != 1:
            raise Unknown("%d of %d results apply" % (len(hit), len(rets)))
        return hit[0]

    def elem(self, s, p, i, size=8, kind="f"):
        """element i behind pointer p in state s"""
        off = self.ev(p.args[1]) + size * i
        return self.readc(self.I.content(s, p.args[0]), off, size, kind)

    def vec(self, s, p, n):
        return [self.elem(s, p, i) for i in range(n)]


def constants(I, roots):
    """integer and floating constants that conditions reachable from the terms compare with"""
    ints, flts = set(), set()
    seen = set()
    st = list(roots)

    def num(t):
        if t.op == "p":
            for m, c in t.args[0]:
                if not m:
                    ints.add(abs(c))
                    ints.add(abs(c) // 8)
                elif abs(c) > 1:
                    ints.add(abs(c))
        elif t.op == "fc":
            flts.add(abs(t.args[0]))
            if t.args[0] == int(t.args[0] if abs(t.args[0]) < 1e9 else 0):
                ints.add(int(abs(t.args[0])))
    while st:
        x = st.pop()
        if isinstance(x, (tuple, frozenset, list)):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op in ("cmp", "fcmp"):
            for y in x.args[1:]:
                num(y)
        if x.op == "iop":
            num(x.args[2])
        if x.op in ("fn2",):
            num(x.args[1]), num(x.args[2])
        if x.op in ("max0", "ucnt"):
            num(x.args[0])
        if x.op == "hdr":
            d = I.loopdefs.get(x)
            if d:
                st.extend(y for y in d if y is not None)
        st.extend(x.args)
    return sorted(i for i in ints if 2 < i <= 140000), \
        sorted(f for f in flts if 0 < f < 1e12)


def compared(I, roots, atom):
    """integers that conditions reachable from the terms compare expressions over atom with"""
    out, seen, st = set(), set(), list(roots)

    def ints(t, acc):
        hit = False
        w = [t]
        done = set()
        while w:
            y = w.pop()
            if isinstance(y, (tuple, frozenset, list)):
                w.extend(y)
            elif isinstance(y, int) and not isinstance(y, bool):
                acc.add(abs(y))
            elif isinstance(y, T) and y not in done:
                done.add(y)
                hit |= y is atom
                if y.op not in ("content", "hdr"):
                    w.extend(y.args)
        return hit
    while st:
        x = st.pop()
        if isinstance(x, (tuple, frozenset, list)):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == "cmp":
            acc = set()
            if ints(x, acc):
                out |= acc
        if x.op == "hdr":
            d = I.loopdefs.get(x)
            if d:
                st.extend(y for y in d if y is not None)
        st.extend(x.args)
    return sorted(i for i in out if i <= 10 ** 6)


def fcmp(p, x, y):
    nan = x != x or y != y
    q = p[1:]
    if p == "ord":
        return not nan
    if p == "uno":
        return nan
    if nan:
        return p[0] == "u"
    return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y,
            "ge": x >= y}[q]


def close(a, b, tol=1e-9):
    if a != a and b != b:
        return True
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= tol * (1 + max(abs(a), abs(b)))


# ------------------------------------------------------------------ operators
def dct1d(kind, x):
    """FFTW's unnormalised REDFT10 (5) / REDFT01 (4)"""
    n = len(x)
    if kind == 5:
        return [2 * sum(x[j] * math.cos(math.pi * (j + .5) * k / n) for j in range(n))
                for k in range(n)]
    if kind == 4:
        return [x[0] + 2 * sum(x[j] * math.cos(math.pi * j * (k + .5) / n)
                               for j in range(1, n)) for k in range(n)]
    raise Unknown("fftw kind %s" % kind)


def op_dct(S, opt, x, n):
    kinds, dims = opt.args
    ks = [cval(k) for k in kinds]
    ds = [S.ev(d) for d in dims]
    if len(ds) == 1:
        return dct1d(ks[0], x)
    r, c = ds
    rows = [dct1d(ks[1], x[i * c:(i + 1) * c]) for i in range(r)]
    cols = [dct1d(ks[0], [rows[i][j] for i in range(r)]) for j in range(c)]
    return [cols[j][i] for i in range(r) for j in range(c)]


def matrix(S, key, n, m):
    k = ("matrix", key)
    A = S.memo.get(k)
    if A is None:
        rnd = random.Random("%s|%s|%d|%d" % (S.seed, key, n, m))
        A = S.memo[k] = [[rnd.uniform(-1, 1) for _ in range(m)] for _ in range(n)]
    return A


def setmatrix(S, key, A):
    S.memo[("matrix", key)] = A


OPS = {"dct": op_dct}
