"""Interprocedural abstract interpreter over LLVM IR (JSON form).

A forward, context-sensitive dataflow analysis.  The abstract state maps SSA values to
terms, objects to memory contents (terms), and carries facts (intervals over canonical
linear forms, nullness, truth of conditions), resource typestates and monitor events.
Joins merge states whose live parts agree (facts are intersected); loops are solved by an
optimistic fixpoint which widens everything that changes across the back edge to loop
symbols (t: iteration number, lphi/lmem/hdr: loop-carried value/cell/array).
Nothing is executed and no solver is involved.
"""
import os
import sys
from fractions import Fraction

import terms as tm
from terms import (T, mk, ic, cval, P, padd, psub, pmul, pscale, pconst, pnoconst, patom,
                   pdivc, plin, ptr, ptradd, fc, fop, subst, max0, NULL, UNDEF, FU, ZERO,
                   ONE, show, free)
from program import short

sys.setrecursionlimit(20000)
INF = None
TRUE_G = frozenset([frozenset()])
TOPCTX = mk("ctx")


class Blowup(Exception):
    pass


class State:
    __slots__ = ("env", "mem", "facts", "res", "guard", "mon")

    def __init__(self):
        self.env, self.mem, self.facts, self.res = {}, {}, {}, {}
        self.guard = TRUE_G
        self.mon = {}

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.res = dict(self.res)
        s.guard = self.guard
        s.mon = dict(self.mon)
        return s


# ------------------------------------------------------------------ guards (DNF)
def g_and(g, lit):
    out = set()
    neg = (lit[0], not lit[1])
    for c in g:
        if neg in c:
            continue
        out.add(c | {lit})
    return frozenset(out)


def g_mul(a, b):
    out = set()
    for x in a:
        for y in b:
            z = x | y
            if not any((c, not v) in z for c, v in z):
                out.add(z)
    return frozenset(out)


def g_or(a, b):
    s = set(a) | set(b)
    ch = True
    while ch:
        ch = False
        l = sorted(s, key=len)
        for i, x in enumerate(l):
            for y in l[i + 1:]:
                if x <= y:
                    s.discard(y)
                    ch = True
                    break
                d1, d2 = x - y, y - x
                if len(d1) == 1 and len(d2) == 1:
                    (c1, v1), (c2, v2) = next(iter(d1)), next(iter(d2))
                    if c1 is c2 and v1 != v2:
                        s.discard(x)
                        s.discard(y)
                        s.add(x & y)
                        ch = True
                        break
                if len(d1) == 1 and len(d2) >= 1:
                    (c1, v1) = next(iter(d1))
                    if (c1, not v1) in d2:      # x: A&c ; y: A&~c&B  -> y can drop ~c
                        s.discard(y)
                        s.add(y - {(c1, not v1)})
                        ch = True
                        break
            if ch:
                break
    return frozenset(s)


def canon(p):
    """canonical (linear form, sign) with p = sign*form + const"""
    n = pnoconst(p)
    a = n.args[0]
    if not a:
        return n, 1
    if a[-1][1] < 0:
        return pscale(n, -1), -1
    return n, 1


class LoopRec:
    __slots__ = ("L", "f", "h", "ctx", "entry", "head", "back", "exits", "raw", "modes", "t",
                 "count", "phis", "caller", "facts0", "kids", "vary", "keep", "pbase")


class Interp:
    def __init__(self, prog, numeric=False, models=None, maxstates=6000, skip=()):
        self.prog = prog
        self.numeric = numeric
        self.models = models or {}
        self.listeners = []
        self.maxstates = maxstates
        self.loops = {}
        self.unknown_calls = set()
        self.notes = set()
        self.stack = []
        self.ninst = 0
        self.maxinst = 20_000_000
        self.loopdefs = {}        # loop-head array -> (entry content, cases, bv)
        self.layerdefs = {}       # (cases, hdr) or fdefs -> {loop-head array: definition}
        self.clash = set()        # loop-head arrays with several definitions in one pass
        self.stamp, self.stampn = [], 0
        self.defstamp = {}
        self.fseen = {}
        self.hook = None
        self.fresh_n = 0
        # loops that call back into the outside (a model did self.mark += 1) are not closed:
        # the states behind them are left in terms of the head of their last iteration
        self.openloops = False
        self.asize = {}
        self.aalign = {}
        self.recs = {}            # (loop, guard at entry) -> LoopRec
        self.seen = {}            # comparison of reals -> outcomes met in valuations (1 true, 2 false)
        self.unroll = 0           # > 0: loops are followed iteration by iteration
        self.mark = 0
        self.kids = [[]]

    # ------------------------------------------------------------- events
    def emit(self, ev_, st, inst, /, **kw):
        for l in self.listeners:
            m = getattr(l, "on_" + ev_, None)
            if m:
                m(self, st, inst, **kw)

    def where(self, inst=None):
        f = self.stack[-1][0] if self.stack else None
        if f is None:
            return "?"
        return "%s (in %s)" % (f.loc(inst) if inst else f.file, f.dbg)

    def chain(self):
        return " <- ".join(f.dbg for f, _ in reversed(self.stack))

    # ------------------------------------------------------------- facts
    def interval(self, st, p):
        """(lo, hi) of polynomial p under st.facts"""
        p = P(p)
        c = cval(p)
        if c is not None:
            return c, c
        k = pconst(p)
        form, sg = canon(p)
        lo, hi = self._form(st, form)
        if sg < 0:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
        return (None if lo is None else lo + k), (None if hi is None else hi + k)

    def _form(self, st, form):
        lo = hi = None
        f = st.facts.get(form)
        if f:
            lo, hi = f
        ms = form.args[0]
        # sum of monomial intervals
        slo, shi = 0, 0
        for m, c in ms:
            a, b = self._mono(st, m)
            if c < 0:
                a, b = b, a
            slo = None if (slo is None or a is None) else slo + c * a
            shi = None if (shi is None or b is None) else shi + c * b
        if slo is not None and (lo is None or slo > lo):
            lo = slo
        if shi is not None and (hi is None or shi < hi):
            hi = shi
        if (lo is None or hi is None) and 1 <= len(ms) <= 6:
            # combine with one known fact on a sub-form
            for g, iv in st.facts.items():
                if g.op != "p" or not isinstance(iv, tuple) or g is form:
                    continue
                if not (set(m for m, _ in g.args[0]) & set(m for m, _ in ms)):
                    continue
                for s in (1, -1):
                    rest = padd(form, pscale(g, s), -1)
                    if len(rest.args[0]) >= max(len(ms), 2):
                        continue
                    r = pnoconst(rest)
                    if r.args[0] and len(r.args[0]) > 2:
                        continue
                    rl, rh = 0, 0
                    for m, c in r.args[0]:
                        a, b = self._mono(st, m)
                        if c < 0:
                            a, b = b, a
                        rl = None if (rl is None or a is None) else rl + c * a
                        rh = None if (rh is None or b is None) else rh + c * b
                    if len(r.args[0]) == 2 and (rl is None or rh is None):
                        rf, sg = canon(r)
                        ff = st.facts.get(rf)
                        if ff:
                            a, b = ff
                            if sg < 0:
                                a, b = (None if b is None else -b), (None if a is None else -a)
                            rl = a if rl is None else rl
                            rh = b if rh is None else rh
                    a, b = iv
                    if s < 0:
                        a, b = (None if b is None else -b), (None if a is None else -a)
                    if rl is not None and a is not None and (lo is None or rl + a > lo):
                        lo = rl + a
                    if rh is not None and b is not None and (hi is None or rh + b < hi):
                        hi = rh + b
        if len(ms) == 1 and ms[0][1] == 1 and len(ms[0][0]) == 1 and (lo is None or hi is None):
            a = ms[0][0][0]
            if a.op in ("arg", "init", "sym"):
                if hi is None:
                    hi = self._chain(st, a, 1, 3, ())
                if lo is None:
                    x = self._chain(st, a, -1, 3, ())
                    lo = None if x is None else -x
        return lo, hi

    def _chain(self, st, a, sg, depth, seen):
        """upper bound of sg*a through difference facts"""
        f = st.facts.get(mk("p", (((a,), 1),)))
        best = None
        if f:
            x = f[1] if sg > 0 else f[0]
            if x is not None:
                best = sg * x
        if best is not None or depth == 0:
            return best
        for g, iv in st.facts.items():
            if g.op != "p" or len(g.args[0]) != 2 or not isinstance(iv, tuple):
                continue
            (m1, c1), (m2, c2) = g.args[0]
            if c1 * c2 != -1 or len(m1) != 1 or len(m2) != 1:
                continue
            if m1[0] is a:
                c, b = c1, m2[0]
            elif m2[0] is a:
                c, b = c2, m1[0]
            else:
                continue
            if b in seen:
                continue
            # g = c*a - c*b in iv
            s2 = c * sg                   # sg*a = s2*(c*a)
            d = iv[1] if s2 > 0 else (None if iv[0] is None else -iv[0])
            if d is None:
                continue
            r = self._chain(st, b, sg, depth - 1, seen + (a,))
            if r is not None and (best is None or r + d < best):
                best = r + d
        return best

    def _mono(self, st, m):
        if len(m) == 0:
            return 1, 1
        if len(m) == 1:
            f = st.facts.get(mk("p", ((m, 1),)))
            lo, hi = f if f else (None, None)
            a = m[0]
            if a.op == "b2i":
                lo, hi = 0 if lo is None else max(lo, 0), 1 if hi is None else min(hi, 1)
                if self.iopd < 3:
                    self.iopd += 1
                    try:
                        v = self.evalc(st, a.args[0])
                    finally:
                        self.iopd -= 1
                    if v is True:
                        return 1, 1
                    if v is False:
                        return 0, 0
            elif a.op in ("t", "max0", "bv", "ucnt"):
                lo = 0 if lo is None else max(lo, 0)
            elif a.op == "iop":
                r = self._iop_iv(st, a)
                if r[0] is not None:
                    lo = r[0] if lo is None else max(lo, r[0])
                if r[1] is not None:
                    hi = r[1] if hi is None else min(hi, r[1])
            return lo, hi
        lo, hi = 1, 1
        ok = True
        f = st.facts.get(mk("p", ((m, 1),)))
        for a in m:
            x, y = self._mono(st, (a,))
            if x is None or x < 0:
                ok = False
                break
            lo *= x
            hi = None if (hi is None or y is None) else hi * y
        if not ok:
            lo, hi = None, None
        if f:
            lo = f[0] if lo is None else (lo if f[0] is None else max(lo, f[0]))
            hi = f[1] if hi is None else (hi if f[1] is None else min(hi, f[1]))
        return lo, hi

    iopd = 0

    def _iop_iv(self, st, a):
        if self.iopd >= 3:
            return None, None
        self.iopd += 1
        try:
            return self._iop_iv1(st, a)
        finally:
            self.iopd -= 1

    def _iop_iv1(self, st, a):
        op = a.args[0]
        if op == "or":
            l1, h1 = self.interval(st, a.args[1])
            l2, h2 = self.interval(st, a.args[2])
            if (l1 == 0 and h1 == 0):
                return l2, h2
            if (l2 == 0 and h2 == 0):
                return l1, h1
            if l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0:
                return max(l1, l2), None
        if op == "srem":
            c = cval(a.args[2])
            l, h = self.interval(st, a.args[1])
            if c and c > 0:
                return (0 if (l is not None and l >= 0) else -(c - 1)), c - 1
            lo2, hi2 = self.interval(st, a.args[2])
            if l is not None and l >= 0:
                return 0, None
        if op in ("sdiv", "udiv"):
            c = cval(a.args[2])
            l, h = self.interval(st, a.args[1])
            if c and c > 0 and l is not None and l >= 0:
                return l // c, (None if h is None else h // c)
        if op == "and":
            c = cval(a.args[2])
            if c is not None and c >= 0:
                return 0, c
            l, h = self.interval(st, a.args[1])
            if l is not None and l >= 0:
                return 0, h
        return None, None

    def addiv(self, st, p, lo, hi):
        """add lo <= p <= hi ; False if contradictory"""
        c = cval(p)
        if c is not None:
            return not ((lo is not None and c < lo) or (hi is not None and c > hi))
        k = pconst(p)
        form, sg = canon(p)
        lo2 = None if lo is None else lo - k
        hi2 = None if hi is None else hi - k
        if sg < 0:
            lo2, hi2 = (None if hi2 is None else -hi2), (None if lo2 is None else -lo2)
        a, b = self._form(st, form)
        if lo2 is not None and (a is None or lo2 > a):
            a = lo2
        if hi2 is not None and (b is None or hi2 < b):
            b = hi2
        if a is not None and b is not None and a > b:
            return False
        # disequalities
        for _ in range(3):
            if a is not None and st.facts.get(mk("ne", form, a)):
                a += 1
            elif b is not None and st.facts.get(mk("ne", form, b)):
                b -= 1
            else:
                break
        if a is not None and b is not None and a > b:
            return False
        st.facts[form] = (a, b)
        x = patom(form)
        if x is not None:
            if x.op == "b2i" and a is not None and a == b:
                return self.assume(st, x.args[0], bool(a), noguard=True)
            if x.op == "iop" and x.args[0] == "or" and a == 0 and b == 0:
                return self.addiv(st, x.args[1], 0, 0) and self.addiv(st, x.args[2], 0, 0)
        # a sum of nonnegative things known to be zero
        if b == 0 and len(form.args[0]) > 1 and all(cf > 0 for _, cf in form.args[0]):
            ivs = [self._mono(st, m) for m, _ in form.args[0]]
            if all(i[0] is not None and i[0] >= 0 for i in ivs):
                for m, _ in form.args[0]:
                    if len(m) == 1 and not self.addiv(st, mk("p", ((m, 1),)), 0, 0):
                        return False
        return True

    def ge0(self, st, p):
        lo, _ = self.interval(st, p)
        return lo is not None and lo >= 0

    def isnull(self, st, p):
        """True / False / None"""
        if p is NULL:
            return True
        if p.op == "fptr":
            return False
        if p.op == "ptr":
            o = p.args[0]
            k = o.args[0]
            if k in ("alloca", "glob", "frame", "byval", "argv", "row", "ctab"):
                return False
            if k == "nullbase":
                return None
            v = st.facts.get(mk("nul", o))
            if v is not None:
                return v
            if k == "ext" and not (len(o.args) > 2 and o.args[2] == "maybenull"):
                return self.extnull(o)
            return None
        if p.op == "cmp":
            return None
        return st.facts.get(mk("nul", p))

    def extnull(self, o):
        return None

    def evalc(self, st, c):
        v = cval(c) if c.op == "p" else None
        if v is not None:
            return bool(v)
        if c in st.facts:
            f = st.facts[c]
            if isinstance(f, bool):
                return f
        op = c.op
        if op == "not":
            v = self.evalc(st, c.args[0])
            return None if v is None else not v
        if op == "cmp":
            pred, a, b = c.args
            return self._cmp(st, pred, a, b)
        if op == "band":
            v, w = self.evalc(st, c.args[0]), self.evalc(st, c.args[1])
            if v is False or w is False:
                return False
            return True if (v and w) else None
        if op == "bor":
            v, w = self.evalc(st, c.args[0]), self.evalc(st, c.args[1])
            if v is True or w is True:
                return True
            return False if (v is False and w is False) else None
        if op == "p":
            lo, hi = self.interval(st, c)
            if lo == 0 and hi == 0:
                return False
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return True
            return None
        if op == "fcmp":
            return self._fcmp(st, c)
        return None

    def _fcmp(self, st, c):
        pred, a, b = c.args
        if a.op == "fc" and b.op == "fc":
            x, y = a.args[0], b.args[0]
            un = x != x or y != y
            return {"oeq": x == y, "ueq": un or x == y, "one": (not un) and x != y,
                    "une": x != y, "olt": x < y, "ole": x <= y, "ogt": x > y,
                    "oge": x >= y, "ult": un or x < y, "ule": un or x <= y,
                    "ugt": un or x > y, "uge": un or x >= y, "uno": un,
                    "ord": not un}.get(pred)
        if a.op == "i2f" and b.op in ("i2f", "fc"):
            q = b.args[0] if b.op == "i2f" else None
            if q is None and float(b.args[0]).is_integer():
                q = ic(int(b.args[0]))
            if q is not None:
                return self._cmp(st, {"olt": "slt", "ole": "sle", "ogt": "sgt", "oge": "sge",
                                      "oeq": "eq", "une": "ne"}.get(pred, "?"), a.args[0], q)
        if pred == "uno" and a is b and a.op == "i2f":
            return False
        if a.op == "fc" and b.op != "fc":
            a, b, pred = b, a, self.FSWAP.get(pred, pred)
        if b.op == "fc" and a.op != "fc":
            iv = st.facts.get(mk("fiv", a))
            if iv is not None:
                return self._fiv(iv, pred, b.args[0])
        return None

    FSWAP = {"olt": "ogt", "ole": "oge", "ogt": "olt", "oge": "ole", "ult": "ugt",
             "ule": "uge", "ugt": "ult", "uge": "ule"}
    FNEG = {"olt": "uge", "ole": "ugt", "ogt": "ule", "oge": "ult", "oeq": "une", "one": "ueq",
            "ult": "oge", "ule": "ogt", "ugt": "ole", "uge": "olt", "ueq": "one", "une": "oeq",
            "uno": "ord", "ord": "uno"}

    def _fiv(self, iv, pred, c):
        """truth of x pred c for a non-NaN x in the interval (lo, lo strict, hi, hi strict)"""
        lo, ls, hi, hs = iv
        lt = hi is not None and (hi < c or (hi == c and hs))       # x < c
        le = hi is not None and hi <= c
        gt = lo is not None and (lo > c or (lo == c and ls))
        ge = lo is not None and lo >= c
        p = pred[1:]
        if pred == "ord":
            return True
        if pred == "uno":
            return False
        yes = {"lt": lt, "le": le, "gt": gt, "ge": ge,
               "eq": le and ge, "ne": lt or gt}.get(p)
        no = {"lt": ge, "le": gt, "gt": le, "ge": lt, "eq": lt or gt,
              "ne": le and ge}.get(p)
        return True if yes else (False if no else None)

    def _fassume(self, st, c, v):
        """record x in an interval from an ordered comparison with a constant"""
        pred, a, b = c.args
        if a.op == "fc" and b.op != "fc":
            a, b, pred = b, a, self.FSWAP.get(pred, pred)
        if b.op != "fc" or a.op in ("fc", "i2f") or a is FU:
            return
        if not v:
            pred = self.FNEG.get(pred, pred)
        key = mk("fiv", a)
        old = st.facts.get(key)
        if pred[0] == "u" and old is None:
            return
        lo, ls, hi, hs = old or (None, False, None, False)
        k = b.args[0]
        p = pred[1:]
        if p in ("lt", "le", "eq") and (hi is None or k < hi or (k == hi and p == "lt")):
            hi, hs = k, p == "lt"
        if p in ("gt", "ge", "eq") and (lo is None or k > lo or (k == lo and p == "gt")):
            lo, ls = k, p == "gt"
        st.facts[key] = (lo, ls, hi, hs)

    PRED = {"ult": "slt", "ule": "sle", "ugt": "sgt", "uge": "sge"}

    def _isptr(self, x):
        return x.op in ("ptr", "null", "fptr")

    def _cmp(self, st, pred, a, b):
        if self._isptr(a) or self._isptr(b):
            if a is b:
                return pred in ("eq", "ule", "uge", "sle", "sge")
            if a.op == "ptr" and b.op == "ptr" and a.args[0] is b.args[0]:
                return self._cmp(st, pred, a.args[1], b.args[1])
            if b is NULL or a is NULL:
                n = self.isnull(st, a if b is NULL else b)
                if n is None:
                    return None
                return n if pred == "eq" else (not n if pred == "ne" else None)
            if a.op == "fptr" and b.op == "fptr":
                return pred == "ne"
            return None
        pred = self.PRED.get(pred, pred)
        lo, hi = self.interval(st, psub(a, b))
        if pred == "slt":
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
        elif pred == "sle":
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        elif pred == "sgt":
            if lo is not None and lo > 0:
                return True
            if hi is not None and hi <= 0:
                return False
        elif pred == "sge":
            if lo is not None and lo >= 0:
                return True
            if hi is not None and hi < 0:
                return False
        elif pred in ("eq", "ne"):
            r = None
            if lo == 0 and hi == 0:
                r = True
            elif (lo is not None and lo > 0) or (hi is not None and hi < 0):
                r = False
            else:
                d = psub(a, b)
                form, sg = canon(d)
                if st.facts.get(mk("ne", form, -sg * pconst(d))):
                    r = False
            if r is None:
                return None
            return r if pred == "eq" else not r
        return None

    def assume(self, st, c, v, noguard=False):
        """constrain st by c == v; False when infeasible"""
        k = self.evalc(st, c)
        if k is not None:
            return k == v
        if self.numeric and not noguard:
            st.guard = g_and(st.guard, (c, v))
        if c.op == "not":
            return self.assume(st, c.args[0], not v, True)
        if c.op in ("fcmp", "sym", "isnan"):
            if not (c.op == "fcmp" and FU in c.args):
                st.facts[c] = v
                if c.op == "fcmp":
                    self._fassume(st, c, v)
            if c.op == "fcmp" and c.args[1].op == "i2f":
                a, b = c.args[1], c.args[2]
                q = b.args[0] if b.op == "i2f" else (
                    ic(int(b.args[0])) if b.op == "fc" and float(b.args[0]).is_integer()
                    else None)
                pr = {"olt": "slt", "ole": "sle", "ogt": "sgt", "oge": "sge", "oeq": "eq",
                      "une": "ne"}.get(c.args[0])
                if q is not None and pr:
                    return self.assume(st, mk("cmp", pr, a.args[0], q), v, True)
            return True
        if c.op == "band":
            if v:
                return self.assume(st, c.args[0], True, True) and \
                    self.assume(st, c.args[1], True, True)
            st.facts[c] = v
            return True
        if c.op == "bor":
            if not v:
                return self.assume(st, c.args[0], False, True) and \
                    self.assume(st, c.args[1], False, True)
            st.facts[c] = v
            return True
        if c.op == "cmp":
            pred, a, b = c.args
            if self._isptr(a) or self._isptr(b):
                if a.op == "ptr" and b.op == "ptr" and a.args[0] is b.args[0]:
                    return self.assume(st, mk("cmp", pred, a.args[1], b.args[1]), v, True)
                x = a if b is NULL else (b if a is NULL else None)
                if x is not None and pred in ("eq", "ne"):
                    isn = v if pred == "eq" else not v
                    o = x.args[0] if x.op == "ptr" else x
                    st.facts[mk("nul", o)] = isn
                    if isn and o in st.res and st.res[o][0] == "live":
                        r = st.res.pop(o)
                        st.mon["fail"] = r[1]
                    self.emit("null", st, None, obj=o, isnull=isn)
                else:
                    st.facts[c] = v
                return True
            pred = self.PRED.get(pred, pred)
            if not v:
                pred = {"slt": "sge", "sle": "sgt", "sgt": "sle", "sge": "slt", "eq": "ne",
                        "ne": "eq"}.get(pred, pred)
            d = psub(a, b)
            if pred == "slt":
                return self.addiv(st, d, None, -1)
            if pred == "sle":
                return self.addiv(st, d, None, 0)
            if pred == "sgt":
                return self.addiv(st, d, 1, None)
            if pred == "sge":
                return self.addiv(st, d, 0, None)
            if pred == "eq":
                return self.addiv(st, d, 0, 0)
            if pred == "ne":
                form, sg = canon(d)
                kk = -sg * pconst(d)
                st.facts[mk("ne", form, kk)] = True
                lo, hi = self._form(st, form)
                if lo == kk:
                    return self.addiv(st, form, kk + 1, None)
                if hi == kk:
                    return self.addiv(st, form, None, kk - 1)
                x = patom(form)
                if kk == 0 and x is not None and x.op == "b2i":
                    return self.assume(st, x.args[0], True, True)
                return True
            return True
        if c.op == "p":
            x = patom(c)
            if x is not None and x.op == "b2i":
                return self.assume(st, x.args[0], v, True)
            return self.assume(st, mk("cmp", "ne", c, ZERO), v, True)
        st.facts[c] = v
        return True

    # ------------------------------------------------------------- memory
    def content(self, st, obj):
        c = st.mem.get(obj)
        if c is None:
            c = self.initial(obj)
            st.mem[obj] = c
        return c

    def initial(self, obj):
        k = obj.args[0]
        if k == "glob":
            g = self.prog.globs.get(obj.args[1])
            if g and not g["decl"] and (g["const"] or self.const_globals(g)):
                cells = []
                if "init" in g:
                    m = next(x for x in self.prog.mods if x["rel"] == g["mod"])
                    for off, size, val in g["init"]:
                        if val[0] in ("u",):
                            continue
                        cells.append((off, size, self.const(val, m)))
                base = mk("str", g["str"]) if "str" in g else mk("zero", obj)
                if cells:
                    return mk("content", base, (mk("cells", tuple(cells)),))
                return mk("content", base, ())
            return mk("content", mk("ext", obj), ())
        if k == "alloca":
            return mk("content", mk("undefc", obj), ())
        if k == "row":
            return mk("content", mk("zero" if obj.args[1].args[2] == "calloc2D" else "undefc",
                                    obj), ())
        return mk("content", mk("ext", obj), ())

    def const_globals(self, g):
        return False

    def write(self, st, obj, off, size, val):
        c = self.content(st, obj)
        co = cval(off)
        layers = c.args[1]
        if co is not None:
            if val.op == "pack":
                n = [(co, 4, val.args[0]), (co + 4, 4, val.args[1])]
            else:
                n = [(co, size, val)]
            if layers and layers[-1].op == "cells":
                old = layers[-1].args[0]
                keep = []
                for (o, s, v) in old:
                    if o + s <= co or o >= co + size:
                        keep.append((o, s, v))
                    elif o >= co and o + s <= co + size:
                        continue
                    else:
                        # partial overwrite of a wider cell: split in 4-byte parts
                        for q in range(o, o + s, 4):
                            if q + 4 <= co or q >= co + size:
                                keep.append((q, 4, self.part(v, q - o, s)))
                cells = tuple(sorted(keep + n, key=lambda x: x[0]))
                layers = layers[:-1] + (mk("cells", cells),)
            else:
                layers = layers + (mk("cells", tuple(n)),)
        else:
            layers = layers + (mk("w", off, size, val),)
        st.mem[obj] = mk("content", c.args[0], layers)

    def part(self, v, o, s):
        if v.op == "pack":
            return v.args[0] if o == 0 else v.args[1]
        c = cval(v)
        if c is not None:
            return ic((c >> (8 * o)) & 0xffffffff)
        return mk("part", v, o)

    def flatten(self, st, obj):
        """turn view / constant-size zero-fill layers of small objects into cells"""
        c = st.mem[obj]
        ls = c.args[1]
        if not ls:
            return
        l = ls[-1]
        below = mk("content", c.args[0], ls[:-1])
        if l.op == "view":
            src, so, do, ln = l.args
            if cval(so) is None or ln > 512:
                return
            so = cval(so)
            cells = self.allcells(src, so, ln)
            if cells is None:
                return
            st.mem[obj] = below
            for o, s, v in cells:
                self.write(st, obj, ic(o - so + do), s, v)
        elif l.op == "fillz":
            o, ln = cval(l.args[0]), cval(l.args[1])
            if o is None or ln is None or ln > 512:
                return
            st.mem[obj] = mk("content", c.args[0], self.dropcells(ls[:-1], o, ln) + (l,))

    def dropcells(self, layers, o, n):
        return layers

    def allcells(self, c, so, ln):
        """cells of [so, so+ln) if they are all explicit"""
        layers = c.args[1]
        if len(layers) != 1 or layers[0].op != "cells":
            return None
        out = [(o, s, v) for o, s, v in layers[0].args[0] if o + s > so and o < so + ln]
        out.sort(key=lambda x: x[0])
        if any(o < so or o + s > so + ln for o, s, _ in out):
            return None
        base = c.args[0]
        if base.op == "undefc":
            return out
        # must cover everything (4-byte padding tolerated is not assumed)
        pos = so
        for o, s, v in out:
            if o != pos:
                return None
            pos = o + s
        return out if pos == so + ln else None

    def addlayer(self, st, obj, layer):
        c = self.content(st, obj)
        st.mem[obj] = mk("content", c.args[0], c.args[1] + (layer,))

    def read(self, st, obj, off, size, kind):
        """kind: 'f' double, 'p' pointer, 'i' integer"""
        c = self.content(st, obj)
        return self.readc(st, c, off, size, kind, obj)

    def readc(self, st, c, off, size, kind, obj=None):
        co = cval(off)
        layers = c.args[1]
        for i in range(len(layers) - 1, -1, -1):
            l = layers[i]
            if l.op == "cells":
                if co is not None:
                    hit = None
                    for (o, s, v) in l.args[0]:
                        if o == co and s == size:
                            return v
                        if o < co + size and co < o + s:
                            hit = (o, s, v)
                    if hit:
                        o, s, v = hit
                        if s > size and o <= co and co + size <= o + s:
                            return self.part(v, co - o, s)
                        if size == 8:
                            lo = self.readc(st, c, ic(co), 4, "i", obj)
                            hi = self.readc(st, c, ic(co + 4), 4, "i", obj)
                            return mk("pack", lo, hi)
                        return mk("rd", c, off, size, kind)
                    continue
                # variable offset vs constant cells
                mx = max(o + s for o, s, _ in l.args[0])
                mn = min(o for o, s, _ in l.args[0])
                lo, hi = self.interval(st, off)
                if (lo is not None and lo >= mx) or (hi is not None and hi + size <= mn):
                    continue
                return self._rd(c, layers[:i + 1], off, size, kind)
            if l.op == "w":
                d = psub(off, l.args[0])
                cd = cval(d)
                if cd == 0 and size == l.args[1]:
                    return l.args[2]
                if cd is not None and (cd >= l.args[1] or cd + size <= 0):
                    continue
                lo, hi = self.interval(st, d)
                if (lo is not None and lo >= l.args[1]) or (hi is not None and hi + size <= 0):
                    continue
                return self._rd(c, layers[:i + 1], off, size, kind)
            if l.op == "view":
                src, so, do, ln = l.args
                d = psub(off, ic(do))
                cd = cval(d)
                if cd is None:
                    lo, hi = self.interval(st, d)
                    if (lo is not None and lo >= 0) and (hi is not None and hi + size <= ln):
                        return self.readc(st, src, padd(d, so), size, kind, obj)
                    return self._rd(c, layers[:i + 1], off, size, kind)
                if 0 <= cd and cd + size <= ln:
                    return self.readc(st, src, padd(d, so), size, kind, obj)
                if cd + size <= 0 or cd >= ln:
                    continue
                return self._rd(c, layers[:i + 1], off, size, kind)
            if l.op == "fillz":
                o, ln = l.args
                lo, hi = self.interval(st, psub(off, o))
                lo2, hi2 = self.interval(st, psub(psub(off, o), ln))
                if lo is not None and lo >= 0 and hi2 is not None and hi2 + size <= 0:
                    return self.zero(kind)
                if (hi is not None and hi + size <= 0) or (lo2 is not None and lo2 >= 0):
                    continue
                return self._rd(c, layers[:i + 1], off, size, kind)
            if l.op == "loop":
                r = self.readloop(st, l, off, size)
                if r is not None:
                    if r is False:
                        continue
                    return r
                return self._rd(c, layers[:i + 1], off, size, kind)
            if l.op == "op":
                return self._rd(c, layers[:i + 1], off, size, kind)
            return self._rd(c, layers[:i + 1], off, size, kind)
        return self.readbase(st, c.args[0], off, size, kind)

    def zero(self, kind):
        return {"f": fc(0.0), "p": NULL, "i": ZERO}[kind]

    def _rd(self, c, layers, off, size, kind):
        if kind == "f" and not self.numeric:
            return FU
        if len(layers) != len(c.args[1]):
            c = mk("content", c.args[0], layers)
        if kind == "p":
            return ptr(mk("obj", "ext", mk("rd", c, off, size, kind)), ZERO)
        return mk("rd", c, off, size, kind)

    def readloop(self, st, l, off, size):
        """resolve a read against a loop layer: value, False (disjoint) or None"""
        bv, count, cases = l.args[0], l.args[1], l.args[2]
        if len(cases) != 1 or cases[0][0] != TRUE_G:
            return None
        lay = cases[0][1]
        if len(lay) != 1 or lay[0].op != "w":
            return None
        woff, wsize, val = lay[0].args
        ln = plin(woff, bv)
        if ln is None:
            return None
        A, B = ln
        b = cval(B)
        if b is None or b == 0 or wsize != size:
            return None
        d = psub(off, A)
        q = pdivc(d, b)
        if q is None:
            return None
        lo, hi = self.interval(st, q)
        lo2, hi2 = self.interval(st, psub(q, count))
        if lo is not None and lo >= 0 and hi2 is not None and hi2 < 0:
            if any(x.op == "hdr" for x in free(val)):
                return None
            return subst(val, {bv: q})
        if (hi is not None and hi < 0) or (lo2 is not None and lo2 >= 0):
            return False
        return None

    def readbase(self, st, base, off, size, kind):
        k = base.op
        if k == "zero":
            return self.zero(kind)
        if k == "undefc":
            if kind == "f" and not self.numeric and cval(off) is None:
                return FU
            return UNDEF
        if k == "rows":
            co = cval(off)
            if kind == "p":
                idx = pdivc(off, 8)
                return ptr(mk("obj", "row", base.args[0], idx if idx is not None else off),
                           ZERO)
        if kind == "p":
            if k == "ext":
                o = base.args[0]
                return self.extptr(o, off)
            return ptr(mk("obj", "ext", mk("rd", mk("content", base, ()), off, size, kind)),
                       ZERO)
        if kind == "f" and not self.numeric:
            return FU
        if k == "str":
            co = cval(off)
            if co is not None and size == 1:
                b = base.args[0].encode()
                return ic(b[co] if co < len(b) else 0)
        if k == "ext":
            return mk("init", base.args[0], off, size, kind)
        return mk("rd", mk("content", base, ()), off, size, kind)

    def extptr(self, o, off):
        return ptr(mk("obj", "ext", o, off), ZERO)

    # ------------------------------------------------------------- operands
    def const(self, o, mod):
        k = o[0]
        if k == "c":
            return ic(o[1])
        if k == "f":
            return fc(float.fromhex(o[1]) if isinstance(o[1], str) else o[1])
        if k in ("n",):
            return NULL
        if k == "z":
            return mk("zagg")
        if k == "u":
            return UNDEF
        if k == "g":
            f = self.prog.resolve(mod, o[1])
            if f is not None:
                return mk("fptr", f.key)
            g = self.prog.resolve_glob(mod, o[1])
            key = g["key"] if g else o[1]
            return ptr(mk("obj", "glob", key), ic(o[2] if len(o) > 2 else 0))
        return mk("sym", "const", str(o))

    def val(self, st, o, f):
        k = o[0]
        if k == "v":
            r = st.env.get(o[1])
            if r is None:
                return UNDEF
            return r
        if k == "a":
            return st.env[("a", o[1])]
        return self.const(o, f.mod)

    # ------------------------------------------------------------- functions
    def call(self, f, args, st, ctx):
        """analyse f with argument values; list of (ret, state) with caller env = {}"""
        f.prepare()
        if any(g is f for g, _ in self.stack):
            self.notes.add("recursive call to %s not followed" % f.dbg)
            return [(mk("sym", "rec", f.key), st)]
        if len(self.stack) > 40:
            raise Blowup("call depth")
        self.fseen[f.key] = self.fseen.get(f.key, 0) + 1
        s = st.copy()
        s.env = {}
        for i, a in enumerate(args):
            s.env[("a", i)] = a
        self.stack.append((f, ctx))
        try:
            rets = []
            body = set(f.rpo)
            self.region(f, body, None, {0: [s]}, ctx, rets)
        finally:
            self.stack.pop()
        out = []
        fr = ctx
        for r, s in rets:
            s.env = {}
            dead = [o for o in s.mem if o.args[0] in ("alloca", "byval") and o.args[1] is fr]
            for o in dead:
                del s.mem[o]
                s.res.pop(o, None)
            out.append((r, s))
        return self.merge_rets(out)

    def merge_rets(self, rets):
        groups = {}
        for r, s in rets:
            s.env = {"ret": r}
            groups.setdefault(self.nkey(s, ("ret",)), []).append(s)
        out = []
        for g in groups.values():
            m = self.mergelist(g, ("ret",))
            out.extend((x.env.get("ret", UNDEF), x) for x in m)
        for _, s in out:
            s.env = {}
        return out

    # key of everything which must agree for two states to be merged
    def nkey(self, s, live):
        e = []
        for k in live:
            v = s.env.get(k)
            if v is not None and self.numeric and self.isfloat(v):
                e.append("f")
            else:
                e.append(v)
        return (tuple(e), frozenset(s.mem.items()), frozenset(s.res.items()),
                frozenset(s.mon.items()))

    FL = {"fc", "fadd", "fsub", "fmul", "fdiv", "fneg", "fn", "pw", "i2f", "ite", "fold",
          "ret", "fsym"}

    def isfloat(self, v):
        return v.op in self.FL or (v.op in ("rd", "init", "lphi", "lmem") and v.args[-1] == "f")

    def mergelist(self, g, live):
        if len(g) == 1:
            return g
        if not self.numeric:
            a = g[0]
            f = dict(a.facts)
            extra = {}
            for k in live:
                v = a.env.get(k)
                if v is not None and v.op == "p" and v.args[0] and v not in f:
                    form, _ = canon(v)
                    if form.args[0] and form not in f:
                        lo = hi = 0
                        for b in g:
                            x, y = self._form(b, form)
                            lo = None if (lo is None or x is None) else (
                                x if b is a else min(lo, x))
                            hi = None if (hi is None or y is None) else (
                                y if b is a else max(hi, y))
                        if lo is not None or hi is not None:
                            extra[form] = (lo, hi)
            for b in g[1:]:
                bf = b.facts
                for k in list(f):
                    v = f[k]
                    w = bf.get(k)
                    if w == v:
                        continue
                    if isinstance(v, tuple) and len(v) == 2:
                        if w is None and k.op == "p":
                            w = self._form(b, k)
                        if w is None:
                            del f[k]
                            continue
                        lo = None if (v[0] is None or w[0] is None) else min(v[0], w[0])
                        hi = None if (v[1] is None or w[1] is None) else max(v[1], w[1])
                        if lo is None and hi is None:
                            del f[k]
                        else:
                            f[k] = (lo, hi)
                    else:
                        del f[k]
            f.update(extra)
            a.facts = f
            return [a]
        # numeric: combine float values by piecewise terms on the (disjoint) guards
        acc = [g[0]]
        for b in g[1:]:
            a = acc[-1]
            gm = g_or(a.guard, b.guard)
            if len(gm) > 24:
                acc.append(b)
                continue
            com = None
            for c in list(a.guard) + list(b.guard):
                com = c if com is None else com & c
            ga = frozenset(c - com for c in a.guard)
            gb = frozenset(c - com for c in b.guard)
            for k in live:
                x, y = a.env.get(k), b.env.get(k)
                if x is not y and x is not None and y is not None:
                    cs = (x.args[0] if False else ((ga, x),)) + ((gb, y),)
                    a.env[k] = mk("pw", cs)
            f = {}
            for k, v in a.facts.items():
                w = b.facts.get(k)
                if w == v:
                    f[k] = v
                elif isinstance(v, tuple) and isinstance(w, tuple) and len(v) == 2:
                    lo = None if (v[0] is None or w[0] is None) else min(v[0], w[0])
                    hi = None if (v[1] is None or w[1] is None) else max(v[1], w[1])
                    if not (lo is None and hi is None):
                        f[k] = (lo, hi)
            a.facts = f
            a.guard = gm
        return acc

    def merge(self, states, live):
        if len(states) <= 1:
            return states
        groups = {}
        for s in states:
            groups.setdefault(self.nkey(s, live), []).append(s)
        out = []
        for g in groups.values():
            out.extend(self.mergelist(g, live))
        if len(out) > self.maxstates:
            raise Blowup("%d states at a join in %s" % (len(out), self.stack[-1][0].dbg))
        return out

    # ------------------------------------------------------------- regions / loops
    def edge(self, f, b, s, st):
        """move st along b -> s: evaluate phis, drop dead values"""
        vals = {}
        for i in f.blocks[s]:
            if i["op"] != "phi":
                break
            for pb, o in i["inc"]:
                if pb == b:
                    vals[i["id"]] = self.val(st, o, f)
        env = {}
        lv = f.livein[s]
        for k, v in st.env.items():
            if not isinstance(k, int) or k in lv:
                env[k] = v
        env.update(vals)
        st.env = env
        return st

    def livekeys(self, f, b):
        ks = sorted(f.livein[b])
        for i in f.blocks[b]:
            if i["op"] != "phi":
                break
            ks.append(i["id"])
        return tuple(ks)

    def region(self, f, body, header, pending, ctx, rets):
        """process blocks of `body` (header excluded as loop); returns (back, exits)"""
        back, exits = [], []

        def push(frm, tgt, st):
            if tgt == header:
                back.append(st)
            elif tgt not in body:
                exits.append((frm, tgt, st))
            else:
                pending.setdefault(tgt, []).append(st)
        for b in f.rpo:
            if b not in body:
                continue
            sts = pending.pop(b, None)
            if not sts:
                continue
            sts = self.merge(sts, self.livekeys(f, b))
            if b in f.loops and b != header:
                for s in sts:
                    for frm, tgt, o in self.loop(f, b, s, ctx, rets):
                        push(frm, tgt, o)
                continue
            for s in sts:
                for tgt, o in self.block(f, b, s, ctx, rets):
                    push(b, tgt, self.edge(f, b, tgt, o))
        return back, exits

    def unrollable(self, f):
        return True

    def unrolled(self, f, h, entry, ctx, rets, limit=None):
        cur, out = [entry], []
        limit = limit or self.unroll
        for k in range(limit + 1):
            c2 = mk("it", ctx, h, k)
            nxt = []
            for s in self.merge(cur, self.livekeys(f, h)):
                pend = {}
                for tgt, o in self.block(f, h, s, c2, rets):
                    o = self.edge(f, h, tgt, o)
                    if tgt == h:
                        nxt.append(o)
                    elif tgt not in f.loops[h]:
                        out.append((h, tgt, o))
                    else:
                        pend.setdefault(tgt, []).append(o)
                bk, ex = self.region(f, f.loops[h], h, pend, c2, rets)
                nxt += bk
                out += ex
            cur = nxt
            if not cur:
                return out
        raise Blowup("a loop of %s goes on after %d iterations" % (f.dbg, limit))

    SHORT = 16

    def short(self, f, h, entry):
        """a counter of the loop runs from a constant to a constant, in few steps"""
        if f._short is None:
            f._short = {}
        got = f._short
        if h not in got:
            ph = {}
            for i in f.blocks[h]:
                if i["op"] != "phi":
                    break
                if i["ty"] != "ptr":
                    ph[i["id"]] = i
            body, nx = f.loops[h], {}
            for b in body:
                for i in f.blocks[b]:
                    if i["op"] == "add" and len(i["ops"]) == 2 and i["ops"][0][0] == "v" and \
                            i["ops"][0][1] in ph and i["ops"][1][0] == "c":
                        nx[i["id"]] = i["ops"][0][1]
            got[h] = []
            for b in body:
                t = f.blocks[b][-1]
                if t["op"] != "br" or len(t["ops"]) != 3 or all(s in body for s in f.succ[b]):
                    continue
                c = next((i for i in f.blocks[b] if t["ops"][0][0] == "v" and
                          i["id"] == t["ops"][0][1] and i["op"] == "icmp"), None)
                if c is None:
                    continue
                x, y = c["ops"][:2]
                if x[0] == "c":
                    x, y = y, x
                if x[0] == "v" and y[0] == "c" and (x[1] in ph or x[1] in nx):
                    got[h].append((nx.get(x[1], x[1]), int(y[1])))
        for p, k in got[h]:
            v = entry.env.get(p, UNDEF)
            v = None if v is UNDEF else cval(v)
            if v is not None and abs(v - k) <= self.SHORT:
                return True
        return False

    def loop(self, f, h, entry, ctx, rets):
        if self.unroll and self.unrollable(f):
            return self.unrolled(f, h, entry, ctx, rets)
        if not self.numeric and not self.unroll and self.short(f, h, entry):
            r2 = []
            try:
                out = self.unrolled(f, h, entry.copy(), ctx, r2, self.SHORT + 1)
                rets += r2
                return out
            except Blowup:
                pass
        L = mk("L", ctx, f.key, h)
        t = mk("t", L)
        phis = []
        for i in f.blocks[h]:
            if i["op"] != "phi":
                break
            phis.append(i)
        modes = {i["id"]: "inv" for i in phis}
        vary = {}            # obj -> set of (off,size,kind) or "ALL"
        pbase = {}           # loop-carried pointer (phi or cell) -> the object it stays in
        resunk = set()
        monjoin = {}
        body = f.loops[h]
        nret0 = len(rets)
        self.stamp.append(0)
        self.kids.append([])
        self.emit("loopbegin", entry, None, L=L)
        for it in range(24):
            self.emit("looppass", entry, None, L=L)
            self.stampn += 1
            self.stamp[-1] = self.stampn
            self.kids[-1] = []
            mark = self.mark
            hs = entry.copy()
            hs.guard = TRUE_G
            for i in phis:
                pid = i["id"]
                m = modes[pid]
                init = entry.env.get(pid, UNDEF)
                if m == "inv":
                    continue
                if m == "sym":
                    k = "f" if i["ty"] in ("double", "float") else (
                        "p" if i["ty"] == "ptr" else "i")
                    s = mk("lphi", L, pid, k)
                    if k == "f" and not self.numeric:
                        s = FU
                    elif k == "p":
                        s = ptr(pbase[pid], P(mk("lphi", L, pid, "i"))) if pbase.get(pid) \
                            else ptr(mk("obj", "ext", s), ZERO)
                    hs.env[pid] = s
                else:
                    hs.env[pid] = self.addstep(init, pmul(P(t), ic(m[1])))
            for obj, v in vary.items():
                if v == "ALL":
                    hs.mem[obj] = mk("content", mk("hdr", L, obj), ())
                else:
                    for (o, sz, kd) in sorted(v):
                        if kd == "f" and not self.numeric:
                            x = FU
                        else:
                            x = mk("lmem", L, obj, o, sz, kd)
                            if kd == "p":
                                b = pbase.get((obj, o))
                                x = ptr(b, P(mk("lmem", L, obj, o, sz, "i"))) if b else \
                                    ptr(mk("obj", "ext", x), ZERO)
                        self.write(hs, obj, ic(o), sz, x)
            for o in resunk:
                if o in hs.res:
                    hs.res[o] = ("unk",) + hs.res[o][1:]
            for k, v in monjoin.items():
                hs.mon[k] = v
            hs.facts[mk("p", (((t,), 1),))] = (0, None)
            del rets[nret0:]
            head0 = hs.copy()
            pend = {}
            back, exits = [], []
            # the header block itself
            for tgt, o in self.block(f, h, hs, ctx, rets):
                if tgt in body:
                    self.notpast(f, h, entry, o, t, tgt)
                o = self.edge(f, h, tgt, o)
                if tgt == h:
                    back.append(o)
                elif tgt not in body:
                    exits.append((h, tgt, o))
                else:
                    pend.setdefault(tgt, []).append(o)
            bk, ex = self.region(f, body, h, pend, ctx, rets)
            back += bk
            exits += ex
            changed = False
            for i in phis:
                pid = i["id"]
                m = modes[pid]
                if m == "sym":
                    continue
                init = entry.env.get(pid, UNDEF)
                cur = head0.env.get(pid, UNDEF)
                for bs in back:
                    nv = bs.env.get(pid, UNDEF)
                    if m == "inv":
                        if nv is cur:
                            continue
                        st = self.stepof(cur, nv)
                        m = ("ind", st) if st else "sym"
                        changed = True
                        if m == "sym":
                            break
                    else:
                        st = self.stepof(cur, nv)
                        if modes[pid] == "inv":       # just switched, compare steps
                            if st != m[1]:
                                m = "sym"
                                changed = True
                                break
                        elif st != m[1]:
                            m = "sym"
                            changed = True
                            break
                modes[pid] = m
            for bs in back:
                for obj, c in bs.mem.items():
                    c0 = head0.mem.get(obj)
                    if c0 is c:
                        continue
                    if c0 is None:
                        if obj.args[0] in ("alloca", "byval", "heap") and \
                                obj not in entry.mem and self.in_loop_obj(obj, ctx):
                            continue
                        c0 = self.initial(obj)
                        if c0 is c:
                            continue
                    if vary.get(obj) == "ALL":
                        continue
                    d = self.celldiff(c0, c)
                    if d is None:
                        vary[obj] = "ALL"
                        changed = True
                    else:
                        have = vary.setdefault(obj, set())
                        new = d - have
                        if new:
                            have |= new
                            changed = True
                for o in set(bs.res) | set(head0.res):
                    a, b = head0.res.get(o), bs.res.get(o)
                    if a != b and o not in resunk:
                        if a is not None and b is not None and a[0] != "unk":
                            resunk.add(o)
                            changed = True
                        elif a is None:
                            self.notes.add("resource live across iterations: " + show(o))
                for k in set(bs.mon) | set(head0.mon):
                    a, b = head0.mon.get(k), bs.mon.get(k)
                    if a != b:
                        j = self.monjoin(k, a, b)
                        if j != a:
                            monjoin[k] = j
                            changed = True
            # pointers that stay inside one object
            for k in [i["id"] for i in phis if i["ty"] == "ptr"] + \
                    [(o_, c_[0]) for o_, v_ in vary.items() if v_ != "ALL"
                     for c_ in v_ if c_[2] == "p"]:
                if k in pbase and pbase[k] is None:
                    continue
                b = self.ptrbase([entry] + back, k)
                if b is not pbase.get(k, 0):
                    if k in pbase or not b:
                        pbase[k] = None
                    else:
                        pbase[k] = b
                    if isinstance(k, tuple) or modes[k] == "sym":
                        changed = True
            if not changed:
                break
        else:
            self.stamp.pop()
            self.kids.pop()
            raise Blowup("loop does not stabilise in %s" % f.dbg)
        self.emit("loopend", entry, None, L=L)
        self.stamp.pop()
        kids = self.kids.pop()
        rec = LoopRec()
        rec.kids, rec.vary, rec.pbase = kids, vary, pbase
        if self.openloops and self.mark == mark and not self.summarised(L, vary, back):
            self.mark += 1
        rec.keep = self.openloops and self.mark != mark
        if rec.keep:
            self.kids[-1].append(rec)
        return self.finish_loop(rec, f, h, L, t, entry, head0, back, exits, modes, vary, phis,
                                ctx)

    def notpast(self, f, h, entry, o, t, tgt):
        """a loop that goes on while i != n, one step at a time, never gets past n"""
        term = f.blocks[h][-1]
        if term["op"] != "br" or len(term["ops"]) != 3 or \
                term["ops"][1][1] == term["ops"][2][1]:
            return
        c = self.val(o, term["ops"][0], f)
        v = tgt == term["ops"][2][1]
        while c.op == "not":
            c, v = c.args[0], not v
        if c.op != "cmp" or (c.args[0], v) not in (("ne", True), ("eq", False)):
            return
        n = self.trip(entry, c, v, t)
        if n is not None and t not in free(n) and self.ge0(entry, n):
            self.addiv(o, psub(n, P(t)), 1, None)

    def summarised(self, L, vary, back):
        """does every array written in the loop have a closed form?"""
        bv = mk("bv", L)
        tr = {mk("t", L): P(bv)}
        for obj, v in vary.items():
            if v != "ALL":
                continue
            for bs in back:
                c = bs.mem.get(obj)
                if c is None or c.args[0] is not mk("hdr", L, obj) or \
                        not all(self.mapwrite(subst(x, tr), bv, L) for x in c.args[1]):
                    return False
        return True

    def ptrbase(self, sts, k):
        """the object phi k / cell k points into in all states, or None"""
        b = None
        for s in sts:
            v = s.env.get(k, UNDEF) if not isinstance(k, tuple) else \
                self.read(s, k[0], ic(k[1]), 8, "p")
            if v.op != "ptr" or b is not None and v.args[0] is not b:
                return None
            b = v.args[0]
        return b

    def monjoin(self, k, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if isinstance(a, frozenset) and isinstance(b, frozenset):
            return a | b
        return "T"

    def in_loop_obj(self, obj, ctx):
        return True

    def addstep(self, init, d):
        if init.op == "ptr":
            return ptradd(init, d)
        return padd(init, d)

    def stepof(self, a, b):
        if a.op == "ptr" and b.op == "ptr" and a.args[0] is b.args[0]:
            return cval(psub(b.args[1], a.args[1]))
        if self._isptr(a) or self._isptr(b) or a is UNDEF or b is UNDEF or a is FU or b is FU:
            return None
        if self.isfloat(a) or self.isfloat(b):
            return None
        return cval(psub(b, a))

    def celldiff(self, c0, c1):
        """cells that differ between two contents if both only use constant cells on top of
        the same base, else None (whole object)"""
        b0, l0 = c0.args
        b1, l1 = c1.args
        if b0 is not b1:
            return None
        n = 0
        while n < len(l0) and n < len(l1) and l0[n] is l1[n]:
            n += 1
        r0, r1 = l0[n:], l1[n:]
        if len(r0) > 1 or len(r1) > 1:
            return None
        if any(x.op != "cells" for x in r0 + r1):
            return None
        d0 = {(o, s): v for o, s, v in (r0[0].args[0] if r0 else ())}
        d1 = {(o, s): v for o, s, v in (r1[0].args[0] if r1 else ())}
        out = set()
        for k in set(d0) | set(d1):
            if d0.get(k) is not d1.get(k):
                v = d1.get(k) or d0.get(k)
                kd = "p" if self._isptr(v) else ("f" if (v is FU or self.isfloat(v)) else "i")
                if v.op in ("rd", "init", "lphi", "lmem"):
                    kd = v.args[-1]
                out.add((k[0], k[1], kd))
        # overlapping different-size cells: give up
        ks = sorted((o, s) for o, s, _ in out)
        for (o, s), (o2, s2) in zip(ks, ks[1:]):
            if o2 < o + s:
                return None
        return out

    def trip(self, st, c, v, t):
        """number of iterations for which the loop test (c == v keeps looping) holds"""
        if c.op == "not":
            return self.trip(st, c.args[0], not v, t)
        if c.op != "cmp":
            return None
        pred, a, b = c.args
        if a.op == "ptr" and b.op == "ptr" and a.args[0] is b.args[0]:
            a, b = a.args[1], b.args[1]
        if self._isptr(a) or self._isptr(b):
            return None
        pred = self.PRED.get(pred, pred)
        if not v:
            pred = {"slt": "sge", "sle": "sgt", "sgt": "sle", "sge": "slt", "eq": "ne",
                    "ne": "eq"}.get(pred)
        r = plin(psub(a, b), t)
        if r is None:
            return None
        A, B = r
        k = cval(B)
        if not k or any(x in free(A) for x in (t,)):
            return None
        # keep looping while A + k t  pred  0
        if pred == "ne":
            if k == 1:
                return pscale(A, -1)
            if k == -1:
                return A
            q = pdivc(A, -k)
            return q
        if pred in ("sgt", "sge"):
            A, k = pscale(A, -1), -k
            pred = "slt" if pred == "sgt" else "sle"
        if pred not in ("slt", "sle") or k <= 0:
            return None
        N = pscale(A, -1)               # k t < N  /  k t <= N
        if pred == "sle":
            N = padd(N, ONE)
        if k == 1:
            n = N
        else:
            q = pdivc(padd(N, ic(0)), k)
            if q is None:
                n = mk("ucnt", N, k)     # ceil(N/k), nonneg
                return P(n)
            n = q
        if self.ge0(st, n):
            return n
        return P(max0(n))

    def finish_loop(self, rec, f, h, L, t, entry, head, back, exits, modes, vary, phis, ctx):
        rec.L, rec.f, rec.h, rec.ctx, rec.entry, rec.head = L, f, h, ctx, entry, head
        rec.back, rec.modes, rec.t, rec.phis = back, modes, t, phis
        rec.caller = [g.dbg for g, _ in self.stack]
        bv = mk("bv", L)
        tr = {t: P(bv)}
        # header test
        term = f.blocks[h][-1]
        count = None
        hexit = None
        if term["op"] == "br" and len(term["ops"]) == 3:
            fb, tb = term["ops"][1][1], term["ops"][2][1]
            body = f.loops[h]
            if (fb in body) != (tb in body):
                tmp = None
                for frm, tgt, s in exits:
                    if frm == h and tgt == (fb if tb in body else tb):
                        hexit = tgt
                # the condition value: look it up in a body state or recompute
                cst = head.copy()
                for i in f.blocks[h][:-1]:
                    if i["op"] == "phi":
                        continue
                    if i["op"] in ("call", "store"):
                        cst = None
                        break
                    r = self.step(f, i, cst, ctx)
                    if len(r) != 1:
                        cst = None
                        break
                    cst = r[0]
                if cst is not None:
                    c = self.val(cst, term["ops"][0], f)
                    count = self.trip(entry, c, tb in body, t)
        rec.count = count
        if rec.keep:
            rec.raw = [(frm, tgt, s.copy()) for frm, tgt, s in exits]
            for _, _, s in exits:
                s.guard = g_mul(entry.guard, s.guard)
            rec.exits = exits
            rec.facts0 = {}
            self.loops[L] = self.recs[L, entry.guard] = rec
            return exits
        # loop layers for arrays written in the loop
        if not back and count is None and all(frm == h for frm, _, _ in exits):
            count = rec.count = ZERO
        layers = {}
        alld = {}
        for obj, v in vary.items():
            if v != "ALL":
                continue
            hdr = mk("hdr", L, obj)
            cases, ok = [], True
            for bs in back:
                c = bs.mem.get(obj)
                if c is None or c.args[0] is not hdr:
                    ok = False
                    break
                lay = tuple(subst(x, tr) for x in c.args[1])
                if not lay:
                    continue
                for x in lay:
                    if not self.mapwrite(x, bv, L):
                        ok = False
                g = frozenset(frozenset((subst(cc, tr), vv) for cc, vv in conj)
                              for conj in bs.guard) if self.numeric else TRUE_G
                cases.append((g, lay))
            if ok and not self.numeric and len(cases) < len(back):
                ok = False
            layers[obj] = tuple(cases) if ok else None
            d = (entry.mem.get(obj) or self.initial(obj), layers[obj], bv)
            stamp = tuple(self.stamp)
            if self.loopdefs.get(hdr, d) != d and self.defstamp.get(hdr) == stamp:
                self.clash.add(hdr)
            elif self.defstamp.get(hdr) != stamp:
                self.clash.discard(hdr)
            self.defstamp[hdr] = stamp
            self.loopdefs[hdr] = d
            alld[hdr] = d
        # folds for scalar loop-carried values
        fdefs = []
        for i in phis:
            if modes[i["id"]] == "sym" and i["ty"] == "ptr" and rec.pbase.get(i["id"]):
                cs = tuple((frozenset(frozenset((subst(cc, tr), vv) for cc, vv in conj)
                                      for conj in bs.guard) if self.numeric else TRUE_G,
                            subst(bs.env[i["id"]].args[1], tr)) for bs in back)
                fdefs.append((mk("lphi", L, i["id"], "i"), entry.env[i["id"]].args[1], cs))
            if modes[i["id"]] == "sym" and i["ty"] != "ptr":
                k = "f" if i["ty"] in ("double", "float") else "i"
                if k == "f" and not self.numeric:
                    continue
                s = mk("lphi", L, i["id"], k)
                cs = tuple((frozenset(frozenset((subst(cc, tr), vv) for cc, vv in conj)
                                      for conj in bs.guard) if self.numeric else TRUE_G,
                            subst(bs.env.get(i["id"], UNDEF), tr)) for bs in back)
                fdefs.append((s, entry.env.get(i["id"], UNDEF), cs))
        if self.numeric:
            for obj, v in vary.items():
                if v == "ALL":
                    continue
                for (o, sz, kd) in sorted(v):
                    if kd == "p":
                        if rec.pbase.get((obj, o)):
                            cs = tuple((frozenset(frozenset((subst(cc, tr), vv)
                                                            for cc, vv in conj)
                                                  for conj in bs.guard),
                                        subst(self.read(bs, obj, ic(o), sz, kd).args[1], tr))
                                       for bs in back)
                            fdefs.append((mk("lmem", L, obj, o, sz, "i"),
                                          self.read(entry, obj, ic(o), sz, kd).args[1], cs))
                        continue
                    cs = tuple((frozenset(frozenset((subst(cc, tr), vv) for cc, vv in conj)
                                          for conj in bs.guard),
                                subst(self.read(bs, obj, ic(o), sz, kd), tr)) for bs in back)
                    fdefs.append((mk("lmem", L, obj, o, sz, kd),
                                  self.read(entry, obj, ic(o), sz, kd), cs))
        fdefs = tuple(fdefs)
        if alld:
            for hd, d in alld.items():
                self.regdefs((d[1], hd), alld)
            if fdefs:
                self.regdefs(fdefs, alld)
        # forall facts
        fall = None
        for bs in back:
            cur = {}
            for k, v in bs.facts.items():
                if head.facts.get(k) == v:
                    continue
                if t in free(k):
                    cur[k] = v
            if fall is None:
                fall = cur
            else:
                n = {}
                for k, v in fall.items():
                    w = cur.get(k)
                    if w == v:
                        n[k] = v
                    elif isinstance(v, tuple) and isinstance(w, tuple) and len(v) == 2:
                        lo = None if (v[0] is None or w[0] is None) else min(v[0], w[0])
                        hi = None if (v[1] is None or w[1] is None) else max(v[1], w[1])
                        if lo is not None or hi is not None:
                            n[k] = (lo, hi)
                fall = n
        fall = fall or {}
        out = []
        single = all(frm == h for frm, _, _ in exits)
        rec.raw = [(frm, tgt, s.copy()) for frm, tgt, s in exits]
        X = None
        if self.numeric and not (single and count is not None and len(exits) <= 1):
            X = mk("xd", bv, tuple(frozenset(frozenset((subst(cc, tr), vv) for cc, vv in conj)
                                             for conj in s.guard) for _, _, s in exits), fdefs)
            if alld:
                self.regdefs(X, alld)
        for n, (frm, tgt, s) in enumerate(exits):
            isH = frm == h and tgt == hexit and count is not None
            cnt = count if isH else (P(t) if X is None else P(mk("xt", X)))
            mp = {}
            if isH or X is not None:
                mp[t] = cnt
                if self.numeric:
                    for j, (sy, _, _) in enumerate(fdefs):
                        mp[sy] = mk("fold", L, bv, cnt, j, fdefs)
            for obj, cases in layers.items():
                c = s.mem.get(obj)
                if c is None or c.args[0].op != "hdr" or c.args[0].args[0] is not L:
                    continue
                ec = entry.mem.get(obj) or self.initial(obj)
                if cases is None:
                    nb = mk("content", mk("lout", L, obj, n), ())
                elif not cases:
                    nb = ec
                else:
                    nb = mk("content", ec.args[0], ec.args[1] +
                            (mk("loop", bv, cnt, cases, c.args[0]),))
                s.mem[obj] = mk("content", nb.args[0], nb.args[1] + c.args[1])
            if mp:
                self.subst_state(s, mp)
            if isH:
                for k, v in fall.items():
                    key = mk("forall", bv, count, subst(k, tr))
                    s.facts[key] = v
            s.guard = entry.guard
            if X is not None:
                s.guard = g_and(s.guard, (mk("brk", X, n), True))
            out.append((frm, tgt, s))
        rec.exits = out
        rec.facts0 = fall
        self.loops[L] = self.recs[L, entry.guard] = rec
        return out

    def regdefs(self, k, d):
        o = self.layerdefs.get(k)
        if o is not None and o != d:
            d = {h: (x if o.get(h) == x else None) for h, x in d.items()}
        self.layerdefs[k] = d

    def mapwrite(self, x, bv, L):
        if x.op == "w":
            if bv not in free(x.args[0]):
                return False
        elif x.op == "loop":
            inner = [l for _, ls in x.args[2] for l in ls]
            if not all(self.mapwrite(l, bv, L) for l in inner):
                return False
        else:
            return False
        for s in free(x):
            if s.op in ("lphi", "lmem") and s.args[0] is L:
                return False
            if s.op == "hdr" and s.args[0] is L:
                continue
        return True

    def subst_state(self, s, mp):
        memo = {}
        for k, v in s.env.items():
            s.env[k] = subst(v, mp, memo)
        for o, c in s.mem.items():
            s.mem[o] = subst(c, mp, memo)
        nf = {}
        keys = set(mp)
        for k, v in s.facts.items():
            if not (keys & free(k)):
                nf[k] = v
        old = s.facts
        s.facts = nf
        for k, v in old.items():
            if keys & free(k) and k.op == "p" and isinstance(v, tuple):
                self.addiv(s, subst(k, mp, memo), v[0], v[1])

    # ------------------------------------------------------------- blocks
    def block(self, f, b, st, ctx, rets):
        """list of (successor, state)"""
        insts = f.blocks[b]
        cur = [st]
        for i in insts[:-1]:
            if i["op"] == "phi":
                continue
            nxt = []
            for s in cur:
                nxt.extend(self.step(f, i, s, ctx))
            cur = nxt
            if not cur:
                return []
        i = insts[-1]
        out = []
        op = i["op"]
        for s in cur:
            self.ninst += 1
            if op == "ret":
                r = self.val(s, i["ops"][0], f) if i.get("ops") else None
                rets.append((r if r is not None else UNDEF, s))
            elif op == "br":
                if len(i["ops"]) == 1:
                    out.append((i["ops"][0][1], s))
                else:
                    c = self.val(s, i["ops"][0], f)
                    fb, tb = i["ops"][1][1], i["ops"][2][1]
                    self.emit("branch", s, i, cond=c)
                    v = self.evalc(s, c)
                    if v is True:
                        out.append((tb, s))
                    elif v is False:
                        out.append((fb, s))
                    else:
                        s2 = s.copy()
                        if self.assume(s, c, True):
                            out.append((tb, s))
                        if self.assume(s2, c, False):
                            out.append((fb, s2))
            elif op == "switch":
                x = self.val(s, i["ops"][0], f)
                rest = s
                dead = False
                for cv, tgt in i["cases"]:
                    s2 = rest.copy()
                    if self.assume(s2, mk("cmp", "eq", x, ic(cv)), True):
                        out.append((tgt, s2))
                    if not self.assume(rest, mk("cmp", "eq", x, ic(cv)), False):
                        dead = True
                        break
                if not dead:
                    out.append((i["default"], rest))
            elif op == "unreachable":
                pass
            else:
                self.notes.add("terminator " + op)
        return out

    # ------------------------------------------------------------- instructions
    def step(self, f, i, st, ctx):
        self.ninst += 1
        if self.ninst > self.maxinst:
            raise Blowup("instruction budget")
        op = i["op"]
        m = getattr(self, "i_" + op, None)
        if m is None:
            self.notes.add("opcode %s in %s" % (op, f.dbg))
            if i.get("ty") != "void":
                st.env[i["id"]] = mk("sym", "op", ctx, f.key, i["id"])
            return [st]
        return m(f, i, st, ctx)

    def a(self, f, i, st, n):
        return self.val(st, i["ops"][n], f)

    def kind(self, ty):
        return "p" if ty == "ptr" else ("f" if ty in ("double", "float") else "i")

    def i_alloca(self, f, i, st, ctx):
        o = mk("obj", "alloca", ctx, f.dbg + "." + str(f.varname.get(("v", i["id"]), i["id"])),
               i["id"])
        st.mem[o] = mk("content", mk("undefc", o), ())
        st.env[i["id"]] = ptr(o, ZERO)
        self.asize[o] = i.get("size", -1)
        self.aalign[o] = i.get("align", 1)
        return [st]

    def i_gep(self, f, i, st, ctx):
        b = self.val(st, i["base"], f)
        off = ic(i["off"])
        for x, sc, w in i["idx"]:
            v = self.val(st, x, f)
            if v is UNDEF or v is FU:
                off = padd(off, mk("sym", "undefidx", f.key, i["id"]))
            else:
                off = padd(off, pscale(P(v), sc))
        if cval(off) == 0 and b.op != "ptr":
            st.env[i["id"]] = b
        elif b.op in ("ptr", "null"):
            st.env[i["id"]] = ptradd(b, off)
        else:
            st.env[i["id"]] = ptr(mk("obj", "sym", b), off)
        return [st]

    def deref(self, f, i, st, p, size, what, kind="i"):
        """object and offset of pointer p, with events"""
        if p.op != "ptr":
            self.emit("badptr", st, i, p=p, what=what)
            return None
        self.emit("access", st, i, obj=p.args[0], off=p.args[1], size=size, what=what,
                  ptr=p, kind=kind)
        return p.args

    def i_load(self, f, i, st, ctx):
        p = self.a(f, i, st, 0)
        r = self.deref(f, i, st, p, i["size"], "load", self.kind(i["ty"]))
        k = self.kind(i["ty"])
        if r is None:
            st.env[i["id"]] = mk("sym", "badload", ctx, f.key, i["id"])
            return [st]
        if i["ty"].startswith("<") or i["ty"].startswith("{"):
            v = mk("sym", "vload", ctx, f.key, i["id"])
        else:
            v = self.read(st, r[0], r[1], i["size"], k)
            if v.op == "zagg":
                v = self.zero(k)
            if k == "f" and v.op == "p" and cval(v) == 0:
                v = fc(0.0)
            if k == "p" and v.op == "p" and cval(v) == 0:
                v = NULL
            if k == "p" and v.op in ("pack", "part", "init", "rd"):
                v = ptr(mk("obj", "ext", v), ZERO)
        if v is UNDEF:
            self.emit("undefread", st, i, obj=r[0], off=r[1])
        st.env[i["id"]] = v
        return [st]

    def i_store(self, f, i, st, ctx):
        v = self.a(f, i, st, 0)
        p = self.a(f, i, st, 1)
        k = self.kind(i.get("vty", "i32"))
        r = self.deref(f, i, st, p, i["size"], "store", k)
        if r is None:
            return [st]
        self.emit("store", st, i, obj=r[0], off=r[1], val=v, size=i["size"])
        if k == "f" and not self.numeric and cval(r[1]) is None:
            return [st]
        if v.op == "zagg":
            self.addlayer(st, r[0], mk("fillz", r[1], ic(i["size"])))
            return [st]
        self.write(st, r[0], r[1], i["size"], v)
        return [st]

    def i_atomicrmw(self, f, i, st, ctx):
        """read-modify-write, marked as atomic for whoever listens"""
        p, v = self.a(f, i, st, 0), self.a(f, i, st, 1)
        k = self.kind(i.get("vty", "i32"))
        mon = st.mon
        st.mon = dict(mon, ompprot=mon.get("ompprot") or "atomic")
        r = self.deref(f, i, st, p, i["size"], "store", k)
        st.mon = mon
        if r is None:
            st.env[i["id"]] = mk("sym", "badload", ctx, f.key, i["id"])
            return [st]
        old = self.read(st, r[0], r[1], i["size"], k)
        fn = {"add": padd, "sub": psub, "xchg": lambda a, b: b}.get(i.get("rmw"))
        if k == "f":
            fn = {"fadd": lambda a, b: fop("fadd", a, b), "fsub": lambda a, b: fop("fsub", a, b),
                  "xchg": lambda a, b: b}.get(i.get("rmw"))
        if fn is None or old is UNDEF or v is UNDEF or old is FU or v is FU:
            new = mk("sym", "rmw", ctx, f.key, i["id"]) if k != "f" else FU
        else:
            new = fn(old, v)
        self.write(st, r[0], r[1], i["size"], new)
        st.env[i["id"]] = old
        return [st]

    def i_cmpxchg(self, f, i, st, ctx):
        raise Blowup("compare and exchange in %s" % f.dbg)

    def _bin(self, f, i, st, fn):
        a, b = self.a(f, i, st, 0), self.a(f, i, st, 1)
        if a is UNDEF or b is UNDEF:
            st.env[i["id"]] = UNDEF
        else:
            st.env[i["id"]] = fn(a, b)
        return [st]

    def i_add(self, f, i, st, ctx):
        return self._bin(f, i, st, padd)

    def i_sub(self, f, i, st, ctx):
        a, b = self.a(f, i, st, 0), self.a(f, i, st, 1)
        if a.op == "p2i" and b.op == "p2i":
            x, y = a.args[0], b.args[0]
            if x.op == "ptr" and y.op == "ptr" and x.args[0] is y.args[0]:
                st.env[i["id"]] = psub(x.args[1], y.args[1])
                return [st]
        return self._bin(f, i, st, psub)

    def i_mul(self, f, i, st, ctx):
        return self._bin(f, i, st, pmul)

    def i_shl(self, f, i, st, ctx):
        def sh(a, b):
            c = cval(b)
            if c is not None and c < 63:
                return pscale(P(a), 1 << c)
            return P(mk("iop", "shl", a, b))
        return self._bin(f, i, st, sh)

    def _iop(self, name):
        def g(a, b):
            x, y = cval(a), cval(b)
            if x is not None and y is not None:
                if name in ("sdiv", "udiv") and y:
                    q = abs(x) // abs(y)
                    return ic(q if (x < 0) == (y < 0) else -q)
                if name in ("srem", "urem") and y:
                    r = abs(x) % abs(y)
                    return ic(-r if x < 0 else r)
                if name == "and":
                    return ic(x & y)
                if name == "or":
                    return ic(x | y)
                if name == "xor":
                    return ic(x ^ y)
                if name in ("ashr", "lshr"):
                    return ic(x >> y)
            if name in ("sdiv", "udiv") and y == 1:
                return a
            if name in ("sdiv", "udiv") and y:
                q = pdivc(a, y)
                if q is not None:
                    return q
            if name == "or":
                if x == 0:
                    return b
                if y == 0:
                    return a
                if a is b:
                    return a
                if a.uid > b.uid:
                    a, b = b, a
            if name == "and" and (x == 0 or y == 0):
                return ZERO
            if name == "and" and x is not None and y is None:
                a, b = b, a
            return P(mk("iop", name, a, b))
        return g

    def i_sdiv(self, f, i, st, ctx):
        self.emit("div", st, i, num=self.a(f, i, st, 0), den=self.a(f, i, st, 1))
        return self._bin(f, i, st, self._iop("sdiv"))
    i_udiv = i_sdiv

    def i_srem(self, f, i, st, ctx):
        self.emit("div", st, i, num=self.a(f, i, st, 0), den=self.a(f, i, st, 1))
        return self._bin(f, i, st, self._iop("srem"))
    i_urem = i_srem

    def _logic(self, f, i, st, name):
        a, b = self.a(f, i, st, 0), self.a(f, i, st, 1)
        if i["ty"] == "i1":
            if name == "xor":
                if cval(b) is not None:
                    st.env[i["id"]] = self.neg(a) if cval(b) & 1 else a
                    return [st]
                if cval(a) is not None:
                    st.env[i["id"]] = self.neg(b) if cval(a) & 1 else b
                    return [st]
            else:
                for x, y in ((a, b), (b, a)):
                    v = self.evalc(st, x)
                    if v is not None:
                        if name == "and":
                            st.env[i["id"]] = y if v else ZERO
                        else:
                            st.env[i["id"]] = ONE if v else y
                        return [st]
                st.env[i["id"]] = mk("band" if name == "and" else "bor", a, b)
                return [st]
        return self._bin(f, i, st, self._iop(name))

    def neg(self, c):
        if c.op == "p" and cval(c) is not None:
            return ic(0 if cval(c) else 1)
        return c.args[0] if c.op == "not" else mk("not", c)

    def i_and(self, f, i, st, ctx):
        return self._logic(f, i, st, "and")

    def i_or(self, f, i, st, ctx):
        return self._logic(f, i, st, "or")

    def i_xor(self, f, i, st, ctx):
        return self._logic(f, i, st, "xor")

    def i_ashr(self, f, i, st, ctx):
        return self._bin(f, i, st, self._iop("ashr"))
    i_lshr = i_ashr

    def _cast(self, f, i, st, ctx):
        v = self.a(f, i, st, 0)
        sty = i.get("sty", "")
        if sty == "i1":
            c = cval(v) if v.op == "p" else None
            if c is not None:
                v = ic(c & 1) if i["op"] == "zext" else ic(-(c & 1))
            elif i["op"] == "zext":
                if v.op == "p":
                    x = patom(v)
                    v = v if (x is not None and x.op == "b2i") else P(mk("b2i", v))
                else:
                    v = P(mk("b2i", v)) if v is not UNDEF else v
        elif i["ty"] == "i1":          # trunc to bool
            x = patom(v)
            if x is not None and x.op == "b2i":
                v = x.args[0]
            elif cval(v) is not None:
                v = ic(cval(v) & 1)
            else:
                v = mk("cmp", "ne", v, ZERO)
        elif v.op == "pack" and i["ty"] == "i32":
            v = v.args[0]
        st.env[i["id"]] = v
        return [st]
    i_zext = i_sext = i_trunc = _cast

    def i_bitcast(self, f, i, st, ctx):
        st.env[i["id"]] = self.a(f, i, st, 0)
        return [st]
    i_freeze = i_addrspacecast = i_bitcast

    def i_ptrtoint(self, f, i, st, ctx):
        v = self.a(f, i, st, 0)
        st.env[i["id"]] = mk("p2i", v)
        return [st]

    def i_inttoptr(self, f, i, st, ctx):
        v = self.a(f, i, st, 0)
        st.env[i["id"]] = v.args[0] if v.op == "p2i" else (
            NULL if cval(v) == 0 else ptr(mk("obj", "ext", v), ZERO))
        return [st]

    def i_sitofp(self, f, i, st, ctx):
        v = self.a(f, i, st, 0)
        c = cval(v) if v.op == "p" else None
        st.env[i["id"]] = fc(float(c)) if c is not None else (
            UNDEF if v is UNDEF else mk("i2f", v))
        return [st]
    i_uitofp = i_sitofp

    def i_fptosi(self, f, i, st, ctx):
        v = self.a(f, i, st, 0)
        if v.op == "i2f":
            r = v.args[0]
        elif v.op == "fc" and v.args[0] == v.args[0] and abs(v.args[0]) < 1e18:
            r = ic(int(v.args[0]))
        elif v is FU:
            r = P(mk("sym", "f2i", ctx, f.key, i["id"]))
        else:
            r = P(mk("f2i", v))
        st.env[i["id"]] = r
        return [st]
    i_fptoui = i_fptosi

    def i_fpext(self, f, i, st, ctx):
        st.env[i["id"]] = self.a(f, i, st, 0)
        return [st]
    i_fptrunc = i_fpext

    def _fl(self, f, i, st, op):
        a = [self.val(st, o, f) for o in i["ops"]]
        if not self.numeric:
            a = [FU if x.op == "i2f" else x for x in a]
            if i["ty"].startswith("<"):
                st.env[i["id"]] = FU
                return [st]
        st.env[i["id"]] = fop(op, *a)
        return [st]

    def i_fadd(self, f, i, st, ctx):
        return self._fl(f, i, st, "fadd")

    def i_fsub(self, f, i, st, ctx):
        return self._fl(f, i, st, "fsub")

    def i_fmul(self, f, i, st, ctx):
        return self._fl(f, i, st, "fmul")

    def i_fdiv(self, f, i, st, ctx):
        return self._fl(f, i, st, "fdiv")

    def i_fneg(self, f, i, st, ctx):
        return self._fl(f, i, st, "fneg")

    def i_icmp(self, f, i, st, ctx):
        a, b = self.a(f, i, st, 0), self.a(f, i, st, 1)
        if i.get("oty") == "ptr":
            if a.op == "p" and cval(a) == 0:
                a = NULL
            if b.op == "p" and cval(b) == 0:
                b = NULL
        if a is UNDEF or b is UNDEF:
            self.emit("undefuse", st, i)
            st.env[i["id"]] = mk("sym", "undefcmp", ctx, f.key, i["id"])
            return [st]
        if a is FU or b is FU:
            st.env[i["id"]] = mk("sym", "cmpfu", ctx, f.key, i["id"])
            return [st]
        # !!x : compare of a zext'ed bool against 0
        x = patom(a) if not self._isptr(a) else None
        if x is not None and x.op == "b2i" and cval(b) == 0 and i["pred"] in ("eq", "ne"):
            c = x.args[0]
            st.env[i["id"]] = c if i["pred"] == "ne" else self.neg(c)
            return [st]
        if i["pred"] in self.PRED and not self._isptr(a) and not self._isptr(b):
            return self._ucmp(i, st, a, b)
        c = mk("cmp", i["pred"], a, b)
        v = self.evalc(st, c)
        st.env[i["id"]] = c if v is None else ic(1 if v else 0)
        return [st]

    def _ucmp(self, i, st, a, b):
        """unsigned comparison: a negative operand is larger than any other.  Sizes of unknown
        sign on both sides count as non-negative"""
        pred = i["pred"]
        neg = [hi is not None and hi < 0 for lo, hi in (self.interval(st, x) for x in (a, b))]
        pos = [lo is not None and lo >= 0 for lo, hi in (self.interval(st, x) for x in (a, b))]
        out = []

        def put(s, x, y):
            """x, y: is the operand negative"""
            if x != y:
                s.env[i["id"]] = ic(1 if x == (pred in ("ugt", "uge")) else 0)
            else:
                c = mk("cmp", self.PRED[pred], a, b)
                v = self.evalc(s, c)
                s.env[i["id"]] = c if v is None else ic(1 if v else 0)
            out.append(s)
        known = [n or q for n, q in zip(neg, pos)]
        if all(known) or not any(known):
            put(st, neg[0], neg[1])
            return out
        k = 0 if known[1] else 1
        x = (a, b)[k]
        s2 = st.copy()
        for s, isneg in ((st, False), (s2, True)):
            if self.assume(s, mk("cmp", "slt", x, ZERO), isneg):
                put(s, *((isneg, neg[1]) if k == 0 else (neg[0], isneg)))
        return out

    def i_fcmp(self, f, i, st, ctx):
        a, b = self.a(f, i, st, 0), self.a(f, i, st, 1)
        if a is UNDEF or b is UNDEF:
            self.emit("undefuse", st, i)
        if not self.numeric:
            if a.op in ("i2f", "fc") and b.op in ("i2f", "fc"):
                pass
            elif (a is FU or b is FU or True):
                if not (a.op in ("init", "arg") or b.op in ("init", "arg")):
                    st.env[i["id"]] = mk("sym", "fcmp", ctx, f.key, i["id"])
                    return [st]
        c = mk("fcmp", i["pred"], a, b)
        v = self.evalc(st, c)
        st.env[i["id"]] = c if v is None else ic(1 if v else 0)
        return [st]

    def i_select(self, f, i, st, ctx):
        c = self.a(f, i, st, 0)
        a, b = self.a(f, i, st, 1), self.a(f, i, st, 2)
        v = self.evalc(st, c)
        if v is not None or a is b:
            st.env[i["id"]] = b if v is False else a
            return [st]
        s2 = st.copy()
        out = []
        if self.assume(st, c, True):
            st.env[i["id"]] = a
            out.append(st)
        if self.assume(s2, c, False):
            s2.env[i["id"]] = b
            out.append(s2)
        return out

    def i_extractvalue(self, f, i, st, ctx):
        v = self.a(f, i, st, 0)
        idx = tuple(i.get("index", ()))
        if v.op == "agg":
            for k, x in v.args[0]:
                if k == idx:
                    st.env[i["id"]] = x
                    return [st]
        st.env[i["id"]] = mk("extract", v, idx) if v is not UNDEF else UNDEF
        return [st]

    def i_insertvalue(self, f, i, st, ctx):
        v = self.a(f, i, st, 0)
        x = self.a(f, i, st, 1)
        idx = tuple(i.get("index", ()))
        d = dict(v.args[0]) if v.op == "agg" else {}
        d[idx] = x
        st.env[i["id"]] = mk("agg", tuple(sorted(d.items())))
        return [st]

    # ------------------------------------------------------------- calls
    def i_call(self, f, i, st, ctx):
        callee = self.val(st, i["callee"], f)
        args = [self.val(st, o, f) for o in i["ops"]]
        cctx = mk("ctx", ctx, f.key, i["id"])
        return self.docall(f, i, st, ctx, cctx, callee, args)

    def docall(self, f, i, st, ctx, cctx, callee, args):
        env = st.env
        name = None
        fn = None
        if callee.op == "fptr":
            key = callee.args[0]
            name = key.split("::")[-1]
            fn = self.prog.byname.get(key) or self._bykey(key)
        elif callee.op == "ptr" and callee.args[0].args[0] == "glob":
            name = callee.args[0].args[1]
        if name is None:
            self.emit("icall", st, i, callee=callee, args=args)
            res = self.models["*indirect*"](self, st, i, callee, args, cctx, f)
        else:
            m = self.models.get(name)
            self.emit("call", st, i, name=name, args=args, fn=fn, ctx=cctx, f=f)
            if m is not None:
                res = m(self, st, i, args, cctx, f)
            elif fn is not None and not fn.decl and \
                    fn.mod.get("plain"):
                a2 = list(args)
                bv = i.get("byval") or []
                s = st.copy()
                for n, sz in bv:
                    if a2[n].op == "ptr":
                        o = mk("obj", "byval", cctx, n)
                        src = self.content(s, a2[n].args[0])
                        s.mem[o] = mk("content", mk("undefc", o),
                                      (mk("view", src, a2[n].args[1], 0, sz),))
                        if s.res.get(a2[n].args[0]):
                            pass
                        a2[n] = ptr(o, ZERO)
                res = self.call(fn, a2, s, cctx)
                self.emit("callret", st, i, name=name, args=args, results=res, ctx=cctx)
            else:
                m = self.models.get("*extern*")
                res = m(self, st, i, name, args, cctx, f)
        out = []
        for r, s in res:
            s.env = dict(env) if len(res) > 1 else env
            if i["ty"] != "void":
                s.env[i["id"]] = r if r is not None else UNDEF
            out.append(s)
        return out
    i_invoke = i_call

    def _bykey(self, key):
        c = getattr(self, "_keymap", None)
        if c is None:
            c = self._keymap = {f.key: f for f in self.prog.functions()}
            for f in self.prog.bymod.values():
                c.setdefault(f.key, f)
        return c.get(key)

    # ------------------------------------------------------------- roots
    def root(self, f, facts=(), args=None, st=None):
        f.prepare()
        s = st or State()
        av = []
        for n, a in enumerate(f.args):
            nm = a["name"] or "arg%d" % n
            if args and nm in args:
                av.append(args[nm])
            elif a["ty"] == "ptr":
                av.append(ptr(mk("obj", "ext", nm), ZERO))
            elif a["ty"] in ("double", "float"):
                av.append(mk("fsym", nm) if self.numeric else FU)
            else:
                av.append(P(mk("arg", nm)))
        for g in facts:
            if not self.assume(s, g, True):
                raise Blowup("contradictory precondition")
        s.guard = TRUE_G
        return self.call(f, av, s, mk("ctx", TOPCTX, f.key, 0)), av
