"""Memory bounds: every access, as an offset term in an object of known extent.

At each access of the last (stable) pass the interpreter knows offset, length and extent as
integer terms over the sizes and the iteration numbers of the enclosing loops, and the facts
of the path.  `prove` discharges  0 <= off  and  off + len <= extent  by eliminating variables
against their bounds.  What it cannot discharge is instantiated at small sizes (`refute`):
only an access reached by a consistent path there and out of bounds is a violation.
"""
import itertools
import math

import absint
from absint import TRUE_G
from numeval import Sample, Unknown, Uninit
from terms import *


# ------------------------------------------------------------------ proof
def instances(I, st, v):
    """facts about an array element that follow from a universally quantified fact"""
    if v.op != "init":
        return
    for k, iv in list(st.facts.items()):
        if k.op != "forall":
            continue
        bv, count, body = k.args
        if body.op != "p":
            continue
        for w in {w for m, _ in body.args[0] for w in m}:
            if w.op != "init" or w.args[0] is not v.args[0] or w.args[2:] != v.args[2:]:
                continue
            r = plin(P(w.args[1]), bv)
            if r is None or r[1] is None or cval(r[1]) in (None, 0):
                continue
            x = pdivc(psub(P(v.args[1]), r[0]), cval(r[1]))
            if x is None or bv in free(x):
                continue
            if prove(I, st, x, 2) and prove(I, st, psub(psub(P(count), x), ONE), 2):
                yield P(subst(body, {bv: x})), iv


def pdivc(p, c):
    p = P(p)
    if any(n % c for _, n in p.args[0]):
        return None
    out = ZERO
    for m, n in p.args[0]:
        t = ic(n // c)
        for w in m:
            t = pmul(t, P(w))
        out = padd(out, t)
    return out


def masks(I, st):
    """rounding down to a multiple: and(x, -c) = c * (x / c), as facts with the multiple"""
    out = {}
    for k in st.facts:
        if k.op == "p":
            for m, _ in k.args[0]:
                for w in m:
                    if w.op == "iop" and w.args[0] == "and" and w not in out:
                        for x, c in (w.args[1:], w.args[:0:-1]):
                            c = cval(P(c))
                            if c is not None and c < 0 and (-c & (-c - 1)) == 0:
                                out[w] = (-c, P(x), mk("floor", P(x), -c))
    return out


def extra(I, st):
    """facts sharpened by divisibility"""
    ms = masks(I, st)
    if not ms:
        return
    for c, x, q in ms.values():
        yield psub(pscale(P(q), c), x), (-(c - 1), 0)
    for k, iv in list(st.facts.items()):
        if k.op != "p" or not any(w in ms for m, _ in k.args[0] for w in m) or \
                not isinstance(iv, tuple) or len(iv) != 2:
            continue
        p = k
        for w, (c, x, q) in ms.items():
            r = plin(p, w)
            if r is None or r[1] is None:
                break
            p = padd(r[0], pmul(r[1], pscale(P(q), c)))
        g, c0 = 0, 0
        for m, n in p.args[0]:
            if m:
                g = math.gcd(g, n)
            else:
                c0 = n
        if g > 1:
            lo, hi = iv
            yield pdivc(psub(p, ic(c0)), g), (None if lo is None else -((c0 - lo) // g),
                                              None if hi is None else (hi - c0) // g)


def bounds_of(I, st, v, lower, B=None):
    """polynomials known to bound c*v from below / above, c > 0 dividing B: [(c, polynomial)]"""
    out = []
    for k, iv in itertools.chain(list(st.facts.items()), instances(I, st, v), extra(I, st)):
        if k.op != "p" or not isinstance(iv, tuple) or len(iv) != 2:
            continue
        r = plin(k, v)
        if r is None or r[1] is None:
            continue
        A, C = r
        c = cval(C)
        if not c or (abs(c) != 1 and (B is None or B % abs(c))):
            continue
        lo, hi = iv
        # lo <= A + c v <= hi
        if c > 0:
            w = lo if lower else hi
            if w is not None:
                out.append((c, psub(ic(w), A)))
        else:
            w = hi if lower else lo
            if w is not None:
                out.append((-c, psub(A, ic(w))))
    return out


def arms(v):
    """[(guard, integer value)] of a piecewise integer"""
    conv = lambda x: x
    if v.op == "f2i":
        v = v.args[0]

        def conv(x):
            return x.args[0] if x.op == "i2f" else None
    if v.op != "pw":
        return None
    out = [(g, conv(x)) for g, x in v.args[0]]
    return None if any(x is None for _, x in out) else out


def prove(I, st, p, depth=4, seen=None):
    p = P(p)
    g = 0
    for m, n in p.args[0]:
        if m:
            g = math.gcd(g, n)
    if g > 1:                       # g*q + c >= 0  <=>  q + floor(c/g) >= 0
        c = next((n for m, n in p.args[0] if not m), 0)
        p = padd(pdivc(psub(p, ic(c)), g), ic(c // g))
    if I.ge0(st, p):
        return True
    if depth == 0:
        return False
    seen = seen or set()
    if p in seen:
        return False
    seen = seen | {p}
    vs = []
    for m, c in p.args[0]:
        for v in m:
            if v not in vs:
                vs.append(v)
    vs.sort(key=lambda v: (v.op != "t", v.uid))
    for v in vs:
        r = plin(p, v)
        if r is None:
            continue
        A, B = r
        if prove(I, st, B, 1 if cval(B) is not None else 2, seen):
            lower = True
        elif prove(I, st, pscale(B, -1), 1 if cval(B) is not None else 2, seen):
            lower = False
        else:
            continue
        for c, q in bounds_of(I, st, v, lower, cval(B)):
            if v in free(q) or any(v in m for m, _ in q.args[0]):
                continue
            if prove(I, st, padd(A, pmul(B if c == 1 else ic(cval(B) // c), q)), depth - 1,
                     seen):
                return True
    v = next((v for v in vs if arms(v) is not None), None)
    if v is not None:
        r = plin(p, v)
        if r is not None:
            for g, x in arms(v):
                for conj in g:
                    s2 = st.copy()
                    if all(I.assume(s2, c, b, True) for c, b in conj) and \
                            not prove(I, s2, padd(r[0], pmul(r[1], P(x))), depth - 1, seen):
                        return False
            return True
    if p.args[0] and any(v.op == "max0" for m, _ in p.args[0] for v in m):
        v = next(v for m, _ in p.args[0] for v in m if v.op == "max0")
        r = plin(p, v)
        if r is not None:
            for x, lo, hi in ((ZERO, None, 0), (v.args[0], 0, None)):
                s2 = st.copy()
                if I.addiv(s2, P(v.args[0]), lo, hi) and \
                        not prove(I, s2, padd(r[0], pmul(r[1], P(x))), depth - 1, seen):
                    return False
            return True
    return False


def unroll(I, st, p, limit=8):
    """an integer term with the folds of short constant loops written out"""
    p = P(p)
    out = ZERO
    for m, c in p.args[0]:
        t = ic(c)
        for w in m:
            t = pmul(t, P(_unroll(I, st, w, limit)))
        out = padd(out, t)
    return out


def _unroll(I, st, w, limit):
    if w.op == "rd" and w.args[0].op == "content":
        c, off, size, kind = w.args[:4]
        off = unroll(I, st, off, limit)
        if cval(off) is not None:
            return I.readc(st, c, off, size, kind)
        return w
    if w.op != "fold":
        return w
    L, bv, cnt, j, defs = w.args
    n = cval(P(cnt))
    if n is None or n > limit:
        return w
    env = {d[0]: P(d[1]) for d in defs}
    for k in range(n):
        new = {}
        mp = dict(env)
        mp[bv] = ic(k)
        for sy, ini, cases in defs:
            v = None
            for g, x in cases:
                ok = [all(I.evalc(st, subst(cc, mp)) is b for cc, b in conj) for conj in g]
                if any(ok):
                    v = x
            if v is None:
                return w
            v = subst(v, mp)
            if v.op != "p":
                return w
            new[sy] = unroll(I, st, v, limit)
        env = new
    return env[defs[j][0]]


# ------------------------------------------------------------------ collection
class Acc:
    __slots__ = ("where", "obj", "off", "len", "ext", "what", "guard", "chain", "low", "high",
                 "st", "inst", "fn", "ents")


class Bounds:
    """listener; ext: object -> extent in bytes (term)"""

    def __init__(self, ext=None, skip=()):
        self.ext = dict(ext or {})
        self.acc, self.loops, self.pos, self.ents = [], [], [], []
        self.proved = set()
        self.nproved = 0
        self.unbounded = set()
        self.skip = skip

    def on_loopbegin(self, I, st, inst, L):
        self.loops.append(L)
        self.ents.append(st.guard)
        self.pos.append(len(self.acc))

    def on_looppass(self, I, st, inst, L):
        del self.acc[self.pos[-1]:]

    def on_loopend(self, I, st, inst, L):
        self.loops.pop()
        self.ents.pop()
        self.pos.pop()

    def extent(self, I, st, o):
        k = o.args[0]
        if o in self.ext:
            return self.ext[o]
        if k == "heap":
            r = st.res.get(o)
            return r[2] if r and r[1] in ("l1c", "malloc", "l1c2d") else None
        if k == "row":
            r = st.res.get(o.args[1])
            return pscale(P(r[4]), 8) if r and len(r) > 4 else None
        if k == "glob":
            g = I.prog.globs.get(o.args[1])
            return ic(g["size"]) if g and g.get("size", -1) > 0 else None
        if k == "alloca":
            n = I.asize.get(o, -1)
            return ic(n) if n > 0 else None
        return None

    def on_access(self, I, st, inst, obj=None, off=None, size=None, what=None, ptr=None,
                  kind=None, count=None, **kw):
        if obj is None or off is None or what == "opaque":
            return
        e = self.extent(I, st, obj)
        if e is None:
            self.unbounded.add((I.where(inst), show(obj, 2)))
            return
        neg = False
        if count is not None and count.op == "strided":
            N, inc = count.args
            neg = not prove(I, st, psub(inc, ONE), 2)
            cnt = padd(pmul(psub(N, ONE), inc), ONE)
        else:
            cnt = N = None if count is None else unroll(I, st, count)
        n = pscale(cnt, size) if cnt is not None else ic(size)
        if cval(off) is not None and cval(n) is not None and cval(e) is not None and \
                0 <= cval(off) and cval(off) + cval(n) <= cval(e):
            return
        a = Acc()
        a.where, a.obj, a.off, a.len, a.ext, a.what = I.where(inst), obj, off, n, e, what
        a.guard, a.chain, a.ents = st.guard, tuple(self.loops), tuple(self.ents)
        a.inst, a.fn = inst["id"] if inst else None, I.stack[-1][0].key if I.stack else ""
        if off.op != "p" or e.op != "p" or neg:
            a.low = a.high = False
            if neg:
                a.len = mk("sym", "negative stride")
        else:
            s2 = st
            if N is not None:                   # an empty range touches nothing
                s2 = st.copy()
                if not I.addiv(s2, N, 1, None):
                    return
            a.low = prove(I, s2, off)
            a.high = prove(I, s2, psub(e, padd(off, n)))
        self.acc.append(a)


# ------------------------------------------------------------------ refutation
def fkey(c):
    """(key, allowed orderings) of a floating point comparison"""
    pred, x, y = c.args
    o = {"eq": "=", "ne": "<>", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}[pred[1:]] \
        if pred[1:] in ("eq", "ne", "lt", "le", "gt", "ge") else "<=>"
    al = set(o)
    if pred[0] == "u":
        al.add("n")
    if pred == "ord":
        al = set("<=>")
    if pred == "uno":
        al = {"n"}
    if x.uid > y.uid:
        x, y = y, x
        al = {{"<": ">", ">": "<"}.get(k, k) for k in al}
    return (x, y), al


def consistent(S, conj):
    """could this conjunction hold? integer conditions are evaluated, floating point ones
    only have to be consistent with each other; Unknown for integer conditions left open"""
    fl = {}
    for c, v in conj:
        n = v
        while c.op == "not":
            c, n = c.args[0], not n
        if c.op == "fcmp" and not S.strict:
            k, al = fkey(c)
            if not n:
                al = set("<=>n") - al
            fl.setdefault(k, set("<=>n")).intersection_update(al)
            if not fl[k]:
                return False
            continue
        if c.op in ("isnan", "brk") and not S.strict:
            if c.op == "brk" and isinstance(S, Free):
                try:
                    if S.b(c) != n:
                        return False
                except (Unknown, Uninit):
                    pass
            continue
        if c.op in ("band", "bor") and not S.strict:
            try:
                if S.b(c) != n:
                    return False
            except (Unknown, Uninit):
                pass
            continue
        if S.b(c) != n:
            return False
    return True


def feasible(S, g):
    """True / False / None"""
    open_ = False
    for conj in g:
        try:
            if consistent(S, conj):
                return True
        except (Unknown, Uninit):
            open_ = True
    return None if open_ else False


class Free(Sample):
    """what the caller may choose freely is drawn from small integers, and adjusted until the
    conditions on the path hold"""
    POOL = (-1, 0, 1, 2, 3, 4, 5, 9)

    @classmethod
    def pool(cls, k):
        """sizes and counts are never negative, numbers passed in may be"""
        if isinstance(k, tuple):
            k = k[0]
        if isinstance(k, T) and (k.op == "f2i" or k.op == "sym" and k.args[0] == "py"):
            return cls.POOL
        return cls.POOL[1:]

    def __init__(self, I, seed, isfree, frac=None):
        Sample.__init__(self, I, seed)
        self.isfree, self.touched, self.forced = isfree, set(), {}
        self.cond = self.coin
        self.f2i = {}

    def coin(self, c):
        if c not in self.forced:
            self.forced[c] = self.rnd.random() < .7
        return self.forced[c]

    def pick(self, k):
        if k not in self.forced:
            self.forced[k] = self.rnd.choice(self.pool(k))
        self.touched.add(k)
        return self.forced[k]

    def ev(self, t):                      # no memo: values change
        self.steps += 1
        if self.steps > 400_000:
            raise Unknown("too many evaluation steps")
        return self._ev(t)

    def int(self, t):
        if t in self.bound:
            return self.bound[t]
        if t.op == "f2i" or self.isfree(t):
            fv = free(t)
            return self.pick((t,) + tuple((s, self.bound.get(s)) for s in
                                          sorted(fv, key=lambda s: s.uid)) if fv else t)
        return Sample.int(self, t)

    def init(self, obj, off, size, kind):
        if kind != "f" and self.isfree(obj):
            return self.pick((obj, off, size))
        return Sample.init(self, obj, off, size, kind)

    def repair(self, a, tries=600):
        """adjust the free values until the access is reached and out of bounds"""
        for conj in list(a.guard)[:20]:
            conj = list(conj)
            for q in range(tries):
                bad = None
                for c, v in conj:
                    n = v
                    while c.op == "not":
                        c, n = c.args[0], not n
                    if c.op in ("fcmp", "isnan"):
                        continue
                    if c.op == "sym":
                        self.forced[c] = n
                        continue
                    if c.op == "cmp" and c.args[0] in ("eq", "ne") and \
                            c.args[2].op == "null" and c.args[1].op == "ptr":
                        self.null[c.args[1].args[0]] = (c.args[0] == "eq") == n
                        continue
                    self.touched = set()
                    try:
                        ok = self.b(c) == n
                    except (Unknown, Uninit):
                        if c.op != "brk":
                            raise
                        continue
                    if not ok:
                        bad = self.touched
                        if self.rnd.random() < .5:
                            break
                if bad is None:
                    self.touched = set()
                    off, n, e = self.ev(a.off), self.ev(a.len), self.ev(a.ext)
                    if n > 0 and (off < 0 or off + n > e) and consistent(self, conj):
                        return off, n, e
                    bad = self.touched
                if not bad:
                    break
                k = self.rnd.choice(sorted(bad, key=str))
                self.forced[k] = self.rnd.choice(self.pool(k))
        return None


def rounds(r, a, n):
    """iterations of loop r, which comes back n times, in which access a may happen: one more
    than n only where the loop's test comes after it"""
    f = r.f
    if any(s not in f.loops[r.h] for s in f.succ[r.h]) and not (
            a.fn == f.key and any(i["id"] == a.inst for i in f.blocks[r.h])):
        return range(n)
    return range(n + 1)


def refute(I, S, a, limit=4000):
    """a concrete iteration at which access a is out of bounds under valuation S, or None"""
    steps = [0]
    free_ = isinstance(S, Free)

    def rec(k):
        if k == len(a.chain):
            steps[0] += 1
            if free_:
                return S.repair(a)
            try:
                off, n, e = S.ev(a.off), S.ev(a.len), S.ev(a.ext)
            except (Unknown, Uninit):
                return None
            if n <= 0:
                return None
            if (off < 0 or off + n > e) and feasible(S, a.guard):
                return off, n, e
            return None
        L = a.chain[k]
        r = I.recs.get((L, a.ents[k])) or I.loops.get(L)
        if r is None:
            return None
        t = mk("t", L)
        if free_:
            S.bound[t] = S.rnd.choice((0, 0, 1, 1, 2, 3))
            w = rec(k + 1)
            if w is None or S.bound[t] and r.count is not None and S.ev(r.count) < S.bound[t]:
                return None
            return w
        if not feasible(S, r.entry.guard):
            return None
        mx = None
        if r.count is not None:
            try:
                mx = max(0, S.ev(r.count))
            except (Unknown, Uninit):
                mx = None
        last = True
        for x in rounds(r, a, mx) if mx is not None else range(4):
            if steps[0] > limit:
                break
            S.bound[t] = x
            w = rec(k + 1)
            if w is not None:
                return w
        S.bound.pop(t, None)
        return None
    return rec(0)


def decide(rep, key, I, B, samples):
    """samples: thunks that give fresh valuations"""
    done = {}
    for a in B.acc:
        k = (a.where, a.obj, a.off, a.ext, a.len)
        if a.low and a.high:
            done.setdefault(k, "proved")
            continue
        if done.get(k) not in (None, "proved"):
            continue
        w = None
        for mkS in samples:
            S = mkS()
            try:
                w = refute(I, S, a)
            except (Unknown, Uninit):
                w = None
            if w is not None:
                break
        done[k] = ("bad", a, w) if w else ("open", a)
    n = 0
    for k, v in done.items():
        if v == "proved":
            n += 1
        elif v[0] == "bad":
            a, w = v[1], v[2]
            rep.violation("%s: %s of %s at %s" % (key, a.what, show(a.obj, 2), a.where),
                          "bytes %d..%d of an object of %d bytes (offset %s, extent %s)" %
                          (w[0], w[0] + w[1], w[2], show(a.off, 3), show(a.ext, 3)))
        else:
            a = v[1]
            rep.undecided("%s: %s of %s at %s" % (key, a.what, show(a.obj, 2), a.where),
                          "offset %s, extent %s" % (show(a.off, 4), show(a.ext, 4)))
    rep.count("accesses proved for all sizes", n)
    if n:
        rep.ok("%s: %d distinct accesses within their objects" % (key, n))
