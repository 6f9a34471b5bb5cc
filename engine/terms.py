"""Hash-consed terms: the value domain of the abstract interpreter.

Every abstract value is an interned T node (identity == structural equality):
  p       integer polynomial over atoms           args = ((mono, coef), ...)
  ptr     pointer                                  args = (obj, byte offset poly)
  null / undef / FU (some double, unknown)
  fptr    known function                           args = (key,)
  fc      double constant                          args = (float,)
  fadd fmul fneg fdiv fn ... double arithmetic
  cmp/fcmp/not/band/bor  booleans
  rd      unresolved read of a memory content      args = (content, off, size, kind)
  content memory of one object                     args = (base, layers...)
"""
import itertools

_uid = itertools.count()
_tab = {}


class T:
    __slots__ = ("op", "args", "uid", "_fv", "_sf")

    def __init__(self, op, args):
        self.op, self.args = op, args
        self.uid = next(_uid)
        self._fv = self._sf = None

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.uid < o.uid

    def __reduce__(self):
        raise TypeError("terms are not picklable")


def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = _tab[k] = T(op, args)
    return t


def mkf(op, x):      # float constants: distinguish 0.0 / -0.0, nan
    k = (op, x.hex() if x == x else "nan")
    t = _tab.get(k)
    if t is None:
        t = _tab[k] = T(op, (x,))
    return t


NULL = mk("null")
UNDEF = mk("undef")
FU = mk("FU")


# ----------------------------------------------------------------- polynomials
def _mkp(d):
    return mk("p", tuple(sorted(((m, c) for m, c in d.items() if c),
                                key=lambda mc: (len(mc[0]), [a.uid for a in mc[0]]))))


def ic(n):
    return mk("p", (((), n),) if n else ())


ZERO, ONE = ic(0), ic(1)


def cval(t):
    """int value of a constant polynomial, else None"""
    if t.op != "p":
        return None
    m = t.args[0]
    if not m:
        return 0
    if len(m) == 1 and not m[0][0]:
        return m[0][1]
    return None


def P(t):
    """coerce to polynomial"""
    if t.op == "p":
        return t
    return mk("p", (((t,), 1),))


def padd(a, b, k=1):
    a, b = P(a), P(b)
    d = dict(a.args[0])
    for m, c in b.args[0]:
        d[m] = d.get(m, 0) + k * c
    return _mkp(d)


def psub(a, b):
    return padd(a, b, -1)


def pscale(a, k):
    a = P(a)
    return _mkp({m: c * k for m, c in a.args[0]})


def pmul(a, b):
    a, b = P(a), P(b)
    d = {}
    for m1, c1 in a.args[0]:
        for m2, c2 in b.args[0]:
            m = tuple(sorted(m1 + m2, key=lambda x: x.uid))
            d[m] = d.get(m, 0) + c1 * c2
    return _mkp(d)


def pconst(a):
    for m, c in P(a).args[0]:
        if not m:
            return c
    return 0


def pnoconst(a):
    return _mkp({m: c for m, c in P(a).args[0] if m})


def patom(a):
    """the atom if the polynomial is exactly one atom, else None"""
    if a.op != "p":
        return a
    m = a.args[0]
    if len(m) == 1 and m[0][1] == 1 and len(m[0][0]) == 1:
        return m[0][0][0]
    return None


def unP(a):
    x = patom(a)
    return x if x is not None else a


def pdivc(a, k):
    """exact division by an int constant, or None"""
    d = {}
    for m, c in P(a).args[0]:
        if c % k:
            return None
        d[m] = c // k
    return _mkp(d)


def patoms(a):
    s = set()
    for m, _ in P(a).args[0]:
        s.update(m)
    return s


def plin(a, t):
    """write a = A + B*t with t not in A, B; returns (A, B) or None"""
    A, B = {}, {}
    for m, c in P(a).args[0]:
        k = m.count(t)
        if k == 0:
            A[m] = c
        elif k == 1:
            mm = list(m)
            mm.remove(t)
            B[tuple(mm)] = c
        else:
            return None
    return _mkp(A), _mkp(B)


# ----------------------------------------------------------------- pointers
def ptr(obj, off):
    return mk("ptr", obj, off)


def ptradd(p, off):
    if p.op == "ptr":
        return mk("ptr", p.args[0], padd(p.args[1], off))
    if cval(off) == 0:
        return p
    if p.op == "null":
        return mk("ptr", mk("obj", "nullbase"), off)
    return mk("ptr", mk("obj", "sym", p), off)


# ----------------------------------------------------------------- floats
def fc(x):
    return mkf("fc", float(x))


def fop(op, *a):
    for x in a:
        if x is FU:
            return FU
        if x is UNDEF:
            return UNDEF
    if op == "fneg" and a[0].op == "fc":
        return fc(-a[0].args[0])
    return mk(op, *a)


# ----------------------------------------------------------------- substitution
def free(t):
    """set of leaf symbols (ops in SYMS) in t"""
    if t._fv is None:
        s = set()
        if t.op in SYMS:
            s.add(t)
        for x in _kids(t):
            s |= free(x)
        t._fv = frozenset(s)
    return t._fv


def sfree(t):
    """(free symbols in a fixed order, those that are arrays)"""
    if t._sf is None:
        l = tuple(sorted(free(t), key=lambda s: s.uid))
        t._sf = l, tuple(s for s in l if s.op == "hdr")
    return t._sf


SYMS = {"t", "lphi", "lmem", "hdr", "bv"}


def _kids(t):
    st = [t.args]
    out = []
    while st:
        a = st.pop()
        for x in a:
            if isinstance(x, T):
                out.append(x)
            elif isinstance(x, tuple):
                st.append(x)
            elif isinstance(x, frozenset):
                st.append(tuple(x))
    return out


def subst(t, mp, memo=None):
    """replace symbols (keys of mp) in t"""
    if memo is None:
        memo = {}
    return _subst(t, mp, memo)


def _subst(t, mp, memo):
    if t in mp:
        return mp[t]
    r = memo.get(t)
    if r is not None:
        return r
    fv = free(t)
    if not any(k in fv for k in mp):
        memo[t] = t
        return t
    if t.op == "p":
        r = ZERO
        for m, c in t.args[0]:
            x = ic(c)
            for a in m:
                x = pmul(x, P(_subst(a, mp, memo)))
            r = padd(r, x)
    elif t.op == "max0":
        r = max0(_subst(t.args[0], mp, memo))
    else:
        r = mk(t.op, *_smap(t.args, mp, memo))
    memo[t] = r
    return r


def _smap(a, mp, memo):
    out = []
    for x in a:
        if isinstance(x, T):
            y = _subst(x, mp, memo)
            out.append(y)
        elif isinstance(x, tuple):
            out.append(tuple(_smap(x, mp, memo)))
        elif isinstance(x, frozenset):
            out.append(frozenset(_smap(tuple(x), mp, memo)))
        else:
            out.append(x)
    return out


def max0(p):
    c = cval(p)
    if c is not None:
        return ic(max(0, c))
    return mk("max0", p)


# ----------------------------------------------------------------- printing
def show(t, depth=6):
    if not isinstance(t, T):
        if isinstance(t, (tuple, frozenset)):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "…"
    if t.op == "p":
        if not t.args[0]:
            return "0"
        out = []
        for m, c in t.args[0]:
            s = "*".join(show(a, depth - 1) for a in m)
            out.append(str(c) if not s else (s if c == 1 else "%d*%s" % (c, s)))
        return " + ".join(out)
    if t.op == "fc":
        return repr(t.args[0])
    if t.op == "obj":
        return ".".join(show(x, depth - 1) for x in t.args if not
                        (isinstance(x, T) and x.op == "ctx"))
    if t.op == "L":
        return "L%s" % t.args[-1]
    if t.op == "ctx":
        return ""
    if t.op in ("arg", "sym"):
        return "/".join(show(x, depth - 1) for x in t.args)
    if t.op == "init":
        return "%s[%s]" % (show(t.args[0], depth - 1), show(t.args[1], depth - 1))
    if not t.args:
        return t.op
    return "%s(%s)" % (t.op, ", ".join(show(x, depth - 1) for x in t.args))
