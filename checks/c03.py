"""C03: vectorised code only gets addresses aligned as it assumes."""
import absint
import bounds
import c04
import c06
import numeval
from bounds import Acc
from common import Report, pmap
from numeval import Unknown
from scen import *
from terms import *

RULE = ("Alignment analysis: abstract interpretation of every kernel, operator, solver and "
        "interface function; at every place that assumes an alignment (compiler assumption, "
        "aligned vector load or store, FFTW execution on new arrays, operator callbacks and "
        "solvers, whose implementations assume it of their vectors) the address is derived as "
        "an offset polynomial into an object. The base must be aligned by its origin "
        "(allocator, documented argument) and the offset a multiple for every size; a size at "
        "which it is not, on a feasible path, is a violation.")
# arguments documented to need no alignment
PLAIN = {("l1qc", "b")}
SOLVERS = ("l1c_nesta", "l1c_l1qc_newton", "l1c_breg_anistropic_TV", "l1qc_dct")
CUR = [None, 64]


def base(I, st, o, got):
    """known alignment of the start of o: bytes, None when it cannot be told"""
    k = o.args[0]
    if k == "row":
        return 1 << 20                    # the allocators are decided in C04
    if k == "heap":
        if o in got:
            return got[o]
        r = st.res.get(o)
        if r is None:
            return None
        return {"l1c": 1 << 20, "malloc": 16}.get(r[1], 8 if CUR[0] == "iface" else None)
    if k == "alloca":
        return I.aalign.get(o)
    if k == "glob":
        g = I.prog.globs.get(o.args[1])
        return g.get("align") if g else None
    if k == "ext":
        if CUR[0] == "iface":
            return 8
        if isinstance(o.args[1], str):
            return 8 if (CUR[0], o.args[1]) in PLAIN else 1 << 20
        return None
    return None


def wholly(p, n):
    """is polynomial p a multiple of n for all values of its symbols?"""
    return p.op == "p" and all(c % n == 0 for _, c in p.args[0])


def tested(c, v, o):
    """alignment of o that condition c == v shows; 0: it is about the address but unclear"""
    while c.op == "not":
        c, v = c.args[0], not v
    if not any(x.op == "p2i" and x.args[0].op == "ptr" and x.args[0].args[0] is o
               for x in walk(c)):
        return None
    if c.op == "cmp" and c.args[0] in ("eq", "ne") and cval(c.args[2]) == 0:
        if (c.args[0] == "eq") != v:
            return 1
        x = patom(c.args[1])
        if x is not None and x.op == "iop" and cval(x.args[2]):
            k = cval(x.args[2])
            y = x.args[1]
            y = patom(y) if y.op == "p" else y
            if y is not None and y.op == "p2i" and cval(y.args[0].args[1]) == 0:
                if x.args[0] in ("urem", "srem") and k & (k - 1) == 0:
                    return k
                if x.args[0] == "and" and k & (k + 1) == 0:
                    return k + 1
    return 0


def guarded(g, o, b):
    """(base alignment given the tests on the way, the other tests)"""
    out, low = set(), None
    for conj in g:
        rest, n = [], b
        for c, v in conj:
            k = tested(c, v, o)
            if k is None:
                rest.append((c, v))
            elif k == 0:
                n = None
            elif n is not None:
                n = max(n, k)
        out.add(frozenset(rest))
        if n is None:
            return None, g
        low = n if low is None else min(low, n)
    return (b if low is None else low), frozenset(out)


def walk(t, seen=None):
    seen = set() if seen is None else seen
    if isinstance(t, T):
        if t in seen:
            return
        seen.add(t)
        yield t
        for x in t.args:
            yield from walk(x, seen)
    elif isinstance(t, (tuple, frozenset)):
        for x in t:
            yield from walk(x, seen)


def need(self, I, st, inst, p, n, what):
    if p.op != "ptr" or n <= 8:
        return
    o, off = p.args
    b = base(I, st, o, self.__dict__.setdefault("origin", {}))
    a, g = Acc(), st.guard
    if b is not None and b < n:
        b, g = guarded(g, o, b)
    a.where, a.obj, a.what, a.guard = I.where(inst), o, (what, n, b, off), g
    a.chain, a.ents = tuple(self.loops), tuple(self.ents)
    a.inst, a.fn = inst["id"] if inst else None, I.stack[-1][0].key if I.stack else ""
    a.len = a.ext = ONE
    a.st = None
    a.low = a.high = b is not None and b >= n and wholly(off, n)
    if b is None:
        a.off = None
    elif b < n:
        a.off = ONE                       # nothing says it is a multiple
    else:
        a.off = P(mk("iop", "srem", off, ic(n)))
    self.acc.append(a)


class Align:
    def on_access(self, I, st, inst, obj=None, off=None, ptr=None, what=None, kind=None,
                  align=None, **kw):
        if ptr is None or ptr.op != "ptr" or what == "opaque":
            return
        if align:
            need(self, I, st, inst, ptr, align, "the callee")
            return
        if inst is None or inst.get("op") != "call" or kind != "f":
            return
        cal = inst.get("callee") or (None, None)
        if cal[0] == "v":
            if CUR[0] == "iface":         # known operators, which copy to their output
                return
            need(self, I, st, inst, ptr, CUR[1], "the operator called")
        elif cal[1] in SOLVERS and not (cal[1] == "l1qc_dct" and what == "load"):
            need(self, I, st, inst, ptr, CUR[1], cal[1])

    def on_assume_aligned(self, I, st, inst, p=None, align=None):
        need(self, I, st, inst, p, align or 0, "the code")

    def on_aligned(self, I, st, inst, obj, align):
        self.__dict__.setdefault("origin", {})[obj] = cval(align) or 8


def decide(rep, key, I, B, samples):
    done = {}
    for a in B.acc:
        what, n, b, off = a.what
        k = (a.where, a.obj, what, n, off)
        if a.low:
            done.setdefault(k, "proved")
            continue
        if done.get(k) not in (None, "proved"):
            continue
        if a.off is None:
            done[k] = ("open", a)
            continue
        w = None
        for mkS in samples:
            S = mkS()
            try:
                w = bounds.refute(I, S, a)
                if w is not None and b >= n:
                    w = S.ev(off)
            except (Unknown, numeval.Uninit):
                w = None
            if w is not None:
                break
        done[k] = ("bad", a, w) if w is not None else ("open", a)
    m = 0
    for k, v in done.items():
        if v == "proved":
            m += 1
            continue
        a = v[1]
        what, n, b, off = a.what
        t = "%s: %s at %s" % (key, show(a.obj, 2), a.where)
        if v[0] == "bad":
            rep.violation(t, "%s assumes a multiple of %d bytes; %s" % (
                what, n, "the memory is only known to be aligned to %d" % b if b < n else
                "the address is %d bytes into the array (offset %s)" % (v[2], show(off, 3))))
        else:
            rep.undecided(t, "%s assumes %d; offset %s" % (what, n, show(off, 3)))
    rep.count("aligned uses shown for all sizes", m)
    if m:
        rep.ok("%s: %d distinct uses" % (key, m))


def job(a):
    rep = Report("C03", "quick")
    B = bounds.Bounds
    sv = B.on_access, bounds.decide
    B.on_access, bounds.decide = Align.on_access, decide
    B.on_assume_aligned, B.on_aligned = Align.on_assume_aligned, Align.on_aligned
    CUR[0] = a[0]
    CUR[1] = c04.demand(image("lib"))
    try:
        getattr(c06, "j_" + a[0])(rep, *a[1:])
    except (Unknown, absint.Blowup) as e:
        rep.undecided(" ".join(map(str, a)), str(e))
    finally:
        B.on_access, bounds.decide = sv
        del B.on_assume_aligned, B.on_aligned
    return rep.data()


def run(rep):
    rep.rule = RULE
    rep.assume = ["vectors handed to the C functions come from the library's allocators, except "
                  "the observations of l1qc_dct (documented to need no alignment)",
                  "arrays of NumPy and MATLAB are aligned to their elements only",
                  "an operator handed to a solver may assume of its vectors what the library's "
                  "own do; the one call of an operator in an interface (MEX nesta) reaches "
                  "only copies and is not judged"]
    pmap(job, c06.JOBS, rep)
