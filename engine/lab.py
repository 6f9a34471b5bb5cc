"""Solver-level scenarios: operator callbacks as arbitrary linear maps, problem structs."""
import models
from kern import *
from numeval import matrix
from terms import *

OPMAP = {"Ax": ("A", 0), "Aty": ("A", 1), "AtAx": ("A", 2), "Mx": ("M", 0), "Mty": ("M", 1),
         "Wz": ("W", 0), "Wtx": ("W", 1), "Rx": ("R", 0), "Rty": ("R", 1)}


def mvec(A, x):
    return [sum(a * b for a, b in zip(r, x)) for r in A]


def mtvec(A, x):
    return [sum(A[i][j] * x[i] for i in range(len(A))) for j in range(len(A[0]))]


def dot(x, y):
    return sum(a * b for a, b in zip(x, y))


class Lab:
    """dims: base matrix -> (rows term, cols term)"""

    def __init__(self, prog, dims, extra=None):
        self.prog, self.dims = prog, dims
        self.mdl = dict(models.MODELS)
        for op, (base, how) in OPMAP.items():
            if base in dims:
                self.mdl["@" + op] = self.opmodel(op, base, how)
        self.mdl.update(extra or {})

    def itp(self):
        return Itp(self.prog, numeric=True, mdl=self.mdl)

    def opmodel(self, op, base, how):
        def m(I, st, inst, a, cctx, f):
            I.mark += 1
            r, c = (P(x) for x in self.dims[base])
            nin, nout = {0: (c, r), 1: (r, c), 2: (c, c)}[how]
            x, y = a[0], a[1]
            ok = models.access(I, st, inst, x, nin, "load")
            ok2 = models.access(I, st, inst, y, nout, "store")
            if ok and ok2:
                I.addlayer(st, y.args[0], mk("op", mk("lin", base, how), y.args[1], nout,
                                             I.content(st, x.args[0]), x.args[1], nin))
            return [(None, st)]
        return m

    def fptr(self, op):
        return mk("fptr", "@" + op)

    def tmember(self, tname, path):
        """(offset, size, type) of a member path a.b"""
        off, t = 0, tname
        for p in path.split("."):
            ms = self.prog.types.get(t)
            if ms is None:
                raise Unknown("type %s" % t)
            for o, s, n, ty in ms["members"]:
                if n == p:
                    off += o
                    size, t = s, ty
                    break
            else:
                raise Unknown("no member %s in %s" % (path, tname))
        return off, size, t

    def build(self, I, st, obj, tname, vals, prefix=""):
        for path, v in vals.items():
            off, size, _ = self.tmember(tname, path)
            I.write(st, obj, ic(off), size, v)

    def table(self, I, st, obj, tname, path="", ops=OPMAP):
        for op in ops:
            if OPMAP[op][0] in self.dims:
                off, size, _ = self.tmember(tname, (path + "." if path else "") + op)
                I.write(st, obj, ic(off), size, self.fptr(op))

    def field(self, I, st, obj, tname, path, kind):
        off, size, _ = self.tmember(tname, path)
        return I.read(st, obj, ic(off), size, kind)


GHOST = mk("obj", "ext", "printed")     # counts the calls of the printing hook


def _print(off):
    def m(I, st, inst, a, cctx, f):
        I.mark += 1
        I.write(st, GHOST, ic(off), 8, padd(I.read(st, GHOST, ic(off), 8, "i"), ONE))
        return [(P(mk("sym", "printed", cctx, "i")), st)]
    return m


PRINTERS = {"@PRINT": _print(0), "printf": _print(8), "puts": _print(8), "putchar": _print(8),
            "vprintf": _print(8)}


def mentions(t, atom):
    w = [t]
    while w:
        x = w.pop()
        if x is atom:
            return True
        if isinstance(x, (tuple, frozenset, list)):
            w.extend(x)
        elif isinstance(x, T):
            w.extend(x.args)
    return False


class DivWatch:
    """integer divisions by the printing option while nothing is known about its value"""

    def __init__(self, rep, key, atom):
        self.rep, self.key, self.atom = rep, key, atom

    def holds(self, c, v):
        """does condition c (if it concerns the option alone) have value v when it is 0?"""
        import numeval
        if not mentions(c, self.atom) or c.op != "cmp":
            return True
        S = numeval.Sample(None, "0", {self.atom: 0})
        try:
            if any(a is not self.atom for x in c.args[1:] for a in patoms(P(x))):
                return True
            return S.b(c) == v
        except Exception:
            return True

    def on_div(self, I, st, inst, num, den):
        if patom(den) is not self.atom:
            return
        lo, hi = I.interval(st, den)
        where = I.where(inst)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            self.rep.ok("division by the printing option at %s is guarded" % where)
        elif not I.assume(st.copy(), mk("cmp", "eq", den, ZERO), True):
            self.rep.ok("division by the printing option at %s is guarded" % where)
        elif any(all(self.holds(c, v) for c, v in conj) for conj in st.guard):
            self.rep.violation("%s: division by the printing option" % self.key,
                               "%s divides by it although it may be 0" % where)
        else:
            self.rep.undecided("%s: division by the printing option" % self.key, where)


def hook(I, st, rep=None, key=None, atom=None):
    """install a counting print function; False when there is no hook"""
    if rep:
        I.listeners.append(DivWatch(rep, key, atom))
    g = I.prog.globs.get("l1c_printf")
    if not g:
        return False
    I.write(st, mk("obj", "glob", g["key"]), ZERO, 8, mk("fptr", "@PRINT"))
    I.write(st, GHOST, ZERO, 8, ZERO)
    I.write(st, GHOST, ic(8), 8, ZERO)
    return True


def printed(S, I, s, off=0):
    return float(S.ev(I.read(s, GHOST, ic(off), 8, "i")))


def lin(S, opt, x, n):
    base, how = opt.args
    r, c = S.mats[base]
    A = matrix(S, base, r, c)
    if how == 0:
        return mvec(A, x)
    if how == 1:
        return mtvec(A, x)
    return mtvec(A, mvec(A, x))


numeval.OPS["lin"] = lin


def ext(name):
    return ptr(mk("obj", "ext", name), ZERO)


def setvec(S, p, vals):
    """fix the input array behind p"""
    o = p.args[0]
    for i, v in enumerate(vals):
        S.vals[("init", o, 8 * i)] = v


def getvec(S, p, n):
    return [S.init(p.args[0], 8 * i, 8, "f") for i in range(n)]
