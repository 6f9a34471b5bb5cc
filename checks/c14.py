"""C14: the one-call solver, the Python methods and the MEX functions hand every argument and
option to the solver they stand for and return what it produced."""
import math

from lab import *
from common import pmap, Report, MEX
from models import MODELS, cstr
import models

RULE = ("Abstract interpretation of every entry point with the solver it drives as an opaque "
        "call: at the call, every argument, array and option member is, as a term over the "
        "caller's inputs, the one the interface names (compared by random interpretation, with "
        "options given and omitted); arrays are converted to the element type and layout the "
        "solver reads; what is returned is what the opaque call wrote.")

L1QC = dict(epsilon=.01, mu=10., lbtol=1e-3, newton_tol=1e-3, newton_max_iter=50, verbose=0,
            l1_tol=1e-5, cgtol=1e-8, cgmaxiter=200, dct_mode=1)
REN = dict(cgtol="cg_tol", cgmaxiter="cg_maxiter")
INTS = ("newton_max_iter", "verbose", "cgmaxiter", "dct_mode", "max_iter", "max_jac_iter",
        "n_continue", "bp_mode", "lbiter", "warm_start_cg")
NESTA = dict(alpha_v=0., alpha_h=0., sigma=.01, mu=1e-5, tol=1e-5, n_continue=5, verbose=5,
             dct_mode=1, bp_mode=1)
BREG = dict(mu=10., tol=.001, max_iter=1000, max_jac_iter=1)
HIDDEN = dict(lbiter=0, cg_verbose=0, warm_start_cg=0)


def typ(prog, *members):
    for n, t in prog.types.items():
        ms = {m[2] for m in t["members"]}
        if set(members) <= ms:
            return n
    raise Unknown("no type with members %s" % (members,))


def opts_type(prog):
    return typ(prog, "epsilon", "lbtol", "cg_maxiter", "dct_mode")


def nesta_type(prog):
    for n, t in prog.types.items():
        ms = {m[2] for m in t["members"]}
        if {"sigma", "n_continue", "verbose", "tol"} <= ms and "xo" not in ms:
            return n
    raise Unknown("no option type")


VERBOSE = None          # values of the printing option to use, in turn


def loud():
    global VERBOSE
    v = VERBOSE[0]
    VERBOSE = VERBOSE[1:] + (v,)
    return v


def modes(prog):
    """enumerator values by name"""
    return getattr(prog, "enums", None) or {}


class Cap:
    """an interpreter with opaque solvers that remembers the calls"""

    def __init__(self, prog, solvers):
        self.prog = prog
        self.lab = Lab(prog, {"A": (mk("arg", "_n"), mk("arg", "_m")),
                              "M": (mk("arg", "_m"), mk("arg", "_m"))})
        mdl = self.lab.mdl
        for s in solvers:
            mdl[s] = getattr(self, "m_" + s)
        for n in ("Py_BuildValue", "PyArg_ParseTupleAndKeywords", "mxSetField"):
            if n in mdl:
                mdl[n] = self.wrap(n, MODELS[n])
        self.calls, self.builds, self.parse, self.conv, self.news, self.sets = \
            [], {}, [], [], [], []
        self.supply = None              # keywords given; None: all
        mdl["PyArg_ParseTupleAndKeywords"] = self.m_parse
        mdl["@destroy"] = lambda I, st, inst, a, cctx, f: [(None, st)]
        self.I = Itp(prog, numeric=True, fresh=True, mdl=mdl)
        self.I.listeners.append(self)
        cg = self.I.const_globals
        # an initialised static keyword table
        self.I.const_globals = lambda g: cg(g) or any(c[2][0] == "g" for c in
                                                      g.get("init") or ())

    # -- events
    def wrap(self, n, m):
        def w(I, st, inst, a, cctx, f):
            r = m(I, st, inst, a, cctx, f)
            if n == "Py_BuildValue":
                for v, s in r:
                    if v.op == "ptr":
                        self.builds[v.args[0]] = (cstr(I, st, a[0]), a, s.copy())
            elif n == "mxSetField":
                self.sets.append((a, cstr(I, st, a[2]), st.copy()))
            return r
        return w

    def on_numpy(self, I, st, inst, idx, args, obj):
        (self.conv if idx == 69 else self.news).append((obj, args, st.copy(), I.where(inst)))

    # -- models
    def names(self, I, st, p):
        out = []
        for k in range(40):
            v = I.read(st, p.args[0], padd(p.args[1], ic(8 * k)), 8, "p")
            if v is NULL:
                return out
            s = cstr(I, st, v)
            if s is None:
                return None
            out.append(s)
        return None

    def m_parse(self, I, st, inst, a, cctx, f):
        fmt = cstr(I, st, a[2])
        names = self.names(I, st, a[3]) if a[3].op == "ptr" else None
        if fmt is None or names is None:
            raise Unknown("the format or keyword list is not constant")
        bad = st.copy()
        bad.mon["pyerr"] = True
        ok = mk("sym", "parse", cctx)
        units = []
        opt = False
        for ch in fmt:
            if ch in ":;":
                break
            if ch == "|":
                opt = True
            elif ch != "$":
                units.append((ch, opt))
        self.parse.append((units, names, a[4:]))
        for k, (ch, opt) in enumerate(units):
            if 4 + k >= len(a) or a[4 + k].op != "ptr":
                raise Unknown("parse target")
            if opt and self.supply is not None and names[k] not in self.supply:
                continue
            o, off = a[4 + k].args
            if ch in "iIlhp":
                I.write(st, o, off, {"l": 8, "h": 2}.get(ch, 4), P(mk("sym", "py", k, "i")))
            elif ch in "df":
                I.write(st, o, off, 8 if ch == "d" else 4, mk("fsym", "py%d" % k))
            elif ch == "O":
                I.write(st, o, off, 8, ptr(mk("obj", "pyarg", k), ZERO))
                st.facts[mk("nul", mk("obj", "pyarg", k))] = False
            else:
                raise Unknown("format unit %s" % ch)
        st = st.copy()
        if not I.assume(st, ok, True) or not I.assume(bad, ok, False):
            raise Unknown("parse")
        st.guard = conj(st.guard, ok, True)
        bad.guard = conj(bad.guard, ok, False)
        return [(ONE, st), (ZERO, bad)]

    def note(self, name, I, st, inst, a):
        self.calls.append((name, a, st.copy(), I.where(inst)))

    def output(self, I, st, inst, p, n, name):
        if p.op != "ptr":
            raise Unknown("output pointer")
        I.mark += 1
        I.addlayer(st, p.args[0], mk("op", mk("out", name), p.args[1], n,
                                     mk("content", mk("zero", p.args[0]), ()), ZERO, ZERO))

    def result(self, I, st, p):
        t = typ(self.prog, "total_newton_iter", "total_cg_iter", "l1")
        for o, s, n, ty in self.prog.types[t]["members"]:
            I.write(st, p.args[0], padd(p.args[1], ic(o)), s,
                    mk("fsym", "res." + n) if ty == "double" else P(mk("sym", "res", n, "i")))

    def m_l1qc_dct(self, I, st, inst, a, cctx, f):
        self.note("l1qc_dct", I, st, inst, a)
        self.output(I, st, inst, a[2], pmul(P(a[0]), P(a[1])), "l1qc_dct")
        self.result(I, st, a[7])
        return [(P(mk("sym", "status", "l1qc_dct", "i")), st)]

    def m_l1c_breg_anistropic_TV(self, I, st, inst, a, cctx, f):
        self.note("l1c_breg_anistropic_TV", I, st, inst, a)
        self.output(I, st, inst, a[2], pmul(P(a[0]), P(a[1])), "breg")
        return [(P(mk("sym", "status", "l1c_breg_anistropic_TV", "i")), st)]

    def m_l1c_nesta(self, I, st, inst, a, cctx, f):
        self.note("l1c_nesta", I, st, inst, a)
        self.output(I, st, inst, a[1], P(mk("arg", "_m")), "nesta")
        return [(P(mk("sym", "status", "l1c_nesta", "i")), st)]

    def m_l1c_l1qc_newton(self, I, st, inst, a, cctx, f):
        self.note("l1c_l1qc_newton", I, st, inst, a)
        self.output(I, st, inst, a[2], P(mk("arg", "_m")), "newton")
        self.result(I, st, a[0])
        return [(None, st)]

    def setup(self, I, st, a):
        t = tname(self.prog)
        o = a[-1].args[0]
        self.lab.table(I, st, o, t, ops=[k for k in OPMAP])
        for k in OPMAP:
            if OPMAP[k][0] not in self.lab.dims:
                off, size, _ = self.lab.tmember(t, k)
                I.write(st, o, ic(off), size, self.lab.fptr(k))
        off, size, _ = self.lab.tmember(t, "destroy")
        I.write(st, o, ic(off), size, self.lab.fptr("destroy"))
        for k in ("n", "q", "m", "p"):
            off, size, _ = self.lab.tmember(t, k)
            I.write(st, o, ic(off), size,
                    P(mk("arg", "_n" if k == "n" else "_p" if k == "p" else "_m")))
        off, size, _ = self.lab.tmember(t, "norm_W")
        I.write(st, o, ic(off), size, mk("fsym", "norm_W"))

    def m_l1c_setup_dct_transforms(self, I, st, inst, a, cctx, f):
        self.note("l1c_setup_dct_transforms", I, st, inst, a)
        self.setup(I, st, a)
        return [(P(mk("sym", "status", "setup", "i")), st)]

    def m_l1c_setup_dctTV_transforms(self, I, st, inst, a, cctx, f):
        self.note("l1c_setup_dctTV_transforms", I, st, inst, a)
        self.setup(I, st, a)
        return [(P(mk("sym", "status", "setup", "i")), st)]

    # -- reading
    def member(self, st, p, t, name, kind):
        off, size, _ = self.lab.tmember(t, name)
        return self.I.read(st, p.args[0], padd(p.args[1], ic(off)), size, kind)


def conj(g, c, v):
    return frozenset(frozenset(x | {(c, v)}) for x in g) if isinstance(g, frozenset) else \
        tuple(tuple(x) + ((c, v),) for x in g)


def out(S, opt, x, n):
    return [S.rand(("out", opt.args[0], k)) for k in range(n)]


numeval.OPS["out"] = out


class Case:
    """one random valuation of one entry point"""

    def __init__(self, rep, key, C, F, seed):
        self.rep, self.key, self.C, self.F = rep, key, C, F
        self.S = S = Sample(C.I, "%s/%s" % (key, seed))
        S.ops.update(numeval.OPS)
        S.ints[mk("sym", "status", "setup", "i")] = 0
        for n in ("total_newton_iter", "total_cg_iter"):
            S.ints[mk("sym", "res", n, "i")] = S.rnd.randint(2, 900)
        S.ints[mk("sym", "res", "status", "i")] = 0
        for n in ("l1qc_dct", "l1c_nesta", "l1c_breg_anistropic_TV"):
            S.ints[mk("sym", "status", n, "i")] = 0
        self.want = []

    def size(self, n, m, p=None):
        self.S.ints[mk("arg", "_n")] = n
        self.S.ints[mk("arg", "_m")] = m
        self.S.ints[mk("arg", "_p")] = p or m
        self.S.mats = {"A": (n, m), "M": (m, m)}

    def call(self, name):
        """the call of name made under this valuation"""
        h = [c for c in self.C.calls if c[0] == name and self.S.guard(c[2].guard)]
        h = list({(c[3], c[2].guard): c for c in h}.values())
        if not h:
            self.rep.violation("%s: %s" % (self.key, name),
                               "is not called for valid arguments")
            raise Done()
        if len(h) > 1:
            raise Unknown("%d calls of %s" % (len(h), name))
        return h[0]

    def eq(self, label, got, exp):
        self.want.append((label, got, exp))

    def term(self, label, t, exp):
        self.eq(label, lambda: float(self.S.ev(t)), exp)

    def arr(self, label, st, p, vals, size=8, kind="f"):
        if p.op != "ptr":
            raise Unknown("%s is no object" % label)
        for k, v in enumerate(vals):
            self.eq("%s[%d]" % (label, k),
                    lambda k=k: float(self.S.elem(st, p, k, size, kind)), v)

    def check(self):
        ok = compare(self.rep, self.key, self.F, self.S, self.want)
        self.rep.count("values compared", len(self.want))
        self.want = []
        if not ok:
            raise Done()


class Done(Exception):
    pass


# ------------------------------------------------------------------ l1qc_dct
def j_l1qc(rep):
    key = "l1qc_dct"
    prog = image("lib")
    f = need(prog, "l1qc_dct")
    if len(f.args) != 8:
        raise Unknown("signature")
    C = Cap(prog, ("l1c_setup_dct_transforms", "l1c_l1qc_newton"))
    st = State()
    names = ("mrow", "mcol", "x", "n", "b", "pix", "opts", "res")
    args = {}
    for k, n in enumerate(names):
        if f.args[k]["ty"] == "ptr":
            args[k] = ext(n)
            st.facts[mk("nul", mk("obj", "ext", n))] = False
        else:
            args[k] = P(mk("arg", n))
    F = Fn(prog, "l1qc_dct", st=st, itp=C.I, args=args)
    ot = opts_type(prog)
    for seed in range(12):
        K = Case(rep, key, C, F, seed)
        S = K.S
        r, c = S.rnd.choice(((2, 3), (3, 2), (6, 1), (1, 4)))
        n = S.rnd.randint(1, r * c - 1)
        K.size(n, r * c)
        pix = S.rnd.sample(range(r * c), n)
        b = [S.rnd.uniform(-1, 1) for _ in range(n)]
        setvec(S, ext("b"), b)
        for k in (8, 12, 16):
            S.ints[(mk("obj", "ext", "res"), k)] = -7       # what the caller left there
        for k, v in enumerate(pix):
            S.ints[(mk("obj", "ext", "pix"), 4 * k)] = v
        for k, v in (("mrow", r), ("mcol", c), ("n", n)):
            S.ints[mk("arg", k)] = v
        oo = mk("obj", "ext", "opts")
        mem = {}
        for off, size, nm, ty in prog.types[ot]["members"]:
            if ty == "double":
                mem[nm] = S.vals[("init", oo, off)] = S.rnd.uniform(.1, 3)
            else:
                mem[nm] = S.ints[(oo, off)] = S.rnd.randint(1, 2) if nm == "dct_mode" \
                    else loud() if nm == "verbose" and VERBOSE \
                    else S.rnd.randint(0, 60)
        ret, s = S.pick(F.rets)
        _, a, s0, w = K.call("l1c_setup_dct_transforms")
        for k, v in enumerate((n, r, c, mem["dct_mode"])):
            K.term("set-up argument %d" % k, a[k], v)
        K.arr("set-up sample indices", s0, a[4], pix, 4, "i")
        K.check()
        _, a, s0, w = K.call("l1c_l1qc_newton")
        K.term("solver dimension", a[1], r * c)
        K.term("solver observations", a[3], n)
        A = matrix(S, "A", n, r * c)
        K.arr("solver start", s0, a[2], mtvec(A, b))
        K.arr("solver data", s0, a[4], b)
        for off, size, nm, ty in prog.types[ot]["members"]:
            if nm != "dct_mode":
                K.eq("option %s" % nm, lambda nm=nm, ty=ty: float(S.ev(C.member(
                    s0, a[5], ot, nm, "f" if ty == "double" else "i"))), mem[nm])
        t = tname(prog)
        for nm in ("Ax", "Aty", "AtAx"):
            v = C.member(s0, a[6], t, nm, "p")
            if v is not C.lab.fptr(nm):
                raise Unknown("operator %s handed to the solver: %s" % (nm, show(v, 2)))
        K.check()
        x = [S.rand(("out", "newton", k)) for k in range(r * c)]
        K.term("status", ret, 0)
        K.arr("x", s, ext("x"), mvec(matrix(S, "M", r * c, r * c), x))
        result(K, s, ext("res"))
        K.arr("b kept", s, ext("b"), b)
        K.check()
    rep.ok(key + ": arguments, options, operators and result")


def result(K, s, p):
    t = typ(K.C.prog, "total_newton_iter", "total_cg_iter", "l1")
    S = K.S
    K.term("result l1", K.C.member(s, p, t, "l1", "f"), S.rand(mk("fsym", "res.l1")))
    for n in ("total_newton_iter", "total_cg_iter", "status"):
        K.term("result " + n, K.C.member(s, p, t, n, "i"), S.ints[mk("sym", "res", n, "i")])


# ------------------------------------------------------------------ Python
class Py:
    def __init__(self, rep, method, solvers, given):
        self.rep = rep
        prog = image("python")
        f = py_names(prog).get(method)
        if f is None:
            raise AnalysisBroken("Python method %s not found" % method)
        self.key = "python %s" % method
        self.C = C = Cap(prog, solvers)
        C.supply = given
        st = State()
        self.F = Fn(prog, f.name, st=st, itp=C.I, rel=f.mod["rel"])
        if len(C.parse) != 1:
            raise Unknown("%d parse calls" % len(C.parse))
        self.units, self.names, self.targets = C.parse[0]

    def keyword(self, name):
        if name not in self.names:
            self.rep.violation("%s: keyword %s" % (self.key, name), "is not accepted")
            raise Done()
        return self.names.index(name)

    def case(self, seed, arrays, vals, shape):
        """arrays: {position: (python values, item size, type number)}"""
        C = self.C
        K = Case(self.rep, self.key, C, self.F, seed)
        S = K.S
        n, m, p = shape
        K.size(n, m, p)
        if len(self.units) != len(self.names):
            self.rep.violation(self.key + ": format", "%d units for %d arguments" %
                               (len(self.units), len(self.names)))
            raise Done()
        for k, v in vals.items():
            if isinstance(k, str):
                k = self.keyword(k)
            ch = self.units[k][0]
            S.ints[mk("sym", "py", k, "i")] = v
            S.vals[mk("fsym", "py%d" % k)] = float(v)
        S.cond = self.cond
        self.arrays(S, arrays)
        return K

    def cond(self, c):
        if c.op == "sym" and c.args[0] == "parse":
            return True
        return None

    def arrays(self, S, arrays):
        for obj, args, st, w in self.C.conv:
            p = args[0]
            if p.op != "ptr" or p.args[0].args[0] != "pyarg":
                continue
            k = p.args[0].args[1]
            vals, isize, num, nd = arrays[k]
            S.ints[(obj, 24)] = len(nd)
            dims = mk("obj", "ext", obj, ic(32))
            for q, v in enumerate(nd):
                S.ints[(dims, 8 * q)] = v
            data = mk("obj", "ext", obj, ic(16))
            for q, v in enumerate(vals):
                if isize == 8:
                    S.vals[("init", data, 8 * q)] = v
                else:
                    S.ints[(data, 4 * q)] = v

    def conversions(self, K, want):
        """element type and layout of every converted argument"""
        for obj, args, st, w in self.C.conv:
            p = args[0]
            if p.op != "ptr" or p.args[0].args[0] != "pyarg" or \
                    p.args[0].args[1] not in want:
                continue
            num = want[p.args[0].args[1]]
            d = args[1]
            t = None
            if d.op == "ptr" and d.args[0].args[0] == "ext" and \
                    isinstance(d.args[0].args[1], T) and d.args[0].args[1].op == "sym" and \
                    d.args[0].args[1].args[0] == "numpy":
                t = cval(d.args[0].args[1].args[2][0])
            fl = cval(args[4])
            if t is None or fl is None:
                raise Unknown("array conversion at %s" % w)
            if t not in (num if isinstance(num, tuple) else (num,)):
                self.rep.violation("%s: element type of argument %d" %
                                   (self.key, p.args[0].args[1]), "NumPy type %d at %s" % (t, w))
                raise Done()
            if fl & 0x101 != 0x101:
                self.rep.violation("%s: layout of argument %d" %
                                   (self.key, p.args[0].args[1]),
                                   "converted without requiring a contiguous, aligned array "
                                   "(%s)" % w)
                raise Done()

    def option(self, K, label, kw, t, exp, given):
        """a solver argument that a keyword feeds; width errors of the format are reported"""
        S = K.S
        try:
            v = float(S.ev(t))
        except (Unknown, Uninit) as e:
            k = self.keyword(kw)
            ch = self.units[k][0]
            if (given is None or kw in given) and \
                    ch not in ("iI" if kw in INTS else "d"):
                self.rep.violation("%s: %s" % (self.key, kw),
                                   "is parsed with format unit %s" % ch)
                raise Done()
            if isinstance(e, Uninit):
                self.rep.violation("%s: %s" % (self.key, kw), "is not initialised")
                raise Done()
            raise Unknown("%s: %s" % (kw, e))
        K.eq(label, lambda: v, exp)

    def image(self, K, s, v, r, c, vals):
        """v is a new r by c array of doubles holding vals"""
        if v.op != "ptr":
            raise Unknown("returned object")
        o = v.args[0]
        new = [x for x in self.C.news if x[0] is o]
        if not new:
            raise Unknown("returned object is not a new array")
        _, args, st, w = new[0]
        K.term("returned ndim", args[1], 2)
        K.check()
        dims = args[2]
        for k, d in enumerate((r, c)):
            K.term("returned shape[%d]" % k, self.C.I.read(
                st, dims.args[0], padd(dims.args[1], ic(8 * k)), 8, "i"), d)
        K.term("returned type", args[3], 12)
        K.check()
        src = args[5]
        if src is not NULL:
            raise Unknown("array built on existing memory")
        al = [o] + [x[0] for x in self.C.conv if x[1][0].op == "ptr" and x[1][0].args[0] is o]
        wr = [d for d in (mk("obj", "ext", q, ic(16)) for q in al)
              if s.mem.get(d) is not None and s.mem[d].args[1]]
        if len(wr) != 1:
            raise Unknown("%d places hold the returned data" % len(wr))
        K.arr("returned image", s, ptr(wr[0], ZERO), vals)
        K.check()

    def tuple(self, K, r):
        """build arguments behind the returned object: (format, arguments)"""
        if r is NULL:
            self.rep.violation(self.key + ": valid call", "ends with an exception")
            raise Done()
        b = self.C.builds.get(r.args[0]) if r.op == "ptr" else None
        return b


FAILPY = ("l1qc_dct",)


def supplied(kws, seed):
    ks = sorted(kws)
    if seed == 0:
        return None
    if seed == 1:
        return ()
    return tuple(ks[seed % 2::2])


def draw(S, kw):
    if kw in ("dct_mode", "bp_mode"):
        return S.randint(1, 2)
    if kw == "verbose" and VERBOSE is not None:
        return loud()
    if kw in INTS:
        return S.randint(3, 90)
    return S.uniform(.1, 3)


def py_prepare(rep, method, solvers, kws, seed):
    given = supplied(kws, seed)
    P_ = Py(rep, method, solvers, given)
    for k in kws:
        P_.keyword(k)
    return P_, given


def expect(kws, given, vals):
    return {k: vals[k] if given is None or k in given else d for k, d in kws.items()}


def j_py_l1qc(rep, seed):
    P_, given = py_prepare(rep, "l1qc_dct", ("l1qc_dct",), L1QC, seed)
    prog = P_.C.prog
    ot = opts_type(prog)
    import random
    for sub in range(3):
        r = random.Random("pyl1qc/%d/%d" % (seed, sub))
        mr, mc = r.choice(((2, 3), (3, 2), (5, 1)))
        n = r.randint(1, mr * mc - 1)
        b = [r.uniform(-1, 1) for _ in range(n)]
        pix = r.sample(range(mr * mc), n)
        vals = {k: draw(r, k) for k in L1QC}
        K = P_.case("%d/%d" % (seed, sub), {2: (b, 8, 12, (n,)), 3: (pix, 4, 5, (n,))},
                    {**vals, 0: mr, 1: mc}, (n, mr * mc, None))
        S = K.S
        ret, s = S.pick(P_.F.rets)
        P_.conversions(K, {2: 12, 3: 5})
        _, a, s0, w = K.call("l1qc_dct")
        for lab, k, v in (("mrow", 0, mr), ("mcol", 1, mc), ("n", 3, n)):
            K.term("solver argument " + lab, a[k], v)
        K.arr("solver data", s0, a[4], b)
        K.arr("solver sample indices", s0, a[5], pix, 4, "i")
        exp = expect(L1QC, given, vals)
        for k, v in exp.items():
            P_.option(K, "option " + k, k, P_.C.member(
                s0, a[6], ot, REN.get(k, k), "i" if k in INTS else "f"), v, given)
        for k, v in HIDDEN.items():
            K.term("option " + k, P_.C.member(s0, a[6], ot, k, "i"), v)
        K.check()
        b_ = P_.tuple(K, ret)
        if b_ is None or b_[0] is None or b_[0].replace("(", "").replace(")", "") not in ("NN", "OO"):
            raise Unknown("returned object")
        P_.image(K, s, b_[1][1], mr, mc, [S.rand(("out", "l1qc_dct", k)) for k in range(mr * mc)])
        d = P_.C.builds.get(b_[1][2].args[0]) if b_[1][2].op == "ptr" else None
        if d is None:
            raise Unknown("result dictionary")
        fields = dictionary(P_.C.I, d)
        for nm in ("l1", "total_newton_iter", "total_cg_iter", "status"):
            if nm not in fields:
                rep.violation(P_.key + ": result field " + nm, "is missing")
                raise Done()
            ch, t = fields[nm]
            if ch not in ("d" if nm == "l1" else "i"):
                raise Unknown("format of %s" % nm)
            K.term("result " + nm, t, S.rand(mk("fsym", "res.l1")) if nm == "l1" else
                   S.ints[mk("sym", "res", nm, "i")])
        K.check()
    rep.ok(P_.key + ": options " + ("all given" if given is None else
                                    "given: " + ", ".join(given)))


def dictionary(I, d):
    fmt, a, st = d
    if not fmt or not fmt.startswith("{"):
        raise Unknown("result dictionary")
    out, k, key = {}, 1, None
    for ch in fmt:
        if ch in "{}:, ()":
            continue
        if key is None:
            if ch != "s":
                raise Unknown("dictionary key")
            key = cstr(I, st, a[k])
        else:
            out[key] = (ch, a[k])
            key = None
        k += 1
    return out


def j_py_breg(rep, seed):
    P_, given = py_prepare(rep, "breg_anistropic_TV", ("l1c_breg_anistropic_TV",), BREG, seed)
    import random
    for sub in range(3):
        r = random.Random("pybreg/%d/%d" % (seed, sub))
        n, m = r.choice(((3, 4), (4, 3), (3, 5)))
        f = [r.uniform(-1, 1) for _ in range(n * m)]
        vals = {k: draw(r, k) for k in BREG}
        K = P_.case("%d/%d" % (seed, sub), {0: (f, 8, 12, (n, m))}, vals, (1, n * m, None))
        S = K.S
        ret, s = S.pick(P_.F.rets)
        P_.conversions(K, {0: 12})
        _, a, s0, w = K.call("l1c_breg_anistropic_TV")
        K.term("solver rows", a[0], n)
        K.term("solver columns", a[1], m)
        K.arr("solver image", s0, a[3], f)
        exp = expect(BREG, given, vals)
        for k, kw in zip((4, 5, 6, 7), ("mu", "tol", "max_iter", "max_jac_iter")):
            P_.option(K, "option " + kw, kw, a[k], exp[kw], given)
        K.check()
        b_ = P_.tuple(K, ret)
        v = b_[1][1] if b_ and b_[0] in ("N", "O") else ret
        P_.image(K, s, v, n, m, [S.rand(("out", "breg", k)) for k in range(n * m)])
    rep.ok(P_.key + ": options " + ("all given" if given is None else
                                    "given: " + ", ".join(given)))


def j_py_nesta(rep, seed):
    P_, given = py_prepare(rep, "nesta_dctTV",
                           ("l1c_nesta", "l1c_setup_dctTV_transforms"), NESTA, seed)
    prog = P_.C.prog
    ot = nesta_type(prog)
    import random
    for sub in range(3):
        r = random.Random("pynesta/%d/%d" % (seed, sub))
        mr, mc = r.choice(((3, 4), (4, 3), (5, 3)))
        n = r.randint(1, mr * mc - 1)
        b = [r.uniform(-1, 1) for _ in range(n)]
        pix = r.sample(range(mr * mc), n)
        vals = {k: draw(r, k) for k in NESTA}
        K = P_.case("%d/%d" % (seed, sub), {2: (b, 8, 12, (n,)), 3: (pix, 4, 5, (n,))},
                    {**vals, 0: mr, 1: mc}, (n, mr * mc, None))
        S = K.S
        st0 = S.ints[mk("sym", "status", "l1c_nesta", "i")] = r.choice((0, 0, 32))
        ret, s = S.pick(P_.F.rets)
        P_.conversions(K, {2: 12, 3: 5})
        exp = expect(NESTA, given, vals)
        _, a, s0, w = K.call("l1c_setup_dctTV_transforms")
        for lab, k, v in (("n", 0, n), ("mrow", 1, mr), ("mcol", 2, mc)):
            K.term("set-up argument " + lab, a[k], v)
        for k, kw in ((3, "alpha_v"), (4, "alpha_h"), (5, "dct_mode"), (6, "bp_mode")):
            if exp[kw] is not None:
                P_.option(K, "option " + kw, kw, a[k], exp[kw], given)
        K.arr("set-up sample indices", s0, a[7], pix, 4, "i")
        _, a, s0, w = K.call("l1c_nesta")
        K.term("solver dimension", a[0], mr * mc)
        K.term("solver observations", a[2], n)
        K.arr("solver data", s0, a[3], b)
        for kw in ("sigma", "mu", "tol", "n_continue", "verbose"):
            P_.option(K, "option " + kw, kw, P_.C.member(
                s0, a[5], ot, kw, "i" if kw in INTS else "f"), exp[kw], given)
        K.check()
        b_ = P_.tuple(K, ret)
        if b_ is None and st0:
            continue
        if b_ is None or b_[0] is None or b_[0].replace("(", "").replace(")", "") not in ("Ni", "Oi"):
            raise Unknown("returned object")
        P_.image(K, s, b_[1][1], mr, mc, [S.rand(("out", "nesta", k)) for k in range(mr * mc)])
        K.term("returned status", b_[1][2], st0)
        K.check()
    rep.ok(P_.key + ": options " + ("all given" if given is None else
                                    "given: " + ", ".join(given)))


# ------------------------------------------------------------------ MEX
class Mex:
    """values of the MATLAB arguments: scalars, vectors, matrices and one option struct"""

    def __init__(self, rep, img, solvers):
        prog = image(img)
        self.rep, self.key = rep, img
        self.C = Cap(prog, solvers)
        need(prog, "mexFunction")
        st = State()
        self.F = Fn(prog, "mexFunction", st=st, itp=self.C.I, args={
            0: P(mk("arg", "nlhs")), 1: ext("plhs"), 2: P(mk("arg", "nrhs")), 3: ext("prhs")})

    def arg(self, k):
        return ptr(mk("obj", "ext", mk("obj", "ext", "prhs"), ic(8 * k)), ZERO)

    def case(self, seed, args, shape):
        """args: per position ("s", value) | ("v", values) | ("m", rows, cols, values) |
        ("o", {field: value})"""
        K = Case(self.rep, self.key, self.C, self.F, seed)
        S = K.S
        K.size(*shape)
        S.ints[mk("arg", "nlhs")] = 2
        S.ints[mk("arg", "nrhs")] = len(args)
        kinds = {}

        def scalar(p, v):
            kinds[p] = "s"
            S.vals[("init", mk("obj", "mxscalar", p), 0)] = float(v)
            dims(p, 1, 1)

        def dims(p, r, c):
            S.ints[mk("sym", "mxGetM", p)] = r
            S.ints[mk("sym", "mxGetN", p)] = c
            S.ints[mk("sym", "mxGetNumberOfDimensions", p)] = 2

        self.mode = None
        for k, v in enumerate(args):
            p = self.arg(k)
            if v[0] == "s":
                scalar(p, v[1])
            elif v[0] in "vm":
                kinds[p] = v[0]
                r, c, vals = (len(v[1]), 1, v[1]) if v[0] == "v" else v[1:]
                dims(p, r, c)
                for q, x in enumerate(vals):
                    S.vals[("init", mk("obj", "ext", mk("mxdata", p)), 8 * q)] = float(x)
            else:
                kinds[p] = "o"
                dims(p, 1, 1)
                for n, x in v[1].items():
                    q = ptr(mk("obj", "ext", mk("mxfield", p, n)), ZERO)
                    if isinstance(x, str):
                        self.mode = x
                    else:
                        scalar(q, x)

        def cond(c):
            if c.op == "sym" and c.args[0] in ("mxIsDouble", "mxIsInt32", "mxIsScalar",
                                               "mxIsStruct"):
                k = kinds.get(c.args[1])
                if k is not None:
                    return {"mxIsDouble": k != "o", "mxIsInt32": False, "mxIsScalar": k in "so",
                            "mxIsStruct": k == "o"}[c.args[0]]
            return None

        class Ints(dict):
            def __contains__(s_, t):
                return dict.__contains__(s_, t) or s_.look(t) is not None

            def look(s_, t):
                if isinstance(t, T) and t.op == "sym":
                    if t.args[0] == "strncmp" and isinstance(t.args[2], str) and self.mode:
                        return 0 if t.args[2] == self.mode else 1
                    if t.args[0] == "ret":
                        return 0            # mxGetString succeeded
                return None

            def __getitem__(s_, t):
                if dict.__contains__(s_, t):
                    return dict.__getitem__(s_, t)
                return s_.look(t)
        S.ints = Ints(S.ints)
        S.cond = cond
        return K

    def output(self, s, k):
        v = self.C.I.read(s, mk("obj", "ext", "plhs"), ic(8 * k), 8, "p")
        if v.op != "ptr":
            raise Unknown("output %d" % k)
        return v

    def matrix(self, K, s, k, r, c, vals):
        v = self.output(s, k)
        n = v.args[0].args[1]
        if not (isinstance(n, T) and n.op == "mxnew" and n.args[0] == "mxCreateDoubleMatrix"):
            raise Unknown("output %d" % k)
        K.term("output rows", n.args[2][0], r)
        K.term("output columns", n.args[2][1], c)
        K.arr("output", s, ptr(mk("obj", "ext", mk("mxdata", v)), ZERO), vals)
        K.check()


def j_mex_l1qc(rep):
    M = Mex(rep, "l1qc_dct_mex", ("l1qc_dct",))
    prog = M.C.prog
    ot = opts_type(prog)
    import random
    for seed in range(4):
        r = random.Random("mexl1qc/%d" % seed)
        mr, mc = r.choice(((2, 3), (3, 2), (4, 2)))
        n = r.randint(2, mr * mc - 1)
        b = [r.uniform(-1, 1) for _ in range(n)]
        pix = r.sample(range(mr * mc), n)
        opts = {k: draw(r, k) for k in tuple(L1QC) + ("tau", "warm_start_cg", "lbiter")}
        K = M.case(seed, [("s", mr), ("s", mc), ("v", b), ("v", [x + 1 for x in pix]),
                          ("o", opts)], (n, mr * mc))
        S = K.S
        ret, s = S.pick(M.F.rets)
        _, a, s0, w = K.call("l1qc_dct")
        for lab, k, v in (("mrow", 0, mr), ("mcol", 1, mc), ("n", 3, n)):
            K.term("solver argument " + lab, a[k], v)
        K.arr("solver data", s0, a[4], b)
        K.arr("solver sample indices", s0, a[5], pix, 4, "i")
        for k, v in opts.items():
            K.term("option " + k, M.C.member(s0, a[6], ot, REN.get(k, k),
                                             "i" if k in INTS else "f"), v)
        K.check()
        M.matrix(K, s, 0, mr * mc, 1, [S.rand(("out", "l1qc_dct", k)) for k in range(mr * mc)])
        res = M.output(s, 1)
        for nm in ("l1", "total_newton_iter", "total_cg_iter", "status"):
            h = [x for x in M.C.sets if x[1] == nm and x[0][0] is res and S.guard(x[2].guard)]
            if len({x[0][3] for x in h}) != 1:
                raise Unknown("result field " + nm)
            q = ptr(mk("obj", "ext", mk("mxdata", h[0][0][3])), ZERO)
            K.arr("result " + nm, s, q, [S.rand(mk("fsym", "res.l1")) if nm == "l1" else
                                         S.ints[mk("sym", "res", nm, "i")]])
        K.check()
    rep.ok(M.key)


def j_mex_nesta(rep):
    M = Mex(rep, "nesta_dctTV_mex", ("l1c_nesta", "l1c_setup_dctTV_transforms"))
    prog = M.C.prog
    ot = nesta_type(prog)
    import random
    for seed in range(5):
        r = random.Random("mexnesta/%d" % seed)
        mr, mc = r.choice(((3, 4), (4, 3)))
        n = r.randint(2, mr * mc - 1)
        b = [r.uniform(-1, 1) for _ in range(n)]
        pix = r.sample(range(mr * mc), n)
        opts = {k: draw(r, k) for k in NESTA}
        opts["bp_mode"] = ("analysis", "synthesis")[seed % 2]
        K = M.case(seed, [("s", mr), ("s", mc), ("v", b), ("v", [x + 1 for x in pix]),
                          ("o", opts)], (n, mr * mc))
        S = K.S
        ret, s = S.pick(M.F.rets)
        _, a, s0, w = K.call("l1c_setup_dctTV_transforms")
        for k, v in enumerate((n, mr, mc, opts["alpha_v"], opts["alpha_h"], opts["dct_mode"],
                               1 + seed % 2)):
            K.term("set-up argument %d" % k, a[k], v)
        K.arr("set-up sample indices", s0, a[7], pix, 4, "i")
        _, a, s0, w = K.call("l1c_nesta")
        K.term("solver dimension", a[0], mr * mc)
        K.term("solver observations", a[2], n)
        K.arr("solver data", s0, a[3], b)
        for kw in ("sigma", "mu", "tol", "n_continue", "verbose"):
            K.term("option " + kw, M.C.member(s0, a[5], ot, kw, "i" if kw in INTS else "f"),
                   opts[kw])
        K.check()
        x = [S.rand(("out", "nesta", k)) for k in range(mr * mc)]
        M.matrix(K, s, 0, mr, mc, mvec(matrix(S, "M", mr * mc, mr * mc), x))
    rep.ok(M.key)


def j_mex_breg(rep):
    M = Mex(rep, "breg_anistropic_TV_mex", ("l1c_breg_anistropic_TV",))
    import random
    for seed in range(4):
        r = random.Random("mexbreg/%d" % seed)
        n, m = r.choice(((3, 4), (5, 3)))
        f = [r.uniform(-1, 1) for _ in range(n * m)]
        mu, tol, it = r.uniform(.1, 3), r.uniform(.1, 3), r.randint(3, 90)
        K = M.case(seed, [("m", n, m, f), ("s", mu), ("s", tol), ("s", it)], (1, n * m))
        S = K.S
        S.ints[mk("arg", "nlhs")] = 1
        ret, s = S.pick(M.F.rets)
        _, a, s0, w = K.call("l1c_breg_anistropic_TV")
        # MATLAB is column major: the transposed image, m rows of length n
        K.term("solver rows", a[0], m)
        K.term("solver columns", a[1], n)
        K.arr("solver image", s0, a[3], f)
        for k, v in ((4, mu), (5, tol), (6, it), (7, 1)):
            K.term("solver argument %d" % k, a[k], v)
        K.check()
        M.matrix(K, s, 0, n, m, [S.rand(("out", "breg", k)) for k in range(n * m)])
    rep.ok(M.key)


JOBS = [("l1qc", None), ("mex_l1qc", None), ("mex_nesta", None), ("mex_breg", None)] + [(j, s) for j in ("py_l1qc", "py_breg", "py_nesta") for s in range(4)]


def job(a):
    rep = Report("C14", "quick")
    j, s = a
    try:
        fn = globals()["j_" + j]
        fn(rep) if s is None else fn(rep, s)
    except (Unknown, absint.Blowup) as e:
        rep.undecided("%s %s" % (j, s), str(e))
    except Done:
        pass
    return rep.data()


def run(rep):
    rep.rule = RULE
    pmap(job, JOBS, rep)
