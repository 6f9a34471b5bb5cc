"""C06: no access outside the memory it belongs to."""
import itertools
import random

import bounds
from lab import *
from common import Report, pmap, MEX
from c17 import scen as transforms, OPN, setpix

RULE = ("Abstract interpretation with every buffer an object of symbolic extent: arrays the "
        "caller passes have the documented length, arrays the library allocates the length it "
        "asked for, locals and globals their declared size. Every load, store, copy, BLAS, "
        "FFTW and callback access, in every function reached from the scenario, gives an "
        "offset and a length as integer terms in the sizes and loop iterations; "
        "0 <= offset and offset + length <= extent is discharged for all sizes by eliminating "
        "variables against the bounds known on the path. What is not discharged is "
        "instantiated at small sizes: an access on a consistent path that is out of bounds "
        "there is a violation, otherwise the access counts as undecided.")
am, an, ap = mk("arg", "m"), mk("arg", "n"), mk("arg", "p")


def spy(I, ext):
    B = bounds.Bounds(ext)
    I.listeners.append(B)
    return B


class Round(Sample):
    """rounded floating point values are some small count"""

    def int(self, t):
        return 2 if t.op == "f2i" else Sample.int(self, t)


def samples(I, dims, prep=None, cls=Sample):
    """thunks for valuations; dims: [{atom: value}]"""
    out = []
    for q, d in enumerate(dims):
        def mkS(d=d, q=q):
            S = cls(I, "c06/%d" % q, dict(d))
            S.ops.update(numeval.OPS)
            if prep:
                prep(S, d)
            return S
        out.append(mkS)
    return out


def grid(atoms, *vals):
    vals = vals if len(vals) == len(atoms) else vals * len(atoms)
    return [dict(zip(atoms, v)) for v in itertools.product(*vals)]


NV = (1, 2, 3, 4, 5, 7, 8, 9, 12, 13)


def simple(rep, prog, name, lens, lo=1, vals=NV, rel=None, pre=None, key=None):
    """lens: argument position -> function of the argument vector giving the element count"""
    key = key or name
    f = prog.find(name, rel) or prog.find(name)
    if f is None:
        rep.undecided(key, "not found")
        return
    I = Itp(prog, numeric=True)
    B = spy(I, {})

    def facts(F, av, s):
        for k, a in enumerate(f.args):
            if av[k].op == "p":
                I.addiv(s, av[k], lo, None)
        for k, n in lens.items():
            B.ext[av[k].args[0]] = pscale(n(av), 8)
        return pre(av) if pre else ()
    F = Fn(prog, name, facts=facts, itp=I, rel=rel)
    ints = [patom(x) for x in F.av if x.op == "p"]
    bounds.decide(rep, key, I, B, samples(I, grid(ints, tuple(v for v in vals if v >= lo))))


N0 = lambda a: P(a[0])
NM = lambda a: pmul(P(a[0]), P(a[1]))
KER = {"__l1c_daxpby": (2, 4), "l1c_daxpby_z": (2, 4, 5), "l1c_daxpy_z": (2, 3, 4),
       "l1c_dnorm1": (1,), "l1c_dsum": (1,), "l1c_init_vec": (1,), "l1c_abs_vec": (1, 2),
       "l1c_dlogsum": (2,), "l1c_dnrm2_err": (1, 2), "l1c_dnrm2_rel_err": (1, 2),
       "l1c_dxmuly_z": (1, 2, 3), "l1c_max_vec": (1,)}
VCL = {"vcl_sum": (1,), "vcl_logsum": (2,), "vcl_dxMy_pz": (1, 2, 3)}


def j_kernels(rep):
    for n, ps in KER.items():
        simple(rep, image("lib"), n, {p: N0 for p in ps})


def j_vcl(rep):
    for n, ps in VCL.items():
        simple(rep, image("lib"), n, {p: N0 for p in ps})


def j_tv(rep):
    for n in ("Dx", "DxT", "DxTDx", "Dy", "DyT", "DyTDy"):
        simple(rep, image("lib"), "l1c_" + n, {3: NM, 4: NM}, lo=2, vals=(1, 2, 3, 4, 6))


BREG = {"breg_shrink1": ({1: N0, 2: N0}, 1), "breg_mxpy_z": ({1: N0, 2: N0, 3: N0}, 1),
        "breg_anis_guass_seidel": ({2: NM, 3: NM}, 2),
        "breg_anis_jacobi": ({2: NM, 3: NM, 4: NM, 5: NM}, 2),
        "breg_anis_rhs": ({k: NM for k in range(2, 8)}, 2), "hess_inv_diag": ({4: NM}, 2)}


def j_breg(rep):
    import c21
    prog = image("lib")
    tab = c21.table(prog)
    for which, (lens, lo) in BREG.items():
        if which not in tab:
            rep.undecided(which, "not in the table")
            continue
        rel, _, fn = tab[which].rpartition("::")
        f = prog.find(fn, rel or None)
        lens = {k: v for k, v in lens.items() if f.args[k]["ty"] == "ptr"}
        simple(rep, prog, fn, lens, lo=lo, vals=(1, 2, 3, 4, 6), rel=rel or None, key=which)
    simple(rep, prog, "l1c_breg_anistropic_TV", {2: NM, 3: NM}, lo=0, vals=(0, 1, 2, 3, 4))


def j_fifo(rep):
    """the ring buffer of objective values: pushes from the fresh buffer until its state
    (position, count) repeats, so for any number of pushes"""
    prog = image("lib")
    new, push = prog.find("_l1c_new_fmean_fifo"), prog.find("_l1c_push_fmeans_fifo")
    if new is None or push is None or not new.args or not new.args[0].get("sret") or \
            len(push.args) != 2:
        raise Unknown("ring buffer functions")
    I = Itp(prog, numeric=True)
    o = mk("obj", "ext", "fifo")
    B = spy(I, {})
    st = State()
    st.facts[mk("nul", o)] = False
    new.prepare()
    push.prepare()
    rets = I.call(new, [ptr(o, ZERO)], st, mk("ctx", TOPCTX, new.key, 0))
    todo = [s for _, s in rets if any(r[0] == "live" and s.facts.get(mk("nul", h)) is not True
                                      for h, r in s.res.items())]
    if len(todo) != 1:
        raise Unknown("%d ways to make the buffer" % len(todo))
    s, seen, n = todo[0], set(), 0
    for h in s.res:
        s.facts[mk("nul", h)] = False
    while n < 100:
        c = s.mem.get(o)
        cells = tuple((k, I.read(s, o, ic(k), sz, kd)) for k, sz, kd in
                      [(m[0], m[1], "p" if m[1] == 8 else "i") for m in
                       prog.types["l1c_fmean_fifo"]["members"]])
        if cells in seen:
            break
        seen.add(cells)
        s.guard = absint.TRUE_G
        r = I.call(push, [ptr(o, ZERO), mk("fsym", "f%d" % n)], s,
                   mk("ctx", TOPCTX, push.key, n))
        if len(r) != 1:
            raise Unknown("%d results of a push" % len(r))
        s = r[0][1]
        n += 1
    else:
        raise Unknown("the ring buffer does not come round")
    bounds.decide(rep, "ring buffer", I, B, samples(I, [{}]))
    rep.ok("ring buffer: state repeats after %d pushes" % n)


# ------------------------------------------------------------------ iterative solvers
def j_cg(rep):
    import c11
    for name, pre in (("l1c_cgsolve", False), ("l1c_cgsolve_diag_precond", True)):
        ext = {mk("obj", "ext", x): pscale(P(c11.aN), 8) for x in
               ["x", "b", "Minv"] + ["wk%d" % j for j in range(5 if pre else 4)]}
        ext[mk("obj", "ext", "work")] = ic(8 * (5 if pre else 4))
        I, B = open_(lambda: c11.scene(name, pre), ext)
        bounds.decide(rep, name, I, B, samples(I, grid((c11.aN, c11.aK, c11.aV), (1, 2, 5),
                                                       (0, 1, 3), (0, 3))))


def open_(make, ext):
    """run a scene of another check without open loops, with bounds recorded"""
    got = {}
    old = Lab.itp

    def itp(self):
        I = old(self)
        got["I"] = I
        got["B"] = spy(I, ext)
        I.__class__ = Closed
        return I
    Lab.itp = itp
    try:
        make()
    finally:
        Lab.itp = old
    return got["I"], got["B"]


class Closed(Itp):
    @property
    def openloops(self):
        return False

    @openloops.setter
    def openloops(self, v):
        pass


def j_ls(rep):
    import c10
    for name, nv in (("l1c_linesearch", 1), ("l1c_linesearch_xu", 2)):
        ext = {mk("obj", "ext", x): pscale(P(c10.am), 8) for x in
               ["x", "u", "dx", "du"] + ["wk0", "wk1"]}
        ext[mk("obj", "ext", "work")] = ic(16) if nv == 2 else pscale(P(c10.am), 8)
        I, B = open_(lambda: c10.scene(name, nv, False), ext)
        bounds.decide(rep, name, I, B, samples(I, grid((c10.am,), (1, 2, 5))))


def solver_scene(rep, name, args, opts, more=None, dims=None, lab=None, pre=None):
    prog = image("lib")
    lab = lab or Lab(prog, dims)
    I = lab.itp()
    B = spy(I, {})
    st = State()
    a = args(lab, I, st, B)
    for x in (am, an, ap):
        I.addiv(st, P(x), 1, None)
    I.addiv(st, psub(P(am), P(an)), 0, None)         # documented: n < m
    F = Fn(prog, name, st=st, itp=I, args=a)
    return I, B, F


def j_newton(rep):
    prog = image("lib")
    f = need(prog, "l1c_l1qc_newton")
    if len(f.args) != 7 or not f.args[0].get("sret"):
        raise Unknown("unexpected signature")
    import c19

    def args(lab, I, st, B):
        for o in ("out", "x", "b", "opts", "ax"):
            st.facts[mk("nul", mk("obj", "ext", o))] = False
        O = mk("obj", "ext", "opts")
        vals = {k: P(mk("arg", k)) for k in c19.OI}
        vals.update({k: mk("fsym", k) for k in c19.OF[1:]})
        vals.update(verbose=P(mk("arg", "verbose")), cg_verbose=P(mk("arg", "cgv")),
                    tau=mk("fsym", "tau_in"))
        lab.build(I, st, O, c19.LBO, vals)
        lab.table(I, st, mk("obj", "ext", "ax"), "l1c_AxFuns")
        lab.build(I, st, mk("obj", "ext", "ax"), "l1c_AxFuns",
                  {"n": P(an), "m": P(am), "p": P(ap), "q": P(am), "norm_W": mk("fsym", "nw")})
        B.ext[mk("obj", "ext", "x")] = pscale(P(am), 8)
        B.ext[mk("obj", "ext", "b")] = pscale(P(an), 8)
        for n, t in (("opts", c19.LBO), ("out", "l1c_LBResult"), ("ax", "l1c_AxFuns")):
            B.ext[mk("obj", "ext", n)] = ic(prog.types[t]["size"])
        return {0: ext("out"), 1: P(am), 2: ext("x"), 3: P(an), 4: ext("b"), 5: ext("opts"),
                6: ext("ax")}
    I, B, F = solver_scene(rep, "l1c_l1qc_newton", args, None, dims={"A": (P(an), P(am))})
    at = [am, an] + [mk("arg", k) for k in ("lbiter", "newton_max_iter", "cg_maxiter",
                                            "warm_start_cg", "verbose", "cgv")]
    bounds.decide(rep, "l1c_l1qc_newton", I, B, samples(I, grid(
        at, (2, 5), (1, 2), (0, 1, 2), (1, 2), (0, 2), (0, 1, 2), (0, 3), (0, 1)), cls=Round))


def j_nesta(rep):
    import c20
    prog = image("lib")

    def args(lab, I, st, B):
        for o in ("xk", "b"):
            st.facts[mk("nul", mk("obj", "ext", o))] = False
        c20.options(lab, I, st)
        c20.axfuns(lab, I, st)
        B.ext[mk("obj", "ext", "xk")] = pscale(P(am), 8)
        B.ext[mk("obj", "ext", "b")] = pscale(P(an), 8)
        B.ext[mk("obj", "ext", "opts")] = ic(prog.types["l1c_NestaOpts"]["size"])
        B.ext[mk("obj", "ext", "ax")] = ic(prog.types["l1c_AxFuns"]["size"])
        return {0: P(am), 1: ext("xk"), 2: P(an), 3: ext("b"), 4: ext("ax"), 5: ext("opts")}
    I, B, F = solver_scene(rep, "l1c_nesta", args, None, dims={
        "A": (P(an), P(am)), "W": (P(am), P(ap)), "R": (P(an), P(am)), "M": (P(am), P(am))})
    # pushes into the ring buffer are decided in the scenario of their own
    B.acc = [a for a in B.acc if not a.fn.endswith("_l1c_push_fmeans_fifo")]
    bounds.decide(rep, "l1c_nesta", I, B, samples(I, grid(
        (am, an, ap, c20.ncon, c20.verb), (2, 5), (1, 2), (1, 2, 9), (1, 3), (0, 2))))


def j_l1qc(rep):
    """the one-call solver with opaque operators and an opaque Newton solver"""
    import c14
    prog = image("lib")
    f = need(prog, "l1qc_dct")
    if len(f.args) != 8:
        raise Unknown("signature")

    class C(c14.Cap):
        def setup(self, I, st, a):
            # the operators of this call's shape
            n, q = P(a[0]), pmul(P(a[1]), P(a[2]))
            self.lab.dims.update(A=(n, q), M=(q, q))
            models.access(I, st, None, a[4], n, "load", "i", 4)
            c14.Cap.setup(self, I, st, a)

        def m_l1c_l1qc_newton(self, I, st, inst, a, cctx, f):
            models.access(I, st, inst, a[2], P(a[1]), "store")
            models.access(I, st, inst, a[4], P(a[3]), "load")
            return c14.Cap.m_l1c_l1qc_newton(self, I, st, inst, a, cctx, f)
    K = C(prog, ("l1c_setup_dct_transforms", "l1c_l1qc_newton"))
    B = spy(K.I, {})
    st = State()
    args = {}
    names = ("mrow", "mcol", "x", "n", "b", "pix", "opts", "res")
    for k, n in enumerate(names):
        if f.args[k]["ty"] == "ptr":
            args[k] = ext(n)
            st.facts[mk("nul", mk("obj", "ext", n))] = False
        else:
            args[k] = P(mk("arg", n))
            K.I.addiv(st, args[k], 1, None)
    B.ext[mk("obj", "ext", "x")] = pscale(pmul(args[0], args[1]), 8)
    B.ext[mk("obj", "ext", "b")] = pscale(args[3], 8)
    B.ext[mk("obj", "ext", "pix")] = pscale(args[3], 4)
    B.ext[mk("obj", "ext", "opts")] = ic(prog.types[c14.opts_type(prog)]["size"])
    B.ext[mk("obj", "ext", "res")] = ic(prog.types["l1c_LBResult"]["size"])
    # fewer observations than unknowns is what the interface asks for
    for c in (mk("cmp", "sle", args[3], pmul(args[0], args[1])),):
        if not K.I.assume(st, c, True):
            raise Unknown("precondition")
    Fn(prog, "l1qc_dct", st=st, itp=K.I, args=args)
    at = [mk("arg", n) for n in ("mrow", "mcol", "n")]

    def prep(S, d):
        S.ints[mk("sym", "status", "setup", "i")] = 0
        S.ints[mk("sym", "res", "status", "i")] = 0
    bounds.decide(rep, "l1qc_dct", K.I, B, samples(K.I, [
        d for d in grid(at, (1, 2, 3), (1, 2, 3), (1, 2, 5)) if d[at[2]] <= d[at[0]] * d[at[1]]],
        prep))


# ------------------------------------------------------------------ transforms
def j_transform(rep, name, k, first):
    label, facts, insts = transforms()[name][k]
    prog = image("lib")
    key0 = name + (" [%s]" % label if label else "")
    I = Itp(prog, numeric=True)
    f = need(prog, name)
    B = spy(I, {})
    fl = []
    for pos, v in facts.items():
        fl.append(lambda av, pos=pos, v=v: mk("cmp", "eq", av[pos], ic(v)))
    if name == "l1c_setup_dctTV_transforms":
        al = insts[0][0]
        for pos in (3, 4):
            fl.append(lambda av, pos=pos: mk("fcmp", "ogt" if al[pos] > 0 else "oeq", av[pos],
                                             fc(0.0)))
    pobj = None

    def sizes(av):
        nonlocal pobj
        ints = [x for x in av if x.op == "p"]
        o = next(x.args[0] for x in av[:-1] if x.op == "ptr")
        if "matrix" in name:
            B.ext[o] = pscale(pmul(P(av[0]), P(av[1])), 8)
        else:
            B.ext[o] = pscale(P(av[0]), 4)
            pobj = o
        B.ext[av[-1].args[0]] = ic(prog.types[tname(prog)]["size"])
        return TRUE
    TRUE = mk("cmp", "eq", ZERO, ZERO)
    st = State()
    direct = name in ("l1c_dct1_setup", "l1c_dct2_setup")
    ip = [k for k, a in enumerate(f.args) if a["ty"] not in ("ptr", "double")]
    if direct:
        # the internal constructors get indices that were checked before
        f.prepare()
        A = [P(mk("arg", "%s_a%d" % (name, k))) for k in range(len(f.args))]
        o = mk("obj", "ext", "%s_p%d" % (name, len(f.args) - 2))
        bv = mk("bv", "pre")
        x = P(mk("init", o, pscale(P(bv), 4), 4, "i"))
        tot = A[1] if name == "l1c_dct1_setup" else pmul(A[1], A[2])
        st.facts[mk("forall", bv, A[0], x)] = (0, None)
        st.facts[mk("forall", bv, A[0], psub(tot, x))] = (1, None)
        for k in ip:
            I.addiv(st, A[k], 1 if k == 0 or name == "l1c_dct1_setup" else 2, None)
    rets, av, tobj = run_setup(I, f, st=st, facts=[sizes] + fl)
    insts = [i for i, w in insts]

    def val(extra=()):
        out = []
        for q, params, wild in [(q, p, w) for w in (None, 0, 1) for q, p in enumerate(insts)]:
            if wild is not None and (pobj is None or direct):
                continue          # the internal constructors get checked indices

            def mkS(params=params, q=q, wild=wild):
                S = Sample(I, "c06/%d" % q, {patom(av[p]): v for p, v in params.items()
                                             if not isinstance(v, float)})
                S.ops.update(numeval.OPS)
                for p, v in params.items():
                    if isinstance(v, float):
                        S.vals[av[p]] = v
                if pobj is not None:
                    tot = params[1] * params.get(2, 1)
                    n = params[0]
                    pix = random.Random(q).sample(range(tot), min(n, tot))
                    pix[-1] = tot - 1
                    if wild is not None:     # an index array the set-up has to refuse
                        S.strict = True
                        pix[-1] = -1 if wild else tot

                    def get(off, size, kind):
                        if off % size or not (0 <= off // size < n):
                            raise Unknown("index array out of range")
                        return pix[off // size]
                    S.arr[pobj] = get
                return S
            out.append(mkS)
        return out
    if not first:
        bounds.decide(rep, key0 + ": set-up", I, B, val())
    B.acc = []
    good = [(r, s) for r, s in rets if zero_ret(I, s, r) is not False]
    for r, s in good:
        t = table(prog, I, s, tobj)
        for op in OPN:
            B.acc = []
            if t[op].op != "fptr":
                rep.undecided("%s: %s" % (key0, op), "operator missing")
                continue
            g = I._bykey(t[op].args[0])
            nin, nout = {"Ax": "mn", "Aty": "nm", "AtAx": "mm", "Mx": "mq", "Mty": "qm",
                         "Wz": "pq", "Wtx": "qp", "Rx": "qn", "Rty": "nq"}[op]
            s2 = s.copy()
            a = []
            for w, dim in (("in", nin), ("out", nout)):
                o = mk("obj", "ext", "%s_%s" % (op, w))
                s2.facts[mk("nul", o)] = False
                B.ext[o] = pscale(P(t[dim]), 8)
                a.append(ptr(o, ZERO))
            s2.guard = absint.TRUE_G
            I.call(g, a, s2, mk("ctx", TOPCTX, op, 0))
            for x in B.acc:           # the set-up must have succeeded this way
                x.guard = absint.g_mul(s.guard, x.guard)
            bounds.decide(rep, "%s: %s" % (key0, op), I, B, val())


# ------------------------------------------------------------------ language interfaces
def capture(prog, solvers):
    """interpreter with the solvers replaced by accesses to what they document to access"""
    import c14

    def acc(spec, f_):
        def w(m):
            def model(I, st, inst, a, cctx, f):
                s0 = st
                if f_ == "l1c_nesta":
                    # it returns at once unless the size is that of the operators
                    s0 = st.copy()
                    if not I.assume(s0, mk("cmp", "eq", P(a[0]), P(mk("arg", "_m"))), True,
                                    True):
                        return m(I, st, inst, a, cctx, f)
                for k, n, what, size in spec(a):
                    models.access(I, s0, inst, a[k], n, what, "f" if size == 8 else "i", size)
                return m(I, st, inst, a, cctx, f)
            return model
        return w
    SPEC = {
        "l1qc_dct": lambda a: [(2, pmul(P(a[0]), P(a[1])), "store", 8), (4, P(a[3]), "load", 8),
                               (5, P(a[3]), "load", 4)],
        "l1c_breg_anistropic_TV": lambda a: [(2, pmul(P(a[0]), P(a[1])), "store", 8),
                                             (3, pmul(P(a[0]), P(a[1])), "load", 8)],
        "l1c_nesta": lambda a: [(1, P(a[0]), "store", 8), (3, P(a[2]), "load", 8)],
        "l1c_setup_dctTV_transforms": lambda a: [(7, P(a[0]), "load", 4)],
        "l1c_setup_dct_transforms": lambda a: [(4, P(a[0]), "load", 4)]}
    C = c14.Cap(prog, solvers)
    for s in solvers:
        C.lab.mdl[s] = acc(SPEC[s], s)(C.lab.mdl[s])
    old = C.setup

    def setup(I, st, a):
        if len(a) > 5:                     # the operators of this call's shape
            q = pmul(P(a[1]), P(a[2]))
            m = P(mk("arg", "_m"))
            C.lab.dims.update(A=(P(a[0]), m), M=(q, m))
        old(I, st, a)
    C.setup = setup
    return C


ESIZE = {12: 8, 5: 4, 6: 4, 7: 8, 8: 8, 11: 4}


class IfBounds(bounds.Bounds):
    """extents of MATLAB and NumPy arrays"""

    def __init__(self, C):
        bounds.Bounds.__init__(self)
        self.C = C

    def dims(self, I, st, o):
        """[dimension terms], element size of a NumPy array object"""
        for obj, args, s0, w in self.C.news:
            if obj is o:
                nd, d, ty = cval(args[1]), args[2], cval(args[3])
                if nd is None or d.op != "ptr" or ty not in ESIZE:
                    return None
                return [I.read(s0, d.args[0], padd(d.args[1], ic(8 * k)), 8, "i")
                        for k in range(nd)], ESIZE[ty]
        for obj, args, s0, w in self.C.conv:
            if obj is not o:
                continue
            d = args[1]
            t = None
            if d.op == "ptr" and d.args[0].args[0] == "ext" and \
                    isinstance(d.args[0].args[1], T) and d.args[0].args[1].op == "sym" and \
                    d.args[0].args[1].args[0] == "numpy":
                t = cval(d.args[0].args[1].args[2][0])
            if t not in ESIZE:
                return None
            if args[0].op == "ptr" and args[0].args[0].args[0] == "heap":
                r = self.dims(I, st, args[0].args[0])
                return (r[0], ESIZE[t]) if r else None
            nd = I.read(st, o, ic(24), 4, "i")
            lo, hi = I.interval(st, nd)
            if lo is None or lo != hi:
                return None
            do = mk("obj", "ext", o, ic(32))
            out = []
            for k in range(lo):
                v = I.read(st, do, ic(8 * k), 8, "i")
                I.addiv(st, v, 0, None)
                out.append(v)
            return out, ESIZE[t]
        return None

    def extent(self, I, st, o):
        a = o.args
        if a[0] == "ext" and isinstance(a[1], T) and a[1].op == "mxdata":
            p = a[1].args[0]
            b = p.args[0].args[1] if p.op == "ptr" and len(p.args[0].args) > 1 else None
            if isinstance(b, T) and b.op == "mxnew":
                r = b.args[2]
                return pscale(pmul(P(r[0]), P(r[1])), 8) if b.args[0].endswith("Matrix") \
                    else ic(8)
            M, N = (P(mk("sym", n, p)) for n in ("mxGetM", "mxGetN"))
            for x in (M, N):
                I.addiv(st, x, 0, None)
            return pscale(pmul(M, N), 8)
        if a[0] == "ext" and len(a) == 3 and isinstance(a[1], T) and a[1].op == "obj" and \
                a[1].args[0] == "heap" and str(a[1].args[2]).startswith("numpy"):
            if cval(a[2]) == 32:
                if str(a[1].args[2]) == "numpy93":
                    return None
                nd = I.read(st, a[1], ic(24), 4, "i")
                I.addiv(st, nd, 0, None)
                return pscale(P(nd), 8)
            if cval(a[2]) == 16:
                r = self.dims(I, st, a[1])
                if r is None:
                    return None
                n = ic(r[1])
                for d in r[0]:
                    n = pmul(n, P(d))
                return n
        return bounds.Bounds.extent(self, I, st, o)


def isfree(t):
    """values the caller of an interface, or the machine it runs on, may choose"""
    if t.op == "obj":
        return t.args[0] in ("ext", "pyarg") or t.args[0] == "heap" and \
            str(t.args[2]).startswith("numpy")
    return t.op in ("sym", "arg")


def loose(I, count):
    return [lambda q=q: bounds.Free(I, "if/%d" % q, isfree) for q in range(count)]


IFACE = [("python", "l1qc_dct", ("l1qc_dct",)),
         ("python", "breg_anistropic_TV", ("l1c_breg_anistropic_TV",)),
         ("python", "nesta_dctTV", ("l1c_nesta", "l1c_setup_dctTV_transforms")),
         ("l1qc_dct_mex", None, ("l1qc_dct",)),
         ("nesta_dctTV_mex", None, ("l1c_nesta", "l1c_setup_dctTV_transforms")),
         ("breg_anistropic_TV_mex", None, ("l1c_breg_anistropic_TV",))]


def j_iface(rep, img, method, solvers):
    prog = image(img)
    C = capture(prog, solvers)
    B = IfBounds(C)
    C.I.listeners.append(B)
    st = State()
    if method:
        f = py_names(prog).get(method)
        if f is None:
            raise Unknown("method %s" % method)
        Fn(prog, f.name, st=st, itp=C.I, rel=f.mod["rel"])
    else:
        for x in ("nlhs", "nrhs"):
            C.I.addiv(st, P(mk("arg", x)), 0, None)
        B.ext[mk("obj", "ext", "prhs")] = pscale(P(mk("arg", "nrhs")), 8)
        # MATLAB always has room for one output
        B.ext[mk("obj", "ext", "plhs")] = padd(ic(8), pscale(P(mk(
            "max0", psub(P(mk("arg", "nlhs")), ONE))), 8))
        Fn(prog, "mexFunction", st=st, itp=C.I, args={
            0: P(mk("arg", "nlhs")), 1: ext("plhs"), 2: P(mk("arg", "nrhs")), 3: ext("prhs")})
    bounds.decide(rep, "%s %s" % (img, method or ""), C.I, B, loose(C.I, 40))
    rep.count("objects of unknown extent", len({o for _, o in B.unbounded}))


JOBS = [("iface",) + x for x in IFACE] + [("kernels",), ("vcl",), ("tv",), ("breg",), ("cg",), ("ls",), ("fifo",), ("newton",), ("nesta",),
        ("l1qc",)] + [("transform", n, k, None) for n, sc in transforms().items()
                      for k in range(len(sc))]


def job(a):
    rep = Report("C06", "quick")
    try:
        globals()["j_" + a[0]](rep, *a[1:])
    except (Unknown, absint.Blowup) as e:
        rep.undecided(" ".join(map(str, a)), str(e))
    return rep.data()


def run(rep):
    rep.rule = RULE
    rep.assume = ["vectors handed to the library have the documented lengths, options and "
                  "operator tables are well-formed, operators supplied by the caller stay within "
                  "the sizes in their table",
                  "FFTW, BLAS and libc access exactly the ranges their interfaces document",
                  "sizes are small enough that index arithmetic does not overflow"]
    pmap(job, JOBS, rep)
