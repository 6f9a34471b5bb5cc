"""Effects of everything the analysed code calls but does not define (libc, BLAS, FFTW,
cJSON, Python/NumPy, MEX) and of the library's allocation primitives.

model(I, st, inst, args, cctx, f) -> [(return value, state)]
A resource is st.res[obj] = (state, kind, size, site), state in live/freed/unk.
"""
import terms as tm
from terms import (T, mk, ic, cval, P, padd, psub, pmul, pscale, ptr, ptradd, fc, fop, NULL,
                   UNDEF, FU, ZERO, ONE, patom, free, pdivc)
from absint import TRUE_G

MODELS = {}


def model(*names):
    def d(fn):
        for n in names:
            MODELS[n] = fn
        return fn
    return d


def sym(cctx, what, kind="i"):
    if kind == "i":
        return P(mk("sym", what, cctx))
    if kind == "c":
        return mk("sym", what, cctx)
    return FU


def access(I, st, inst, p, n, what, kind="f", elem=8, align=None):
    """a callee reads/writes n elements behind p"""
    if p.op != "ptr":
        I.emit("badptr", st, inst, p=p, what=what)
        return None
    I.emit("access", st, inst, obj=p.args[0], off=p.args[1], size=elem, what=what, ptr=p,
           kind=kind, count=n, align=align)
    return p.args


# --------------------------------------------------------------------- allocation
def alloc(I, st, inst, cctx, kind, how, size, base):
    o = mk("obj", "heap", cctx, how)
    st.mem[o] = mk("content", mk(base, o), ())
    st.res[o] = ("live", kind, size, I.where(inst))
    st.facts.pop(mk("nul", o), None)
    I.emit("alloc", st, inst, obj=o, kind=kind, size=size)
    return ptr(o, ZERO)


@model("malloc")
def m_malloc(I, st, inst, a, cctx, f):
    return [(alloc(I, st, inst, cctx, "malloc", "malloc", P(a[0]), "undefc"), st)]


@model("calloc")
def m_calloc(I, st, inst, a, cctx, f):
    return [(alloc(I, st, inst, cctx, "malloc", "calloc", pmul(P(a[0]), P(a[1])), "zero"), st)]


@model("aligned_alloc", "memalign")
def m_aalloc(I, st, inst, a, cctx, f):
    p = alloc(I, st, inst, cctx, "malloc", "aligned_alloc", P(a[1]), "undefc")
    I.emit("aligned", st, inst, obj=p.args[0], align=a[0])
    return [(p, st)]


@model("posix_memalign")
def m_pmemalign(I, st, inst, a, cctx, f):
    bad = st.copy()
    out = [(ic(12), bad)]
    bad.mon["fail"] = "malloc"
    p = alloc(I, st, inst, cctx, "malloc", "posix_memalign", P(a[2]), "undefc")
    st.facts[mk("nul", p.args[0])] = False
    I.emit("aligned", st, inst, obj=p.args[0], align=a[1])
    if a[0].op == "ptr":
        I.write(st, a[0].args[0], a[0].args[1], 8, p)
    if I.numeric:                # two branches of one outcome
        c = mk("sym", "memalign", cctx)
        I.assume(st, c, True)
        I.assume(bad, c, False)
    return out + [(ZERO, st)]


@model("l1c_malloc_double")
def m_l1cm(I, st, inst, a, cctx, f):
    return [(alloc(I, st, inst, cctx, "l1c", "l1c_malloc", pscale(P(a[0]), 8), "undefc"), st)]


@model("l1c_calloc_double")
def m_l1cc(I, st, inst, a, cctx, f):
    return [(alloc(I, st, inst, cctx, "l1c", "l1c_calloc", pscale(P(a[0]), 8), "zero"), st)]


@model("l1c_malloc_double_2D")
def m_l1c2(I, st, inst, a, cctx, f, how="malloc2D"):
    p = alloc(I, st, inst, cctx, "l1c2d", how, pscale(P(a[0]), 8), "rows")
    r = st.res[p.args[0]]
    st.res[p.args[0]] = r + (P(a[1]),)
    return [(p, st)]


@model("l1c_calloc_double_2D")
def m_l1c2c(I, st, inst, a, cctx, f):
    return m_l1c2(I, st, inst, a, cctx, f, "calloc2D")


def release(I, st, inst, p, kind, cctx, f, what):
    if p is NULL:
        return
    if p is UNDEF or p.op != "ptr":
        I.emit("release", st, inst, obj=None, p=p, problem="undef", what=what)
        return
    o, off = p.args
    if I.isnull(st, p) is True:
        return
    r = st.res.get(o)
    if o.args[0] in ("alloca", "glob", "byval", "row") or (r and cval(off) != 0):
        I.emit("release", st, inst, obj=o, p=p, problem="notheap", what=what)
        return
    if r is None:
        I.emit("release", st, inst, obj=o, p=p, problem="foreign", what=what)
        st.res[o] = ("freed", kind, None, I.where(inst))
        if o.args[0] == "ext" and isinstance(o.args[1], T) and o.args[1].op != "init":
            # a pointer picked at run time (an array of pointers, say): any of ours
            for q, x in st.res.items():
                if x[0] == "live" and x[1] == kind:
                    st.res[q] = ("unk",) + x[1:]
        return
    if r[0] == "freed":
        I.emit("release", st, inst, obj=o, p=p, problem="double", what=what, first=r[3])
        return
    if r[1] != kind:
        I.emit("release", st, inst, obj=o, p=p, problem="mismatch", what=what, have=r[1])
    elif r[0] == "live":
        I.emit("release", st, inst, obj=o, p=p, problem=None, what=what)
    st.res[o] = ("freed",) + r[1:3] + (I.where(inst),) + r[4:]


@model("free")
def m_free(I, st, inst, a, cctx, f):
    release(I, st, inst, a[0], "malloc", cctx, f, "free")
    return [(None, st)]


@model("l1c_free_double")
def m_l1cf(I, st, inst, a, cctx, f):
    release(I, st, inst, a[0], "l1c", cctx, f, "l1c_free_double")
    return [(None, st)]


@model("l1c_free_double_2D")
def m_l1cf2(I, st, inst, a, cctx, f):
    p = a[1]
    if p.op == "ptr":
        r = st.res.get(p.args[0])
        if r and r[1] == "l1c2d" and r[2] is not None and \
                psub(r[2], pscale(P(a[0]), 8)) is not ZERO:
            I.emit("release", st, inst, obj=p.args[0], p=p, problem="rows",
                   what="l1c_free_double_2D")
    release(I, st, inst, p, "l1c2d", cctx, f, "l1c_free_double_2D")
    return [(None, st)]


# --------------------------------------------------------------------- libc
@model("printf", "fprintf", "rewind", "fseek", "llvm.lifetime.start.p0",
       "llvm.lifetime.end.p0", "llvm.donothing", "llvm.stackrestore", "__kmpc_barrier")
def m_nop(I, st, inst, a, cctx, f):
    return [(sym(cctx, "ret"), st)]


@model("mexPrintf")
def m_mexprintf(I, st, inst, a, cctx, f):
    return [(sym(cctx, "ret"), st)]


@model("gettimeofday")
def m_tod(I, st, inst, a, cctx, f):
    if a[0].op == "ptr":
        I.write(st, a[0].args[0], a[0].args[1], 8, sym(cctx, "sec"))
        I.write(st, a[0].args[0], padd(a[0].args[1], ic(8)), 8, sym(cctx, "usec"))
    return [(ZERO, st)]


@model("strerror", "__errno_location", "cJSON_GetErrorPtr")
def m_extp(I, st, inst, a, cctx, f):
    return [(ptr(mk("obj", "ext", mk("sym", "libc", cctx)), ZERO), st)]


@model("strlen", "omp_get_max_threads", "openblas_get_parallel")
def m_nonneg(I, st, inst, a, cctx, f):
    r = sym(cctx, "strlen")
    I.addiv(st, r, 0, None)
    return [(r, st)]


@model("strncmp", "atoi", "fftw_init_threads", "mxGetString", "ftell")
def m_int(I, st, inst, a, cctx, f):
    return [(sym(cctx, "ret"), st)]


@model("strcpy")
def m_strcpy(I, st, inst, a, cctx, f):
    access(I, st, inst, a[0], None, "store", "i", 1)
    return [(a[0], st)]


@model("fopen")
def m_fopen(I, st, inst, a, cctx, f):
    return [(alloc(I, st, inst, cctx, "file", "fopen", None, "ext"), st)]


@model("fclose")
def m_fclose(I, st, inst, a, cctx, f):
    release(I, st, inst, a[0], "file", cctx, f, "fclose")
    return [(ZERO, st)]


@model("fread")
def m_fread(I, st, inst, a, cctx, f):
    access(I, st, inst, a[0], None, "store", "i", 1)
    r = sym(cctx, "fread")
    I.addiv(st, r, 0, None)
    return [(r, st)]


@model("llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64")
def m_memcpy(I, st, inst, a, cctx, f):
    d, s, n = a[0], a[1], cval(a[2])
    c8 = pdivc(P(a[2]), 8) if n is None else None
    if c8 is not None:
        access(I, st, inst, s, c8, "load")
        access(I, st, inst, d, c8, "store")
        if I.numeric and d.op == "ptr" and s.op == "ptr":
            one = ic(1)
            maploop(I, st, cctx, "memcpy", c8, d, one, lambda q, i: rdv(I, q, s, i, one))
            return [(None, st)]
    else:
        c1 = P(a[2]) if n is None else None
        access(I, st, inst, d, c1, "store", "i", n or 1)
        access(I, st, inst, s, c1, "load", "i", n or 1)
    if d.op == "ptr" and s.op == "ptr" and n is not None and cval(d.args[1]) is not None:
        src = I.content(st, s.args[0])
        I.addlayer(st, d.args[0], mk("view", src, s.args[1], cval(d.args[1]), n))
        I.flatten(st, d.args[0])
    elif d.op == "ptr":
        havoc(I, st, d.args[0], cctx)
    return [(None, st)]


@model("llvm.memset.p0.i64")
def m_memset(I, st, inst, a, cctx, f):
    d = a[0]
    access(I, st, inst, d, P(a[2]), "store", "i", 1)
    if d.op == "ptr":
        if cval(a[1]) == 0:
            I.addlayer(st, d.args[0], mk("fillz", d.args[1], P(a[2])))
            I.flatten(st, d.args[0])
        else:
            havoc(I, st, d.args[0], cctx)
    return [(None, st)]


def havoc(I, st, o, cctx):
    st.mem[o] = mk("content", mk("ext", mk("obj", "ext", mk("havoc", o, cctx))), ())


@model("llvm.assume")
def m_assume(I, st, inst, a, cctx, f):
    for b in inst.get("bundles", ()):
        if b[0] == "align":
            p = I.val(st, b[1], f)
            al = I.val(st, b[2], f)
            I.emit("assume_aligned", st, inst, p=p, align=cval(al))
    return [(None, st)]


@model("llvm.is.fpclass.f64")
def m_fpclass(I, st, inst, a, cctx, f):
    m = cval(a[1])
    if I.numeric and m == 3:
        return [(mk("isnan", a[0]), st)]
    return [(mk("sym", "fpclass", cctx), st)]


def _math(name):
    @model(*([name] if name in ("sqrt", "log", "exp") else ["llvm.%s.f64" % name, name]))
    def m(I, st, inst, a, cctx, f):
        x = a[0]
        if not I.numeric:
            return [(FU if x is not UNDEF else UNDEF, st)]
        return [(fop("fn", name, x) if x not in (FU, UNDEF) else x, st)]
    return m


for _n in ("sqrt", "log", "exp", "fabs", "ceil", "floor"):
    _math(_n)


@model("fmax", "fmin", "llvm.maxnum.f64", "llvm.minnum.f64", "pow")
def m_minmax(I, st, inst, a, cctx, f):
    if not I.numeric:
        return [(FU, st)]
    n = inst["callee"][1]
    n = "pow" if n == "pow" else ("fmax" if "max" in n else "fmin")
    return [(mk("fn2", n, a[0], a[1]), st)]


@model("llvm.fmuladd.f64", "llvm.fma.f64")
def m_fma(I, st, inst, a, cctx, f):
    if not I.numeric:
        return [(FU, st)]
    return [(fop("fadd", fop("fmul", a[0], a[1]), a[2]), st)]


# --------------------------------------------------------------------- BLAS & vector kernels
def maploop(I, st, cctx, tag, N, dst, dinc, valfn):
    """dst[bv*dinc] = valfn(bv) for 0 <= bv < N"""
    L = mk("L", cctx, tag, 0)
    bv = mk("bv", L)
    s2 = st.copy()
    s2.facts[mk("p", (((bv,), 1),))] = (0, None)
    I.addiv(s2, psub(P(bv), P(N)), None, -1)
    v = valfn(s2, P(bv))
    off = padd(dst.args[1], pmul(pscale(P(bv), 8), P(dinc)))
    lay = mk("w", off, 8, v)
    I.addlayer(st, dst.args[0], mk("loop", bv, P(N), ((TRUE_G, (lay,)),), None))


def rdv(I, s, p, i, inc):
    return I.read(s, p.args[0], padd(p.args[1], pmul(pscale(i, 8), P(inc))), 8, "f")


def sumloop(I, st, cctx, tag, N, termfn):
    L = mk("L", cctx, tag, 0)
    bv = mk("bv", L)
    s2 = st.copy()
    s2.facts[mk("p", (((bv,), 1),))] = (0, None)
    I.addiv(s2, psub(P(bv), P(N)), None, -1)
    t = termfn(s2, P(bv))
    s = mk("lphi", L, 0, "f")
    fd = ((s, fc(0.0), ((TRUE_G, fop("fadd", s, t)),)),)
    return mk("fold", L, bv, P(N), 0, fd)


def vec(I, st, inst, p, N, inc, what, align=None):
    c = cval(inc)
    r = access(I, st, inst, p, P(N) if c == 1 else mk("strided", P(N), P(inc)), what, "f", 8,
               align)
    return r is not None


@model("cblas_dcopy")
def m_dcopy(I, st, inst, a, cctx, f):
    N, x, ix, y, iy = a[:5]
    ok = vec(I, st, inst, x, N, ix, "load") and vec(I, st, inst, y, N, iy, "store")
    if ok and I.numeric:
        maploop(I, st, cctx, "dcopy", N, y, iy, lambda s, i: rdv(I, s, x, i, ix))
    return [(None, st)]


@model("cblas_daxpy")
def m_daxpy(I, st, inst, a, cctx, f):
    N, al, x, ix, y, iy = a[:6]
    ok = vec(I, st, inst, x, N, ix, "load") and vec(I, st, inst, y, N, iy, "store")
    if ok and I.numeric:
        maploop(I, st, cctx, "daxpy", N, y, iy, lambda s, i: fop(
            "fadd", rdv(I, s, y, i, iy), fop("fmul", al, rdv(I, s, x, i, ix))))
    return [(None, st)]


@model("cblas_daxpby", "catlas_daxpby")
def m_daxpby(I, st, inst, a, cctx, f):
    N, al, x, ix, be, y, iy = a[:7]
    ok = vec(I, st, inst, x, N, ix, "load") and vec(I, st, inst, y, N, iy, "store")
    if ok and I.numeric:
        maploop(I, st, cctx, "daxpby", N, y, iy, lambda s, i: fop(
            "fadd", fop("fmul", be, rdv(I, s, y, i, iy)), fop("fmul", al, rdv(I, s, x, i, ix))))
    return [(None, st)]


@model("cblas_dscal")
def m_dscal(I, st, inst, a, cctx, f):
    N, al, x, ix = a[:4]
    ok = vec(I, st, inst, x, N, ix, "store")
    if ok and I.numeric:
        maploop(I, st, cctx, "dscal", N, x, ix,
                lambda s, i: fc(0.0) if al.op == "fc" and al.args[0] == 0 else
                fop("fmul", al, rdv(I, s, x, i, ix)))
    return [(None, st)]


@model("cblas_ddot")
def m_ddot(I, st, inst, a, cctx, f):
    N, x, ix, y, iy = a[:5]
    ok = vec(I, st, inst, x, N, ix, "load") and vec(I, st, inst, y, N, iy, "load")
    if not (ok and I.numeric):
        return [(FU, st)]
    return [(sumloop(I, st, cctx, "ddot", N, lambda s, i: fop(
        "fmul", rdv(I, s, x, i, ix), rdv(I, s, y, i, iy))), st)]


@model("cblas_dnrm2")
def m_dnrm2(I, st, inst, a, cctx, f):
    N, x, ix = a[:3]
    ok = vec(I, st, inst, x, N, ix, "load")
    if not (ok and I.numeric):
        return [(FU, st)]
    return [(fop("fn", "sqrt", sumloop(I, st, cctx, "dnrm2", N, lambda s, i: fop(
        "fmul", rdv(I, s, x, i, ix), rdv(I, s, x, i, ix)))), st)]


@model("cblas_dasum")
def m_dasum(I, st, inst, a, cctx, f):
    N, x, ix = a[:3]
    ok = vec(I, st, inst, x, N, ix, "load")
    if not (ok and I.numeric):
        return [(FU, st)]
    return [(sumloop(I, st, cctx, "dasum", N, lambda s, i: fop(
        "fn", "fabs", rdv(I, s, x, i, ix))), st)]


@model("cblas_dgemv")
def m_dgemv(I, st, inst, a, cctx, f):
    (layout, trans, M, N, al, A, lda, x, ix, be, y, iy) = a[:12]
    rows = cval(layout) == 101
    tr = cval(trans) != 111
    nin, nout = (M, N) if tr else (N, M)
    ok = vec(I, st, inst, x, nin, ix, "load") and vec(I, st, inst, y, nout, iy, "store")
    access(I, st, inst, A, pmul(P(M), P(N)), "load")
    if ok and I.numeric and A.op == "ptr":
        def val(s, i):
            def term(s2, j):
                r, c = (j, i) if tr else (i, j)
                if not rows:
                    r, c = c, r
                e = I.read(s2, A.args[0], padd(A.args[1], pscale(padd(pmul(r, P(lda)), c), 8)),
                           8, "f")
                return fop("fmul", e, rdv(I, s2, x, j, ix))
            v = fop("fmul", al, sumloop(I, s, mk("ctx", cctx, "dgemv", 0), "gemv", nin, term))
            if be.op == "fc" and be.args[0] == 0.0:
                return v
            return fop("fadd", v, fop("fmul", be, rdv(I, s, y, i, iy)))
        maploop(I, st, cctx, "dgemv", nout, y, iy, val)
    return [(None, st)]


@model("vcl_sum")
def m_vsum(I, st, inst, a, cctx, f):
    N, x = a
    if not (vec(I, st, inst, x, N, ONE, "load", 32) and I.numeric):
        return [(FU, st)]
    return [(sumloop(I, st, cctx, "vsum", N, lambda s, i: rdv(I, s, x, i, ONE)), st)]


@model("vcl_logsum")
def m_vlogsum(I, st, inst, a, cctx, f):
    N, al, x = a
    if not (vec(I, st, inst, x, N, ONE, "load", 32) and I.numeric):
        return [(FU, st)]
    return [(sumloop(I, st, cctx, "vlogsum", N, lambda s, i: fop(
        "fn", "log", fop("fmul", al, rdv(I, s, x, i, ONE)))), st)]


@model("vcl_dxMy_pz")
def m_vxmy(I, st, inst, a, cctx, f):
    N, x, y, z = a
    ok = vec(I, st, inst, x, N, ONE, "load", 32) and \
        vec(I, st, inst, y, N, ONE, "load", 32) and vec(I, st, inst, z, N, ONE, "store", 32)
    if ok and I.numeric:
        maploop(I, st, cctx, "vxmy", N, z, ONE, lambda s, i: fop(
            "fadd", fop("fmul", rdv(I, s, x, i, ONE), rdv(I, s, y, i, ONE)),
            rdv(I, s, z, i, ONE)))
    return [(None, st)]


# --------------------------------------------------------------------- FFTW
@model("fftw_plan_with_nthreads", "fftw_cleanup_threads", "fftw_cleanup")
def m_fnop(I, st, inst, a, cctx, f):
    return [(None, st)]


def _plan(I, st, inst, cctx, kind, dims, i, o):
    p = alloc(I, st, inst, cctx, "plan", "plan", None, "ext")
    ob = p.args[0]
    st.mem[ob] = mk("content", mk("plan", kind, dims, i, o), ())
    return p


@model("fftw_plan_r2r_1d")
def m_plan1(I, st, inst, a, cctx, f):
    n, i, o, k, fl = a
    access(I, st, inst, i, P(n), "store")
    access(I, st, inst, o, P(n), "store")
    I.emit("plan", st, inst, dims=(n,), i=i, o=o, kinds=(k,))
    return [(_plan(I, st, inst, cctx, (k,), (P(n),), i, o), st)]


@model("fftw_plan_r2r_2d")
def m_plan2(I, st, inst, a, cctx, f):
    n0, n1, i, o, k0, k1, fl = a
    n = pmul(P(n0), P(n1))
    access(I, st, inst, i, n, "store")
    access(I, st, inst, o, n, "store")
    I.emit("plan", st, inst, dims=(n0, n1), i=i, o=o, kinds=(k0, k1))
    return [(_plan(I, st, inst, cctx, (k0, k1), (P(n0), P(n1)), i, o), st)]


@model("fftw_destroy_plan")
def m_dplan(I, st, inst, a, cctx, f):
    release(I, st, inst, a[0], "plan", cctx, f, "fftw_destroy_plan")
    return [(None, st)]


def _exec(I, st, inst, plan, i, o, cctx):
    if plan.op != "ptr":
        I.emit("badptr", st, inst, p=plan, what="plan")
        return [(None, st)]
    I.emit("access", st, inst, obj=plan.args[0], off=ZERO, size=8, what="load", ptr=plan,
           kind="i")
    c = I.content(st, plan.args[0])
    b = c.args[0]
    if b.op != "plan":
        if i is not None:
            access(I, st, inst, i, None, "load")
            access(I, st, inst, o, None, "store")
            if I.numeric and o.op == "ptr":
                havoc(I, st, o.args[0], cctx)
        return [(None, st)]
    kinds, dims, pi, po = b.args
    i = pi if i is None else i
    o = po if o is None else o
    n = dims[0]
    for d in dims[1:]:
        n = pmul(n, d)
    I.emit("execute", st, inst, i=i, o=o, pi=pi, po=po, n=n)
    r1 = access(I, st, inst, i, n, "load", align=16)
    r2 = access(I, st, inst, o, n, "store", align=16)
    if I.numeric and r1 and r2:
        I.addlayer(st, o.args[0], mk("op", mk("dct", tuple(kinds), dims), o.args[1], n,
                                     I.content(st, i.args[0]), i.args[1], n))
    return [(None, st)]


@model("fftw_execute")
def m_exec(I, st, inst, a, cctx, f):
    return _exec(I, st, inst, a[0], None, None, cctx)


@model("fftw_execute_r2r")
def m_exec2(I, st, inst, a, cctx, f):
    return _exec(I, st, inst, a[0], a[1], a[2], cctx)


# --------------------------------------------------------------------- cJSON
@model("cJSON_Parse")
def m_jparse(I, st, inst, a, cctx, f):
    access(I, st, inst, a[0], None, "load", "i", 1)
    return [(alloc(I, st, inst, cctx, "json", "cJSON_Parse", None, "ext"), st)]


@model("cJSON_Delete")
def m_jdel(I, st, inst, a, cctx, f):
    release(I, st, inst, a[0], "json", cctx, f, "cJSON_Delete")
    return [(None, st)]


@model("cJSON_GetObjectItemCaseSensitive")
def m_jget(I, st, inst, a, cctx, f):
    return [(ptr(mk("obj", "ext", mk("jitem", a[0], a[1])), ZERO), st)]


@model("cJSON_IsNumber", "cJSON_IsArray")
def m_jis(I, st, inst, a, cctx, f):
    r = P(mk("sym", inst["callee"][1], a[0]))
    I.addiv(st, r, 0, 1)
    # a NULL item is neither
    if a[0].op == "ptr":
        s2 = st.copy()
        out = []
        if I.addiv(s2, r, 1, 1):
            s2.facts[mk("nul", a[0].args[0])] = False
            out.append((ONE, s2))
        if I.addiv(st, r, 0, 0):
            out.append((ZERO, st))
        return out
    return [(r, st)]


@model("cJSON_GetArraySize")
def m_jsize(I, st, inst, a, cctx, f):
    r = P(mk("sym", "jsize", a[0]))
    I.addiv(st, r, 0, None)
    return [(r, st)]


# --------------------------------------------------------------------- Python / NumPy
def cstr(I, st, p):
    """string literal behind p"""
    if p.op != "ptr" or cval(p.args[1]) is None:
        return None
    o = p.args[0]
    if o.args[0] != "glob":
        return None
    g = I.prog.globs.get(o.args[1])
    if g and "str" in g:
        return g["str"][cval(p.args[1]):]
    if g and g.get("const") and g.get("size") == 1 and cval(p.args[1]) == 0 and \
            [c[2][0] for c in g.get("init") or ()] == ["z"]:
        return ""
    return None


@model("PyErr_SetString", "PyErr_Format", "PyErr_Print")
def m_pyerr(I, st, inst, a, cctx, f):
    st.mon["pyerr"] = True
    return [(NULL, st)]


@model("PyArg_ParseTupleAndKeywords")
def m_parse(I, st, inst, a, cctx, f):
    fmt = cstr(I, st, a[2])
    bad = st.copy()
    bad.mon["pyerr"] = True
    I.emit("parse", st, inst, fmt=fmt, args=a, f=f)
    if fmt is None:
        return [(ONE, st), (ZERO, bad)]
    n = 4
    for ch in fmt.replace("|", "").replace("$", ""):
        if ch in ":;":
            break
        if n >= len(a):
            break
        p = a[n]
        if p.op == "ptr":
            o, off = p.args
            opt = fmt.find("|")
            pos = n - 4
            isopt = opt >= 0 and pos >= opt
            if ch == "i":
                I.write(st, o, off, 4, P(mk("sym", "py", pos, "i")))
            elif ch == "d":
                I.write(st, o, off, 8, mk("fsym", "py%d" % pos) if I.numeric else
                        mk("init", mk("obj", "pyarg", pos), ZERO, 8, "f"))
            elif ch == "O":
                I.write(st, o, off, 8, ptr(mk("obj", "pyarg", pos), ZERO))
                st.facts[mk("nul", mk("obj", "pyarg", pos))] = False
        n += 1
    return [(ONE, st), (ZERO, bad)]


@model("Py_BuildValue")
def m_build(I, st, inst, a, cctx, f):
    fmt = cstr(I, st, a[0])
    I.emit("build", st, inst, fmt=fmt, args=a)
    r = alloc(I, st, inst, cctx, "py", "Py_BuildValue", None, "ext")
    n = 1
    refs = []
    for ch in (fmt or ""):
        if ch in "{}[](),: ":
            continue
        if ch in "ON" and n < len(a) and a[n].op == "ptr":
            refs.append((ch, a[n]))
        n += 1
    for ch, p in refs:
        o = p.args[0]
        q = st.res.get(o)
        if ch == "N":
            if q is None or q[0] != "live":
                I.emit("release", st, inst, obj=o, p=p,
                       problem="foreign" if q is None else "double", what="Py_BuildValue N")
            else:
                st.res.pop(o)       # ownership moves into the result
        else:
            I.emit("access", st, inst, obj=o, off=ZERO, size=8, what="load", ptr=p, kind="i")
    return [(r, st)]


@model("Py_DECREF", "Py_XDECREF", "_Py_DECREF", "_Py_XDECREF")
def m_decref(I, st, inst, a, cctx, f):
    p = a[0]
    if p is NULL or I.isnull(st, p) is True:
        return [(None, st)]
    if not inst["callee"][1].endswith("XDECREF"):
        I.emit("access", st, inst, obj=p.args[0] if p.op == "ptr" else None, off=ZERO, size=8,
               what="load", ptr=p, kind="i")
    release(I, st, inst, p, "py", cctx, f, inst["callee"][1])
    return [(None, st)]


@model("Py_INCREF", "Py_XINCREF")
def m_incref(I, st, inst, a, cctx, f):
    p = a[0]
    if p.op == "ptr" and p.args[0] not in st.res:
        st.res[p.args[0]] = ("live", "py", None, I.where(inst))
    return [(None, st)]


@model("PyModule_Create2", "PyCapsule_GetPointer", "PyImport_ImportModule",
       "PyObject_GetAttrString", "_import_array")
def m_pynew(I, st, inst, a, cctx, f):
    if inst["ty"] == "ptr":
        return [(ptr(mk("obj", "ext", mk("sym", "pyext", cctx)), ZERO), st)]
    return [(sym(cctx, "ret"), st)]


def numpy_index(callee):
    """index into the NumPy C API table, if callee was loaded from it"""
    if callee.op == "ptr" and callee.args[0].op == "obj" and callee.args[0].args[0] == "ext":
        a = callee.args[0].args
        if len(a) == 3 and isinstance(a[1], T) and a[1].op == "obj" and isinstance(a[2], T):
            off = cval(a[2])
            base = a[1]
            if off is not None and base.args[0] == "ext" and len(base.args) == 3 and \
                    isinstance(base.args[1], T) and base.args[1].op == "obj" and \
                    base.args[1].args[0] == "glob" and \
                    str(base.args[1].args[1]).split("::")[-1].startswith("PyArray_API"):
                return off // 8
    return None


def indirect(I, st, inst, callee, a, cctx, f):
    k = numpy_index(callee)
    if k is not None:
        if k in (69, 93):
            p = alloc(I, st, inst, cctx, "py", "numpy%d" % k, None, "ext")
            I.emit("numpy", st, inst, idx=k, args=a, obj=p.args[0])
            return [(p, st)]
        if inst["ty"] == "ptr":
            return [(ptr(mk("obj", "ext", mk("sym", "numpy", k, tuple(a))), ZERO), st)]
        return [(sym(cctx, "numpy"), st)]
    h = getattr(I, "callback", None)
    if h:
        r = h(st, inst, callee, a, cctx, f)
        if r is not None:
            return r
    if callee is UNDEF:
        I.emit("badptr", st, inst, p=callee, what="call")
    elif callee.op in ("null",):
        I.emit("badptr", st, inst, p=callee, what="call")
    n = 0
    for p, ty in zip(a, inst["aty"]):
        if ty == "ptr" and p.op == "ptr":
            I.emit("access", st, inst, obj=p.args[0], off=p.args[1], size=8,
                   what="opaque", ptr=p, kind="f", argno=n, callee=callee)
        n += 1
    if inst["ty"] == "double":
        return [(FU, st)]
    if inst["ty"] == "ptr":
        return [(ptr(mk("obj", "ext", mk("sym", "icall", cctx)), ZERO), st)]
    return [(sym(cctx, "icall") if inst["ty"] != "void" else None, st)]


# --------------------------------------------------------------------- MEX
@model("mexErrMsgIdAndTxt", "exit", "abort", "__assert_fail")
def m_mexerr(I, st, inst, a, cctx, f):
    st.mon["mexerr"] = True
    I.emit("pathend", st, inst, why=inst["callee"][1])
    return []


@model("mxGetM", "mxGetN", "mxGetNumberOfDimensions")
def m_mxdim(I, st, inst, a, cctx, f):
    r = P(mk("sym", inst["callee"][1], a[0]))
    I.addiv(st, r, 0, None)
    return [(r, st)]


@model("mxIsDouble", "mxIsInt32", "mxIsScalar", "mxIsStruct")
def m_mxis(I, st, inst, a, cctx, f):
    c = mk("sym", inst["callee"][1], a[0])
    return [(c if inst["ty"] == "i1" else P(mk("b2i", c)), st)]


@model("mxGetScalar")
def m_mxsc(I, st, inst, a, cctx, f):
    return [(mk("init", mk("obj", "mxscalar", a[0]), ZERO, 8, "f"), st)]


@model("mxGetPr", "mxGetData", "mxGetInt32s")
def m_mxpr(I, st, inst, a, cctx, f):
    o = mk("obj", "ext", mk("mxdata", a[0]))
    return [(ptr(o, ZERO), st)]


@model("mxGetField")
def m_mxfield(I, st, inst, a, cctx, f):
    nm = cstr(I, st, a[2])
    I.emit("field", st, inst, name=nm, args=a)
    return [(ptr(mk("obj", "ext", mk("mxfield", a[0], nm or a[2])), ZERO), st)]


@model("mxCreateDoubleMatrix", "mxCreateDoubleScalar", "mxCreateStructMatrix")
def m_mxnew(I, st, inst, a, cctx, f):
    o = mk("obj", "ext", mk("mxnew", inst["callee"][1], cctx, tuple(a)))
    st.facts[mk("nul", o)] = False
    I.emit("mxnew", st, inst, name=inst["callee"][1], args=a, obj=o)
    return [(ptr(o, ZERO), st)]


@model("mxSetField")
def m_mxset(I, st, inst, a, cctx, f):
    I.emit("mxset", st, inst, args=a, name=cstr(I, st, a[2]))
    return [(None, st)]


@model("mxGetString")
def m_mxstr(I, st, inst, a, cctx, f):
    if a[1].op == "ptr":
        havoc(I, st, a[1].args[0], cctx)
    return [(sym(cctx, "ret"), st)]


@model("strncmp")
def m_strncmp(I, st, inst, a, cctx, f):
    return [(P(mk("sym", "strncmp", a[0], cstr(I, st, a[1]) or a[1])), st)]


# --------------------------------------------------------------------- fall-backs
def extern(I, st, inst, name, a, cctx, f):
    I.unknown_calls.add(name)
    for p in a:
        if p.op == "ptr" and p.args[0].args[0] != "glob":
            I.emit("access", st, inst, obj=p.args[0], off=p.args[1], size=1, what="opaque",
                   ptr=p, kind="i")
            if I.numeric:
                havoc(I, st, p.args[0], cctx)
    if inst["ty"] == "void":
        return [(None, st)]
    if inst["ty"] == "ptr":
        return [(ptr(mk("obj", "ext", mk("sym", name, cctx)), ZERO), st)]
    if inst["ty"] in ("double", "float"):
        return [(mk("sym", name, cctx) if I.numeric else FU, st)]
    return [(sym(cctx, name), st)]


MODELS["*indirect*"] = indirect
MODELS["*extern*"] = extern
