"""C21: split Bregman TV denoising performs the documented iteration."""
import math

from lab import *
from machine import Trace, TooLong
from common import Report, pmap
from c18 import D, ap, apT

RULE = ("Symbolic summaries of the Bregman building blocks (soft threshold, right-hand side, "
        "Gauss-Seidel and Jacobi sweeps, inverse diagonal, bound through the table the library "
        "exports) and the derived iteration relation of the whole denoiser, composed from the "
        "entry state, compared by random interpretation with split Bregman for "
        "|Dx u|_1 + |Dy u|_1 + mu/2 |u-f|^2 with lambda = 2 mu.")
DIMS = [(2, 2), (3, 4), (5, 3), (2, 5), (6, 2), (4, 7)]


def table(prog):
    """member of the exported table -> name of the function installed there"""
    f = need(prog, "breg_get_functions")
    I = Itp(prog, numeric=True)
    st = State()
    o = mk("obj", "ext", "tab")
    st.facts[mk("nul", o)] = False
    f.prepare()
    if len(f.args) != 1 or not f.args[0].get("sret"):
        raise Unknown("table function signature")
    rets = I.call(f, [ptr(o, ZERO)], st, mk("ctx", TOPCTX, f.key, 0))
    if len(rets) != 1:
        raise Unknown("table function")
    out = {}
    for off, size, name, ty in prog.types["BregFuncs"]["members"]:
        v = I.read(rets[0][1], o, ic(off), 8, "p")
        if v.op == "fptr":
            out[name] = v.args[0]
    return out


def system(n, m, mu, lam):
    """rows of mu I + lam (Dx'Dx + Dy'Dy): index -> {index: coef}"""
    N = n * m
    H = [{i: mu} for i in range(N)]
    for k in "xy":
        for row in D(k, n, m):
            for i, c in row:
                for j, e in row:
                    H[i][j] = H[i].get(j, 0.0) + lam * c * e
    return H


def gs(H, u, rhs):
    u = list(u)
    for i, row in enumerate(H):
        u[i] = (rhs[i] - sum(c * u[j] for j, c in row.items() if j != i)) / row[i]
    return u


def shrink(x, g):
    return [math.copysign(max(abs(v) - g, 0), v) if abs(v) > g else 0.0 for v in x]


def rhsvec(n, m, f, dx, bx, dy, by, mu, lam):
    a = apT(D("x", n, m), [p - q for p, q in zip(dx, bx)])
    b = apT(D("y", n, m), [p - q for p, q in zip(dy, by)])
    return [mu * p + lam * (q + r) for p, q, r in zip(f, a, b)]


def blocks(rep, which):
    prog = image("lib")
    name = table(prog).get(which)
    if name is None:
        raise Unknown("no %s in the table" % which)
    img = [{0: n, 1: m} for n, m in DIMS]

    def pos(S, F, *ks):
        for k in ks:
            S.vals[F.av[k]] = S.mag(.1, 3)

    if which == "breg_shrink1":
        def smp(F, S, d):
            x = [S.scale * S.rnd.uniform(-1, 1) for _ in range(d[0])]
            setvec(S, F.av[1], x)
            S.vals[F.av[3]] = S.rnd.choice((S.scale * S.mag(.05, 1), abs(S.rnd.choice(x)) * 1.001))

        def spec(F, S, d):
            x = F.arr(S, 1, d[0])
            return [("output %d" % k, (2, k), v)
                    for k, v in enumerate(shrink(x, F.flt(S, 3)))] + \
                [("input %d kept" % k, (1, k), v) for k, v in enumerate(x)]
        dims = [{0: k} for k in (1, 2, 3, 7, 8, 13)]
    elif which == "breg_mxpy_z":
        smp = None

        def spec(F, S, d):
            x, y = F.arr(S, 1, d[0]), F.arr(S, 2, d[0])
            return [("output %d" % k, (3, k), y[k] - x[k]) for k in range(d[0])] + \
                [("x %d kept" % k, (1, k), x[k]) for k in range(d[0])] + \
                [("y %d kept" % k, (2, k), y[k]) for k in range(d[0])]
        dims = [{0: k} for k in (1, 2, 3, 7, 8, 13)]
    elif which == "breg_anis_guass_seidel":
        dims = img

        def smp(F, S, d):
            pos(S, F, 4, 5)

        def spec(F, S, d):
            n, m = d[0], d[1]
            u, r = F.arr(S, 2, n * m), F.arr(S, 3, n * m)
            w = gs(system(n, m, F.flt(S, 4), F.flt(S, 5)), u, r)
            return [("%dx%d u(%d,%d)" % (n, m, k // m, k % m), (2, k), v)
                    for k, v in enumerate(w)] + \
                [("right-hand side %d kept" % k, (3, k), v) for k, v in enumerate(r)]
    elif which == "breg_anis_jacobi":
        dims = img
        Z = {}

        def smp(F, S, d):
            n, m = d[0], d[1]
            pos(S, F, 6)
            H = Z["H"] = system(n, m, S.mag(.1, 3), F.flt(S, 6))
            setvec(S, F.av[5], [1 / H[k][k] for k in range(n * m)])

        def spec(F, S, d):
            n, m = d[0], d[1]
            u, r = F.arr(S, 2, n * m), F.arr(S, 4, n * m)
            w = [(r[i] - sum(c * u[j] for j, c in row.items() if j != i)) / row[i]
                 for i, row in enumerate(Z["H"])]
            return [("%dx%d u(%d,%d)" % (n, m, k // m, k % m), (2, k), v)
                    for k, v in enumerate(w)] + \
                [("right-hand side %d kept" % k, (4, k), v) for k, v in enumerate(r)]
    elif which == "hess_inv_diag":
        dims = img

        def smp(F, S, d):
            pos(S, F, 2, 3)

        def spec(F, S, d):
            n, m = d[0], d[1]
            H = system(n, m, F.flt(S, 2), F.flt(S, 3))
            return [("%dx%d D(%d,%d)" % (n, m, k // m, k % m), (4, k), 1 / H[k][k])
                    for k in range(n * m)]
    else:
        dims = img
        smp = None

        def spec(F, S, d):
            n, m = d[0], d[1]
            a = [F.arr(S, k, n * m) for k in range(2, 7)]
            w = rhsvec(n, m, *a, F.flt(S, 8), F.flt(S, 9))
            return [("%dx%d rhs(%d,%d)" % (n, m, k // m, k % m), (7, k), v)
                    for k, v in enumerate(w)] + \
                [("argument %d entry %d kept" % (j, k), (j, k), v)
                 for j in range(2, 7) for k, v in enumerate(a[j - 2])]
    rel, _, fn = name.rpartition("::")
    kernel(rep, prog, fn, dims, spec, sample=smp, key=which, rel=rel or None)


TV = {"l1c_Dx": ("x", 0), "l1c_Dy": ("y", 0), "l1c_DxT": ("x", 1), "l1c_DyT": ("y", 1),
      "l1c_DxTDx": ("x", 2), "l1c_DyTDy": ("y", 2)}


def tvop(name):
    kind, how = TV[name]

    def model(I, st, inst, a, cctx, f):
        I.mark += 1
        n, m, al, x, y = a[:5]
        N = pmul(P(n), P(m))
        ok = models.access(I, st, inst, x, N, "load")
        ok2 = models.access(I, st, inst, y, N, "store")
        if ok and ok2:
            I.addlayer(st, y.args[0], mk("op", mk("tv", kind, how, P(n), P(m), al), y.args[1], N,
                                         I.content(st, x.args[0]), x.args[1], N))
        return [(None, st)]
    return model


def tv(S, opt, x, n):
    kind, how, n, m, al = opt.args
    M = D(kind, S.ev(n), S.ev(m))
    al = S.ev(al)
    if how == 0:
        return [al * v for v in ap(M, x)]
    if how == 1:
        return [al * v for v in apT(M, x)]
    return [al * al * v for v in apT(M, ap(M, x))]


numeval.OPS["tv"] = tv


def refbreg(n, m, f, mu, tol, maxit, sweeps):
    N = n * m
    lam = 2 * mu
    H = system(n, m, mu, lam)
    u, u1 = list(f), [0.0] * N
    dx, dy, bx, by = ([0.0] * N for _ in range(4))
    margin, errs = [], []
    it = 0
    for it in range(1, maxit + 1):
        r = rhsvec(n, m, f, dx, bx, dy, by, mu, lam)
        for _ in range(sweeps):
            u = gs(H, u, r)
        nu = dot(u1, u1)
        e = math.sqrt(dot(*[[p - q for p, q in zip(u, u1)]] * 2) / nu) if nu else math.inf
        for k in "xy":
            b = bx if k == "x" else by
            w = [p + q for p, q in zip(ap(D(k, n, m), u), b)]
            d = shrink(w, 1 / lam)
            b = [p - q for p, q in zip(w, d)]
            if k == "x":
                dx, bx = d, b
            else:
                dy, by = d, b
        u1 = list(u)
        if e < math.inf:
            margin.append(abs(e - tol) / tol if tol else 1.0)
            errs.append(e)
        if e < tol:
            break
    return u, it, margin, errs


def j_main(rep):
    key = "l1c_breg_anistropic_TV: iteration"
    prog = image("lib")
    f = need(prog, "l1c_breg_anistropic_TV")
    if len(f.args) != 8:
        raise Unknown("unexpected signature")
    lab = Lab(prog, {}, {k: tvop(k) for k in TV})
    I = lab.itp()
    I.openloops = True
    st = State()
    an, am, mi, mj = (mk("arg", k) for k in ("n", "m", "max_iter", "max_jac"))
    for o in ("u", "f"):
        st.facts[mk("nul", mk("obj", "ext", o))] = False
    I.addiv(st, P(an), 2, None)
    I.addiv(st, P(am), 2, None)
    F = Fn(prog, "l1c_breg_anistropic_TV", st=st, itp=I, args={
        0: P(an), 1: P(am), 2: ext("u"), 3: ext("f"), 4: mk("fsym", "mu"), 5: mk("fsym", "tol"),
        6: P(mi), 7: P(mj)})
    quick = rep.tier == "quick"
    nv = used = longest = 0
    # besides: more iterations, sweeps and pixels than any number the code compares with
    ci = [c for c in loopconsts(F) if 3 < c <= 1100]
    rep.count("numbers the code compares with", len(ci))
    plan = [([(2, 2), (3, 4), (4, 3), (2, 5)][(k // 7) % 4], 0, None) for k in range(400)]
    plan += [((3, 3), c + 2, r_) for c in ci if c <= 150 for r_ in (0, 1)]
    plan += [(sh, 0, None) for c in ci if c <= 40 for sh in ((c + 1, 2), (2, c + 1), (c, 3))]
    plan += [((c // 8 + 1, 8), 0, None) for c in ci if c > 40]
    for seed, ((n, m), many, how) in enumerate(plan):
        N = n * m
        S = F.sample("breg/%d" % seed, {an: n, am: m})
        S.ops.update(numeval.OPS)
        r = S.rnd
        sz = r.choice((1., 1., 1., .05, 20., 300.))
        fv = [sz * r.uniform(-1, 1) for _ in range(N)]
        mu, tol = r.uniform(.3, 4) / sz, 10 ** r.uniform(-2.5, -.7)
        maxit, sw = r.choice((0, 1, 2, 4)) if seed % 7 > 4 else r.choice((3, 6, 7, 8)), r.choice((0, 1, 1, 2, 3))
        if seed >= 400:
            maxit, sw = (many, 1) if how == 0 else (3, many) if how else (3, 2)
        es = refbreg(n, m, fv, mu, 0.0, maxit, sw)[3]
        j = seed % 7                            # stop in iteration j + 2, or never
        if seed >= 400:
            tol = 1e-300
        elif j < 5:
            if j >= len(es) or any(e <= 1.1 * es[j] for e in es[:j]) or es[j] <= 0:
                continue
            tol = es[j] * 1.02
        elif es and max(es) > 0:
            tol = min(e for e in es if e > 0) * .9
        ref = refbreg(n, m, fv, mu, tol, maxit, sw)
        if ref[2] and min(ref[2]) < 1e-6 or seed < 400 and used >= (60 if quick else 200):
            continue
        used += 1
        longest = max(longest, ref[1])
        setvec(S, ext("f"), fv)
        S.vals[mk("fsym", "mu")] = mu
        S.vals[mk("fsym", "tol")] = tol
        S.ints[mi], S.ints[mj] = maxit, sw
        try:
            Trace(S, 400).run(I.kids[0])
            ret, s = S.pick(F.rets)
        except Unknown as e:
            rep.undecided(key, str(e))
            return
        want = [("status", lambda: float(S.ev(ret)), 0.0)]
        want += [("u[%d]" % k, lambda k=k: S.elem(s, F.av[2], k), v) for k, v in enumerate(ref[0])]
        want += [("f[%d] kept" % k, lambda k=k: S.elem(s, F.av[3], k), v)
                 for k, v in enumerate(fv)]
        if not compare(rep, key, F, S, want, 1e-7):
            return
        nv += len(want)
    rep.ok(key)
    rep.count("values compared", nv)
    rep.count("longest run compared (iterations)", longest)
    onesided(rep, I)


BLOCKS = ("main", "breg_shrink1", "breg_mxpy_z", "breg_anis_guass_seidel", "breg_anis_jacobi",
          "breg_anis_rhs", "hess_inv_diag")


def job(k):
    rep = Report("C21", "quick")
    try:
        if k == "main":
            j_main(rep)
        else:
            blocks(rep, k)
    except (Unknown, absint.Blowup) as e:
        rep.undecided(k, str(e))
    return rep.data()


def run(rep):
    rep.rule = RULE
    rep.assume = ["floating point arithmetic is read as real arithmetic"]
    pmap(job, BLOCKS, rep)
