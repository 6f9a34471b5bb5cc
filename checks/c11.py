"""C11: the CG solvers return the best conjugate gradient iterate and its true residual."""
import math

from lab import *
from machine import Trace
from common import Report, pmap

RULE = ("One iteration of each CG solver is derived as a relation between an arbitrary loop "
        "head and the next head or the exit, with the matrix an arbitrary linear map reached "
        "only through the callback. The relations, composed from the entry state, are compared "
        "with the conjugate gradient recurrences by random interpretation: the returned vector "
        "is the iterate (initial guess included) with the smallest residual, the reported "
        "residual is |b-Ax|/|b| of exactly that vector, the iteration count is the number of "
        "iterations made and at most the limit, b is untouched.")
aN, aK, aV = mk("arg", "N"), mk("arg", "maxit"), mk("arg", "verbose")


def matvec(I, st, inst, a, cctx, f):
    I.mark += 1
    n, x, y, data = a[:4]
    ok = models.access(I, st, inst, x, P(n), "load")
    ok2 = models.access(I, st, inst, y, P(n), "store")
    good = data.op == "ptr" and data.args[0] is mk("obj", "ext", "data") and \
        cval(data.args[1]) == 0
    if ok and ok2:
        I.addlayer(st, y.args[0], mk("op", mk("lin", "G" if good else "wrong data", 0),
                                     y.args[1], P(n), I.content(st, x.args[0]), x.args[1], P(n)))
    return [(None, st)]


def scene(name, pre, ghost=False, rep=None):
    prog = image("lib")
    lab = Lab(prog, {}, {"@AX": matvec, **(PRINTERS if ghost else {})})
    f = prog.find(name) or need(prog, name)
    I = lab.itp()
    I.openloops = True
    st = State()
    names = ["N", "x", "b", "Minv", "work", "AX", "data", "res", "par"]
    if not pre:
        names.remove("Minv")
    if len(names) != len(f.args):
        raise Unknown("unexpected signature")
    A = {}
    for k, n in enumerate(names):
        o = mk("obj", "ext", n)
        st.facts[mk("nul", o)] = False
        A[k] = P(aN) if n == "N" else mk("fptr", "@AX") if n == "AX" else ptr(o, ZERO)
    lab.build(I, st, mk("obj", "ext", "par"), "l1c_CgParams",
              {"tol": mk("fsym", "tol"), "max_iter": P(aK), "verbose": P(aV)})
    for j in range(5 if pre else 4):
        o = mk("obj", "ext", "wk%d" % j)
        st.facts[mk("nul", o)] = False
        I.write(st, mk("obj", "ext", "work"), ic(8 * j), 8, ptr(o, ZERO))
    for a in (aN,):
        I.addiv(st, P(a), 1, None)
    I.addiv(st, P(aK), 0, None)
    if ghost:
        hook(I, st, rep, name, aV)
    F = Fn(prog, name, st=st, args=A, itp=I)
    return lab, F, {n: k for k, n in enumerate(names)}


def spd(r, n, lo=.05, log=False):
    """random symmetric positive definite matrix with eigenvalues in [lo, 1]"""
    if n > 280:                                    # cheaper: tridiagonal
        return [[r.uniform(.6, 1) if i == j else .1 if abs(i - j) == 1 else 0.0
                 for j in range(n)] for i in range(n)]
    ev = [lo ** (i / max(1, n - 1)) if log else lo + (1 - lo) * (i + 1) / n for i in range(n)]
    Q = [[float(i == j) for j in range(n)] for i in range(n)]
    for _ in range(3):
        v = [r.gauss(0, 1) for _ in range(n)]
        vv = dot(v, v)
        for j in range(n):
            c = 2 * sum(v[i] * Q[i][j] for i in range(n)) / vv
            for i in range(n):
                Q[i][j] -= c * v[i]
    return [[sum(Q[i][k] * ev[k] * Q[j][k] for k in range(n)) for j in range(n)]
            for i in range(n)]


def reference(G, x, b, mi, maxit, tol):
    n = len(x)
    nb = math.sqrt(dot(b, b))
    r = [p - q for p, q in zip(b, mvec(G, x))]
    z = [p * q for p, q in zip(r, mi)]
    p = list(z)
    dl = dot(r, z)
    hist = [(math.sqrt(dot(r, r)) / nb, list(x))]
    x = list(x)
    k = 0
    for k in range(1, maxit + 1):
        q = mvec(G, p)
        al = dl / dot(p, q)
        x = [u + al * v for u, v in zip(x, p)]
        r = [u - al * v for u, v in zip(r, q)]
        z = [u * v for u, v in zip(r, mi)]
        d0, dl = dl, dot(r, z)
        p = [u + dl / d0 * v for u, v in zip(z, p)]
        hist.append((math.sqrt(dot(r, r)) / nb, list(x)))
        if hist[-1][0] < tol:
            break
    best = min(hist, key=lambda h: h[0])
    return best, k, hist


def job(a):
    name, pre, quick = a
    rep = Report("C11", "quick")
    solver(rep, name, pre)
    return rep.data()


def values(F, I, atom, vals):
    """the given values and, unless quiet, those that the code compares the option with"""
    if vals == (0,):
        return vals
    terms = [x for _, s in F.rets for x in (s.guard, tuple(s.mem.values()))]
    todo = [k for q in I.kids.values() for k in q] if isinstance(I.kids, dict) else list(I.kids[0])
    while todo:
        r = todo.pop()
        todo += r.kids
        terms += [x for s in r.back + [e[2] for e in r.raw] for x in (s.guard,
                                                                     tuple(s.mem.values()))]
    more = {v for c in numeval.compared(I, terms, atom) for v in (c - 1, c, c + 1, -c)}
    return vals + tuple(sorted(v for v in more if v not in vals and v))


def solver(rep, name, pre, verbose=None):
    """verbose: None, or the printing option of every run, whose output is then counted"""
    key = name
    try:
        lab, F, pos = scene(name, pre, verbose is not None, rep)
        cases = [(n, k, v) for n, ks in ((1, (0, 1)), (2, (0, 1)), (3, (0, 1, 2)),
                                         (5, (2, 3, 4)), (8, (6,)))
                 for k in ks for v in (0, 1, 2)] + [(60, 24, 0), (4, 2, 5), (5, 3, 5), (6, 4, 5)] + \
            [(3, 1, 10), (4, 2, 10), (5, 3, 10), (4, 3, 11), (5, 3, 11), (6, 4, 12), (7, 4, 13)]
        ci = loopconsts(F)
        for c in ci:
            if c <= 120:
                cases.append((2 * c + 20, c + 3, 0))
            elif c <= 1100:
                cases.append((c + 1, 2, 0))
        nv = 0
        nb = [0]
        vals = verbose and values(F, F.I, aV, verbose)
        if vals:
            cases = [c for c in cases if c[2] in (0, 5) and c[0] < 20]
            cases += [(2 * c + 20, c + 3, 0) for c in vals if 7 < c <= 40]
        turn = 0
        for n, k, v in cases:
            for tolm in (0, 1, 2) if n < 20 else (0,):
                S = F.sample("cg/%s/%s" % ((n, k, v), tolm), {aN: n, aK: k, aV: v})
                S.ops.update(numeval.OPS)
                r = S.rnd
                G = spd(r, n, .01, True) if v == 5 else \
                    spd(r, n, .0005, True) if v >= 10 else \
                    spd(r, n, .02 if n <= 60 else .002) if n > 20 else spd(r, n)
                S.mats = {"G": (n, n), "wrong data": (n, n)}
                numeval.setmatrix(S, "G", G)
                x = [r.uniform(-1, 1) for _ in range(n)]
                b = [r.uniform(-1, 1) for _ in range(n)]
                mi = [1.0] * n
                if pre:
                    mi = [r.uniform(.1, 3) if n < 20 else r.uniform(.6, 1.4) for _ in range(n)]
                    setvec(S, F.av[pos["Minv"]], mi)
                sz = 1.0
                for q in range(60 if v == 5 else 0):   # last iterate is not the best one
                    _, _, h0 = reference(G, x, b, mi, k, 0.0)
                    if h0[-1][0] > 1.05 * min(h[0] for h in h0):
                        break
                    x = [r.uniform(-1, 1) for _ in range(n)]
                    y = [r.uniform(-1, 1) for _ in range(n)]
                    b = [p + c for p, c in zip(mvec(G, x), mvec(G, y))]
                for q in range(400 if v >= 10 else 0):  # the best iterate is number v - 10
                    y = [r.gauss(0, 1) for _ in range(n)]
                    e = 10 ** r.uniform(-3, 0)
                    rr = [p - c + e * r.gauss(0, 1) for p, c in zip(y, mvec(G, y))]
                    x = [r.uniform(-1, 1) for _ in range(n)]
                    b = [p + c for p, c in zip(mvec(G, x), rr)]
                    _, _, h0 = reference(G, x, b, mi, k, 0.0)
                    hh = [h[0] for h in h0]
                    if all(hh[v - 10] < .95 * z for j, z in enumerate(hh) if j != v - 10):
                        nb[0] += 1
                        break
                _, _, h0 = reference(G, x, b, mi, k, 0.0)
                res = sorted(h[0] for h in h0)
                tol = [1e-14, (res[0] + res[min(1, len(res) - 1)]) / 2 * 1.001,
                       res[len(res) // 2] * 1.01][tolm]
                best, kk, hist = reference(G, x, b, mi, k, tol)
                if any(h[0] < 1e-8 for h in hist) or any(abs(h[0] - tol) < 1e-9 for h in hist):
                    continue
                if v in (1, 2):                        # any magnitude
                    sz = 10 ** (r.uniform(-6, 6) if v == 1 else r.choice((-1, 1)) * r.uniform(6, 14))
                    x, b = [sz * q for q in x], [sz * q for q in b]
                setvec(S, F.av[pos["x"]], x)
                setvec(S, F.av[pos["b"]], b)
                if verbose is not None:
                    verbose = vals[turn % len(vals)] if n < 20 else k - 3
                    turn += 1
                    S.ints[aV] = verbose
                S.vals[mk("fsym", "tol")] = tol
                T = Trace(S)
                T.run(F.I.kids[0])
                ret, s = S.pick(F.rets)
                RO = F.av[pos["res"]].args[0]
                fld = lambda nm, kd: S.ev(lab.field(F.I, s, RO, "l1c_CgResults", nm, kd))
                want = [("reported residual (relative to the right one)",
                         lambda: fld("cgres", "f") / best[0], 1.0),
                        ("reported iterations", lambda: float(fld("cgiter", "i")), float(kk)),
                        ("status", lambda: float(S.ev(ret)), 0.0)]
                for i in range(n):
                    want.append(("x[%d]" % i, lambda i=i: S.elem(s, F.av[pos["x"]], i) / sz,
                                 best[1][i]))
                    want.append(("b[%d] kept" % i, lambda i=i: S.elem(s, F.av[pos["b"]], i) / sz,
                                 b[i] / sz))
                if verbose is not None:
                    want.append(("lines printed although quiet", lambda: float(
                        verbose == 0 and printed(S, F.I, s) > 0), 0.0))
                    if verbose > 0:
                        want.append(("a status line is due, one is printed",
                                     lambda: float(printed(S, F.I, s) > 0), float(kk >= verbose)))
                    want.append(("output that bypasses the replaceable function",
                                 lambda: printed(S, F.I, s, 8), 0.0))
                if not compare(rep, key, F, S, want, 1e-6):
                    return
                nv += len(want)
        rep.ok(key + ": best iterate, its residual, iteration count")
        rep.count("values compared", nv)
        rep.count("runs whose best iterate is not the last", nb[0])
    except (Unknown, absint.Blowup) as e:
        rep.undecided(key, str(e))


def run(rep):
    rep.rule = RULE
    rep.assume = ["floating point arithmetic is read as real arithmetic",
                  "the callback is a symmetric positive definite linear map"]
    pmap(job, [("l1c_cgsolve", False, 1), ("l1c_cgsolve_diag_precond", True, 1)], rep)
