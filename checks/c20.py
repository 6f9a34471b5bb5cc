"""C20: NESTA smooths, projects, accelerates and continues as documented."""
import math

from lab import *
import c11
from machine import Trace, TooLong
from common import Report, pmap

RULE = ("Symbolic summaries of the NESTA building blocks and the derived one-iteration relations "
        "of the whole solver (composed from the entry state), with A an arbitrary matrix with "
        "orthonormal rows and W an arbitrary matrix, compared by random interpretation with "
        "the method: the Euclidean projection onto {|Ax-b| <= sigma}, the Huber-smoothed l1 "
        "norm of W'x and its gradient, Nesterov's y/z/x recurrences, the continuation in mu "
        "and tol, the stopping rule on the mean of the last ten values.")
TN = "_l1c_NestaProb"
am, an, ap = mk("arg", "m"), mk("arg", "n"), mk("arg", "p")
ncon, verb = mk("arg", "n_continue"), mk("arg", "verbose")
MD = [(3, 2, 4), (1, 1, 1), (4, 4, 4), (5, 3, 8), (6, 2, 3)]
DD = [{am: m, an: n, ap: p} for m, n, p in MD]
VECS = ("xo", "xk", "yk", "zk", "Atb", "gradf", "gradf_sum", "b", "dwork1", "dwork2")
SCAL = ("fx", "sigma", "mu", "tol", "mu_j", "tol_j", "L")
PRB = mk("obj", "ext", "prb")


def orth(r, n, m):
    """n by m with orthonormal rows"""
    R = []
    while len(R) < n:
        v = [r.gauss(0, 1) for _ in range(m)]
        for _ in range(2):
            for q in R:
                c = dot(q, v)
                v = [x - c * y for x, y in zip(v, q)]
        c = math.sqrt(dot(v, v))
        R.append([x / c for x in v])
    return R


def wide(d):
    return {**d, am: max(d[am], d[an])}


def mats(S, d):
    m, n, p = d[am], d[an], d[ap]
    S.mats = {"A": (n, m), "W": (m, p), "R": (n, m)}
    A = orth(S.rnd, n, m)
    numeval.setmatrix(S, "A", A)
    return A, matrix(S, "W", m, p)


def nrm(v):
    return math.sqrt(dot(v, v))


def tname(prog):
    for t in ("l1c_NestaProb", "_l1c_NestaProb"):
        if prog.types.get(t):
            return t
    raise Unknown("problem record type")


class Scene:
    def __init__(self):
        self.prog = image("lib")
        self.lab = Lab(self.prog, {"A": (P(an), P(am)), "W": (P(am), P(ap)),
                                   "R": (P(an), P(am))})
        self.I = self.lab.itp()
        self.tn = tname(self.prog)
        st = State()
        st.facts[mk("nul", PRB)] = False
        v = {"m": P(am), "n": P(an), "p": P(ap)}
        for x in VECS:
            o = mk("obj", "ext", "prb_" + x)
            st.facts[mk("nul", o)] = False
            v[x] = ptr(o, ZERO)
        for x in SCAL:
            v[x] = mk("fsym", x)
        self.lab.build(self.I, st, PRB, self.tn, v)
        self.lab.table(self.I, st, PRB, self.tn, "ax_funs")
        for a in (am, an, ap):
            self.I.addiv(st, P(a), 1, None)
        self.st = st
        self.pp = ptr(PRB, ZERO)

    def get(self, S, name, k=None):
        def g(s, *_):
            if k is None:
                return S.ev(self.lab.field(self.I, s, PRB, self.tn, name, "f"))
            return S.elem(s, self.lab.field(self.I, s, PRB, self.tn, name, "p"), k)
        return (g,)


def project(A, b, sigma, q):
    aq = mvec(A, q)
    e = [x - y for x, y in zip(aq, b)]
    ne = nrm(e)
    if ne <= sigma:
        return list(q), ne
    t = [(sigma / ne - 1) * x for x in e]
    return [x + y for x, y in zip(q, mtvec(A, t))], ne


def smooth(W, x, mu):
    w = mtvec(W, x)
    u = [v / max(mu, abs(v)) for v in w]
    return dot(u, w) - mu / 2 * dot(u, u), mvec(W, u)


def j_project(rep):
    sc = Scene()
    Z = {}

    def smp(F, S, d):
        A, _ = mats(S, d)
        r = S.rnd
        m, n = d[am], d[an]
        k = S.scale
        xx = [k * r.uniform(-1, 1) for _ in range(m)]
        g = [k * r.uniform(-1, 1) for _ in range(m)]
        b = [k * r.uniform(-1, 1) for _ in range(n)]
        L, mu = S.mag(.5, 2), r.uniform(.1, 2)
        mu *= L if S.wide else 1
        q = [x - mu / L * v for x, v in zip(xx, g)]
        ne = nrm([x - y for x, y in zip(mvec(A, q), b)])
        sg = ne * r.choice((10 ** r.uniform(-5, -2), .001, .3, .9, 1.1, 4))
        for k, v in (("L", L), ("mu_j", mu), ("mu", r.uniform(.1, 2)), ("sigma", sg)):
            S.vals[mk("fsym", k)] = v
        setvec(S, F.av[1], xx)
        setvec(S, F.av[2], g)
        setvec(S, ext("prb_b"), b)
        setvec(S, ext("prb_Atb"), mtvec(A, b))
        Z["z"] = project(A, b, sg, q)[0], xx, g

    def spec(F, S, d):
        v, xx, g = Z["z"]
        return [("vk[%d]" % k, (3, k), x) for k, x in enumerate(v)] + \
            [("xx[%d] kept" % k, (1, k), x) for k, x in enumerate(xx)] + \
            [("g[%d] kept" % k, (2, k), x) for k, x in enumerate(g)]
    kernel(rep, sc.prog, "l1c_nesta_project", DD, spec, sample=smp, modes=(0,) * 8, st=sc.st,
           args={0: sc.pp}, itp=sc.I, maxdim=1100, fix=wide)


def j_feval(rep):
    sc = Scene()
    Z = {}

    def smp(F, S, d):
        _, W = mats(S, d)
        r = S.rnd
        x = [S.scale * r.uniform(-1, 1) for _ in range(d[am])]
        w = mtvec(W, x)
        mu = r.choice((abs(r.choice(w)) * r.choice((.99, 1.01)), S.mag(.01, 3)))
        S.vals[mk("fsym", "mu_j")] = mu
        S.vals[mk("fsym", "mu")] = r.uniform(.01, 3)
        setvec(S, ext("prb_xk"), x)
        Z["z"] = x, smooth(W, x, mu)

    def spec(F, S, d):
        x, (f, g) = Z["z"]
        return [("fx", sc.get(S, "fx"), f)] + \
            [("gradf[%d]" % k, sc.get(S, "gradf", k), v) for k, v in enumerate(g)] + \
            [("xk[%d] kept" % k, sc.get(S, "xk", k), v) for k, v in enumerate(x)]
    kernel(rep, sc.prog, "l1c_nesta_feval", DD, spec, sample=smp, modes=(0,) * 8, st=sc.st,
           args={0: sc.pp}, itp=sc.I, maxdim=1100, fix=wide)


OPT = ("mu", "tol", "sigma")


def options(lab, I, st):
    O = mk("obj", "ext", "opts")
    st.facts[mk("nul", O)] = False
    v = {k: mk("fsym", "o_" + k) for k in OPT}
    v.update(n_continue=P(ncon), verbose=P(verb))
    lab.build(I, st, O, "l1c_NestaOpts", v)
    I.addiv(st, P(ncon), 0, None)


def axfuns(lab, I, st):
    AX = mk("obj", "ext", "ax")
    st.facts[mk("nul", AX)] = False
    lab.table(I, st, AX, "l1c_AxFuns")
    lab.build(I, st, AX, "l1c_AxFuns", {"n": P(an), "m": P(am), "p": P(ap), "q": P(am),
                                       "norm_W": mk("fsym", "norm_W")})


def start(A, W, b, o):
    xo = mtvec(A, b)
    mu0 = .9 * max(map(abs, mtvec(W, xo)))
    k = o["n_continue"]
    return xo, mu0, math.exp(math.log(o["mu"] / mu0) / k), math.exp(math.log(o["tol"] / .1) / k)


def j_setup(rep):
    sc = Scene()
    Z = {}
    st = sc.st
    options(sc.lab, sc.I, st)
    axfuns(sc.lab, sc.I, st)
    # nothing but the sizes and arrays is filled in yet
    sc.lab.build(sc.I, st, PRB, sc.tn, {x: mk("fsym", "junk_" + x) for x in SCAL})

    def smp(F, S, d):
        A, W = mats(S, d)
        r = S.rnd
        b = [S.scale * r.uniform(-1, 1) for _ in range(d[an])]
        o = dict(mu=10 ** r.uniform(-4, 0), tol=10 ** r.uniform(-4, -1.5), sigma=r.uniform(0, 1),
                 n_continue=r.choice((1, 2, 5, 9)))
        setvec(S, F.av[3], b)
        for k in OPT:
            S.vals[mk("fsym", "o_" + k)] = o[k]
        S.ints[ncon] = o["n_continue"]
        S.ints[verb] = 0
        nw = S.vals[mk("fsym", "norm_W")] = r.uniform(1, 3)
        Z["z"] = o, start(A, W, b, o), nw, b

    def spec(F, S, d):
        o, (xo, mu0, bm, bt), nw, b = Z["z"]
        k = o["n_continue"]
        return [("first mu of the continuation", sc.get(S, "mu_j"), mu0),
                ("first tol of the continuation", sc.get(S, "tol_j"), .1),
                ("factor of mu", (1, 0), bm), ("factor of tol", (2, 0), bt),
                ("L", sc.get(S, "L"), nw * nw), ("sigma", sc.get(S, "sigma"), o["sigma"])] + \
            [("xo[%d]" % i, sc.get(S, "xo", i), v) for i, v in enumerate(xo)] + \
            [("Atb[%d]" % i, sc.get(S, "Atb", i), v) for i, v in enumerate(xo)] + \
            [("b[%d]" % i, sc.get(S, "b", i), v) for i, v in enumerate(b)] + \
            [("status", (lambda s: float(S.ev(S.pick(F.rets)[0])),), 0.0)]
    f = need(sc.prog, "l1c_nesta_setup")
    if len(f.args) != 6:
        raise Unknown("unexpected signature")
    kernel(rep, sc.prog, "l1c_nesta_setup", DD, spec, sample=smp, modes=(0,) * 6, st=st,
           args={0: sc.pp, 4: ext("ax"), 5: ext("opts")}, itp=sc.I, maxdim=1100, fix=wide)


def refnesta(A, W, b, o, normw, limit, rels=None):
    xo, mu, bm, bt = start(A, W, b, o)
    L = normw ** 2
    tol = .1
    x = list(xo)
    margin, its = [], []
    for _ in range(o["n_continue"]):
        mu *= bm
        tol *= bt
        hist, gs = [], [0.0] * len(x)
        for k in range(10 ** 9):
            if k >= limit:
                return None
            f, g = smooth(W, x, mu)
            t = mu / L
            y, e1 = project(A, b, o["sigma"], [p - t * q for p, q in zip(x, g)])
            gs = [p + .5 * (k + 1) * q for p, q in zip(gs, g)]
            z, e2 = project(A, b, o["sigma"], [p - t * q for p, q in zip(xo, gs)])
            margin += [abs(e - o["sigma"]) / o["sigma"] for e in (e1, e2)]
            tau = 2 / (k + 3)
            x = [tau * p + (1 - tau) * q for p, q in zip(z, y)]
            fb = sum(hist) / len(hist) if hist else None
            hist = (hist + [f])[-10:]
            if fb is not None:
                rel = abs(f - fb) / fb
                margin.append(abs(rel - tol) * min(1 / tol, 1e6))
                if rels is not None:
                    rels.append((k, rel))
                if rel < tol:
                    break
        its.append(k + 1)
        xo = list(x)
    return x, margin, its


def j_main(rep, verbose=None):
    key = "l1c_nesta: continuation and Nesterov iteration"
    prog = image("lib")
    f = need(prog, "l1c_nesta")
    if len(f.args) != 6:
        raise Unknown("unexpected signature")
    lab = Lab(prog, {"A": (P(an), P(am)), "W": (P(am), P(ap)), "R": (P(an), P(am))},
              None if verbose is None else PRINTERS)
    I = lab.itp()
    I.openloops = True
    st = State()
    for o in ("xk", "b"):
        st.facts[mk("nul", mk("obj", "ext", o))] = False
    options(lab, I, st)
    axfuns(lab, I, st)
    for a in (am, an, ap):
        I.addiv(st, P(a), 1, None)
    if verbose is not None:
        hook(I, st, rep, key, verb)
    F = Fn(prog, "l1c_nesta", st=st, itp=I, args={
        0: P(am), 1: ext("xk"), 2: P(an), 3: ext("b"), 4: ext("ax"), 5: ext("opts")})
    quick = rep.tier == "quick"
    vals = verbose and c11.values(F, I, verb, verbose)
    nv = used = longest = 0
    seen = set()
    # besides: more iterations, and more unknowns, than any number the code compares with
    ci = [c for c in loopconsts(F) if c <= 1100]
    rep.count("numbers the code compares with", len(ci))
    plan = [(DD[k % len(DD)], 0) for k in range(200)]
    if verbose is None:
        plan += [(d, c + 2) for c in ci if 10 < c <= 300 for d in DD * 12]
        plan += [(d, -c - 2) for c in ci if c <= 60 for d in DD[:3] * 4]
        plan += [({am: v, an: max(1, v // 3), ap: v + 1}, 0) for c in ci if c <= 80
                 for v in (c, c + 1) for _ in range(4)]
        plan += [({am: c + 1, an: 1, ap: 2}, 0) for c in ci if c > 80 for _ in range(12)]
    done = set()
    for seed, (d, atleast) in enumerate(plan):
        m, n = d[am], d[an]
        tag = atleast or ("m", m)
        if seed >= 200 and tag in done:
            continue
        S = F.sample("nesta/%d" % seed, d)
        S.ops.update(numeval.OPS)
        r = S.rnd
        A, W = mats(S, d)
        phases = max(0, -atleast)
        atleast = max(0, atleast)
        sz = r.choice((1., 1., 1., .01, 30.))
        b = [sz * r.uniform(-1, 1) for _ in range(n)]
        o = dict(mu=sz * 10 ** r.uniform(-2, 0),
                 tol=10 ** (r.uniform(-9, -4) if atleast else r.uniform(-3.2, -1.2)),
                 sigma=nrm(b) * r.choice((.05, .2, .6)), n_continue=r.choice((1, 1, 2, 3)))
        # no less than the norm of W: otherwise the iteration blows up, and with it rounding
        nw = r.uniform(1, 1.6) * math.sqrt(sum(dot(v, v) for v in W))
        if atleast:
            o["n_continue"] = 1
            rels, low = [], math.inf
            refnesta(A, W, b, {**o, "tol": 1e-30}, nw, 2 * atleast + 60, rels)
            for k, v in rels:              # stop there and not before
                if k >= atleast and 0 < v < .999 * low:
                    o["tol"] = math.sqrt(v * low)
                    break
                low = min(low, v)
        elif phases:
            o.update(n_continue=phases, tol=10 ** r.uniform(-1.2, -.8))
        elif seed >= 200:
            o["n_continue"] = 2
        if m > 80:
            o.update(n_continue=1, tol=10 ** r.uniform(-1.2, -.3), mu=sz * r.uniform(.05, .3))
        ref = refnesta(A, W, b, o, nw, 3 * atleast + 40)
        if ref is None or min(ref[1]) < 1e-6 or sum(ref[2]) > 60 + 3 * atleast + 8 * phases or \
                max(ref[2]) < atleast:
            continue
        cls = (o["n_continue"], max(ref[2]) > 11)
        if seed < 200 and ((cls in seen and used >= (8 if quick else 40)) or
                           used >= (16 if quick else 60)):
            continue
        if seed >= 200:
            done.add(tag)
        seen.add(cls)
        setvec(S, ext("b"), b)
        for k in OPT:
            S.vals[mk("fsym", "o_" + k)] = o[k]
        S.vals[mk("fsym", "norm_W")] = nw
        S.ints[ncon] = o["n_continue"]
        if vals:
            verbose = vals[used % len(vals)]
        S.ints[verb] = used % 3 if verbose is None else verbose
        try:
            Trace(S, sum(ref[2]) + 30).run(I.kids[0])
            ret, s = S.pick(F.rets)
        except TooLong as e:
            rep.violation(key + ": number of iterations", "%s: still running 30 iterations after "
                          "the stopping rule is met (one random valuation)" % e)
            return
        except Unknown as e:
            rep.undecided(key, str(e))
            return
        used += 1
        longest = max([longest] + ref[2])
        want = [("status", lambda: float(S.ev(ret)), 0.0)]
        want += [("x[%d]" % k, lambda k=k: S.elem(s, F.av[1], k), v)
                 for k, v in enumerate(ref[0])]
        want += [("b[%d] kept" % k, lambda k=k: S.elem(s, F.av[3], k), v)
                 for k, v in enumerate(b)]
        if verbose is not None:
            want.append(("lines printed although quiet", lambda: float(
                verbose == 0 and printed(S, I, s) > 0), 0.0))
            want.append(("output that bypasses the replaceable function",
                         lambda: printed(S, I, s, 8), 0.0))
        if not compare(rep, key, F, S, want, 1e-9):
            return
        nv += len(want)
    if used < 5 or not any(c[1] for c in seen):
        rep.undecided(key, "too few usable samples")
        return
    rep.ok(key)
    rep.count("values compared", nv)
    rep.count("longest run compared (iterations)", longest)
    onesided(rep, I)


JOBS = dict(main=j_main, project=j_project, feval=j_feval, setup=j_setup)


def job(k):
    rep = Report("C20", "quick")
    try:
        JOBS[k](rep)
    except (Unknown, absint.Blowup) as e:
        rep.undecided(k, str(e))
    return rep.data()


def run(rep):
    rep.rule = RULE
    rep.assume = ["floating point arithmetic is read as real arithmetic",
                  "operators are linear, A has orthonormal rows, Aty and Wtx are the transposes "
                  "of Ax and Wz, operators do not overlap their arguments"]
    pmap(job, JOBS, rep)
