"""C19: the log-barrier Newton method works with the right function, gradient, system, step."""
import math

from lab import *
import c11
from machine import Trace
from common import Report, pmap

RULE = ("Symbolic summaries of the log-barrier building blocks (functional, gradient and "
        "Hessian blocks, the linear system handed to the CG solver, the recovered direction, "
        "the largest feasible step, the initial u/tau/iteration count, the feasibility test), "
        "with A an arbitrary linear map, compared by random interpretation with the barrier "
        "function f(x,u) = sum u - (1/tau)(sum log(u-x) + sum log(u+x) + "
        "log((eps^2-|Ax-b|^2)/2)), its derivatives and their consequences.")
TN = "l1c_l1qcProb"
am, an = mk("arg", "m"), mk("arg", "n")
MD = [{am: 3, an: 2}, {am: 1, an: 1}, {am: 4, an: 4}, {am: 5, an: 3}, {am: 8, an: 2}]
VECS = ("b", "r", "fu1", "fu2", "w1p", "dx", "du", "sig11", "sig12", "ntgu", "gradf")
SCAL = ("tau", "epsilon", "fe_val", "f_val")
PRB = mk("obj", "ext", "prb")


class Scene:
    def __init__(self, extra=None):
        self.prog = image("lib")
        self.lab = Lab(self.prog, {"A": (P(an), P(am))}, extra)
        self.I = self.lab.itp()
        st = State()
        st.facts[mk("nul", PRB)] = False
        v = {"m": P(am), "n": P(an)}
        for x in VECS:
            o = mk("obj", "ext", "prb_" + x)
            st.facts[mk("nul", o)] = False
            v[x] = ptr(o, ZERO)
        for x in SCAL:
            v[x] = mk("fsym", x)
        self.lab.build(self.I, st, PRB, TN, v)
        self.lab.table(self.I, st, PRB, TN, "ax_funs")
        self.st = st
        self.pp = ptr(PRB, ZERO)

    def vecp(self, name):
        return ext("prb_" + name)

    def out(self, S, name, k):
        """derived element k of the array member / value of the scalar member"""
        def get(s, *_):
            if name in SCAL:
                return S.ev(self.lab.field(self.I, s, PRB, TN, name, "f"))
            p = self.lab.field(self.I, s, PRB, TN, name, "p")
            return S.elem(s, p, k)
        return (get,)

    def vals(self, S, d, want):
        return [("%s[%d]" % (n, k) if isinstance(e, list) else n, self.out(S, n, k),
                 e[k] if isinstance(e, list) else e)
                for n, e in want.items() for k in range(len(e) if isinstance(e, list) else 1)]


def feas(S, sc, d, xp=None, up=None):
    """random strictly feasible point; returns the numbers"""
    m, n = d[am], d[an]
    S.mats = {"A": (n, m)}
    r_ = S.rnd
    k = S.scale
    x = [k * r_.uniform(-1, 1) for _ in range(m)]
    u = [abs(v) + k * r_.uniform(.05, 1) for v in x]
    b = [k * r_.uniform(-1, 1) for _ in range(n)]
    A = matrix(S, "A", n, m)
    r = [p - q for p, q in zip(mvec(A, x), b)]
    eps = math.sqrt(dot(r, r)) + k * r_.uniform(.1, 1)
    tau = r_.choice((S.mag(.5, 5), S.mag(1, 300)))
    fe = .5 * (dot(r, r) - eps * eps)
    fu1 = [p - q for p, q in zip(x, u)]
    fu2 = [-p - q for p, q in zip(x, u)]
    S.vals[mk("fsym", "tau")] = tau
    S.vals[mk("fsym", "epsilon")] = eps
    setvec(S, sc.vecp("b"), b)
    if xp is not None:
        setvec(S, xp, x)
        setvec(S, up, u)
    return dict(m=m, n=n, A=A, x=x, u=u, b=b, r=r, eps=eps, tau=tau, fe=fe, fu1=fu1, fu2=fu2)


def current(S, sc, z):
    """the state fields as the functional leaves them"""
    for k in ("r", "fu1", "fu2"):
        setvec(S, sc.vecp(k), z[k])
    S.vals[mk("fsym", "fe_val")] = z["fe"]


def barrier(z):
    return sum(z["u"]) - (sum(math.log(-v) for v in z["fu1"]) +
                          sum(math.log(-v) for v in z["fu2"]) + math.log(-z["fe"])) / z["tau"]


def derivs(z):
    atr = mtvec(z["A"], z["r"])
    i1 = [1 / v for v in z["fu1"]]
    i2 = [1 / v for v in z["fu2"]]
    t, fe = z["tau"], z["fe"]
    gx = [-(a - b + c / fe) / t for a, b, c in zip(i1, i2, atr)]
    gu = [-(-t - a - b) / t for a, b in zip(i1, i2)]
    s11 = [a * a + b * b for a, b in zip(i1, i2)]
    s12 = [b * b - a * a for a, b in zip(i1, i2)]
    sx = [p - q * q / p for p, q in zip(s11, s12)]
    ntgz = [-t * v for v in gx]
    ntgu = [-t * v for v in gu]
    w = [p - q / s * o for p, q, s, o in zip(ntgz, s12, s11, ntgu)]
    return dict(atr=atr, gx=gx, gu=gu, s11=s11, s12=s12, sx=sx, ntgu=ntgu, w=w)


def hmul(z, v, q):
    """tau * (Schur complement of the Hessian) times q"""
    a = dot(v["atr"], q)
    aa = mtvec(z["A"], mvec(z["A"], q))
    return [s * p - y / z["fe"] + a * t / z["fe"] ** 2
            for s, p, y, t in zip(v["sx"], q, aa, v["atr"])]


# ------------------------------------------------------------------ scenarios
def j_feval(rep):
    sc = Scene()
    Z = {}

    def smp(F, S, d):
        Z["z"] = feas(S, sc, d, F.av[1], F.av[2])

    def spec(F, S, d):
        z = Z["z"]
        f = barrier(z)
        return sc.vals(S, d, dict(r=z["r"], fu1=z["fu1"], fu2=z["fu2"], fe_val=z["fe"],
                                  f_val=f)) + [("result", ("ret",), f)] + \
            [("x[%d] kept" % k, (1, k), z["x"][k]) for k in range(z["m"])] + \
            [("u[%d] kept" % k, (2, k), z["u"][k]) for k in range(z["m"])]
    kernel(rep, sc.prog, "_l1c_l1qc_f_eval", MD, spec, sample=smp, modes=(0, 0, 0), st=sc.st,
           args={0: sc.pp}, itp=sc.I, maxdim=1100)


def j_grad(rep):
    sc = Scene()
    Z = {}

    def smp(F, S, d):
        z = Z["z"] = feas(S, sc, d)
        current(S, sc, z)
        setvec(S, F.av[2], derivs(z)["atr"])

    def spec(F, S, d):
        z = Z["z"]
        v = derivs(z)
        return sc.vals(S, d, dict(gradf=v["gx"] + v["gu"], sig11=v["s11"], sig12=v["s12"],
                                  w1p=v["w"], ntgu=v["ntgu"])) + \
            [("sigx[%d]" % k, (1, k), v["sx"][k]) for k in range(z["m"])]
    kernel(rep, sc.prog, "_l1c_l1qc_hess_grad", MD, spec, sample=smp, modes=(0, 0, 0),
           st=sc.st, args={0: sc.pp}, itp=sc.I, maxdim=1100)


def j_dir(rep):
    calls = []

    def cg(I, st, inst, a, cctx, f):
        n, x, b, dw, fn, data, res = a[:7]
        calls.append((st.copy(), a))
        ok = models.access(I, st, inst, x, P(n), "store")
        if ok:
            I.addlayer(st, x.args[0], mk("op", mk("cgsol"), x.args[1], P(n),
                                         I.content(st, x.args[0]), x.args[1], P(n)))
        off, size, _ = sc.lab.tmember("l1c_CgResults", "cgres")
        I.write(st, res.args[0], padd(res.args[1], ic(off)), size, mk("fsym", "cgres"))
        return [(models.sym(cctx, "cg"), st)]
    sc = Scene({"l1c_cgsolve": cg})
    Z = {}

    def smp(F, S, d):
        z = Z["z"] = feas(S, sc, d)
        current(S, sc, z)
        S.vals[mk("fsym", "cgres")] = S.rnd.choice((.1, .49, .51, .9))
        S.ops["cgsol"] = lambda S, o, x, n: Z.setdefault(
            ("sol", S.seed), [S.rnd.uniform(-1, 1) for _ in range(n)])

    def spec(F, S, d):
        z = Z["z"]
        v = derivs(z)
        m = z["m"]
        dx = Z.setdefault(("sol", S.seed), [S.rnd.uniform(-1, 1) for _ in range(m)])
        bad = S.vals[mk("fsym", "cgres")] > .5
        w = [("status is failure", (lambda s: float(S.ev(S.pick(F.rets)[0]) != 0),),
              float(bad))]
        if not bad:
            du = [(p - q * x) / s for p, q, x, s in zip(v["ntgu"], v["s12"], dx, v["s11"])]
            w += sc.vals(S, d, dict(dx=dx, du=du, gradf=v["gx"] + v["gu"]))
        return w
    F = kernel(rep, sc.prog, "_l1c_l1qc_descent_dir", MD, spec, sample=smp,
               modes=(0, 0, 0, 0, 0), st=sc.st, args={0: sc.pp}, itp=sc.I, maxdim=1100)
    if F is None:
        return
    # the system handed to the solver
    key = "_l1c_l1qc_descent_dir: system handed to l1c_cgsolve"
    if not calls:
        rep.undecided(key, "no call")
        return
    nv = 0
    for cst, a in calls:
        fnp = a[4]
        if fnp.op != "fptr":
            rep.undecided(key, "operator is not a known function")
            return
        g = sc.I._bykey(fnp.args[0]) or sc.prog.byname.get(fnp.args[0])
        s2 = cst.copy()
        s2.guard = absint.TRUE_G
        s2.env = {}
        z_in, y_out = ext("z_in"), ext("y_out")
        try:
            ro = sc.I.call(g, [a[0], z_in, y_out, a[5]], s2, mk("ctx", TOPCTX, "matvec", 0))
        except absint.Blowup as e:
            rep.undecided(key, str(e))
            return
        for d in MD:
            for seed in range(2):
                S = F.sample("sys%d%s" % (seed, sorted(d.values())), d)
                S.ops.update(numeval.OPS)
                smp(F, S, d)
                try:
                    if not S.guard(cst.guard):
                        continue
                    z = Z["z"]
                    v = derivs(z)
                    q = getvec(S, z_in, z["m"])
                    _, s3 = S.pick(ro)
                    want = [("product[%d]" % k, lambda k=k: S.elem(s3, y_out, k), e)
                            for k, e in enumerate(hmul(z, v, q))]
                    want += [("right-hand side[%d]" % k, lambda k=k: S.elem(cst, a[2], k), e)
                             for k, e in enumerate(v["w"])]
                    want.append(("size", lambda: S.ev(P(a[0])), z["m"]))
                except Unknown as e:
                    rep.undecided(key, str(e))
                    return
                if not compare(rep, key, F, S, want):
                    return
                nv += len(want)
    rep.ok(key)
    rep.count("values compared", nv)


def j_h11(rep):
    """the Hessian product as used through its data record"""
    sc = Scene()
    H = mk("obj", "ext", "hd")
    st = sc.st.copy()
    try:
        sc.lab.build(sc.I, st, H, "Hess_data", {
            "one_by_fe": mk("fsym", "i1"), "one_by_fe_sqrd": mk("fsym", "i2"),
            "atr": ext("h_atr"), "sigx": ext("h_sigx"), "AtAx": sc.lab.fptr("AtAx")})
    except Unknown as e:
        rep.undecided("_l1c_l1qc_H11pfun", str(e))
        return

    def smp(F, S, d):
        S.mats = {"A": (d[an], d[am])}

    def spec(F, S, d):
        m = d[am]
        q, atr, sx = getvec(S, F.av[1], m), getvec(S, ext("h_atr"), m), \
            getvec(S, ext("h_sigx"), m)
        A = matrix(S, "A", d[an], m)
        i1, i2 = S.ev(mk("fsym", "i1")), S.ev(mk("fsym", "i2"))
        aa = mtvec(A, mvec(A, q))
        return [("product[%d]" % k, (2, k), sx[k] * q[k] - i1 * aa[k] + i2 * dot(atr, q) * atr[k])
                for k in range(m)] + \
            [("z[%d] kept" % k, (1, k), q[k]) for k in range(m)]
    kernel(rep, sc.prog, "_l1c_l1qc_H11pfun", MD, spec, sample=smp, modes=(0, 0, 2),
           st=st, args={0: P(am), 3: ptr(H, ZERO)}, itp=sc.I, maxdim=1100)


def j_step(rep):
    sc = Scene()
    Z = {}

    def smp(F, S, d):
        z = Z["z"] = feas(S, sc, d)
        current(S, sc, z)
        k = S.rnd.choice((.01, .3, 1, 5))
        z["dx"] = [k * S.rnd.uniform(-1, 1) for _ in range(z["m"])]
        z["du"] = [k * S.rnd.uniform(-1, 1) for _ in range(z["m"])]
        if S.rnd.random() < .3:
            z["du"] = [abs(v) + .1 for v in z["dx"]]      # no constraint from u
        t = S.rnd.random()
        if t < .2:
            z["dx"] = [0.0] * z["m"]                      # 0/0
        elif t < .4:                                      # outside the cone by rounding
            ad = mvec(z["A"], z["dx"])
            z["eps"] = 0.0
            if dot(z["r"], ad) ** 2 > .99 * dot(z["r"], z["r"]) * dot(ad, ad):
                z["eps"] = None
            S.vals[mk("fsym", "epsilon")] = z["eps"] or 0.0
        setvec(S, sc.vecp("dx"), z["dx"])
        setvec(S, sc.vecp("du"), z["du"])

    def spec(F, S, d):
        z = Z["z"]
        if z["eps"] is None:
            return None
        ad = mvec(z["A"], z["dx"])
        a, b, c = dot(ad, ad), 2 * dot(z["r"], ad), dot(z["r"], z["r"]) - z["eps"] ** 2
        disc = b * b - 4 * a * c
        s = 1 if a == 0 or disc < 0 else (-b + math.sqrt(disc)) / (2 * a)
        for p, q, f1, f2 in zip(z["dx"], z["du"], z["fu1"], z["fu2"]):
            if p - q > 0:
                s = min(s, -f1 / (p - q))
            if -p - q > 0:
                s = min(s, -f2 / (-p - q))
        return [("step", ("ret",), .99 * min(1, s))]
    kernel(rep, sc.prog, "_l1c_l1qc_find_max_step", MD, spec, sample=smp, modes=(0,) * 14,
           st=sc.st, args={0: sc.pp}, itp=sc.I, maxdim=1100)


def j_init(rep):
    sc = Scene()
    st = sc.st.copy()
    O = mk("obj", "ext", "opts")
    st.facts[mk("nul", O)] = False
    lbi = mk("arg", "lbiter")
    sc.lab.build(sc.I, st, O, "l1c_L1qcOpts", {
        "tau": mk("fsym", "tau0"), "mu": mk("fsym", "mu"), "lbtol": mk("fsym", "lbtol"),
        "lbiter": P(lbi)})

    def smp(F, S, d):
        S.vals[mk("fsym", "mu")] = S.rnd.uniform(2, 20)
        S.vals[mk("fsym", "lbtol")] = 10 ** S.rnd.uniform(-6, -1)
        S.ints[lbi] = S.rnd.choice((0, 0, 3, 7))

    def get(S, path, kind):
        return (lambda s: float(S.ev(sc.lab.field(sc.I, s, O, "l1c_L1qcOpts", path, kind))),)

    def spec(F, S, d):
        m = d[am]
        x = getvec(S, F.av[1], m)
        mx = max(map(abs, x))
        if mx == 0:
            return None
        tau = max((2 * m + 1) / sum(map(abs, x)), 1)
        lb = S.ints[lbi]
        w = [("u[%d]" % k, (2, k), .95 * abs(x[k]) + .1 * mx) for k in range(m)]
        w.append(("tau", get(S, "tau", "f"), tau))
        if lb == 0:
            t = (math.log(2 * m + 1) - math.log(S.vals[mk("fsym", "lbtol")]) - math.log(tau)) / \
                math.log(S.vals[mk("fsym", "mu")])
            if abs(t - round(t)) < 1e-6:
                return None
            lb = math.ceil(t)
        w.append(("number of barrier iterations", get(S, "lbiter", "i"), float(lb)))
        return w
    kernel(rep, sc.prog, "_l1c_l1qc_newton_init", MD, spec, sample=smp, modes=(0, 0, 0, 2, 1, 1),
           st=st, args={0: P(am), 3: ptr(O, ZERO)}, itp=sc.I, maxdim=1100)


def j_feasible(rep):
    sc = Scene()
    Z = {}

    def smp(F, S, d):
        z = Z["z"] = feas(S, sc, d, F.av[1], F.av[1])
        setvec(S, F.av[1], z["x"])
        nr = math.sqrt(dot(z["r"], z["r"]))
        z["eps"] = nr * S.rnd.choice((.2, .9, .999, 1.001, 1.1, 5))
        S.vals[mk("fsym", "epsilon")] = z["eps"]

    def spec(F, S, d):
        z = Z["z"]
        bad = math.sqrt(dot(z["r"], z["r"])) > z["eps"]
        return [("reports infeasible", (lambda s: float(S.ev(S.pick(F.rets)[0]) != 0),),
                 float(bad))]
    kernel(rep, sc.prog, "_l1c_l1qc_check_feasible_start", MD, spec, sample=smp, modes=(0,) * 8,
           st=sc.st, args={0: sc.pp}, itp=sc.I, maxdim=1100)


LBO = "l1c_L1qcOpts"
OI = ("lbiter", "newton_max_iter", "cg_maxiter", "warm_start_cg")
OF = ("C1", "epsilon", "mu", "lbtol", "newton_tol", "l1_tol", "cg_tol")
C2 = .03
averb, acgv = mk("arg", "verbose"), mk("arg", "cg_verbose")


def refnewton(A, b, x, o, feasible):
    """the log-barrier method with direction C1*rhs + C2*(initial guess) as linear solver"""
    m, n = len(x), len(b)
    x = list(x)
    mx = max(map(abs, x))
    u = [.95 * abs(v) + .1 * mx for v in x]
    tau = max((2 * m + 1) / sum(map(abs, x)), 1)
    lb = o["lbiter"] or math.ceil((math.log(2 * m + 1) - math.log(o["lbtol"]) -
                                   math.log(tau)) / math.log(o["mu"]))
    res = dict(status=0, newton=0, cg=0)

    def ev(x, u):
        r = [p - q for p, q in zip(mvec(A, x), b)]
        z = dict(A=A, x=x, u=u, b=b, r=r, tau=tau, m=m, n=n, eps=o["epsilon"],
                 fe=.5 * (dot(r, r) - o["epsilon"] ** 2), fu1=[p - q for p, q in zip(x, u)],
                 fu2=[-p - q for p, q in zip(x, u)])
        try:
            z["f"] = barrier(z)
        except ValueError:
            z["f"] = math.nan
        return z
    if not feasible:
        res["status"] = 1
        res["x"] = x
        return res, []
    margin = []
    step = 0.0
    for _ in range(lb):
        dx = [0.0] * m
        z = ev(x, u)
        l1p = math.inf
        it = 1
        while it < o["newton_max_iter"]:
            g0 = {0: [0.0] * m, 2: [step * v for v in dx]}.get(o["warm_start_cg"], dx)
            v = derivs(z)
            dx = [o["C1"] * p + C2 * q for p, q in zip(v["w"], g0)]
            if o["cg_tol"] > .5:
                res["status"] = 2
                res["x"] = x
                return res, margin
            res["cg"] += o["cg_maxiter"]
            du = [(p - q * w) / s for p, q, w, s in zip(v["ntgu"], v["s12"], dx, v["s11"])]
            ad = mvec(A, dx)
            a, bb, c = dot(ad, ad), 2 * dot(z["r"], ad), dot(z["r"], z["r"]) - o["epsilon"] ** 2
            s = (-bb + math.sqrt(bb * bb - 4 * a * c)) / (2 * a)
            for p, q, f1, f2 in zip(dx, du, z["fu1"], z["fu2"]):
                if p - q > 0:
                    s = min(s, -f1 / (p - q))
                if -p - q > 0:
                    s = min(s, -f2 / (-p - q))
            s = .99 * min(1, s)
            g = dot(v["gx"], dx) + dot(v["gu"], du)
            f0, ok = z["f"], False
            for _k in range(200):
                px = [p + s * q for p, q in zip(x, dx)]
                pu = [p + s * q for p, q in zip(u, du)]
                zz = ev(px, pu)
                lin_ = f0 + .01 * s * g
                if zz["f"] == zz["f"]:
                    margin.append(abs(zz["f"] - lin_) / (1 + abs(lin_)))
                    if zz["f"] <= lin_:
                        ok = True
                        break
                s *= .5
                if s < 1e-9:
                    break
            step = s
            if not ok:
                margin.append(0)       # depends on the number of reductions: not compared
                break
            x, u, z = px, pu, zz
            margin.append(abs(-g / 2 - o["newton_tol"]) / o["newton_tol"])
            if -g / 2 < o["newton_tol"]:
                break
            l1 = sum(map(abs, x))
            rate = abs(l1p - l1) / l1
            l1p = l1
            if rate < 1e300:
                margin.append(abs(rate - o["l1_tol"]) / o["l1_tol"])
            if rate < o["l1_tol"]:
                break
            it += 1
        res["newton"] += it
        tau *= o["mu"]
    res["x"] = x
    return res, margin


def j_main(rep, verbose=None):
    """the barrier iteration itself, with the linear solver replaced by a known map"""
    def cg(I, st, inst, a, cctx, f):
        n, x, b, dw, fn, data, res, par = a[:8]
        one = ic(1)
        models.maploop(I, st, cctx, "cg", P(n), x, one, lambda s, i: fop(
            "fadd", fop("fmul", mk("fsym", "C1"), models.rdv(I, s, b, i, one)),
            fop("fmul", fc(C2), models.rdv(I, s, x, i, one))))
        for dst, src, k in (("cgres", "tol", "f"), ("cgiter", "max_iter", "i")):
            off, size, _ = sc.lab.tmember("l1c_CgParams", src)
            v = I.read(st, par.args[0], padd(par.args[1], ic(off)), size, k)
            off, size, _ = sc.lab.tmember("l1c_CgResults", dst)
            I.write(st, res.args[0], padd(res.args[1], ic(off)), size, v)
        return [(ZERO, st)]
    sc = Scene({"l1c_cgsolve": cg, **({} if verbose is None else PRINTERS)})
    key = "l1c_l1qc_newton: barrier iteration"
    f = need(sc.prog, "l1c_l1qc_newton")
    if len(f.args) != 7 or not f.args[0].get("sret"):
        raise Unknown("unexpected signature")
    I, lab = sc.I, sc.lab
    I.openloops = True
    st = State()
    for o in ("out", "x", "b", "opts", "ax"):
        st.facts[mk("nul", mk("obj", "ext", o))] = False
    O = mk("obj", "ext", "opts")
    vals = {k: P(mk("arg", k)) for k in OI}
    vals.update({k: mk("fsym", k) for k in OF[1:]})
    vals.update(verbose=P(averb), cg_verbose=P(acgv), tau=mk("fsym", "tau_in"))
    lab.build(I, st, O, LBO, vals)
    AX = mk("obj", "ext", "ax")
    lab.table(I, st, AX, "l1c_AxFuns")
    I.addiv(st, P(am), 1, None)
    I.addiv(st, P(an), 1, None)
    if verbose is not None:
        hook(I, st, rep, key, averb)
    try:
        F = Fn(sc.prog, "l1c_l1qc_newton", st=st, itp=I, args={
            0: ext("out"), 1: P(am), 2: ext("x"), 3: P(an), 4: ext("b"), 5: ext("opts"),
            6: ext("ax")})
    except absint.Blowup as e:
        rep.undecided(key, str(e))
        return
    nv = 0
    used = 0
    vals = verbose and c11.values(F, I, averb, verbose)
    # besides: more iterations and unknowns than any number the code compares with
    ci = [c for c in loopconsts(F) if 3 < c <= 120]
    rep.count("numbers the code compares with", len(ci))
    base = 300
    plan = [(MD[k % len(MD)], 0) for k in range(base)]
    if verbose is None:
        plan += [(MD[k], c + 2) for c in ci for k in (0, 1)]
        plan += [({am: v, an: max(1, v // 2)}, 0) for c in ci for v in (c, c + 1) for _ in (0, 1)]
    for seed, (d, many) in enumerate(plan):
        m, n = d[am], d[an]
        S = F.sample("newton/%d" % seed, d)
        S.ops.update(numeval.OPS)
        S.mats = {"A": (n, m)}
        r = S.rnd
        A = matrix(S, "A", n, m)
        sz = r.choice((1., 1., .02, 40.))
        x = [sz * r.uniform(.2, 1) * r.choice((1, -1)) for _ in range(m)]
        b = [v + sz * r.uniform(-.3, .3) for v in mvec(A, x)]
        rr = [p - q for p, q in zip(mvec(A, x), b)]
        feasible = r.random() < .9
        o = dict(C1=r.choice((.07, .3, 1., 5.)), epsilon=math.sqrt(dot(rr, rr)) * (1.5 if feasible else .5),
                 mu=r.choice((r.uniform(2, 10), r.uniform(2, 10), 10 ** r.uniform(1, 4))),
                 lbtol=.1, newton_tol=10 ** r.uniform(-3, 2),
                 l1_tol=10 ** r.uniform(-4, -1), cg_tol=r.choice((.1, .2, .3, .4, .3, .8)),
                 lbiter=r.choice((0, 1, 2, 2, 3)), newton_max_iter=r.choice((1, 2, 3, 4)),
                 cg_maxiter=r.choice((7, 20)), warm_start_cg=r.choice((0, 1, 2, 2)))
        if many:
            feasible = True
            o.update(epsilon=math.sqrt(dot(rr, rr)) * 1.5, C1=.001, newton_tol=1e-12, l1_tol=1e-14,
                     cg_tol=.1, lbiter=1, newton_max_iter=many)
            if seed % 2:
                o.update(lbiter=many, mu=1.05, newton_max_iter=2, C1=.0005)
        ref, margin = refnewton(A, b, x, o, feasible)
        if margin and min(margin) < (1e-9 if many else 1e-6):
            continue
        if seed < base and used >= (30 if rep.tier == 'quick' else 80) and \
                (used >= 120 or all(v == 3 for v in I.seen.values())):
            continue
        setvec(S, ext("x"), x)
        setvec(S, ext("b"), b)
        for k in OF:
            S.vals[mk("fsym", k)] = o[k]
        for k in OI:
            S.ints[mk("arg", k)] = o[k]
        if vals:
            verbose = vals[used % len(vals)]
        S.ints[averb] = used % 4 if verbose is None else verbose
        S.ints[acgv] = used % 3 if verbose is None else verbose
        try:
            Trace(S).run(I.kids[0])
            _, s = S.pick(F.rets)
        except Unknown as e:
            rep.undecided(key, str(e))
            return
        used += 1
        fld = lambda nm, k: S.ev(lab.field(I, s, mk("obj", "ext", "out"), "l1c_LBResult", nm, k))
        want = [("reports failure", lambda: float(fld("status", "i") != 0),
                 float(ref["status"] != 0))]
        want += [("x[%d]" % k, lambda k=k: S.elem(s, F.av[2], k), v)
                 for k, v in enumerate(ref["x"])]
        want += [("b[%d] kept" % k, lambda k=k: S.elem(s, F.av[4], k), v)
                 for k, v in enumerate(b)]
        want.append(("l1 of the result", lambda: fld("l1", "f"), sum(map(abs, ref["x"]))))
        if not ref["status"]:
            want += [("total Newton iterations", lambda: float(fld("total_newton_iter", "i")),
                      float(ref["newton"])),
                     ("total CG iterations", lambda: float(fld("total_cg_iter", "i")),
                      float(ref["cg"]))]
        if verbose is not None:
            want.append(("lines printed although quiet", lambda: float(
                verbose == 0 and not ref["status"] and printed(S, I, s) > 0), 0.0))
            want.append(("output that bypasses the replaceable function",
                         lambda: printed(S, I, s, 8), 0.0))
        if not compare(rep, key, F, S, want, 1e-7):
            return
        nv += len(want)
    if used < 8:
        rep.undecided(key, "too few usable samples")
        return
    rep.ok(key)
    rep.count("values compared", nv)
    onesided(rep, I)


JOBS = dict(main=j_main, feval=j_feval, grad=j_grad, dir=j_dir, h11=j_h11, step=j_step, init=j_init,
            feasible=j_feasible)


def job(k):
    rep = Report("C19", "quick")
    try:
        JOBS[k](rep)
    except Unknown as e:
        rep.undecided(k, str(e))
    return rep.data()


def run(rep):
    rep.rule = RULE
    rep.assume = ["floating point arithmetic is read as real arithmetic",
                  "operators are linear and do not overlap their arguments"]
    pmap(job, JOBS, rep)
