"""C10: the line search accepts only points with sufficient decrease."""
import math

from lab import *
from machine import Trace
from common import Report, pmap

RULE = ("One iteration of each line search is derived as a relation between an arbitrary loop "
        "head and the next head or the exit, with the objective an arbitrary function of the "
        "point it is called with (it may leave its value in the record that holds the current "
        "value). The relations, composed from the entry state up to the code's own "
        "iteration bound, are compared with the sufficient decrease rule by random "
        "interpretation: the accepted point, value and step, and the untouched variables on "
        "failure.")
am = mk("arg", "m")


def objective(nv):
    """model of feval(data, x, u): value depends on the points only; stored in data on request"""
    def m(I, st, inst, a, cctx, f):
        I.mark += 1
        parts = []
        for p in a[1:1 + nv]:
            if not models.access(I, st, inst, p, P(am), "load"):
                return [(models.sym(cctx, "feval"), st)]
            parts.append((I.content(st, p.args[0]), p.args[1], P(am)))
        v = mk("fapply", "feval", tuple(parts))
        if a[0].op == "ptr" and a[0].args[0] is mk("obj", "ext", "aliased"):
            I.write(st, a[0].args[0], ic(16), 8, v)
        return [(v, st)]
    return m


def scene(name, nv, alias):
    prog = image("lib")
    lab = Lab(prog, {}, {"@feval": objective(nv)})
    f = prog.find(name) or need(prog, name)
    I = lab.itp()
    I.openloops = True
    st = State()
    o0 = 1 if f.args and f.args[0].get("sret") else 0
    if not o0:
        raise Unknown("result is not returned in memory")
    # (stat,) m, x, [u], dx, [du], fx0, g, data, feval, params, work
    names = ["stat", "m", "x", "u", "dx", "du", "fx0", "g", "data", "feval", "par", "work"]
    if nv == 1:
        names = [n for n in names if n not in ("u", "du")]
    if len(names) != len(f.args):
        raise Unknown("unexpected signature")
    A = {}
    for k, n in enumerate(names):
        o = mk("obj", "ext", n)
        st.facts[mk("nul", o)] = False
        A[k] = P(am) if n == "m" else mk("fsym", "g") if n == "g" else \
            mk("fptr", "@feval") if n == "feval" else ptr(o, ZERO)
    pos = {n: k for k, n in enumerate(names)}
    if alias:
        o = mk("obj", "ext", "aliased")
        st.facts[mk("nul", o)] = False
        A[pos["data"]] = ptr(o, ZERO)
        A[pos["fx0"]] = ptr(o, ic(16))
    lab.build(I, st, mk("obj", "ext", "par"), "LSParams",
              {k: mk("fsym", k) for k in ("s", "alpha", "beta")})
    if nv == 2:
        for j in range(2):
            o = mk("obj", "ext", "wk%d" % j)
            st.facts[mk("nul", o)] = False
            I.write(st, mk("obj", "ext", "work"), ic(8 * j), 8, ptr(o, ZERO))
    F = Fn(prog, name, st=st, args=A, itp=I)
    return lab, F, pos


def setup(F, pos, nv, d, seed, alias):
    S = F.sample("ls/%s/%s/%s" % (d, seed, nv), {am: d})
    r = S.rnd
    S.ops.update(numeval.OPS)
    # magnitudes: ordinary ones, then several, the last seeds any
    k0, k1, k2 = [(1, 1, 1), (1, 1, 10 ** r.uniform(-2, 1.3)),
                  [10 ** r.uniform(-5, 5) for _ in range(3)]][min(seed // 15, 2)]
    vec = lambda: [k0 * r.uniform(-1, 1) for _ in range(d)]
    z = dict(x=vec(), dx=vec(), u=vec(), du=vec(), g=-k0 * k1 * r.uniform(.1, 2),
             s=k2 * r.uniform(.3, 1),
             alpha=r.choice((.01, .3)), beta=r.choice((.5, .3, .9)))
    co = [[r.uniform(-1, 1) * (k1 / k0 if j % 2 else k1) for _ in range(d)] for j in range(4)]
    late = seed % 5 == 2
    if late:                       # accepted after any number of reductions
        z["beta"] = r.uniform(.75 if seed < 30 else .15, .95)
        if seed % 10 >= 5 and seed >= 15:
            z["x"], z["u"] = [0.0] * d, [0.0] * d
            z["beta"] = r.uniform(.15, .6)
        co = [[5 * k1 / k0 * v for v in z["dx"]], [0] * d, [k1 / k0 * v for v in z["du"]],
              [0] * d]
    thr = None

    def point(step):
        return ([p + step * q for p, q in zip(z["x"], z["dx"])],
                [p + step * q for p, q in zip(z["u"], z["du"])])

    def f(S, x, u=None):
        v = sum(a * y + b * y * y for a, b, y in zip(co[0], co[1], x))
        if u is not None:
            v += sum(a * y + b * y * y for a, b, y in zip(co[2], co[3], u))
        if thr is not None and dist(x) > thr:
            return math.nan
        return v

    def dist(x):
        return math.sqrt(sum((p - q) ** 2 for p, q in zip(x, z["x"])))
    at = lambda step: f(S, *point(step)[:nv])
    steps = [z["s"]]
    while len(steps) < 40:
        steps.append(z["beta"] * steps[-1])
    q = [at(t) - z["alpha"] * t * z["g"] for t in steps]
    k = seed % 5
    if k == 4:
        z["fx0"] = min(q) - k0 * k1 * r.uniform(.5, 1)              # never accepted
    elif late:
        j = (7 * seed + 11 * d) % 31
        z["fx0"] = q[j] * .6 + q[max(j - 1, 0)] * .4
    else:
        z["fx0"] = sorted(q)[[-1, len(q) // 2, 3, 0][k]] + 1e-6 * k0 * k1
    if seed % 3 == 1:
        thr = dist(point(steps[r.choice((1, 2))])[0]) * 1.01   # not a number for long steps
    S.ops["feval"] = f
    for n in ("x", "dx") + (("u", "du") if nv == 2 else ()):
        setvec(S, F.av[pos[n]], z[n])
    S.vals[mk("fsym", "g")] = z["g"]
    for n in ("s", "alpha", "beta"):
        S.vals[mk("fsym", n)] = z[n]
    fx = F.av[pos["fx0"]]
    S.vals[("init", fx.args[0], S.ev(fx.args[1]))] = z["fx0"]
    z["mag"] = sum(abs(a * y) + abs(b * y * y) for a, b, y in zip(co[0] + co[2], co[1] + co[3],
                                                                  z["x"] + z["u"]))
    z["point"], z["f"] = point, lambda t: f(S, *point(t)[:nv])
    return S, z


def check(rep, key, lab, F, pos, nv, alias, S, z, d, step0, s):
    """outcome of a run that starts with step0"""
    SO = F.av[pos["stat"]].args[0]
    fld = lambda n, k: S.ev(lab.field(F.I, s, SO, "LSStat", n, k))
    want = []
    status = fld("status", "i")
    it = fld("iter", "i")
    if status:
        tried = max(v for L, v in S.tries.items()) if S.tries else it
        z["gaveup"].append(tried)
    step, acc, k = step0, False, 0
    lim = it if status else 400
    while k < lim:
        v = z["f"](step)
        if v == v and abs(v - (z["fx0"] + z["alpha"] * step * z["g"])) < 1e-9 * (z["mag"] + abs(v) + abs(z["fx0"])):
            return True       # a tie: either way is right in real arithmetic
        if v == v and v <= z["fx0"] + z["alpha"] * step * z["g"]:
            acc = True
            break
        step *= z["beta"]
        k += 1
    want.append(("reports success", lambda: float(status == 0), float(acc)))
    if acc:
        px, pu = z["point"](step)
        want.append(("step, relative to the right one", lambda: fld("step", "f") / step, 1.0))
        cf = (abs(z["fx0"]) + abs(step * z["g"]) + z["mag"]) or 1
        want.append(("flin", lambda: fld("flin", "f") / cf,
                     (z["fx0"] + z["alpha"] * step * z["g"]) / cf))
        fx = F.av[pos["fx0"]]
        want.append(("*fx0", lambda: S.elem(s, fx, 0) / cf, z["f"](step) / cf))
    else:
        px, pu = z["x"], z["u"]
        if not alias:
            want.append(("*fx0", lambda: S.elem(s, F.av[pos["fx0"]], 0), z["fx0"]))
    for n, v in (("x", px), ("dx", z["dx"]), ("u", pu), ("du", z["du"]))[:2 * nv]:
        unit = max(map(abs, v)) or 1.0
        for i in range(d):
            want.append(("%s[%d]" % (n, i), lambda i=i, n=n, unit=unit: S.elem(
                s, F.av[pos[n]], i) / unit, v[i] / unit))
    if not compare(rep, key, F, S, want):
        return False
    rep.count("values compared", len(want))
    return True


def job(a):
    name, nv, alias = a
    rep = Report("C10", "quick")
    key = name + (" (value kept in the objective's record)" if alias else "")
    try:
        gaveup = []
        lab, F, pos = scene(name, nv, alias)
        ci = [c for c in loopconsts(F) if c <= 4200]
        more = [v for c in ci for v in (c, c + 1) if v > 8]
        rep.count("numbers the code compares with", len(ci))
        for d in [1, 3, 4, 7] + more:
            for seed in range(3 if d > 202 else 15 if d in more else 120 if d == 3 else 60):
                if seed >= 30 and d != 3 and all(v == 3 for v in F.I.seen.values()):
                    break
                S, z = setup(F, pos, nv, d, seed, alias)
                z["gaveup"] = gaveup
                T = Trace(S)
                S.tries = T.iters
                T.run(F.I.kids[0])
                r, s = S.pick(F.rets)
                if not check(rep, key, lab, F, pos, nv, alias, S, z, d, z["s"], s):
                    return rep.data()
        if len(set(gaveup)) > 1:
            rep.violation(key + ": failure", "reported after %d reductions of the step while "
                          "up to %d are made otherwise" % (min(gaveup), max(gaveup)))
            return rep.data()
        rep.ok(key + ": accepted point, step and value; untouched on failure")
        rep.count("loops", len(F.I.kids[0]))
        onesided(rep, F.I)
    except (Unknown, absint.Blowup) as e:
        rep.undecided(key, str(e))
    return rep.data()


def run(rep):
    rep.rule = RULE
    rep.assume = ["floating point arithmetic is read as real arithmetic",
                  "the objective is a function of the point it is given"]
    pmap(job, [("l1c_linesearch_xu", 2, False), ("l1c_linesearch_xu", 2, True),
               ("l1c_linesearch", 1, False)], rep)
