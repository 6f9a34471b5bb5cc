"""C17: the operators of every transform are the documented linear maps."""
import math
import random

from kern import *
from common import Report, pmap
from c18 import D, ap, apT

RULE = ("Every operator in the table left by a successful set-up is analysed on the state the "
        "set-up leaves (and on the state any other operator leaves); the derived summary of "
        "its output, in terms of its input, sizes, weights and sample indices, is compared by "
        "random interpretation at several shapes with the documented linear map: M the "
        "orthonormal inverse DCT, R the row selection, A=RM (or R, or the given matrix), their "
        "transposes and normal operators, W and its transpose. The input is compared too.")


def idct1(n):
    return [[math.sqrt((1 if k == 0 else 2) / n) * math.cos(math.pi * (j + .5) * k / n)
             for k in range(n)] for j in range(n)]


def mv(A, x):
    return [sum(a * b for a, b in zip(r, x)) for r in A]


def mtv(A, x, n):
    return [sum(A[i][j] * x[i] for i in range(len(A))) for j in range(n)]


def kron(A, B):
    return [[a * b for a in ra for b in rb] for ra in A for rb in B]


class Spec:
    """the linear maps of one transform; sizes n (rows of R), m, p, q"""

    def __init__(self, pix, M, tv=None, bp="syn", mat=None):
        self.pix, self.tv, self.bp = pix, tv, bp
        q = self.q = len(M) if M else len(mat[0])
        self.n = len(pix) if mat is None else len(mat)
        cols = []
        if M:
            W = [list(r) for r in M]
            if tv:
                r, c, av, ah = tv
                for kind, al in (("y", av), ("x", ah)):
                    if al > 0:
                        d = D(kind, r, c)
                        for i in range(q):
                            row = [0.0] * q
                            for k, cf in d[i]:
                                row[k] = al * cf
                            W[i] += row
        ident = [[float(i == j) for j in range(q)] for i in range(q)]
        if mat is not None:
            self.R, self.M, self.W = mat, ident, ident
        else:
            self.R = [ident[k] for k in pix]
            if bp == "syn":
                self.M, self.W = W, ident
            else:
                self.M, self.W = ident, W
        self.m = len(self.M[0])
        # in synthesis mode W acts on the first q coefficients only
        if mat is not None:
            self.A = mat
        else:
            self.A = [self.M[k] for k in pix]

    def op(self, name):
        """(matrix or None, input length, function)"""
        A, M, R, W = self.A, self.M, self.R, self.W
        m, n, q, p = self.m, self.n, self.q, len(self.W[0])
        return {
            "Ax": (m, lambda x: mv(A, x)), "Aty": (n, lambda y: mtv(A, y, m)),
            "AtAx": (m, lambda x: mtv(A, mv(A, x), m)),
            "Mx": (m, lambda x: mv(M, x)), "Mty": (q, lambda x: mtv(M, x, m)),
            "Rx": (q, lambda x: mv(R, x)), "Rty": (n, lambda y: mtv(R, y, q)),
            "Wz": (p, lambda z: mv(W, z)), "Wtx": (q, lambda x: mtv(W, x, p)),
        }[name]


OPN = ("Ax", "Aty", "AtAx", "Mx", "Mty", "Rx", "Rty", "Wz", "Wtx")
SH = [(5, 4), (6, 6), (7, 3)]
S2 = [(2, 3), (3, 3), (4, 2), (3, 5)]
S3 = [(3, 3), (3, 4), (5, 3)]


def scen():
    """(setup, label, facts, [(params: pos -> int/float, spec maker)])"""
    out = {}
    out["l1c_dct1_setup"] = [("", {}, [({0: n, 1: m}, ("dct", (1, m))) for m, n in SH])]
    out["l1c_dct2_setup"] = [("", {}, [({0: r * c - 1, 1: r, 2: c}, ("dct", (r, c)))
                                       for r, c in S2])]
    out["l1c_setup_dct_transforms"] = [
        ("dct1", {3: 1}, [({0: 4, 1: r, 2: c, 3: 1}, ("dct", (1, r * c))) for r, c in S2]),
        ("dct2", {3: 2}, [({0: 4, 1: r, 2: c, 3: 2}, ("dct", (r, c))) for r, c in S2]),
        ("column", {}, [({0: 4, 1: 6, 2: 1, 3: k}, ("dct", (1, 6))) for k in (1, 2)]),
        ("row", {}, [({0: 4, 1: 1, 2: 5, 3: k}, ("dct", (1, 5))) for k in (1, 2)])]
    tv = []
    for bp, bn in ((2, "syn"), (1, "ana")):
        for dm in (2, 1):
            for al in ((0., 0.), (.7, 0.), (0., 1.3), (.6, 1.9)):
                tv.append(("%s dct%d tv=%s" % (bn, dm, al), {5: dm, 6: bp},
                           [({0: 5, 1: r, 2: c, 3: al[0], 4: al[1], 5: dm, 6: bp},
                             ("tv", (r, c), dm, al, bn)) for r, c in S3]))
    out["l1c_setup_dctTV_transforms"] = tv
    out["l1c_setup_matrix_transforms"] = [
        ("", {}, [({0: n, 1: m}, ("mat", (n, m))) for n, m in ((2, 3), (3, 3), (1, 4), (4, 2))])]
    return out


def mspec(w, S, pix, matf):
    if w[0] == "dct":
        r, c = w[1]
        M = idct1(c) if r == 1 else kron(idct1(r), idct1(c))
        return Spec(pix, M)
    if w[0] == "tv":
        r, c = w[1]
        M = idct1(r * c) if w[2] == 1 else kron(idct1(r), idct1(c))
        return Spec(pix, M, (r, c) + w[3], w[4])
    n, m = w[1]
    return Spec(None, None, mat=[[matf(i * m + j) for j in range(m)] for i in range(n)])


def job(a):
    name, k, first = a
    label, facts, insts = scen()[name][k]
    rep = Report("C17", "quick")
    prog = image("lib")
    key0 = name + (" [%s]" % label if label else "")
    I = Itp(prog, numeric=True)
    f = need(prog, name)
    fl = []
    for pos, v in facts.items():
        fl.append(lambda av, pos=pos, v=v: mk("cmp", "eq", av[pos], ic(v)))
    if name == "l1c_setup_dctTV_transforms":
        al = insts[0][0]
        for pos in (3, 4):
            fl.append(lambda av, pos=pos: mk("fcmp", "ogt" if al[pos] > 0 else "oeq", av[pos],
                                             fc(0.0)))
    try:
        rets, av, tobj = run_setup(I, f, facts=fl)
    except absint.Blowup as e:
        rep.undecided(key0, str(e))
        return rep.data()
    good = [(r, s) for r, s in rets if zero_ret(I, s, r) is not False]
    SETUP[:] = good
    runs = {}                  # op -> [(setup state, [(guard, result state)])]

    def vec(op, w):
        return ptr(mk("obj", "ext", "%s_%s" % (op, w)), ZERO)

    def call(op, s, tag=""):
        t = table(prog, I, s, tobj)
        if t[op].op != "fptr":
            return None
        g = I._bykey(t[op].args[0])
        s2 = s.copy()
        s2.guard = absint.TRUE_G
        args = [vec(op + tag, "in"), vec(op + tag, "out")]
        for x in args:
            s2.facts[mk("nul", x.args[0])] = False
        return I.call(g, args, s2, mk("ctx", TOPCTX, op + tag, 0))
    nv = 0
    for second in OPN:
        key = "%s: %s%s" % (key0, second, " after " + first if first else "")
        try:
            chains = []
            for r, s in good:
                mids = [(None, s)]
                if first:
                    mids = call(first, s) or []
                for _, s1 in mids:
                    o = call(second, s1, "2" if first else "")
                    if o is None:
                        raise Unknown("operator missing")
                    chains.append((r, s, s1 if first else None, o))
        except (absint.Blowup, Unknown) as e:
            rep.undecided(key, str(e))
            continue
        ok = True
        more = []
        if not first:
            ci, _ = numeval.constants(I, [x for r, s, s1, o in chains for r2, s2 in o for x in
                                          (r, s.guard, s2.guard, tuple(s2.mem.values()))])
            more = widen(insts[0], [c for c in ci if c <= 300])
        for params, w in insts + more:
            for seed in range(6 if PRIOR else 2 if (params, w) in insts else 1):
                v = verify(rep, key, I, f, av, tobj, chains, params, w, second, first,
                           "%s%s%d" % (key, sorted(params.items()), seed))
                if v is None:
                    ok = False
                    break
                nv += v
            if not ok:
                break
        if ok:
            rep.ok(key)
    rep.count("values compared", nv)
    if not first:
        norms(rep, key0, I, f, av, tobj, good, insts, prog)
    return rep.data()


def widen(inst, consts):
    """further sizes on both sides of the constants that the code compares with"""
    params, w = inst
    out = []
    for c in consts:
        for v in (c - 1, c, c + 1):
            if v < 3:
                continue
            if w[0] == "mat":
                out += [({**params, 0: v}, ("mat", (v, w[1][1]))),
                        ({**params, 1: v}, ("mat", (w[1][0], v)))]
            elif w[0] == "dct" and 2 not in params:
                out.append(({**params, 0: min(v, 4), 1: v}, ("dct", (1, v))))
                out.append(({**params, 0: v, 1: v}, ("dct", (1, v))))
            elif w[0] == "dct" and params[2] > 1 and params[1] > 1:
                for r, k in ((v, 2), (2, v)):
                    out.append(({**params, 0: 4, 1: r, 2: k},
                                ("dct", (r, k) if w[1][0] > 1 else (1, r * k))))
            elif w[0] == "tv":
                for r, k in ((v, 3), (3, v)):
                    out.append(({**params, 1: r, 2: k}, ("tv", (r, k)) + w[2:]))
    return out


SETUP = []         # what successful set-ups leave behind
PRIOR = False      # do earlier set-ups leave anything in global variables?


def sample(I, f, av, params, seed):
    S = Sample(I, seed, {})
    S.ops.update(numeval.OPS)
    mtot = 1
    for pos, v in params.items():
        t = av[pos]
        if isinstance(v, float):
            S.vals[t] = v
        else:
            S.ints[patom(t)] = v
    left = sorted({int(v) for v in params.values()} | {0, 1})
    again = PRIOR and S.rnd.random() < .5          # the same problem once more
    busy = set()

    def prior(obj, off):
        if again and (obj, off) not in busy:
            busy.add((obj, off))
            for _, s in SETUP:
                try:
                    return S.ev(I.read(s, obj, ic(off), 4, "i"))
                except Unknown:
                    pass
        return S.rnd.choice(left) if PRIOR else 0
    S.prior = prior
    return S


def setpix(S, obj, n, q, seed):
    rnd = random.Random(seed)
    pix = rnd.sample(range(q), n)

    def get(off, size, kind):
        if off % size or not (0 <= off // size < n):
            raise Unknown("index array out of range")
        return pix[off // size]
    S.arr[obj] = get
    return pix


def prepare(I, f, av, params, w, seed):
    S = sample(I, f, av, params, seed)
    pix = None
    ptrs = [x.args[0] for x in av[:-1] if x.op == "ptr"]
    matf = None
    if w[0] == "mat":
        matf = lambda i: S.init(ptrs[0], 8 * i, 8, "f")
    else:
        r, c = w[1]
        pix = setpix(S, ptrs[0], params[0], r * c, seed)
    return S, mspec(w, S, pix, matf)


def verify(rep, key, I, f, av, tobj, chains, params, w, op, first, seed):
    try:
        S, sp = prepare(I, f, av, params, w, seed)
        hit = [(s1, o) for r, s, s1, o in chains
               if S.guard(s.guard) and S.ev(r) == 0 and (s1 is None or S.guard(s1.guard))]
        if len(hit) != 1:
            raise Unknown("%d set-up results apply" % len(hit))
        s1, o = hit[0]
        _, s = S.pick(o)
        tag = "2" if first else ""
        n, fn = sp.op(op)
        iobj, oobj = mk("obj", "ext", op + tag + "_in"), mk("obj", "ext", op + tag + "_out")
        x = [S.init(iobj, 8 * k, 8, "f") for k in range(n)]
        y = fn(x)
    except Unknown as e:
        rep.undecided(key, str(e))
        return None
    want = [("output %d" % k, lambda k=k: S.elem(s, ptr(oobj, ZERO), k), y[k])
            for k in range(len(y))]
    want += [("input %d after the call" % k, lambda k=k: S.elem(s, ptr(iobj, ZERO), k), x[k])
             for k in range(n)]
    if len(want) > 400:
        want = S.rnd.sample(want, 300)
    if not compare(rep, key, None, S, want):
        return None
    return len(want)


def norms(rep, key0, I, f, av, tobj, good, insts, prog):
    """norm_W bounds the norm of W (solvers use it as a Lipschitz constant)"""
    if "matrix" in key0:
        return
    for params, w in insts:
        big = [dict(params)]
        if w[0] == "tv":
            big.append({**params, 1: 400, 2: 300})
        for pr in big:
            try:
                S = sample(I, f, av, pr, "norm")
                ptrs = [x.args[0] for x in av[:-1] if x.op == "ptr"]
                setpix(S, ptrs[0], pr[0], pr[0], "n")
                hit = [s for r, s in good if S.guard(s.guard) and S.ev(r) == 0]
                if len(hit) != 1:
                    raise Unknown("%d set-up results apply" % len(hit))
                v = S.ev(table(prog, I, hit[0], tobj)["norm_W"])
            except (Unknown, Uninit) as e:
                rep.undecided(key0 + ": norm_W", str(e))
                return
            need2 = 1.0
            if w[0] == "tv" and w[4] == "ana":
                for al, d in ((w[3][0], pr[1]), (w[3][1], pr[2])):
                    need2 += 4 * al * al * math.sin(math.pi * (d - 1) / (2 * d)) ** 2
            if not v >= math.sqrt(need2) * (1 - 1e-9):
                rep.violation(key0 + ": norm_W", "recorded %.9g, the norm is %.9g for %s" %
                              (v, math.sqrt(need2), pr))
                return
    rep.ok(key0 + ": norm_W")


def run(rep):
    rep.rule = RULE
    rep.assume = ["floating point arithmetic is read as real arithmetic",
                  "FFTW's r2r plans compute the documented REDFT10/REDFT01",
                  "sample indices are distinct; vectors do not overlap"]
    jobs = []
    for name, sc in scen().items():
        for k in range(len(sc)):
            jobs.append((name, k, None))
            for first in OPN:
                jobs.append((name, k, first))
    pmap(job, jobs, rep)
