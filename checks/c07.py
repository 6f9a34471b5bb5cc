"""C07: arguments outside the documented domain are rejected, never silently accepted."""
from scen import *
from common import pmap, Report
from outcome import Outcome
import absint
from terms import plin
from numeval import Sample, Unknown, Uninit

RULE = ("Precondition-driven abstract interpretation: each class of invalid argument "
        "(non-positive sizes, negative or >= length sample indices, negative TV weights, too "
        "small TV images, mismatching solver/operator dimensions, incomplete operator tables, "
        "unknown modes, wrong ranks and lengths in the bindings) is assumed at an entry point; "
        "no path may then end successfully. Sample-index checks are also read off as "
        "universally quantified interval facts of the validating loop.")


def lt(a, k):
    return mk("cmp", "slt", a, ic(k))


def le(a, k):
    return mk("cmp", "sle", a, ic(k))


def ne(a, b):
    return mk("cmp", "ne", a, b)


def judge(rep, l, I, rets, av, key, what, bad):
    """violation when an exit is successful although `bad` was assumed"""
    n = 0
    for r, s in rets:
        if s.mon.get("fail"):
            continue            # failed for another reason
        ok = l.reported(I, s, r, av, "argument")
        n += 1
        if ok:
            continue
        if ok is None or opaque(s, bad):
            rep.undecided(key, what)
            return
        rep.violation(key, "accepted: " + what)
        return
    rep.ok("%s: %s rejected on all %d exits" % (key, what, n))


def opaque(s, bad):
    """did the path test the bad argument in a way the domain does not resolve?"""
    syms = set()
    for b in bad:
        syms |= {b}
    for k in s.facts:
        if k.op in ("p", "nul", "fiv", "ne", "forall"):
            continue
        if k.op == "fcmp" and all(a in syms or a.op == "fc" for a in k.args[1:]):
            continue
        if mentions(k, syms, 0):
            return True
    for k in s.facts:
        if k.op == "forall":
            k = k.args[2]
        if k.op == "p":
            for m, _ in k.args[0]:
                for a in m:
                    if a not in syms and a.op in ("rd", "iop", "lphi", "lmem", "ite", "f2i",
                                                  "sym"):
                        if a.op in ("lphi", "lmem") or mentions(a, syms, 0):
                            return True
    return False


def mentions(t, syms, d):
    if t in syms:
        return True
    if d > 14:
        return False
    st = [t.args]
    while st:
        a = st.pop()
        for x in a:
            if isinstance(x, T):
                if x.op == "fc":
                    continue
                if mentions(x, syms, d + 1):
                    return True
            elif isinstance(x, (tuple, frozenset)):
                st.append(tuple(x))
    return False


def setup_st(I, f, facts, ptrs=None):
    """abstract arguments by position"""
    f.prepare()
    s = absint.State()
    av = []
    for k, a in enumerate(f.args):
        if a["ty"] == "ptr":
            o = mk("obj", "ext", "p%d" % k)
            s.facts[mk("nul", o)] = False
            av.append(ptr(o, ZERO))
        elif a["ty"] in ("double", "float"):
            av.append(mk("init", mk("obj", "darg", k), ZERO, 8, "f"))
        else:
            av.append(P(mk("arg", "a%d" % k)))
    for c in facts(av, s) if facts else ():
        if not I.assume(s, c, True):
            raise absint.Blowup("contradictory precondition")
    s.guard = absint.TRUE_G
    return s, av


def fill(s, p, v):
    """every element behind p is v"""
    s.mem[p.args[0]] = mk("content", mk("fillc", v), ())


class ItpF(Itp):
    def readbase(self, st, base, off, size, kind):
        if base.op == "fillc":
            return base.args[0]
        return Itp.readbase(self, st, base, off, size, kind)


def flt(a):
    return mk("fcmp", "olt", a, fc(0.0))


def fgt(a):
    return mk("fcmp", "ogt", a, fc(0.0))


def axo(s, av, k, name, prog):
    t = prog.types[tname(prog)]
    off = next(m for m in t["members"] if m[2] == name)
    return off


# (function, label, facts(av, state, prog), names of the assumed-bad terms)
def cases():
    out = []

    def add(fn, label, facts, bad):
        out.append((fn, label, facts, bad))
    for k, n in ((0, "n"), (1, "mrow"), (2, "mcol")):
        for fn in ("l1c_setup_dct_transforms", "l1c_setup_dctTV_transforms"):
            add(fn, "%s <= 0" % n, lambda av, s, p, k=k: [le(av[k], 0)],
                lambda av, k=k: [patom(av[k])])
    for k, n in ((0, "mrow"), (1, "mcol"), (3, "n")):
        add("l1qc_dct", "%s <= 0" % n, lambda av, s, p, k=k: [le(av[k], 0)],
            lambda av, k=k: [patom(av[k])])
    for k, n in ((0, "n"), (1, "m")):
        add("l1c_setup_matrix_transforms", "%s <= 0" % n,
            lambda av, s, p, k=k: [le(av[k], 0)], lambda av, k=k: [patom(av[k])])
        add("l1c_breg_anistropic_TV", "%s < 2" % n,
            lambda av, s, p, k=k: [lt(av[k], 2)], lambda av, k=k: [patom(av[k])])
    for k, n in ((3, "alp_v"), (4, "alp_h")):
        add("l1c_setup_dctTV_transforms", "%s < 0" % n,
            lambda av, s, p, k=k: [flt(av[k])], lambda av, k=k: [av[k]])
        for j, d in ((1, "mrow"), (2, "mcol")):
            add("l1c_setup_dctTV_transforms", "%s > 0 with %s <= 2" % (n, d),
                lambda av, s, p, k=k, j=j: [fgt(av[k]), le(av[j], 2)],
                lambda av, k=k, j=j: [av[k], patom(av[j])])
    # solver called with dimensions that are not the operator's
    add("l1c_nesta", "m differs from the operator's", lambda av, s, p: [
        ne(av[0], P(field(s, av[4], "m", p)))], lambda av: [patom(av[0])])
    add("l1c_nesta", "n differs from the operator's", lambda av, s, p: [
        ne(av[2], P(field(s, av[4], "n", p)))], lambda av: [patom(av[2])])
    for fld in ("Wz", "Wtx", "Rx", "Rty"):
        def nullf(av, s, p, fld=fld):
            off = axo(s, av, 4, fld, p)[0]
            s.mem[av[4].args[0]] = mk("content", mk("ext", av[4].args[0]), (
                mk("cells", ((off, 8, NULL),)),))
            return []
        add("l1c_nesta", "operator %s missing" % fld, nullf, lambda av: [])
    return out


def field(s, tp, name, prog):
    off, size = prog.field(tname(prog), name)
    return mk("init", tp.args[0], ic(off), size, "i")


DEF = {"l1c_setup_dct_transforms": {0: 3, 1: 5, 2: 4, 3: 2},
       "l1c_setup_dctTV_transforms": {0: 3, 1: 5, 2: 4, 3: .5, 4: .25, 5: 1, 6: 1},
       "l1qc_dct": {0: 5, 1: 4, 3: 3},
       "l1c_setup_matrix_transforms": {0: 3, 1: 5},
       "l1c_breg_anistropic_TV": {0: 5, 1: 4}}


def witness(fn, av, bad):
    """argument constants of one member of the class (constant propagation)"""
    out = []
    base = DEF.get(fn)
    if base is None:
        return None
    ks = [k for k, a in enumerate(av) if a in bad or patom(a) in bad]
    ints = [k for k in ks if isinstance(base.get(k), int)]
    dbls = [k for k in ks if isinstance(base.get(k), float)]
    if ints and dbls:           # TV weight with a small image
        for k in dbls:
            other = 7 - k
            for v in (2, 1):
                out.append({**base, other: 0.0, ints[0]: v})
    elif ints:
        lim = 1 if "breg" in fn else 0
        for v in (lim, lim - 1, -7):
            out.append({**base, ints[0]: v})
    elif dbls:
        for v in (-.5, -1e-9):
            out.append({**base, dbls[0]: v})
    return out


def accepted(fn, f, prog, rep, w):
    I = ItpF(prog)
    l = Outcome(rep, fn, f)
    s, av = setup_st(I, f, lambda av, s: [])
    for k, v in w.items():
        av[k] = ic(v) if isinstance(v, int) else fc(v)
    for r, s1 in I.call(f, av, s, mk("ctx", TOPCTX, f.key, 0)):
        if not s1.mon.get("fail") and l.reported(I, s1, r, av, "x") is False and \
                not any(a.op in ("rd", "lphi", "lmem") for k in s1.facts if k.op == "p"
                        for m, _ in k.args[0] for a in m):
            return True
    return False


def c_job(i):
    fn, label, facts, bad = cases()[i]
    rep = Report("C07", "quick")
    prog = image("lib")
    f = need(prog, fn)
    I = ItpF(prog)
    l = Outcome(rep, fn, f)
    I.listeners.append(l)
    s, av = setup_st(I, f, lambda av, s: facts(av, s, prog))
    rets = I.call(f, av, s, mk("ctx", TOPCTX, f.key, 0))
    r2 = Report("C07", "quick")
    judge(r2, l, I, rets, av, "%s: %s" % (fn, label), label, bad(av))
    if r2.viol or r2.undec:
        ws = witness(fn, av, bad(av))
        if ws is not None:
            hit = [w for w in ws if accepted(fn, f, prog, rep, w)]
            key = "%s: %s" % (fn, label)
            r2.viol, r2.undec = {}, {}
            if hit:
                r2.violation(key, "accepted, e.g. with arguments (position: value) %s" % hit[0])
            else:
                r2.undecided(key, "constants %s are rejected" % ws)
    rep.merge(r2.data())
    rep.count("argument classes")
    rep.count("exits", len(rets))
    return rep.data()


PIX = {  # function: (n, mrow, mcol, pix) positions
    "l1c_setup_dct_transforms": (0, 1, 2, 4),
    "l1c_setup_dctTV_transforms": (0, 1, 2, 7),
    "l1qc_dct": (3, 0, 1, 5),
}


def pixwitness(prog, fn, f, nm):
    """the conditions of every successful exit, instantiated with an index vector that has one
    entry out of range: a true condition is a counterexample"""
    kn, kr, kc, kp = PIX[fn]
    mdl = None
    if fn == "l1qc_dct":
        import c14
        C = c14.Cap(prog, ("l1c_l1qc_newton",))
        I = C.I
    else:
        I = Itp(prog, numeric=True)
    s, av = setup_st(I, f, lambda av, s: [mk("cmp", "sgt", av[k], ZERO) for k in (kn, kr, kc)])
    rets = I.call(f, av, s, mk("ctx", TOPCTX, f.key, 0))
    pobj = av[kp].args[0]
    shapes = [(n, k, d) for n in (1, 2, 3, 4, 7) for k in range(n)
              for d in ((4, 3), (12, 1), (1, 12), (5, 5))] + \
        [(n, k, (64, 64)) for n in (40, 1100, 2100) for k in (0, 17, n // 2, n - 2, n - 1)]
    unk = None
    for n, k, (mr, mc) in shapes:
        tot = mr * mc
        for bad in ((-1, -5) if nm == "negative" else (tot, tot + 1, 2 * tot)):
            for mode in (1, 2):
                S = Sample(I, "pix", {patom(av[kn]): n, patom(av[kr]): mr, patom(av[kc]): mc})
                for j, a in enumerate(av):
                    if a.op == "p" and j not in (kn, kr, kc):
                        S.ints[patom(a)] = mode
                    elif a.op == "init":
                        S.vals[a] = 0.0
                        S.arr[a.args[0]] = lambda *x: 0.0
                S.ints[mk("sym", "res", "status", "i")] = 0

                def get(off, size, kind):
                    if off % 4 or not 0 <= off // 4 < n:
                        raise Unknown("outside")
                    return bad if off // 4 == k else off // 4 % tot
                S.arr[pobj] = get
                for r, s1 in rets:
                    try:
                        if S.guard(s1.guard) and S.ev(r) == 0:
                            return ("accepted with entry %d of %d out of range (%d of %d)" %
                                    (k, n, bad, tot)), None
                    except (Unknown, Uninit) as e:
                        unk = str(e)
    return None, unk


def pix_job(fn):
    kn, kr, kc, kp = PIX[fn]
    rep = Report("C07", "quick")
    prog = image("lib")
    f = need(prog, fn)
    # 1. universally quantified facts on success
    I = ItpF(prog)
    l = Outcome(rep, fn, f)
    s, av = setup_st(I, f, lambda av, s: [])
    rets = I.call(f, av, s, mk("ctx", TOPCTX, f.key, 0))
    n, M = P(av[kn]), pmul(P(av[kr]), P(av[kc]))
    pobj = av[kp].args[0]
    lows, highs = [], []
    nsucc = 0
    for r, s1 in rets:
        if l.reported(I, s1, r, av, "x"):
            continue
        nsucc += 1
        lo_ok = hi_ok = False
        seen = []
        for k, v in s1.facts.items():
            if k.op != "forall" or not isinstance(v, tuple):
                continue
            bv, cnt, form = k.args
            if form.op != "p":
                continue
            es = [a for m, _ in form.args[0] for a in m if a.op == "init" and
                  a.args[0] is pobj]
            if len(es) != 1:
                continue
            e = es[0]
            ln = plin(e.args[1], bv)
            if ln is None:
                continue
            A, B = ln
            if B is ic(4):
                cover = I.ge0(s1, psub(cnt, n)) and I.ge0(s1, pscale(A, -1))
                less = I.ge0(s1, psub(psub(n, ONE), cnt)) or I.ge0(s1, psub(A, ONE))
            elif B is ic(-4):
                cover = I.ge0(s1, psub(cnt, n)) and I.ge0(s1, psub(A, pscale(psub(n, ONE), 4)))
                less = I.ge0(s1, psub(psub(n, ONE), cnt))
            else:
                cover, less = False, cval(B) is not None and abs(cval(B)) > 4
            seen.append((form, v, cover, less))
            if form is P(e) and v[0] is not None:
                if v[0] >= 0 and cover:
                    lo_ok = True
            d = psub(psub(M, ONE), P(e))        # must be >= 0
            fm, sg = absint.canon(d)
            if fm is form:
                b = v[0] if sg > 0 else (None if v[1] is None else -v[1])
                if b is not None:
                    b += pconst(d)
                    if b >= 0 and cover:
                        hi_ok = True
        lows.append((lo_ok, seen))
        highs.append((hi_ok, seen))
    for nm, res in (("negative", lows), ("too large", highs)):
        if res and all(x for x, _ in res):
            rep.ok("%s: every sample index checked (%s) on %d successful exits" %
                   (fn, nm, nsucc))
            continue
        w, unk = pixwitness(prog, fn, f, nm)
        if w:
            rep.violation("%s: %s sample indices" % (fn, nm), w)
        else:
            rep.undecided("%s: %s sample indices" % (fn, nm), unk)
    return rep.data()


# ------------------------------------------------------------------ Python binding
def sympy(pos):
    return P(mk("sym", "py", pos, "i"))


def pycases():
    """(method, label, integer facts, array facts)

    array facts: {position of the array argument: fn(obj) -> conditions}"""
    nd = lambda o: P(mk("init", o, ic(24), 4, "i"))
    dims = lambda o: mk("obj", "ext", o, ic(32))
    dim = lambda o, k: P(mk("init", dims(o), ic(8 * k), 8, "i"))
    out = []
    for m, pm in (("l1qc_dct", 13), ("nesta_dctTV", 11)):
        out.append((m, "dct_mode not 1 or 2", [ne(sympy(pm), ONE), ne(sympy(pm), ic(2))], {}))
        out.append((m, "b not one dimensional", [], {2: lambda o: [ne(nd(o), ONE)]}))
        out.append((m, "pix_idx not one dimensional", [], {3: lambda o: [ne(nd(o), ONE)]}))
        out.append((m, "len(b) != len(pix_idx)", [], {
            2: lambda o: [mk("cmp", "eq", dim(o, 0), ic(7))],
            3: lambda o: [mk("cmp", "eq", dim(o, 0), ic(8))]}))
        out.append((m, "more samples than pixels", [
            mk("cmp", "slt", pmul(sympy(0), sympy(1)), ic(7))],
            {2: lambda o: [mk("cmp", "eq", dim(o, 0), ic(7))],
             3: lambda o: [mk("cmp", "eq", dim(o, 0), ic(7))]}))
    out.append(("nesta_dctTV", "bp_mode not 1 or 2",
                [ne(sympy(12), ONE), ne(sympy(12), ic(2))], {}))
    out.append(("breg_anistropic_TV", "f not two dimensional", [],
                {0: lambda o: [ne(nd(o), ic(2))]}))
    for k in (0, 1):
        out.append(("breg_anistropic_TV", "f with less than 3 in dimension %d" % k, [],
                    {0: lambda o, k=k: [mk("cmp", "slt", dim(o, k), ic(3))]}))
    return out


class PyL(Outcome):
    arr = {}

    def on_numpy(self, I, st, inst, idx, args, obj):
        if idx != 69 or not args:
            return
        p = args[0]
        if p.op == "ptr" and p.args[0].args[0] == "pyarg":
            fn = self.arr.get(p.args[0].args[1])
            if fn:
                for c in fn(obj):
                    I.assume(st, c, True)
                st.mon["assumed"] = frozenset(st.mon.get("assumed", frozenset()) |
                                              {p.args[0].args[1]})


def py_job(i):
    m, label, ints, arr = pycases()[i]
    rep = Report("C07", "quick")
    prog = image("python")
    names = py_names(prog)
    f = names.get(m) or names.get("_" + m)
    if f is None:
        raise AnalysisBroken("Python method %s not found" % m)
    I = ItpF(prog, fresh=True)
    l = PyL(rep, m, f)
    l.arr = arr
    I.listeners.append(l)
    s = absint.State()
    for c in ints:
        I.assume(s, c, True)
    rets, av = I.root(f, st=s)
    n = 0
    for r, s1 in rets:
        if s1.mon.get("fail") or set(s1.mon.get("assumed", ())) != set(arr):
            continue
        n += 1
        ok = l.reported(I, s1, r, av, "argument")
        if ok is False and not s1.mon.get("rep"):
            rep.violation("python %s: %s" % (m, label), "accepted")
            break
        if ok is None:
            rep.undecided("python %s: %s" % (m, label))
            break
    else:
        (rep.ok if n else rep.undecided)("python %s: %s raises on all %d exits" % (m, label, n))
    rep.count("argument classes")
    return rep.data()


def run(rep):
    rep.rule = RULE
    rep.assume = ["floating point arguments are not NaN"]
    pmap(c_job, range(len(cases())), rep)
    pmap(pix_job, sorted(PIX), rep)
    pmap(py_job, range(len(pycases())), rep)
