"""C09: a successful constructor yields a complete operator set with the right dimensions."""
from scen import *
from common import pmap, Report
import absint
from terms import patoms

RULE = ("Abstract interpretation of every constructor from an arbitrary prior state of the "
        "library: on each successful exit every operator slot holds a function of the library, "
        "the dimension fields equal the polynomials in the arguments that the documentation "
        "gives, and the norm bound is the documented constant or formula.")
OPS = ("Ax", "Aty", "AtAx", "Mx", "Mty", "Wz", "Wtx", "Rx", "Rty", "destroy")


def dims(name, I, s, av):
    """expected (n, m, p, q) as lists of admissible polynomials"""
    if name == "l1c_dct1_setup" or name == "l1c_setup_matrix_transforms":
        n, m = P(av[0]), P(av[1])
        return n, m, m, m
    if name in ("l1c_dct2_setup", "l1c_setup_dct_transforms"):
        n, m = P(av[0]), pmul(P(av[1]), P(av[2]))
        return n, m, m, m
    n, M = P(av[0]), pmul(P(av[1]), P(av[2]))
    k = 1
    for a in (av[3], av[4]):
        v = I._fcmp(s, mk("fcmp", "ogt", a, fc(0.0)))
        if v is None:
            return None
        k += 1 if v else 0
    big = pscale(M, k)
    syn = I._cmp(s, "eq", av[6], ic(2))
    if syn is None:
        return None
    return (n, big, M, M) if syn else (n, M, big, M)


def job(name):
    rep = Report("C09", "quick")
    prog = image("lib")
    I = Itp(prog)
    f = need(prog, name)
    combos = [[]]
    if name == "l1c_setup_dctTV_transforms":
        combos = []
        for v in (0, 1):
            for h in (0, 1):
                for b in (1, 2):
                    def c(av, v=v, h=h, b=b):
                        r = []
                        for a, k in ((av[3], v), (av[4], h)):
                            r.append(mk("fcmp", "ogt" if k else "oeq", a, fc(0.0)))
                        r.append(mk("cmp", "eq", av[6], ic(b)))
                        return r
                    combos.append([c])
    if name == "l1c_setup_dct_transforms":
        combos = []
        for b in (1, 2):
            combos.append([lambda av, b=b: [mk("cmp", "eq", av[3], ic(b))]])
    for cb in combos:
        facts = []
        rets, av, tobj = setup(I, f, cb)
        ns = 0
        for r, s in rets:
            if zero_ret(I, s, r) is False:
                continue
            ns += 1
            t = table(prog, I, s, tobj)
            for op in OPS:
                if t[op].op == "fptr":
                    rep.ok("%s: %s is set" % (name, op))
                elif t[op] is NULL or (t[op].op == "ptr" and
                                       base_of(t[op].args[0]) is tobj):
                    rep.violation("%s: operator %s is not set" % (name, op),
                                  "on a successful exit it is %s" % show(t[op]))
                else:
                    rep.undecided("%s: %s" % (name, op), show(t[op]))
            exp = dims(name, I, s, av)
            if exp is None:
                rep.undecided("%s: dimensions" % name)
                continue
            for nm, e in zip("nmpq", exp):
                d = psub(P(t[nm]), e)
                lo, hi = I.interval(s, d)
                if lo == 0 and hi == 0:
                    rep.ok("%s: %s = %s" % (name, nm, show(e)))
                elif (lo is not None and lo > 0) or (hi is not None and hi < 0) or \
                        definite(d):
                    rep.violation("%s: dimension %s" % (name, nm), "is %s, expected %s" % (
                        show(t[nm]), show(e)))
                else:
                    rep.undecided("%s: dimension %s" % (name, nm), show(t[nm]))
        if not ns:
            rep.undecided("%s never succeeds" % name)
        rep.count("successful exits", ns)
    rep.count("constructors")
    return rep.data()


def definite(d):
    """a nonzero polynomial in the arguments only, or an untouched table cell"""
    return d is not ZERO and all(a.op in ("arg", "init") for a in patoms(d))


def setup(I, f, cb):
    import scen
    s = absint.State()
    tobj = mk("obj", "ext", "ax_table")
    s.facts[mk("nul", tobj)] = False
    f.prepare()
    av = []
    for k, a in enumerate(f.args):
        if k == len(f.args) - 1:
            av.append(ptr(tobj, ZERO))
        elif a["ty"] == "ptr":
            o = mk("obj", "ext", "p%d" % k)
            s.facts[mk("nul", o)] = False
            av.append(ptr(o, ZERO))
        elif a["ty"] in ("double", "float"):
            av.append(mk("init", mk("obj", "darg", k), ZERO, 8, "f"))
        else:
            av.append(P(mk("arg", "a%d" % k)))
    for c in cb:
        for x in c(av):
            if not I.assume(s, x, True):
                raise absint.Blowup("contradictory precondition")
    return I.call(f, av, s, mk("ctx", TOPCTX, f.key, 0)), av, tobj


def run(rep):
    rep.rule = RULE
    pmap(job, SETUPS, rep)
