"""Compare a function's derived summary with its specification."""
import absint
import numeval
from numeval import Sample, Unknown, Uninit, close
from scen import *


class Fn:
    """one analysed function; arguments are bound by position"""

    def __init__(self, prog, name, facts=None, st=None, args=None, itp=None, rel=None):
        self.prog, self.name = prog, name
        self.f = f = prog.find(name, rel) or need(prog, name)
        self.I = I = itp or Itp(prog, numeric=True)
        f.prepare()
        s = st.copy() if st is not None else State()
        av = []
        for k, a in enumerate(f.args):
            if args and k in args:
                av.append(args[k])
            elif a["ty"] == "ptr":
                o = mk("obj", "ext", "p%d" % k)
                s.facts[mk("nul", o)] = False
                av.append(ptr(o, ZERO))
            elif a["ty"] in ("double", "float"):
                av.append(mk("fsym", "a%d" % k))
            else:
                av.append(P(mk("arg", "a%d" % k)))
        self.av = av
        for c in (facts(self, av, s) or ()) if facts else ():
            if not I.assume(s, c, True):
                raise absint.Blowup("contradictory precondition")
        s.guard = absint.TRUE_G
        s.env = {}
        self.rets = I.call(f, av, s, mk("ctx", TOPCTX, f.key, 0))

    def sample(self, seed, ints, **kw):
        return Sample(self.I, seed, {patom(self.av[k]) if isinstance(k, int) else k: v
                                     for k, v in ints.items()}, **kw)

    def arr(self, S, k, n):
        """input array k"""
        p = self.av[k]
        return [S.init(p.args[0], 8 * i, 8, "f") for i in range(n)]

    def flt(self, S, k):
        return S.ev(self.av[k])


def compare(rep, key, fn, S, want, tol=1e-9):
    """want: list of (label, thunk for the derived value, expected value)"""
    for label, got, exp in want:
        try:
            g = got()
        except Unknown as e:
            rep.undecided("%s: %s" % (key, label), str(e))
            return False
        except Uninit:
            rep.violation("%s: %s" % (key, label), "depends on memory that was never written")
            return False
        if g is None:
            rep.undecided("%s: %s" % (key, label), "no value")
            return False
        if not close(float(g), float(exp), tol):
            rep.violation("%s: %s" % (key, label),
                          "is %.12g where %.12g is required (one random valuation)" % (g, exp))
            return False
    return True


def loopconsts(F):
    """integer constants that the conditions of the open loops and the results compare with"""
    terms = [x for r, s in F.rets for x in (r, s.guard, tuple(s.mem.values()))]
    todo = list(F.I.kids[0])
    while todo:
        r = todo.pop()
        todo += r.kids
        terms += [x for s in [r.entry] + r.back + [e[2] for e in r.raw]
                  for x in (s.guard, tuple(s.mem.values()))]
    return numeval.constants(F.I, terms)[0]


def onesided(rep, I):
    rep.count("comparisons of reals met with both outcomes",
              sum(v == 3 for v in I.seen.values()))
    rep.count("comparisons of reals met with one outcome only",
              sum(v != 3 for v in I.seen.values()))


def kernel(rep, prog, name, dims, spec, seeds=3, key=None, sample=None, modes=(0, 0, 1, 2, 3),
           post=None, maxdim=4200, fix=lambda d: d, **kw):
    """spec(F, S, d) -> list of (label, output: ("ret",) | (pos, index), expected)

    dims: [{argument position: int}]; further shapes are added around the constants that the
    code itself compares sizes with."""
    key = key or name
    try:
        F = Fn(prog, name, **kw)
    except absint.Blowup as e:
        rep.undecided(key, str(e))
        return None
    ci, cf = numeval.constants(F.I, [x for r, s in F.rets for x in
                                     (r, s.guard, tuple(s.mem.values()))])
    dims = list(dims)
    for c in ci:
        for k in dims[0]:
            for v in (c - 1, c, c + 1, 2 * c + 1) if c <= 350 else (c + 1, c - 1, c + 6):
                for base in dims[:2]:
                    d = fix({**base, k: v})
                    if 2 <= v <= maxdim and d not in dims:
                        dims.append(d)
    n = 0
    plan = []
    for d in dims:
        big = max(d.values(), default=0) > 40
        plan += [(d, big, seed, mode, 1.0) for seed, mode in
                 enumerate(modes if not big else (0,))]
    small = [d for d in dims if max(d.values(), default=0) <= 40]
    more = [(d, False, 100 + j, 0, sc) for d in small[:3] for j, sc in
            enumerate((1e-3, .1, 20., 1e3))] if sample else []
    more += [None] + [(small[j % len(small)], False, 200 + j, 0, None) for j in range(64)] \
        if sample and small else []
    for case in plan + more:
        if case is None:
            # the rest is only for comparisons that have come out one way only so far
            if all(v == 3 for v in F.I.seen.values()):
                break
            continue
        d, big, seed, mode, scale = case
        S = F.sample("%s/%s/%d" % (name, sorted(d.values()), seed), d)
        S.mode, S.consts = mode, cf
        wd = 7 if seed < 240 else 13
        S.scale = 10 ** S.rnd.uniform(-wd, wd) if scale is None else scale
        S.wide = scale is None
        S.ops.update(numeval.OPS)
        if sample:
            sample(F, S, d)
        try:
            r, s = S.pick(F.rets)
            w = spec(F, S, d)
        except Unknown as e:
            rep.undecided(key, str(e))
            return F
        if w is None:
            continue
        want = []
        if big and len(w) > 160:
            by = {}
            for x in w:
                by.setdefault(x[1][0], []).append(x)
            w = []
            for q in by.values():
                w += q if len(q) <= 120 else q[:30] + S.rnd.sample(q[30:-30], 40) + q[-30:]
        for label, out, exp in w:
            if out[0] == "ret":
                want.append((label, lambda: S.ev(r), exp))
            elif callable(out[0]):
                want.append((label, lambda out=out: out[0](s, *out[1:]), exp))
            else:
                want.append((label, lambda out=out: S.elem(s, F.av[out[0]], out[1]), exp))
        if not compare(rep, key, F, S, want):
            return F
        n += len(want)
    rep.ok("%s: summary equals its specification (%d values compared)" % (key, n))
    rep.count("values compared", n)
    onesided(rep, F.I)
    return F
