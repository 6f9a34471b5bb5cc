"""C05: the parallel loops compute what the serial ones do, on any number of threads."""
import itertools

import absint
import bounds
import common
import numeval
import omp
import program
from lab import *
from common import Report, pmap, mods

RULE = ("The library is compiled with OpenMP and every parallel region analysed twice. (1) For an "
        "arbitrary iteration of the work-shared loop, every access to memory that is not private "
        "to the thread is derived as offset and length in the iteration number; two different "
        "iterations may not touch the same bytes unless both only read or both hold the same lock "
        "or are in the reduction; no private variable is read before the iteration sets it. "
        "Disjointness is proved for all sizes by variable elimination, and refuted by instantiating "
        "small sizes. (2) The region executed by one thread is summarised, and the functions "
        "containing regions are compared with their specifications as in C18, C21 and C22, so "
        "nothing that the serial code computes is lost in a private copy.")


def ompimage():
    if "omp" not in common._PROG:
        common._PROG["omp"] = program.Program(mods(True), common.lib)
    return common._PROG["omp"]


def within(ctx, top):
    while ctx is not top:
        if ctx.op not in ("ctx", "it") or not ctx.args or not isinstance(ctx.args[0], T):
            return False
        ctx = ctx.args[0]
    return True


class Acc:
    pass


class Race(bounds.Bounds):
    """accesses to shared memory inside parallel regions"""

    def __init__(self):
        bounds.Bounds.__init__(self)
        self.reg = []
        self.undef = {}

    def on_forkbegin(self, I, st, inst, ctx, fn):
        self.reg.append((ctx, set(st.res), len(self.loops), I.where(inst)))

    def on_forkend(self, I, st, inst, ctx, fn):
        self.reg.pop()

    def private(self, o):
        ctx, res, _, _ = self.reg[0]
        k = o.args[0]
        if k in ("alloca", "byval"):
            return within(o.args[1], ctx)
        if k == "heap":
            return o not in res and within(o.args[1], ctx)
        return False

    def on_access(self, I, st, inst, obj=None, off=None, size=None, what=None, ptr=None,
                  kind=None, count=None, **kw):
        if not self.reg or obj is None or off is None:
            return
        if self.private(obj):
            return
        a = Acc()
        a.where, a.obj, a.off, a.what = I.where(inst), obj, off, what
        a.inst, a.fn = inst["id"] if inst else None, I.stack[-1][0].key if I.stack else ""
        if count is not None and count.op == "strided":
            count = padd(pmul(psub(count.args[0], ONE), count.args[1]), ONE)
        a.len = ic(size) if count is None else pscale(P(count), size)
        a.write = what not in ("load",)
        a.guard, a.chain = st.guard, tuple(self.loops[self.reg[0][2]:])
        a.ents = tuple(self.ents[self.reg[0][2]:])
        a.st = st.copy()
        a.prot, a.phase = st.mon.get("ompprot"), st.mon.get("ompphase", 0)
        a.shared = st.mon.get("ompit", False)
        a.region = self.reg[0][3]
        self.acc.append(a)


class OItp(Itp):
    ompiter = True

    def write(self, st, obj, off, size, v, *r, **k):
        B = next((l for l in self.listeners if isinstance(l, Race)), None)
        if B is not None and B.reg and v is UNDEF and not B.private(obj):
            B.undef.setdefault(B.reg[0][3], show(obj, 2))
        return Itp.write(self, st, obj, off, size, v, *r, **k)


IT, IT2 = omp.ITER, mk("t", mk("L", "omp", "it2"))


def conflict(a, b):
    return a.obj is b.obj and a.region == b.region and (a.write or b.write) and a.phase == b.phase and \
        not (a.prot and a.prot == b.prot)


def disjoint(I, a, b):
    """for all sizes and all iterations it != it2?"""
    if any(not isinstance(x, T) or x.op != "p" for x in (a.off, b.off, a.len, b.len)):
        return False
    if not (a.shared and b.shared):
        return False
    ren = {IT: P(IT2)}
    for L in b.chain:
        t = mk("t", L)
        ren[t] = P(mk("t", mk("L2", L)))
    ok = True
    for lo, hi in ((IT, IT2), (IT2, IT)):
        s = a.st.copy()
        for k, v in b.st.facts.items():
            if k.op != "p":
                continue
            k2 = subst(k, ren)
            if k2 is not k and isinstance(v, tuple):
                I.addiv(s, P(k2), *v)
        if not I.addiv(s, psub(P(hi), P(lo)), 1, None):
            continue
        ob, lb = P(subst(b.off, ren)), P(subst(b.len, ren))
        d1 = psub(ob, padd(a.off, a.len))
        d2 = psub(a.off, padd(ob, lb))
        if not any(prove2(I, s, d, P(hi), P(lo)) for d in (d1, d2)):
            ok = False
    return ok


def prove2(I, s, d, hi, lo):
    if bounds.prove(I, s, d):
        return True
    # d is increasing in hi: replace it by lo + 1 + k, k >= 0
    k = mk("gap", patom(hi), patom(lo))
    e = P(subst(d, {patom(hi): padd(padd(lo, ONE), P(k))}))
    s2 = State()
    for f, v in s.facts.items():
        if f.op == "p" and isinstance(v, tuple) and len(v) == 2:
            I.addiv(s2, P(subst(f, {patom(hi): padd(padd(lo, ONE), P(k))})), *v)
    I.addiv(s2, P(k), 0, None)
    return bounds.prove(I, s2, e, 5)


def footprint(I, S, a, it):
    """[(offset, length)] of one access in iteration it"""
    out = []
    S.bound[IT] = it

    def rec(k):
        if len(out) > 3000:
            raise Unknown("footprint")
        if k == len(a.chain):
            n = S.ev(a.len)
            if n > 0 and bounds.feasible(S, a.guard):
                out.append((S.ev(a.off), n))
            return
        r = I.recs.get((a.chain[k], a.ents[k])) or I.loops.get(a.chain[k])
        if r is None or r.count is None:
            raise Unknown("loop count")
        t = mk("t", a.chain[k])
        for x in bounds.rounds(r, a, max(0, S.ev(r.count))):
            S.bound[t] = x
            rec(k + 1)
        S.bound.pop(t, None)
    rec(0)
    return out


def clash(I, pairs, dims):
    """a witness (a, b, sizes, i, j) for two different iterations"""
    accs = {id(x): x for p in pairs for x in p}
    for d in dims:
        S = Small(I, "c05", dict(d))
        S.ops.update(numeval.OPS)
        foot = {}
        for k, a in accs.items():
            for it in range(0, 12):
                try:
                    foot[k, it] = footprint(I, S, a, it)
                except (Unknown, Uninit):
                    foot[k, it] = None
        for a, b in pairs:
            for i, j in itertools.permutations(range(0, 12), 2):
                fa, fb = foot[id(a), i], foot[id(b), j]
                if not fa or not fb:
                    continue
                for o1, n1 in fa:
                    for o2, n2 in fb:
                        if o1 < o2 + n2 and o2 < o1 + n1:
                            return a, b, d, i, j
    return None


class Small(Sample):
    """sizes held in structures are small and positive"""

    def init(self, obj, off, size, kind):
        if kind != "f":
            return 4
        return Sample.init(self, obj, off, size, kind)


def j_region(rep, name, rel):
    prog = ompimage()
    f = prog.find(name, rel)
    I = OItp(prog, numeric=True)
    B = Race()
    I.listeners.append(B)

    def facts(F, av, s):
        for k, a in enumerate(f.args):
            if av[k].op == "p":
                I.addiv(s, av[k], 1, None)
        return ()
    F = Fn(prog, name, facts=facts, itp=I, rel=rel)
    ints = [patom(x) for x in F.av if x.op == "p"]
    acc, seen = [], set()
    for a in B.acc:
        k = (a.where, a.obj, a.off, a.len, a.what, a.guard, a.prot, a.phase, a.chain)
        if k not in seen:
            seen.add(k)
            acc.append(a)
    for w, o in B.undef.items():
        rep.violation("%s: region at %s" % (name, w),
                      "%s gets a value that the thread has not computed" % o)
    open_, n = [], 0
    for i, a in enumerate(acc):
        for b in acc[i:]:
            if not conflict(a, b):
                continue
            n += 1
            if not disjoint(I, a, b):
                open_.append((a, b))
    import c06
    if open_:
        dims = c06.grid(ints, (4, 3, 5)) if ints else [{}]
        left = []
        for p in open_:
            w = clash(I, [p], dims)
            if w:
                a, b, d, i, j = w
                rep.violation("%s: %s" % (name, a.obj.args[-1] if 0 else show(a.obj, 2)),
                              "iterations %d and %d both touch it (%s at %s, %s at %s), at sizes %s"
                              % (i, j, a.what, a.where, b.what, b.where,
                                 sorted(d.values())))
            else:
                left.append(p)
        for a, b in left[:3]:
            rep.undecided("%s: %s" % (name, show(a.obj, 2)),
                          "%s at %s / %s at %s" % (show(a.off, 3), a.where, show(b.off, 3), b.where))
        if not left:
            open_ = []
    if not open_ and n:
        rep.ok("%s: %d pairs of accesses in different iterations are disjoint" % (name, n))
    elif not n:
        rep.ok("%s: nothing shared is written" % name)
    rep.count("pairs of accesses", n)
    rep.count("accesses to shared memory", len(acc))


def j_serial(rep, mod, item):
    """the region as executed by one thread, against the specification of its function"""
    plain = image("lib")
    m = __import__(mod)
    common._PROG["lib"] = ompimage()
    d = m.job(item)
    common._PROG["lib"] = plain
    if d["viol"]:
        # a defect of the serial code as well is not one of the parallelisation
        e = m.job(item)
        for k, v in d["viol"].items():
            if k in e["viol"] or k in e["undec"]:
                rep.undecided("one thread: " + k, "the serial code differs too")
            else:
                rep.violation("one thread: " + k, v)
    for k, v in d["undec"].items():
        rep.undecided("one thread: " + k, v)
    for c in d["checked"]:
        rep.ok("one thread: " + c)


def job(a):
    rep = Report("C05", "quick")
    try:
        globals()["j_" + a[0]](rep, *a[1:])
    except (Unknown, absint.Blowup) as e:
        rep.undecided(" ".join(map(str, a)), str(e))
    return rep.data()


def regions(prog):
    out = []
    for f in prog.functions():
        f.prepare()
        for b in f.blocks.values() if isinstance(f.blocks, dict) else f.blocks:
            if any(i["op"] == "call" and i.get("callee", [0, ""])[1] == "__kmpc_fork_call"
                   for i in b):
                out.append((f.name, f.mod["rel"]))
                break
    return sorted(out)


def run(rep):
    rep.rule = RULE
    rep.assume = ["array arguments of one call do not overlap (restrict or documented)",
                  "a reduction combines partial results in any order: rounding is not considered"]
    prog = ompimage()
    R = regions(prog)
    rep.count("parallel regions", len(R))
    import c18
    import c19
    import c20
    import c21
    import c22
    names = {n for n, _ in R}
    J = [("region",) + r for r in R]
    J += [("serial", "c18", n) for n in c18.OPS if n in names]
    J += [("serial", "c22", n) for n in c22.K if n in names]
    J += [("serial", "c21", n) for n in c21.BLOCKS]
    J += [("serial", "c19", n) for n in c19.JOBS] + [("serial", "c20", n) for n in c20.JOBS]
    if not R:
        rep.ok("no parallel region")
    pmap(job, J, rep)
