"""C04: the array allocators deliver what everything else relies on."""
import absint
import bounds
import numeval
from lab import *
from common import Report, pmap
from models import MODELS

RULE = ("Abstract interpretation of the allocation functions themselves, down to malloc, "
        "posix_memalign and free, every one of which may fail: on a successful exit the result "
        "owns at least the requested elements (for every count, computed without 32-bit "
        "wrap-around), at the alignment the vectorised code assumes, zeroed where promised; a "
        "failed exit owns nothing; releasing gives back all of it exactly once. Row counts of "
        "two-dimensional arrays are unrolled up to %d rows, all patterns of failing rows.")
ROWS = {"quick": 4, "thorough": 7}
OWN = ("l1c_malloc_double", "l1c_calloc_double", "l1c_malloc_double_2D", "l1c_calloc_double_2D",
       "l1c_free_double", "l1c_free_double_2D")


class AItp(Itp):
    """follows a loop iteration by iteration where that ends; summarises it otherwise"""

    def loop(self, f, h, entry, ctx, rets):
        if self.unroll:
            r2 = []
            try:
                out = self.unrolled(f, h, entry.copy(), ctx, r2)
                rets += r2
                return out
            except absint.Blowup:
                pass
        u, self.unroll = self.unroll, 0
        try:
            return Itp.loop(self, f, h, entry, ctx, rets)
        finally:
            self.unroll = u


class Spy:
    def __init__(self):
        self.align, self.prob, self.unk = {}, [], None

    def on_aligned(self, I, st, inst, obj, align):
        self.align[obj] = cval(align)

    def on_release(self, I, st, inst, obj=None, p=None, problem=None, what=None, **kw):
        if problem == "foreign":
            self.unk = I.where(inst)
        elif problem:
            self.prob.append((problem, what, I.where(inst)))

    def on_undefuse(self, I, st, inst, **kw):
        self.prob.append(("undefined value used", "", I.where(inst)))

    def on_badptr(self, I, st, inst, p=None, what=None, **kw):
        self.prob.append(("invalid pointer", what, I.where(inst)))


def itp(numeric=False, unroll=0):
    prog = image("lib")
    mdl = {k: v for k, v in MODELS.items() if k not in OWN}
    I = AItp(prog, numeric=numeric, mdl=mdl)
    I.unroll = unroll
    S = Spy()
    I.listeners.append(S)
    return prog, I, S


def demand(prog):
    """largest alignment any compiled function assumes of a double array"""
    m = 16                                    # FFTW's SIMD
    for f in prog.functions():
        f.prepare()
        for b in f.blocks.values() if isinstance(f.blocks, dict) else f.blocks:
            for i in b:
                for x in i.get("bundles", ()) if isinstance(i, dict) else ():
                    if x[0] == "align":
                        v = x[2]
                        v = v[1] if isinstance(v, (list, tuple)) else v
                        if isinstance(v, int):
                            m = max(m, v)
    return m


def live(s):
    return [o for o, r in s.res.items() if r[0] == "live" and
            s.facts.get(mk("nul", o)) is not True]


def narrow(prog, name):
    """a 32-bit product of the arguments that reaches an allocation size"""
    f = prog.find(name)
    f.prepare()
    byid = {i["id"]: i for b in (f.blocks.values() if isinstance(f.blocks, dict) else f.blocks)
            for i in b if "id" in i}
    for i in byid.values():
        if i["op"] != "call" or i.get("callee", [0, ""])[1] not in (
                "malloc", "calloc", "posix_memalign", "aligned_alloc", "memalign", "realloc"):
            continue
        todo, seen = list(i["ops"]), set()
        while todo:
            a = todo.pop()
            if a[0] != "v" or a[1] in seen:
                continue
            seen.add(a[1])
            j = byid.get(a[1])
            if j is None or j["op"] in ("load", "call", "phi", "alloca"):
                continue
            if j["op"] in ("mul", "shl"):
                k = max([x[1] for x in j["ops"] if x[0] == "c"] or [0])
                if j["op"] == "shl":
                    k = 1 << min(k, 30)
                if k >= 8 and k % 8 == 0:
                    if j.get("ty") == "i32":      # bytes, counted in 32 bits
                        return f.loc(j)
                    continue
            todo += list(j.get("ops", ()))
    return None


def sized(I, s, o, need):
    r = s.res.get(o)
    if r is None or r[2] is None:
        return None
    d = psub(P(r[2]), need)
    if cval(d) is not None:
        return cval(d) >= 0
    if bounds.prove(I, s, d):
        return True
    lo, hi = I.interval(s, d)
    if hi is not None and hi < 0:
        return False
    # smaller at some small count?
    at = sorted({a for m, _ in d.args[0] for a in m}, key=lambda a: a.uid)
    for k in range(1, 40):
        S = numeval.Sample(I, "c04", {a: k for a in at})
        try:
            if S.ev(d) < 0:
                return False
        except (numeval.Unknown, numeval.Uninit):
            return None
    return None


def vec_ok(rep, key, I, S, s, p, N, al, seen):
    """p must own N aligned doubles"""
    if p.op != "ptr" or p.args[0].args[0] != "heap":
        rep.undecided(key, "result %s" % show(p, 3))
        return
    o = p.args[0]
    r = s.res.get(o)
    if r is None or r[0] != "live":
        rep.violation(key, "the result of a successful call is not owned memory")
        return
    if o in seen:
        rep.undecided(key, "the row shares its allocation with another one")
        return
    seen.add(o)
    q = sized(I, s, o, pscale(N, 8))
    if q is False:
        rep.violation(key, "%s bytes are allocated for %s doubles" % (show(r[2], 3), show(N, 3)))
    elif q is None:
        rep.undecided(key, "size %s" % show(r[2], 3))
    else:
        rep.ok(key + ": size")
    a = S.align.get(o)
    if cval(p.args[1]) != 0:
        off = cval(p.args[1])
        if off is None:
            rep.undecided(key, "offset")
            return
        a = min(a or 16, off & -off)
    if a is None and o not in S.align:
        a = 16                                # malloc
    if a is None:
        rep.undecided(key, "alignment is not constant")
    elif a < al:
        rep.violation(key, "aligned to %d bytes, but the library assumes %d" % (a, al))
    else:
        rep.ok(key + ": alignment")


def zeroed(rep, key, I, s, p, N, seed):
    """every element reads 0"""
    if p.op != "ptr":
        return
    at = sorted({a for m, _ in P(N).args[0] for a in m}, key=lambda a: a.uid)
    for n in (1, 2, 3, 4, 5, 8, 13, 33):
        S = numeval.Sample(I, "c04/%d/%s" % (n, seed), {a: n for a in at})
        c = I.content(s, p.args[0])
        for k in range(n):
            try:
                v = S.readc(c, S.ev(p.args[1]) + 8 * k, 8, "f")
            except numeval.Uninit:
                rep.violation(key, "element %d of %d is not initialised" % (k, n))
                return
            except numeval.Unknown as e:
                rep.undecided(key, str(e))
                return
            if v != 0 or str(v)[0] == "-":
                rep.violation(key, "element %d of %d is %r" % (k, n, v))
                return
    rep.ok(key + ": zeroed")


def call(I, f, args, st=None):
    st = st or State()
    return I.call(f, args, st, mk("ctx", TOPCTX, f.key, 0))


def j_vector(rep, name):
    prog, I, S = itp(numeric=True)
    al = demand(prog)
    f = need(prog, name)
    if len(f.args) != 1:
        raise Unknown("signature of %s" % name)
    f.prepare()
    N = P(mk("arg", "N"))
    st = State()
    I.addiv(st, N, 1, None)
    nok = 0
    outs = call(I, f, [N], st)
    own, S.prob = S.prob, []
    for r, s in outs:
        if r is NULL or I.isnull(s, r):
            lv = live(s)
            if lv:
                rep.violation(name + ": failed exit", "%s stays allocated" % show(lv[0], 3))
            else:
                rep.ok(name + ": failed exit owns nothing")
            continue
        if s.mon.get("fail"):
            rep.violation(name + ": failed exit", "a failed allocation is not returned as NULL")
            continue
        nok += 1
        vec_ok(rep, name, I, S, s, r, N, al, set())
        if "calloc" in name:
            zeroed(rep, name, I, s, r, N, nok)
        extra = [o for o in live(s) if r.op == "ptr" and o is not r.args[0]]
        if extra:
            rep.violation(name + ": ownership", "%s is allocated besides" % show(extra[0], 3))
        # releasing it
        g = prog.find("l1c_free_double")
        if g is not None and len(g.args) == 1:
            g.prepare()
            S.prob = []
            for _, s2 in I.call(g, [r], s.copy(), mk("ctx", TOPCTX, "free", 0)):
                if S.prob or live(s2):
                    rep.violation(name + ": release", "%s" % (S.prob or "memory stays allocated"))
                else:
                    rep.ok(name + ": release")
    if not nok:
        rep.violation(name, "no successful exit")
    w = narrow(prog, name)
    if w:
        rep.violation(name + ": size arithmetic",
                      "the byte count is computed in 32 bits at %s" % w)
    if S.unk:
        rep.undecided(name, "release of an unresolved pointer at %s" % S.unk)
    for p in own:
        rep.violation(name + ": use", "%s %s at %s" % p)


def j_null(rep):
    prog, I, S = itp(unroll=4)
    for name, args in (("l1c_free_double", [NULL]), ("l1c_free_double_2D", [ic(3), NULL])):
        f = prog.find(name)
        if f is None or len(f.args) != len(args):
            rep.undecided(name, "signature")
            continue
        f.prepare()
        S.prob = []
        call(I, f, args)
        if S.prob:
            rep.violation(name + ": null", "%s %s at %s" % S.prob[0])
        else:
            rep.ok(name + ": releasing nothing is harmless")


def j_rows(rep, name, rows):
    prog, I, S = itp(numeric=True, unroll=rows + 2)
    al = demand(prog)
    f, g = need(prog, name), need(prog, "l1c_free_double_2D")
    if len(f.args) != 2 or len(g.args) != 2:
        raise Unknown("signature of %s" % name)
    f.prepare()
    g.prepare()
    N = P(mk("arg", "N"))
    st = State()
    I.addiv(st, N, 1, None)
    key = "%s, %d rows" % (name, rows)
    nok = nbad = 0
    outs = call(I, f, [ic(rows), N], st)
    own, S.prob = S.prob, []
    for r, s in outs:
        if r is NULL or I.isnull(s, r):
            nbad += 1
            lv = live(s)
            if lv:
                rep.violation(key + ": failed exit", "%s stays allocated" % show(lv[0], 3))
            continue
        if s.mon.get("fail"):
            rep.violation(key, "a failed allocation is not returned as NULL")
            continue
        nok += 1
        if r.op != "ptr" or r.args[0].args[0] != "heap":
            rep.undecided(key, "result %s" % show(r, 3))
            continue
        q = sized(I, s, r.args[0], ic(8 * rows))
        if q is False:
            rep.violation(key, "the row table is too short")
        elif q is None:
            rep.undecided(key, "size of the row table")
        seen = {r.args[0]}
        for k in range(rows):
            p = I.read(s, r.args[0], padd(r.args[1], ic(8 * k)), 8, "p")
            if p is UNDEF or p is NULL:
                rep.violation(key, "row %d is not set" % k)
                continue
            vec_ok(rep, "%s, row %d" % (key, k), I, S, s, p, N, al, seen)
            if "calloc" in name:
                zeroed(rep, "%s, row %d" % (key, k), I, s, p, N, nok)
        extra = [o for o in live(s) if o not in seen]
        if extra:
            rep.violation(key + ": ownership", "%s is allocated besides" % show(extra[0], 3))
        S.prob = []
        for _, s2 in I.call(g, [ic(rows), r], s.copy(), mk("ctx", TOPCTX, "free", 0)):
            lv = live(s2)
            if S.prob:
                rep.violation(key + ": release", "%s %s at %s" % S.prob[0])
            elif S.unk:
                pass
            elif lv:
                rep.violation(key + ": release", "%s stays allocated" % show(lv[0], 3))
            else:
                rep.ok(key + ": release")
    if own:
        rep.violation(key + ": use", "%s %s at %s" % own[0])
    if S.unk:
        rep.undecided(key, "release of an unresolved pointer at %s" % S.unk)
    if not nok and rows:
        rep.violation(key, "no successful exit")
    if nbad:
        rep.ok(key + ": %d failed exits own nothing" % nbad)
    rep.count("failure patterns", nbad)


def j_bounds(rep):
    """the row table for any number of rows"""
    prog = image("lib")
    for name in ("l1c_malloc_double_2D", "l1c_calloc_double_2D"):
        f = need(prog, name)
        mdl = {k: v for k, v in MODELS.items() if k not in (name,)}
        I = Itp(prog, numeric=True, mdl=mdl)
        B = bounds.Bounds({})
        I.listeners.append(B)
        f.prepare()
        st = State()
        a = [P(mk("arg", "R")), P(mk("arg", "N"))]
        for x in a:
            I.addiv(st, x, 1, None)
        I.call(f, a, st, mk("ctx", TOPCTX, f.key, 0))
        import c06
        bounds.decide(rep, name, I, B, c06.samples(I, c06.grid([patom(x) for x in a],
                                                               (1, 2, 3, 8), (1, 2, 9))))
        w = narrow(prog, name)
        if w:
            rep.violation(name + ": size arithmetic",
                          "a byte count is computed in 32 bits at %s" % w)


def job(a):
    rep = Report("C04", "quick")
    try:
        globals()["j_" + a[0]](rep, *a[1:])
    except (Unknown, absint.Blowup) as e:
        rep.undecided(" ".join(map(str, a)), str(e))
    return rep.data()


def run(rep):
    top = ROWS[rep.tier if rep.tier in ROWS else "quick"]
    rep.rule = RULE % top
    rep.assume = ["malloc, calloc, posix_memalign, aligned_alloc and free do what they document"]
    J = [("vector", "l1c_malloc_double"), ("vector", "l1c_calloc_double"), ("null",),
         ("bounds",)]
    J += [("rows", n, k) for n in ("l1c_malloc_double_2D", "l1c_calloc_double_2D")
          for k in range(0, top + 1)]
    pmap(job, J, rep)
