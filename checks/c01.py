"""C01: every acquired resource is released exactly once on every path."""
from scen import *
from common import pmap, Report
import absint

RULE = ("Interprocedural ownership typestate over LLVM IR, from every exported function, "
        "Python method, mexFunction and example main, on every path incl. every allocation "
        "failure, plus all two-step histories (constructor succeeds+destroy | constructor "
        "fails) ; constructor ; destroy. At each exit a live resource must be owned by the "
        "caller (return value, out-parameter, or the instance a successful constructor leaves "
        "behind); no double, mismatched or wild release; no access after release.")


class L:
    def __init__(self, rep, root):
        self.rep, self.root = rep, root
        self.releaser = bool(RELEASER.search(root.lower()))
        self.nrel = self.nacc = self.nalloc = 0
        self.I = None
        self.hist = False

    def v(self, what, I, inst, obj=""):
        self.rep.violation("%s: %s at %s" % (self.root, what, I.where(inst)),
                           "call chain %s; object %s" % (I.chain(), show(obj) if obj else ""))

    def on_alloc(self, I, st, inst, obj, kind, size):
        self.nalloc += 1
        self.rep.ok("%s: %s acquired at %s" % (self.root, kind, I.where(inst)))

    def on_release(self, I, st, inst, obj, p, problem, what, **k):
        self.nrel += 1
        if problem is None:
            return
        if problem == "foreign":
            b = base_of(obj)
            if b.args[0] == "glob":
                if self.hist:
                    self.v("%s releases memory this library does not own" % what, I, inst, obj)
                return
            if self.releaser or b.args[0] not in ("ext",):
                return
            if isinstance(b.args[1], str):
                self.v("%s releases the caller's memory" % what, I, inst, obj)
            return
        t = {"double": "second release of the same resource by %s",
             "undef": "%s of an indeterminate pointer",
             "notheap": "%s of something that is not an allocation",
             "mismatch": "%s does not match how the resource was acquired",
             "rows": "%s with a row count different from the allocation"}[problem]
        self.v(t % what, I, inst, obj or p)

    def on_access(self, I, st, inst, obj, off, what, ptr, **k):
        self.nacc += 1
        o = obj
        if o.args[0] == "row":
            o = o.args[1]
        r = st.res.get(o)
        if r and r[0] == "freed":
            self.v("access to a released %s (%s)" % (r[1], what), I, inst, o)

    def on_pathend(self, I, st, inst, why):
        leaks(self.rep, self.root, I, st, [], "at %s (%s)" % (I.where(inst), why), True)


def leaks(rep, root, I, st, rets, where, globs):
    keep = reach(st, rets, globs)
    bad = 0
    for o, r in st.res.items():
        if r[0] != "live" or o in keep:
            continue
        bad += 1
        rep.violation("%s: %s acquired at %s is not released" % (root, r[1], r[3]),
                      "live and unreachable %s" % where)
    return bad


def root_job(a):
    img, name, rel = a
    rep = Report("C01", "quick")
    f = find(img, name, rel)
    I = Itp(image(img))
    l = L(rep, name)
    I.listeners.append(l)
    rets, av = I.root(f)
    for r, s in rets:
        globs = not (name in SETUPS and zero_ret(I, s, r) is False)
        leaks(rep, name, I, s, [r], "at return of %s" % name, globs)
    rep.count("exit states", len(rets))
    rep.count("abstract instructions", I.ninst)
    rep.count("roots")
    rep.count("accesses checked", l.nacc)
    rep.count("releases checked", l.nrel)
    return rep.data()


def dedupe(I, sts):
    """drop facts/env, merge states which agree on memory and resources"""
    out = {}
    for s in sts:
        s.env = {}
        keep = {o: c for o, c in s.mem.items() if o.args[0] in ("glob", "heap")}
        s.mem = keep
        s.mon = {}
        k = (frozenset((o, c) for o, c in s.mem.items() if o.args[0] == "glob"),
             frozenset(s.res.items()))
        if k not in out:
            out[k] = s
        else:
            m = out[k]
            for x in list(m.facts):
                if s.facts.get(x) != m.facts[x]:
                    del m.facts[x]
    return list(out.values())


def hist_job(ab):
    A, B = ab
    rep = Report("C01", "quick")
    prog = image("lib")
    I = Itp(prog, fresh=True)
    l = L(rep, "%s;%s" % (A, B))
    l.hist = True
    l.releaser = False
    I.listeners.append(l)
    fa, fb = need(prog, A), need(prog, B)
    rets, _, tobj = run_setup(I, fa)
    after = []
    nsucc = 0
    for r, s in rets:
        z = zero_ret(I, s, r)
        if z is False:
            leaks(rep, A, I, s, [], "when %s fails" % A, False)
            after.append(s)
            continue
        nsucc += 1
        d = table(prog, I, s, tobj)["destroy"]
        if d.op != "fptr":
            continue
        g = I._bykey(d.args[0])
        for _, s2 in I.call(g, [], s.copy(), mk("ctx", TOPCTX, "destroy", 0)):
            leaks(rep, "%s;destroy" % A, I, s2, [], "after destroy", False)
            after.append(s2)
    if not nsucc:
        rep.undecided("%s never succeeds" % A)
    rep.count("constructor/destroy histories")
    after = dedupe(I, after)
    rep.count("inter-call states", len(after))
    for s in after:
        rets, _, tobj = run_setup(I, fb, s, n=1)
        for r, s1 in rets:
            z = zero_ret(I, s1, r)
            if z is False:
                leaks(rep, "%s;%s" % (A, B), I, s1, [], "when the second call fails", False)
                continue
            d = table(prog, I, s1, tobj)["destroy"]
            if d.op != "fptr":
                continue
            g = I._bykey(d.args[0])
            for _, s2 in I.call(g, [], s1.copy(), mk("ctx", TOPCTX, "destroy", 1)):
                leaks(rep, "%s;%s;destroy" % (A, B), I, s2, [], "after the second destroy",
                      False)
    return rep.data()


def run(rep):
    rep.rule = RULE
    rep.assume = ["malloc/calloc/FFTW/NumPy allocation may return NULL at any call",
                  "MATLAB releases mx* allocations itself; mexErrMsgIdAndTxt does not return"]
    pmap(root_job, all_roots(), rep)
    pmap(hist_job, [(a, b) for a in SETUPS for b in SETUPS], rep)
