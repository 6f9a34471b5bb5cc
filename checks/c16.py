"""C16: a newly set up transform does not depend on what was set up before."""
from scen import *
from common import pmap, Report
import absint
from terms import patoms

RULE = ("Definite-assignment analysis of the library's file-global state: starting from an "
        "arbitrary prior state, after a successful constructor neither the constructor nor any "
        "operator of the table it filled (nor destroy) reads a global cell which that "
        "constructor run has not written.")
OPS = ("Ax", "Aty", "AtAx", "Mx", "Mty", "Wz", "Wtx", "Rx", "Rty", "destroy")


class L:
    def __init__(self, rep):
        self.rep, self.what = rep, ""
        self.reads, self.written = {}, set()
        self.deref, self.kept = set(), set()
        self.n = 0
        self.tied = {}
        self.path = ()          # condition under which the set-up succeeded

    def on_access(self, I, st, inst, obj, off, what, ptr, size=8, kind="i", **k):
        if obj.args[0] != "glob":
            # memory behind a stale global pointer
            if obj.args[0] == "ext" and base_of(obj).args[0] == "glob":
                g = base_of(obj)
                self.reads.setdefault((self.what, g.args[1]), I.where(inst))
                self.deref.add(g.args[1])
            return
        if what != "load" or k.get("count") is not None:
            return
        g = I.prog.globs.get(obj.args[1])
        if not g or g["const"] or g["decl"] or not g["mod"].startswith("src/"):
            return
        self.n += 1
        v = I.read(st, obj, off, size, kind)
        if stale(v, obj):
            # known to equal something else on this path?
            tied = v.op in ("p", "init") and any(g and all(any(
                c.op == "cmp" and c.args[0] == ("eq" if v_ else "ne") and obj in roots(c)
                for c, v_ in conj) for conj in g) for g in (st.guard, self.path))
            if tied:
                self.tied.setdefault(obj.args[1], I.where(inst))
                return
            self.reads.setdefault((self.what, obj.args[1]), I.where(inst))

    def on_store(self, I, st, inst, obj, off, val, size):
        if obj.args[0] == "glob":
            self.written.add(obj.args[1])


def roots(c):
    """objects whose prior content occurs in c"""
    out, st = set(), [c]
    while st:
        x = st.pop()
        if isinstance(x, (tuple, frozenset)):
            st.extend(x)
        elif isinstance(x, T):
            if x.op == "init":
                out.add(x.args[0])
            st.extend(x.args)
    return out


def stale(v, obj):
    if v.op == "p":
        return any(a.op == "init" and a.args[0] is obj for a in patoms(v))
    if v.op == "init":
        return v.args[0] is obj
    if v.op == "ptr" and v.args[0].args[0] == "ext":
        return base_of(v.args[0]) is obj and v.args[0] is not obj
    return False


def inits(t, out, owner, seen=None):
    """globals whose prior value occurs in t (other than as owner's own unwritten cells)"""
    seen = set() if seen is None else seen
    if not isinstance(t, T) or t in seen:
        return
    seen.add(t)
    if t.op == "init" and isinstance(t.args[0], T) and t.args[0].op == "obj" and \
            t.args[0].args[0] == "glob" and t.args[0] is not owner:
        out.add(t.args[0].args[1])
    st = [t.args]
    while st:
        for x in st.pop():
            if isinstance(x, T):
                inits(x, out, owner, seen)
            elif isinstance(x, (tuple, frozenset)):
                st.append(x)


def compared(rep, name, looked):
    """the constructor looks at left-over values: do they matter to the operators?"""
    import c17
    c17.PRIOR = True
    try:
        for k in range(len(c17.scen()[name])):
            d = c17.job((name, k, None))
            for key, why in list(d["viol"].items())[:3]:
                rep.violation("%s: depends on what earlier set-ups left in %s" % (
                    key, ", ".join(sorted(looked))), "%s; read at %s" % (
                        why, ", ".join(sorted(set(looked.values())))))
            for key, why in d["undec"].items():
                rep.undecided("%s, after earlier set-ups" % key, why)
    finally:
        c17.PRIOR = False


def job(name):
    rep = Report("C16", "quick")
    prog = image("lib")
    I = Itp(prog, numeric=True)
    l = L(rep)
    I.listeners.append(l)
    f = need(prog, name)
    l.what = name
    rets, av, tobj = run_setup(I, f)
    seen = set()
    for r, s in rets:
        if zero_ret(I, s, r) is False:
            continue
        t = table(prog, I, s, tobj)
        # does a value left over from before end up in the new transform?
        for o, c in list(s.mem.items()) + [(tobj, v) for v in t.values()]:
            if o is tobj or o.args[0] in ("heap", "glob"):
                inits(c, l.kept, o)
        for op in OPS:
            if t[op].op != "fptr":
                continue
            g = I._bykey(t[op].args[0])
            s2 = s.copy()
            l.path = s.guard
            args = []
            for k, a in enumerate(g.args):
                o = mk("obj", "ext", "vec%d" % k)
                s2.facts[mk("nul", o)] = False
                args.append(ptr(o, ZERO))
            l.what = "%s;%s" % (name, op)
            seen.add(op)
            I.call(g, args, s2, mk("ctx", TOPCTX, op, 0))
    for op in seen:
        rep.ok("%s; %s: %d global reads" % (name, op, l.n))
    looked = {g.split("::")[-1]: w for g, w in l.tied.items()}
    for (what, g), where in l.reads.items():
        # a constructor may look at a left-over flag (say, to initialise something once)
        if what == name and not (g in l.written and g in l.deref):
            looked[g.split("::")[-1]] = where
        else:
            rep.violation("%s: reads %s left over from an earlier use" % (what, g.split("::")[-1]),
                          "at " + where)
    if looked:
        compared(rep, name, looked)
    rep.count("global reads checked", l.n)
    rep.count("constructor/operator pairs", len(seen))
    return rep.data()


def run(rep):
    rep.rule = RULE
    rep.assume = ["a process-wide printf replacement is meant to persist"]
    pmap(job, SETUPS, rep)
