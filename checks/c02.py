"""C02: a failing acquisition is noticed before its result is used, and reported."""
from scen import *
from common import pmap, Report
from outcome import Outcome

RULE = ("Path-sensitive null-typestate over LLVM IR from every entry point: each acquisition "
        "(C heap, aligned arrays, FFTW plans, files, JSON, NumPy/Python objects) may fail; an "
        "access through its result needs a dominating non-null fact, and every path on which "
        "one failed ends in a nonzero status, NULL, or a raised error.")


class L(Outcome):
    def on_alloc(self, I, st, inst, obj, kind, size):
        self.rep.ok("%s: %s at %s" % (self.root, kind, I.where(inst)))

    def on_access(self, I, st, inst, obj, off, what, ptr, **k):
        o = obj.args[1] if obj.args[0] == "row" else obj
        r = st.res.get(o)
        self.n += 1
        if r and r[0] == "live" and st.facts.get(mk("nul", o)) is not False:
            self.rep.violation(
                "%s: result of the acquisition at %s used unchecked at %s" %
                (self.root, r[3], I.where(inst)), "call chain " + I.chain())

    def on_badptr(self, I, st, inst, p, what):
        if p is NULL:
            self.rep.violation("%s: NULL dereferenced at %s" % (self.root, I.where(inst)),
                               "%s; call chain %s" % (what, I.chain()))

    def on_null(self, I, st, inst, obj, isnull):
        pass


def job(a):
    img, name, rel = a
    rep = Report("C02", "quick")
    f = find(img, name, rel)
    I = Itp(image(img), fresh=(img != "lib"))
    l = L(rep, name, f)
    I.listeners.append(l)
    rets, av = I.root(f, facts=mexfacts(f))
    for r, s in rets:
        k = s.mon.get("fail")
        if k is None:
            continue
        rep.count("failing exits")
        ok = l.reported(I, s, r, av, k)
        if ok is False:
            rep.violation("%s: failure to acquire %s is not reported" % (name, k),
                          "an exit returns %s after it" % show(r, 3))
        elif ok is None:
            rep.undecided("%s: outcome after failing %s" % (name, k), show(r, 3))
        else:
            rep.ok("%s: failing %s ends in %s" % (name, k, ok))
    rep.count("roots")
    rep.count("accesses checked", l.n)
    rep.count("exit states", len(rets))
    return rep.data()


def run(rep):
    rep.rule = RULE
    rep.assume = ["NumPy and Py_BuildValue set a Python exception when they fail"]
    pmap(job, [r for r in all_roots() if r[0] != "example"], rep)
