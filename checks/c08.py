"""C08: a failure status produced anywhere inside reaches the caller of the entry point."""
from scen import *
from common import pmap, Report
from outcome import Outcome

RULE = ("Status-flow analysis over LLVM IR: whenever a status-returning library function "
        "(or the solver result record) yields a certainly nonzero failure code on a path, the "
        "entry point that path belongs to must end with a nonzero status, a raised Python/MEX "
        "error, or that status in its result.")
CODES = 2 | 8 | 32 | 128 | 512 | 2048 | 8192


def codeish(v):
    return v is not None and v != 0 and (v & ~CODES) == 0


class L(Outcome):
    def on_callret(self, I, st, inst, name, args, results, ctx):
        fn = I.prog.byname.get(name)
        rel = None
        if fn is not None and not fn.decl:
            rel = fn.mod["rel"]
            ret = fn.ret
        else:
            ret = inst["ty"]
        for r, s in results:
            self.n += 1
            v = None
            if name == "l1c_l1qc_newton" and args and args[0].op == "ptr":
                so = lbstatus(I.prog)
                v = I.read(s, args[0].args[0], padd(args[0].args[1], ic(so)), 4, "i")
            elif ret == "i32" and r is not None and r.op == "p":
                v = r
            if v is None or v.op != "p":
                continue
            c = cval(v)
            json = rel == "src/json_utils.c"
            if c is not None:
                bad = codeish(c) or (json and c != 0)
            else:
                bad = name in SETUPS + ("l1c_l1qc_newton", "l1qc_dct", "l1c_nesta") and \
                    zero_ret(I, s, v) is False
            if bad:
                if s.mon.get("err") is None:
                    s.mon["err"] = name
                self.rep.ok("%s: failure of %s at %s" % (self.root, name, I.where(inst)))


def lbstatus(prog):
    for n, t in prog.types.items():
        ms = {m[2]: m[0] for m in t["members"]}
        if "total_newton_iter" in ms and "status" in ms:
            return ms["status"]
    raise AnalysisBroken("result record type not found")


def job(a):
    img, name, rel = a
    rep = Report("C08", "quick")
    f = find(img, name, rel)
    I = Itp(image(img), fresh=(img != "lib"))
    l = L(rep, name, f)
    I.listeners.append(l)
    rets, av = I.root(f, facts=mexfacts(f))
    for r, s in rets:
        k = s.mon.get("err")
        if k is None:
            continue
        ok = l.reported(I, s, r, av, k)
        rep.count("failing exits")
        if ok is False:
            rep.violation("%s: a failure of %s is not reported" % (name, k),
                          "an exit returns %s after it" % show(r, 3))
        elif ok is None:
            rep.undecided("%s: outcome after a failing %s" % (name, k), show(r, 3))
        else:
            rep.ok("%s: failing %s ends in %s" % (name, k, ok))
    rep.count("roots")
    rep.count("call results checked", l.n)
    return rep.data()


def run(rep):
    rep.rule = RULE
    rep.assume = ["a line search that returns the previous iterate is not a failure",
                  "a MEX caller asks for both outputs"]
    pmap(job, [r for r in all_roots() if r[0] != "example"], rep)
