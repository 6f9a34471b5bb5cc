"""C13: calls leave the caller's input arrays as they were."""
import os
import random

import absint
import bounds
import c06
import c11
import c14
import c19
import c20
import c21
import numeval
from bounds import Acc
from common import AnalysisBroken, Report, pmap
from numeval import Uninit, Unknown, close
from terms import *

RULE = ("Effect analysis: abstract interpretation of every public function, operator, callback, "
        "solver and interface function down to BLAS, FFTW and libc; every store (direct, by a "
        "library call or a callback) whose target is an array that the caller handed in as "
        "input is collected. A call with none cannot change its inputs, whatever the values. "
        "Where there is one, the content of the array at exit is derived and compared with the "
        "one at entry at small sizes (for the iterative solvers over composed iterations): a "
        "difference is a violation, equality or an underivable content counts as undecided.")
# positions of the arrays that are only inputs
IN = {"__l1c_daxpby": (2,), "l1c_daxpby_z": (2, 4), "l1c_daxpy_z": (2, 3), "l1c_dnorm1": (1,),
      "l1c_dsum": (1,), "l1c_abs_vec": (1,), "l1c_dlogsum": (2,), "l1c_dnrm2_err": (1, 2),
      "l1c_dnrm2_rel_err": (1, 2), "l1c_dxmuly_z": (1, 2), "l1c_max_vec": (1,), "vcl_sum": (1,),
      "vcl_logsum": (2,), "vcl_dxMy_pz": (1, 2), "l1c_Dx": (3,), "l1c_DxT": (3,),
      "l1c_DxTDx": (3,), "l1c_Dy": (3,), "l1c_DyT": (3,), "l1c_DyTDy": (3,),
      "l1c_breg_anistropic_TV": (3,)}
NAMES = {"l1c_cgsolve": ("b",), "l1c_cgsolve_diag_precond": ("b", "Minv"),
         "l1c_l1qc_newton": ("b",), "l1c_nesta": ("b",), "l1qc_dct": ("b", "pix")}

# composed runs that give the inputs concrete values and derive the content at exit
TRACE = {"l1c_cgsolve": lambda r: c11.solver(r, "l1c_cgsolve", False),
         "l1c_cgsolve_diag_precond": lambda r: c11.solver(r, "l1c_cgsolve_diag_precond", True),
         "l1c_l1qc_newton": c19.j_main, "l1c_nesta": c20.j_main,
         "l1c_breg_anistropic_TV": c21.j_main, "l1qc_dct": c14.j_l1qc,
         "python l1qc_dct": lambda r: c14.j_py_l1qc(r, 0),
         "python breg_anistropic_TV": lambda r: c14.j_py_breg(r, 0),
         "python nesta_dctTV": lambda r: c14.j_py_nesta(r, 0),
         "l1qc_dct_mex ": c14.j_mex_l1qc, "nesta_dctTV_mex ": c14.j_mex_nesta,
         "breg_anistropic_TV_mex ": c14.j_mex_breg}


class Changed(Exception):
    pass


def traced(key, o):
    """None, or how input o differs at the end of a composed run"""
    n = [0]

    def pick(S, rets):
        r, s = PICK(S, rets)
        for k, v in list(S.vals.items()) + list(dict.items(S.ints)):
            if not isinstance(k, tuple) or not isinstance(k[-1], int):
                continue
            kind, size = ("f", 8) if k[0] == "init" and len(k) == 3 else ("i", 4)
            if kind == "i" and len(k) != 2:
                continue
            q = k[-2]
            if q is not o and not (q.args[0] == "ext" and o.args[0] == "ext" and
                                   isinstance(q.args[1], str) and
                                   name(key, q) == name(key, o)):
                continue
            try:
                now = S.readc(S.I.content(s, q), k[-1], size, kind)
            except (Unknown, Uninit):
                continue
            n[0] += 1
            if now != v and not (v != v and now != now):
                raise Changed("entry %d is %.17g at entry and %.17g at exit" %
                              (k[-1] // size, v, now))
        return r, s
    sv = numeval.Sample.pick, absint.Interp.call
    absint.Interp.call = OLD
    numeval.Sample.pick = pick
    try:
        sub = Report("C13", "quick")
        TRACE[key](sub)
        if os.environ.get("VP_DEBUG"):
            print("traced", key, n[0], sub.viol, sub.undec)
    except Changed as e:
        return str(e)
    except (Unknown, absint.Blowup, c14.Done, AnalysisBroken) as e:
        if os.environ.get("VP_DEBUG"):
            print("traced", key, type(e), e)
    finally:
        numeval.Sample.pick, absint.Interp.call = sv
    return None


PICK = numeval.Sample.pick
POSITION = {"l1c_l1qc_newton": {"p4": "b"}, "l1c_breg_anistropic_TV": {"f": "p3"}}


def name(key, o):
    n = o.args[1]
    return POSITION.get(key, {}).get(n, n)


def role(key, o, B=None):
    """is object o an input array in scenario key?"""
    a = o.args
    if a[0] != "ext":
        return False
    n = a[1]
    if key in IN:
        return n in ["p%d" % k for k in IN[key]]
    if key in NAMES:
        return n in NAMES[key]
    if isinstance(n, str):
        if ": " in key:                            # transforms
            return n.endswith("_in") or n.startswith(key.split(":")[0].split(" ")[0] + "_p")
        return False
    if isinstance(n, T) and n.op == "mxdata":      # data of a MATLAB argument
        p = n.args[0]
        b = p.args[0].args[1] if p.op == "ptr" and len(p.args[0].args) > 1 else None
        return not (isinstance(b, T) and b.op == "mxnew")
    if isinstance(n, T) and n.op == "obj" and len(a) == 3:   # data of a converted NumPy array
        if n.args[0] != "heap" or cval(a[2]) != 16:
            return False
        return any(x[0] is n and x[1][0].op == "ptr" and x[1][0].args[0].args[0] == "pyarg"
                   for x in B.C.conv)
    return False


class Writes:
    """replaces the recording of Bounds"""

    @staticmethod
    def on_access(self, I, st, inst, obj=None, off=None, size=None, what=None, ptr=None,
                  kind=None, count=None, **kw):
        if obj is None or what == "opaque":
            return
        I.naccess = getattr(I, "naccess", 0) + 1
        if what == "load":
            return
        a = Acc()
        a.where, a.obj, a.off, a.len, a.ext, a.what = I.where(inst), obj, off, count, size, what
        a.guard, a.chain, a.ents = st.guard, tuple(self.loops), tuple(self.ents)
        a.inst, a.fn = inst["id"] if inst else None, I.stack[-1][0].key if I.stack else ""
        a.low = a.high = True
        self.acc.append(a)


class Top:
    """results of the outermost calls"""
    depth = 0
    last = None


def call(self, f, *a, **kw):
    Top.depth += 1
    try:
        r = OLD(self, f, *a, **kw)
    finally:
        Top.depth -= 1
    if Top.depth == 0:
        Top.last = r
    return r


OLD = absint.Interp.call


def effects(rep, key, I, B, samples):
    if key not in IN and key not in NAMES and " " not in key and ":" not in key:
        return                                   # internal helpers
    rep.count("accesses examined", getattr(I, "naccess", 0))
    I.naccess = 0
    ws = [a for a in B.acc if role(key, a.obj, B)]
    if not ws:
        rep.ok(key + ": no store to an input array")
        return
    for o in {a.obj for a in ws}:
        a = next(x for x in ws if x.obj is o)
        what = "%s: input %s" % (key, show(o, 2))
        c = None if key in TRACE else changed(rep, what, a, I, o, samples)
        if c:
            continue
        if c is False:
            rep.ok(what + " (stored to, same content at exit)")
            continue
        t = traced(key, o) if key in TRACE else None
        if t:
            rep.violation(what, "changed by the store at %s: %s" % (a.where, t))
            continue
        rep.undecided(what, "stored to at %s" % a.where)


def changed(rep, what, a, I, o, samples):
    """True: content at exit differs; False: the same wherever evaluated; None: unknown"""
    rets = Top.last or []
    elem, kind = (4, "i") if a.ext == 4 else (8, "f")
    n = 0
    for mkS in samples:
        for seed in range(6):
            S = mkS()
            S.rnd = random.Random("%s/%d" % (S.seed, seed))
            try:
                _, s = numeval.Sample.pick(S, rets)
            except (Unknown, Uninit, ArithmeticError, ValueError):
                continue
            if s.mem.get(o) is None:
                continue
            for off in range(0, 9 * elem, elem):
                try:
                    was = S.init(o, off, elem, kind)
                    now = S.readc(I.content(s, o), off, elem, kind)
                except (Unknown, Uninit):
                    continue
                if was is None or now is None:
                    continue
                n += 1
                if was != now and not (was != was and now != now):
                    rep.violation(what, "entry %d is %.17g at entry and %.17g at exit (store at "
                                  "%s)" % (off // elem, was, now, a.where))
                    return True
    return False if n else None


def job(a):
    rep = Report("C13", "quick")
    sv = bounds.Bounds.on_access, bounds.decide, absint.Interp.call
    bounds.Bounds.on_access = Writes.on_access
    bounds.decide = effects
    absint.Interp.call = call
    try:
        getattr(c06, "j_" + a[0])(rep, *a[1:])
    except (Unknown, absint.Blowup) as e:
        rep.undecided(" ".join(map(str, a)), str(e))
    finally:
        bounds.Bounds.on_access, bounds.decide, absint.Interp.call = sv
    return rep.data()


def run(rep):
    rep.rule = RULE
    rep.assume = ["input and output arrays of one call do not overlap",
                  "FFTW plans preserve their input (real transforms without "
                  "FFTW_DESTROY_INPUT); BLAS writes only its outputs",
                  "callbacks supplied by the caller are the caller's business"]
    pmap(job, [j for j in c06.JOBS if j[0] not in ("fifo", "ls")], rep)
