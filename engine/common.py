"""Reporting, evidence, images and scenario running shared by all checks."""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

import frontend
import program
from frontend import AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.viol = {}          # key -> message
        self.undec = {}
        self.checked = []       # obligations decided
        self.samples = []
        self.stats = {}
        self.rule = ""
        self.assume = []
        self.level = "other"
        self.t0 = time.time()

    def ok(self, what):
        self.checked.append(what)

    def violation(self, key, msg):
        self.viol.setdefault(key, msg)

    def undecided(self, key, why=""):
        self.undec.setdefault(key, why)

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def merge(self, d):
        for k, v in d.get("viol", {}).items():
            self.viol.setdefault(k, v)
        for k, v in d.get("undec", {}).items():
            self.undec.setdefault(k, v)
        self.checked += d.get("checked", [])
        for k, v in d.get("stats", {}).items():
            self.stats[k] = self.stats.get(k, 0) + v

    def data(self):
        return dict(viol=self.viol, undec=self.undec, checked=self.checked, stats=self.stats)

    def finish(self):
        known = load_known(self.pid)
        new = {}
        hits = []
        for k, m in self.viol.items():
            kf = next((x for x in known if x["key"] == k), None)
            if kf:
                hits.append(kf)
                print("KNOWN-FINDING: property=%s %s" % (self.pid, kf["what"]))
            else:
                new[k] = m
        ev = dict(property=self.pid, tier=self.tier,
                  seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=self.level,
                  coverage=dict(explanation=self.rule,
                                obligations_decided=len(set(self.checked)),
                                obligations_undecided=len(self.undec),
                                samples=sorted(set(self.checked))[:40],
                                undecided=["%s: %s" % kv for kv in
                                           sorted(self.undec.items())][:60],
                                analysed=self.stats),
                  wall_s=round(time.time() - self.t0, 2),
                  violations=len(new),
                  assumptions=self.assume)
        d = os.environ.get("VP_EVID") or os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        stale = os.path.join(d, self.pid + ".violations.txt")
        if os.path.exists(stale):
            os.unlink(stale)
        if new:
            rp = os.path.join(d, self.pid + ".violations.txt")
            with open(rp, "w") as f:
                for k, m in sorted(new.items(), key=lambda x: str(x[0])):
                    f.write("%s\n    %s\n" % (k, m))
            for k, m in sorted(new.items(), key=lambda x: str(x[0]))[:25]:
                print("  %s: %s" % (k, m))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("%s: held (%d obligations decided, %d undecided, %.1fs)" %
              (self.pid, len(set(self.checked)), len(self.undec), time.time() - self.t0))
        return 0


def load_known(pid):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            # known: property=<id> key=<key> :: <what>
            if l.startswith("known: property=%s " % pid):
                key, _, what = l.split("key=", 1)[1].partition(" :: ")
                out.append(dict(key=key, what=what))
    return out


# ------------------------------------------------------------------ images
_MODS = {}
_PROG = {}
MEX = ("l1qc_dct_mex", "nesta_dctTV_mex", "breg_anistropic_TV_mex")


def mods(openmp=False):
    if openmp not in _MODS:
        _MODS[openmp] = frontend.load(openmp)
    return _MODS[openmp]


def lib(r):
    return r.startswith("src/")


def image(name):
    if name in _PROG:
        return _PROG[name]
    if name == "lib":
        only = lib
    elif name == "python":
        only = lambda r: lib(r) or r.startswith("interfaces/python/")
    elif name == "example":
        only = lambda r: lib(r) or r.startswith("examples/")
    elif name in MEX:
        only = lambda r: lib(r) or (r.startswith("interfaces/mex/") and
                                    (not r.endswith("_mex.c") or r.endswith(name + ".c")))
    else:
        raise KeyError(name)
    p = _PROG[name] = program.Program(mods(), only)
    return p


def need(prog, name):
    f = prog.find(name)
    if f is None:
        raise AnalysisBroken("function %s not found" % name)
    return f


# ------------------------------------------------------------------ parallel map
def _job(a):
    fn, arg = a
    try:
        return fn(arg)
    except AnalysisBroken as e:
        return dict(broken=str(e))
    except Exception as e:
        return dict(error="%s: %s" % (type(e).__name__, e), trace=traceback.format_exc(),
                    arg=str(arg))


def pmap(fn, items, rep, procs=8):
    """run fn(item) -> Report.data() dicts in forked workers and merge"""
    mods()
    items = list(items)
    out = []
    nb = []
    if os.environ.get("VP_SERIAL"):
        res = [_job((fn, i)) for i in items]
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(min(procs, max(1, len(items)))) as pool:
            res = pool.map(_job, [(fn, i) for i in items], chunksize=1)
    for i, r in zip(items, res):
        if "broken" in r:
            nb.append(r["broken"])
            rep.undecided("scenario %s" % (i,), r["broken"])
            continue
        if "error" in r:
            rep.undecided("scenario %s" % (i,), r["error"])
            if os.environ.get("VP_DEBUG"):
                print(r["trace"])
            continue
        rep.merge(r)
        out.append(r)
    if nb and not out:
        raise AnalysisBroken(nb[0])
    return out
