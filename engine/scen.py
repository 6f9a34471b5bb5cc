"""Scenarios: what is analysed from where.

roots(image)     entry points of an image (exported functions, Python methods, mexFunction)
SETUPS           the exported transform constructors
run_root         analyse one root with listeners
"""
import re

import absint
import models
import program
from absint import Interp, State, Blowup, TOPCTX
from terms import *
from common import image, AnalysisBroken, need, MEX

SETUPS = ("l1c_dct1_setup", "l1c_dct2_setup", "l1c_setup_dct_transforms",
          "l1c_setup_dctTV_transforms", "l1c_setup_matrix_transforms")
MEMAPI = ("l1c_malloc_double", "l1c_calloc_double", "l1c_malloc_double_2D",
          "l1c_calloc_double_2D", "l1c_free_double", "l1c_free_double_2D")
RELEASER = re.compile(r"free|del|destroy|release|close|dispose|cleanup")


class Itp(Interp):
    """interpreter with the library's own globals starting in their static initial state
    when fresh=True (a fresh process), unknown otherwise"""

    def __init__(self, prog, numeric=False, fresh=False, mdl=None, **kw):
        Interp.__init__(self, prog, numeric, mdl or models.MODELS, **kw)
        self.fresh = fresh

    def const_globals(self, g):
        return self.fresh and g["mod"].startswith("src/")

    def extnull(self, o):
        # the data pointer of an existing NumPy array is never NULL
        p = o.args[1]
        if isinstance(p, T) and p.op == "obj" and p.args[0] == "heap" and \
                str(p.args[2]).startswith("numpy"):
            return False
        return None


def lib_roots(prog):
    out = []
    for f in prog.functions():
        if f.internal or not f.mod["rel"].startswith("src/") or not f.mod["rel"].endswith(".c"):
            continue
        if f.name in MEMAPI or f.name in models.MODELS or ".omp" in f.name:
            continue
        out.append(f)
    return out


def py_roots(prog):
    """functions referenced from the method table / module init of the extension module"""
    out = []
    for m in prog.mods:
        if not m["rel"].startswith("interfaces/python/"):
            continue
        for g in m["globals"].values():
            for cell in g.get("init", ()) or ():
                v = cell[2]
                if v[0] == "g":
                    f = prog.resolve(m, v[1])
                    if f is not None and not f.decl and f not in out:
                        out.append(f)
        for f in prog.functions():
            if f.mod is m and f.name.startswith("PyInit_") and f not in out:
                out.append(f)
    if len(out) < 4:
        raise AnalysisBroken("the Python method table was not found")
    return out


def py_names(prog):
    """method name -> function, from the PyMethodDef table"""
    out = {}
    for m in prog.mods:
        if not m["rel"].startswith("interfaces/python/"):
            continue
        for g in m["globals"].values():
            cells = {c[0]: c[2] for c in (g.get("init") or ())}
            for off, v in cells.items():
                if v[0] != "g":
                    continue
                f = prog.resolve(m, v[1])
                n = cells.get(off - 8)
                if f is None or f.decl or not n or n[0] != "g":
                    continue
                s = m["globals"].get(n[1])
                if s and "str" in s:
                    out[s["str"]] = f
    return out


def all_roots():
    """[(image, function name, file)]"""
    out = [("lib", f.name, f.mod["rel"]) for f in lib_roots(image("lib"))]
    out += [("python", f.name, f.mod["rel"]) for f in py_roots(image("python"))]
    for m in MEX:
        f = need(image(m), "mexFunction")
        out.append((m, f.name, f.mod["rel"]))
    f = image("example").find("main")
    if f is not None:
        out.append(("example", "main", f.mod["rel"]))
    return out


def find(img, name, rel):
    f = image(img).find(name, rel) or image(img).find(name)
    if f is None:
        raise AnalysisBroken("function %s not found" % name)
    return f


def mexfacts(f):
    """a MEX caller that asks for two outputs"""
    if f.name == "mexFunction":
        nm = f.args[0]["name"] or "arg0"
        return [mk("cmp", "eq", P(mk("arg", nm)), ic(2))]
    return []


# ------------------------------------------------------------------ reachability
def ptrs_in(t, seen, out):
    """objects pointed to from term t"""
    if t in seen:
        return
    seen.add(t)
    if t.op == "ptr":
        out.add(t.args[0])
        return
    st = [t.args]
    while st:
        a = st.pop()
        for x in a:
            if isinstance(x, T):
                if x.op != "obj":
                    ptrs_in(x, seen, out)
            elif isinstance(x, tuple):
                st.append(x)


def reach(st, rets, globs=True):
    """objects reachable from the returned values, caller-visible memory and (optionally)
    globals"""
    seen, todo = set(), []
    out = set()
    for r in rets:
        if r is not None:
            ptrs_in(r, seen, out)
    for o in st.mem:
        if o.args[0] in ("ext", "argv", "pyarg", "mxscalar") or (globs and o.args[0] == "glob"):
            out.add(o)
    todo = list(out)
    while todo:
        o = todo.pop()
        if o.args[0] == "glob" and not globs:
            continue
        c = st.mem.get(o)
        if c is None:
            continue
        new = set()
        ptrs_in(c, set(), new)
        for x in new - out:
            out.add(x)
            todo.append(x)
    return out


def base_of(o):
    """root object of an ext chain / row"""
    while True:
        if o.args[0] == "row":
            o = o.args[1]
        elif o.args[0] == "ext" and isinstance(o.args[1], T) and o.args[1].op == "obj":
            o = o.args[1]
        else:
            return o


def table(prog, I, st, tobj):
    """field -> value of an operator table"""
    out = {}
    for off, size, n, ty in prog.types[tname(prog)]["members"]:
        k = "p" if n in PTRF else ("f" if n == "norm_W" else "i")
        out[n] = I.read(st, tobj, ic(off), size, k)
    return out


PTRF = ("Ax", "Aty", "AtAx", "Mx", "Mty", "Wz", "Wtx", "Rx", "Rty", "destroy", "data")


def tname(prog):
    for n, t in prog.types.items():
        ms = [m[2] for m in t["members"]]
        if "Ax" in ms and "destroy" in ms:
            return n
    raise AnalysisBroken("operator table type not found")


def run_setup(I, f, st=None, tobj=None, n=0, facts=()):
    """analyse a constructor; yields (ret, state, table object)"""
    s = st.copy() if st is not None else State()
    s.env = {}
    tobj = tobj or mk("obj", "ext", "ax_table")
    s.facts[mk("nul", tobj)] = False
    f.prepare()
    av = []
    np = 0
    for k, a in enumerate(f.args):
        if k == len(f.args) - 1:
            av.append(ptr(tobj, ZERO))
        elif a["ty"] == "ptr":
            o = mk("obj", "ext", "%s_p%d" % (f.name, k))
            s.facts[mk("nul", o)] = False
            av.append(ptr(o, ZERO))
        elif a["ty"] in ("double", "float"):
            av.append(mk("fsym", "%s_a%d" % (f.name, k)) if I.numeric else
                      mk("init", mk("obj", "darg", f.name, k), ZERO, 8, "f"))
        else:
            av.append(P(mk("arg", "%s_a%d" % (f.name, k))))
    for c in facts:
        if not I.assume(s, c(av) if callable(c) else c, True):
            raise Blowup("contradictory precondition")
    s.guard = absint.TRUE_G
    return I.call(f, av, s, mk("ctx", TOPCTX, f.key, n)), av, tobj


def zero_ret(I, st, r):
    """True: certainly zero, False: certainly nonzero, None"""
    lo, hi = I.interval(st, r) if r.op == "p" else (None, None)
    if lo == 0 and hi == 0:
        return True
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return False
    if r.op == "p" and st.facts.get(mk("ne", absint.canon(r)[0], 0)):
        return False
    return None
