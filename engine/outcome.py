"""How an entry point tells its caller about a failure."""
from terms import *
from scen import zero_ret, RELEASER


class Outcome:
    """listener base: tracks nonzero statuses handed to Py_BuildValue / mx scalars"""

    def __init__(self, rep, root, f):
        self.rep, self.root, self.f = rep, root, f
        self.n = 0
        self.types = f.mod
        self.prog = None

    def nz(self, I, st, v):
        if v.op == "i2f":
            v = v.args[0]
        if v.op == "fc":
            return v.args[0] != 0.0
        if v.op == "p":
            return zero_ret(I, st, v) is False
        return False

    def on_build(self, I, st, inst, fmt, args):
        if any(self.nz(I, st, v) for v in args[1:] if v.op in ("p", "i2f", "fc")):
            st.mon["rep"] = True

    def on_mxnew(self, I, st, inst, name, args, obj):
        if name == "mxCreateDoubleScalar" and self.nz(I, st, args[0]):
            st.mon["rep"] = True

    def on_store(self, I, st, inst, obj, off, val, size):
        if obj.args[0] == "ext" and isinstance(obj.args[1], T) and \
                obj.args[1].op == "mxdata" and val.op in ("i2f", "fc") and \
                cval(off) == 0 and self.nz(I, st, val):
            st.mon["rep"] = True

    def reported(self, I, st, r, av, kind):
        """'how' / False (certainly not reported) / None (not known)"""
        f = self.f
        if st.mon.get("mexerr"):
            return "a MEX error"
        if f.ret == "ptr":
            if r is NULL or I.isnull(st, r) is True:
                if f.mod["rel"].startswith("interfaces/python"):
                    if st.mon.get("pyerr") or st.mon.get("fail") == "py":
                        return "a Python exception"
                    return False
                return "NULL"
            if st.mon.get("rep"):
                return "a status in the result"
            if r.op == "ptr":
                if I.isnull(st, r) is None and r.args[0] in st.res:
                    return False if kind != "py" else None
                return False if kind != "py" else None
            return None
        if f.ret == "i32":
            z = zero_ret(I, st, r)
            return "a nonzero status" if z is False else (False if z is True else None)
        if f.args and f.args[0].get("sret"):
            so = self.status_off(I)
            if so is None:
                # a pointer-carrying struct: NULL member
                for o, s_, v in cells(I, st, av[0].args[0]):
                    if v is NULL or (v.op == "ptr" and I.isnull(st, v) is True):
                        return "a NULL member"
                return None
            v = I.read(st, av[0].args[0], ic(so), 4, "i")
            z = zero_ret(I, st, v) if v.op == "p" else None
            return "a nonzero status" if z is False else (False if z is True else None)
        if f.name == "mexFunction":
            if st.mon.get("rep"):
                return "a status output"
            # output left unset
            o = av[1].args[0]
            c = st.mem.get(o)
            vals = [v for _, _, v in cells(I, st, o)]
            if vals and vals[-1] is NULL:
                return "an unset output"
            return False
        if f.ret == "void":
            return "no result"
        return None

    def status_off(self, I):
        rt = self.f.j.get("sret") or ""
        for n, t in I.prog.types.items():
            ms = {m[2]: m[0] for m in t["members"]}
            if "total_newton_iter" in ms and "status" in ms and \
                    self.f.name == "l1c_l1qc_newton":
                return ms["status"]
        return None


def cells(I, st, o):
    c = st.mem.get(o)
    if c is None:
        return []
    for l in reversed(c.args[1]):
        if l.op == "cells":
            return list(l.args[0])
    return []
