"""OpenMP as clang lowers it: fork, work-sharing loops, reductions, critical sections.

SERIAL models one thread that does everything.  ITER models an arbitrary single iteration of the
work-shared loop: what two different iterations touch may be touched at the same time.
"""
from terms import *
from models import MODELS, sym


ITER = mk("t", mk("L", "omp", "it"))


def fork(I, st, inst, a, cctx, f):
    fn = a[2]
    g = None
    if fn.op == "fptr":
        g = I.prog.byname.get(fn.args[0]) or I._bykey(fn.args[0])
    if g is None or g.decl:
        import absint
        raise absint.Blowup("parallel region %s not resolved" % show(fn, 3))
    c = mk("ctx", cctx, g.key, "omp")
    cells = []
    for k in (0, 1):
        o = mk("obj", "alloca", c, "tid%d" % k, k)
        st.mem[o] = mk("content", mk("undefc", o), ())
        I.asize[o] = 4
        I.write(st, o, ZERO, 4, P(mk("sym", "tid", c, k)))
        cells.append(ptr(o, ZERO))
    I.emit("forkbegin", st, inst, ctx=c, fn=g)
    out = I.call(g, cells + list(a[3:]), st, c)
    for r, s in out:
        s.mon = {k: v for k, v in s.mon.items() if k[:3] != "omp"}
    I.emit("forkend", st, inst, ctx=c, fn=g)
    return [(None, s) for r, s in out]


def nop(I, st, inst, a, cctx, f):
    return [(None, st)]


def tid(I, st, inst, a, cctx, f):
    return [(sym(cctx, "tid"), st)]


def ival(I, st, p, w):
    return I.read(st, p.args[0], p.args[1], w, "i")


def init(w):
    def m(I, st, inst, a, cctx, f):
        if getattr(I, "ompiter", False):
            lo, hi = ival(I, st, a[4], w), ival(I, st, a[5], w)
            it = P(ITER)
            for x in (psub(it, P(lo)), psub(P(hi), it)):
                if not I.addiv(st, x, 0, None):
                    return []
            st.mon = dict(st.mon, ompit=True)
            for p in (a[4], a[5]):
                I.write(st, p.args[0], p.args[1], w, it)
        return [(None, st)]
    return m


def fini(I, st, inst, a, cctx, f):
    st.mon = {k: v for k, v in st.mon.items() if k != "ompit"}
    return [(None, st)]


def reduce(I, st, inst, a, cctx, f):
    out = []
    for k in (1, 2) if getattr(I, "ompiter", False) else (1,):
        s = st.copy()
        s.mon = dict(s.mon, ompprot="reduction")
        out.append((ic(k), s))
    return out


def unprotect(I, st, inst, a, cctx, f):
    st.mon = {k: v for k, v in st.mon.items() if k != "ompprot"}
    return [(None, st)]


def protect(I, st, inst, a, cctx, f):
    st.mon = dict(st.mon, ompprot=show(a[2], 3) if len(a) > 2 else "lock")
    return [(None, st)]


def barrier(I, st, inst, a, cctx, f):
    st.mon = dict(st.mon, ompphase=st.mon.get("ompphase", 0) + 1)
    return [(None, st)]


def single(I, st, inst, a, cctx, f):
    if not getattr(I, "ompiter", False):
        return [(ONE, st)]
    s = st.copy()
    s.mon = dict(s.mon, ompprot="single")
    return [(ONE, s), (ZERO, st)]


MODELS["__kmpc_fork_call"] = fork
for n in ("", "u"):
    MODELS["__kmpc_for_static_init_4" + n] = init(4)
    MODELS["__kmpc_for_static_init_8" + n] = init(8)
MODELS["__kmpc_for_static_fini"] = fini
MODELS["__kmpc_global_thread_num"] = tid
MODELS["__kmpc_push_num_threads"] = nop
MODELS["__kmpc_reduce_nowait"] = MODELS["__kmpc_reduce"] = reduce
MODELS["__kmpc_end_reduce_nowait"] = MODELS["__kmpc_end_reduce"] = unprotect
MODELS["__kmpc_critical"] = MODELS["__kmpc_critical_with_hint"] = protect
MODELS["__kmpc_end_critical"] = unprotect
MODELS["__kmpc_single"] = MODELS["__kmpc_master"] = MODELS["__kmpc_masked"] = single
MODELS["__kmpc_end_single"] = MODELS["__kmpc_end_master"] = MODELS["__kmpc_end_masked"] = unprotect
MODELS["__kmpc_barrier"] = barrier
