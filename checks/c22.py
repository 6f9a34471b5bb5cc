"""C22: the vector kernels compute what they document, for every length."""
import math

from kern import *
from common import Report, pmap

RULE = ("Loop summaries of the vector kernels (C and, with the vector class library read "
        "element-wise, C++) are derived by abstract interpretation for symbolic lengths and "
        "compared with the documented formulas by random interpretation at several lengths.")
NS = [1, 0, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 16, 17]


def vecspec(outs, fn):
    """outs: {position: f(values...)}; fn(F, S, n) -> list of (pos, [expected])"""
    def spec(F, S, d):
        n = d[0]
        w = []
        for pos, e in fn(F, S, n):
            w += [("length %d, argument %d, element %d" % (n, pos, k), (pos, k), e[k])
                  for k in range(n)]
            # nothing past the end is written
            x = F.arr(S, pos, n + 3)
            w += [("length %d, argument %d, element %d past the end" % (n, pos, k - n),
                   (pos, k), x[k]) for k in range(n, n + 3)]
        return w
    return spec


def retspec(fn):
    def spec(F, S, d):
        return [("length %d, result" % d[0], ("ret",), fn(F, S, d[0]))]
    return spec


def A(F, S, k, n):
    return F.arr(S, k, n)


def keep(F, S, n, *ks):
    return [(k, A(F, S, k, n)) for k in ks]


def zipw(f, *v):
    return [f(*t) for t in zip(*v)]


K = {
    "__l1c_daxpby": vecspec(None, lambda F, S, n: [
        (4, zipw(lambda x, y: F.flt(S, 1) * x + F.flt(S, 3) * y, A(F, S, 2, n), A(F, S, 4, n)))
    ] + keep(F, S, n, 2)),
    "l1c_init_vec": vecspec(None, lambda F, S, n: [(1, [F.flt(S, 2)] * n)]),
    "l1c_dxmuly_z": vecspec(None, lambda F, S, n: [
        (3, zipw(lambda x, y: x * y, A(F, S, 1, n), A(F, S, 2, n)))] + keep(F, S, n, 1, 2)),
    "l1c_daxpby_z": vecspec(None, lambda F, S, n: [
        (5, zipw(lambda x, y: F.flt(S, 1) * x + F.flt(S, 3) * y, A(F, S, 2, n), A(F, S, 4, n)))
    ] + keep(F, S, n, 2, 4)),
    "l1c_daxpy_z": vecspec(None, lambda F, S, n: [
        (4, zipw(lambda x, y: F.flt(S, 1) * x + y, A(F, S, 2, n), A(F, S, 3, n)))
    ] + keep(F, S, n, 2, 3)),
    "l1c_abs_vec": vecspec(None, lambda F, S, n: [(2, [abs(x) for x in A(F, S, 1, n)])] +
                           keep(F, S, n, 1)),
    "l1c_dnorm1": retspec(lambda F, S, n: sum(abs(x) for x in A(F, S, 1, n))),
    "l1c_dsum": retspec(lambda F, S, n: sum(A(F, S, 1, n))),
    "l1c_dlogsum": retspec(lambda F, S, n: sum(lg(F.flt(S, 1) * x) for x in A(F, S, 2, n))),
    "l1c_dnrm2_err": retspec(lambda F, S, n: math.sqrt(sum(
        (x - y) ** 2 for x, y in zip(A(F, S, 1, n), A(F, S, 2, n))))),
    "l1c_dnrm2_rel_err": retspec(lambda F, S, n: rel(A(F, S, 1, n), A(F, S, 2, n))),
    "l1c_max_vec": retspec(lambda F, S, n: max(A(F, S, 1, n)) if n else math.nan),
    "vcl_sum": retspec(lambda F, S, n: sum(A(F, S, 1, n))),
    "vcl_logsum": retspec(lambda F, S, n: sum(lg(F.flt(S, 1) * x) for x in A(F, S, 2, n))),
    "vcl_dxMy_pz": vecspec(None, lambda F, S, n: [
        (3, zipw(lambda x, y, z: x * y + z, A(F, S, 1, n), A(F, S, 2, n), A(F, S, 3, n)))
    ] + keep(F, S, n, 1, 2)),
}


def lg(x):
    return math.log(x) if x > 0 else math.nan


def rel(x, y):
    n = sum((a - b) ** 2 for a, b in zip(x, y))
    d = sum(b * b for b in y)
    if d == 0:
        return math.inf if n else math.nan
    return math.sqrt(n / d)


def job(fn):
    rep = Report("C22", "quick")

    def pos(F, S, d):
        # the logarithm of positive numbers
        if "logsum" in fn:
            S.lo, S.hi = 0.1, 2.0
    kernel(rep, image("lib"), fn, [{0: n} for n in NS], K[fn], sample=pos, maxdim=140000,
           modes=(0, 0, 3) if "logsum" in fn else (0, 0, 1, 2, 3))
    return rep.data()


def run(rep):
    rep.rule = RULE
    rep.assume = ["floating point arithmetic is read as real arithmetic",
                  "arguments do not overlap (they are restrict-qualified or documented so)",
                  "the vendored vector class library computes element-wise"]
    pmap(job, K, rep)
