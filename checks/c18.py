"""C18: the finite difference operators, their transposes and normal operators."""
from kern import *
from common import Report, pmap

RULE = ("Loop summaries of the TV operators (what every output element is, as a function of "
        "the image) are derived by abstract interpretation for symbolic sizes and compared, by "
        "random interpretation at several shapes, with forward differences, their exact "
        "transposes and the products of the two.")
DIMS = [(2, 2), (3, 4), (5, 3), (2, 5), (6, 2), (4, 7), (7, 5)]


def D(kind, n, m):
    """matrix of the difference operator as index -> [(index, coef)]"""
    out = []
    for i in range(n):
        for j in range(m):
            if kind == "x":
                out.append([(i * m + j + 1, 1.), (i * m + j, -1.)] if j < m - 1 else [])
            else:
                out.append([((i + 1) * m + j, 1.), (i * m + j, -1.)] if i < n - 1 else [])
    return out


def ap(d, x):
    return [sum(c * x[k] for k, c in row) for row in d]


def apT(d, x):
    y = [0.0] * len(x)
    for v, row in zip(x, d):
        for k, c in row:
            y[k] += c * v
    return y


OPS = {"l1c_Dx": ("x", "D"), "l1c_Dy": ("y", "D"), "l1c_DxT": ("x", "T"),
       "l1c_DyT": ("y", "T"), "l1c_DxTDx": ("x", "N"), "l1c_DyTDy": ("y", "N")}


def job(fn):
    rep = Report("C18", "quick")
    kind, how = OPS[fn]

    def spec(F, S, d):
        n, m = d[0], d[1]
        al = F.flt(S, 2)
        x = F.arr(S, 3, n * m)
        M = D(kind, n, m)
        y = {"D": lambda: [al * v for v in ap(M, x)],
             "T": lambda: [al * v for v in apT(M, x)],
             "N": lambda: [al * al * v for v in apT(M, ap(M, x))]}[how]()
        w = [("%dx%d image, output (%d,%d)" % (n, m, k // m, k % m), (4, k), y[k])
             for k in range(n * m)]
        w += [("%dx%d image, input (%d,%d) kept" % (n, m, k // m, k % m), (3, k), x[k])
              for k in range(n * m)]
        return w
    kernel(rep, image("lib"), fn, [{0: n, 1: m} for n, m in DIMS], spec)
    return rep.data()


def run(rep):
    rep.rule = RULE
    rep.assume = ["floating point arithmetic is read as real arithmetic"]
    pmap(job, OPS, rep)
