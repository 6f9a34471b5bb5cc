"""C12: every call ends, whatever the data."""
import absint
import bounds
import c06
from common import Report, pmap
from numeval import Unknown
from terms import *

RULE = ("Termination by loop summaries: abstract interpretation of every public function, operator, "
        "solver and interface function derives, for every loop, the conditions under which one "
        "iteration is followed by another. In each of them an integer quantity must move by a "
        "constant towards a bound that the loop does not change. A loop that goes on as long as "
        "floating point data says so, with no such bound, is a violation (no bound holds for NaN "
        "or stagnating data); conditions on anything else count as undecided.")


def within(L, t, seen=None):
    """does t depend on what loop L changes?"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, frozenset, list)):
            todo += list(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op in ("lphi", "lmem", "hdr", "t", "bv") and x.args[0] is L:
            return True
        if x.op in ("sym", "ctx", "fsym", "havoc") and any(a is L for a in x.args):
            return True
        todo += list(x.args)
    return False


def atoms(c, v):
    """conditions that all hold when c == v"""
    while c.op == "not":
        c, v = c.args[0], not v
    if c.op == "band" and v or c.op == "bor" and not v:
        for x in c.args:
            yield from atoms(x, v)
        return
    yield c, v


def geometric(r, t):
    """is the floating point quantity t advanced by a fixed factor or step in every iteration?"""
    syms = [x for x in subterms(t) if x.op in ("lphi", "lmem") and x.args[0] is r.L]
    if len(syms) != 1 or syms[0].op != "lphi":
        return False
    for bs in r.back:
        u = bs.env.get(syms[0].args[1])
        if u is None or u.op not in ("fmul", "fdiv", "fadd", "fsub", "f") and \
                not u.op.startswith("f"):
            return False
        rest = [x for x in subterms(u) if x is not syms[0] and x is not u and
                within(r.L, x) and syms[0] not in subterms(x)]
        if rest:
            return False
    return True


def subterms(t):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, frozenset, list)):
            todo += list(x)
        elif isinstance(x, T) and x not in out:
            out.add(x)
            todo += list(x.args)
    return out


def brief(cs):
    return " and ".join(show(c, 3)[:120] for c in cs[:3])


def loop(I, r):
    """'bounded' | ('open', why) | ('endless', why)"""
    if not r.back:
        return "bounded"
    w = verdict(I, r, ways(r, False))
    return verdict(I, r, ways(r, True)) if w[0] == "open" else w


def verdict(I, r, wys):
    worst = "bounded"
    for conj, states in wys:
        fl, other, ok = [], [], False
        for c, v in conj:
            n = I.trip(r.entry, c, v, r.t)
            if n is not None and not within(r.L, n):
                ok = True
                break
            if monotone(I, r, c, v):
                ok = True
                break
            if not within(r.L, c):
                continue
            if data(c):
                fl.append(c)
            elif not harmless(I, r, c, v):
                other.append((c, v))
        if ok:
            continue
        if other and fl and all(stuck(I, r, bs, c, v) for c, v in other for bs in states):
            return "endless", "a count starts over or stands still while %s" % \
                brief(fl)
        if other:
            worst = "open", "goes on while %s" % brief([other[0][0]])
        elif any(geometric(r, x) for c in fl for x in c.args if isinstance(x, T)):
            worst = "open", "goes on while %s" % brief(fl)
        elif fl:
            return "endless", "goes on while %s" % brief(fl)
        elif worst == "bounded":
            worst = "open", "condition unknown"
    return worst


def ways(r, merge):
    """[(conditions, back states)]: when the loop goes on; with merge, conditions that make no
    difference to that are left out"""
    out = {}
    for bs in r.back:
        for conj in bs.guard:
            k = frozenset(x for c, v in conj for x in atoms(c, bool(v)))
            out.setdefault(k, set()).add(bs)
    again = merge and len(out) <= 400
    while again:
        again = False
        for k in list(out):
            if k not in out:
                continue
            for c, v in k:
                k2 = (k - {(c, v)}) | {(c, not v)}
                if k2 in out:
                    n = k - {(c, v)}
                    bs = out.pop(k) | out.pop(k2)
                    out.setdefault(n, set()).update(bs)
                    again = True
                    break
    return list(out.items())


def after(I, r, bs, s):
    """value of the loop's integer s at the end of the iteration bs"""
    if s.op == "lphi":
        return bs.env.get(s.args[1])
    if s.op == "lmem" and s.args[-1] == "i":
        return I.read(bs, s.args[1], ic(s.args[2]), s.args[3], "i")
    return None


def counter(I, r, c, v):
    """(s, k, d): condition (c, v) says d >= 0 (or > 0), d = k s + something fixed"""
    if c.op != "cmp":
        return None
    p, a, b = c.args
    if I._isptr(a) or I._isptr(b):
        return None
    p = I.PRED.get(p, p)
    if not v:
        p = {"slt": "sge", "sle": "sgt", "sgt": "sle", "sge": "slt"}.get(p)
    if p not in ("slt", "sle", "sgt", "sge"):
        return None
    d = psub(b, a) if p in ("slt", "sle") else psub(a, b)
    syms = [s for s in free(d) if s.args[0] is r.L]
    if len(syms) != 1 or syms[0].op not in ("lphi", "lmem"):
        return None
    s = syms[0]
    if within(r.L, subst(d, {s: ZERO})):
        return None
    lin = plin(d, s)
    k = lin and cval(lin[1])
    return (s, k, d) if k else None


def moves(I, r, s, k):
    """'down' | 'up' | None: how k s develops in every iteration"""
    down = up = True
    for bs in r.back:
        u = after(I, r, bs, s)
        if u is None or u.op != "p":
            return None
        lo, hi = I.interval(bs, pscale(psub(u, P(s)), k))
        down &= hi is not None and hi <= -1
        up &= lo is not None and lo >= 0
    return "down" if down else "up" if up else None


def monotone(I, r, c, v):
    """an integer counter that moves by varying amounts towards a fixed bound"""
    x = counter(I, r, c, v)
    return bool(x) and moves(I, r, x[0], x[1]) == "down"


def harmless(I, r, c, v):
    """once it holds, the condition holds for good: it ends nothing"""
    x = counter(I, r, c, v)
    if x:
        return moves(I, r, x[0], x[1]) == "up"
    lin = None
    if c.op == "cmp" and c.args[0] in ("slt", "sle", "sgt", "sge") and \
            not I._isptr(c.args[1]) and not I._isptr(c.args[2]):
        p = c.args[0] if v else {"slt": "sge", "sle": "sgt", "sgt": "sle",
                                 "sge": "slt"}[c.args[0]]
        d = psub(c.args[2], c.args[1]) if p in ("slt", "sle") else psub(c.args[1], c.args[2])
        lin = plin(d, r.t)
    return lin is not None and cval(lin[1]) is not None and cval(lin[1]) >= 0 and \
        not within(r.L, lin[0])


def stuck(I, r, bs, c, v):
    """c tests one integer of the loop, which bs leaves alone or sets such that c is v again"""
    if c.op != "cmp" or I._isptr(c.args[1]) or I._isptr(c.args[2]):
        return False
    syms = [s for s in free(c) if s.args[0] is r.L]
    if len(syms) != 1 or syms[0].op not in ("lphi", "lmem"):
        return False
    s = syms[0]
    u = after(I, r, bs, s)
    if u is None or u.op != "p":
        return False
    if u is P(s):
        return True
    if within(r.L, u) or free(u):
        return False
    p, x, y = c.args
    x, y = cval(subst(x, {s: u})), cval(subst(y, {s: u}))
    if x is None or y is None:
        return False
    p = I.PRED.get(p, p)
    f = {"slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y,
         "eq": x == y, "ne": x != y}.get(p)
    return f is not None and f == v


def data(c):
    """is the condition decided by floating point data?"""
    return c.op in ("fcmp", "isnan") or c.op == "brk" and \
        any(x.op in ("fcmp", "isnan") for x in subterms(c))


DONE = set()


def ends(rep, key, I, B, samples):
    n = 0
    for L, r in I.loops.items():
        if L in DONE:
            continue
        DONE.add(L)
        n += 1
        where = "%s: loop in %s" % (key, " > ".join(r.caller[-1:]))
        what = "%s (%s)" % (where, r.f.loc(next((i for i in r.f.blocks[r.h] if i["op"] != "phi"),
                                                None)))
        w = loop(I, r)
        if w == "bounded":
            rep.ok(what)
        elif w[0] == "endless":
            rep.violation(what, "no iteration bound: %s" % w[1])
        else:
            rep.undecided(what, w[1])
    rep.count("loops analysed (per calling context)", n)


def job(a):
    rep = Report("C12", "quick")
    sv = bounds.decide
    bounds.decide = ends
    DONE.clear()
    try:
        getattr(c06, "j_" + a[0])(rep, *a[1:])
    except (Unknown, absint.Blowup) as e:
        rep.undecided(" ".join(map(str, a)), str(e))
    finally:
        bounds.decide = sv
    return rep.data()


def run(rep):
    rep.rule = RULE
    rep.assume = ["callbacks supplied by the caller return",
                  "BLAS, FFTW and libc functions return",
                  "integer counters do not overflow before they meet their bound"]
    pmap(job, c06.JOBS, rep)
