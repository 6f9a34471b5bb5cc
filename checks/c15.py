"""C15: printing options change what is printed and nothing else."""
import absint
import c11
import c14
import c19
import c20
from common import Report, image, pmap
from numeval import Unknown

RULE = ("(1) The derived one-iteration relations of the CG solvers, of the log-barrier solver and "
        "of NESTA, composed from the entry with the printing option at 0, at 1, 2, 3, 7, -1, a "
        "million and around every constant that the code compares it with: results, counts and "
        "status are the specified ones in every case, and a counter advanced by the installed "
        "print function is 0 when the option is 0. (2) Integer divisions by the option happen "
        "only under a guard that excludes 0. (3) The one-call and interface functions make the "
        "same solver call and return the same values for every such value. (4) No function "
        "reachable from the public calls writes to standard output other than through the "
        "replaceable print function, which only the replacing call assigns and which the MATLAB "
        "functions point at MATLAB's own before anything is printed.")
LOUD = (1, 2, 3, 7, -1, 1000000)
STDOUT = {"printf": None, "puts": None, "putchar": None, "vprintf": None, "fprintf": 0,
          "vfprintf": 0, "fputs": 1, "fputc": 1, "putc": 1, "fwrite": 3, "write": 0,
          "dprintf": 0, "__printf_chk": None, "__fprintf_chk": 0, "perror": False}
ROOTS = ("l1qc_dct", "l1c_l1qc_newton", "l1c_nesta", "l1c_breg_anistropic_TV", "l1c_cgsolve",
         "l1c_cgsolve_diag_precond", "l1c_setup_dct_transforms", "l1c_setup_dct1_transforms",
         "l1c_dct2_setup", "l1c_dct1_setup", "l1c_setup_dctTV_transforms",
         "l1c_setup_matrix_transforms", "l1c_linesearch", "l1c_linesearch_xu",
         "l1c_nesta_setup", "l1c_malloc_double", "l1c_calloc_double", "l1c_malloc_double_2D",
         "l1c_calloc_double_2D", "l1c_Dx", "l1c_Dy", "l1c_dnorm1", "l1c_dsum")


def solver(rep, which, vals):
    if which == "nesta":
        c20.j_main(rep, vals)
    elif which == "newton":
        c19.j_main(rep, vals)
    elif which == "cg":
        c11.solver(rep, "l1c_cgsolve", False, vals)
    elif which == "pcg":
        c11.solver(rep, "l1c_cgsolve_diag_precond", True, vals)
    else:
        c14.VERBOSE = vals
        try:
            rep.merge(c14.job(which))
        finally:
            c14.VERBOSE = None


def job(a):
    rep = Report("C15", "quick")
    which, loud = a
    try:
        solver(rep, which, LOUD if loud else (0,))
    except (Unknown, absint.Blowup) as e:
        rep.undecided(str(which), str(e))
    d = rep.data()
    d["job"] = a
    return d


def reach(prog, roots):
    """functions reachable by calls or by taking addresses"""
    seen, todo = {}, [f for f in (prog.find(r) for r in roots) if f]
    for f in todo:
        seen[f.key] = f
    while todo:
        f = todo.pop().prepare()
        for b in f.blocks:
            for i in b:
                for o in list(i.get("ops", ())) + [i.get("callee")] + \
                        [x[1] for x in i.get("inc", ())]:
                    if o and o[0] == "g":
                        g = prog.resolve(f.mod, o[1])
                        if g is not None and not g.decl and g.key not in seen:
                            seen[g.key] = g
                            todo.append(g)
    return seen


def stream(f, o):
    """name of the global stream an operand is loaded from"""
    if o and o[0] == "v":
        i = f.inst.get(o[1])
        if i and i["op"] == "load" and i["ops"][0][0] == "g":
            return i["ops"][0][1]
    return o[1] if o and o[0] in ("c", "i") else None


def direct(rep, prog, fs, what):
    n = 0
    for f in fs.values():
        f.prepare()
        for b in f.blocks:
            for i in b:
                if i["op"] not in ("call", "invoke"):
                    continue
                c = i.get("callee")
                n += 1
                if not c or c[0] != "g" or c[1] not in STDOUT:
                    continue
                k = STDOUT[c[1]]
                if k is None or (k is not False and stream(f, i["ops"][k]) in ("stdout", 1)):
                    rep.violation("%s: output that bypasses the replaceable function" % f.dbg,
                                  "%s: calls %s" % (f.loc(i), c[1]))
    rep.ok("%s: %d functions, none writes to standard output directly" % (what, len(fs)))
    rep.count("calls examined for direct output", n)


def hooked(rep):
    prog = image("lib")
    if "l1c_printf" not in prog.globs or not prog.find("l1c_replace_printf"):
        rep.undecided("print hook", "no replaceable print function")
        return
    fs = reach(prog, ROOTS)
    direct(rep, prog, fs, "library")
    for f in prog.functions():
        f.prepare()
        for b in f.blocks:
            for i in b:
                if i["op"] == "store" and i["ops"][1][0] == "g" and i["ops"][1][1] == "l1c_printf":
                    if f.name != "l1c_replace_printf":
                        rep.undecided("print hook", "%s assigns it" % f.dbg)
    # the replacing call: returns the old function, installs the new one
    from lab import Lab, ext, hook, mk, ZERO, State, Fn
    lab = Lab(prog, {})
    I = lab.itp()
    st = State()
    hook(I, st)
    F = Fn(prog, "l1c_replace_printf", st=st, itp=I, args={0: mk("fptr", "@NEW")})
    G = mk("obj", "glob", prog.globs["l1c_printf"]["key"])
    for v, s in F.rets:
        now = I.read(s, G, ZERO, 8, "p")
        if v.op != "fptr" or now.op != "fptr":
            rep.undecided("l1c_replace_printf", "value not derived")
        elif v.args[0] != "@PRINT":
            rep.violation("l1c_replace_printf: result", "is not the function in use before")
        elif now.args[0] != "@NEW":
            rep.violation("l1c_replace_printf: effect", "the new function is not installed")
        else:
            rep.ok("l1c_replace_printf returns the old function and installs the new one")




def mex(rep):
    from common import MEX
    for n in MEX:
        prog = image(n)
        f = prog.find("mexFunction")
        if not f:
            rep.undecided(n, "no mexFunction")
            continue
        fs = {k: g for k, g in reach(prog, ("mexFunction",)).items()
              if g.mod["rel"].startswith("interfaces/")}
        direct(rep, prog, fs, n)
        f.prepare()
        sites = [i for b in f.blocks for i in b if i["op"] == "call" and i.get("callee") and
                 i["callee"][0] == "g" and i["callee"][1] == "l1c_replace_printf"]
        if not sites:
            rep.undecided(n + ": print function", "not installed in the entry itself")
            continue
        first = [i for i in sites if i["ops"][0][0] == "g" and i["ops"][0][1] == "mexPrintf"]
        lib = [i for b in f.blocks for i in b if i["op"] == "call" and i.get("callee") and
               i["callee"][0] == "g" and (lambda g: g is not None and not g.decl and
                                          g.mod["rel"].startswith("src/"))(
                   prog.resolve(f.mod, i["callee"][1])) and
               i["callee"][1] != "l1c_replace_printf"]
        for i in lib:
            b = f.iblock[i["id"]]
            if not any(f.dominates(f.iblock[j["id"]], b) and
                       (f.iblock[j["id"]] != b or
                        [x["id"] for x in f.blocks[b]].index(j["id"]) <
                        [x["id"] for x in f.blocks[b]].index(i["id"])) for j in first):
                rep.undecided(n + ": print function", "%s before it is installed" % f.loc(i))
                break
        else:
            rep.ok(n + ": MATLAB's print function is installed before the library is called")


def run(rep):
    rep.rule = RULE
    rep.assume = ["floating point arithmetic is read as real arithmetic",
                  "diagnostics on the error stream are not output of a solver"]
    which = ["newton", "nesta", "cg", "pcg"] + c14.JOBS
    sub = Report("C15", rep.tier)
    out = pmap(job, [(w, l) for w in which for l in (1, 0)], sub)
    quiet = {str(d["job"][0]): d for d in out if not d["job"][1]}
    for d in out:
        w, loud = d["job"]
        base = quiet.get(str(w), dict(viol={}))["viol"]
        for k, m in d["viol"].items():
            if loud and k not in base:
                rep.violation(k + " with printing on", m)
            elif "printed" in k or "output" in k or "printing option" in k:
                rep.violation(k, m)
        for k, m in d["undec"].items():
            rep.undecided(k, m)
        for c in d["checked"]:
            rep.ok("%s (%s)" % (c, "option at 0" if not loud else "option not 0"))
        for k, v in d["stats"].items():
            rep.count(k, v)
    for k, m in sub.undec.items():
        rep.undecided(k, m)
    hooked(rep)
    mex(rep)
