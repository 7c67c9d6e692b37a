"""P17: problems with equality constraints of Crocoddyl's own interface are refused by the constructors of the constrained solvers."""
from spec import *


def split_any(p):
    """conditions over all nodes with the terminal node split off, sums of constraint numbers as 'any node has some'"""
    for _ in range(4):
        m = {}
        for f in alg.factors(p):
            if f.op == "nz" or f.op == "lt0":
                sg = 1 if f.op == "nz" else -1  # numbers of constraints are not negative: -n < 0 says n != 0
                top = alg.pure_sup(f.a[0])
                if f.op == "nz" and top is not None:  # the largest number of constraints is not zero
                    v = ZERO
                    for e, g in top.a[0]:
                        h = sole_factor(e)
                        if h is not None and h.op == "over":
                            v = b_or(v, b_and(g, alg.any_over(nz(h.a[1]), h.a[0], h.a[2], h.a[3])))
                        else:
                            v = b_or(v, b_and(g, nz(e)))
                    m[f] = v
                    continue
                parts = []
                for (g, s, ma), k in f.a[0].terms.items():
                    if g or ma or k * sg <= 0 or len(s) != 1 or s[0][1] != 1:
                        parts = None
                        break
                    parts.append(s[0][0])
                if not parts or f.op == "nz" and parts == [sole_factor(f.a[0])] and parts[0].op != "sum":
                    continue
                v = ZERO
                for x in parts:
                    if x.op == "sum":
                        v = b_or(v, alg.any_over(nz(x.a[1]), x.a[0], x.a[2], x.a[3]))
                    else:
                        v = b_or(v, nz(fpoly(x)))
                m[f] = v
            elif f.op == "any" and f.a[3] is T1:
                m[f] = b_or(alg.any_over(f.a[1], f.a[0], f.a[2], T), subst(f.a[1], {f.a[0]: T}))
        m = {k: v for k, v in m.items() if v is not fpoly(k)}
        if not m:
            return p
        p = subst(p, m)
    return p


@prop("P17")
def p17(c):
    rule = "refused exactly when some node has equality constraints"
    K = mkF("sym", ("k",), "s")
    alg.RANGES[K] = (ZERO, T1)
    nh = lambda i: fpoly(mkF("rd", ("M.nh", (i,), "pre"), "s"))
    want = split_any(b_or(alg.any_over(nz(nh(fpoly(K))), K, ZERO, T), nz(nh(T))))
    for cls in ("SolverDDP", "SolverFDDP", "SolverSQP", "SolverCSQP", "SolverPROXQP"):
        lo = layout(c.prog, cls)
        where = "%s constructor" % cls
        c.extra_cov.setdefault("functions", []).append(where)
        g = ZERO
        for e in lo.E.throws:
            q = e.guard
            for L, isym in reversed(e.loops):
                i = lo.E.loopinfo[L]
                if not isinstance(i["lo"], Poly) or not isinstance(i["hi"], Poly):
                    q = None
                    break
                q = alg.any_over(q, isym, i["lo"], i["hi"])
            if q is None:
                c.undecided("%s at %s" % (where, e.l), "condition of the exception not derived")
                return
            g = b_or(g, q)
            where = e.l or where
        g = split_any(g)
        w = want if cls in ("SolverCSQP", "SolverPROXQP") else ZERO
        if g is not w and not c.opaque(g):
            sp = split_equal(g, w)
            c.check("%s constructor throws" % cls, sp is None, where, "throws when %s" % show(g)[:300], detail={"missing": show(w)}, rule=rule)
        elif c.opaque(g):
            c.undecided("%s constructor throws" % cls, "condition not derived")
        else:
            c.ok("%s constructor throws" % cls, where, rule)
    # the data used by the solver are the ones that were tested: the models are asked for the number of equality constraints
    for cls in ("SolverCSQP", "SolverPROXQP"):
        u = c.U(cls, "solve")
        c.check("%s: no equality constraint enters the solver" % cls, not any("D.h" == f.a[0] or "D.H" in f.a[0] for e in u.E.events for a in e.args if isinstance(a, Poly)
                                                                            for f in alg.factors(a) if f.op == "rd"), u.where, "reads equality constraint data", rule=rule)
