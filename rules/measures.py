"""P05: cost, defect, constraint violation and merit are measured the same way for the current point and for a trial point."""
from spec import *
from rollout import param


def gap(X1, X, U, xn=None):
    """sum of the shooting defects (1-norm); X1 = state at node t+1"""
    return sumt(n1(sdiff(X1, fx("xnext", t, X, U) if xn is None else xn)))


def viol(u, g, gT):
    lb, ub = lambda i: u.pre("M.g_lb", i), lambda i: u.pre("M.g_ub", i)

    def one(i, v):
        return add(n1(fn("cmax", (ZERO, sub(lb(i), v)), "v")), n1(fn("cmax", (ZERO, sub(v, ub(i))), "v")))
    return add(sumt(one(t, g)), one(T, gT))


def merit(u, cls, cost, gp, cn, pre):
    """pre: reads a scalar parameter at the point where the merit is formed"""
    md = pre("mu_dynamic_")
    if cls == "SolverSQP":
        return add(cost, mul(md, gp))
    mc = pre("mu_constraint_")
    fixed = add(cost, mul(md, gp), mul(mc, cn))
    if cls == "SolverPROXQP":
        return fixed
    adaptive = add(cost, mul(pre("lag_mul_inf_norm_coef_"), pre("lag_mul_inf_norm_"), add(gp, cn)))
    return ite(b_or(flt(md, ZERO), flt(mc, ZERO)), adaptive, fixed)


def nominal(c, cls):
    u = c.U(cls, "calc")
    w, lab, rule = u.where, cls + "::calc ", "nominal measure"
    rc = sole_factor(param(u, 0))
    x, us = (lambda i: u.pre("xs_", i)), u.pre("us_", t)
    for on in (True, False):
        tag = lab + ("[re-evaluating] " if on else "[keeping the data] ")
        V = lambda m, *i: cofactor(u.val(m, *i), rc, on)
        if on:
            xn, g, gT = fx("xnext", t, x(t), us), fx("g", t, x(t), us), fx("g", T, x(T))
            cost = add(sumt(fx("cost", t, x(t), us)), fx("cost", T, x(T)))
            c.eq(tag + "node data belong to the current point", V("D.calcpt", t), pt(x(t), us), w, rule)
            c.eq(tag + "terminal data belong to the current point", V("D.calcpt", T), pt(x(T)), w, rule)
            for q in ("Lx", "Lu", "Lxx", "Lxu", "Luu", "Fx", "Fu", "Gx", "Gu"):
                c.eq(tag + "derivative %s at the current point" % q, V("D." + q, t), fn("f." + q, (t, x(t), us, pt(x(t), us)), "v" if q in ("Lx", "Lu") else "m"), w, rule)
        else:
            xn, g, gT, cost = u.pre("D.xnext", t), u.pre("D.g", t), u.pre("D.g", T), u.pre("cost_")
        c.eq(tag + "cost", V("cost_"), cost, w, rule)
        c.eq(tag + "defect[t+1]", V("fs_", t1), sdiff(x(t1), xn), w, rule)
        c.eq(tag + "defect[0] kept", V("fs_", ZERO), u.pre("fs_", ZERO), w, rule)
        gp, cn = sumt(n1(sdiff(x(t1), xn))), viol(u, g, gT)
        c.eq(tag + "total defect", V("gap_norm_"), gp, w, rule)
        c.eq(tag + "constraint violation", V("constraint_norm_"), cn, w, rule)
        if cls == "SolverPROXQP":
            c.eq(tag + "merit", V("merit_"), merit(u, cls, cost, gp, cn, u.pre), w, rule)


def trial(c, cls):
    u = c.U(cls, "tryStep")
    a = param(u, 0)
    w, lab, rule = u.where, cls + "::tryStep ", "trial measure"
    X = lambda i: sint(u.pre("xs_", i), mul(a, u.pre("dx_", i)))
    U = add(u.pre("us_", t), mul(a, u.pre("du_", t)))
    nu = nz(u.pre("M.nu", t))
    c.eq(lab + "trial state[t]", u.val("xs_try_", t), X(t), w, rule)
    c.eq(lab + "trial state[T]", u.val("xs_try_", T), X(T), w, rule)
    c.eq_under(nu, lab + "trial control", u.val("us_try_", t), U, w, rule)
    pU = u.val("us_try_", t)
    c.eq(lab + "nodes evaluated at the trial point", u.val("D.calcpt", t), pt(X(t), pU), w, rule)
    c.eq(lab + "terminal node evaluated at the trial point", u.val("D.calcpt", T), pt(X(T)), w, rule)
    cost = add(sumt(fx("cost", t, X(t), pU)), fx("cost", T, X(T)))
    gp = sumt(n1(sdiff(X(t1), fx("xnext", t, X(t), pU))))
    c.eq(lab + "trial cost", u.val("cost_try_"), cost, w, rule)
    c.eq(lab + "trial total defect", u.val("gap_norm_try_"), gp, w, rule)
    cn = ZERO
    if cls != "SolverSQP":
        cn = viol(u, fx("g", t, X(t), pU), fx("g", T, X(T)))
        c.eq(lab + "trial constraint violation", u.val("constraint_norm_try_"), cn, w, rule)
    m = merit(u, cls, cost, gp, cn, u.pre)
    c.eq(lab + "trial merit", u.val("merit_try_"), m, w, rule)
    c.eq(lab + "returned merit", u.ret, u.val("merit_try_"), w, rule)
    frame = {"xs_", "us_", "fs_", "dx_", "du_", "cost_", "gap_norm_", "constraint_norm_", "merit_", "mu_dynamic_", "mu_constraint_",
             "lag_mul_inf_norm_", "lag_mul_", "y_", "z_", "K_", "k_", "Vx_", "Vxx_", "KKT_"}
    for r in sorted(u.res.written()):
        mm = r.split("::")[-1]
        c.check(lab + "does not modify " + mm, mm not in frame, u.where, "evaluating a trial step modifies %s" % r, rule="frame")


def sqp_nominal(c):
    """SQP measures the current point when it computes a direction"""
    u = c.U("SolverSQP", "computeDirection", drop=("calcDiff",))
    w, lab, rule = u.where, "SolverSQP::computeDirection ", "nominal measure"
    gp = add(sumt(n1(u.val("fs_", t))), n1(u.val("fs_", T)))
    c.eq(lab + "total defect", u.val("gap_norm_"), gp, w, rule)
    c.eq(lab + "merit", u.val("merit_"), merit(u, "SolverSQP", u.val("cost_"), gp, ZERO, u.pre), w, rule)
    rc = sole_factor(param(u, 0))
    x, us = (lambda i: u.pre("xs_", i)), u.pre("us_", t)
    for on in (True, False):
        tag = lab + ("[re-evaluating] " if on else "[keeping the data] ")
        V = lambda m, *i: cofactor(u.val(m, *i), rc, on)
        if on:
            c.eq(tag + "node data belong to the current point", V("D.calcpt", t), pt(x(t), us), w, rule)
            c.eq(tag + "terminal data belong to the current point", V("D.calcpt", T), pt(x(T)), w, rule)
            for q in ("Lx", "Lu", "Lxx", "Lxu", "Luu", "Fx", "Fu"):
                k = "v" if q in ("Lx", "Lu") else "m"
                c.eq(tag + "derivative %s at the current point" % q, V("D." + q, t), fn("f." + q, (t, x(t), us, pt(x(t), us)), k), w, rule)
            for q in ("Lx", "Lxx"):
                c.eq(tag + "terminal derivative %s at the current point" % q, V("D." + q, T), fn("f." + q, (T, x(T), pt(x(T))), "v" if q == "Lx" else "m"), w, rule)
            c.eq(tag + "cost", V("cost_"), add(sumt(fx("cost", t, x(t), us)), fx("cost", T, x(T))), w, rule)
            c.eq(tag + "defect[t+1]", V("fs_", t1), sdiff(x(t1), fx("xnext", t, x(t), us)), w, rule)
            c.eq(tag + "defect[0]", V("fs_", ZERO), sdiff(x(ZERO), X0), w, rule)
        else:
            c.eq(tag + "cost", V("cost_"), u.pre("cost_"), w, rule)
            for i in (t, T):
                c.eq(tag + "defect[%s]" % show(i), V("fs_", i), u.pre("fs_", i), w, rule)
                c.eq(tag + "node data [%s]" % show(i), V("D.calcpt", i), u.pre("D.calcpt", i), w, rule)


@prop("P05")
def p05(c):
    for cls in ("SolverCSQP", "SolverPROXQP"):
        nominal(c, cls)
    for cls in ("SolverSQP", "SolverCSQP", "SolverPROXQP"):
        trial(c, cls)
    sqp_nominal(c)
    # CSQP forms the merit of the current point right before the line search
    rule = "nominal measure"
    u = c.U("SolverCSQP", "solve")
    es = u.evs("tryStep")
    c.check("SolverCSQP::solve tries steps", bool(es), u.where, "no trial step is evaluated", rule="anchor")
    for e in es:
        at = lambda m, *i: u.at(e, m, *i)
        c.eq("SolverCSQP::solve merit of the current point", at("merit_"),
             merit(u, "SolverCSQP", at("cost_"), at("gap_norm_"), at("constraint_norm_"), at), e.l, rule)
        li = smax(ZERO, maxt(ninf(at("lag_mul_", t)), hi=T1), maxt(ninf(at("y_", t)), hi=T1))
        c.eq_under(b_or(flt(at("mu_dynamic_"), ZERO), flt(at("mu_constraint_"), ZERO)), "SolverCSQP::solve multiplier norm", at("lag_mul_inf_norm_"), li, e.l, rule)
