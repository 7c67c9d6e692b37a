"""P09/P10/P11: penalty adaptation, variable updates and residuals, and stopping of the constrained QP iterations (ADMM)."""
from spec import *
from rollout import param

CS = "SolverCSQP"
kF = mkF("sym", ("k",), "s")
k = fpoly(kF)
EPS6 = const("1e-6")


def penalty(u, i, r, keep, keep_inv):
    """penalty of one constraint component (and its inverse), by the kind of the bounds"""
    lb, ub = u.pre("M.g_lb", i, k), u.pre("M.g_ub", i, k)
    free = b_and(feq(lb, alg.NEGINF), feq(ub, alg.POSINF))
    equal = fle(fn("abs", (sub(lb, ub),)), EPS6)
    ineq = flt(lb, ub)
    rmin, rq = u.pre("rho_min_"), mul(const(1000), r)
    return (ite(free, rmin, ite(equal, rq, ite(ineq, r, keep))),
            ite(free, recip(rmin), ite(equal, recip(rq), ite(ineq, recip(r), keep_inv))))


def due(u, it, m="rho_update_interval_"):
    return b_not(nz(fn("mod", (it, u.pre(m)))))


@prop("P09")
def p09(c):
    rule = "penalty rule"
    u = c.U(CS, "apply_rho_update")
    w = u.where
    r = param(u, 0)
    for i in (t, T):
        alg.RANGES[kF] = (ZERO, u.pre("M.ng", i))
        want, winv = penalty(u, i, r, u.pre("rho_vec_", i, k), u.pre("inv_rho_vec_", i, k))
        lab = "penalty of a constraint component, node %s" % show(i)
        got, ginv = u.val("rho_vec_", i, k), u.val("inv_rho_vec_", i, k)
        c.eq(lab, got, want, w, rule)
        c.eq(lab + ", inverse", ginv, winv, w, rule)
        # the two stored vectors always are each other's inverse
        alg.RANGES.pop(kF)
    u.c.check("penalty rule writes nothing else", {x.split("::")[-1] for x in u.res.written()} <= {"rho_vec_", "inv_rho_vec_"}, w,
              "applying a penalty modifies %s" % sorted(u.res.written()), rule="frame")

    u = c.U(CS, "reset_rho_vec")
    es = u.evs("apply_rho_update")
    c.eq("reset: penalty parameter returns to its base value", u.val("rho_sparse_"), u.pre("rho_sparse_base_"), u.where, rule)
    c.eq("reset: penalties applied once", add(ZERO, *[e.guard for e in es]), ONE, u.where, rule)
    for e in es:
        c.eq("reset: applied parameter", e.arg(0), u.pre("rho_sparse_base_"), e.l, rule)

    u = c.U(CS, "update_rho_vec")
    w = u.where
    it = param(u, 0)
    np_, nd, npr, ndr = (u.pre(m) for m in ("norm_primal_", "norm_dual_", "norm_primal_rel_", "norm_dual_rel_"))
    rho, tol = u.pre("rho_sparse_"), u.pre("adaptive_rho_tolerance_")
    est = smin(smax(mul(fn("sqrt", (mul(np_, ndr, recip(mul(nd, npr))),)), rho), u.pre("rho_min_")), u.pre("rho_max_"))
    change = b_and(due(u, it), b_or(flt(mul(rho, tol), est), flt(est, mul(rho, recip(tol)))))
    c.eq("adaptation: estimate", u.val("rho_estimate_sparse_"), est, w, rule)
    c.eq("adaptation: penalty parameter", u.val("rho_sparse_"), ite(change, est, rho), w, rule)
    es = u.evs("apply_rho_update")
    c.eq("adaptation: penalties applied iff the parameter changes", add(ZERO, *[e.guard for e in es]), change, w, rule)
    for e in es:
        c.eq_under(e.guard, "adaptation: applied parameter", e.arg(0), est, e.l, rule)

    # when a solve starts: penalties reset at every QP (option on) or before the first QP (option off)
    u = c.U(CS, "reset_params")
    es = u.evs("reset_rho_vec")
    c.eq("QP start: penalties reset iff asked", add(ZERO, *[e.guard for e in es]), u.pre("reset_rho_"), u.where, rule)
    u = c.U(CS, "computeDirection")
    n = 0
    for e in u.evs("backwardPass"):
        n += 1
    c.check("QP: factorisations found", n > 0, u.where, "no factorisation with up-to-date penalties in the QP loop", rule="anchor")


@prop("P10")
def p10(c):
    rule = "splitting update"
    u = c.U(CS, "update_lagrangian_parameters")
    w = u.where
    it = param(u, 0)
    al = u.pre("alpha_")
    P = lambda m: (lambda i: u.pre(m, i))
    Gx, Gu, g, X, U = (P(m) for m in ("D.Gx", "D.Gu", "D.g", "dxtilde_", "dutilde_"))
    zp, yp, rho, irho = (P(m) for m in ("z_", "y_", "rho_vec_", "inv_rho_vec_"))
    lb, ub, ng = P("M.g_lb"), P("M.g_ub"), P("M.ng")

    def terms(i):
        C = mul(Gx(i), X(i))
        if i is not T:
            C = add(C, mul(Gu(i), U(i)))
        zr = add(mul(al, C), mul(sub(ONE, al), zp(i)))
        z = fn("cmin", (fn("cmax", (add(zr, mul(diag(yp(i)), irho(i))), sub(lb(i), g(i))), "v"), sub(ub(i), g(i))), "v")
        y = add(yp(i), mul(diag(rho(i)), sub(zr, z)))
        return C, zr, z, y
    tm = {t: terms(t), T: terms(T)}
    for i in (t, T):
        C, zr, z, y = tm[i]
        lab = "node %s: " % show(i)
        c.eq(lab + "relaxed constraint value", u.val("z_relaxed_", i), zr, w, rule)
        c.eq(lab + "projected constraint value", u.val("z_", i), z, w, rule)
        c.eq(lab + "multiplier", u.val("y_", i), y, w, rule)
        c.eq(lab + "state step taken over", u.val("dx_", i), X(i), w, rule)
    c.eq("node t: control step taken over", u.val("du_", t), U(t), w, rule)

    dn = due(u, it)
    heur = u.pre("update_rho_with_heuristic_")
    rule = "residual norm"
    C, zr, z, y = tm[t]
    CT, zrT, zT, yT = tm[T]
    on = mul(dn, nz(ng(t)))
    onT = mul(dn, nz(ng(T)))

    def parts(gn, run, term):
        out = [alg.NEGINF]
        for e in run:
            out.append(alg.mk_sup(alg.sup_over({e: mul(gn, on)}, tF, ZERO, TSYM)))
        for e in term:
            out.append(alg.mk_sup({e: mul(gn, onT)}))
        return smax(*out)
    wv, wT = mul(diag(rho(t)), sub(z, zp(t))), mul(diag(rho(T)), sub(zT, zp(T)))
    tr = transpose
    c.eq("primal residual", u.val("norm_primal_"), parts(ONE, [ninf(sub(C, z))], [ninf(sub(CT, zT))]), w, rule)
    c.eq("primal scale", u.val("norm_primal_rel_"), parts(ONE, [ninf(C), ninf(z)], [ninf(CT), ninf(zT)]), w, rule)
    for hv in (True, False):
        at = sole_factor(heur)
        n = " (heuristic)" if hv else ""
        if hv:
            d = parts(ONE, [ninf(wv)], [ninf(wT)])
            dr = parts(ONE, [ninf(y)], [ninf(yT)])
        else:
            d = parts(ONE, [ninf(mul(tr(Gx(t)), wv)), ninf(mul(tr(Gu(t)), wv))], [ninf(mul(tr(Gx(T)), wT))])
            dr = parts(ONE, [ninf(mul(tr(Gx(t)), y)), ninf(mul(tr(Gu(t)), y))], [ninf(mul(tr(Gx(T)), yT))])
        mp = {at: ONE if hv else ZERO}
        c.eq("dual residual" + n, subst(u.val("norm_dual_"), mp), d, w, rule)
        c.eq("dual scale" + n, subst(u.val("norm_dual_rel_"), mp), dr, w, rule)

    # start of every QP
    u = c.U(CS, "reset_params", drop=())
    rule = "QP start"
    for i in (t, T):
        alg.RANGES[kF] = (ZERO, u.pre("M.ng", i))
        for m in ("z_", "z_prev_", "z_relaxed_"):
            c.eq("QP start: %s[%s] is zero" % (m, show(i)), u.val(m, i), ZERO, u.where, rule)
        c.eq("QP start: multipliers[%s] kept unless a reset is asked" % show(i), u.val("y_", i), mul(b_not(u.pre("reset_y_")), u.pre("y_", i)), u.where, rule)
    alg.RANGES.pop(kF)


def clock_atoms(p, u, start="start_time_"):
    """conditions 'the time spent since the start has reached the budget' in p"""
    out = []
    for f in alg.factors(p):
        if f.op in ("fle", "flt") and any(x.op == "rd" and x.a[0] == "clock" for x in alg.factors(fpoly(f))):
            out.append(f)
    return out


def time_over(c, u, p, name):
    """the single time-budget condition in p, checked to be 'budget <= now - start'"""
    ats = clock_atoms(p, u)
    if not c.check(name + ": time budget condition", len(ats) == 1, u.where, "expected one time-budget condition, found %d" % len(ats), rule="time budget"):
        return None
    f = ats[0]
    clk = [x for x in alg.factors(fpoly(f)) if x.op == "rd" and x.a[0] == "clock"]
    c.eq(name + ": time budget condition", fpoly(f), fle(u.pre("max_solve_time_"), sub(fpoly(clk[0]), u.pre("start_time_"))), u.where, "time budget")
    return f


def qp_loop(c, u):
    ev = u.evs("forwardPass")
    if not ev or not ev[0].loops:
        return None
    L = ev[0].loops[-1][0]
    return u.E.loopinfo[L]


@prop("P11")
def p11(c):
    rule = "QP iteration order"
    u = c.U(CS, "computeDirection")
    w = u.where
    info = qp_loop(c, u)
    if not c.check("QP loop", info is not None, w, "the QP is not solved in a loop", rule="anchor"):
        return
    it = fpoly(info["isym"])
    c.eq("QP loop starts at iteration 1", info["lo"], ONE, info["l"], rule)
    c.eq("QP loop ends after the allowed iterations", info["hi"], add(u.pre("max_qp_iters_"), ONE), info["l"], rule)
    c.eq("QP loop has no other exit condition", info["flagc"], ONE, info["l"], rule)
    G = lambda *n: add(ZERO, *[e.guard for e in u.evs(*n) if e.loops])
    over = time_over(c, u, G("forwardPass"), "QP iteration")
    if over is None:
        return
    go = b_not(fpoly(over))
    iv = u.pre("rho_update_interval_")
    first = b_or(b_not(nz(sub(fn("mod", (it, iv)), ONE))), b_not(nz(sub(iv, ONE))))
    c.eq("factorisation with new penalties", G("backwardPass", "backwardPass_mt"), mul(go, first), w, rule)
    c.eq("factorisation with old penalties", G("backwardPass_without_rho_update", "backwardPass_without_rho_update_mt"), mul(go, b_not(first)), w, rule)
    order = ["backwardPass", "forwardPass", "update_lagrangian_parameters", "update_rho_vec"]
    for n in order[1:]:
        c.eq("%s in every iteration" % n, G(n), go, w, rule)
    for n in order[2:]:
        for e in u.evs(n):
            c.eq("%s: iteration number" % n, e.arg(0), it, e.l, rule)
    pos = {n: [x for x, e in enumerate(u.E.events) if e.name == n and e.loops] for n in order}
    seq = [x for x, e in enumerate(u.E.events) if e.name.startswith("backwardPass") and e.loops]
    for a, b in (("forwardPass", "update_lagrangian_parameters"), ("update_lagrangian_parameters", "update_rho_vec")):
        c.check("%s precedes %s" % (a, b), pos[a] and pos[b] and max(pos[a]) < min(pos[b]), w, "%s does not precede %s" % (a, b), rule=rule)
    c.check("factorisation precedes forwardPass", seq and max(seq) < min(pos["forwardPass"] or [-1]), w, "the factorisation does not precede the roll-out", rule=rule)

    # stopping
    rule = "QP stopping rule"
    dn = due(u, it)
    brk = ZERO
    stops = info["out"]["b"]
    tol = {}
    ul = u.evs("update_lagrangian_parameters")
    uv = u.evs("update_rho_vec")
    src = uv[-1] if uv else None
    if src is None:
        return
    cur = lambda m: src.read(u.root(m))
    for m, rel in (("norm_primal_", "norm_primal_rel_"), ("norm_dual_", "norm_dual_rel_")):
        er, ea = u.pre("eps_rel_"), u.pre("eps_abs_")
        small = fle(fn("abs", (er,)), sym("limits.epsilon"))
        tol[m] = fle(cur(m), ite(small, ea, add(ea, mul(er, cur(rel)))))
    for f in stops:
        brk = add(brk, f.q)
    small = fle(fn("abs", (u.pre("eps_rel_"),)), sym("limits.epsilon"))
    ea, er = u.pre("eps_abs_"), u.pre("eps_rel_")
    conv = ite(small, b_and(fle(cur("norm_primal_"), ea), fle(cur("norm_dual_"), ea)),
               b_and(fle(cur("norm_primal_"), add(ea, mul(er, cur("norm_primal_rel_")))), fle(cur("norm_dual_"), add(ea, mul(er, cur("norm_dual_rel_"))))))
    c.eq("QP loop is left early iff out of time or converged", brk, b_or(fpoly(over), b_and(dn, conv)), info["l"], rule)
    # residuals used for stopping are those of this iteration
    for m in ("norm_primal_", "norm_dual_", "norm_primal_rel_", "norm_dual_rel_"):
        v = cur(m)
        f = sole_factor(v)
        c.check("stopping uses this iteration's %s" % m, f is not None and f.op == "rd" and isinstance(f.a[2], tuple) and f.a[2][0] == "ev"
                and "update_lagrangian_parameters" in str(f.a[2]), info["l"], "the stopping test reads %s" % show(v), rule=rule)
    # unconstrained initial guess
    g = u.pre("equality_qp_initial_guess_")
    gd = b_not(feq(g, ZERO)) if not [1 for x in alg.factors(g) if x.kind == "b"] else g
    for n in ("backwardPass_without_constraints", "forwardPass_without_constraints"):
        c.eq("%s iff the initial guess is enabled" % n, add(ZERO, *[e.guard for e in u.evs(n)]), gd, w, rule="QP start")
    e0 = [x for x, e in enumerate(u.E.events) if e.name == "reset_params"]
    c.check("QP variables are reset before anything else", bool(e0) and u.E.events[e0[0]].guard is ONE and
            all(x > e0[0] for x, e in enumerate(u.E.events) if e.name.startswith(("backward", "forward", "update_"))), w,
            "the QP starts before its variables are reset", rule="QP start")
    qp_count(c, u, info, it, over)


def qp_count(c, u, info, it, over):
    """the number of QP iterations reported is the number of iterations executed"""
    rule = "QP iteration count"
    r = u.root("qp_iters_")
    u.ty(r)
    fin = u.val("qp_iters_")
    hv = [f for f in alg.factors(fin) if f.op == "rd" and f.a[0] == r and isinstance(f.a[2], tuple) and f.a[2][0] == "hav"]
    mx = u.pre("max_qp_iters_")
    if len(hv) != 1 or info["prim"] is None or info["prim"][0] != r:
        c.undecided(rule, "the number of executed iterations is not derived: %s" % show(fin)[:200])
        return
    c.eq(rule + " when the budget is used up", subst(fin, {hv[0]: info["hi"]}), mx, u.where, rule)
    for f in info["out"]["b"]:
        v = u.E.read_store(f.st.s, r, ())
        out = cofactor(f.q, over, True)
        want = sub(it, ONE) if out is not ZERO else it
        if not (sub(v, want) is ZERO):
            c.eq(rule + (" after a time-out" if out is not ZERO else " on convergence"), v, want, f.l or info["l"], rule)
            continue
        got = subst(fin, {hv[0]: v})
        ok = got is v or sub(got, v) is ZERO or sub(got, smin(mx, v)) is ZERO
        c.check(rule + (" after a time-out" if out is not ZERO else " on convergence"), ok, f.l or info["l"], "reports %s" % show(got)[:200], rule=rule)
