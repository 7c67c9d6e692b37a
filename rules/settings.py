"""P15: settings are stored exactly, rejected exactly outside their documented range, and read back by their getters."""
from spec import *
from rollout import param
from accept import length as length_of

LE1, NEG, UNIT, ZEROV = "at most one", "negative", "outside (0,1]", "zero"
REJECT = {
    LE1: lambda v: fle(v, ONE),
    NEG: lambda v: flt(v, ZERO),
    UNIT: lambda v: b_or(fle(v, ZERO), flt(ONE, v)),
    ZEROV: lambda v: b_not(nz(v)),
    None: lambda v: ZERO,
}
# class -> setter -> (getters of the value, rejected range)
REG = {
    "set_reg_incfactor": (("get_reg_incfactor", "get_regfactor"), LE1),
    "set_reg_decfactor": (("get_reg_decfactor",), LE1),
    "set_regfactor": (("get_reg_incfactor", "get_reg_decfactor", "get_regfactor"), LE1),
    "set_reg_min": (("get_reg_min", "get_regmin"), NEG),
    "set_regmin": (("get_reg_min", "get_regmin"), NEG),
    "set_reg_max": (("get_reg_max", "get_regmax"), NEG),
    "set_regmax": (("get_reg_max", "get_regmax"), NEG),
    "set_th_stepdec": (("get_th_stepdec",), UNIT),
    "set_th_stepinc": (("get_th_stepinc",), UNIT),
    "set_th_grad": (("get_th_grad",), NEG),
    "setCallbacks": (("getCallbacks",), None),
    "set_termination_tolerance": (("get_termination_tolerance",), None),
}
TERM = {"set_termination_tolerance": (("get_termination_tolerance",), None)}
FILTER = {"set_use_filter_line_search": (("get_use_filter_line_search",), None)}
TABLE = {
    "SolverDDP": REG,
    "SolverFDDP": dict(TERM, **FILTER, set_th_acceptnegstep=(("get_th_acceptnegstep",), NEG)),
    "SolverSQP": dict(TERM, **FILTER, set_mu_dynamic=(("get_mu_dynamic",), None),
                      set_extra_iteration_for_last_kkt=(("get_extra_iteration_for_last_kkt",), None)),
    "SolverCSQP": dict(TERM, **FILTER, setQPCallbacks=(("getQPCallbacks",), None), set_rho_update_interval=(("get_rho_update_interval",), ZEROV),
                       set_extra_iteration_for_last_kkt=(("get_extra_iteration_for_last_kkt",), None),
                       **{"set_" + x: (("get_" + x,), None) for x in
                          ("adaptive_rho_tolerance", "lag_mul_inf_norm_coef", "mu_dynamic", "mu_constraint", "alpha", "sigma", "equality_qp_initial_guess",
                           "rho_sparse", "max_qp_iters", "eps_abs", "eps_rel", "max_solve_time")}),
    "SolverPROXQP": dict(TERM, **FILTER, setCallbacks=(("getCallbacks",), None),
                         **{"set_" + x: (("get_" + x,), None) for x in ("mu_dynamic", "mu_constraint", "max_qp_iters", "eps_abs", "eps_rel")}),
}
LISTS = {"SolverFDDP": ("gap_list_", "cost_list_"), "SolverSQP": ("gap_list_", "cost_list_"),
         "SolverCSQP": ("gap_list_", "constraint_list_", "cost_list_"), "SolverPROXQP": ("gap_list_", "constraint_list_", "cost_list_")}
# results: getter -> member with the value
RESULTS = {
    "SolverDDP": dict({"get_" + m: m + "_" for m in ("Vxx", "Vx", "Qxx", "Qxu", "Quu", "Qx", "Qu", "K", "k", "KKT", "alphas")}),
    "SolverFDDP": dict(get_gap_norm="gap_norm_", get_KKT="KKT_"),
    "SolverSQP": dict({"get_" + m: m + "_" for m in ("xs_try", "us_try", "dx", "du", "KKT", "gap_norm", "merit")}, get_xgrad_norm="x_grad_norm_", get_ugrad_norm="u_grad_norm_"),
    "SolverCSQP": dict({"get_" + m: m + "_" for m in ("xs_try", "us_try", "dx", "du", "xs", "us", "y", "z", "rho_vec", "KKT", "gap_norm", "constraint_norm", "qp_iters", "merit",
                                                     "norm_primal", "norm_dual", "norm_primal_tolerance", "norm_dual_tolerance", "reset_y", "reset_rho",
                                                     "rho_min", "rho_max", "max_solve_time_reached")},
                       get_dx_tilde="dxtilde_", get_du_tilde="dutilde_", get_xgrad_norm="x_grad_norm_", get_ugrad_norm="u_grad_norm_"),
    "SolverPROXQP": dict({"get_" + m: m + "_" for m in ("xs_try", "us_try", "dx", "du", "xs", "us", "fs", "y", "lag_mul", "KKT", "gap_norm", "constraint_norm", "qp_iters",
                                                       "merit", "cost", "norm_primal", "norm_dual", "P", "A", "C", "q", "b", "l", "u")},
                         get_xgrad_norm="x_grad_norm_", get_ugrad_norm="u_grad_norm_"),
}


def field_of(c, cls, getter):
    """the member a getter returns, (class that declares it, name), or None"""
    u = c.U(cls, getter)
    r = u.ret
    if not isinstance(r, Poly):
        return u, None
    fs = [f for f in alg.factors(r) if f.op == "rd" and f.a[2] == "pre"]
    if len(fs) != 1 or fs[0].a[1] != ():
        return u, None
    return u, fs[0].a[0]


def getter(c, cls, g, rule):
    """checks that g returns exactly one member unchanged and changes nothing; returns the member's location"""
    u, root = field_of(c, cls, g)
    lab = "%s::%s " % (cls, g)
    if root is None:
        if not isinstance(u.ret, Poly) or c.opaque(u.ret):
            c.undecided(lab, "returned value not derived")
        else:
            c.bad(lab + "returns the member", u.where, "returns %s" % show(u.ret)[:200], rule=rule)
        return u, None
    p = fpoly(next(f for f in alg.factors(u.ret) if f.op == "rd"))
    same = u.ret is p or u.ret is nz(p) or sub(u.ret, nz(p)) is ZERO or split_equal(u.ret, b_not(feq(p, ZERO))) is None
    c.check(lab + "returns the member unchanged", same, u.where, "returns %s" % show(u.ret)[:200], rule=rule)
    w = sorted(u.res.written())
    c.check(lab + "changes nothing", not w, u.where, "writes %s" % w, rule=rule)
    return u, root


def qualified(c, cls, m):
    k, fd = c.prog.field_cls(NS + cls, m)
    return None if fd is None else k.split("::")[-1] + "::" + m


def vparam(u, k, i):
    return u.pre("p:" + u.f["ps"][k]["n"], i)


def length(u, k):
    return length_of(u, "p:" + u.f["ps"][k]["n"])


def num(k):
    return alg.const(k)


def strip_ret(c, cls, g):
    f = c.prog.method(NS + cls, g)
    return None if f is None else sem.strip(f.get("rty") or "")


def setters(c, cls):
    rule = "setting stored"
    for name, (gets, rej) in TABLE[cls].items():
        if c.prog.method(NS + cls, name) is None:
            c.undecided("%s::%s" % (cls, name), "setter not found")
            continue
        u = c.U(cls, name)
        lab = "%s::%s " % (cls, name)
        ps = u.f["ps"]
        if len(ps) != 1:
            c.undecided(lab, "expected one parameter")
            continue
        v = param(u, 0)
        kind = ps[0]["ty"]
        roots = {}
        for g in gets:
            ug, r = getter(c, cls, g, "getter")
            if r is None:
                continue
            roots[r] = g
        for r, g in roots.items():
            ft, pt = sem.strip(u.E.tytab.get(r) or ""), sem.strip(kind)
            flag = pt == "bool" and all(strip_ret(c, cls, x) == "bool" for x in gets)
            lossy = not flag and (ft == "double" and pt != "double" or ft in sem.INTS and pt in ("bool", "float") + tuple(sem.SMALL))
            c.check(lab + "takes every value of %s" % r.split("::")[-1], not lossy, u.where, "the argument is a %s, the setting a %s" % (pt, ft), rule=rule)
            if "vector" in kind:
                u.ty(r)
                got = u.E.read_store(u.res.st.s, r, (t,))
                c.eq(lab + "stores its argument (%s)" % g, got, vparam(u, 0, t), u.where, rule)
                continue
            u.ty(r)
            got = u.E.read_store(u.res.st.s, r, ())
            c.check(lab + "stores its argument (%s)" % g, same_value(got, v), u.where, "afterwards %s yields %s" % (g, show(got)[:200] if isinstance(got, Poly) else got), rule=rule)
        extra = sorted(set(u.res.written()) - set(roots))
        c.check(lab + "changes nothing else", not extra, u.where, "also writes %s" % extra, rule=rule)
        # rejected exactly in the documented range, before anything is stored
        tot = ZERO
        for x in u.E.throws:
            if x.loops:
                c.undecided(lab, "raises from a loop")
                continue
            first = b_and(x.guard, b_not(tot))
            tot = b_or(tot, x.guard)
            if first is ZERO:
                continue
            for r in roots:
                if "vector" in kind:
                    continue
                got = u.at(x, r.split("::")[-1])
                c.check(lab + "stores nothing if rejected", same_value(got, u.pre(r.split("::")[-1])), x.l, "a rejected value was stored: %s" % show(got)[:200], rule=rule)
        c.eq(lab + "rejects " + (rej or "nothing"), ordered(tot), ordered(REJECT[rej](v)), u.where, "setting rejected exactly outside its range")


def same_value(got, v):
    if not isinstance(got, Poly):
        return False
    if got is v or sub(got, v) is ZERO or got is nz(v) or nz(got) is nz(v):
        return True
    return split_equal(got, v) is None


def filters(c):
    rule = "filter size"
    for cls, ls in LISTS.items():
        u = c.U(cls, "set_filter_size")
        lab = "%s::set_filter_size " % cls
        n = param(u, 0)
        _, r = getter(c, cls, "get_filter_size", "getter")
        c.check(lab + "stores the size", r is not None and same_value(u.E.read_store(u.res.st.s, r, ()), n), u.where, "get_filter_size does not return the size", rule=rule)
        for l in ls:
            got = u.E.read_store(u.res.st.s, u.root(l), ())
            s = show(got)
            # capacity and number of entries are the size, on every path: the last operation that fixes each of them
            cap = cnt = None
            g = sole_factor(got)
            while g is not None and g.op == "fn":
                nm, args = g.a
                if nm == "cb.resize" and cnt is None:
                    cnt = args[1]
                elif nm in ("cb.set_capacity", "cb.rset_capacity") and cap is None:
                    cap = args[1]
                elif nm not in ("cb.resize", "cb.set_capacity"):
                    break
                g = sole_factor(args[0]) if isinstance(args[0], Poly) else None
            c.check(lab + "%s holds exactly this many iterates" % l, cap is n, u.where, "capacity of %s afterwards: %s" % (l, show(cap) if cap is not None else "unchanged (%s)" % s[:200]), rule=rule)
            c.check(lab + "%s has exactly this many entries" % l, cnt is n, u.where, "size of %s afterwards: %s" % (l, show(cnt) if cnt is not None else "unchanged (%s)" % s[:200]), rule=rule)
        extra = sorted(x for x in u.res.written() if x != r and x.split("::")[-1] not in ls)
        c.check(lab + "changes nothing else", not extra, u.where, "also writes %s" % extra, rule=rule)
        c.check(lab + "rejects nothing", not u.E.throws, u.where, "raises", rule=rule)


def alphas(c):
    """set_alphas stores the list; rejects exactly empty lists, non-positive values and values that do not decrease"""
    rule = "step lengths"
    u = c.U("SolverDDP", "set_alphas")
    lab = "SolverDDP::set_alphas "
    a = lambda i: vparam(u, 0, i)
    conds = []      # (kind, lo, hi): the condition is raised for the indices lo..hi-1
    for x in u.E.throws:
        if not x.loops:
            g = x.guard
            if depends(g, "len"):
                conds.append(("empty", g, x))
                continue
            conds.append(("at", g, x))
            continue
        if len(x.loops) != 1:
            c.undecided(lab, "nested loops")
            return
        i = u.E.loopinfo[x.loops[0][0]]
        if i.get("lo") is None or i.get("hi") is None:
            c.undecided(lab, "loop bounds not derived")
            return
        sy = fpoly(i["isym"])
        g = x.guard
        for root, L in carried(g, x.loops[0][0]):
            # a carried "previous" value: entry and step must both be the entry before the current one
            ent = u.E.read_store(i["entry"].s, root, ())
            nx = i["out"]["n"]
            if nx is None:
                c.undecided(lab, "loop without normal continuation")
                return
            step = u.E.read_store(nx[1].s, root, ())
            wd = {f: a(sub(sy, ONE)) for f in alg.factors(g) if f.op == "rd" and f.a[0] == root}
            if ent is a(sub(i["lo"], ONE)) and (step is a(sy)):
                g = subst(g, wd)
            else:
                c.bad(lab + "compares each step length with the one before", x.l, "the carried value starts with %s and continues with %s" % (show(ent), show(step)), rule=rule)
                return
        conds.append(("loop", g, x))
    pos, dec, emp = [], [], False
    for k, g, x in conds:
        if k == "empty":
            N = length(u, 0)
            ok = g is b_not(nz(N)) or split_equal(g, b_not(nz(N))) is None or split_equal(g, flt(N, ONE)) is None
            c.check(lab + "rejects nothing else", ok, x.l, "raises under %s" % show(g), rule=rule)
            emp |= ok
        elif k == "at":
            hit = [j for j in range(3) if ordered(g) is ordered(fle(a(num(j)), ZERO))]
            c.check(lab + "rejects nothing else", bool(hit), x.l, "raises under %s" % show(g), rule=rule)
            pos += [(num(j), num(j + 1)) for j in hit]
        else:
            i = u.E.loopinfo[x.loops[0][0]]
            sy, lo, hi = fpoly(i["isym"]), i["lo"], i["hi"]
            hit = False
            g = ordered(g)
            if lo is ZERO:
                f = sole_factor(nz(sy))
                if cofactor(g, f, False) is ZERO:
                    g, lo = cofactor(g, f, True), ONE
            for sh in (-1, 0, 1):
                s = add(sy, num(sh))
                P, D = ordered(fle(a(s), ZERO)), ordered(fle(a(sub(s, ONE)), a(s)))
                r = (add(lo, num(sh)), add(hi, num(sh)))
                if g is P or g is b_or(P, D):
                    pos.append(r)
                    hit = True
                if g is D or g is b_or(P, D):
                    dec.append(r)
                    hit = True
            c.check(lab + "rejects nothing else", hit, x.l, "raises under %s" % show(g), rule=rule)
    N = length(u, 0)
    c.check(lab + "rejects an empty list", emp, u.where, "an empty list is accepted", rule=rule)
    c.check(lab + "rejects every non-positive step length", covers(pos, ZERO, N), u.where, "tested ranges: %s" % [(show(x), show(y)) for x, y in pos], rule=rule)
    c.check(lab + "rejects every step length that is not smaller than the one before", covers(dec, ONE, N), u.where, "tested ranges: %s" % [(show(x), show(y)) for x, y in dec], rule=rule)
    g, r = getter(c, "SolverDDP", "get_alphas", "getter")
    got = u.val("alphas_", t)
    c.check(lab + "stores the list", got is a(t), u.where, "afterwards the list holds %s" % show(got), rule=rule)
    ws = sorted(set(u.res.written()) - {r})
    c.check(lab + "changes nothing else", not ws, u.where, "also writes %s" % ws, rule=rule)


def ordered(p):
    """comparisons of ordered values, all written with <"""
    return subst(p, lambda f: b_not(flt(f.a[1], f.a[0])) if f.op == "fle" else None)


def covers(rs, lo, hi):
    at = lo
    rs = list(rs)
    while at is not hi:
        nx = [r for r in rs if r[0] is at]
        if not nx:
            return False
        rs.remove(nx[0])
        at = nx[0][1]
    return True


def depends(p, op):
    return op in show(p)


def results(c):
    rule = "getter"
    for cls, gs in RESULTS.items():
        for g, m in gs.items():
            if c.prog.method(NS + cls, g) is None:
                c.undecided("%s::%s" % (cls, g), "getter not found")
                continue
            _, r = getter(c, cls, g, rule)
            if r is not None:
                want = qualified(c, cls, m)
                if want is None:
                    c.undecided("%s::%s" % (cls, g), "no member %s" % m)
                    continue
                c.check("%s::%s returns %s" % (cls, g, m), r == want, _.where, "returns %s instead of %s" % (r, want), rule=rule)


@prop("P15")
def p15(c):
    for cls in TABLE:
        setters(c, cls)
    filters(c)
    alphas(c)
    results(c)
