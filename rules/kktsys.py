"""P22: SolverKKT assembles and solves the KKT system of the subproblem at its current iterate."""
from spec import *
from qp import writes, normal, geo, strip_trunc, KF
from rollout import param
from accept import refs, nzb, length
from solve import S

Q = "SolverKKT"


def lam(u, i):
    return u.pre("lambdas_", i)


def system(c, dims, offs):
    rule = "KKT assembly"
    u = c.U(Q, "calcDiff")
    ndx, NX, NU, nu = dims
    ix, iu = offs
    for fld in ("calcpt",):
        nn = nz(nu(t))
        c.eq(Q + "::calcDiff evaluates every node at the current iterate", u.val("D." + fld, t),
             pt(u.pre("xs_", t), u.pre("us_", t)), u.where, rule)
        c.eq(Q + "::calcDiff evaluates the terminal node at the current iterate", u.val("D." + fld, T), pt(u.pre("xs_", T)), u.where, rule)
    tot = add(sumt(fx("cost", t, u.pre("xs_", t), u.pre("us_", t))), fx("cost", T, u.pre("xs_", T)))
    c.eq(Q + "::calcDiff cost of the current iterate", u.val("cost_"), tot, u.where, rule)
    c.eq(Q + "::calcDiff returns the cost", u.ret, tot, u.where, rule)
    mp = {sole_factor(u.pre("ndx_")): NX, sole_factor(u.pre("nu_")): NU}

    def on(p):
        return subst(p, mp) if isinstance(p, Poly) else p
    x = u.pre("xs_", t)
    d = lambda n, i: on(u.val("D." + n, i))
    nv = add(NX, NU)
    rt, rT = mul(ndx, t), mul(ndx, T)
    B = lambda r, k, nr, nc: ("block", r, k, nr, nc)
    want = {
        "kkt_": [(False, B(nv, ZERO, NX, NX), ident()),
                 (True, B(rt, rt, ndx, ndx), d("Lxx", t)), (True, B(rt, iu, ndx, nu(t)), d("Lxu", t)),
                 (True, B(iu, rt, nu(t), ndx), transpose(d("Lxu", t))), (True, B(iu, iu, nu(t), nu(t)), d("Luu", t)),
                 (True, B(add(nv, rt, ndx), rt, ndx, ndx), neg(d("Fx", t))), (True, B(add(nv, rt, ndx), iu, ndx, nu(t)), neg(d("Fu", t))),
                 (False, B(rT, rT, ndx, ndx), d("Lxx", T)),
                 (False, B(ZERO, nv, nv, NX), None)],
        "kktref_": [(True, ("seg", rt, ndx), d("Lx", t)), (True, ("seg", iu, nu(t)), d("Lu", t)), (False, ("seg", rT, ndx), d("Lx", T)),
                    (True, ("seg", add(nv, rt, ndx), ndx), sdiff(d("xnext", t), u.pre("xs_", t1))),
                    (False, ("seg", nv, ndx), sdiff(X0, u.pre("xs_", ZERO)))],
    }
    for m, ws in want.items():
        lab = "%s::calcDiff %s " % (Q, m)
        wr, bases = writes(u, m)
        nm = normal(u, wr) if wr is not None else None
        if nm is None:
            c.undecided(lab, "assembly not recognised: %s" % (bases,))
            continue
        c.check(lab + "assembled on top of what the constructor prepared", all(b is u.pre(m) for _, b in bases), u.where,
                "starts from %s" % [show(b)[:80] for _, b in bases], rule=rule)
        got, order = {}, []
        for lp, g, w, v in nm:
            g, w, v = on(g), (w[0],) + tuple(on(z) for z in w[1:]), on(v)
            if lp and g is not ONE and w[0] == "seg":
                # a write of one node inside the loop: 'if (t == 0)' at position 0
                z = [f for f in gatoms(g)]
                g1 = cofactor(g, sole_factor(nz(t)), False)
                if sub(g, mul(b_not(nz(t)), g1)) is ZERO and g1 is ONE:
                    lp, g = False, ONE
                    w = (w[0],) + tuple(subst(z, {tF: ZERO}) for z in w[1:])
                    v = subst(v, {tF: ZERO})
            k = (lp, w)
            if k in got:
                c.bad(lab + "every block is written once", u.where, "block at %s is written twice" % geo(w), rule=rule)
            got[k] = (g, v)
            order.append(k)
        place = {}
        for n, (lp, w, v) in enumerate(ws):
            k = next((k for k in got if k[0] == lp and k[1][0] == w[0] and all(a is b or sub(a, b) is ZERO for a, b in zip(k[1][1:], w[1:]))), None)
            name = lab + ("node " if lp else "") + geo(w)
            if not c.check(name + " position", k is not None, u.where, "no write to this block; written blocks are %s" % [geo(z[1]) for z in got], rule=rule):
                continue
            g2, v2 = got.pop(k)
            place[n] = order.index(k)
            g2 = cofactor(g2, sole_factor(nz(nu(t))), True) if lp else g2
            c.eq(name + " is always filled", g2, ONE, u.where, rule)
            if v is not None:
                c.eq(name + " value", v2, v, u.where, rule)
                continue
            # the upper right block is the transpose of the finished lower left one
            f = sole_factor(transpose(v2))
            ok = f is not None and f.op == "view" and f.a[1] == "block" and all(sub(a, b) is ZERO for a, b in zip(f.a[2:], (nv, ZERO, NX, nv)))
            c.check(name + " is the transpose of the dynamics rows", ok, u.where, "is %s" % show(v2)[:200], rule=rule)
            raw = [x[4] for x in wr if x[3][0] == "block" and len(x[3]) == 5 and all(sub(on(p), q) is ZERO for p, q in zip(x[3][1:], w[1:]))]
            if ok and len(raw) == 1:
                f = sole_factor(transpose(raw[0]))
                have = seq(u, m, f.a[0]) if f is not None and f.op == "view" else []
                rows = [any(is_at(on, q, nv, ZERO, NX, NX) for q in have)] + \
                    [any(q[0] and is_at(on, shift(u, q), add(nv, rt, ndx), col, ndx, n) for q in have) for col, n in ((rt, ndx), (iu, nu(t)))]
                c.check(name + " is copied when the dynamics rows are complete", all(rows), u.where, "copied before the rows are complete: %s" % rows, rule=rule)
        for k in got:
            c.bad(lab + "no further block is written", u.where, "also writes %s" % geo(k[1]), rule=rule)
        if m == "kkt_" and 0 in place and 5 in place:
            idw, fxw = [i for i, q in enumerate(seq(u, m)) if is_at(on, q, nv, ZERO, NX, NX)], \
                [i for i, q in enumerate(seq(u, m)) if q[0] and is_at(on, shift(u, q), add(nv, rt, ndx), rt, ndx, ndx)]
            c.check(lab + "the identity is written before the derivatives", idw and fxw and max(idw) < min(fxw), u.where,
                    "identity at %s, derivatives at %s" % (idw, fxw), rule=rule)


def is_at(on, q, *geom):
    w = q[1]
    return w[0] == "block" and all(sub(on(a), b) is ZERO for a, b in zip(w[1:], geom))


def shift(u, q):
    (b, lo, hi) = q[0][0] if len(q[0]) == 1 else (None, None, None)
    if b is None or sub(hi, T) is not ZERO:
        return (q[0], ("?",) + q[1][1:])
    return (q[0], (q[1][0],) + tuple(strip_trunc(subst(p, {b: t})) for p in q[1][1:]))


def seq(u, m, v=None):
    """the block writes of member m in program order: (binders, geometry)"""
    E = u.E
    root = u.root(m)
    if v is None:
        v = E.read_store(u.res.st.s, root, ())
    f = sole_factor(v) if isinstance(v, Poly) else None
    if f is None:
        return []
    if f.op == "blk":
        return seq(u, m, f.a[0]) + [(bs, w) for bs, g, w, val in f.a[1]]
    if f.op == "rd" and isinstance(f.a[2], tuple) and f.a[2][0] == "hav":
        i = E.loopinfo.get(f.a[2][-1])
        if i is None or i["out"]["n"] is None or "resolver" not in i:
            return []
        body = seq(u, m, E.read_store(i["out"]["n"][1].s, root, ()))
        bnd = ((i["isym"], i["lo"], i["hi"]),)
        mapped = [(bs or bnd, (w[0],) + tuple(subst(p, i["resolver"], {}) if isinstance(p, Poly) else p for p in w[1:])) for bs, w in body]
        return seq(u, m, E.read_store(i["entry"].s, root, ())) + mapped
    return []


@prop("P22")
def p22(c):
    rule = "KKT solution"
    lo = layout(c.prog, Q)
    ndx = sym("ndx")
    R = lambda m: Q + "::" + m
    v = c.U(Q, "computeDirection")
    nu = lambda i: v.pre("M.nu", i)
    NX = mul(T1, ndx)
    NU = sumt(nu(t))
    nv = add(NX, NU)
    w0 = Q + " constructor"
    for m, val in (("nx_", mul(T1, sym("nx"))), ("ndx_", NX), ("nu_", NU)):
        c.eq("%s constructor: %s" % (Q, m), lo.E.read_store(lo.res.st.s, R(m), ()), val, w0, "KKT dimensions")
    ntot = add(NX, nv)
    for m, sh in (("kkt_", (ntot, ntot)), ("kktref_", (ntot,))):
        got = lo.E.shapes.get((R(m), ()))
        for k, z in enumerate(sh):
            c.eq("%s constructor: size %d of %s" % (Q, k, m), got[k] if got and len(got) > k and isinstance(got[k], Poly) else sym("?"), z, w0, "KKT dimensions")
        c.eq("%s constructor: %s is zero outside its blocks" % (Q, m), lo.E.read_store(lo.res.st.s, R(m), ()), ZERO, w0, "KKT dimensions")
    frame(c)
    ix = mul(ndx, t)
    iu = add(NX, alg.sum_over(subst(nu(t), {tF: fpoly(KF)}), KF, ZERO, t))
    system(c, (ndx, NX, NU, nu), (ix, iu))
    # the linear solution and its parts
    u = c.U(Q, "computePrimalDual")
    sol = neg(mul(inv(u.pre("kkt_")), u.pre("kktref_")))
    c.eq(Q + "::computePrimalDual solution", u.val("primaldual_"), sol, u.where, rule)
    ev = v.evs("computePrimalDual")
    cd = v.evs("calcDiff")
    lab = Q + "::computeDirection "
    c.check(lab + "solves the system once", len(ev) == 1 and ev[0].guard is ONE and not ev[0].loops, v.where, "%d solutions" % len(ev), rule=rule)
    rec = nz(param(v, 0))
    c.check(lab + "evaluates the system before it is solved", len(cd) == 1 and len(ev) == 1 and v.E.events.index(cd[0]) < v.E.events.index(ev[0]),
            v.where, "%d evaluations" % len(cd), rule=rule)
    if cd:
        c.eq(lab + "evaluates the system when asked to", cd[0].guard, rec, cd[0].l, rule)
    # as one unit: the steps are pieces of the solution
    d = c.U(Q, "computeDirection", inline=("computePrimalDual",))
    pd = d.val("primaldual_")
    mp = {sole_factor(d.pre("ndx_")): NX, sole_factor(d.pre("nu_")): NU}
    ch = d.evs("checkKKTConditions")
    c.check(lab + "judges the optimality of the new solution", len(ch) == 1 and ch[0].guard is ONE and not ch[0].loops, d.where, "%d times" % len(ch), rule=rule)
    for nm, m, i, off, n in (("state step", "dxs_", t, ix, ndx), ("control step", "dus_", t, iu, nu(t)), ("multiplier", "lambdas_", t, add(nv, ix), ndx),
                             ("terminal state step", "dxs_", T, mul(ndx, T), ndx), ("terminal multiplier", "lambdas_", T, add(nv, mul(ndx, T)), ndx)):
        piece(c, d, lab + nm, d.val(m, i), pd, mp, off, n, nz(nu(t)) if m == "dus_" else None)
        if ch:
            piece(c, d, lab + nm + " seen by the optimality check", d.at(ch[0], m, i), d.at(ch[0], "primaldual_"), mp, off, n, nz(nu(t)) if m == "dus_" else None)
    measures(c, NX, NU, nu, ndx, iu)
    steps(c)
    search(c)


def piece(c, u, lab, got, pd, mp, off, n, cond):
    rec = sole_factor(nz(param(u, 0)))
    for val in (True, False):
        cof = lambda x: cofactor(x, rec, val)
        g, p = strip_trunc(subst(cof(got), mp)), subst(cof(pd), mp)
        if cond is not None:
            g = cofactor(g, sole_factor(cond), True)
        one(c, u, lab + ("" if val else " (kept evaluation)"), g, p, off, n)


def one(c, u, lab, g, p, off, n):
    a, n2, sign = ZERO, None, 1
    f = sole_factor(g)
    if f is None:
        f, sign = sole_factor(neg(g)), -1
    while f is not None and f.op == "view" and f.a[1] == "seg":
        a, n2 = add(a, f.a[2]), f.a[3] if n2 is None else n2
        h = f.a[0]
        if sole_factor(h) is None or sole_factor(h).op != "view":
            break
        f = sole_factor(h)
    if not c.check(lab + " is a part of the solution", f is not None and f.op == "view" and f.a[1] == "seg" and (f.a[0] if sign > 0 else neg(f.a[0])) is p,
                   u.where, "is %s" % show(g)[:300], rule="KKT solution"):
        return
    c.eq(lab + " position", a, off, u.where, "KKT solution")
    c.eq(lab + " length", n2, n, u.where, "KKT solution")


def frame(c):
    """only calcDiff writes the system, only computeDirection the solution"""
    own = {"kkt_": {"calcDiff"}, "kktref_": {"calcDiff"}, "primaldual_": {"computePrimalDual"}, "primal_": {"computePrimalDual"}, "dual_": {"computePrimalDual"},
           "dxs_": {"computeDirection"}, "dus_": {"computeDirection"}, "lambdas_": {"computeDirection"}}
    for n in ("tryStep", "checkKKTConditions", "stoppingCriteria", "expectedImprovement", "computePrimalDual", "calcDiff"):
        w = {x.split("::")[-1] for x in c.U(Q, n).res.written()}
        hit = sorted(m for m, o in own.items() if m in w and n not in o)
        c.check("%s::%s leaves the system and its solution alone" % (Q, n), not hit, c.U(Q, n).where, "writes %s" % hit, rule="frame")


def measures(c, NX, NU, nu, ndx, iu):
    rule = "KKT measures"
    nv = add(NX, NU)
    u = c.U(Q, "checkKKTConditions")
    mp = {sole_factor(u.pre("ndx_")): NX, sole_factor(u.pre("nu_")): NU}
    D = lambda f, i: u.pre("D." + f, i)
    Lx = add(sub(D("Lx", t), mul(transpose(D("Fx", t)), lam(u, t1))), lam(u, t))
    Lu = sub(D("Lu", t), mul(transpose(D("Fu", t)), lam(u, t1)))
    LT = add(D("Lx", T), lam(u, T))
    gap = sem.blk_read(u.pre("kktref_"), ("seg", nv, NX))
    got = subst(u.val("KKT_"), mp)
    want = smax(ZERO, maxt(ninf(Lx)), maxt(ninf(Lu)), ninf(LT), ninf(gap))
    c.eq(Q + " optimality residual", got, want, u.where, rule)
    # stopping measure
    u = c.U(Q, "stoppingCriteria")
    g, r, h = (sem.blk_read(u.pre("kktref_"), ("seg", a, n)) for a, n in ((ZERO, nv), (nv, NX), (ZERO, nv)))
    dF = u.val("dF")
    tot = add(g, dF)
    c.eq(Q + "::stoppingCriteria", subst(u.val("stop_"), mp), subst(add(dot(tot, tot), dot(r, r)), mp), u.where, rule)
    wr, bases = writes(u, "dF")
    nm = normal(u, wr) if wr is not None else None
    rt = mul(ndx, t)
    ws = [(True, ("seg", rt, ndx), sub(lam(u, t), mul(transpose(D("Fx", t)), lam(u, t1)))), (True, ("seg", iu, nu(t)), neg(mul(transpose(D("Fu", t)), lam(u, t1)))),
          (False, ("seg", mul(ndx, T), ndx), lam(u, T))]
    if nm is None:
        c.undecided(Q + "::stoppingCriteria dF", "assembly not recognised")
    else:
        got = {}
        for lp, gg, w, v in nm:
            got[(lp, (w[0],) + tuple(subst(z, mp) for z in w[1:]))] = (gg, v)
        for lp, w, v in ws:
            k = next((k for k in got if k[0] == lp and k[1][0] == w[0] and all(a is b or sub(a, b) is ZERO for a, b in zip(k[1][1:], w[1:]))), None)
            name = Q + "::stoppingCriteria dF " + geo(w)
            if c.check(name + " position", k is not None, u.where, "written blocks are %s" % [geo(z[1]) for z in got], rule=rule):
                v2 = got.pop(k)[1]
                c.check(name + " value", v2 is v or transpose(v2) is v, u.where, "is %s, required is %s" % (show(v2)[:200], show(v)[:200]), rule=rule)
        for k in got:
            c.bad(Q + "::stoppingCriteria dF has no further block", u.where, "also writes %s" % geo(k[1]), rule=rule)
    # model of the step
    u = c.U(Q, "expectedImprovement")
    mp = {sole_factor(u.pre("ndx_")): NX, sole_factor(u.pre("nu_")): NU}
    p = u.pre("primal_")
    g = sem.blk_read(u.pre("kktref_"), ("seg", ZERO, nv))
    H = sem.blk_read(u.pre("kkt_"), ("block", ZERO, ZERO, nv, nv))
    c.eq(Q + "::expectedImprovement slope", subst(u.val("d_", ZERO), mp), neg(dot(g, p)), u.where, rule)
    c.eq(Q + "::expectedImprovement curvature", subst(u.val("d_", ONE), mp), neg(dot(mul(H, p), p)), u.where, rule)


def steps(c):
    rule = "KKT step"
    u = c.U(Q, "tryStep")
    a = param(u, 0)
    X = lambda i: sint(u.pre("xs_", i), mul(a, u.pre("dxs_", i)))
    U = add(u.pre("us_", t), mul(a, u.pre("dus_", t)))
    nn = nz(u.pre("M.nu", t))
    c.eq(Q + "::tryStep trial state", u.val("xs_try_", t), X(t), u.where, rule)
    c.eq(Q + "::tryStep terminal trial state", u.val("xs_try_", T), X(T), u.where, rule)
    c.eq_under(nn, Q + "::tryStep trial control", u.val("us_try_", t), U, u.where, rule)
    Ut = u.val("us_try_", t)
    cost = add(sumt(fx("cost", t, X(t), Ut)), fx("cost", T, X(T)))
    c.eq(Q + "::tryStep trial cost", u.val("cost_try_"), cost, u.where, rule)
    c.eq(Q + "::tryStep improvement", u.ret, sub(u.pre("cost_"), cost), u.where, rule)


def search(c):
    """the steps solve() takes"""
    rule = "KKT line search"
    s = S(c, Q, {})
    if not s.ok:
        return
    u, lab, E = s.u, s.lab, s.u.E
    if not c.check(lab + "one trial evaluation", len(s.tr) == 1, s.w, "%d trial evaluations" % len(s.tr), rule=rule):
        return
    e = s.tr[0]
    a = u.pre("alphas_", s.i1)
    c.eq(lab + "trial evaluated for every step length", e.guard, ONE, e.l, rule)
    c.eq(lab + "step lengths tried in order", e.arg(0), a, e.l, rule)
    c.eq(lab + "step lengths tried from the first", s.ls["lo"] if isinstance(s.ls["lo"], Poly) else const(-1), ZERO, s.ls["l"], rule)
    c.eq(lab + "step lengths tried up to the last", s.ls["hi"] if isinstance(s.ls["hi"], Poly) else const(-1), length(u, "alphas_"), s.ls["l"], rule)
    sets = s.inside("setCandidate")
    if not c.check(lab + "steps are accepted in the line search", bool(sets) and all(len(x.loops) >= 2 and x.loops[1][0] == s.LS for x in sets), s.w,
                   "the iterate is replaced elsewhere", rule=rule):
        return
    x = sets[0]
    for y in sets:
        c.check(lab + "accepting takes the trial point over", refs(u, y.args[:2]) == ("xs_try_", "us_try_"), y.l, "the accepted candidate is %s" % (refs(u, y.args[:2]),), rule=rule)
    d0, d1, dV = s.at(x, "d_", ZERO), s.at(x, "d_", ONE), s.at(x, "dV_")
    c.check(lab + "improvement of this trial", s.src(dV) is not None and s.src(dV)[0] == "tryStep", x.l, "the improvement tested is %s" % show(dV)[:200], rule=rule)
    srcs = {s.src(d0), s.src(d1)}
    c.check(lab + "model of this iteration's direction", len(srcs) == 1 and None not in srcs and list(srcs)[0][0] == "expectedImprovement", x.l,
            "the predicted improvement comes from %s" % (sorted(map(str, srcs)),), rule=rule)
    cd, ei = s.inside("computeDirection"), s.inside("expectedImprovement")
    c.check(lab + "the model follows the direction", len(cd) == 1 and len(ei) == 1 and s.pos(cd[0]) < s.pos(ei[0]) < s.pos(e), s.w,
            "%d directions, %d models" % (len(cd), len(ei)), rule=rule)
    dx = mul(a, add(d0, scale(mul(a, d1), alg.Fraction(1, 2))))
    want = b_or(flt(d0, u.pre("th_grad_")), b_not(nzb(s.at(e, "is_feasible_"))), flt(mul(u.pre("th_acceptstep_"), dx), dV))
    G = add(ZERO, *[y.guard for y in sets])
    c.eq(lab + "acceptance condition", G, want, x.l, rule)
    c.eq(lab + "the search ends exactly with an accepted step", e.r(add(ZERO, *[f.q for f in s.ls["out"]["b"]], *[f.q for f in s.ls["out"]["r"]])), G, s.ls["l"], rule)
    r = u.root("cost_")
    u.ty(r)
    for f in s.ls["out"]["b"]:
        c.eq_under(x.r(f.q), lab + "cost after acceptance", x.r(E.read_store(f.st.s, r, ())), s.at(x, "cost_try_"), s.ls["l"], rule)
    n = s.ls["out"]["n"]
    if n is not None:
        for m, i in (("xs_", t), ("xs_", T), ("us_", t), ("cost_", None)):
            rr = u.root(m)
            u.ty(rr)
            j = (i,) if i is not None else ()
            c.eq(lab + "a rejected step keeps %s" % m, sub(E.read_store(n[1].s, rr, j), E.read_store(s.ls["s0"].s, rr, j)), ZERO, s.ls["l"], rule)
    conv = [y for y in u.evs("return") if y.loops and y.loops[0][0] == s.L0 and s.pos(y) < s.pos(e) and y.args and y.args[0] in ("1", ONE)]
    g = add(ZERO, *[y.guard for y in conv])
    if conv:
        c.eq(lab + "success needs a small residual of the current direction", g, fle(conv[0].read(u.root("KKT_")), u.pre("termination_tol_")), conv[0].l, rule)
        c.check(lab + "the residual judged is the current direction's", s.src(conv[0].read(u.root("KKT_"))) is not None
                and s.src(conv[0].read(u.root("KKT_")))[0] == "computeDirection", conv[0].l, "", rule=rule)
    else:
        c.bad(lab + "the solve ends when the residual is small", s.w, "no success on a small residual", rule=rule)
