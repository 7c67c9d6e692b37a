"""P25: forward passes roll the linear feedback policy / the linear dynamics out."""
from spec import *


def nonlinear(c, cls):
    """DDP and FDDP: the policy is rolled out through the real dynamics"""
    u = c.U(cls, "forwardPass")
    lab = "%s::forwardPass " % cls
    a = param(u, 0)
    w = u.where
    full = ONE
    if cls == "SolverFDDP":
        F = sole_factor(u.pre("is_feasible_"))
        A = sole_factor(feq(a, ONE))
        full = b_or(fpoly(F), fpoly(A))
    nu = nz(u.pre("M.nu", t))
    X = u.val("xs_try_", t) if cls == "SolverFDDP" else u.fin("xs_try_", t)
    U = sub(sub(u.pre("us_", t), mul(a, u.pre("k_", t))), mul(u.pre("K_", t), sdiff(u.pre("xs_", t), X)))
    c.eq_under(nu, lab + "trial control", u.val("us_try_", t), U, w, "policy rollout")
    c.eq(lab + "state displacement", u.val("dx_", t), sdiff(u.pre("xs_", t), X), w, "policy rollout")
    c.eq(lab + "nodes evaluated at the trial point", u.val("D.calcpt", t), ite(nu, pt(X, U), pt(X)), w, "policy rollout")
    XT = u.val("xs_try_", T) if cls == "SolverFDDP" else u.fin("xs_try_", T)
    c.eq(lab + "terminal node evaluated at the trial point", u.val("D.calcpt", T), pt(XT), w, "policy rollout")
    xn = ite(nu, fx("xnext", t, X, U), fx("xnext", t, X))
    cost = add(ite(nu, fx("cost", t, X, U), fx("cost", t, X)))
    if cls == "SolverDDP":
        c.eq(lab + "next state", u.val("xs_try_", t1), xn, w, "policy rollout")
        c.eq(lab + "keeps the initial state", u.val("xs_try_", ZERO), u.pre("xs_try_", ZERO), w, "policy rollout")
        c.eq(lab + "trial cost", u.val("cost_try_"), add(sumt(cost), fx("cost", T, XT)), w, "policy rollout")
        return
    # FDDP: the state entering a node is carried along the loop
    for k, x in cases(X, [F, A]):
        tag = lab + "[" + ",".join("%s%s" % ("" if v else "not ", n) for n, (_, v) in zip(("feasible", "full step"), k)) + "] "
        cs = carried(x)
        f = sole_factor(x) if isinstance(x, Poly) else None
        r = u.root("xs_try_")
        if f is not None and f.op == "rd" and f.a[0] == r and f.a[1] == (t,) and isinstance(f.a[2], tuple) and f.a[2][0] == "rec" and f.a[2][-1] in u.E.loopinfo:
            direct_chain(c, u, tag, k, f, a, nu)
            continue
        if not cs and isinstance(x, Poly) and not c.opaque(x) and all(f.a[2] == "pre" for f in alg.factors(x) if f.op == "rd"):
            c.bad(tag + "trial state", w, "the trial state of a node is not reached from the node before", {"derived": show(x)[:300]}, rule="policy rollout")
            continue
        if len(cs) != 1:
            c.undecided(tag + "state chain", "expected one carried state, found %s" % cs)
            continue
        root, L = cs[0]
        info = u.E.loopinfo[L]
        v = fpoly(mkF("rd", (root, (), ("it", L, root)), "v"))
        isfull = any(b for _, b in k)
        shift = mul(sub(a, ONE), u.pre("fs_", t))
        c.eq(tag + "trial state", x, v if isfull else sint(v, shift), w, "policy rollout")

        def cof(p):
            for at, b in k:
                p = cofactor(p, at, b)
            return p
        c.eq(tag + "chain starts at the initial state", cof(u.E.read_store(info["entry"].s, root, ())), X0, info["l"], "policy rollout")
        sy = info["isym"]
        q, st = info["out"]["n"]
        nxt = cof(subst(u.E.read_store(st.s, root, ()), {sy: t}))
        c.eq(tag + "chain continues with the next state", nxt, cof(xn), info["l"], "policy rollout")
        xT = cof(u.val("xs_try_", T))
        hv = [f for f in alg.factors(xT) if f.op == "rd" and isinstance(f.a[2], tuple) and f.a[2][0] == "hav" and f.a[0] == root]
        if not c.check(tag + "terminal state", len(hv) == 1, w, "the terminal trial state does not come from the state chain", rule="policy rollout"):
            continue
        h = fpoly(hv[0])
        c.eq(tag + "terminal state", xT, h if isfull else sint(h, mul(sub(a, ONE), u.pre("fs_", T))), w, "policy rollout")
        accum(c, tag, u, info, cof, "cost_try_", cost, fx("cost", T, xT))
        accum(c, tag, u, info, cof, "gap_norm_try_", None, ZERO)


def direct_chain(c, u, tag, k, f, a, nu):
    """the trial states themselves carry the chain: the loop reads xs_try_[t] and writes xs_try_[t+1]"""
    r, L = f.a[0], f.a[2][-1]
    info = u.E.loopinfo[L]
    w = info["l"]

    def cof(p):
        for at, b in k:
            p = cofactor(p, at, b)
        return p
    if not c.check(tag + "trial state", any(b for _, b in k), w, "partial steps keep part of the defects: the trial state is not the next state itself", rule="policy rollout"):
        return
    if info["out"]["n"] is None or not c.check(tag + "chain covers all nodes", info["lo"] is ZERO and info["hi"] is TSYM, w, "nodes are left out", rule="policy rollout"):
        return
    sy = info["isym"]
    q, st = info["out"]["n"]
    v = fpoly(mkF("rd", (r, (t,), ("it", L, r)), "v"))
    U = sub(sub(u.pre("us_", t), mul(a, u.pre("k_", t))), mul(u.pre("K_", t), sdiff(u.pre("xs_", t), v)))
    xn = ite(nu, fx("xnext", t, v, U), fx("xnext", t, v))
    cost = ite(nu, fx("cost", t, v, U), fx("cost", t, v))
    c.eq(tag + "chain starts at the initial state", cof(u.E.read_store(info["entry"].s, r, (ZERO,))), X0, w, "policy rollout")
    c.eq(tag + "chain continues with the next state", cof(subst(u.E.read_store(st.s, r, (add(fpoly(sy), ONE),)), {sy: t})), cof(xn), w, "policy rollout")
    c.eq(tag + "an evaluated state stays", cof(subst(u.E.read_store(st.s, r, (fpoly(sy),)), {sy: t})), v, w, "policy rollout")
    xT = cof(u.val("xs_try_", T))
    c.eq(tag + "terminal state", xT, fpoly(mkF("rd", (r, (T,), f.a[2]), "v")), u.where, "policy rollout")
    if carried(cof(u.val("cost_try_"))) or any(f.op == "rd" and isinstance(f.a[2], tuple) and f.a[2][0] == "hav" for f in alg.factors(cof(u.val("cost_try_")))):
        accum(c, tag, u, info, cof, "cost_try_", cost, fx("cost", T, xT))
        accum(c, tag, u, info, cof, "gap_norm_try_", None, ZERO)
        return
    X = fpoly(f)
    c.eq(tag + "cost_try_ total", cof(u.val("cost_try_")), add(sumt(cof(subst(cost, {sole_factor(v): X}))), fx("cost", T, xT)), u.where, "accumulation")
    g = cof(u.val("gap_norm_try_"))
    c.check(tag + "gap_norm_try_ starts at zero", not any(x.op == "rd" and x.a[0] == u.root("gap_norm_try_") for x in alg.factors(g)), u.where,
            "the defects of earlier trials are counted", rule="accumulation")


def multipliers(c, cls):
    """every node's multiplier estimate is the value gradient plus the value curvature along a state deviation"""
    u = c.U(cls, "forwardPass")
    lab = "%s::forwardPass " % cls
    rule = "multiplier estimates"
    D = fpoly(mkF("sym", ("deviation",), "v"))
    F = A = None
    if cls == "SolverFDDP":
        F, A = sole_factor(u.pre("is_feasible_")), sole_factor(feq(param(u, 0), ONE))
    for i in (t, T):
        got = u.val("lag_mul_", i)
        if not isinstance(got, Poly):
            c.undecided(lab + "multiplier[%s]" % show(i), "value not derived")
            continue
        for k, x in cases(got, [F, A] if F is not None else []):
            mp = {f: D for f in alg.factors(x) if deviation(f)}
            y = subst(x, mp)
            tag = lab + "multiplier[%s]" % show(i) + ("[" + ",".join("%s%s" % ("" if v else "not ", n) for n, (_, v) in zip(("feasible", "full step"), k)) + "]" if k else "")
            base = add(u.pre("Vx_", i), mul(u.pre("Vxx_", i), D))
            gap = sub(base, mul(u.pre("Vxx_", i), u.pre("fs_", i)))
            want = [base]
            if k and not any(v for _, v in k):
                want = [gap]
            elif k and not k[0][1]:
                want = [base, gap]
            if any(y is w for w in want):
                c.ok(tag, rule)
            else:
                c.eq(tag, y, want[0], u.where, rule)


def deviation(f):
    if f.op == "rd":
        return f.a[0].endswith("::dx_")
    return f.op == "fn" and f.a[0] == "S.diff"


def accum(c, tag, u, info, cof, member, inc, last):
    """member starts at 0, grows by inc in every iteration and by last after the loop"""
    r = u.root(member)
    u.ty(r)
    q, st = info["out"]["n"]
    a, b = u.E.read_store(info["s0"].s, r, ()), u.E.read_store(st.s, r, ())
    c.eq(tag + member + " starts at zero", cof(u.E.read_store(info["entry"].s, r, ())), ZERO, info["l"], "accumulation")
    if inc is not None:
        c.eq(tag + member + " increment", cof(subst(sub(b, a), {info["isym"]: t})), cof(inc), info["l"], "accumulation")
    fin = cof(u.val(member))
    hv = [f for f in alg.factors(fin) if f.op == "rd" and isinstance(f.a[2], tuple) and f.a[2][0] == "hav" and f.a[0] == r]
    if c.check(tag + member + " total", len(hv) == 1, info["l"], "%s is not the accumulated value" % member, rule="accumulation"):
        c.eq(tag + member + " total", fin, add(fpoly(hv[0]), last), u.where, "accumulation")


def param(u, i):
    p = u.f["ps"][i]
    n = p.get("n") or ("#%d" % i)
    return u.pre("p:" + n)


def linear(c, cls, name, dx, du, lag=False):
    u = c.U(cls, name)
    lab = "%s::%s " % (cls, name)
    w = u.where
    X = u.fin(dx, t)
    U = neg(add(u.pre("k_", t), mul(u.pre("K_", t), X)))
    rule = "linear rollout"
    c.eq(lab + "control step", u.val(du, t), U, w, rule)
    c.eq(lab + "state step", u.val(dx, t1), add(u.pre("fs_", t1), mul(u.pre("D.Fx", t), X), mul(u.pre("D.Fu", t), U)), w, rule)
    c.eq(lab + "initial state step kept", u.val(dx, ZERO), u.pre(dx, ZERO), w, rule)
    if lag:
        for i in (t, T):
            c.eq(lab + "multiplier[%s]" % show(i), u.val("lag_mul_", i),
                 add(mul(u.pre("Vxx_", i), sub(u.fin(dx, i), u.pre("fs_", i))), u.pre("Vx_", i)), w, rule)
        c.eq(lab + "state step measure", u.val("x_grad_norm_"),
             mul(add(sumt(fn("norm1", (X,))), fn("norm1", (u.fin(dx, T),))), recip(T1)), w, rule)
        c.eq(lab + "control step measure", u.val("u_grad_norm_"), mul(sumt(fn("norm1", (U,))), recip(T)), w, rule)


@prop("P25")
def p25(c):
    nonlinear(c, "SolverDDP")
    nonlinear(c, "SolverFDDP")
    multipliers(c, "SolverDDP")
    multipliers(c, "SolverFDDP")
    linear(c, "SolverSQP", "forwardPass", "dx_", "du_", True)
    linear(c, "SolverCSQP", "forwardPass", "dxtilde_", "dutilde_")
    linear(c, "SolverCSQP", "forwardPass_without_constraints", "dx_", "du_")
