"""P13: backward passes compute the Riccati recursion of the (augmented) LQ subproblem, forward passes roll it out."""
from spec import *


def reg(u, name):
    r = u.pre(name)
    return sub(r, mul(bfn("isnan", r), r))


def dd(u, f, i):
    return u.pre("D." + f, i)


def gx_on(u, i):
    """inequality rows contribute to the state part only for nodes other than the (fixed) initial one"""
    return nz(i)


def recursion(c, u, csqp=False, aug=False, keep=False):
    """the values the property requires of a backward pass; returns them so that other checks can reuse them"""
    V1, v1 = u.fin("Vxx_", t1), u.fin("Vx_", t1)
    preg, dreg = reg(u, "preg_"), reg(u, "dreg_")
    I = ident()
    Fx, Fu = dd(u, "Fx", t), dd(u, "Fu", t)
    FxT, FuT = transpose(Fx), transpose(Fu)
    feas = u.pre("is_feasible_")
    if csqp:
        Vfs = mul(V1, u.pre("fs_", t1)) if not keep else u.pre("Vxx_fs_", t)
        p = add(v1, Vfs)
    else:
        p = v1
    Qx = add(dd(u, "Lx", t), mul(FxT, p))
    Qu = add(dd(u, "Lu", t), mul(FuT, p))
    Qxx = add(dd(u, "Lxx", t), mul(FxT, V1, Fx))
    Quu = add(dd(u, "Luu", t), mul(FuT, V1, Fu), mul(dreg, I))
    Qxu = add(dd(u, "Lxu", t), mul(FxT, V1, Fu))
    VT, vT = dd(u, "Lxx", T), dd(u, "Lx", T)
    if aug:
        s = u.pre("sigma_")
        Gx, Gu = dd(u, "Gx", t), dd(u, "Gu", t)
        R = diag(u.pre("rho_vec_", t))
        w = sub(u.pre("y_", t), mul(R, u.pre("z_", t)))
        on = gx_on(u, t)
        Qx = add(Qx, neg(mul(s, u.pre("dx_", t))), mul(on, transpose(Gx), w))
        Qu = add(Qu, neg(mul(s, u.pre("du_", t))), mul(transpose(Gu), w))
        Qxx = add(Qxx, mul(s, I), mul(on, transpose(Gx), R, Gx))
        Quu = add(Quu, mul(s, I), mul(transpose(Gu), R, Gu))
        Qxu = add(Qxu, mul(on, transpose(Gx), R, Gu))
        GT = dd(u, "Gx", T)
        RT = diag(u.pre("rho_vec_", T))
        VT = add(VT, mul(s, I), mul(transpose(GT), RT, GT))
        vT = add(vT, neg(mul(s, u.pre("dx_", T))), mul(transpose(GT), sub(u.pre("y_", T), mul(RT, u.pre("z_", T)))))
    if keep:
        K = u.pre("K_", t)
        k = mul(inv(u.pre("Quu_llt_", t)), Qu)
    else:
        iQ = inv(mul(nz(u.pre("M.nu", t)), Quu))
        iQ = inv(Quu)
        K = mul(iQ, transpose(Qxu))
        k = mul(iQ, Qu)
    Vx = sub(Qx, mul(transpose(K), Qu))
    Vh = sub(Qxx, mul(Qxu, K))
    Vxx = add(scale(add(Vh, transpose(Vh)), alg.Fraction(1, 2)), mul(preg, I))
    VT = add(VT, mul(preg, I))
    if not csqp:
        Vx = add(Vx, mul(b_not(feas), Vxx, u.pre("fs_", t)))
        vT = add(vT, mul(b_not(feas), VT, u.pre("fs_", T)))
    return dict(Qx=Qx, Qu=Qu, Qxx=Qxx, Quu=Quu, Qxu=Qxu, K=K, k=k, Vx=Vx, Vxx=Vxx, VxT=vT, VxxT=VT)


def check_backward(c, u, csqp=False, aug=False, keep=False):
    w = recursion(c, u, csqp, aug, keep)
    nu = nz(u.pre("M.nu", t))
    rule = "Riccati recursion"
    lab = "%s::%s " % (u.cls, u.name)
    for m in ("Qx", "Qu", "Vx", "k") + (() if keep else ("Qxx", "Quu", "Qxu", "K", "Vxx")):
        if m == "Quu":
            c.eq_under(nu, lab + "Quu[t]", u.val("Quu_", t), w[m], u.where, rule)
            continue
        c.eq(lab + m + "[t]", u.val(m + "_", t), w[m], u.where, rule)
    c.eq(lab + "Vx[T]", u.val("Vx_", T), w["VxT"], u.where, rule)
    if keep:
        for m in ("K_", "Vxx_", "Quu_llt_", "Quu_", "Qxu_", "Qxx_", "Vxx_fs_"):
            r = u.root(m)
            c.check(lab + "keeps " + m, r not in u.res.written(), u.where, "writes %s although the factorisation must be kept" % m, rule=rule)
    else:
        c.eq(lab + "Vxx[T]", u.val("Vxx_", T), w["VxxT"], u.where, rule)
        if csqp and aug:
            c.eq(lab + "Vxx_fs[t]", u.val("Vxx_fs_", t), mul(u.fin("Vxx_", t1), u.pre("fs_", t1)), u.where, rule)
        if csqp:
            c.eq_under(nu, lab + "factorisation", u.val("Quu_llt_", t), w["Quu"], u.where, rule)
    # nothing else of the iterate is touched
    allowed = {"Qx_", "Qu_", "Qxx_", "Quu_", "Qxu_", "K_", "k_", "Vx_", "Vxx_", "Quu_llt_", "Quuk_"}
    for r in sorted(u.res.written()):
        m = r.split("::")[-1]
        bad = r.startswith("D.") or m in ITERATE
        c.check(lab + "does not modify " + m, not bad, u.where, "the backward pass modifies %s" % r, rule="frame")


ITERATE = {"xs_", "us_", "fs_", "xs_try_", "us_try_", "dx_", "du_", "z_", "y_", "rho_vec_", "inv_rho_vec_", "preg_", "dreg_",
           "cost_", "dxtilde_", "dutilde_", "is_feasible_", "sigma_"}


def turn_of(g, sy):
    """the value of the loop variable in the turn for node t"""
    for f in alg.factors(g):
        if f.op == "rd" and f.a[0] == "M.nu" and f.a[1]:
            k, r = alg._affine1(f.a[1][0], sy)
            if k in (1, -1):
                return scale(sub(t, r), k)
    return t


def llt_throws(c, u, w):
    """a node whose control Hessian is not positive definite makes the pass fail"""
    nu = nz(u.pre("M.nu", t))
    want = mul(nu, nz(fn("lltinfo", (w["Quu"],))))
    got = ZERO
    lines = []
    for e in u.E.throws:
        g = e.guard
        if any(f.op == "fn" and f.a[0] == "lltinfo" for f in alg.factors(g)):
            sy = e.loops[-1][1] if e.loops else None
            if sy is not None:
                g = subst(g, {sy: turn_of(g, sy)})
            got = b_or(got, g)
            lines.append(e.l)
    c.eq("%s::%s rejects indefinite control Hessian" % (u.cls, u.name), got, want, lines[0] if lines else u.where, "failure guard")


@prop("P13")
def p13(c):
    for cls in ("SolverDDP", "SolverFDDP", "SolverSQP"):
        u = c.U(cls, "backwardPass", inline=("computeGains",))
        check_backward(c, u)
        llt_throws(c, u, recursion(c, u))
    for m, aug, keep in (("backwardPass", True, False), ("backwardPass_mt", True, False),
                         ("backwardPass_without_constraints", False, False),
                         ("backwardPass_without_rho_update", True, True), ("backwardPass_without_rho_update_mt", True, True)):
        u = c.U("SolverCSQP", m, inline=("computeGains",))
        check_backward(c, u, csqp=True, aug=aug, keep=keep)
        if not keep:
            llt_throws(c, u, recursion(c, u, True, aug, keep))
