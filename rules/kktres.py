"""P02: the reported optimality residual is the infinity norm of every KKT condition at the current point."""
from spec import *


def lagrangian(u, lam, y=None, first=True):
    D = lambda f, i: u.pre("D." + f, i)
    Lx = sub(add(D("Lx", t), mul(transpose(D("Fx", t)), lam(t1))), lam(t))
    Lu = add(D("Lu", t), mul(transpose(D("Fu", t)), lam(t1)))
    LT = sub(D("Lx", T), lam(T))
    if y is not None:
        Lx = add(Lx, mul(nz(t) if first else ONE, transpose(D("Gx", t)), y(t)))
        Lu = add(Lu, mul(transpose(D("Gu", t)), y(t)))
        LT = add(LT, mul(transpose(D("Gx", T)), y(T)))
    return Lx, Lu, LT


def residual(u, lam, y, fs, cn, first=True):
    Lx, Lu, LT = lagrangian(u, lam, y, first)
    parts = [ZERO, maxt(ninf(Lu)), ninf(LT), maxt(ninf(fs(t1)))]
    if first:
        parts += [maxt(ninf(Lx)), ninf(fs(ZERO))]
    else:
        parts += [maxt(ninf(Lx), ONE)]
    if cn is not None:
        parts.append(cn)
    return smax(*parts)


@prop("P02")
def p02(c):
    rule = "KKT residual formula"
    for cls in ("SolverDDP", "SolverFDDP", "SolverSQP", "SolverCSQP", "SolverPROXQP"):
        u = c.U(cls, "checkKKTConditions")
        fs = lambda i: u.pre("fs_", i)
        lam = lambda i: u.pre("lag_mul_", i)
        lab = cls + " residual"
        if cls in ("SolverDDP", "SolverFDDP", "SolverSQP"):
            want = residual(u, lam, None, fs, None)
        elif cls == "SolverCSQP":
            lam = lambda i: add(u.pre("Vx_", i), mul(u.pre("Vxx_", i), u.pre("dxtilde_", i)))
            for i in (t, T):
                c.eq(cls + " multiplier[%s]" % show(i), u.val("lag_mul_", i), lam(i), u.where, rule)
            want = residual(u, lam, lambda i: u.pre("y_", i), fs, u.pre("constraint_norm_"))
            X, U = u.pre("dxtilde_", t), u.pre("dutilde_", t)
            c.eq(cls + " state step measure", u.val("x_grad_norm_"), mul(add(sumt(n1(X)), n1(u.pre("dxtilde_", T))), recip(T1)), u.where, rule)
            c.eq(cls + " control step measure", u.val("u_grad_norm_"), mul(sumt(n1(U)), recip(T)), u.where, rule)
        else:
            want = residual(u, lam, lambda i: u.pre("y_", i), fs, u.pre("constraint_norm_"), first=False)
        c.eq(lab, u.val("KKT_"), want, u.where, rule)
        for r in sorted(u.res.written()):
            m = r.split("::")[-1]
            c.check(cls + " residual evaluation does not modify " + m, m not in FRAME and not r.startswith("D."), u.where,
                    "evaluating the residual modifies %s" % r, rule="frame")


FRAME = {"xs_", "us_", "fs_", "xs_try_", "us_try_", "dx_", "du_", "z_", "y_", "Vx_", "Vxx_", "cost_", "constraint_norm_", "gap_norm_",
         "dxtilde_", "dutilde_", "preg_", "dreg_", "is_feasible_", "merit_"}
