"""P06: failed evaluations are detected, contained and leave the iterate alone."""
from spec import *
from solve import S, variants, ALL, DDPS
from accept import thrown, line_search
from rollout import param

FRAME = ("xs_", "us_", "K_", "k_", "Vxx_", "Vx_", "Quu_", "Qu_", "lag_mul_", "fs_", "cost_", "gap_norm_", "constraint_norm_", "merit_", "preg_", "dreg_",
         "steplength_", "KKT_", "y_", "z_", "rho_vec_", "inv_rho_vec_", "du_", "dxtilde_", "dutilde_", "is_feasible_")


def nan(p):
    return bfn("nanormax", p)


def step_range(c, u, lab, a, ths):
    g = b_or(flt(ONE, a), flt(a, ZERO))
    of = [x for x in ths if not x.loops and isinstance(x.guard, Poly) and gatoms(x.guard) and gatoms(x.guard) <= gatoms(g)]
    got = ZERO
    for x in of:
        got = b_or(got, x.guard)
    ok = bool(of) and (got is g or sub(got, g) is ZERO)
    c.check(lab + "step lengths outside [0,1] are refused", ok, u.where, "no refusal under exactly %s" % show(g), rule="step length range")
    return [x for x in ths if not ok or x not in of]


def trial(c, cls, name):
    u = c.U(cls, name)
    lab = "%s::%s " % (cls, name)
    rule = "failed evaluation detected"
    ths = step_range(c, u, lab, param(u, 0), list(u.E.throws))
    last = [x for x in ths if not x.loops]
    tot = u.val("cost_try_")
    got = ZERO
    for x in last:
        got = add(got, x.guard)
    if cls == "SolverFDDP":
        F, A = sole_factor(u.pre("is_feasible_")), sole_factor(feq(param(u, 0), ONE))
        for k, v in cases(tot, [F, A]):
            w = got
            for at, b in k:
                w = cofactor(w, at, b)
            c.eq(lab + "fails if the trial cost is not finite" + "".join(" %d" % b for _, b in k), w, nan(v), u.where, rule)
    else:
        c.eq(lab + "fails if the trial cost is not finite", got, nan(tot), u.where, rule)
    loops = {}
    for x in ths:
        if x.loops:
            loops.setdefault(x.loops[-1][0], []).append(x)
    need = 0
    tested = []
    for L, l in loops.items():
        i = u.E.loopinfo[L]
        sy = fpoly(i["isym"])
        st_seen = ZERO
        every = ZERO
        for x in l:
            every = b_or(every, x.guard)
            c.check(lab + "failures are raised per node", len(x.loops) == 1, x.l, "raised from a nested loop", rule=rule)
            cst = u.at(x, "cost_try_")
            if x.guard is nan(cst) or sub(x.guard, nan(cst)) is ZERO:
                c.ok(lab + "partial cost is not finite", x.l, rule)
                continue
            # tests of single values: they may only fire for values that are not finite
            only = all((f.op == "bfn" and f.a[0] == "nanormax") or f in alg.factors(nz(u.pre("M.nu", sy))) for f in gatoms(x.guard))
            if only and cofactor_all(x.guard) is ZERO:
                c.ok(lab + "fails only for values that are not finite", x.l, rule)
            else:
                c.eq(lab + "fails only for values that are not finite", x.guard, nan(cst), x.l, rule)
        if cls in DDPS:
            r = mul(nan(ninf(u.at(l[-1], "D.xnext", sy))), b_not(every))
            if split_equal(r, ZERO) is None:
                st_seen = ONE
                tested.append(L)
                c.ok(lab + "fails if the next state is not finite", l[-1].l, rule)
            elif c.opaque(every):
                c.undecided(lab + "fails if the next state is not finite", "the test is not understood: %s" % c.opaque(every))
        if st_seen is ONE:
            c.check(lab + "every next state is tested", i["lo"] is ZERO and i["hi"] is TSYM, i["l"], "the test covers only part of the nodes", rule=rule)
            need += 1
    if cls in DDPS:
        want = 1 if cls == "SolverDDP" else 2
        k = [L for L in u.E.loopinfo if any(e.loops and e.loops[-1][0] == L for e in u.evs("model.calc", "calc"))]
        c.check(lab + "next states are tested", need >= 1, u.where, "a next state that is not finite is not detected", rule=rule)
        got = add(ZERO, *[u.E.loopinfo[L]["ctx"] for L in tested])
        c.eq(lab + "next states are tested on every path", got, ONE, u.where, rule)


def cofactor_all(p):
    """p when every tested value is finite"""
    for f in [f for f in gatoms(p) if (f.op == "bfn" and f.a[0] == "nanormax")]:
        p = cofactor(p, f, False)
    return p


def frame(c, cls):
    for name in ("tryStep",) + (("forwardPass",) if cls in DDPS else ()):
        u = c.U(cls, name)
        w = {x.split("::")[-1] for x in u.res.written()}
        bad = sorted(w & (set(FRAME) - ({"lag_mul_"} if cls in DDPS else set())))
        c.check("%s::%s leaves the iterate, the direction and its data alone" % (cls, name), not bad, u.where, "a trial changes %s" % bad, rule="frame")


def backward(c):
    u = c.U("SolverDDP", "backwardPass", inline=("computeGains",))
    lab, rule = "SolverDDP::backwardPass ", "failed direction detected"
    left = []
    for x in u.E.throws:
        if "lltinfo" in show(x.guard) and "nanormax" not in show(x.guard):
            continue
        left.append(x)
        if cofactor_all(x.guard) is ZERO:
            c.ok(lab + "fails only for values that are not finite", x.l, rule)
        else:
            c.eq(lab + "fails only for values that are not finite", x.guard, nan(ninf(u.at(x, "Vx_", t))), x.l, rule)
    for m in ("Vx_", "Vxx_"):
        ok = False
        for x in left:
            if len(x.loops) != 1:
                continue
            i = u.E.loopinfo[x.loops[0][0]]
            at = {q for f in alg.factors(x.guard) if f.op == "rd" and isinstance(f.a[1], tuple) for q in f.a[1][:1] if isinstance(q, Poly)}
            for idx in {t} | at | {sub(q, ONE) for q in at}:
                g = nan(ninf(u.at(x, m, idx)))
                if x.guard is g or sub(x.guard, g) is ZERO or split_equal(x.guard, g) is None:
                    ok = True
                    c.check(lab + "%s final when tested" % m, True, x.l, "", rule=rule)
        c.check(lab + "fails if %s is not finite" % m, ok, u.where, "a %s that is not finite is not detected" % m, rule=rule)


@prop("P06")
def p06(c):
    for cls in ALL:
        if cls in DDPS:
            trial(c, cls, "forwardPass")
        else:
            trial(c, cls, "tryStep")
        frame(c, cls)
    backward(c)
    for s in variants(c, *ALL):
        u, lab, rule = s.u, s.lab, "failure contained"
        if s.opts.get("remove_reg_"):
            continue
        line_search(c, s)
        for L, i in u.E.loopinfo.items():
            c.check(lab + "no failure leaves a loop", not i["out"]["t"], i["l"], "an exception escapes from the loop", rule=rule)
        c.check(lab + "no failure is raised by the solve itself", not u.E.throws, u.E.throws[0].l if u.E.throws else s.w, "solve raises an exception", rule=rule)
        for e in u.evs("computeDirection"):
            u2 = c.U(s.cls, "computeDirection")
            w = {x.split("::")[-1] for x in u2.res.written()}
            bad = sorted(w & {"xs_", "us_", "preg_", "dreg_", "steplength_", "is_feasible_"})
            c.check(lab + "a direction leaves the iterate alone", not bad, e.l, "computing a direction changes %s" % bad, rule="frame")
            break
