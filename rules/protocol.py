"""Rules on the iteration protocol: P07 regularisation, P08 budgets, P16 callbacks, P20 warm start and resets."""
from spec import *
from solve import S, variants, ALL, DDPS
from accept import thrown, line_search, length, refs, nzb
from rollout import param


# ------------------------------------------------------------------ P07
def reg_updates(c):
    rule = "regularisation update"
    for cls in ("SolverDDP",):
        u = c.U(cls, "increaseRegularization")
        p, mx, inc = u.pre("preg_"), u.pre("reg_max_"), u.pre("reg_incfactor_")
        got = u.val("preg_")
        pos = flt(ZERO, p)
        c.eq_under(pos, cls + "::increaseRegularization multiplies and caps", got, smin(mul(p, inc), mx), u.where, rule)
        c.eq(cls + "::increaseRegularization control part", u.val("dreg_"), got, u.where, rule)
        # without a positive value there is nothing to multiply: it has to become positive (or reach the maximum)
        z = split0(got, pos)
        r = smin_const(z, mx)
        c.check(cls + "::increaseRegularization leaves zero", r, u.where, "from a regularisation of zero, the next value is %s" % show(z)[:200], rule=rule)
        u = c.U(cls, "decreaseRegularization")
        p, mn, dec = u.pre("preg_"), u.pre("reg_min_"), u.pre("reg_decfactor_")
        c.eq(cls + "::decreaseRegularization divides and bounds", u.val("preg_"), smax(mul(p, alg.recip(dec)), mn), u.where, rule)
        c.eq(cls + "::decreaseRegularization control part", u.val("dreg_"), u.val("preg_"), u.where, rule)
        for n in ("increaseRegularization", "decreaseRegularization"):
            w = {x.split("::")[-1] for x in c.U(cls, n).res.written()}
            c.check("%s::%s writes only the regularisation" % (cls, n), w <= {"preg_", "dreg_"}, c.U(cls, n).where, "writes %s" % sorted(w), rule="frame")


def split0(p, cond):
    """value of p where the condition does not hold"""
    ap = alg.as_atom(cond)
    return subst(p, {ap[0]: ZERO if ap[1] else ONE}) if ap else mul(b_not(cond), p)


def smin_const(z, mx):
    """z = min(positive constant, mx)"""
    cs = {abs(v) for v in alg.coeffs_deep(z)}
    return any(v > 0 and split_equal(z, smin(const(v), mx)) is None for v in cs)


def at_max(s, e_inc, after):
    """accepted spellings of 'the regularisation has reached its maximum' after the call e_inc"""
    r = s.u.root("preg_")
    s.u.ty(r)
    p = after(s.u.E.read_store(e_inc.post, r, ()))
    m = s.u.pre("reg_max_")
    return [feq(m, p), fle(m, p), b_not(flt(p, m))]


def same_cond(g, cands):
    return next((x for x in cands if g is x or sub(g, x) is ZERO), None)


def exits(E, L):
    """the conditions 'loop L ended through its k-th return' seen anywhere in the function"""
    if L not in E.__dict__.setdefault("exit_atoms", {}):
        es = {f for e in E.events for f in alg.factors(e.guard)}
        for i in E.loopinfo.values():
            for f in i["out"]["r"]:
                es |= set(alg.factors(f.q))
        E.exit_atoms[L] = sorted((f for f in es if f.op == "bfn" and str(f.a[0]).startswith("exit%d." % L)), key=lambda f: f.id)
    return E.exit_atoms[L]


def gates(p):
    return {f for g, _, _ in p.terms for f in g}


def retry(c, s):
    u, lab, rule, E = s.u, s.lab, "retry of a failed direction", s.u.E
    cds = s.inside("computeDirection") + s.after("computeDirection")
    for e in cds:
        depth0 = 1 if e in s.inside("computeDirection") else 0
        if s.opts.get("remove_reg_"):
            c.check(lab + "without regularisation the direction is computed once", len(e.loops) == depth0, e.l, "the direction is retried although nothing changes", rule=rule)
            continue
        if not c.check(lab + "a failed direction is retried", len(e.loops) == depth0 + 1, e.l, "no retry loop around the direction", rule=rule):
            continue
        L = e.loops[-1][0]
        i = E.loopinfo[L]
        th = thrown(s, e)
        if th is None and not i["out"]["t"] and i["out"]["n"] is None:
            c.ok(lab + "the direction has no failing path of its own", e.l, rule)
            continue
        if not c.check(lab + "a failed direction is caught", th is not None and not i["out"]["t"], e.l, "an exception of the direction escapes", rule=rule):
            continue
        incs = [x for x in u.evs("increaseRegularization") if x.loops and x.loops[-1][0] == L]
        c.eq(lab + "regularisation grows exactly after a failure", e.r(s.guard(incs)), e.r(th), e.l, rule)
        if len(incs) != 1:
            continue
        ms = at_max(s, incs[0], e.r)
        # a return from a helper of solve can also end the retries with a direction
        late = [x for x in u.evs("checkKKTConditions", "tryStep") if E.events.index(x) > E.events.index(e) and len(x.loops) <= depth0 + 1
                and (not depth0 or x.loops and x.loops[0][0] == s.L0)]
        up, on = [], []
        for k, f in enumerate(i["out"]["r"]):
            def taken(q, k=k):
                """q where the loop ended through this return (None if q does not depend on how it ended)"""
                own = [x for x in exits(E, L) if x in gates(q)]
                for x in own:
                    q = cofactor(q, x, x.a[0] == "exit%d.%d" % (L, k + 1))
                return q if own else None
            goes_on = any(taken(y.guard) not in (None, ZERO) for y in late)
            (on if goes_on else up).append((f, taken))
        rq = e.r(add(ZERO, *[f.q for f, _ in up]))
        nq = e.r(i["out"]["n"][0]) if i["out"]["n"] else ZERO
        bq = e.r(add(ZERO, *[f.q for f in i["out"]["b"]], *[f.q for f, _ in on]))
        m = same_cond(rq, [mul(th, x) for x in ms])
        c.check(lab + "gives up exactly at the maximal regularisation", m is not None, e.l, "gives up under %s" % show(rq)[:300], rule=rule)
        c.eq(lab + "retries exactly below the maximal regularisation", add(nq, rq), th, e.l, rule)
        c.eq(lab + "ends with the first success", bq, b_not(th), e.l, rule)
        for f, taken in up:
            v = f.val
            if i["frame"] > s.info["frame"]:
                # of a helper: what solve makes of it
                v = ZERO
                for g in u.res.flows if not depth0 else ():
                    q = g.q
                    for x in exits(E, s.L0):
                        q = cofactor(q, x, False)
                    q = taken(q)
                    if q is not None and q is not ZERO and g.val is not ZERO:
                        v = g.val if isinstance(g.val, Poly) else None
                if depth0:
                    v = [g.val for g in s.info["out"]["r"] if taken(g.q) not in (None, ZERO)]
                    v = v[0] if len(v) == 1 else None
            c.eq(lab + "giving up reports failure", v if isinstance(v, Poly) else const(-1), ZERO, f.l or e.l, rule)
        ok = i["flagc"] is ONE
        if not ok and s.cls == "SolverCSQP":
            r = u.root("max_solve_time_reached_")
            u.ty(r)
            tl = E.read_store(i["s0"].s, r, ())
            ok = i["flagc"] is b_not(nzb(tl)) or sub(i["flagc"], b_not(nzb(tl))) is ZERO
        c.check(lab + "retry loop has no other end", ok, i["l"], "the retry loop also ends under %s" % show(b_not(i["flagc"]))[:200], rule=rule)
        if i["out"]["n"]:
            for mm in ("preg_", "dreg_"):
                r = u.root(mm)
                u.ty(r)
                c.eq(lab + "%s kept between attempts" % mm, sub(e.r(E.read_store(i["out"]["n"][1].s, r, ())), e.r(E.read_store(incs[0].post, r, ()))), ZERO, e.l, rule)
        if depth0:
            for mm in ("preg_", "dreg_"):
                r = u.root(mm)
                u.ty(r)
                c.eq(lab + "%s carried over to the next direction" % mm, sub(E.read_store(i["entry"].s, r, ()), E.read_store(s.info["s0"].s, r, ())), ZERO, i["l"], rule)


def adapt(c, s):
    """regularisation after the line search"""
    u, lab, rule, E = s.u, s.lab, "regularisation after the line search", s.u.E
    decs = [e for e in s.inside("decreaseRegularization") if len(e.loops) == 1]
    incs = [e for e in s.inside("increaseRegularization") if len(e.loops) == 1]
    other = [e for e in u.evs("decreaseRegularization") if e not in decs]
    c.check(lab + "regularisation only shrinks after a line search", not other, other[0].l if other else s.w, "another call shrinks it", rule=rule)
    if s.opts.get("remove_reg_"):
        c.check(lab + "regularisation stays off", not decs and not incs, s.w, "regularisation is adapted although it is removed", rule=rule)
        return
    if not (c.check(lab + "regularisation shrinks after good steps", len(decs) == 1, s.w, "%d calls" % len(decs), rule=rule)
            and c.check(lab + "regularisation grows after poor steps", len(incs) == 1, s.w, "%d calls" % len(incs), rule=rule)):
        return
    r = line_search(c, s)
    if r is None:
        return
    d, i = decs[0], incs[0]
    ctx = s.ls["ctx"]
    reach = ctx
    if s.cls == "SolverCSQP":
        reach = mul(ctx, alg.any_over(r[0], sole_factor(s.i1), ZERO, s.ls["hi"]))
    sl = s.at(d, "steplength_")
    c.eq(lab + "judged by the same step length", sub(sl, s.at(i, "steplength_")), ZERO, i.l, rule)
    rr = u.root("steplength_")
    u.ty(rr)
    c.check(lab + "judged by the last step length tried", sub(sl, E.read_store(s.ls["entry"].s, rr, ())) is not ZERO, d.l, "the step length judged is not set by the line search", rule=rule)
    good = flt(u.pre("th_stepdec_"), sl)
    c.eq(lab + "shrinks exactly after a step length above the threshold", d.guard, mul(reach, good), d.l, rule)
    poor = b_not(good) if s.cls == "SolverCSQP" else fle(sl, u.pre("th_stepinc_"))
    c.eq(lab + "grows exactly after a step length below the threshold", i.guard, mul(reach, poor), i.l, rule)
    ms = at_max(s, i, lambda p: p)
    rets = [e for e in s.inside("return") if len(e.loops) == 1 and s.pos(e) > s.pos(i)]
    c.check(lab + "gives up at the maximal regularisation", len(rets) == 1 and rets[0].args and rets[0].arg(0) is ZERO
            and same_cond(rets[0].guard, [mul(i.guard, x) for x in ms]) is not None, i.l,
            "after growing, the solve ends under %s" % [show(e.guard)[:300] for e in rets], rule=rule)


@prop("P07")
def p07(c):
    reg_updates(c)
    for s in variants(c, *ALL):
        retry(c, s)
        adapt(c, s)


# ------------------------------------------------------------------ P08
@prop("P08")
def p08(c):
    rule = "iteration budget"
    for s in variants(c, *ALL):
        u, lab, E = s.u, s.lab, s.u.E
        i = s.info
        mi = next((k for k, x in enumerate(s.u.f["params"]) if x.get("n") == "maxiter"), 2) if "params" in s.u.f else 2
        c.eq(lab + "iterations counted from zero", i["lo"] if isinstance(i["lo"], Poly) else const(-1), ZERO, i["l"], rule)
        c.eq(lab + "at most maxiter iterations", i["hi"] if isinstance(i["hi"], Poly) else const(-1), param(u, 2), i["l"], rule)
        c.check(lab + "iteration counter is reported", i["prim"] is not None and i["prim"][0] == "SolverAbstract::iter_" and i["prim"][2] == 1
                or counter_ok(s), i["l"], "iter_ does not count the iterations", rule=rule)
        for e in s.inside("tryStep"):
            c.check(lab + "one line search per iteration", len(e.loops) == 2, e.l, "the line search is nested %d loops deep" % len(e.loops), rule=rule)
        if s.cls == "SolverCSQP":
            timed(c, s)
        # no iterations: the warm start is what the solver holds
        z = [e for e in u.evs("setCandidate") if not e.loops]
        c.check(lab + "the candidate is set once before the iterations", len(z) == 1 and s.pos(z[0]) < min(s.pos(e) for e in u.E.events if e.loops), s.w,
                "%d calls outside the iterations" % len(z), rule=rule)


def counter_ok(s):
    r = s.u.root("iter_")
    s.u.ty(r)
    v = s.u.E.read_store(s.ls["entry"].s, r, ())
    return v is s.i0


def timed(c, s):
    from admm import clock_atoms
    u, lab, rule, E = s.u, s.lab, "time budget", s.u.E
    i = s.info
    bs = [f for f in i["out"]["b"]]
    starts = []
    ok = False
    for f in bs:
        ats = clock_atoms(f.q, u)
        if f.q is not ZERO and len(ats) == 1 and (f.q is fpoly(ats[0]) or sub(f.q, fpoly(ats[0])) is ZERO):
            ok = True
            over = fpoly(ats[0])
            r = u.root("max_solve_time_reached_")
            u.ty(r)
            c.eq_under(over, lab + "a time-out at the start of an iteration is recorded", nzb(E.read_store(f.st.s, r, ())), ONE, f.l or i["l"], rule)
            clk = [x for x in alg.factors(over) if x.op == "rd" and x.a[0] == "clock"]
            now = [x for x in clk if depends(fpoly(x), i["isym"])]
            ini = [x for x in clk if not depends(fpoly(x), i["isym"])]
            if c.check(lab + "time is taken at the start of the solve and of the iteration", len(now) == 1 and len(ini) == 1, i["l"], "clock readings: %s" % show(over), rule=rule):
                c.eq(lab + "time budget condition", over, fle(u.pre("max_solve_time_"), sub(fpoly(now[0]), fpoly(ini[0]))), i["l"], rule)
                r = u.root("start_time_")
                u.ty(r)
                for e in s.inside("computeDirection")[:1]:
                    c.eq(lab + "the QP loop gets the same start time", s.at(e, "start_time_"), fpoly(ini[0]), e.l, rule)
            for x in s.inside("calc", "computeDirection", "checkKKTConditions"):
                if len(x.loops) <= 2:
                    c.eq(lab + "no work after a time-out: " + x.name, mul(x.guard if len(x.loops) == 1 else mul(E.loopinfo[x.loops[1][0]]["ctx"], x.guard), over), ZERO, x.l, rule)
    c.check(lab + "every iteration first checks the time budget", ok, i["l"], "no exit of the iteration loop depends on the time alone", rule=rule)
    r = u.root("max_solve_time_reached_")
    u.ty(r)
    c.eq(lab + "time-out flag cleared at the start", nzb(E.read_store(i["entry"].s, r, ())), ZERO, i["l"], rule)
    for x in s.after("calc", "computeDirection", "checkKKTConditions"):
        pass


# ------------------------------------------------------------------ P16
@prop("P16")
def p16(c):
    rule = "callbacks"
    for s in variants(c, *ALL):
        u, lab, E = s.u, s.lab, s.u.E
        if s.cls == "SolverPROXQP":
            continue
        cbs = u.evs("call:opaque")
        if not c.check(lab + "callbacks are invoked", bool(cbs), s.w, "no callback is invoked", rule=rule):
            continue
        cks = {}
        for e in cbs:
            L = e.loops[-1][0]
            i = E.loopinfo[L]
            c.eq(lab + "every callback is invoked", e.guard, ONE, e.l, rule)
            c.eq(lab + "callbacks from the first", i["lo"] if isinstance(i["lo"], Poly) else const(-1), ZERO, i["l"], rule)
            c.eq(lab + "callbacks up to the last", i["hi"] if isinstance(i["hi"], Poly) else const(-1), length(u, "callbacks_"), i["l"], rule)
            c.check(lab + "no callback is skipped", not i["out"]["b"] and not i["out"]["r"] and i["flagc"] is ONE, i["l"], "the callback loop ends early", rule=rule)
            cks[L] = (i, e)
        name = "stoppingCriteria" if s.cls in DDPS else "checkKKTConditions"
        ks = [e for e in u.evs(name) if len(e.loops) <= 1]
        used = set()
        for k in ks:
            near = [(L, i, e) for L, (i, e) in cks.items() if [x[0] for x in e.loops[:-1]] == [x[0] for x in k.loops]]
            if not c.check(lab + "callbacks follow every evaluated iterate", len(near) == 1, k.l, "%d callback rounds after this evaluation" % len(near), rule=rule):
                continue
            L, i, e = near[0]
            used.add(L)
            c.check(lab + "callbacks see the finished evaluation", s.pos(k) < s.pos(e), e.l, "callbacks run before the evaluation", rule=rule)
            c.eq(lab + "callbacks run exactly once per evaluated iterate", i["ctx"], k.guard, e.l, rule)
            d = [m for m in ("xs_", "us_", "cost_", "KKT_", "stop_") if not sub_zero(s, k, e, m)]
            c.check(lab + "callbacks see the evaluated state", not d, e.l, "between evaluation and callbacks %s change" % d, rule=rule)
        c.check(lab + "no further callback rounds", used == set(cks), s.w, "callbacks also run elsewhere", rule=rule)


def sub_zero(s, k, e, m):
    r = s.u.root(m)
    s.u.ty(r)
    ix = (t,) if m in ("xs_", "us_") else ()
    a, b = e.r(k.r(s.u.E.read_store(k.post, r, ix))), e.read(r, ix)
    return a is b or (isinstance(a, Poly) and isinstance(b, Poly) and sub(a, b) is ZERO)


# ------------------------------------------------------------------ P20
@prop("P20")
def p20(c):
    rule = "warm start"
    for s in variants(c, *ALL):
        u, lab, E = s.u, s.lab, s.u.E
        rz = u.evs("resizeData")
        upd = None
        if c.check(lab + "buffers are resized for a changed problem", len(rz) == 1 and not rz[0].loops, s.w, "%d calls of resizeData" % len(rz), rule=rule):
            c.check(lab + "buffers are resized first", s.pos(rz[0]) == min(s.pos(e) for e in u.E.events), rz[0].l, "another step comes before", rule=rule)
            f = [x for x in alg.factors(rz[0].guard)]
            c.check(lab + "resized exactly if the problem was updated", len(gatoms(rz[0].guard)) == 1 and "problem_updated" in show(rz[0].guard) and show(rz[0].guard).startswith("["),
                    rz[0].l, "resized under %s" % show(rz[0].guard)[:200], rule=rule)
        sc = [e for e in u.evs("setCandidate") if not e.loops]
        if c.check(lab + "the warm start is taken over", len(sc) == 1, s.w, "%d calls of setCandidate before the iterations" % len(sc), rule=rule):
            e = sc[0]
            a = refs(u, e.args[:2])
            c.check(lab + "the warm start is what the caller passed", a == ("p:init_xs", "p:init_us") or argnames(u, e), e.l, "the candidate is %s" % (a,), rule=rule)
            c.eq(lab + "the warm start is always taken over", e.guard, ONE, e.l, rule)
            fl = nzb(param(u, 3)) if s.cls in DDPS else ZERO
            c.eq(lab + "feasibility of the warm start", nzb(e.arg(2)), fl, e.l, rule)
        en = s.info["entry"].s
        for m in ("preg_", "dreg_"):
            r = u.root(m)
            u.ty(r)
            got = E.read_store(en, r, ())
            if s.opts.get("remove_reg_"):
                c.eq(lab + m + " starts at zero without regularisation", got, ZERO, s.info["l"], "initial regularisation")
            else:
                ri = param(u, 4)
                c.eq(lab + m + " starts at the requested or minimal value", got, ite(bfn("isnan", ri), u.pre("reg_min_"), ri), s.info["l"], "initial regularisation")
        if s.cls == "SolverCSQP":
            rs = u.evs("reset_rho_vec")
            pre = [e for e in rs if not e.loops]
            ins = [e for e in rs if e.loops]
            c.check(lab + "penalties are reset at the first iteration", len(ins) == 1 and len(ins[0].loops) == 1, s.w, "%d calls" % len(ins), rule="penalty reset")
            if len(ins) == 1:
                e = ins[0]
                cal = [x for x in s.inside("calc") if len(x.loops) == 1]
                g0 = s.guard(cal)
                c.eq(lab + "penalties are reset exactly at the first iteration of a solve", e.guard,
                     mul(g0, b_not(nz(s.i0)), b_not(nzb(u.pre("reset_rho_")))), e.l, "penalty reset")
                c.check(lab + "penalties are reset after the bounds are evaluated", bool(cal) and s.pos(cal[0]) < s.pos(e)
                        and all(s.pos(e) < s.pos(x) for x in s.inside("computeDirection")), e.l, "the reset does not lie between evaluation and QP", rule="penalty reset")


def argnames(u, e):
    ps = u.f.get("params") or []
    names = [("p:" + x.get("n", "?")) for x in ps[:2]]
    return refs(u, e.args[:2]) == tuple(names)
