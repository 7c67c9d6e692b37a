"""P04 (filter / merit acceptance), P21 (expected improvement acceptance) and P06 (failed evaluations) of the line searches."""
from spec import *
from solve import S, variants, ALL, DDPS

LISTS = {"SolverFDDP": (("cost_list_", "cost_"), ("gap_list_", "gap_norm_")),
         "SolverSQP": (("cost_list_", "cost_"), ("gap_list_", "gap_norm_")),
         "SolverCSQP": (("cost_list_", "cost_"), ("gap_list_", "gap_norm_"), ("constraint_list_", "constraint_norm_")),
         "SolverPROXQP": (("cost_list_", "cost_"), ("gap_list_", "gap_norm_"), ("constraint_list_", "constraint_norm_"))}
TRY = {"cost_": "cost_try_", "gap_norm_": "gap_norm_try_", "constraint_norm_": "constraint_norm_try_"}


def thrown(s, e):
    """condition 'this call failed', as it occurs in the guards after it"""
    for x in s.u.E.events + s.u.E.throws:
        for f in alg.factors(x.guard):
            if f.op == "b":
                f = f.a[0]
            if f.op == "rd" and f.a[0] == "threw:" + e.name and isinstance(f.a[2], tuple) and tuple(f.a[2][1:3]) == e.ver:
                return alg.nz(fpoly(f)) if f.kind != "b" else fpoly(f)
    for i in s.u.E.loopinfo.values():
        for k in "nbrt":
            l = i["out"][k]
            for q in ([l[0]] if k == "n" and l else [x.q for x in l] if k != "n" else []):
                for f in alg.factors(q):
                    if f.op == "b":
                        f = f.a[0]
                    if f.op == "rd" and f.a[0] == "threw:" + e.name and isinstance(f.a[2], tuple) and tuple(f.a[2][1:3]) == e.ver:
                        return alg.nz(fpoly(f)) if f.kind != "b" else fpoly(f)
    return None


def line_search(c, s):
    """shape of the line search shared by all solvers; returns (acceptance guard, failed-condition)"""
    u, lab, rule = s.u, s.lab, "line search protocol"
    E = u.E
    if not c.check(lab + "one trial evaluation", len(s.tr) == 1, s.w, "%d trial evaluations" % len(s.tr), rule=rule):
        return None
    e = s.tr[0]
    c.eq(lab + "trial evaluated for every step length", e.guard, ONE, e.l, rule)
    c.eq(lab + "step lengths tried in order", e.arg(0), u.pre("alphas_", s.i1), e.l, rule)
    c.eq(lab + "step lengths tried from the first", s.ls["lo"] if isinstance(s.ls["lo"], Poly) else const(-1), ZERO, s.ls["l"], rule)
    c.eq(lab + "step lengths tried up to the last", s.ls["hi"] if isinstance(s.ls["hi"], Poly) else const(-1), length(u, "alphas_"), s.ls["l"], rule)
    c.eq(lab + "line search has no other end", s.ls["flagc"], ONE, s.ls["l"], rule)
    th = thrown(s, e)
    if not c.check(lab + "a failed trial is caught", th is not None and not s.ls["out"]["t"], e.l, "an exception of a trial step escapes the line search", rule="failed trial"):
        return None
    sets = [x for x in s.inside("setCandidate") if len(x.loops) >= 2 and x.loops[1][0] == s.LS]
    other = [x for x in s.inside("setCandidate") if x not in sets]
    c.check(lab + "the iterate is only replaced by the line search", not other, other[0].l if other else s.w, "another call replaces the iterate", rule=rule)
    if not c.check(lab + "steps are accepted", bool(sets), s.w, "no accepted step replaces the iterate", rule=rule):
        return None
    G = add(ZERO, *[x.guard for x in sets])
    for x in sets:
        c.check(lab + "accepting takes the trial point over", refs(u, x.args[:2]) == ("xs_try_", "us_try_"), x.l,
                "the accepted candidate is %s" % (refs(u, x.args[:2]),), rule=rule)
        for m, i in (("xs_try_", t), ("xs_try_", T), ("us_try_", t), ("xs_", t), ("us_", t)):
            r = u.root(m)
            u.ty(r)
            a, b = x.read(r, (i,)), x.r(e.r(E.read_store(e.post, r, (i,))))
            c.check(lab + "%s unchanged between evaluation and acceptance" % m, a is b or sub(a, b) is ZERO, x.l,
                    "%s is changed between the evaluation of the trial and its acceptance" % m, rule=rule)
        c.eq(lab + "recorded step length", s.at(x, "steplength_"), u.pre("alphas_", s.i1), x.l, "recorded step length")
    c.eq(lab + "the search ends exactly with an accepted step", e.r(add(ZERO, *[f.q for f in s.ls["out"]["b"]], *[f.q for f in s.ls["out"]["r"]])), G, s.ls["l"], rule)
    n = s.ls["out"]["n"]
    if n is not None:
        r = u.root("steplength_")
        u.ty(r)
        c.eq_under(b_not(th), lab + "recorded step length of a rejected step", E.read_store(n[1].s, r, ()), u.pre("alphas_", s.i1), s.ls["l"], "recorded step length")
        c.eq_under(th, lab + "recorded step length of a failed step", E.read_store(n[1].s, r, ()), u.pre("alphas_", s.i1), s.ls["l"], "recorded step length")
        for m, i in (("xs_", t), ("xs_", T), ("us_", t)):
            rr = u.root(m)
            u.ty(rr)
            c.eq(lab + "a rejected step keeps %s[%s]" % (m, show(i)), sub(E.read_store(n[1].s, rr, (i,)), E.read_store(s.ls["s0"].s, rr, (i,))), ZERO, s.ls["l"], rule)
    return G, th, sets, e


def length(u, m):
    r = u.root(m)
    return u.E.length(sem.Ref(r, (), None))


def refs(u, args):
    out = []
    for a in args:
        f = sole_factor(a) if isinstance(a, Poly) else None
        s = show(a) if isinstance(a, Poly) else str(a)
        out.append(s.replace("[]", "").replace("&", "").split("::")[-1])
    return tuple(out)


def current(s, m):
    """value of a measure of the current point when the line search starts"""
    r = s.u.root(m)
    s.u.ty(r)
    return s.u.E.read_store(s.ls["entry"].s, r, ())


@prop("P04")
def p04(c):
    for s in variants(c, "SolverFDDP", "SolverSQP", "SolverCSQP", "SolverPROXQP", pick=lambda o: "use_filter_line_search_" in o):
        filt = s.opts["use_filter_line_search_"]
        if s.cls == "SolverFDDP" and not filt:
            continue
        r = line_search(c, s)
        if r is None:
            continue
        G, th, sets, e = r
        u, lab, E = s.u, s.lab, s.u.E
        x = sets[0]
        if filt:
            rule = "filter acceptance"
            fs = u.pre("filter_size_")
            iF = mkF("sym", ("i#flt",), "s")
            i = fpoly(iF)
            dom = ONE
            for lst, m in LISTS[s.cls]:
                rt = u.root(lst)
                u.ty(rt)
                hist = E.read_store(s.info["s0"].s, rt, ())
                cur = current(s, m)
                c.eq(lab + "history of %s gets the current value" % m, current(s, lst), fn("push", (hist, cur), lkind(current(s, lst))), s.ls["l"], rule)
                pushed = fn("push", (hist, cur), lkind(current(s, lst)))
                dom = mul(dom, fle(fn("cbget", (pushed, add(fs, neg(ONE), neg(i)))), s.at(x, TRY[m])))
            bad = alg.any_over(dom, iF, ZERO, smin(add(s.i0, ONE), fs))
            c.eq(lab + "accepted iff evaluated and not dominated by a recent iterate", G, mul(b_not(th), b_not(bad)), x.l, rule)
        else:
            rule = "merit acceptance"
            c.eq(lab + "accepted iff evaluated and the merit decreases", G, mul(b_not(th), flt(s.at(x, "merit_try_"), current(s, "merit_"))), x.l, rule)
            c.check(lab + "compared merit is this trial's", s.src(s.at(x, "merit_try_")) == e.ver, x.l, "the merit compared is %s" % show(s.at(x, "merit_try_"))[:200], rule=rule)
        for m in list(TRY.values())[: (2 if s.cls in ("SolverSQP", "SolverFDDP") else 3)] if filt else []:
            c.check(lab + "compared %s is this trial's" % m, s.src(s.at(x, m)) == e.ver, x.l, "the %s compared is %s" % (m, show(s.at(x, m))[:200]), rule=rule)
        for a in sets:
            c.eq(lab + "an accepted step is not declared feasible", a.arg(2), ZERO, a.l, rule)
        if s.cls == "SolverCSQP":
            found = alg.any_over(G, sole_factor(s.i1), ZERO, s.ls["hi"])
            n = s.info["out"]["n"]
            c.eq(lab + "the iterations end when no step is accepted", mul(n[0], b_not(found)) if n else ZERO, ZERO, s.info["l"], rule)


def lkind(p):
    f = sole_factor(p) if isinstance(p, Poly) else None
    return f.kind if f is not None else "s"


@prop("P21")
def p21(c):
    rule = "expected improvement acceptance"
    for s in variants(c, "SolverDDP", "SolverFDDP", pick=lambda o: not o.get("use_filter_line_search_")):
        r = line_search(c, s)
        if r is None:
            continue
        G, th, sets, e = r
        u, lab = s.u, s.lab
        x = sets[0]
        a = u.pre("alphas_", s.i1)
        d0, d1, dV = s.at(x, "d_", ZERO), s.at(x, "d_", ONE), s.at(x, "dV_")
        c.check(lab + "improvement of this trial", s.src(dV) is not None and s.src(dV)[0].startswith("tryStep") and s.src(dV)[1] == e.ver[1], x.l,
                "the improvement tested is %s" % show(dV)[:200], rule=rule)
        srcs = {s.src(d0), s.src(d1)}
        c.check(lab + "model of this iteration's direction", len(srcs) == 1 and None not in srcs and list(srcs)[0][0] == "expectedImprovement", x.l,
                "the predicted improvement comes from %s" % (sorted(map(str, srcs)),), rule=rule)
        dx = mul(a, add(d0, scale(mul(a, d1), alg.Fraction(1, 2))))
        desc = fle(ZERO, dx)
        ok = flt(mul(u.pre("th_acceptstep_"), dx), dV)
        small = flt(d0, u.pre("th_grad_"))
        feas = s.at(e, "is_feasible_")
        if s.cls == "SolverDDP":
            want = mul(desc, b_or(small, b_not(nzb(feas)), ok))
        else:
            want = ite(desc, b_or(small, ok), flt(mul(u.pre("th_acceptnegstep_"), dx), dV))
        c.eq(lab + "acceptance condition", G, mul(b_not(th), want), x.l, rule)
        for y in sets:
            fl = ONE if s.cls == "SolverDDP" else b_or(nzb(feas), feq(a, ONE))
            c.eq_under(y.guard, lab + "feasibility of the accepted point", y.arg(2), fl, y.l, rule)
        for f in s.ls["out"]["b"]:
            st = f.st
            for m, want in (("cost_", s.at(x, "cost_try_")), ("was_feasible_", feas)):
                rr = u.root(m)
                u.ty(rr)
                got = x.r(u.E.read_store(st.s, rr, ()))
                c.eq_under(x.r(f.q), lab + "%s after acceptance" % m, nzb(got) if m == "was_feasible_" else got, nzb(want) if m == "was_feasible_" else want, s.ls["l"], rule)
    for cls in ("SolverDDP", "SolverFDDP"):
        u = c.U(cls, "tryStep")
        e = u.evs("forwardPass")
        if c.check(cls + "::tryStep rolls out once", len(e) == 1 and e[0].guard is ONE, u.where, "the trial is not rolled out exactly once", rule=rule):
            from rollout import param
            c.eq(cls + "::tryStep step length", e[0].arg(0), param(u, 0), e[0].l, rule)
            c.eq(cls + "::tryStep improvement", u.ret, sub(u.fin("cost_"), u.fin("cost_try_")), u.where, rule)
    improvement_model(c)


def improvement_model(c):
    """the quadratic model the acceptance test relies on, its stopping measure and its update order"""
    rule = "expected improvement model"
    d = alg.dot
    u = c.U("SolverDDP", "expectedImprovement")
    Qu, k, Qk = (u.pre(m, t) for m in ("Qu_", "k_", "Quuk_"))
    c.eq("SolverDDP::expectedImprovement linear term", u.val("d_", ZERO), sumt(d(Qu, k)), u.where, rule)
    c.eq("SolverDDP::expectedImprovement quadratic term", u.val("d_", ONE), neg(sumt(d(k, Qk))), u.where, rule)
    u = c.U("SolverDDP", "stoppingCriteria")
    c.eq("SolverDDP::stoppingCriteria", u.fin("stop_"), sumt(d(u.pre("Qu_", t), u.pre("Qu_", t))), u.where, rule)
    u = c.U("SolverFDDP", "updateExpectedImprovement")
    gap = b_not(nzb(u.pre("is_feasible_")))
    Qu, k, Qk, fs, Vx, Vxx = (u.pre(m, t) for m in ("Qu_", "k_", "Quuk_", "fs_", "Vx_", "Vxx_"))
    c.eq("SolverFDDP::updateExpectedImprovement linear term", u.val("dg_"), sub(sumt(d(Qu, k)), mul(gap, sumt(d(fs, Vx), T1))), u.where, rule)
    c.eq("SolverFDDP::updateExpectedImprovement quadratic term", u.val("dq_"), sub(mul(gap, sumt(d(fs, mul(Vxx, fs)), T1)), sumt(d(k, Qk))), u.where, rule)
    u = c.U("SolverFDDP", "expectedImprovement")
    gap = b_not(nzb(u.pre("is_feasible_")))
    dv = neg(mul(gap, sumt(d(u.pre("fs_", t), mul(u.pre("Vxx_", t), sdiff(u.pre("xs_try_", t), u.pre("xs_", t)))), T1)))
    c.eq("SolverFDDP::expectedImprovement linear term", u.val("d_", ZERO), add(u.pre("dg_"), dv), u.where, rule)
    c.eq("SolverFDDP::expectedImprovement quadratic term", u.val("d_", ONE), sub(u.pre("dq_"), scale(dv, 2)), u.where, rule)
    for cls in ("SolverDDP", "SolverFDDP"):
        u = c.U(cls, "backwardPass", inline=("computeGains",))
        c.eq_under(nz(u.pre("M.nu", t)), cls + "::backwardPass curvature along the feed-forward term", u.val("Quuk_", t), mul(u.fin("Quu_", t), u.fin("k_", t)), u.where, rule)
    for s in variants(c, "SolverDDP", "SolverFDDP"):
        first = "expectedImprovement" if s.cls == "SolverDDP" else "updateExpectedImprovement"
        es = [e for e in s.inside(first) if len(e.loops) == 1]
        if not c.check(s.lab + "the model is recomputed for every direction", len(es) == 1, s.w, "%s is called %d times per iteration" % (first, len(es)), rule=rule):
            continue
        e = es[0]
        cd = s.inside("computeDirection")
        c.check(s.lab + "the model belongs to the direction", bool(cd) and all(s.pos(x) < s.pos(e) for x in cd) and s.pos(e) < s.pos(s.tr[0]), e.l,
                "the model is not computed between the direction and the line search", rule=rule)
        c.eq_under(s.ls["ctx"], s.lab + "the model is always available", e.guard, s.ls["ctx"], e.l, rule)


def nzb(p):
    f = sole_factor(p) if isinstance(p, Poly) else None
    if p is ONE or p is ZERO or (f is not None and f.op in ("b", "fle", "flt", "feq", "any")):
        return p
    return alg.nz(p) if not all(x.kind == "b" for x in alg.gatoms(p)) or alg.factors(p) and not alg.gatoms(p) else p
