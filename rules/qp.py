"""P19: the QP of the ProxQP based solver is the SQP subproblem, and its solution is read back from the same positions."""
from spec import *

Q = "SolverPROXQP"
NDX = None


def strip_trunc(p, extra=None):
    """integer valued quantities are not changed by the conversion to an index"""
    def one(f):
        if f.op == "fn" and f.a[0] == "trunc" or f.op == "trunc":
            return f.a[1][0] if f.op == "fn" else f.a[0]
        if extra and f in extra:
            return extra[f]
        return None
    for _ in range(3):
        q = subst(p, one)
        if q is p:
            return q
        p = q
    return p


def writes(u, m):
    """block writes that assemble member m: list of (loop or None, guard, geometry, value), and the state it starts from"""
    E = u.E
    root = u.root(m)
    u.ty(root)
    out, todo, bases = [], [(E.read_store(u.res.st.s, root, ()), None)], []
    seen = set()
    while todo:
        v, L = todo.pop()
        key = (v.id, L)
        if key in seen:
            continue
        seen.add(key)
        ats = sorted(gatoms(v), key=lambda f: f.id)
        acc = {}
        for k, x in cases(v, ats):
            g = ONE
            for a, b in k:
                g = mul(g, fpoly(a) if b else b_not(fpoly(a)))
            if g is ZERO:
                continue
            ups = []
            while True:
                f = sole_factor(x) if isinstance(x, Poly) else None
                if f is not None and f.op == "blk":
                    x, l = f.a
                    ups += list(l)
                    continue
                break
            for bs, gg, w, val in ups:
                acc.setdefault((bs, w, val), []).append(mul(g, gg))
            f = sole_factor(x) if isinstance(x, Poly) else None
            if f is not None and gatoms(x) == set() and f.op == "rd" and isinstance(f.a[2], tuple):
                tg = f.a[2]
                if tg[0] == "hav":
                    h = tg[-1]
                    for H in [h]:
                        i = E.loopinfo.get(H)
                        if i is None:
                            return None, "value left by an unknown loop"
                        todo.append((E.read_store(i["entry"].s, root, ()), L))
                        if i["out"]["b"] or i["out"]["r"] or i["out"]["n"] is None or "resolver" not in i:
                            return None, "loop with several exits"
                        todo.append((E.read_store(i["out"]["n"][1].s, root, ()), H))
                    continue
                if tg[0] == "it":
                    continue
            if gatoms(x):
                todo.append((x, L))
                continue
            bases.append((g, x))
        for (bs, w, val), gs in acc.items():
            g = add(ZERO, *gs)
            out.append((L, bs, g, w, val))
    return out, bases


def normal(u, wr):
    """writes per generic node t (with the guard 't != 0' where the first node is left out) or single writes"""
    E = u.E
    res = []
    for L, bs, g, w, v in wr:
        rs = []
        if L is not None:
            i = E.loopinfo[L]
            rs.append((i["isym"], i["lo"], i["hi"], i["resolver"]))
        for b, lo, hi in bs:
            rs.append((b, lo, hi, None))
        if len(rs) > 1:
            return None
        it = [g] + list(w[1:]) + [v]
        if rs:
            b, lo, hi, rv = rs[0]
            if not isinstance(lo, Poly) or not isinstance(hi, Poly):
                return None
            if rv is not None:
                it = [subst(p, rv, {}) if isinstance(p, Poly) else p for p in it]
            n = sub(hi, lo)
            sh = sub(T, hi)
            if n is T or sub(n, T) is ZERO:
                pass
            elif sub(n, sub(T, ONE)) is ZERO:
                it[0] = mul(it[0], nz(add(fpoly(b), sh)))
            else:
                return None
            # the loop variable runs such that the last node is T-1
            mp = {b: sub(t, sh)}
            it = [subst(p, mp) if isinstance(p, Poly) else p for p in it]
        it = [u.closed(strip_trunc(p)) if isinstance(p, Poly) else p for p in it]
        res.append((bool(rs), it[0], (w[0],) + tuple(it[1:-1]), it[-1]))
    return res


@prop("P19")
def p19(c):
    rule = "QP assembly"
    lo = layout(c.prog, Q)
    ndx = sym("ndx")
    R = lambda m: Q + "::" + m
    nu, ng = (lambda i: fpoly(mkF("rd", ("M.nu", (i,), "pre"), "s"))), (lambda i: fpoly(mkF("rd", ("M.ng", (i,), "pre"), "s")))
    u = c.U(Q, "calc")
    nu, ng = (lambda i: u.pre("M.nu", i)), (lambda i: u.pre("M.ng", i))
    neq = mul(T, ndx)
    nvar = add(neq, sumt(nu(t)))
    nin = sumt(ng(t), T1)
    w0 = "%s constructor" % Q
    for m, v in (("n_eq", neq), ("n_vars", nvar), ("n_in", nin)):
        c.eq(Q + " constructor: " + m, lo.E.read_store(lo.res.st.s, R(m), ()), v, w0, "QP dimensions")
    for m, sh in (("P_", (nvar, nvar)), ("A_", (neq, nvar)), ("C_", (nin, nvar)), ("q_", (nvar,)), ("b_", (neq,)), ("l_", (nin,)), ("u_", (nin,))):
        got = lo.E.shapes.get((R(m), ()))
        for k, x in enumerate(sh):
            c.eq(Q + " constructor: size %d of %s" % (k, m), got[k] if got and len(got) > k and isinstance(got[k], Poly) else sym("?"), x, w0, "QP dimensions")
        c.eq(Q + " constructor: %s is zero outside its blocks" % m, lo.E.read_store(lo.res.st.s, R(m), ()), ZERO, w0, "QP dimensions")
    for q, fs in c.prog.by_name.items():
        if q.startswith(NS + Q + "::") and not fs[0].get("ctor") and q.rsplit("::", 1)[1] not in ("calc",):
            n = q.rsplit("::", 1)[1]
            j = json.dumps(fs[0]["body"])
            hit = [m for m in ("n_eq", "n_vars", "n_in", "P_", "A_", "C_", "q_", "b_", "l_", "u_", "Psp_", "Asp_", "Csp_") if '"%s"' % m in j]
            if hit and c.prog.method(NS + Q, n) is fs[0] and n in ("computeDirection", "checkKKTConditions", "tryStep", "resizeData"):
                w = {x.split("::")[-1] for x in c.U(Q, n, drop=("calc",)).res.written()} if n != "computeDirection" else set()
                c.check("%s::%s leaves the QP alone" % (Q, n), not (w & set(hit)), fs[0].get("l", ""), "writes %s" % sorted(w & set(hit)), rule=rule)
    rec = sole_factor(param_nz(u, 0))
    mp = {sole_factor(u.pre("n_eq")): neq}

    def on(p):
        return subst(cofactor(p, rec, True), mp) if isinstance(p, Poly) else p
    iu = add(neq, alg.sum_over(subst(nu(t), {tF: fpoly(KF)}), KF, ZERO, t))
    ic = alg.sum_over(subst(ng(t), {tF: fpoly(KF)}), KF, ZERO, t)
    iT = sumt(ng(t))
    xt, xT = mul(sub(t, ONE), ndx), mul(sub(T, ONE), ndx)
    d = lambda n, i: on(u.val("D." + n, i))
    gap = on(u.val("fs_", t1))
    first, con, conT = nz(t), nz(ng(t)), nz(ng(T))
    B = lambda r, k, nr, nc: ("block", r, k, nr, nc)
    want = {
        "P_": [(True, first, B(xt, xt, ndx, ndx), d("Lxx", t)), (True, first, B(xt, iu, ndx, nu(t)), d("Lxu", t)),
               (True, first, B(iu, xt, nu(t), ndx), transpose(d("Lxu", t))), (True, ONE, B(iu, iu, nu(t), nu(t)), d("Luu", t)),
               (False, ONE, B(xT, xT, ndx, ndx), d("Lxx", T))],
        "q_": [(True, first, ("seg", xt, ndx), d("Lx", t)), (True, ONE, ("seg", iu, nu(t)), d("Lu", t)), (False, ONE, ("seg", xT, ndx), d("Lx", T))],
        "A_": [(True, first, B(mul(t, ndx), xt, ndx, ndx), neg(d("Fx", t))), (True, ONE, B(mul(t, ndx), iu, ndx, nu(t)), neg(d("Fu", t))),
               (True, ONE, B(mul(t, ndx), mul(t, ndx), ndx, ndx), ident())],
        "b_": [(True, ONE, ("seg", mul(t, ndx), ndx), gap)],
        "C_": [(True, mul(first, con), B(ic, xt, ng(t), ndx), d("Gx", t)), (True, con, B(ic, iu, ng(t), nu(t)), d("Gu", t)),
               (False, conT, B(iT, xT, ng(T), ndx), d("Gx", T))],
        "l_": [(True, con, ("seg", ic, ng(t)), sub(u.pre("M.g_lb", t), d("g", t))), (False, conT, ("seg", iT, ng(T)), sub(u.pre("M.g_lb", T), d("g", T)))],
        "u_": [(True, con, ("seg", ic, ng(t)), sub(u.pre("M.g_ub", t), d("g", t))), (False, conT, ("seg", iT, ng(T)), sub(u.pre("M.g_ub", T), d("g", T)))],
    }
    for m, ws in want.items():
        lab = "%s::calc %s " % (Q, m)
        wr, bases = writes(u, m)
        nm = normal(u, wr) if wr is not None else None
        if nm is None:
            c.undecided(lab, "assembly not recognised: %s" % (bases,))
            continue
        c.check(lab + "assembled on top of what the constructor prepared", all(b is u.pre(m) for _, b in bases), u.where, "starts from %s" % [show(b)[:80] for _, b in bases], rule=rule)
        got = {}
        for lp, g, w, v in nm:
            g, w, v = on(g), (w[0],) + tuple(on(x) for x in w[1:]), on(v)
            if m in ("C_", "l_", "u_"):
                g = mul(g, con if lp else conT)
            k = (lp, w)
            if k in got:
                c.bad(lab + "every block is written once", u.where, "block at %s is written twice" % geo(w), rule=rule)
            got[k] = (g, v)
        for lp, g, w, v in ws:
            k = next((k for k in got if k[0] == lp and k[1][0] == w[0] and all(a is b or sub(a, b) is ZERO for a, b in zip(k[1][1:], w[1:]))), None)
            name = lab + ("node " if lp else "terminal ") + geo(w)
            if not c.check(name + " position", k is not None, u.where, "no write to this block; written blocks are %s" % [geo(x[1]) for x in got], rule=rule):
                continue
            g2, v2 = got.pop(k)
            c.eq(name + " is filled when required", g2, g, u.where, rule)
            c.eq(name + " value", v2, v, u.where, rule)
        for k in got:
            c.bad(lab + "no further block is written", u.where, "also writes %s" % geo(k[1]), rule=rule)
    for a, b in (("Psp_", "P_"), ("Asp_", "A_"), ("Csp_", "C_")):
        c.eq("%s::calc sparse copy of %s" % (Q, b), u.val(a), u.val(b), u.where, rule)
    handover(c, neq, nvar, nin, iu, ic, iT, ndx, nu, ng)


KF = mkF("sym", ("i#0",), "s")


def geo(w):
    return "%s(%s)" % (w[0], ", ".join(show(x)[:60] if isinstance(x, Poly) else str(x) for x in w[1:]))


def param_nz(u, k):
    p = u.pre("p:" + (u.f["ps"][k].get("n") or "#%d" % k))
    return nz(p)


def result(f, field):
    return f.op == "rd" and re.match(r"X:[^@]*\.results\." + re.escape(field) + r"(@\d+)?$", f.a[0]) is not None


def version(f):
    """number of calls on the QP object made before the value was read"""
    m = re.search(r"@(\d+)$", f.a[0])
    return int(m.group(1)) if m else 0


def handover(c, neq, nvar, nin, iu, ic, iT, ndx, nu, ng):
    rule = "QP solution"
    u = c.U(Q, "computeDirection")
    E = u.E
    ini, sol = u.evs("ext.init"), u.evs("ext.solve")
    if not c.check(Q + "::computeDirection sets one QP up and solves it", len(ini) == 1 and len(sol) == 1 and u.E.events.index(ini[0]) < u.E.events.index(sol[0])
                   and ini[0].guard is ONE and sol[0].guard is ONE, u.where, "%d set-ups, %d solutions" % (len(ini), len(sol)), rule=rule):
        return
    e = ini[0]
    sp = "Psp_" in show(e.arg(0))
    for k, m in enumerate((("Psp_", "q_", "Asp_", "b_", "Csp_", "l_", "u_") if sp else ("P_", "q_", "A_", "b_", "C_", "l_", "u_"))):
        c.eq("%s::computeDirection QP argument %s" % (Q, m), e.arg(k), u.at(e, m), e.l, rule)
    # the models are evaluated (if requested) and the QP rebuilt before
    cal = u.evs("calc")
    c.check(Q + "::computeDirection rebuilds the QP before it is used", len(cal) == 1 and u.E.events.index(cal[0]) < u.E.events.index(e), u.where, "%d evaluations" % len(cal), rule=rule)
    s = sol[0]
    for key, m in (("eps_abs", "eps_abs_"), ("eps_rel", "eps_rel_"), ("max_iter", "max_qp_iters_"), ("max_iter_in", "max_qp_iters_")):
        roots = [r for r in s.snap if r.startswith("X:") and r.endswith(".settings." + key)]
        if not c.check("%s::computeDirection passes %s on" % (Q, key), len(roots) == 1, s.l, "the QP's %s is not set" % key, rule="QP settings"):
            continue
        c.eq("%s::computeDirection %s" % (Q, key), s.read(roots[0]), u.pre(m), s.l, "QP settings")
    neqF = sole_factor(u.pre("n_eq"))

    last = len([x for x in u.E.events if x.name.startswith("ext.") and u.E.events.index(x) <= u.E.events.index(s)])

    def nrm(v):
        return subst(strip_trunc(v), {neqF: neq})

    def part(lab, got, field, off, n, sign=1):
        got = nrm(got)
        f = sole_factor(got if sign > 0 else neg(got))
        ok = f is not None and f.op == "view" and f.a[1] == "seg"
        src = sole_factor(f.a[0]) if ok else None
        ok = ok and src is not None and result(src, field)
        if not c.check(lab, ok, u.where, "is %s" % show(got)[:200], rule=rule):
            return
        c.check(lab + " after the solution", version(src) == last, u.where, "read before the solution", rule=rule)
        c.eq(lab + " position", f.a[2], off, u.where, rule)
        c.eq(lab + " length", f.a[3], n, u.where, rule)
    lab = Q + "::computeDirection "
    part(lab + "state step", u.val("dx_", t1), "x", mul(t, ndx), ndx)
    part(lab + "control step", u.val("du_", t), "x", iu, nu(t))
    part(lab + "dynamics multiplier", u.val("lag_mul_", t1), "y", mul(t, ndx), ndx, -1)
    part(lab + "constraint multiplier", u.val("y_", t), "z", ic, ng(t))
    part(lab + "terminal constraint multiplier", u.val("y_", T), "z", iT, ng(T))
    for m, fld in (("qp_iters_", "iter"), ("norm_primal_", "pri_res"), ("norm_dual_", "dua_res")):
        v = u.val(m)
        f = sole_factor(v)
        c.check(lab + m + " reports the QP's " + fld, f is not None and result(f, "info." + fld) and version(f) == last,
                u.where, "%s is %s" % (m, show(v)[:200]), rule=rule)
