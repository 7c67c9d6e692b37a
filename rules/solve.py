"""Rules on the iteration protocol of the solvers (the solve() functions): P01 success, P03 initial state, P04/P21 acceptance of steps,
P06 failed evaluations, P07 regularisation, P08 budgets, P16 callbacks, P20 warm start and resets."""
from spec import *
from admm import clock_atoms, due

DDPS = ("SolverDDP", "SolverFDDP")
ALL = ("SolverDDP", "SolverFDDP", "SolverSQP", "SolverCSQP", "SolverPROXQP")
# options that only select between variants of the iteration; each combination is analysed on its own
VARIANTS = {
    "SolverDDP": [{}],
    "SolverFDDP": [{"use_filter_line_search_": 1}, {"use_filter_line_search_": 0}],
    "SolverSQP": [dict(use_filter_line_search_=f, extra_iteration_for_last_kkt_=e) for f in (0, 1) for e in (0, 1)],
    "SolverCSQP": [dict(use_filter_line_search_=f, extra_iteration_for_last_kkt_=e, remove_reg_=r) for f in (0, 1) for e in (0, 1) for r in (0, 1)],
    "SolverPROXQP": [dict(use_filter_line_search_=f) for f in (0, 1)],
}
SHORT = {"use_filter_line_search_": ("merit", "filter"), "extra_iteration_for_last_kkt_": ("", "last-kkt"), "remove_reg_": ("", "no-reg")}


class S:
    def __init__(self, c, cls, opts):
        self.c, self.cls, self.opts = c, cls, opts
        u = self.u = c.U(cls, "solve", assume=tuple((k, ONE if v else ZERO) for k, v in sorted(opts.items())))
        tag = ",".join(x for x in (SHORT[k][v] for k, v in sorted(opts.items())) if x)
        self.lab = "%s::solve%s " % (cls, "(%s)" % tag if tag else "")
        self.tr = u.evs("tryStep")
        self.ok = bool(self.tr) and all(len(e.loops) >= 2 for e in self.tr) and len({e.loops[0][0] for e in self.tr}) == 1 \
            and len({e.loops[1][0] for e in self.tr}) == 1
        if not self.ok:
            c.undecided(self.lab + "structure", "no iteration loop containing a line-search loop was recognised")
            return
        self.L0, self.i0 = self.tr[0].loops[0][0], fpoly(u.E.loopinfo[self.tr[0].loops[0][0]]["isym"])
        self.LS = self.tr[0].loops[1][0]
        self.info, self.ls = u.E.loopinfo[self.L0], u.E.loopinfo[self.LS]
        self.i1 = fpoly(self.ls["isym"])
        self.w = u.where

    def pos(self, e):
        return self.u.E.events.index(e)

    def inside(self, *names):
        return [e for e in self.u.evs(*names) if e.loops and e.loops[0][0] == self.L0]

    def before(self, *names):
        lim = min(self.pos(e) for e in self.u.E.events if e.loops and e.loops[0][0] == self.L0)
        return [e for e in self.u.evs(*names) if self.pos(e) < lim and not (e.loops and e.loops[0][0] == self.L0)]

    def after(self, *names):
        lim = max(self.pos(e) for e in self.u.E.events if e.loops and e.loops[0][0] == self.L0)
        return [e for e in self.u.evs(*names) if self.pos(e) > lim and not (e.loops and e.loops[0][0] == self.L0)]

    def at(self, e, m, *i):
        return self.u.at(e, m, *i)

    def guard(self, es):
        return add(ZERO, *[e.guard for e in es])

    def src(self, p):
        """the call that produced value p, or None"""
        f = sole_factor(p) if isinstance(p, Poly) else None
        if f is None:
            return None
        if f.op == "b":
            f = f.a[0]
        if f.op != "rd" or not isinstance(f.a[2], tuple) or f.a[2][0] != "ev":
            return None
        return tuple(f.a[2][1:3])

    def event_of(self, ver):
        for e in self.u.E.events:
            if getattr(e, "ver", None) == ver:
                return e
        return None


def variants(c, *classes, pick=None):
    for cls in classes:
        for o in VARIANTS[cls]:
            if pick and not pick(o):
                continue
            s = S(c, cls, o)
            if s.ok:
                yield s


def changed_between(s, a, b, members, idxs=(t, T)):
    """members whose value differs between the end of call a and the point of event b"""
    out = []
    for m in members:
        r = s.u.root(m)
        s.u.ty(r)
        for i in idxs:
            if i is T and m in ("us_",):
                continue
            x = b.r(a.r(s.u.E.read_store(a.post, r, (i,))))
            y = b.read(r, (i,))
            if x is not y and not (isinstance(x, Poly) and sub(x, y) is ZERO):
                out.append(m)
    return sorted(set(out))


RESID_IN = ("xs_", "us_", "fs_", "lag_mul_", "D.Lx", "D.Lu", "D.Fx", "D.Fu", "D.Gx", "D.Gu")


@prop("P01")
def p01(c):
    for s in variants(c, *ALL):
        success(c, s)
        data_fresh(c, s)


def success(c, s):
    u, lab, rule = s.u, s.lab, "success only on a fresh small residual"
    where = {}
    kname = "checkKKTConditions" if s.cls != "SolverPROXQP" else "computeDirection"
    n = 0
    claims = {}
    for e in u.evs("return"):
        v = e.arg(0) if e.args else None
        if not isinstance(v, Poly):
            c.undecided(lab + "return", "return value not understood at %s" % e.l)
            continue
        claim = mul(e.guard, v)
        if claim is ZERO:
            continue
        n += 1
        k, tol = s.at(e, "KKT_"), s.at(e, "termination_tol_")
        c.eq(lab + "reports success only if the residual is within the tolerance", mul(claim, b_not(fle(k, tol))), ZERO, e.l, rule)
        ver = s.src(k)
        ck = s.event_of(ver) if ver else None
        if not c.check(lab + "success is decided on a residual that was just evaluated", ck is not None and ver[0] == kname, e.l,
                       "the residual compared with the tolerance is %s" % show(k)[:200], rule=rule):
            continue
        claims.setdefault(ck, []).append((e, claim))
        d = changed_between(s, ck, e, ("xs_", "us_") + (("fs_",) if s.cls != "SolverPROXQP" else ()))
        c.check(lab + "reported point is the one the residual was evaluated at", not d, e.l,
                "between the residual evaluation and the successful return %s change" % d, rule=rule)
    c.check(lab + "can report success", n > 0, s.w, "no path reports success", rule=rule)
    for ck, l in claims.items():
        small = fle(s.at(l[0][0], "KKT_"), s.at(l[0][0], "termination_tol_"))
        tot = add(ZERO, *[x for _, x in l])
        if ck.loops and len(ck.loops) == 1 or not ck.loops:
            c.eq(lab + "a residual within the tolerance ends the solve successfully", tot, mul(ck.guard, small), ck.l, rule)
    # residual evaluations: every iteration decides on its own residual
    for ck in s.u.evs(kname):
        if ck not in claims and kname == "checkKKTConditions":
            c.bad(lab + "every residual evaluation is followed by the success test", ck.l, "a residual is evaluated but never compared with the tolerance", rule=rule)


def first_recalc(s, e):
    """value of the re-evaluation flag at the first attempt of a direction computation"""
    a = e.arg(0) if e.args else ONE
    f = sole_factor(a) if isinstance(a, Poly) else None
    if f is not None and f.op == "b":
        f = f.a[0]
    if f is not None and f.op == "rd" and isinstance(f.a[2], tuple) and f.a[2][0] == "it" and len(e.loops) and f.a[2][1] == e.loops[-1][0] \
            and f.a[2][1] not in (s.L0,):
        info = s.u.E.loopinfo[f.a[2][1]]
        n = info["out"]["n"]
        # on a retry the flag may only be dropped after a failed attempt
        ok = True
        if n is not None:
            q, st = n
            thr = fpoly(mkF("rd", ("threw:" + e.name, e.E_lv, ("ev",) + e.ver), "b")) if hasattr(e, "E_lv") else None
        return s.u.E.read_store(info["entry"].s, f.a[0], f.a[1]), f.a[0], ok
    return a, (f.a[0] if f is not None and f.op == "rd" else None), True


def data_fresh(c, s):
    """derivatives and defects used by the residual belong to the current point"""
    u, lab, rule = s.u, s.lab, "model data belong to the reported point"
    E = u.E
    for phase, es in (("iteration", s.inside("computeDirection")), ("last evaluation", s.after("computeDirection"))):
        for e in es:
            v0, root, ok = first_recalc(s, e)
            if s.cls == "SolverCSQP":
                cs = [x for x in u.evs("calc") if s.pos(x) < s.pos(e)]
                x = cs[-1] if cs else None
                if not c.check(lab + phase + ": model data are evaluated first", x is not None, e.l, "no evaluation precedes the QP", rule=rule):
                    continue
                c.eq(lab + phase + ": evaluation includes the derivatives", x.arg(0), ONE, x.l, rule)
                d = changed_between(s, x, e, ("xs_", "us_", "fs_", "D.Lx", "D.Fx", "D.Gx", "D.g"))
                c.check(lab + phase + ": QP uses data of the current point", not d, e.l, "after the evaluation of the models %s change" % d, rule=rule)
                src = s.src(s.at(e, "D.Lx", t))
                c.check(lab + phase + ": derivatives of this iteration", src == x.ver, e.l, "the QP reads derivatives from %s" % (src,), rule=rule)
                continue
            if v0 is ONE:
                c.ok(lab + phase + ": derivatives are re-evaluated", e.l, rule)
                continue
            f = sole_factor(v0) if isinstance(v0, Poly) else None
            if f is not None and f.op == "b":
                f = f.a[0]
            if f is None or f.op != "rd" or not isinstance(f.a[2], tuple) or f.a[2][:2] != ("it", s.L0):
                c.bad(lab + phase + ": derivatives are re-evaluated", e.l, "the direction is computed without re-evaluation (flag %s)" % show(v0)[:200], rule=rule)
                continue
            r = f.a[0]
            c.eq(lab + "first direction re-evaluates the derivatives", E.read_store(s.info["entry"].s, r, ()), ONE, s.info["l"], rule)
            q, st = s.info["out"]["n"]
            out = E.read_store(st.s, r, ())
            for m in ("xs_", "us_"):
                rt = u.root(m)
                u.ty(rt)
                x1, x0 = E.read_store(st.s, rt, (t,)), E.read_store(s.info["s0"].s, rt, (t,))
                c.eq(lab + "derivatives kept only while %s is unchanged" % m, mul(q, b_not(out), sub(x1, x0)), ZERO, s.info["l"], rule)
            # functions that rely on the evaluation made by the last trial may only do so when that trial was accepted
            cd = c.U(s.cls, "computeDirection", drop=("calcDiff",)) if s.cls != "SolverPROXQP" else None
            if cd is not None and s.cls in DDPS:
                it = nz(cd.pre("iter_"))
                keep = cofactor(cd.val("D.calcpt", t), sole_factor(it), True)
                own = pt(cd.pre("xs_", t), cd.pre("us_", t))
                rec = param1(cd)
                for a, v in ((sole_factor(rec), True),) if sole_factor(rec) is not None else ():
                    keep = cofactor(keep, a, v)
                if keep is own:
                    c.ok(lab + "the models are evaluated at the current point for every direction", cd.where, rule)
                    continue
                c.eq(lab + "a kept evaluation is the one of the last trial", keep, cd.pre("D.calcpt", t), cd.where, rule)
                sets = [x for x in s.inside("setCandidate") if len(x.loops) >= 2 and x.loops[1][0] == s.LS]
                G = add(ZERO, *[x.guard for x in sets])
                found = alg.any_over(G, sole_factor(s.i1), ZERO, s.ls["hi"])
                c.eq(lab + "derivatives from the last trial only if it was accepted", mul(q, nzp(out), b_not(found)), ZERO, s.info["l"], rule)
                ends = add(ZERO, *[f.q for f in s.ls["out"]["b"]], *[f.q for f in s.ls["out"]["r"]])
                c.eq(lab + "no trial is evaluated after an accepted one", sets[0].r(ends) if sets else ZERO, G, s.ls["l"], rule)


def nzp(p):
    f = sole_factor(p) if isinstance(p, Poly) else None
    return p if p is ONE or p is ZERO or f is None or f.kind == "b" else nz(p)


def param1(u):
    return nzp(u.pre("p:" + (u.f["ps"][0].get("n") or "#0")))
