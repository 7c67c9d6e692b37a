"""Obligations: compares what the dataflow engine derives from /repo's source with
the formulas / ordering rules of a property, and reports per obligation."""
import hashlib, json, os, re, sys, time
import alg, ir, sem
from alg import *
from alg import Poly, sole_factor, subst, depends, mkF, fpoly
from ir import Broken, walk

NS = "mim_solvers::"
UNITS = set("""computeDirection tryStep checkKKTConditions setCandidate increaseRegularization decreaseRegularization
backwardPass backwardPass_without_rho_update backwardPass_without_constraints backwardPass_mt
backwardPass_without_rho_update_mt forwardPass forwardPass_without_constraints update_lagrangian_parameters
update_rho_vec apply_rho_update reset_rho_vec reset_params calc calcDiff resizeData allocateData expectedImprovement
updateExpectedImprovement stoppingCriteria printQPCallbacks computePrimalDual""".split())

T = TSYM
tF = mkF("sym", ("t",), "s")
alg.RANGES[tF] = (ZERO, TSYM)
t = fpoly(tF)
t1 = add(t, ONE)
T1 = add(TSYM, ONE)

# quantities of crocoddyl's data objects and their dimensions
DATA_DIMS = {"D.g": {"ng"}, "D.Gx": {"ng"}, "D.Gu": {"ng", "nu"}, "D.Lu": {"nu"}, "D.Luu": {"nu"}, "D.Lxu": {"nu"},
             "D.Fu": {"nu"}, "M.g_lb": {"ng"}, "M.g_ub": {"ng"}}


class Layout:
    """lengths of the member arrays and dimensions of their elements, from the constructors"""
    cache = {}

    def __init__(self, prog, cls):
        q = NS + cls
        fs = [f for f in prog.by_name.get(q + "::" + cls, []) if f.get("ctor")]
        if not fs:
            raise Broken("constructor of %s not found" % cls)
        E = sem.Eval(prog, q, units=set(), lens={})
        self.res = E.run(fs[0])
        self.E = E
        # a length that is just a number is a default the user may change: keep it symbolic
        self.lens = {k: v for k, v in E.lens.items() if alg.factors(v)}
        self.unks = list(E.unks)
        for n, l in (("xs_", T1), ("fs_", T1), ("us_", TSYM)):
            self.lens.setdefault("SolverAbstract::" + n, l)
        self.dims = {k: set(v) for k, v in DATA_DIMS.items()}
        self.dims["SolverAbstract::us_"] = {"nu"}
        for (root, idx), sizes in E.shapes.items():
            for x in sizes:
                if not isinstance(x, Poly) or len(idx) != 1:
                    continue
                f = sole_factor(x)
                if f is not None and f.op == "rd" and f.a[0] in ("M.ng", "M.nu") and f.a[1] == tuple(idx):
                    self.dims.setdefault(root, set()).add(f.a[0][2:])


def layout(prog, cls):
    k = (id(prog), cls)
    if k not in Layout.cache:
        Layout.cache[k] = Layout(prog, cls)
    return Layout.cache[k]


class Unit:
    """one analysed function"""

    def __init__(self, c, cls, name, inline=(), units=None, fid=None, drop=(), assume=()):
        self.c, self.cls, self.name = c, cls, name
        prog = c.prog
        f = prog.method(NS + cls, name) if fid is None else prog.funcs.get(fid)
        if f is None:
            raise Broken("anchor vanished: %s::%s" % (cls, name))
        self.f = f
        self.where = "%s (%s)" % (f["q"], f.get("l", "?"))
        lo = layout(prog, cls)
        for k, v in lo.dims.items():
            alg.DIMS.setdefault(k, set()).update(v)
        us = set(UNITS if units is None else units) - {name} - set(drop)
        self._E = sem.Eval(prog, NS + cls, units=us, inline=tuple(inline), lens=dict(lo.lens))
        for (r, ix), sh in lo.E.shapes.items():
            if not ix:
                self.E.shapes.setdefault((r, ()), sh)
        for m, v in assume:
            self.E.assume[self.root(m)] = v
        self._res = self.E.run(f)

    @property
    def E(self):
        sem.activate(self._E)
        return self._E

    @property
    def res(self):
        sem.activate(self._E)
        return self._res

    # ---- reading
    def root(self, n):
        if "::" in n or n.startswith("D.") or n.startswith("M.") or n.startswith("p:") or n.startswith("X:"):
            return n
        k, fd = self.c.prog.field_cls(NS + self.cls, n)
        if k is None:
            if n in ABSTRACT:
                return "SolverAbstract::" + n
            raise Broken("anchor vanished: member %s of %s" % (n, self.cls))
        return k.split("::")[-1] + "::" + n

    def ty(self, root):
        k = root.split("::")[-1]
        c, fd = self.c.prog.field_cls(NS + self.cls, k)
        if fd is not None and root not in self.E.tytab:
            self.E.tytab[root] = sem.strip(fd["ty"])
        if root not in self.E.tytab and root.startswith("D."):
            kd = dict(sem.CALC_FIELDS + sem.DIFF_FIELDS).get(root[2:], "s")
            self.E.tytab[root] = "std::vector<%s>" % {"s": "double", "v": "Eigen::Matrix<double,-1,1>", "m": "Eigen::Matrix<double,-1,-1>"}[kd]
        if root not in self.E.tytab and root in ABS_TY:
            self.E.tytab[root] = ABS_TY[root]
        if root not in self.E.tytab and root.startswith("M."):
            self.E.tytab[root] = sem.VV if root[2:] in ("g_lb", "g_ub", "u_lb", "u_ub") else "std::vector<unsigned long>"

    def val(self, n, *idx):
        r = self.root(n)
        self.ty(r)
        return self.closed(self.res.value(r, *idx))

    def closed(self, p, depth=3):
        """model quantities computed earlier in the same loop are replaced by what they were computed from"""
        if not isinstance(p, Poly):
            return p
        mp, rg = {}, {}
        for f in alg.factors(p):
            if f.op in ("over", "sum", "any"):
                bv, _, lo, hi = f.a
                if bv in rg and rg[bv] != (lo, hi):
                    hi = T1
                rg[bv] = (lo, hi)
        alg.RANGES.update(rg)
        for f in alg.factors(p):
            if f.op == "rd" and isinstance(f.a[2], tuple) and f.a[2][0] == "rec" and f.a[0].startswith("D."):
                v = self.res.value(f.a[0], *f.a[1])
                if isinstance(v, Poly) and not any(g is f for g in alg.factors(v)):
                    mp[f] = v
        for b in rg:
            alg.RANGES.pop(b, None)
        if not mp or not depth:
            return p
        return self.closed(subst(p, mp), depth - 1)

    def fin(self, n, *idx):
        r = self.root(n)
        self.ty(r)
        return self.res.final(r, *idx)

    def pre(self, n, *idx):
        r = self.root(n)
        self.ty(r)
        return self.res.pre(r, *idx)

    def evs(self, *names):
        return [e for e in self.E.events if e.name in names]

    def at(self, e, n, *idx):
        r = self.root(n)
        self.ty(r)
        return e.read(r, idx)

    @property
    def ret(self):
        return self.closed(self.res.ret) if self.res.ok else None

    def assigned_at(self, member):
        m = member.split("::")[-1]
        out = []
        for x in walk(self.f["body"]):
            if x.get("k") in ("asg", "op", "mcall", "bin", "un") and x.get("l"):
                s = json.dumps(x)
                if len(s) < 4000 and '"%s"' % m in s:
                    out.append(x["l"])
        return out[:6]


ABSTRACT = {"xs_", "us_", "fs_", "iter_", "cost_", "stop_", "d_", "dV_", "dVexp_", "preg_", "dreg_", "steplength_", "ffeas_",
            "gfeas_", "hfeas_", "is_feasible_", "was_feasible_", "th_acceptstep_", "th_stop_", "xs", "inf_pr_",
            "tmp_feas_", "feasnorm_", "callbacks_", "problem_", "dPhi_", "dPhiexp_", "merit_", "dfeas_", "inffeas_"}
ABS_TY = {"SolverAbstract::xs_": sem.VV, "SolverAbstract::us_": sem.VV, "SolverAbstract::fs_": sem.VV,
          "SolverAbstract::is_feasible_": "bool", "SolverAbstract::was_feasible_": "bool",
          "SolverAbstract::iter_": "unsigned long", "SolverAbstract::d_": "Eigen::Matrix<double,2,1>"}


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obl = []
        self.viol = []
        self.broken = []
        self.units = {}
        self._prog = None
        self._mt = None
        self.extra_cov = {}
        self.assumptions = []
        self.expect_min = {}
        self.done_rules = {}

    @property
    def prog(self):
        if self._prog is None:
            self._prog = ir.program("src")
        return self._prog

    @property
    def prog_mt(self):
        if self._mt is None:
            self._mt = ir.program("src", mt=True)
        return self._mt

    @property
    def bindings(self):
        return ir.program("bindings")

    def U(self, cls, name, **k):
        key = (cls, name, tuple(sorted((a, repr(sorted(map(str, b))) if isinstance(b, (set, tuple, list)) else b) for a, b in k.items())))
        if key not in self.units:
            self.units[key] = Unit(self, cls, name, **k)
        return self.units[key]

    # ---------------------------------------------------------------- verdicts
    def ok(self, name, where="", rule=""):
        self.obl.append({"name": name, "where": where, "rule": rule, "ok": True})

    def bad(self, name, where, msg, detail=None, rule=""):
        d = {"name": name, "where": where, "rule": rule, "ok": False, "message": msg, "detail": detail or {}}
        self.obl.append(d)
        self.viol.append(d)

    def check(self, name, cond, where, msg, detail=None, rule=""):
        (self.ok(name, where, rule) if cond else self.bad(name, where, msg, detail, rule))
        return cond

    def undecided(self, name, why):
        self.broken.append("%s: %s" % (name, why))

    def opaque(self, p):
        for f in alg.factors(p):
            if f.op == "unk":
                return f.a[0]
        return None

    def eq(self, name, got, want, where="", rule="value equality"):
        if not isinstance(got, Poly) or not isinstance(want, Poly):
            self.undecided(name, "no value derived (%r)" % (got,))
            return False
        if got is want:
            self.ok(name, where, rule)
            return True
        mis, ext = diff(got, want)
        if not mis and not ext:
            self.ok(name, where, rule)
            return True
        bad = split_equal(got, want)
        if not bad:
            self.ok(name, where, rule)
            return True
        u = self.opaque(got)
        if u:
            self.undecided(name, "not analysable: %s" % u)
            return False
        case = ""
        if bad[0]:
            mis, ext = diff(bad[1], bad[2])
            case = "in the case " + ", ".join("%s%s" % ("" if v else "not ", show(fpoly(a))) for a, v in bad[0])[:500]
        self.bad(name, where, "computes something else than required",
                 {"missing": sorted(mis)[:12], "unexpected": sorted(ext)[:12], "note": case, "derived": show(got)[:3000], "required": show(want)[:3000]}, rule)
        return False

    def eq_under(self, pc, name, got, want, where="", rule="value equality under condition"):
        return self.eq(name, mul(pc, got), mul(pc, want), where, rule)

    # every unit member at t and T (and at 0)
    def eqs(self, u, member, want, label=None, **k):
        """want: {index: Poly}, index in t / T / 0 / t+1, or () for scalars"""
        for i, w in want.items():
            idx = () if i == () else (i,)
            g = u.val(member, *idx)
            self.eq("%s::%s %s%s" % (u.cls, u.name, member, "[%s]" % show(i) if idx else ""), g, w, u.where, k.get("rule", "value equality"))


def sumt(p, hi=None):
    """sum over the nodes t in [0, T) (p written with the node symbol t)"""
    return alg.sum_over(p, tF, ZERO, TSYM if hi is None else hi)


def maxt(p, lo=None, hi=None):
    """maximum over the nodes t in [0, T) (a fresh sup, to be combined with smax)"""
    return alg.mk_sup(alg.sup_over({p: ONE}, tF, ZERO if lo is None else lo, TSYM if hi is None else hi))


def ninf(p):
    return fn("norminf", (p,))


def n1(p):
    return fn("norm1", (p,))


def fx(name, i, x, u=None):
    """value of a model quantity at node i evaluated at (x, u)"""
    return fn("f." + name, (i, x) + ((u,) if u is not None else ()), dict(sem.CALC_FIELDS + sem.DIFF_FIELDS).get(name, "s"))


def pt(x, u=None):
    return fn("pt", (x,) + ((u,) if u is not None else ()))


def sdiff(a, b):
    return fn("S.diff", (a, b), "v")


def sint(a, b):
    return fn("S.integrate", (a, b), "v")


X0 = fpoly(mkF("rd", ("x0", (), "pre"), "v"))


def cases(p, atoms):
    """p split by the truth values of the atoms"""
    out = [((), p)]
    for a in atoms:
        out = [(k + ((a, v),), cofactor(q, a, v)) for k, q in out for v in (True, False)]
    return out


def all_atoms(p):
    """conditions that select between values anywhere in p (top level gates and guards of maxima)"""
    out = set(gatoms(p))
    for f in alg.factors(p):
        if f.op == "sup":
            for e, g in f.a[0]:
                out |= gatoms(g)
    return {a for a in out if not any(x.op == "sym" and isinstance(x.a[0], str) and x.a[0].startswith("i#") for x in alg.factors(fpoly(a)))}


TF_ = sole_factor(TSYM)


def refine(a, v, *ps):
    """simplify minima and maxima in ps, knowing that the comparison a has truth value v"""
    if a.op == "nz" and not v:   # at a particular node
        for f in sorted(alg.factors(a.a[0]), key=lambda f: f.id):
            if f.op == "sym" and f is not TF_:
                k, r = alg._affine1(a.a[0], f)
                if k in (1, -1):
                    return tuple(subst(q, {f: alg.scale(r, -k)}) for q in ps)
    if a.op not in ("flt", "fle", "lt0"):
        return ps
    d = a.a[0] if a.op == "lt0" else sub(a.a[0], a.a[1])
    if not v:
        d = neg(d)
    # now d <= 0

    def one(f):
        if f.op == "min":
            l = list(f.a[0])
            drop = {q for q in l for r in l if q is not r and sub(r, q) is d}
            if drop and len(drop) < len(l):
                return smin(*[q for q in l if q not in drop])
        if f.op == "sup":
            l = dict(f.a[0])
            drop = {q for q in l for r in l if q is not r and sub(q, r) is d and (l[r] is ONE or l[r] is l[q])}
            if drop and len(drop) < len(l):
                return alg.mk_sup({q: g for q, g in l.items() if q not in drop})
        return None
    if not any(f.op in ("min", "sup") for q in ps for f in alg.factors(q)):
        return ps
    return tuple(subst(q, one) for q in ps)


# settings: numbers given by the user, never NaN
SETTINGS = {"mu_dynamic_", "mu_constraint_", "eps_rel_", "eps_abs_", "th_stepdec_", "th_stepinc_", "th_grad_", "th_acceptstep_", "th_acceptnegstep_",
            "termination_tol_", "reg_min_", "reg_max_", "max_solve_time_", "alpha_", "sigma_", "rho_min_", "rho_max_", "adaptive_rho_tolerance_",
            "lag_mul_inf_norm_coef_", "reg_incfactor_", "reg_decfactor_", "rho_sparse_base_"}


def settled(p):
    """p is made of these settings only: no number among them is NaN, their order is total"""
    return all((f.op == "rd" and f.a[0].split("::")[-1] in SETTINGS and f.a[2] == "pre") or
               (f.op == "sym" and str(f.a[0]).startswith("limits.")) or (f.op == "fn" and f.a[0] == "abs" and all(settled(x) for x in f.a[1] if isinstance(x, Poly)))
               for f in alg.factors(p))


def impossible(a, v, assume):
    """the comparison a cannot have the truth value v where those of assume hold"""
    if a.op not in ("flt", "fle"):
        return False
    for b, w in assume:
        if b.op not in ("flt", "fle"):
            continue
        if b.a == a.a:
            lt, le = (v, w) if a.op == "flt" else (w, v)
            if a.op != b.op and lt and not le:
                return True
        elif (b.a[1], b.a[0]) == a.a:
            if v and w and not (a.op == "fle" and b.op == "fle"):
                return True
            if not v and not w and "fle" in (a.op, b.op) and settled(a.a[0]) and settled(a.a[1]):
                return True
    return False


def split_equal(got, want, assume=(), budget=None):
    """None if got equals want in every case of the conditions they contain, else (case, got, want)"""
    if budget is None:
        budget = [300]
    if got is want:
        return None
    budget[0] -= 1
    ats = all_atoms(got) | all_atoms(want)
    if not ats or budget[0] < 0 or len(assume) > 12:
        mis, ext = diff(got, want)
        return None if not mis and not ext else (assume, got, want)
    a = sorted(ats, key=lambda f: f.id)[0]
    for v in (True, False):
        if impossible(a, v, assume):
            continue
        k = ONE if v else ZERO
        r = split_equal(*refine(a, v, subst(got, {a: k}), subst(want, {a: k})), assume + ((a, v),), budget)
        if r is not None:
            return r
    return None


def carried(p, L=None):
    """loop-carried quantities (root, loop) read by p"""
    return sorted({(f.a[0], f.a[2][1]) for f in alg.factors(p) if f.op == "rd" and isinstance(f.a[2], tuple)
                   and f.a[2][0] == "it" and (L is None or f.a[2][1] == L)})


PROPS = {}


def prop(pid, title=""):
    def deco(f):
        PROPS[pid] = f
        return f
    return deco
