"""P14: the Python interface and the base class interface show the solver's own live state."""
import re
from spec import *
from ir import walk
from settings import field_of, qualified, same_value
from rollout import param
from solve import ALL

BASES = {"SolverDDP": "crocoddyl::SolverAbstract", "SolverFDDP": NS + "SolverDDP", "SolverSQP": NS + "SolverDDP", "SolverCSQP": NS + "SolverDDP",
         "SolverPROXQP": NS + "SolverDDP"}
# Python name -> member it shows; "rw" members can be assigned too
RW, RO = True, False


def same(*names, w=RO):
    return {n: (n + "_", w) for n in names}


TRY = {"xs_try": ("xs_try_", RW), "us_try": ("us_try_", RW), "cost_try": ("cost_try_", RW), "fs_try": ("fs_try_", RW)}
COMMON = {"termination_tolerance": ("termination_tol_", RW), "use_filter_line_search": ("use_filter_line_search_", RW)}
PROPS_ = {
    "SolverDDP": dict(same("Vxx", "Vx", "Qxx", "Qxu", "Quu", "Qx", "Qu", "K", "k", "KKT"), **same("reg_min", "reg_max", "th_grad", "alphas", "lag_mul", w=RW),
                      reg_incFactor=("reg_incfactor_", RW), reg_decFactor=("reg_decfactor_", RW), th_stepDec=("th_stepdec_", RW), th_stepInc=("th_stepinc_", RW),
                      termination_tolerance=("termination_tol_", RW)),
    "SolverFDDP": dict(COMMON, **same("KKT"), **same("filter_size", "lag_mul", w=RW), th_acceptNegStep=("th_acceptnegstep_", RW)),
    "SolverSQP": dict(COMMON, **TRY, **same("KKT", "merit", "dx", "du"), **same("filter_size", "lag_mul", "mu_dynamic", "extra_iteration_for_last_kkt", w=RW)),
    "SolverCSQP": dict(COMMON, **TRY, **same("KKT", "merit", "dx", "du", "qp_iters", "gap_norm", "constraint_norm", "max_solve_time_reached"),
                       **same("xs", "us", "filter_size", "lag_mul", "mu_dynamic", "mu_constraint", "extra_iteration_for_last_kkt", "norm_primal", "norm_dual", "norm_primal_rel",
                              "norm_dual_rel", "rho_vec", "y", "z", "reset_y", "reset_rho", "update_rho_with_heuristic", "remove_reg", "with_qp_callbacks",
                              "lag_mul_inf_norm_coef", "eps_abs", "eps_rel", "rho_sparse", "equality_qp_initial_guess", "sigma", "alpha", "max_qp_iters",
                              "rho_update_interval", "adaptive_rho_tolerance", "max_solve_time", w=RW),
                       dx_tilde=("dxtilde_", RO), du_tilde=("dutilde_", RO)),
    "SolverPROXQP": dict(COMMON, **TRY, **same("qp_iters", "gap_norm", "constraint_norm", "dx", "du", "y", "fs", "lag_mul", "P", "A", "C", "q", "b", "l", "u"),
                         **same("xs", "us", "with_callbacks", "eps_abs", "max_qp_iters", w=RW), KKT_norm=("KKT_", RO)),
}
SOLVE = ("self", "init_xs", "init_us", "maxiter", "isFeasible", "regInit")
# Python method -> names of its arguments
METHODS = {
    "SolverDDP": {"solve": SOLVE, "computeDirection": ("self", "recalc"), "tryStep": ("self", "stepLength"), "stoppingCriteria": ("self",), "expectedImprovement": ("self",),
                  "calcDiff": ("self",), "backwardPass": ("self",), "forwardPass": ("self", "stepLength"), "setCallbacks": ("self", "callbacks"), "getCallbacks": ("self",)},
    "SolverFDDP": {"solve": SOLVE, "updateExpectedImprovement": ("self",)},
    "SolverSQP": {"solve": SOLVE},
    "SolverCSQP": {"solve": SOLVE, "calc": ("self", "recalc"), "update_lagrangian_parameters": ("self",), "forwardPass": ("self",), "backwardPass": ("self",),
                   "backwardPass_without_constraints": ("self",), "backwardPass_without_rho_update": ("self",), "update_rho_vec": ("self", "iter"),
                   "computeDirection": ("self", "recalcDiff"), "checkKKTConditions": ("self",)},
    "SolverPROXQP": {"solve": SOLVE, "calc": ("self", "recalc"), "computeDirection": ("self", "recalcDiff")},
}
# what crocoddyl's own interface (C++ accessors and Python properties of SolverAbstract) shows
ABSTRACT = {"get_" + n: n + "_" for n in ("problem", "xs", "us", "fs", "cost", "merit", "stop", "preg", "dreg", "steplength", "iter", "th_acceptstep", "th_stop",
                                          "th_gaptol", "ffeas", "hfeas", "gfeas", "feas", "dV", "dPhi", "dVexp", "dPhiexp", "inffeas")}
ABSTRACT.update({"set_" + n: n + "_" for n in ("xs", "us", "preg", "dreg", "th_acceptstep", "th_stop", "th_gaptol", "inffeas")})
ABSTRACT["get_is_feasible"] = "is_feasible_"


class Reg:
    """one registration: name, kind, getter / setter / method / member, names of arguments, line"""

    def __init__(self, kind, name, l):
        self.kind, self.name, self.l = kind, name, l
        self.get = self.set = self.mem = self.fn = None
        self.args = None
        self.doc = ""


def const_str(n, env):
    while isinstance(n, dict) and n.get("k") in ("cast", "paren", "mat", "tmp"):
        n = n.get("x")
    if not isinstance(n, dict):
        return None
    if n.get("k") == "str":
        return n["v"]
    if n.get("k") == "ref" and n.get("id") in env:
        return const_str(env[n["id"]], {})
    return None


def peel(n, env=None):
    while isinstance(n, dict):
        if n.get("k") in ("cast", "icast", "paren") and n.get("x") is not None:
            n = n["x"]
        elif n.get("k") == "ctor" and len(n.get("a") or ()) == 1:
            n = n["a"][0]
        elif env and n.get("k") == "ref" and n.get("id") in env:
            n = env[n["id"]]
        else:
            break
    return n


def through(f):
    """what a function or lambda (solver, arguments...) only forwards to: ("fn", q) / ("mem", class, name) / None"""
    ps = [q["id"] for q in f.get("ps") or ()]
    env, last = {}, None
    body = f.get("body") or {}
    for st in body.get("b") or ():
        if st.get("k") == "decl" and last is None:
            for v in st["v"]:
                if v.get("init") is None:
                    return None
                env[v["id"]] = v["init"]
        elif st.get("k") in ("ret", "expr") and last is None and st.get("x") is not None:
            last = peel(st["x"], env)
        else:
            return None

    def isp(n, i):
        n = peel(n, env)
        return isinstance(n, dict) and n.get("k") == "ref" and i < len(ps) and n.get("id") == ps[i]
    if not last or not ps:
        return None
    if last.get("k") == "mcall" and isp(last["o"], 0) and all(isp(a, i + 1) for i, a in enumerate(last["a"])) and len(last["a"]) == len(ps) - 1:
        return ("fn", last["q"])
    if last.get("k") == "mem" and isp(last["b"], 0) and len(ps) == 1:
        return ("mem", last["cls"], last["f"])
    if last.get("op") == "=" and len(ps) == 2:
        l, r = last["a"][:2] if "a" in last else (last["L"], last["R"])
        l = peel(l, env)
        if isinstance(l, dict) and l.get("k") == "mem" and isp(l["b"], 0) and isp(r, 1):
            return ("mem", l["cls"], l["f"])
    return None


def target(n, p=None):
    """the function or member a registration argument refers to: ("fn", q) / ("mem", class, name) / None"""
    for x in walk(n):
        if x.get("k") == "lambda":
            return through(x) or ("lambda",)
        r = None
        if x.get("k") == "un" and x.get("op") == "&" and isinstance(x.get("x"), dict) and x["x"].get("k") == "ref":
            r = x["x"]
            if not r.get("q"):
                m = re.search(r"([\w:]+)::\*", x.get("ty", ""))
                if m:
                    return ("mem", m.group(1), r["n"])
                r = None
        elif x.get("k") == "ref" and x.get("q") and x.get("dk") not in ("parm", "var"):
            r = x
        if r is not None:
            fs = [f for f in (p.by_name.get(r["q"], []) if p else []) if (f.get("l") or "").startswith("bindings/")]
            if len(fs) == 1:
                return through(fs[0]) or ("lambda",)
            if r is x and "Solver" not in r["q"]:
                continue
            return ("fn", r["q"])
    return None


def argnames(n):
    for x in walk(n):
        if x.get("k") == "call" and x.get("n") in ("args",):
            return tuple(a.get("v") for a in x["a"])
        if x.get("k") == "ctor" and "keywords<1>" in (x.get("fid") or ""):
            return tuple(a.get("v") for a in x["a"])
    return None


def registrations(c):
    p = c.bindings
    out, bases, und = {}, {}, []
    for q, fs in sorted(p.by_name.items()):
        for f in fs:
            if not (f.get("l") or "").startswith("bindings/"):
                continue
            env = {}
            for x in walk(f):
                if x.get("k") == "decl":
                    for v in x.get("v") or []:
                        if isinstance(v, dict) and v.get("id") is not None and v.get("init") is not None:
                            env[v["id"]] = v["init"]
            for x in walk(f):
                if x.get("k") != "mcall":
                    continue
                m = re.match(r"boost::python::class_<([\w:]+)(?:, boost::python::bases<([\w:]+)>)?", x.get("q") or "")
                if not m or x["n"] not in ("def", "add_property", "def_readwrite", "def_readonly"):
                    continue
                cls = m.group(1)
                bases.setdefault(cls, m.group(2))
                a = x["a"]
                nm = const_str(a[0], env) if a else None
                if nm is None:
                    continue
                r = Reg(x["n"], nm, x["l"])
                r.doc = " ".join(" ".join(w["v"] for y in a[1:] for w in walk(y) if w.get("k") == "str").split())
                ts = [target(y, p) for y in a[1:]]
                ts = [y for y in ts if y]
                if x["n"] == "add_property":
                    r.get = ts[0] if ts else None
                    r.set = ts[1] if len(ts) > 1 else None
                elif x["n"] == "def":
                    r.fn = ts[0] if ts else None
                    for y in a[1:]:
                        r.args = r.args or argnames(y)
                else:
                    r.mem = ts[0] if ts else None
                out.setdefault(cls, {}).setdefault(nm, []).append(r)
    return out, bases


def shown(c, cls, r):
    """location of the member a registration of class cls shows: (root, None) or (None, reason)"""
    tg = r.mem or r.get
    if tg is None or tg[0] == "lambda":
        return None, "target of the registration not resolved"
    if tg[0] == "mem":
        return tg[1].split("::")[-1] + "::" + tg[2], None
    k, n = tg[1].rsplit("::", 1)
    if k == "crocoddyl::SolverAbstract":
        return ("SolverAbstract::" + ABSTRACT[n], None) if n in ABSTRACT else (None, "unknown accessor %s" % n)
    u, root = field_of(c, k[len(NS):], n)
    return root, None if root else "getter %s returns more than a member" % n


def data(c, regs):
    rule = "property shows its member"
    for cls, want in PROPS_.items():
        have = regs.get(NS + cls, {})
        for nm, (mem, rw) in sorted(want.items()):
            lab = "%s.%s " % (cls, nm)
            q = qualified(c, cls, mem)
            if q is None:
                c.undecided(lab, "no member %s" % mem)
                continue
            if nm not in have:
                c.bad(lab + "is exposed", "bindings", "no registration of this name for %s" % cls, rule=rule)
                continue
            writable = False
            for r in have[nm]:
                root, why = shown(c, cls, r)
                if root is None:
                    c.undecided(lab, why)
                    continue
                c.check(lab + "shows %s" % mem, root == q, r.l, "shows %s instead of %s" % (root, q), rule=rule)
                if r.kind == "def_readwrite":
                    writable = True
                if r.set is not None:
                    writable = True
                    if r.set[0] == "mem":
                        k, n = r.set[1].split("::")[-1], r.set[2]
                        c.check(lab + "assigns %s" % mem, k + "::" + n == q, r.l, "assigns %s::%s instead of %s" % (k, n, q), rule=rule)
                        continue
                    if r.set[0] != "fn":
                        c.undecided(lab, "setter not resolved")
                        continue
                    k, n = r.set[1].rsplit("::", 1)
                    if k == "crocoddyl::SolverAbstract":
                        c.check(lab + "assigns %s" % mem, n.startswith("set_") and ABSTRACT.get(n) == mem, r.l, "assigned by %s" % n, rule=rule)
                        continue
                    u = c.U(k[len(NS):], n)
                    u.ty(root)
                    vec = len(u.f["ps"]) == 1 and "vector" in u.f["ps"][0]["ty"]
                    got = u.E.read_store(u.res.st.s, root, (t,) if vec else ())
                    w = u.pre("p:" + u.f["ps"][0]["n"], t) if vec else param(u, 0)
                    c.check(lab + "assigns %s" % mem, same_value(got, w), r.l, "assignment through %s leaves %s" % (n, show(got)[:200] if isinstance(got, Poly) else got), rule=rule)
            if rw:
                c.check(lab + "can be assigned", writable, have[nm][0].l, "registered read-only", rule=rule)


def methods(c, regs):
    rule = "method calls its namesake"
    for cls, want in METHODS.items():
        have = regs.get(NS + cls, {})
        for nm, args in sorted(want.items()):
            lab = "%s.%s() " % (cls, nm)
            l = [r for r in have.get(nm, ()) if r.kind == "def"]
            if not l:
                c.bad(lab + "is exposed", "bindings", "no registration of this name for %s" % cls, rule=rule)
                continue
            for r in l:
                if r.fn is None or r.fn[0] != "fn":
                    c.undecided(lab, "target of the registration not resolved")
                    continue
                k, n = r.fn[1].rsplit("::", 1)
                f = c.prog.method(NS + cls, nm)
                decl = c.prog.declared_in(NS + cls, nm)[0]
                c.check(lab + "calls it", n == nm and (k == decl or k in c.prog.chain(NS + cls)), r.l, "calls %s" % r.fn[1], rule=rule)
                if r.args is not None:
                    c.check(lab + "names its arguments in order", r.args == args, r.l, "arguments are named %s instead of %s" % (r.args, args), rule="keyword arguments")


def inherited(c, regs):
    """names of a base class must not show a base member that the derived class hides"""
    rule = "no hidden state"
    for cls in BASES:
        ch = c.prog.chain(NS + cls)
        own = regs.get(NS + cls, {})
        for b in ch[1:]:
            for nm, l in sorted(regs.get(b, {}).items()):
                for r in l:
                    if r.kind == "def" or nm in own:
                        continue
                    root, why = shown(c, b[len(NS):], r)
                    if root is None:
                        c.undecided("%s.%s" % (cls, nm), why)
                        continue
                    q = qualified(c, cls, root.split("::")[-1])
                    c.check("%s.%s inherited from %s shows the live member" % (cls, nm, b.split("::")[-1]), q == root, r.l,
                            "shows %s, but %s works on %s" % (root, cls, q), rule=rule)
        # C++ accessors of base classes
        n = 0
        for i, b in enumerate(ch):
            for m in c.prog.recs[b]["methods"]:
                nm = m["n"]
                if not (nm.startswith("get_") or nm.startswith("set_")) or m.get("virt"):
                    continue
                if b == "crocoddyl::SolverAbstract":
                    mem = ABSTRACT.get(nm)
                    root = None if mem is None else "SolverAbstract::" + mem
                elif nm.startswith("get_"):
                    root = field_of(c, b[len(NS):], nm)[1]
                else:
                    ws = sorted(c.U(b[len(NS):], nm).res.written())
                    root = ws[0] if len(ws) == 1 else None
                if root is None:
                    continue
                q = qualified(c, cls, root.split("::")[-1])
                if q is None:
                    continue
                tb = c.prog.field_cls(b, root.split("::")[-1])[1]
                td = c.prog.field_cls(NS + cls, root.split("::")[-1])[1]
                if tb is not None and td is not None and tb["ty"] != td["ty"]:
                    continue
                n += 1
                c.check("%s: %s::%s works on the live member" % (cls, b.split("::")[-1], nm), q == root, (td or {}).get("l", "include"),
                        "%s declares its own %s, which hides the %s that %s accesses" % (q.split("::")[0], root.split("::")[-1], root, nm), rule=rule)
        if n < 20:
            c.undecided(cls, "only %d accessors found" % n)


def module(c, regs, bases):
    rule = "module"
    p = c.bindings
    for cls, b in BASES.items():
        c.check("%s is exposed with its base class" % cls, bases.get(NS + cls) == b, "bindings", "exposed with base %s instead of %s" % (bases.get(NS + cls), b), rule=rule)
    init = [f for q, f in p.by_name.items() if q.startswith("init_module")]
    if not init:
        c.undecided("module", "module initialisation not found")
        return
    # classes in the order in which the module exposes them
    order = []
    seen = set()

    def visit(f):
        if f["fid"] in seen:
            return
        seen.add(f["fid"])
        for x in walk(f["body"]):
            if x.get("k") == "mcall":
                m = re.match(r"boost::python::class_<([\w:]+)", x.get("q") or "")
                if m and m.group(1) not in order:
                    order.append(m.group(1))
            if x.get("k") == "ctor":
                m = re.match(r"boost::python::class_<([\w:]+)", x.get("fid") or "")
                if m and m.group(1) not in order:
                    order.append(m.group(1))
            if x.get("k") == "call" and x.get("fid") in p.funcs:
                visit(p.funcs[x["fid"]])
    visit(init[0][0])
    for cls, b in BASES.items():
        ok = NS + cls in order
        c.check("module exposes %s" % cls, ok, "bindings/main.cpp", "never exposed", rule=rule)
        if ok and b.split("::")[-1] in BASES:
            c.check("module exposes %s after its base class" % cls, b in order and order.index(b) < order.index(NS + cls), "bindings/main.cpp", "exposed before %s" % b, rule=rule)
    # Python callbacks get the solver and its type
    for f in p.by_name.get(NS + "CallbackAbstract_wrap::operator()", []):
        calls = [x for x in walk(f) if x.get("k") == "call" and x.get("q") == "boost::python::call"]
        lab = "Python callback with %d argument(s) " % len(f["ps"])
        if not calls:
            c.undecided(lab, "call of the Python object not found")
            continue
        for x in calls:
            ids = [y.get("id") for a in x["a"][1:] for y in walk(a) if y.get("k") == "ref" and y.get("dk") == "parm"]
            c.check(lab + "gets its arguments in order", ids == [q["id"] for q in f["ps"]], x["l"], "called with other arguments", rule="Python callbacks")
            strs = [y.get("v") for y in walk(f) if y.get("k") == "str"]
            c.check(lab + "calls __call__", strs == ["__call__"], x["l"], "calls %s" % strs, rule="Python callbacks")


INTERFACE = ("solve", "computeDirection", "tryStep", "stoppingCriteria", "expectedImprovement", "resizeData", "calcDiff", "backwardPass", "forwardPass", "computeGains",
             "checkKKTConditions")


def dispatched(c):
    """a class that redefines an operation of its base class overrides it, so calls through the base class reach it"""
    rule = "operations are overridden, not hidden"
    n = 0
    for cls in list(ALL) + ["SolverKKT"]:
        ch = [q for q in c.prog.chain(NS + cls) if q in c.prog.recs]
        own = {}
        for m in c.prog.recs[ch[0]]["methods"]:
            own.setdefault(m["n"], []).append(m)
        for nm in INTERFACE:
            ms = own.get(nm)
            if not ms:
                continue
            base = [m for b in ch[1:] for m in c.prog.recs[b]["methods"] if m["n"] == nm]
            if not base:
                continue
            n += 1
            c.check("%s::%s overrides the operation of its base class" % (cls, nm), any(m.get("ov") for m in ms), ms[0]["l"],
                    "%s does not override %s, which stays what calls through the base class (and inherited Python methods) run" % (ms[0]["fid"], base[0]["fid"]), rule=rule)
    if n < 20:
        c.broken.append("only %d redefined operations found" % n)


@prop("P14")
def p14(c):
    regs, bases = registrations(c)
    data(c, regs)
    methods(c, regs)
    inherited(c, regs)
    dispatched(c)
    module(c, regs, bases)
