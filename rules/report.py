"""P26: what callbacks print and log are the solver's own quantities under their names."""
import ast, os, re
from spec import *
import sem, ir

CB = "CallbackVerbose"
COPIERS = {"copy", "deepcopy", "list", "array", "asarray_chkfinite"}


# ------------------------------------------------------------------ printed rows
def printed(u, pick, drop=()):
    """sequence of what is printed when the guard atoms have the values chosen by pick(atom): values and texts"""
    out = []
    for e in u.evs("print"):
        g = e.guard
        for f in list(alg.factors(g)):
            v = pick(f)
            if v is not None:
                g = cofactor(g, f, v)
        if g is ZERO:
            continue
        a = e.args[0]
        if isinstance(a, sem.Obj):
            if a.kind != "str":
                continue
            if not a.x.strip():
                continue
            out.append((a.x.strip(), g, e))
        else:
            out.append((e.r(a), g, e))
    return out


def compared(f):
    """text a string is compared with in guard atom f"""
    if f.op in ("b", "bfn", "fn") and f.a[0] == "objeq":
        for p in f.a[1] if isinstance(f.a[1], tuple) else f.a[1:]:
            q = sole_factor(p) if isinstance(p, Poly) else None
            if q is not None and q.op == "sym" and str(q.a[0]).startswith("str:"):
                return q.a[0][4:]
    return None


def rows(c, lab, u, titles, quantity, pick0, where, blank, kkt, tol):
    """compare the printed columns with their titles, for a running and a converged solver"""
    rule = "printed columns"
    odd = {}
    for conv in (False, True):
        def pick(f):
            v = pick0(f)
            if v is None and f.op in ("flt", "fle") and any("KKT" in str(g.a[0]) for p in f.a if isinstance(p, Poly) for g in alg.factors(p) if g.op == "rd"):
                if fpoly(f) in (flt(kkt, tol), fle(kkt, tol)):
                    return conv
                if fpoly(f) in (flt(tol, kkt), fle(tol, kkt)):
                    return not conv
                odd[f] = 1
                return conv
            return v
        row = printed(u, pick)
        for f in odd if not conv else ():
            c.bad(lab + "a converged point is one within the tolerance", where, "step-related columns are blank by the condition %s" % show(fpoly(f))[:200], rule=rule)
        l = lab + ("converged" if conv else "running") + ": "
        if any(g is not ONE for _, g, _ in row):
            c.undecided(l, "printed under a condition which is not understood: %s" % show([g for _, g, _ in row if g is not ONE][0])[:200])
            continue
        if not c.check(l + "one entry per title", len(row) == len(titles), where, "prints %d entries under %d titles" % (len(row), len(titles)), rule=rule):
            continue
        for ti, (v, g, e) in zip(titles, row):
            if ti not in quantity:
                c.undecided(l, "unknown column '%s'" % ti)
                continue
            if conv and ti in blank:
                c.check(l + "column '%s' is blank" % ti, isinstance(v, str), e.l, "prints %s, which belongs to the step before" % (show(v) if isinstance(v, Poly) else v), rule=rule)
                continue
            if isinstance(v, str):
                c.bad(l + "column '%s'" % ti, e.l, "prints the text '%s'" % v, rule=rule)
                continue
            w = quantity[ti]
            if callable(w):
                w = w(conv)
            w = w if isinstance(w, tuple) else (w,)
            if any(v is x for x in w):
                c.ok(l + "column '%s'" % ti, e.l, rule)
            else:
                c.eq(l + "column '%s'" % ti, v, w[0], e.l, rule)


def opq(n):
    return fpoly(mkF("rd", ("opq:" + n, (), "pre"), "s"))


def verbose(c):
    fs = [f for f in c.prog.by_name.get(NS + CB + "::operator()", []) if len(f["ps"]) == 2]
    if len(fs) != 1:
        c.undecided(CB, "operator()(solver, type) not found")
        return
    u = c.U(CB, "operator()", fid=fs[0]["fid"])
    w = u.where
    fs_ = sem.mkF("sym", ("gap#",), "s")
    root = "X:opq.get_fs"
    u.E.tytab.setdefault(root, sem.VV)
    gaps = alg.sum_over(n1(fpoly(mkF("rd", (root, (fpoly(fs_),), "pre"), "v"))), fs_, ZERO, u.E.length(sem.Ref(root, (), sem.VV)))
    Q = {"iter": opq("get_iter"), "merit": opq("get_merit"), "cost": opq("get_cost"), "||gaps||": (opq("get_gap_norm"), gaps), "||Constraint||": opq("get_constraint_norm"),
         "||(dx,du)||": mul(add(opq("get_xgrad_norm"), opq("get_ugrad_norm")), recip(const(2))), "step": opq("get_steplength"), "KKT criteria": opq("get_KKT"),
         "QP iters": opq("get_qp_iters")}
    need = {"CSQP": list(Q), "SQP": ["iter", "merit", "cost", "||gaps||", "step", "KKT criteria"]}
    head = b_not(nz(fn("mod", (opq("get_iter"), const(10)))))
    # classes that call back with each type
    users = {"CSQP": ["SolverCSQP"], "SQP": ["SolverDDP", "SolverFDDP", "SolverSQP"]}
    for tag in sorted(need):
        lab = "%s type %s, " % (CB, tag)

        def pick0(f, tag=tag):
            s = compared(f)
            return None if s is None else s == tag
        titles = []
        for e in u.evs("append"):
            g = e.guard
            for f in list(alg.factors(g)):
                v = pick0(f)
                if v is not None:
                    g = cofactor(g, f, v)
            if g is ZERO:
                continue
            c.eq(lab + "titles are renewed with every header", g, head, e.l, "printed columns")
            if len(e.args[1].x) > 1:
                c.undecided(lab, "titles not derived at %s" % e.l)
            titles += [x.strip() for x in e.args[1].x]
        for n in need[tag]:
            c.check(lab + "has column '%s'" % n, n in titles, w, "no column of this title", rule="printed columns")

        def pick(f, tag=tag):
            if depends(head, f):
                return True if f in alg.factors(head) and cofactor(head, f, True) is ZERO else None
            return pick0(f, tag)
        rows(c, lab, u, titles, Q, pick, w, ("||(dx,du)||", "step", "QP iters"), opq("get_KKT"), opq("get_termination_tolerance"))
        ok = set(c.prog.chain(NS + users[tag][0]))
        for k in users[tag][1:]:
            ok &= set(c.prog.chain(NS + k))
        for e in u.evs("downcast"):
            g = e.guard
            for f in list(alg.factors(g)):
                v = pick0(f)
                if v is not None:
                    g = cofactor(g, f, v)
            if g is ZERO:
                continue
            k = str(sole_factor(e.args[0]).a[0])[6:]
            c.check(lab + "solver is taken for what it is", any(x.split("::")[-1] == k for x in ok), e.l,
                    "treats the solver as %s, but %s call back with this type" % (k, ", ".join(users[tag])), rule="no wrong casts")
    hs = [e for e in u.evs("print") if isinstance(e.args[0], sem.Obj) and e.args[0].kind == "field" and depends(e.guard, sole_factor(b_not(head)))]
    first = [e for e in u.evs("print") if not depends(e.guard, sole_factor(b_not(head)))]
    c.check(CB + " prints its header before the row", bool(hs) and (not first or u.E.events.index(hs[0]) < u.E.events.index(first[0])), w, "the header is not printed before the row",
            rule="printed columns")
    for k, n in (("SolverDDP", "SQP"), ("SolverFDDP", "SQP"), ("SolverSQP", "SQP"), ("SolverCSQP", "CSQP")):
        s = c.U(k, "solve")
        es = s.evs("call:opaque")
        c.check(k + " calls back", bool(es), s.where, "never calls back", rule="callback arguments")
        for e in es:
            a = e.args
            c.check(k + " passes itself to callbacks", len(a) == 2 and isinstance(a[0], sem.Obj) and a[0].kind == "this", e.l, "passes something else", rule="callback arguments")
            ss = re.findall(r"'([^']*)'", repr([x.x for x in texts(a[1:])]))
            if len(ss) != 1:
                c.undecided(k, "type passed to callbacks at %s" % e.l)
            else:
                c.check(k + " passes its type to callbacks", ss[0] == n, e.l, "passes %s instead of %s" % (ss[0], n), rule="callback arguments")


def texts(x):
    if isinstance(x, sem.Obj):
        if x.kind == "str":
            return [x]
        return texts(x.x)
    if isinstance(x, (list, tuple)):
        return [y for z in x for y in texts(z)]
    return []


def tables(c):
    """row printed by the ProxQP-based solver, and the QP trace of the constrained solver"""
    u = c.U("SolverPROXQP", "printCallbacks")
    P = u.pre
    tight = [f for e in u.evs("print") for f in alg.factors(e.guard) if f.op in ("flt", "fle")]
    lab = "SolverPROXQP::printCallbacks "
    head = b_not(nz(fn("mod", (P("iter_"), const(10)))))
    hd = [a for a in printed(u, lambda f: None) if isinstance(a[0], str) and re.search(r"\S\s\s+\S", a[0])]
    if len(hd) != 1:
        c.undecided(lab, "header not found")
    else:
        c.eq(lab + "header every tenth iteration", hd[0][1], head, hd[0][2].l, "printed columns")
        titles = re.split(r"\s\s+", re.sub(r"(step|cost|grad|KKT|gaps\|\|) (\|\||[a-zA-Z])", r"\1  \2", hd[0][0]))
        Q = {"iter": add(P("iter_"), ONE), "merit": P("merit_"), "cost": P("cost_"), "grad": add(P("x_grad_norm_"), P("u_grad_norm_")), "step": P("steplength_"),
             "||gaps||": P("gap_norm_"), "KKT": P("KKT_"), "Constraint Norms": P("constraint_norm_"), "QP Iters": P("qp_iters_")}
        for n in Q:
            c.check(lab + "has column '%s'" % n, n in titles, hd[0][2].l, "no column of this title", rule="printed columns")

        def pick(f):
            return True if f in alg.factors(head) else None
        rows(c, lab, u, titles, Q, pick, u.where, ("iter", "step"), u.pre("KKT_"), u.pre("termination_tol_"))
    s = c.U("SolverPROXQP", "solve")
    on = sole_factor(s.pre("with_callbacks_"))
    es = s.evs("print")
    c.check("SolverPROXQP::solve prints when asked", bool(es), s.where, "never prints", rule="printed when asked")
    for e in es[:1] + [x for x in es if cofactor(x.guard, on, False) is not ZERO][:3]:
        c.check("SolverPROXQP::solve is silent unless asked", cofactor(e.guard, on, False) is ZERO, e.l, "prints although callbacks are off", rule="printed when asked")
    u = c.U("SolverCSQP", "printQPCallbacks")
    seq = printed(u, lambda f: None)
    want = {"Iters": u.pre("p:iter"), "norm_primal": u.pre("norm_primal_"), "norm_primal_tol": u.pre("norm_primal_tolerance_"), "norm_dual": u.pre("norm_dual_"),
            "norm_dual_tol": u.pre("norm_dual_tolerance_")}
    seen = set()
    for (a, _, _), (b, g, e) in zip(seq[::2], seq[1::2]):
        k = a.strip(" =:") if isinstance(a, str) else None
        if k not in want or not isinstance(b, Poly):
            c.undecided("SolverCSQP::printQPCallbacks", "printed entry at %s not understood" % e.l)
            continue
        seen.add(k)
        c.eq("SolverCSQP::printQPCallbacks %s" % k, b, want[k], e.l, "printed columns")
        c.eq("SolverCSQP::printQPCallbacks %s always" % k, g, ONE, e.l, "printed columns")
    for k in sorted(set(want) - seen):
        c.bad("SolverCSQP::printQPCallbacks %s" % k, u.where, "not printed", rule="printed columns")
    s = c.U("SolverCSQP", "computeDirection")
    on = sole_factor(s.pre("with_qp_callbacks_"))
    for e in s.evs("printQPCallbacks", "print"):
        c.check("QP trace is silent unless asked", cofactor(e.guard, on, False) is ZERO, e.l, "prints although the QP trace is off", rule="printed when asked")


# ------------------------------------------------------------------ the Python logger
class Unknown(Exception):
    pass


class PyEval:
    """interprets CallbackLogger.__call__ for one fixed solver type over symbolic values"""

    def __init__(self, cls, typ):
        self.typ, self.log, self.loc, self.raised = typ, {}, [], False
        self.cls = cls
        self.glob = {}
        self.ret = None

    def call_method(self, fn, args):
        env = dict(zip([a.arg for a in fn.args.args], args))
        try:
            self.block(fn.body, env)
        except Return as r:
            return r.v

    def block(self, ss, env):
        for s in ss:
            self.stmt(s, env)

    def stmt(self, s, env):
        if isinstance(s, ast.Expr):
            self.ex(s.value, env)
        elif isinstance(s, (ast.Assign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            v = self.ex(s.value, env)
            for x in ts:
                self.bind(x, v, env)
        elif isinstance(s, ast.If):
            self.block(s.body if self.truth(s.test, env) else s.orelse, env)
        elif isinstance(s, ast.FunctionDef):
            env[s.name] = ("func", s, env)
        elif isinstance(s, ast.For):
            it = self.ex(s.iter, env)
            if it[0] not in ("list",):
                raise Unknown("loop at line %d" % s.lineno)
            for x in it[1]:
                self.bind(s.target, x, env)
                self.block(s.body, env)
        elif isinstance(s, ast.Raise):
            self.raised = True
            raise Return(None)
        elif isinstance(s, ast.Return):
            raise Return(self.ex(s.value, env) if s.value else ("none",))
        elif isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom)):
            pass
        else:
            raise Unknown("statement at line %d" % s.lineno)

    def bind(self, x, v, env):
        if isinstance(x, ast.Name):
            env[x.id] = v
        elif isinstance(x, ast.Tuple) and v[0] == "list" and len(v[1]) == len(x.elts):
            for y, z in zip(x.elts, v[1]):
                self.bind(y, z, env)
        elif isinstance(x, ast.Subscript):
            b, k = self.ex(x.value, env), self.ex(x.slice, env)
            if b == ("log",) and k[0] == "const" and v[0] == "list":
                self.log[k[1]] = list(v[1])
            else:
                raise Unknown("assignment at line %d" % x.lineno)
        elif isinstance(x, ast.Attribute) and self.ex(x.value, env) == ("self",) and x.attr == "convergence_data" and v[0] == "dict" \
                and all(k[0] == "const" and y[0] == "list" for k, y in v[1]):
            self.log = {k[1]: list(y[1]) for k, y in v[1]}
        elif isinstance(x, ast.Attribute) and self.ex(x.value, env) == ("self",) and x.attr != "convergence_data":
            pass
        else:
            raise Unknown("assignment at line %d" % x.lineno)

    def truth(self, e, env):
        if isinstance(e, ast.BoolOp):
            vs = [self.truth(x, env) for x in e.values]
            return all(vs) if isinstance(e.op, ast.And) else any(vs)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not self.truth(e.operand, env)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.ex(e.left, env), self.ex(e.comparators[0], env)
            o = e.ops[0]
            if isinstance(o, (ast.In, ast.NotIn)):
                if b == ("log",) and a[0] == "const":
                    r = a[1] in self.log
                elif b[0] == "list" and a[0] == "const" and all(x[0] == "const" for x in b[1]):
                    r = a in b[1]
                else:
                    raise Unknown("condition at line %d" % e.lineno)
                return r == isinstance(o, ast.In)
            if isinstance(o, (ast.Eq, ast.NotEq)) and a[0] == b[0] == "const":
                return (a == b) == isinstance(o, ast.Eq)
        v = self.ex(e, env)
        if v[0] == "const":
            return bool(v[1])
        raise Unknown("condition at line %d" % e.lineno)

    def ex(self, e, env):
        if isinstance(e, ast.Constant):
            return ("const", e.value)
        if isinstance(e, ast.Name):
            return env.get(e.id) or ("global", e.id)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return ("list", [self.ex(x, env) for x in e.elts])
        if isinstance(e, ast.Dict):
            return ("dict", [(self.ex(k, env), self.ex(v, env)) for k, v in zip(e.keys, e.values)])
        if isinstance(e, ast.Attribute):
            b = self.ex(e.value, env)
            if b == ("solver",):
                return ("attr", e.attr)
            if b == ("self",) and e.attr == "convergence_data":
                return ("log",)
            return ("method", b, e.attr)
        if isinstance(e, ast.Subscript):
            b, k = self.ex(e.value, env), self.ex(e.slice, env)
            if b == ("log",) and k[0] == "const":
                return ("logkey", k[1])
            if b[0] == "dict":
                for x, y in b[1]:
                    if x == k:
                        return y
            raise Unknown("subscript at line %d" % e.lineno)
        if isinstance(e, ast.Call):
            f = self.ex(e.func, env)
            a = [self.ex(x, env) for x in e.args]
            if f[0] == "func":
                q = dict(zip([x.arg for x in f[1].args.args], a))
                for k in e.keywords:
                    q[k.arg] = self.ex(k.value, env)
                n = dict(f[2])
                n.update(q)
                try:
                    self.block(f[1].body, n)
                except Return as r:
                    return r.v if r.v is not None else ("none",)
                return ("none",)
            if f[0] == "method":
                b, m = f[1], f[2]
                if b[0] == "logkey" and m == "append" and len(a) == 1:
                    if b[1] not in self.log:
                        raise Unknown("append to a missing key at line %d" % e.lineno)
                    self.log[b[1]].append(a[0])
                    return ("none",)
                if b == ("log",) and m == "setdefault" and a[0][0] == "const":
                    self.log.setdefault(a[0][1], list(a[1][1]) if len(a) > 1 and a[1][0] == "list" else [])
                    return ("logkey", a[0][1])
                if b[0] == "dict" and m in ("items", "keys", "values"):
                    return ("list", [("list", [k, v]) if m == "items" else k if m == "keys" else v for k, v in b[1]])
                if b[0] == "global" and m in COPIERS and len(a) >= 1:
                    return ("copy", a[0])
                if b[0] == "attr" and m == "copy":
                    return ("copy", b)
                if b == ("self",):
                    for g in self.cls.body:
                        if isinstance(g, ast.FunctionDef) and g.name == m:
                            r = self.call_method(g, [("self",)] + a)
                            return r or ("none",)
            if f == ("global", "getattr") and a[0] == ("solver",) and a[1][0] == "const":
                return ("attr", a[1][1])
            if f[0] == "global" and f[1] in ("list", "copy", "deepcopy") and len(a) == 1:
                return ("copy", a[0])
            raise Unknown("call at line %d" % e.lineno)
        raise Unknown("expression at line %d" % getattr(e, "lineno", 0))


class Return(Exception):
    def __init__(self, v):
        self.v = v


def logger(c):
    rule = "logged quantities"
    f = "bindings/mim_solvers/__init__.py"
    try:
        tree = ast.parse(open(os.path.join(ir.REPO, f)).read())
    except (OSError, SyntaxError) as x:
        c.undecided("CallbackLogger", str(x))
        return
    k = [x for x in ast.walk(tree) if isinstance(x, ast.ClassDef) and x.name == "CallbackLogger"]
    m = [x for y in k for x in y.body if isinstance(x, ast.FunctionDef) and x.name == "__call__"]
    if not m:
        c.undecided("CallbackLogger", "__call__ not found")
        return
    where = "%s:%d" % (f, m[0].lineno)
    base = {"us": "us", "xs": "xs", "fs": "fs", "iter": "iter", "cost": "cost", "merit": "merit", "preg": "preg", "dreg": "dreg", "step": "stepLength", "KKT": "KKT"}
    for typ, want in (("SQP", base), ("CSQP", dict(base, gap_norm="gap_norm", constraint_norm="constraint_norm", qp_iter="qp_iters"))):
        ev = PyEval(k[0], typ)
        for d in tree.body:
            if isinstance(d, ast.Assign):
                try:
                    ev.stmt(d, ev.glob)
                except Unknown:
                    pass
        try:
            for _ in range(2):
                env = dict(ev.glob)
                env.update(zip([a.arg for a in m[0].args.args], [("self",), ("solver",), ("const", typ)]))
                try:
                    ev.block(m[0].body, env)
                except Return:
                    pass
        except Unknown as x:
            c.undecided("CallbackLogger", "%s not understood" % x)
            continue
        lab = "CallbackLogger for %s: " % typ
        c.check(lab + "is supported", not ev.raised, where, "raises for this type", rule=rule)
        for n, a in sorted(want.items()):
            v = ev.log.get(n)
            if not c.check(lab + "'%s' gets one entry per call" % n, v is not None and len(v) == 2, where, "has %s entries after two calls" % (0 if v is None else len(v)), rule=rule):
                continue
            c.check(lab + "'%s' gets the same quantity in every call" % n, v[0] == v[1], where, "logs %s, then %s" % tuple(v), rule=rule)
            x, cp = v[0], False
            while x[0] == "copy":
                x, cp = x[1], True
            c.check(lab + "'%s' is the solver's %s" % (n, a), x == ("attr", a), where, "logs %s" % (x,), rule=rule)
            if n in ("us", "xs", "fs"):
                c.check(lab + "'%s' is a snapshot" % n, cp, where, "keeps a reference to the live trajectory, which later iterations overwrite", rule=rule)


@prop("P26")
def p26(c):
    verbose(c)
    tables(c)
    logger(c)
