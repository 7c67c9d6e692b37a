"""P24: a fresh solver is completely initialised, starts neutral, and its defaults are valid and the documented ones."""
import math, re
from spec import *
from ir import walk
from settings import TABLE, REJECT, field_of, qualified
from bindings import registrations, shown
from solve import ALL
import shapes

SCALARS = {"double", "float", "bool", "int", "long", "unsigned int", "unsigned long", "long long", "unsigned long long"}
# containers that are zero on a fresh solver: multipliers and steps; the last node is checked where there is one
NEUTRAL = {
    "SolverDDP": {"lag_mul_": T}, "SolverFDDP": {"lag_mul_": T},
    "SolverSQP": {"lag_mul_": T, "dx_": T, "du_": None},
    "SolverCSQP": {"lag_mul_": T, "y_": T, "z_": T, "dx_": T, "du_": None, "dxtilde_": T, "dutilde_": None},
    "SolverPROXQP": {"lag_mul_": T, "y_": T, "dx_": T, "du_": None},
}
N_STEPS = 10


class Unknown(Exception):
    pass


def number(p, env=None, depth=0):
    """value of a constant expression; Unknown when it depends on anything else"""
    if depth > 40:
        raise Unknown("too deep")
    tot = 0.0
    for (g, sc, ma), k in p.terms.items():
        if any(not truth(f, env, depth + 1) for f in g):
            continue
        v = float(k)
        for f in ma:
            v *= factor(f, env, depth + 1)
        for f, e in sc:
            x = factor(f, env, depth + 1)
            if x == 0 and e < 0:
                raise Unknown("division by zero")
            v *= x ** e
        tot += v
    return tot


def truth(f, env, depth):
    if f.op in ("flt", "ilt", "lt"):
        return number(f.a[0], env, depth) < number(f.a[1], env, depth)
    if f.op in ("fle", "ile", "le"):
        return number(f.a[0], env, depth) <= number(f.a[1], env, depth)
    if f.op == "feq":
        return number(f.a[0], env, depth) == number(f.a[1], env, depth)
    if f.op in ("lt0", "neg"):
        return number(f.a[0], env, depth) < 0
    if f.op in ("eq0", "zero"):
        return number(f.a[0], env, depth) == 0
    raise Unknown(show_any(f))


def show_any(f):
    return alg.show_f(f)[:80]


FUN = {"exp": math.exp, "sqrt": math.sqrt, "log": math.log, "exp2": lambda x: 2.0 ** x, "floor": math.floor, "ceil": math.ceil, "abs": abs}


def factor(f, env, depth):
    if env is not None:
        v = env(f)
        if v is not None:
            return v
    if f.op == "sym" and f.a[0] in ("+inf", "-inf"):
        return math.inf if f.a[0] == "+inf" else -math.inf
    if f.op == "recip":
        x = number(f.a[0], env, depth)
        if x == 0:
            raise Unknown("division by zero")
        return 1.0 / x
    if f.op == "sup":
        return max([number(e, env, depth) for e, g in f.a[0] if number(g, env, depth)])
    if f.op == "min":
        return min([number(e, env, depth) for e in f.a[0]])
    if f.op in ("fn", "bfn"):
        n, a = f.a[0].replace("ext.", "").replace("std::", ""), [x for x in f.a[1] if isinstance(x, Poly)]
        if n == "pow" and len(a) == 2:
            return number(a[0], env, depth) ** number(a[1], env, depth)
        if n == "ldexp" and len(a) == 2:
            return number(a[0], env, depth) * 2.0 ** number(a[1], env, depth)
        if n in FUN and len(a) == 1:
            return float(FUN[n](number(a[0], env, depth)))
    if f.kind == "b":
        return 1.0 if truth(f, env, depth) else 0.0
    raise Unknown(show_any(f))


def fresh(c, cls, m, *idx):
    """value of a member right after construction"""
    lo = layout(c.prog, cls)
    r = qualified(c, cls, m) if "::" not in m else m
    if r is None:
        raise Broken("anchor vanished: member %s of %s" % (m, cls))
    fd = c.prog.field_cls(NS + cls, r.split("::")[-1])[1]
    if fd is not None:
        lo.E.tytab.setdefault(r, sem.strip(fd["ty"]))
    return lo.res.value(r, *idx)


def own(v, r):
    """does the value still depend on what was in the member's memory before construction?"""
    if not isinstance(v, Poly):
        return True
    return any(f.op == "rd" and f.a[0] == r and f.a[2] == "pre" for f in alg.factors(v))


def where_of(c, cls):
    f = [f for f in c.prog.by_name.get(NS + cls + "::" + cls, []) if f.get("ctor")]
    return "%s::%s (%s)" % (cls, cls, f[0].get("l", "?")) if f else cls


# ---------------------------------------------------------------- initialisation
def mentions(c, cls, q, n):
    """functions of the class (and its bases) that mention member n of class q other than as the target of an assignment"""
    out = []
    for k in c.prog.chain(NS + cls):
        for fs in c.prog.by_name.values():
            for f in fs:
                if f.get("cls") != k or f.get("ctor"):
                    continue
                skip = set()
                for x in walk(f.get("body") or {}):
                    if x.get("k") in ("bin", "assign") and x.get("op") == "=":
                        l = x.get("L") or (x.get("a") or [None])[0]
                        if isinstance(l, dict):
                            skip.add(id(l))
                hit = any(x.get("k") == "mem" and x.get("f") == n and x.get("cls") == q and id(x) not in skip for x in walk(f.get("body") or {}))
                if hit and f not in out:
                    out.append(f)
    # helpers are judged where they are called
    fs = [f for k in c.prog.chain(NS + cls) for g in c.prog.by_name.values() for f in g if f.get("cls") == k and not f.get("ctor")]
    todo, res, seen = list(out), [], []
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.append(f)
        callers = [] if f["q"].split("::")[-1] in UNITS else [g for g in fs if g is not f and any(
            x.get("k") in ("mcall", "call") and x.get("q") == f["q"] for x in walk(g.get("body") or {}))]
        if callers:
            todo += callers
        else:
            res.append(f)
    return res


def exposed(u, r):
    """values a function derives from what the member held on entry"""
    out = []
    for w in u.res.written():
        if w == r or w.startswith("len:"):
            continue
        try:
            u.ty(w)
            v = u.res.final(w)
        except Exception:
            continue
        if isinstance(v, Poly) and own(v, r):
            out.append((w, v))
    if isinstance(u.ret, Poly) and own(u.ret, r):
        out.append(("result", u.ret))
    for e in u.E.events:
        if own(e.guard, r):
            out.append((e.name, e.guard))
    return out


def initialised(c, cls):
    rule = "every value is initialised before it is read"
    lo = layout(c.prog, cls)
    n = 0
    for q in c.prog.chain(NS + cls):
        if not q.startswith(NS) or q not in c.prog.recs:
            continue
        for fd in c.prog.recs[q]["fields"]:
            if fd.get("static") or sem.strip(fd["ty"]) not in SCALARS:
                continue
            n += 1
            r = q.split("::")[-1] + "::" + fd["n"]
            lab = "%s: %s " % (cls, r)
            if not own(fresh(c, cls, r), r):
                c.ok(lab + "initialised by the constructor", rule)
                continue
            fs = mentions(c, cls, q, fd["n"])
            if not fs:
                c.ok(lab + "never read", rule)
                continue
            written_first(c, cls, lab, r, fs, fd, rule)
    return n


def written_first(c, cls, lab, r, fs, fd, rule):
    """working storage: computed before it is used, under every condition under which it is used"""
    us, exp = {}, {}
    for f in fs:
        nm = f["q"].split("::")[-1]
        u = c.U(cls, nm)
        us[nm] = u
        e = exposed(u, r)
        if e:
            exp[nm] = e
    if not exp:
        c.ok(lab + "written before it is read in every function", rule)
        return
    for nm, es in exp.items():
        good = False
        for w, u in us.items():
            if w in exp or w not in UNITS | {"solve"} or nm not in UNITS or r not in u.res.written():
                continue
            u.ty(r)
            v = u.res.final(r)
            for a in [None] + sorted(gatoms(v), key=lambda f: f.id) if isinstance(v, Poly) else ():
                for b in (True, False) if a is not None else (True,):
                    vv = v if a is None else cofactor(v, a, b)
                    if not own(vv, r) and all(a is None or not own(cofactor(p, a, not b), r) for _, p in es):
                        good = True
        c.check(lab + "initialised before %s reads it" % nm, good, us[nm].where,
                "%s (%s) has no initial value, and %s reads it although no other function has set it under the same condition" % (r, fd.get("l"), nm), rule=rule)


# ---------------------------------------------------------------- neutral start and step lengths
def neutral(c, cls):
    rule = "fresh solver is neutral"
    w = where_of(c, cls)
    for m, last in NEUTRAL[cls].items():
        for i in (t, last):
            if i is None:
                continue
            v = fresh(c, cls, m, i)
            lab = "%s: %s[%s] zero after construction" % (cls, m, show(i))
            if isinstance(v, Poly):
                c.eq(lab, v, ZERO, w, rule)
            else:
                c.undecided(lab, "value not derived")
    v = fresh(c, cls, "KKT_")
    try:
        bad = number(v) <= number(fresh(c, cls, "termination_tol_"))
        c.check("%s: residual of a solver that has not run" % cls, not bad, w, "is %s, below the default tolerance" % show(v), rule=rule)
    except Unknown as e:
        c.undecided("%s: residual of a solver that has not run" % cls, str(e))


def step_lengths(c, cls):
    rule = "default step lengths"
    w = where_of(c, cls)
    lo = layout(c.prog, cls)
    r = qualified(c, cls, "alphas_")
    lab = "%s: default step lengths" % cls
    n = lo.E.lens.get("len:" + r, lo.E.lens.get(r))
    if not isinstance(n, Poly) or cval(n) is None:
        c.undecided(lab, "number of step lengths not derived")
        return None
    n = int(cval(n))
    got = []
    try:
        for k in range(n):
            got.append(element(c, cls, r, k))
    except Unknown as e:
        c.undecided(lab, "step length not derived: %s" % e)
        return None
    want = [0.5 ** k for k in range(N_STEPS)]
    c.check(lab, got == want, w, "are %s instead of 1, 1/2, 1/4, ..., 1/512" % got, rule=rule)
    return got


def element(c, cls, r, k):
    v = fresh(c, cls, r, const(k))
    if not isinstance(v, Poly):
        raise Unknown("no value")
    return number(v, chained(c, cls, r, k))


def chained(c, cls, r, k, depth=0):
    """values of constants built up along a loop: earlier elements of the list, and scalars carried from one iteration to the next"""
    lo = layout(c.prog, cls)

    def env(f):
        if f.op != "rd" or not isinstance(f.a[2], tuple) or depth > 64:
            return None
        if f.a[2][0] == "rec" and f.a[0] == r and len(f.a[1]) == 1 and isinstance(f.a[1][0], Poly) and cval(f.a[1][0]) is not None:
            return element(c, cls, r, int(cval(f.a[1][0])))
        if f.a[2][0] == "it" and f.a[1] == () and f.a[2][2] == f.a[0]:
            i = lo.E.loopinfo.get(f.a[2][1])
            n = i and i["out"].get("n")
            if not n or i["lo"] is not ZERO or k is None:
                return None
            a = n[1].s.get(r)
            if not isinstance(a, sem.Arr) or not a.ups or any(u.idx != (fpoly(i["isym"]),) for u in a.ups):
                return None
            v = number(lo.E.read_store(i["entry"].s, f.a[0], ()))
            step = lo.E.read_store(n[1].s, f.a[0], ())
            for j in range(k):
                v = number(step, lambda g, v=v, j=j: v if g is f else float(j) if g is i["isym"] else None)
            return v
        return None
    return env


def const(k):
    return alg.const(k)


def cval(p):
    return alg.cval(p)


def valid(c, cls, steps):
    rule = "defaults are accepted by their own setters"
    w = where_of(c, cls)
    for k in c.prog.chain(NS + cls):
        k = k.split("::")[-1]
        for name, (gets, rej) in TABLE.get(k, {}).items():
            if rej is None:
                continue
            u, root = field_of(c, k, gets[0])
            if root is None:
                c.undecided("%s: default of %s" % (cls, name), "member not found")
                continue
            v = fresh(c, cls, root)
            env = chained(c, cls, qualified(c, cls, "alphas_"), len(steps) - 1) if steps else None
            lab = "%s: default of %s is one %s accepts" % (cls, root, name)
            try:
                x = number(v, env)
                c.check(lab, not number(REJECT[rej](v), env), w, "the default %g is %s" % (x, rej), rule=rule)
            except Unknown as e:
                c.undecided(lab, str(e))
    if steps:
        for m in ("th_stepinc_",):
            lab = "%s: default %s notices that the last step length was used" % (cls, m)
            try:
                c.check(lab, number(fresh(c, cls, m), chained(c, cls, qualified(c, cls, "alphas_"), len(steps) - 1)) >= steps[-1], w, "%s is below the smallest step length" % show(fresh(c, cls, m)), rule=rule)
            except Unknown as e:
                c.undecided(lab, str(e))
    lab = "%s: default regularisation range" % cls
    try:
        a, b = number(fresh(c, cls, "reg_min_")), number(fresh(c, cls, "reg_max_"))
        c.check(lab, a < b, w, "minimum %g, maximum %g" % (a, b), rule=rule)
    except Unknown as e:
        c.undecided(lab, str(e))


# ---------------------------------------------------------------- documentation
def said(word):
    w = word.strip().rstrip(".,;")
    if w in ("True", "False"):
        return float(w == "True")
    try:
        return float(w)
    except ValueError:
        return None


def documented(c):
    rule = "documented default"
    regs, _ = registrations(c)
    n = 0
    for q, rs in sorted(regs.items()):
        cls = q.split("::")[-1]
        if cls not in ALL:
            continue
        for nm, xs in sorted(rs.items()):
            for r in xs:
                if r.kind == "def":
                    continue
                m = re.search(r"\(default:?\s*([^\s,)]+)", r.doc)
                want = said(m.group(1)) if m else None
                if want is None:
                    continue
                lab = "%s.%s default" % (cls, nm)
                root, why = shown(c, cls, r)
                if root is None or root.startswith("SolverAbstract::"):
                    continue
                n += 1
                v = fresh(c, cls, root)
                try:
                    x = number(v)
                except Unknown:
                    lens = layout(c.prog, cls).E.lens
                    x = 0.0 if want == 0 and show_len(c, cls, root) == 0 else None
                if x is None and own(v, root):
                    c.bad(lab, r.l, "the documentation says %g, a fresh solver does not initialise %s" % (want, root), rule=rule)
                    continue
                if x is None:
                    c.undecided(lab, "value after construction not derived: %s" % (show(v) if isinstance(v, Poly) else v))
                    continue
                c.check(lab, x == want, r.l, "the documentation says %g, a fresh solver has %g" % (want, x), rule=rule)
    return n


def show_len(c, cls, root):
    lo = layout(c.prog, cls)
    n = lo.E.lens.get("len:" + root, lo.E.lens.get(root))
    return None if not isinstance(n, Poly) or cval(n) is None else int(cval(n))


# ---------------------------------------------------------------- default arguments
ARGS = {"solve": ("vec", "vec", 100, False, "nan"), "computeDirection": (True,), "tryStep": (1,), "calc": (True,)}


def default_value(n):
    while isinstance(n, dict) and n.get("k") in ("icast", "cast", "paren", "mat", "tmp", "defarg", "cleanup") and n.get("x") is not None:
        n = n["x"]
    if not isinstance(n, dict):
        return None
    if n.get("k") == "int":
        return int(n["v"])
    if n.get("k") in ("float", "flt", "real"):
        return float(n["v"])
    if n.get("k") == "bool":
        return bool(n["v"])
    if n.get("k") == "ref" and n.get("n") == "DEFAULT_VECTOR":
        return "vec"
    if n.get("k") in ("ctor", "initlist", "init", "tmpobj") and not n.get("a") and "vector" in str(n.get("ty") or n.get("fid") or ""):
        return "vec"
    for x in walk(n):
        if re.search(r"nanf?$|quiet_NaN|NaN", str(x.get("n") or x.get("q") or "")):
            return "nan"
    return None


def arguments(c):
    rule = "default arguments agree"
    n = 0
    for cls in ALL:
        for fnm, want in ARGS.items():
            f = c.prog.by_name.get(NS + cls + "::" + fnm)
            if not f:
                continue
            for g in f:
                if len(g["ps"]) != len(want):
                    continue
                have = [p.get("def") for p in g["ps"]]
                if not any(have):
                    continue
                for p, w in zip(g["ps"], want):
                    lab = "%s::%s default of argument %s" % (cls, fnm, p.get("n") or "?")
                    if p.get("def") is None:
                        continue
                    n += 1
                    v = default_value(p["def"])
                    if v is None:
                        c.undecided(lab, "value not derived")
                        continue
                    c.check(lab, v == w, g.get("l", "?"), "is %s, the base class and the documentation say %s" % (v, w), rule=rule)
    return n


# ---------------------------------------------------------------- local variables
def locals_(c, cls):
    """no method derives anything from a local variable that has not been assigned"""
    rule = "no local variable is read before it is assigned"
    for n, w, E in shapes.units_of(c, cls):
        ps = []
        for r, v in (getattr(E, "final", None) or {}).items():
            if isinstance(v, Poly):
                ps.append((r, v))
            elif isinstance(v, sem.Arr):
                ps += [(r, x) for u in v.ups for x in (u.val, u.guard)]
        for e in list(E.events) + list(E.throws):
            ps += [(e.name, x) for x in [e.guard] + list(e.args)]
        bad = sorted({(f.a[0], r) for r, v in ps if isinstance(v, Poly) for f in alg.factors(v)
                      if f.op == "rd" and f.a[0].startswith("l:") and f.a[2] == "pre" and f.a[0] != r})
        c.check("%s::%s reads only assigned local variables" % (cls, n), not bad, w,
                "; ".join("%s is used for %s before it is assigned" % (a[2:].split("#")[0], b.split("#")[0]) for a, b in bad[:4]), rule=rule)


@prop("P24")
def p24(c):
    k = 0
    for cls in ALL:
        k += initialised(c, cls)
        neutral(c, cls)
        valid(c, cls, step_lengths(c, cls))
        locals_(c, cls)
    k += initialised(c, "SolverKKT")
    step_lengths(c, "SolverKKT")
    locals_(c, "SolverKKT")
    for n, least, what in ((k, 60, "scalar members"), (documented(c), 15, "documented defaults"), (arguments(c), 15, "default arguments")):
        if n < least:
            c.broken.append("only %d %s found" % (n, what))
