"""P23: printing, logging and callbacks observe a solve without changing it."""
import ast, os
from spec import *
from shapes import methods
from solve import ALL
import ir

PASSIVE = ("print", "call:opaque")


def observer_settings(c, cls):
    """members that only say who watches: everything stored by set*Callbacks"""
    out, access = set(), set()
    for k in c.prog.chain(NS + cls):
        q = k + "::"
        for n, fs in c.prog.by_name.items():
            s = n[len(q):]
            if n.startswith(q) and re.fullmatch(r"(set|get)_?[A-Za-z]*[Cc]allbacks", s) and fs[0].get("body"):
                access.add(s)
                if s.startswith("set"):
                    out |= {r for r in c.U(cls, s).res.written() if "::" in r}
    return out, access


def member(r):
    return "::" in r or r[:2] in ("D.", "M.", "X:")


def mentions(x, roots):
    return sorted({f.a[0] for f in alg.factors(x) if f.op == "rd" and f.a[0].split("len:")[-1] in roots})


def stored(st, r):
    """everything member r may hold in a state"""
    v = st.s.get(r)
    if isinstance(v, Poly):
        return [v]
    out = []
    for up in getattr(v, "ups", ()):
        out += [x for x in (up.guard, up.val) if isinstance(x, Poly)] + [x for x in up.idx if isinstance(x, Poly)]
    return out


def offered(c, cls):
    """every method of the class, own or inherited"""
    for k in c.prog.chain(NS + cls):
        for f in methods(c.prog, k.split("::")[-1]):
            n = f["q"].split("::")[-1]
            if not f.get("ctor") and c.prog.method(NS + cls, n) is not None and (k == NS + cls or c.prog.method(NS + cls, n) is f):
                yield n, c.U(cls, n, fid=f["fid"])


@prop("P23")
def p23(c):
    rule = "observation"
    n = 0
    for cls in ALL:
        obs, access = observer_settings(c, cls)
        if not c.check("%s has observer settings" % cls, bool(obs), "", "no member is set by set*Callbacks", rule=rule):
            continue
        passive = {}

        def quiet(name):
            """a method that only prints"""
            if name in passive:
                return passive[name]
            if name.startswith("ext.std::") or c.prog.method(NS + cls, name) is None:
                return name.startswith(("ext.std::", "get_"))   # formatting; Crocoddyl's accessors
            passive[name] = False
            u = c.U(cls, name)
            w = sorted(r for r in u.res.written() if member(r))
            passive[name] = not w and all(e.name in PASSIVE or e.name == "return" or quiet(e.name) for e in u.E.events)
            return passive[name]

        for name, u in offered(c, cls):
            if name in access:
                continue
            E, where = u.E, u.where
            n += 1
            lab = "%s::%s " % (cls, name)
            if "print" in name.lower():
                w = sorted(r for r in u.res.written() if member(r))
                c.check(lab + "only prints", not w, where, "also writes %s" % w, rule=rule)
            watch = set()   # loops that only serve observers
            for L, i in E.loopinfo.items():
                es = [e for e in E.events if L in [x[0] for x in e.loops]]
                if es and all(e.name in PASSIVE or quiet(e.name) for e in es):
                    w = sorted(r for r in i["W"] if member(r))
                    if c.check(lab + "an observer loop changes nothing", not w, i["l"], "the loop also writes %s" % w, rule=rule) and not i["out"]["r"]:
                        watch.add(L)
            for e in E.events + E.throws:
                nm = getattr(e, "name", "throw")
                if nm in PASSIVE or nm and quiet(nm):
                    continue
                m = mentions(e.guard, obs)
                c.check(lab + "%s does not depend on who watches" % nm, not m, e.l, "%s runs depending on %s" % (nm, m), rule=rule)
            for L, i in E.loopinfo.items():
                if L in watch:
                    continue
                m = sorted({y for k in ("lo", "hi", "flagc", "ctx") if isinstance(i.get(k), Poly) for y in mentions(i[k], obs)}
                           | {y for k in "brt" for f in i["out"][k] if isinstance(f.q, Poly) for y in mentions(f.q, obs)})
                c.check(lab + "loops do not depend on who watches", not m, i["l"], "the loop depends on %s" % m, rule=rule)
                ends = ([i["out"]["n"][1]] if i["out"]["n"] else []) + [f.st for k in "brt" for f in i["out"][k]]
                m = sorted({(r, y) for st in ends for r in i["W"] if member(r) for x in stored(st, r) for y in mentions(x, obs)})
                c.check(lab + "what a loop computes does not depend on who watches", not m, i["l"], "dependences %s" % m, rule=rule)
            for r in sorted(u.res.written()):
                if not member(r):
                    continue
                m = sorted({y for x in stored(u.res.st, r) for y in mentions(x, obs)})
                c.check(lab + "%s does not depend on who watches" % r.split("::")[-1], not m, where, "%s depends on %s" % (r, m), rule=rule)
            if isinstance(u.ret, Poly):
                m = mentions(u.ret, obs)
                c.check(lab + "result does not depend on who watches", not m, where, "the result depends on %s" % m, rule=rule)
    own_callbacks(c)
    logger(c)
    c.expect_min = {"CallbackVerbose": 10, "CallbackLogger": 1, "SolverCSQP::solve": 10, "SolverSQP::solve": 10, "SolverDDP::solve": 10, "SolverFDDP::solve": 10, "SolverPROXQP::solve": 10, "SolverCSQP::computeDirection": 10}


def own_callbacks(c):
    """the callbacks shipped with the solvers only read the solver they are called with"""
    rule = "read-only callbacks"
    seen, todo = set(), [f for q, fs in c.prog.by_name.items() if re.fullmatch(re.escape(NS) + r"Callback[A-Za-z]+::operator\(\)", q) for f in fs if f.get("body")]
    while todo:
        f = todo.pop()
        if f["fid"] in seen:
            continue
        seen.add(f["fid"])
        lab = f["q"][len(NS):]
        for x in walk(f["body"]):
            if not isinstance(x, dict):
                continue
            k = x.get("k")
            if k in ("mcall", "call") and x.get("fid"):
                g = next((h for hs in c.prog.by_name.values() for h in hs if h["fid"] == x["fid"]), None)
                if g is not None and g.get("body") and not str(g.get("cls") or "").startswith(NS + "Solver"):
                    todo.append(g)
            if k == "mcall" and ("Solver" in str(x.get("oty")) or "crocoddyl::" in str(x.get("oty"))):
                ok = bool(x.get("const")) or str(x.get("oty")).startswith("const ")
                g = c.prog.method(NS + x["q"].split("::")[-2], x["n"]) if not ok and x.get("q", "").startswith(NS) else None
                if g is not None:
                    ok = not [r for r in c.U(x["q"].split("::")[-2], x["n"]).res.written() if member(r)]
                c.check("%s calls %s, which changes nothing" % (lab, x["q"].split("::")[-1]), ok, x.get("l", ""), "%s may change the solver" % x.get("q"), rule=rule)


def logger(c):
    """Python's logger assigns nothing of the solver and calls nothing on it"""
    rule = "read-only callbacks"
    f = "bindings/mim_solvers/__init__.py"
    try:
        tree = ast.parse(open(os.path.join(ir.REPO, f)).read())
    except (OSError, SyntaxError) as x:
        c.undecided("CallbackLogger", str(x))
        return
    for k in ast.walk(tree):
        if not isinstance(k, ast.ClassDef):
            continue
        for m in k.body:
            if not isinstance(m, ast.FunctionDef) or m.name != "__call__" or len(m.args.args) < 2:
                continue
            ali = {m.args.args[1].arg}
            for x in ast.walk(m):   # other names of the same object
                if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id in ali:
                    ali |= {y.id for y in x.targets if isinstance(y, ast.Name)}

            def base(x):
                while isinstance(x, (ast.Attribute, ast.Subscript, ast.Starred)):
                    x = x.value
                return x.id if isinstance(x, ast.Name) else None
            odd = []
            for x in ast.walk(m):
                ts = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign, ast.For)) else []
                for y in ts:
                    for z in ast.walk(y):
                        if isinstance(z, (ast.Attribute, ast.Subscript)) and base(z) in ali:
                            odd.append("line %d: assigns %s" % (x.lineno, ast.unparse(z)))
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and base(x.func) in ali and (
                        isinstance(x.func.value, ast.Name) or x.func.attr not in ("copy", "tolist", "__copy__", "__deepcopy__", "item")):
                    odd.append("line %d: calls %s" % (x.lineno, ast.unparse(x.func)))
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("setattr", "delattr") and x.args and base(x.args[0]) in ali:
                    odd.append("line %d: %s on the solver" % (x.lineno, x.func.id))
            c.check("%s only reads the solver" % k.name, not odd, "%s:%d" % (f, m.lineno), "; ".join(odd), rule=rule)
