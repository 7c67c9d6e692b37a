"""P12: loops that may run in parallel are free of races, and the multi-threaded build satisfies the same rules."""
from spec import *
from ir import walk
import sem, spec

OPS = {"operator+": "+", "operator-": "+", "max": "max", "min": "min", "+": "+", "-": "+"}
# properties whose rules are decided again on the program compiled with multi-threading
AGAIN = ("P05", "P10", "P11", "P13")


def multi(c):
    m = Ctx(c.pid, c.tier)
    m._prog = c.prog_mt
    return m


def carried(p, L):
    """(root, index) of everything p reads which another iteration of loop L may have written"""
    out = set()
    for f in alg.factors(p):
        if f.op == "rd" and len(f.a) > 2 and isinstance(f.a[2], tuple) and f.a[2][:2] == ("it", L):
            out.add((f.a[0], f.a[1]))
    return out


def values(i, events, L):
    """everything one iteration computes: (what, Poly)"""
    q, E = i["out"]["n"]
    yield "its condition", q
    for r in sorted(i["W"]):
        v = E.s.get(r)
        if isinstance(v, sem.Arr):
            if v.tag[:2] != ("it", L):
                yield r, None
            for x in v.ups:
                yield r, x.val
                yield r, x.guard
                for p in x.idx:
                    yield r, p
        elif isinstance(v, Poly):
            yield r, v
    for e in events:
        yield e.name, e.guard
        for a in e.args or ():
            if isinstance(a, Poly):
                yield e.name, a


def reduction(c, lab, r, v, op, L, where):
    """the value of a reduction variable after an iteration combines the carried value with something independent of it"""
    def mine(p):
        return [f for f in alg.factors(p) if f.op == "rd" and f.a[0] == r and isinstance(f.a[2], tuple) and f.a[2][:2] == ("it", L)]
    own = mine(v)
    if not own:
        c.bad(lab + "combines", where, "overwritten instead of combined", rule="reduction")
        return
    old = fpoly(own[0])
    if op == "+":
        good = not mine(sub(v, old))
    else:
        # max{old, x, ...}: the carried value always takes part, and nothing else depends on it
        f = alg.pure_sup(v if op == "max" else neg(v))
        o = old if op == "max" else neg(old)
        good = v is old or f is not None and any(e is o and g is ONE for e, g in f.a[0]) and not any(mine(e) and e is not o or mine(g) for e, g in f.a[0])
    c.check(lab + "combines by " + op, good, where, "is not combined by %s: %s" % (op, show(v)[:400]), rule="reduction")


def race_free(c, u, L, i):
    rule = "iterations are independent"
    where = i["l"]
    lab = "%s::%s loop %d " % (u.cls, u.name, L)
    red, priv = {}, set()
    for cl in i["omp"].get("cl", ()):
        for v in cl.get("v") or ():
            for x in walk(v):
                r = None
                if x.get("k") == "mem" and (x.get("b") or {}).get("k") == "this":
                    r = u.root(x["f"])
                elif x.get("k") == "ref":
                    r = "l:%s#%s" % (x["n"], x.get("id"))
                if r is None:
                    continue
                if cl["c"] == "reduction":
                    red[r] = OPS.get(cl.get("op"))
                elif cl["c"] in ("private", "firstprivate", "lastprivate", "linear"):
                    priv.add(r)
    if i["prim"] is None:
        c.undecided(lab, "loop variable not recognised at %s" % where)
        return
    evs = [e for e in u.E.events if any(x[0] == L for x in e.loops)]
    ths = [e for e in u.E.throws if any(x[0] == L for x in e.loops)]
    c.check(lab + "is not left by an exception", not ths, ths[0].l if ths else where, "an exception thrown here leaves a parallel region, which terminates the program", rule=rule)
    c.check(lab + "is not left early", not i["out"]["b"] and not i["out"]["r"], where, "break or return inside a parallel loop", rule=rule)
    if i["out"]["n"] is None:
        return
    E = i["out"]["n"][1]
    isym = fpoly(i["isym"])
    at = {}
    for r in sorted(i["W"]):
        v = E.s.get(r)
        if r == i["prim"][0] or r in priv:
            continue
        name = r.split("::")[-1]
        if r.startswith("l:") and r not in i["entry"].s:
            c.ok(lab + "%s is private" % name, where, rule)
            continue
        if isinstance(v, sem.Arr):
            for x in v.ups:
                af = sem.affine(x.idx[0], i["isym"]) if x.idx else None
                good = bool(x.idx) and af is not None and af[0] in (1, -1) and not any(b in alg.factors(x.idx[0]) for b in x.binders)
                c.check(lab + "writes only its own entry of %s" % name, good, where, "writes %s[%s], which other iterations write too" % (name, ", ".join(map(show, x.idx))), rule=rule)
                if good:
                    at.setdefault(r, set()).add(x.idx[0])
            if len(at.get(r, ())) > 1:
                c.bad(lab + "writes only one entry of %s" % name, where, "writes the entries %s, which are entries of other iterations" % sorted(map(show, at[r])), rule=rule)
        elif r in red:
            if red[r] is None:
                c.undecided(lab, "reduction operation of %s" % name)
            else:
                reduction(c, lab + name + " ", r, v, red[r], L, where)
        else:
            c.bad(lab + "does not write shared variables", where, "every iteration writes %s, which is shared and not a declared reduction" % name, rule=rule)
    reads = set()
    for what, p in values(i, evs, L):
        if p is None:
            c.undecided(lab, "%s is overwritten as a whole" % what)
            continue
        o = c.opaque(p)
        if o:
            c.undecided(lab, "not analysable: %s" % o)
            continue
        for r, idx in carried(p, L):
            if r == i["prim"][0] or (r in red and what == r):
                continue
            reads.add((r, idx[0] if idx else None))
    for r, k in sorted(reads, key=str):
        name = r.split("::")[-1]
        c.check(lab + "reads only its own entry of %s" % name, k is not None and at.get(r, {k}) == {k} and r not in red, where,
                "reads %s%s, which another iteration writes" % (name, "[%s]" % show(k) if k is not None else ""), rule=rule)


@prop("P12")
def p12(c):
    m = multi(c)
    omps = {}
    for q, fs in sorted(m.prog.by_name.items()):
        for f in fs:
            ls = [x["b"].get("l") for x in walk(f) if x.get("k") == "omp" and x.get("b")]
            if ls:
                omps[q] = ls
    seen = set()
    for q in sorted(omps):
        if not q.startswith(NS):
            c.undecided(q, "parallel directive outside the solver classes")
            continue
        cls, name = q[len(NS):].rsplit("::", 1)
        u = m.U(cls, name, inline=("computeGains",))
        for L, i in sorted(u.E.loopinfo.items()):
            if i["omp"]:
                seen.add(i["l"])
                race_free(m, u, L, i)
    for q, ls in sorted(omps.items()):
        for l in ls:
            if l not in seen:
                m.undecided(q, "parallel directive at %s is not on a loop" % l)
    n = len(m.obl)
    for p in AGAIN:
        k = Ctx(p, c.tier)
        k._prog = m._prog
        spec.PROPS[p](k)
        for o in k.obl:
            o["name"] = "multi-threaded build, " + o["name"]
        m.obl += k.obl
        m.viol += k.viol
        m.broken += k.broken
        m.units.update({("mt", p) + x: y for x, y in k.units.items()})
    c.obl += m.obl
    c.viol += m.viol
    c.broken += m.broken
    c.units.update(m.units)
    if n < 40:
        c.undecided("parallel loops", "only %d obligations" % n)
