"""P03: iterates keep the problem's initial state."""
from spec import *
from solve import S, variants, ALL, DDPS
from rollout import param

STEPS = ("dx_", "dxtilde_")


def zero_steps(c, cls):
    """the step of the initial state is zero after construction and in every function that writes it"""
    rule = "initial step stays zero"
    roots = {}
    for m in STEPS:
        k, fd = c.prog.field_cls(NS + cls, m)
        if fd is not None:
            roots[k.split("::")[-1] + "::" + m] = m
    lo = layout(c.prog, cls)
    for r, m in roots.items():
        v = lo.E.read_store(lo.res.st.s, r, (ZERO,))
        if not isinstance(v, Poly):
            c.undecided("%s: initial %s[0]" % (cls, m), "not derived")
            continue
        c.eq("%s constructor: %s[0]" % (cls, m), v, ZERO, "%s constructor" % cls, rule)
    pre = {r: fpoly(mkF("rd", (r, (ZERO,), "pre"), "v")) for r in roots}
    seen = set()
    for q, fs in c.prog.by_name.items():
        if not q.startswith(NS):
            continue
        k, n = q[len(NS):].rsplit("::", 1) if "::" in q[len(NS):] else ("", q)
        if NS + k not in c.prog.chain(NS + cls) or n == k or n.startswith("~") or (k != cls and c.prog.method(NS + cls, n) not in fs):
            continue
        if k != cls and cls in ("SolverSQP", "SolverCSQP", "SolverPROXQP") and n in ("forwardPass", "tryStep", "solve", "computeDirection", "allocateData", "resizeData"):
            if n != "resizeData":
                continue
        f = fs[0]
        if not any(any('"%s"' % m in j for m in roots.values()) for j in [json.dumps(f["body"])]):
            continue
        try:
            u = c.U(cls, n) if c.prog.method(NS + cls, n) is f else None
        except Broken as e:
            c.undecided("%s::%s" % (cls, n), str(e))
            continue
        if u is None:
            continue
        for r, m in roots.items():
            if r not in u.res.written():
                continue
            u.ty(r)
            v = u.val(m, ZERO)
            mp = {sole_factor(p): ZERO for p in pre.values()}
            mp.update({f2: ZERO for f2 in alg.factors(v) if f2.op == "rd" and f2.a[0] in roots and len(f2.a[1]) == 1 and f2.a[1][0] is ZERO} if isinstance(v, Poly) else {})
            seen.add((n, m))
            c.eq("%s::%s keeps %s[0] zero" % (cls, n, m), subst(v, mp) if isinstance(v, Poly) else v, ZERO, u.where, rule)
    for r, m in roots.items():
        c.check("%s: %s is computed" % (cls, m), any(x[1] == m for x in seen), cls, "no function writes %s" % m, rule=rule)


def own(v, s):
    """v with the initial states of the previous iterate and of the evaluated trial replaced by the problem's"""
    m = {}
    for f in alg.factors(v):
        if f.op != "rd" or f.a[1] != (ZERO,) or not isinstance(f.a[2], tuple):
            continue
        n, tg = f.a[0].split("::")[-1], f.a[2]
        if n == "xs_" and tg[0] in ("it", "hav") or n == "xs_try_" and tg[0] == "ev" and tg[1].startswith("tryStep"):
            m[f] = X0
    return subst(v, m)


@prop("P03")
def p03(c):
    rule = "initial state"
    for s in variants(c, *ALL):
        u, lab, E = s.u, s.lab, s.u.E
        en = s.info["entry"].s

        def rd(st, m, *i):
            r = u.root(m)
            u.ty(r)
            return E.read_store(st, r, i)
        c.eq(lab + "trial states start at the problem's initial state", rd(en, "xs_try_", ZERO), X0, s.info["l"], rule)
        if s.cls not in DDPS:
            c.eq(lab + "iterations start from the problem's initial state", rd(en, "xs_", ZERO), X0, s.info["l"], rule)
        flows = [(s.info["out"]["n"][1], s.info["l"])] if s.info["out"]["n"] else []
        flows += [(f.st, f.l or s.info["l"]) for k in "br" for f in s.info["out"][k]]
        for st, l in flows:
            c.eq(lab + "the initial state of the iterate is kept or taken from the trial", own(rd(st.s, "xs_", ZERO), s), X0, l, rule)
        for e in u.evs("return"):
            c.eq(lab + "the returned initial state", own(s.at(e, "xs_", ZERO), s), X0, e.l, rule)
    for cls in ALL:
        if cls in DDPS:
            u = c.U(cls, "forwardPass")
            if cls == "SolverDDP":
                c.eq(cls + "::forwardPass keeps the initial trial state", u.val("xs_try_", ZERO), u.pre("xs_try_", ZERO), u.where, rule)
            continue
        u = c.U(cls, "tryStep")
        c.eq(cls + "::tryStep initial trial state", u.val("xs_try_", ZERO), sint(u.pre("xs_", ZERO), mul(param(u, 0), u.pre("dx_", ZERO))), u.where, rule)
        zero_steps(c, cls)
