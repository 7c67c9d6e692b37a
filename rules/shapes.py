"""P18: element accesses stay in range, and matrix operands, assignments and node buffers fit together."""
from spec import *

CLASSES = ("SolverDDP", "SolverFDDP", "SolverSQP", "SolverCSQP", "SolverPROXQP", "SolverKKT")
NDX, NX = sem.NDX, sem.NX
X, DX, ANY = ("nx",), ("ndx",), (None, None)
FREE = "free"  # zero / identity: takes the size it needs
SC = (ONE, ONE)


def m_dim(k, idx):
    return fpoly(mkF("rd", ("M." + k, tuple(idx), "pre"), "s"))


def size(k, idx):
    if k == 1:
        return ONE
    if k == "ndx":
        return NDX
    if k == "nx":
        return NX
    return m_dim(k, idx[:1])


# crocoddyl's data of a node
DATA = {"Lx": ("ndx", 1), "Lu": ("nu", 1), "Lxx": ("ndx", "ndx"), "Lxu": ("ndx", "nu"), "Luu": ("nu", "nu"), "Fx": ("ndx", "ndx"), "Fu": ("ndx", "nu"),
        "xnext": ("nx", 1), "g": ("ng", 1), "Gx": ("ng", "ndx"), "Gu": ("ng", "nu"), "h": ("nh", 1), "Hx": ("nh", "ndx"), "Hu": ("nh", "nu")}
MODEL = {"g_lb": ("ng", 1), "g_ub": ("ng", 1), "u_lb": ("nu", 1), "u_ub": ("nu", 1)}
BASE = {"SolverAbstract::xs_": ("nx", 1), "SolverAbstract::us_": ("nu", 1), "SolverAbstract::fs_": ("ndx", 1), "x0": ("nx", 1),
        "p:xs_warm": ("nx", 1), "p:us_warm": ("nu", 1)}
FIXED = {"SolverAbstract::d_": const(2), "SolverAbstract::dV_": const(2)}


class Clash(Exception):
    pass


def plain(d):
    """a dimension with integer conversions removed"""
    if not isinstance(d, Poly):
        return d
    for _ in range(4):
        m = {f: f.a[1][0] for f in alg.factors(d) if f.op == "fn" and f.a[0] == "trunc"}
        if not m:
            break
        d = subst(d, m)
    return d


def one(a, b, what):
    """the common value of two dimensions"""
    if a is None or a == FREE:
        return b if b != FREE or a is None else a
    if b is None or b == FREE:
        return a
    a, b = plain(a), plain(b)
    if a is not b and sub(a, b) is not ZERO:
        raise Clash("%s: %s against %s" % (what, show(a), show(b)))
    return a


def both(s, t, what):
    return (one(s[0], t[0], what + " rows"), one(s[1], t[1], what + " columns"))


class Shapes:
    def __init__(self, lo):
        self.decl = {}   # root -> [(idx, shape)]
        self.arr = {}
        self.memo = {}
        self.env = {}
        self.hs = ()
        self.known = {}
        self.n = 0
        self.seen = set()      # members whose stored value is used
        self.unsized = {}
        self.local = {}
        self.lo = lo
        self.weak = {}   # sizes given by assignments outside of the constructors
        sem.activate(lo.E)
        rg = ranges(lo.E)
        for (r, ix), sh in lo.E.shapes.items():
            self.declare(r, ix, (sh[0], sh[1] if len(sh) > 1 else ONE), rg)
        for a in lo.E.accs:
            if a.name == "wr" and not a.view and isinstance(a.val, Poly) and (a.root, tuple(a.idx)) not in lo.E.shapes:
                try:
                    s = self.poly(a.r(a.val))
                except Clash:
                    continue
                if s and s != SC and s[0] not in (None, FREE):
                    self.declare(a.root, tuple(a.idx), s, rg)

    def declare(self, r, ix, sh, rg, weak=False):
        if len(ix) > 1 or not all(isinstance(x, (Poly, str)) for x in sh):
            return
        tab = self.weak if weak else self.decl
        if not ix:
            tab.setdefault(r, []).append((None, None, None, sh))
            return
        f = sole_factor(ix[0])
        if f is not None and f in rg and not any(depends(x, f) for x in rg[f]):
            tab.setdefault(r, []).append((f, rg[f][0], rg[f][1], sh))
        elif not any(f in rg or f.op == "rd" and f.a[0].startswith("l:") for f in alg.factors(ix[0])):
            tab.setdefault(r, []).append((None, ix[0], add(ix[0], ONE), sh))

    def lookup(self, tab, r, idx):
        gen, lo, hi = [], None, None
        es = tab.get(r, ())
        if not idx:
            es = [e for e in es if e[1] is None]
            return es[-1][3] if es else None
        if len(idx) != 1:
            return None
        es = [e for e in es if e[1] is not None]
        i = idx[0]

        def at(e, i):
            return tuple(subst(d, {e[0]: i}) if e[0] is not None and isinstance(d, Poly) else d for d in e[3])
        for e in reversed(es):  # the entry which sizes exactly this element
            if e[0] is None and e[1] is i:
                return e[3]
        for e in reversed(es):
            if e[0] is None:
                continue
            lo, hi = e[1], e[2]
            for _ in range(3):  # neighbouring single elements of the same form belong to the range
                for g in es:
                    if g[0] is None and (g[1] is hi or sub(g[1], hi) is ZERO) and at(e, g[1]) == g[3]:
                        hi = g[2]
                    elif g[0] is None and g[2] is lo and at(e, g[1]) == g[3]:
                        lo = g[1]
                    elif g[0] is not None and g[1] is hi and at(e, i) == at(g, i):
                        hi = g[2]
            if nonneg(sub(i, lo), self.hs, env=self.env) and nonneg(sub(hi, add(i, ONE)), self.hs, env=self.env):
                return at(e, i)
        return None

    def r(self, p):
        """members that keep the value of the constructor are replaced by it"""
        return subst(p, self.known) if self.known and isinstance(p, Poly) else p

    def of_root(self, r, idx):
        """declared shape of element idx of r, or None"""
        if r.startswith("X:qp_.results."):  # solution of the dense QP: one entry per variable / row
            src = {"x": "P_", "y": "A_", "z": "C_"}.get(r[len("X:qp_.results."):].split("@")[0])
            for k, l in self.decl.items():
                if src and k.split("::")[-1] == src and l:
                    return (l[-1][3][0], ONE)
            return None
        if r.startswith("D.") and r[2:] in DATA:
            return tuple(size(d, idx) for d in DATA[r[2:]])
        if r.startswith("M.") and r[2:] in MODEL:
            return tuple(size(d, idx) for d in MODEL[r[2:]])
        if r in BASE:
            return tuple(size(d, idx) for d in BASE[r])
        if (r, tuple(idx)) in self.local and r.startswith("l:"):
            sh = self.local[(r, tuple(idx))]
            return (sh[0], sh[1] if len(sh) > 1 else ONE)
        return self.lookup(self.decl, r, idx) or self.lookup(self.weak, r, idx)

    def factor(self, f):
        op = f.op
        if op == "rd":
            r, idx = f.a[0], f.a[1]
            if f.kind not in ("v", "m", "r"):
                return SC
            s = self.of_root(r, idx)
            self.seen.add(r)
            if s is None:
                self.unsized.setdefault(r, idx)
                return (None, ONE) if f.kind == "v" else (None, None)
            return s
        if op == "T":
            a, b = self.factor(f.a[0])
            return (b, a)
        if op == "I":
            return (FREE, FREE)
        if op == "diag":
            s = self.product(f.a)
            return (s[0], s[0])
        if op == "inv":
            s = self.poly(f.a[0])
            d = one(s[0], s[1], "inverted matrix")
            return (d, d)
        if op == "view":
            return self.view(self.poly(f.a[0]), f.a[1:], "block read")
        if op == "blk":
            return self.poly(f.a[0])
        if op == "fn":
            n, a = f.a[0], f.a[1]
            if n == "S.diff":
                both(self.poly(a[0]), (NX, ONE), "first state of diff")
                both(self.poly(a[1]), (NX, ONE), "second state of diff")
                return (NDX, ONE)
            if n == "S.integrate":
                both(self.poly(a[0]), (NX, ONE), "state of integrate")
                both(self.poly(a[1]), (NDX, ONE), "displacement of integrate")
                return (NX, ONE)
            if n == "xzero":
                return (NX, ONE)
            if n in ("cmax", "cmin", "clamp", "cabs"):
                s = (FREE, FREE)
                for x in a:
                    s = both(s, self.poly(x), n)
                return s
            if n.startswith(("f.", "fT.")) and n.split(".")[1] in DATA:
                return tuple(size(d, a[:1]) for d in DATA[n.split(".")[1]])
            if n.startswith(("triuval", "selfadj")):
                s = self.poly(a[0])
                one(s[0], s[1], "symmetric matrix")
                return s
            if n.startswith("triuw"):
                return both(self.poly(a[0]), self.poly(a[1]), "triangle")
            if n == "llt_alloc":
                return (FREE, FREE)
            if n == "ones":
                return (FREE, ONE)
            return (None, ONE) if f.kind == "v" else (None, None)
        return (None, ONE) if f.kind == "v" else (None, None)

    def view(self, s, w, what, val=None):
        if w[0] == "seg":
            self.inside(w[1], w[2], s[0], what)
            return (w[2], ONE)
        if w[0] == "block" and len(w) >= 5:
            out = []
            for k in (0, 1):
                o, n = w[1 + k], w[3 + k]
                if o is sem.ALL or n is sem.ALL:
                    out.append(s[k])
                else:
                    self.inside(o, n, s[k], what)
                    out.append(n)
            if "diag" in w[5:]:
                return (out[0], ONE)
            return tuple(out)
        return (None, None)

    def inside(self, off, n, total, what):
        if not all(isinstance(x, Poly) for x in (off, n)):
            return
        self.n += 1
        off, n = plain(off), plain(n)
        if not nonneg(off, self.hs, env=self.env):
            raise Clash("%s starts at %s" % (what, show(off)))
        if isinstance(total, Poly) and not nonneg(sub(plain(total), add(off, n)), self.hs, env=self.env):
            raise Clash("%s: [%s, +%s) exceeds size %s" % (what, show(off), show(n), show(plain(total))))

    def key(self):
        return (tuple(sorted((f.id, x[0].id, x[1].id) for f, x in self.env.items())), tuple(h.id for h in self.hs))

    def product(self, ma):
        s = None
        for f in ma:
            t = self.factor(f)
            if t == SC:
                continue
            if s is None:
                s = t
            else:
                self.n += 1
                d = one(s[1], t[0], "product")
                # identity takes the size of its neighbour
                s = (d if s[0] == FREE and s[1] == FREE else s[0], d if t[1] == FREE and t[0] == FREE else t[1])
        return s if s is not None else SC

    def poly(self, p):
        if not isinstance(p, Poly):
            return (None, None)
        k = (p.id, self.key())
        r = self.memo.get(k)
        if r is None:
            try:
                r = self._poly(p)
            except Clash as e:
                r = e
            self.memo[k] = r
        if isinstance(r, Clash):
            raise r
        return r

    def _poly(self, p):
        if p is ZERO:
            return (FREE, FREE)
        out = None
        for (g, sc, ma), c in sorted(p.terms.items(), key=lambda z: alg.m_key(z[0])):
            for f in g:
                self.scalar(f)
            for f, e in sc:
                self.scalar(f)
            s = self.product(ma) if ma else SC
            if out is None:
                out = s
            else:
                self.n += 1
                out = both(out, s, "sum") if SC not in (out, s) or out == s else self.mixed(out, s)
        return out

    def mixed(self, a, b):
        # scalar next to a matrix: an array expression (x.array() + c) broadcasts
        return b if a == SC else a

    def scalar(self, f):
        """checks the matrices inside of a scalar or condition"""
        if f.op == "dot":
            s = self.product(f.a)
            both(s, SC, "scalar product")
            return
        if f.op == "rd":
            return

        def go(x):
            if isinstance(x, Poly):
                self.poly(x)
            elif isinstance(x, alg.F):
                if x.kind in "vmr":
                    self.factor(x)
                else:
                    self.scalar(x)
            elif isinstance(x, (tuple, frozenset)):
                for y in x:
                    go(y)
        k = ("s", f.id, self.key())
        r = self.memo.get(k)
        if r is None:
            env = self.env
            if f.op in ("over", "sum", "any") and isinstance(f.a[2], Poly) and isinstance(f.a[3], Poly):
                self.env = dict(env)
                self.env[f.a[0]] = (f.a[2], f.a[3])
            try:
                for x in f.a:
                    go(x)
                r = True
            except Clash as e:
                r = e
            self.env = env
            self.memo[k] = r
        if isinstance(r, Clash):
            raise r


def methods(prog, cls):
    out = []
    q = NS + cls + "::"
    for n, fs in sorted(prog.by_name.items()):
        if n.startswith(q) and "::" not in n[len(q):] and not n[len(q):].startswith("~"):
            out += [f for f in fs if f.get("body")]
    return out


def ranges(E):
    return {i["isym"]: (i["lo"], i["hi"]) for i in E.loopinfo.values() if isinstance(i["lo"], Poly) and isinstance(i["hi"], Poly)}


def hyps(g, env={}):
    """(p,...) with p >= 0 implied by the path condition"""
    out = []
    if not isinstance(g, Poly):
        return out
    conj, _ = sem.conjuncts(g)
    for a, pol in conj:
        if a.op == "lt0":
            out.append(neg(add(a.a[0], ONE)) if pol else a.a[0])
        elif a.op == "nz" and isinstance(a.a[0], Poly):
            if pol:
                if at_least_zero(plain(a.a[0]), env):
                    out.append(sub(a.a[0], ONE))
            else:
                out += [a.a[0], neg(a.a[0])]
    return out


def nonneg_factor(f, env):
    if f.op == "sym":
        lo, hi = env.get(f) or (None, None)
        if isinstance(lo, Poly):
            return nonneg(lo, (), 0, env)
    if f.op == "sum":
        return nonneg(f.a[1], (), 0, env)
    return alg.is_nonneg(f) or f.op == "rd" and f.a[0] in alg.UNSIGNED


def sums_cancel(p, env):
    """p with c*sum[lo,b) - c*sum[lo,a) replaced by the sum over [a,b) (dropped: it is not negative) where a <= b"""
    pos, negs = [], []
    for (g, s, m), c in p.terms.items():
        if g or m:
            return p
        fs = [f for f, e in s if f.op == "sum" and e == 1]
        if len(fs) == 1:
            rest = tuple(x for x in s if x[0] is not fs[0])
            (pos if c > 0 else negs).append((fs[0], rest, c))
    for f, r, c in negs:
        for h, r2, c2 in pos:
            if r2 == r and c2 + c >= 0 and h.a[1] is subst(f.a[1], {f.a[0]: fpoly(h.a[0])}) and h.a[2] is f.a[2] \
                    and all(nonneg_factor(x, env) for x, _ in r) and nonneg(f.a[1], (), 0, env):
                hi, lo = h.a[3], f.a[3]
                if nonneg(sub(hi, lo), (), 0, env):
                    t = dict(p.terms)
                    k = (frozenset(), tuple(sorted(r + ((f, 1),), key=lambda z: z[0].id)), ())
                    k2 = (frozenset(), tuple(sorted(r + ((h, 1),), key=lambda z: z[0].id)), ())
                    t[k] = t.get(k, 0) - c
                    t[k2] = t.get(k2, 0) + c
                    return alg.mkP(t)
    # a single term next to a sum which covers it
    for h, r2, c2 in pos:
        for (g, s, m), c in p.terms.items():
            if c >= 0 or g or m:
                continue
            for f, e in s:
                if f.op != "rd" or e != 1 or tuple(x for x in s if x[0] is not f) != r2:
                    continue
                hf = sole_factor(h.a[1])
                if hf is None or hf.op != "rd" or hf.a[0] != f.a[0] or len(f.a[1]) != 1 or len(hf.a[1]) != 1 or sole_factor(hf.a[1][0]) is not h.a[0]:
                    continue
                i = f.a[1][0]
                if c2 + c >= 0 and nonneg(sub(i, h.a[2]), (), 0, env) and nonneg(sub(h.a[3], add(i, ONE)), (), 0, env):
                    t = dict(p.terms)
                    t[(g, s, m)] = 0
                    k2 = (frozenset(), tuple(sorted(r2 + ((h, 1),), key=lambda z: z[0].id)), ())
                    t[k2] = t.get(k2, 0) + c
                    return alg.mkP(t)
    return p


def at_least_zero(p, env):
    for _ in range(12):
        if p is ZERO:
            return True
        q = sums_cancel(p, env)
        if q is not p:
            p = q
            continue
        # a ranged symbol is put at the end of its range that makes p smallest
        hit = None
        for (g, s, m), c in p.terms.items():
            for f, e in s:
                if f in env and hit is None:
                    hit = f
        if hit is None:
            break
        # a sum over a variable of the same name is not about this symbol; it is not negative
        t = {(g, s, m): c for (g, s, m), c in p.terms.items()
             if not (c > 0 and any(f.op == "sum" and f.a[0] is hit for f, _ in s) and all(nonneg_factor(f, {}) and f is not hit for f, _ in s))}
        if len(t) < len(p.terms):
            p = alg.mkP(t)
            continue
        sg = set()
        for (g, s, m), c in p.terms.items():
            for f, e in s:
                if f is hit:
                    if e != 1 or not all(nonneg_factor(x, env) for x, _ in s if x is not hit):
                        return False
                    sg.add(c > 0)
                elif depends(f, hit):
                    sg.add(None)
        if len(sg) != 1 or None in sg:
            return False
        lo, hi = env[hit]
        v = lo if sg == {True} else (sub(hi, ONE) if isinstance(hi, Poly) else None)
        if not isinstance(v, Poly):
            return False
        p = subst(p, {hit: v})
    tot, tneg = 0, False
    for (g, s, m), c in p.terms.items():
        if g or m:
            return False
        if not s:
            tot += c
            continue
        if any(e < 0 for _, e in s) or not all(nonneg_factor(f, env) for f, _ in s):
            return False
        if c < 0:
            tneg = True
        elif s == ((alg.TF, 1),):
            tot += c
            # T >= 1
    if not tneg:
        return tot >= 0
    # T*x - x and the like
    t = {}
    for (g, s, m), c in p.terms.items():
        fs = [f for f, _ in s if f is alg.TF]
        if fs and c > 0:
            r = (g, tuple(x for x in s if x[0] is not alg.TF), m)
            t[r] = t.get(r, 0) + c
        else:
            t[(g, s, m)] = t.get((g, s, m), 0) + c
    q = alg.mkP(t)
    return q is not p and at_least_zero(q, env)


def nonneg(p, hs=(), depth=2, env={}):
    p = plain(p)
    if at_least_zero(p, env):
        return True
    if depth and hs:
        for h in hs:
            if nonneg(sub(p, h), hs, depth - 1, env) or nonneg(sub(p, mul(h, NDX)), hs, depth - 1, env):
                return True
    return False


def indices(a, sh):
    """[(index, length or None, description)] of an access"""
    if a.name == "node":
        return [(a.r(a.pos), TSYM, "running %s" % a.kind)]
    if a.name == "elem":
        i = a.r(a.pos)
        n = a.root.split("::")[-1]
        if a.len is not None:
            return [(i, a.r(a.len), n)]
        if a.root in FIXED and not a.pre:
            return [(i, FIXED[a.root], n)]
        s = sh.of_root(a.root, tuple(a.r(x) for x in a.pre))
        return [(i, s[0] if s else None, n)]
    if a.name == "coef" and a.root in FIXED and not a.idx:
        return [(a.r(x), FIXED[a.root] if k == 0 else ONE, a.root.split("::")[-1]) for k, x in enumerate(a.pos)]
    if a.name == "coef":
        s = sh.of_root(a.root, tuple(a.r(x) for x in a.idx)) or (None, None)
        return [(a.r(x), s[k], a.root.split("::")[-1]) for k, x in enumerate(a.pos)]
    return []


def units_of(c, cls):
    """[(name, where, engine)] of the constructors and of every method the class offers"""
    lo = layout(c.prog, cls)
    out = [(cls, "%s constructor" % cls, lo.E)]
    for k in c.prog.chain(NS + cls):
        k = k.split("::")[-1]
        for f in methods(c.prog, k):
            n = f["q"].split("::")[-1]
            if f.get("ctor") or c.prog.method(NS + cls, n) is None:
                continue
            if k != cls and c.prog.method(NS + cls, n) is not f:
                continue
            u = c.U(cls, n, fid=f["fid"])
            u.E.final = u.res.st.s
            out.append((n, u.where, u.E))
    return out


def context(sh, E, a):
    """path conditions of an access, as quantities known to be non-negative"""
    hs = hyps(a.guard, sh.env)
    for t in E.throws[:a.nthr]:
        if not t.loops:
            hs += hyps(b_not(t.guard), sh.env)
    return tuple(h for h in (sh.r(h) for h in hs))


def argument_hyps(i):
    """an index argument of a function that works on one running node"""
    out = []
    for f in alg.factors(i):
        if f.op == "rd" and f.a[0].startswith("p:") and f.a[1] == () and f.kind == "s":
            out += [fpoly(f), sub(sub(TSYM, ONE), fpoly(f))]
    return tuple(out)


def kept(c, cls, units, r, v):
    """every method that writes the dimension r gives it the constructor's value again"""
    for n, w, E in units[1:]:
        if not any(a.name == "wr" and a.root == r for a in E.accs):
            continue
        x = E.final.get(r)
        if not isinstance(x, Poly) or not (x is v or sub(x, v) is ZERO):
            return False
    return True


def check_class(c, cls):
    lo = layout(c.prog, cls)
    units = units_of(c, cls)
    sh = Shapes(lo)
    wr = {a.root for n, w, E in units[1:] for a in E.accs if a.name == "wr"}
    for r, v in lo.res.st.s.items():
        if isinstance(v, Poly) and "::" in r and lo.E.kind_root(r, ()) == "s" and alg.factors(v) and (r not in wr or kept(c, cls, units, r, v)):
            sh.known[mkF("rd", (r, (), "pre"), "s")] = v
    is_mat = lambda E, a: E.kind_root(a.root, a.idx) in ("v", "m", "r") or a.view
    # sizes of buffers no constructor gives a size: by their assignments
    for n, w, E in units[1:]:
        sem.activate(E)
        sh.env, sh.local, sh.hs = ranges(E), E.shapes, ()
        for a in E.accs:
            if a.name != "wr" or a.view or not isinstance(a.val, Poly) or not is_mat(E, a):
                continue
            ix = tuple(a.r(x) for x in a.idx)
            if sh.of_root(a.root, ix) is not None:
                continue
            try:
                s = sh.poly(sh.r(a.r(a.val)))
            except Clash:
                continue
            if s != SC and s[0] not in (None, FREE) and s[1] not in (None, FREE):
                sh.declare(a.root, ix, s, sh.env, weak=True)
    sh.memo.clear()
    sh.seen, sh.unsized = set(), {}
    inlined = {f.split("(")[0].split("::")[-1] for n, w, E in units for f in E.inlined}
    resized = []  # whole assignments of another size
    n_acc = n_wr = 0
    for n, w, E in units:
        sem.activate(E)
        sh.env, sh.local = ranges(E), E.shapes
        sh.memo.clear()
        lab = "%s::%s" % (cls, n)
        for a in E.accs:
            sh.hs = ()
            at = a.l or w
            if a.name != "wr":
                hs = context(sh, E, a)
                sh.hs = hs
                for i, L, d in indices(a, sh):
                    if L is None and n in inlined and str(a.root).startswith("p:"):
                        continue  # decided where the helper is called
                    n_acc += 1
                    if not isinstance(i, Poly) or L is None or not isinstance(L, Poly):
                        c.undecided("%s: index of %s at %s" % (lab, d, at), "not derived" if L is not None else "length unknown")
                        continue
                    i, L = sh.r(i), sh.r(L)
                    h = hs + argument_hyps(i)
                    ok = nonneg(i, h, env=sh.env) and nonneg(sub(L, add(i, ONE)), h, env=sh.env)
                    if not ok and n in inlined and any(f.op == "rd" and ("p:" in f.a[0]) for x in (i, L) for f in alg.factors(x)):
                        continue  # decided at the call sites, where the arguments are known
                    if not ok and (c.opaque(i) or c.opaque(L)):
                        c.undecided("%s: index of %s at %s" % (lab, d, at), "not derived")
                        continue
                    c.check("%s: index into %s in range" % (lab, d), ok, at, "index %s, size %s" % (show(i)[:120], show(L)[:120]), rule="index in range")
                continue
            if not isinstance(a.val, Poly) or not is_mat(E, a):
                if isinstance(a.val, Poly):
                    try:
                        for (g, sc, ma), _ in sh.r(a.r(a.val)).terms.items():
                            for f in list(g) + [f for f, _ in sc]:
                                sh.scalar(f)
                            if ma:
                                sh.product(ma)
                    except Clash as e:
                        c.bad("%s: operands of the value of %s fit" % (lab, a.root.split("::")[-1]), at, str(e)[:300], rule="sizes fit")
                continue
            n_wr += 1
            name = a.root.split("::")[-1]
            ix = tuple(sh.r(a.r(x)) for x in a.idx)
            v = sh.r(a.r(a.val))
            sh.hs = context(sh, E, a) + tuple(h for x in ix for h in argument_hyps(x))
            if any(f.op == "fn" and f.a[0] == "llt_alloc" for f in alg.factors(v)):
                continue
            try:
                s = sh.poly(v)
                d = sh.of_root(a.root, ix)
                if a.view:
                    d = d or (None, None)
                    for x in a.view:
                        x = tuple(sh.r(a.r(y)) if isinstance(y, Poly) else y for y in x)
                        if x[0] in ("seg", "block"):
                            d = sh.view(d, x, "block write")
                        elif x[0] not in ("array", "triu"):
                            d = (None, None)
                c.check("%s: sizes in the value of %s" % (lab, name), True, at, "", rule="sizes fit")
            except Clash as e:
                if c.opaque(v):
                    c.undecided("%s: sizes in the value of %s" % (lab, name), "not derived")
                else:
                    c.bad("%s: sizes in the value of %s" % (lab, name), at, str(e)[:300], rule="sizes fit")
                continue
            if d is None or s is SC and not a.view and False:
                continue
            if a.view and a.view[-1][0] == "seg" and s[0] is ONE and s[1] is not ONE and d[1] is ONE:
                s = (s[1], s[0])   # Eigen assigns a row expression to a column vector as its transpose
            try:
                both(s, d, "%s of %s" % ("block" if a.view else "value", name))
            except Clash as e:
                if a.view:
                    c.bad("%s: block written to %s" % (lab, name), at, str(e)[:300], rule="sizes fit")
                else:
                    resized.append((lab, a.root, name, at, str(e)))
        for (r, ix), s in E.shapes.items():
            # explicit resizing
            if E is lo.E or r.startswith("l:") or len(ix) > 1:
                continue
            f = sole_factor(ix[0]) if ix else None
            if ix and (f is None or f not in sh.env):
                continue
            d = sh.lookup(sh.decl, r, ix)
            if d is None:
                continue
            try:
                both((s[0], s[1] if len(s) > 1 else ONE), d, "new size of " + r.split("::")[-1])
            except Clash as e:
                resized.append((lab, r, r.split("::")[-1], w, str(e)))
        for e in E.events + E.throws:
            try:
                for x in list(getattr(e, "args", None) or []):
                    if isinstance(x, Poly):
                        sh.poly(sh.r(e.r(x)))
                sh.hs = tuple(hyps(e.guard, sh.env))
            except Clash as k:
                c.bad("%s: sizes in an argument of %s" % (lab, e.name), e.l or w, str(k)[:300], rule="sizes fit")
    for lab, r, name, at, msg in resized:
        # a buffer which is only used as scratch space may change its size
        c.check("%s: %s keeps the size of its node" % (lab, name), r not in sh.seen and not shown_by_getter(units, r), at, msg[:300], rule="sizes fit")
    for r, ix in sorted(sh.unsized.items(), key=lambda z: z[0]):
        if "::" in r and r.split("::")[0].startswith("Solver") and r.split("::")[0] != "SolverAbstract":
            c.bad("%s: %s is used with a size" % (cls, r.split("::")[-1]), "%s constructor" % cls, "no constructor and no assignment gives %s%s a size" % (
                r.split("::")[-1], list(map(show, ix))), rule="sizes fit")
    return n_acc, n_wr, sh.n


def shown_by_getter(units, r):
    return any(n.startswith("get_") and any(e.name == "return" and isinstance(x, sem.Ref) and x.root == r for e in E.events for x in getattr(e, "args", ())) for n, w, E in units)


@prop("P18")
def p18(c):
    for cls in CLASSES:
        n_acc, n_wr, n = check_class(c, cls)
        if n_acc < (150 if cls != "SolverKKT" else 50) or n_wr < 60:
            c.undecided(cls, "only %d element accesses and %d matrix assignments found" % (n_acc, n_wr))
