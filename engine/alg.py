"""Algebra of the value domain: gated polynomials over non-commuting matrix
factors.  Every value the analysis computes is brought into one canonical form,
so two program fragments compute the same value iff the canonical forms are the
same object (up to what the rules below identify).

  Poly     sum of  coeff * [guards] * scalars * matrices
  guard    idempotent 0/1 indicator of a condition (so ite(c,a,b)=c*a+(1-c)*b)
  F        interned factor
Objects are interned: equality is identity.
"""
from fractions import Fraction

_F = {}
_P = {}


class F:
    __slots__ = ("op", "a", "kind", "id", "sym")

    def __repr__(self):
        return show_f(self)


def mkF(op, a, kind="s", sym=False):
    key = (op, a, kind)
    f = _F.get(key)
    if f is None:
        f = F()
        f.op, f.a, f.kind, f.sym = op, a, kind, sym
        f.id = len(_F) + 1
        _F[key] = f
    return f


class Poly:
    __slots__ = ("terms", "id", "_at")

    def __repr__(self):
        return show(self)


def mkP(terms):
    terms = {m: c for m, c in terms.items() if c != 0}
    key = frozenset(terms.items())
    p = _P.get(key)
    if p is None:
        p = Poly()
        p.terms = terms
        p.id = len(_P) + 1
        p._at = None
        _P[key] = p
    return p


EMPTY = (frozenset(), (), ())
ZERO = mkP({})
ONE = mkP({EMPTY: Fraction(1)})


def const(c):
    return mkP({EMPTY: Fraction(c)})


def fpoly(f):
    """poly of one factor"""
    if f.kind == "b":
        return mkP({(frozenset([f]), (), ()): Fraction(1)})
    if f.kind == "s":
        return mkP({(frozenset(), ((f, 1),), ()): Fraction(1)})
    return mkP({(frozenset(), (), (f,)): Fraction(1)})


def sym(name, kind="s"):
    return fpoly(mkF("sym", (name,), kind))


def is_const(p):
    return not p.terms or (len(p.terms) == 1 and EMPTY in p.terms)


def cval(p):
    if not p.terms:
        return Fraction(0)
    if len(p.terms) == 1 and EMPTY in p.terms:
        return p.terms[EMPTY]
    return None


def single(p):
    """(mono, coeff) if exactly one monomial"""
    if len(p.terms) == 1:
        return next(iter(p.terms.items()))
    return None


def sole_factor(p):
    """factor f if p is exactly 1*f"""
    s = single(p)
    if s and s[1] == 1:
        g, sc, ma = s[0]
        if not g and not ma and len(sc) == 1 and sc[0][1] == 1:
            return sc[0][0]
        if not g and not sc and len(ma) == 1:
            return ma[0]
        if len(g) == 1 and not sc and not ma:
            return next(iter(g))
    return None


def add(*ps):
    t = {}
    for p in ps:
        for m, c in p.terms.items():
            t[m] = t.get(m, 0) + c
    return norm_sums(mkP(t))


def scale(p, c):
    c = Fraction(c)
    return mkP({m: k * c for m, k in p.terms.items()})


def neg(p):
    return scale(p, -1)


def sub(a, b):
    return add(a, neg(b))


# ---------------------------------------------------------------- dimensions
# A guard "dimension != 0" is redundant on a product that has that dimension
# as an inner or outer dimension (the product is then empty or zero anyway).
DIMS = {}  # root name -> set of dimension keys ('ng'/'nu')


def dim_atoms_of(f, out, depth=0):
    """(dim, idx-poly id) pairs which make factor f empty/zero"""
    if f.op == "rd":
        root = f.a[0]
        for d in DIMS.get(root, ()):
            out.add((d, f.a[1]))
    elif f.op in ("T",):
        dim_atoms_of(f.a[0], out)
    elif f.op == "diag":
        for x in f.a:
            dim_atoms_of(x, out)
    elif f.op == "dot":
        for x in f.a:
            dim_atoms_of(x, out)
    elif f.op == "inv":
        # inverse of a k x k matrix: any monomial of it tells k
        _poly_dims(f.a[0], out)
    elif f.op == "fn" and f.a[0] in ("norm1", "norminf", "norm2sq", "cmax", "cmin", "clamp", "cabs"):
        s = None
        for p in f.a[1]:
            if isinstance(p, Poly) and p.terms:
                o = set()
                _poly_dims(p, o)
                if f.a[0] in ("cmax", "cmin", "clamp"):
                    s = o if s is None else (s | o)
                else:
                    s = o if s is None else s & o
        out |= s or set()


def _poly_dims(p, out):
    s = None
    for (g, sc, ma), c in p.terms.items():
        o = set()
        for x in ma:
            dim_atoms_of(x, o)
        s = o if s is None else s & o
    out |= s or set()


def norm_mono(g, sc, ma):
    """canonical monomial or None when it is zero"""
    if len(ma) > 1:
        ma = tuple(x for x in ma if x.op != "I") or (ma[0],)
        if len(ma) > 1:
            ma = norm_diag(ma)
            if len(ma) > 1 and any(x.op == "inv" for x in ma):
                pass
    if g:
        drop = None
        for a in g:
            if a.op == "nz":
                f = sole_factor(a.a[0])
                if f is not None and f.op == "rd" and f.a[0] in ("M.ng", "M.nu"):
                    o = set()
                    for x in ma:
                        dim_atoms_of(x, o)
                    for x, _ in sc:
                        dim_atoms_of(x, o)
                    d = "ng" if f.a[0] == "M.ng" else "nu"
                    if (d, f.a[1]) in o:
                        drop = (drop or set()) | {a}
        if drop:
            g = g - drop
    return (g, sc, ma)


def is_vec_suffix(ma):
    return bool(ma) and ma[-1].kind == "v"


def norm_diag(ma):
    # ... diag(x) * <vector>  : hadamard product is commutative -> sort
    ma = list(ma)
    n = len(ma)
    if ma[-1].kind != "v":
        return tuple(ma)
    for i in range(n - 2, -1, -1):
        if ma[i].op == "diag":
            # run of diags starting here
            j = i
            while j - 1 >= 0 and ma[j - 1].op == "diag":
                j -= 1
            parts = [ma[k].a for k in range(j, i + 1)] + [tuple(ma[i + 1:])]
            parts.sort(key=lambda t: tuple(x.id for x in t))
            new = [mkF("diag", p, "m", True) for p in parts[:-1]]
            ma = ma[:j] + new + list(parts[-1])
            # continue scanning left of j
            n2 = j
            if n2 <= 0:
                break
    return tuple(ma)


def mul2(p, q):
    if p is ZERO or q is ZERO:
        return ZERO
    if p is ONE:
        return q
    if q is ONE:
        return p
    t = {}
    for (g1, s1, m1), c1 in p.terms.items():
        for (g2, s2, m2), c2 in q.terms.items():
            g = g1 | g2
            if s1 and s2:
                d = dict(s1)
                for f, e in s2:
                    d[f] = d.get(f, 0) + e
                s = tuple(sorted(((f, e) for f, e in d.items() if e), key=lambda z: z[0].id))
            else:
                s = s1 or s2
            m = norm_mono(g, s, m1 + m2)
            t[m] = t.get(m, 0) + c1 * c2
    return norm_sums(mkP(t))


def mul(*ps):
    r = ONE
    for p in ps:
        r = mul2(r, p)
    return r


# ------------------------------------------------------------------- guards
def b_not(c):
    return sub(ONE, c)


def b_and(*cs):
    return mul(*cs)


def b_or(a, *cs):
    for b in cs:
        a = sub(add(a, b), mul(a, b))
    return a


def gatoms(p):
    """guard atoms occurring at top level of p"""
    s = set()
    for (g, _, _) in p.terms:
        s |= g
    return s


def cofactor(p, atom, val):
    t = {}
    for (g, s, m), c in p.terms.items():
        if atom in g:
            if not val:
                continue
            g = g - {atom}
        k = (g, s, m)
        t[k] = t.get(k, 0) + c
    return mkP(t)


def as_atom(c):
    """(atom, polarity) if c is [atom] or 1-[atom]"""
    f = sole_factor(c)
    if f is not None and f.kind == "b":
        return f, True
    if len(c.terms) == 2 and c.terms.get(EMPTY) == 1:
        for (g, s, m), k in c.terms.items():
            if g and len(g) == 1 and not s and not m and k == -1:
                return next(iter(g)), False
    return None


def pure_sup(p):
    f = sole_factor(p)
    return f if f is not None and f.op == "sup" else None


def ite(c, a, b):
    if a is b:
        return a
    if c is ONE:
        return a
    if c is ZERO:
        return b
    at = as_atom(c)
    if at:
        f, pol = at
        x, y = (a, b) if pol else (b, a)
        if f.op in ("flt", "fle"):
            u, v = f.a
            if x is u and y is v:
                return smin(u, v)
            if x is v and y is u:
                return smax(u, v)
    sa, sb = pure_sup(a), pure_sup(b)
    if sa is not None or sb is not None:
        ea = dict(sa.a[0]) if sa is not None else {a: ONE}
        eb = dict(sb.a[0]) if sb is not None else {b: ONE}
        out = {}
        for e in set(ea) | set(eb):
            g = ite(c, ea.get(e, ZERO), eb.get(e, ZERO))
            out[e] = g
        return mk_sup(out)
    return add(mul(c, a), mul(b_not(c), b))


UNSIGNED = set()  # locations of unsigned integer type
NONNEG = set()  # factors known to be >= 0 integers
RANGES = {}     # loop symbol factor -> (lo, hi)   lo <= s < hi


def lower_bound(p, depth=0):
    """constant lower bound of affine integer poly, or None"""
    tot = Fraction(0)
    # substitute ranged loop symbols by their extreme values
    for _ in range(6):
        hit = None
        for (g, s, m), c in p.terms.items():
            if g or m:
                return None
            if len(s) == 1 and s[0][1] == 1 and s[0][0] in RANGES:
                hit = (s[0][0], c)
                break
        if not hit:
            break
        f, c = hit
        lo, hi = RANGES[f]
        if c > 0:
            if lo is None:
                return None
            p = subst(p, {f: lo})
        else:
            if hi is None:
                return None
            p = subst(p, {f: sub(hi, ONE)})
    for (g, s, m), c in p.terms.items():
        if g or m:
            return None
        if not s:
            tot += c
            continue
        if c < 0:
            return None
        lb = Fraction(1)
        for f, e in s:
            if e < 0:
                return None
            l = 1 if f is TF else (0 if f in NONNEG or is_nonneg(f) else None)
            if l is None:
                return None
            lb *= l
        tot += c * lb
    return tot


TSYM = sym("T")
TF = sole_factor(TSYM)
NONNEG.add(TF)


def is_nonneg(f):
    if f.op == "rd" and f.a[0] in ("M.ng", "M.nu", "M.nh"):
        return True
    if f.op == "rd" and f.a[0] in UNSIGNED:
        return True
    if f.op == "sym" and f.a[0] in ("ndx", "nx", "T"):
        return True
    if f.op == "sum":
        b = lower_bound(f.a[1])
        return b is not None and b >= 0
    return f in NONNEG


def elementwise_nonneg(p):
    """every coefficient is max(0, .) or |.|"""
    f = sole_factor(p)
    if f is None or f.op != "fn":
        return False
    return f.a[0] == "cabs" or (f.a[0] == "cmax" and any(x is ZERO for x in f.a[1]))


def bpoly(f):
    return fpoly(f)


def lt_int(a, b):
    """[a < b] over integers"""
    d = sub(a, b)  # d < 0
    if _has_gates(d):
        return _hoist2(lt_int, a, b)
    c = cval(d)
    if c is not None:
        return ONE if c < 0 else ZERO
    for (g, x, m), v in d.terms.items():
        if not g and not m and len(x) == 1 and x[0][0].op == "sym" and x[0][0].a[0] in ("-huge", "+huge") and x[0][1] == 1:
            return ONE if (v < 0) == (x[0][0].a[0] == "+huge") else ZERO
    lb = lower_bound(d)
    if lb is not None and lb >= 0:
        return ZERO
    ub = lower_bound(neg(d))
    if ub is not None and -ub < 0:
        return ONE
    # 0 < q  <=> q != 0 for q >= 0 ;  q < 1 <=> q == 0
    l2 = lower_bound(neg(d))
    if l2 is not None and l2 >= 0:  # -d >= 0, i.e. d <= 0 : d<0 <=> d != 0
        return nz(neg(d))
    l3 = lower_bound(add(d, ONE))
    if l3 is not None and l3 >= 0:  # d >= -1: d<0 <=> d+1 == 0
        return b_not(nz(add(d, ONE)))
    return fpoly(mkF("lt0", (d,), "b"))


def nz(p):
    if _has_gates(p):
        return _hoist1(nz, p)
    c = cval(p)
    if c is not None:
        return ONE if c != 0 else ZERO
    lb = lower_bound(p)
    if lb is not None and lb > 0:
        return ONE
    lb = lower_bound(neg(p))
    if lb is not None and lb > 0:
        return ONE
    # sign-normalise
    q = neg(p)
    if min((m_key(m), c) for m, c in q.terms.items()) and _sign(p) < 0:
        p = q
    return fpoly(mkF("nz", (p,), "b"))


def m_key(m):
    g, s, ma = m
    return (tuple(sorted(f.id for f in g)), tuple((f.id, e) for f, e in s), tuple(f.id for f in ma))


def _sign(p):
    ms = sorted((m for m in p.terms if m != EMPTY), key=m_key)
    return 1 if p.terms[ms[0]] > 0 else -1


def eq_int(a, b):
    return b_not(nz(sub(a, b)))


def _has_gates(p):
    return any(g for (g, _, _) in p.terms)


def _hoist1(fn, p):
    for a in sorted(gatoms(p), key=lambda f: f.id):
        return ite(fpoly(a), fn(cofactor(p, a, True)), fn(cofactor(p, a, False)))


def _hoist2(fn, p, q):
    for a in sorted(gatoms(p) | gatoms(q), key=lambda f: f.id):
        return ite(fpoly(a), fn(cofactor(p, a, True), cofactor(q, a, True)),
                   fn(cofactor(p, a, False), cofactor(q, a, False)))


def flt(a, b):
    if _has_gates(a) or _has_gates(b):
        return _hoist2(flt, a, b)
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return ONE if ca < cb else ZERO
    return fpoly(mkF("flt", (a, b), "b"))


def fle(a, b):
    if _has_gates(a) or _has_gates(b):
        return _hoist2(fle, a, b)
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return ONE if ca <= cb else ZERO
    return fpoly(mkF("fle", (a, b), "b"))


def feq(a, b):
    if _has_gates(a) or _has_gates(b):
        return _hoist2(feq, a, b)
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return ONE if ca == cb else ZERO
    if a.id > b.id:
        a, b = b, a
    return fpoly(mkF("feq", (a, b), "b"))


def bfn(name, *args):
    """uninterpreted boolean function"""
    args = tuple(args)
    for p in args:
        if isinstance(p, Poly) and _has_gates(p):
            a = sorted(gatoms(p), key=lambda f: f.id)[0]
            return ite(fpoly(a), bfn(name, *[cofactor(x, a, True) if isinstance(x, Poly) else x for x in args]),
                       bfn(name, *[cofactor(x, a, False) if isinstance(x, Poly) else x for x in args]))
    return fpoly(mkF("bfn", (name, args), "b"))


# ------------------------------------------------------------------ functions
def fn(name, args, kind="s"):
    args = tuple(args)
    for p in args:
        if isinstance(p, Poly) and _has_gates(p) and kind != "x":
            a = sorted(gatoms(p), key=lambda f: f.id)[0]
            r1 = fn(name, tuple(cofactor(x, a, True) if isinstance(x, Poly) else x for x in args), kind)
            r0 = fn(name, tuple(cofactor(x, a, False) if isinstance(x, Poly) else x for x in args), kind)
            return ite(fpoly(a), r1, r0)
    if name in ("sum", "maxCoeff") and elementwise_nonneg(args[0]):
        # of absolute values or of parts above zero
        name = {"sum": "norm1", "maxCoeff": "norminf"}[name]
        kind = "s"
        f = sole_factor(args[0])
        if f.a[0] == "cabs":
            args = (f.a[1][0],)
    if name in ("norm1", "norminf", "norm2sq", "norm2"):
        p = args[0]
        if p is ZERO:
            return ZERO
        # norms ignore sign
        if p.terms and _sign_any(p) < 0:
            args = (neg(p),) + args[1:]
    if name in ("cmax", "cmin"):
        # associative, commutative, idempotent
        out = set()
        for p in args:
            f = sole_factor(p) if isinstance(p, Poly) else None
            if f is not None and f.op == "fn" and f.a[0] == name:
                out |= set(f.a[1])
            else:
                out.add(p)
        args = tuple(sorted(out, key=lambda p: p.id))
        if len(args) == 1:
            return args[0]
    if name.startswith("selfadj"):
        p = args[0]
        f = sole_factor(p)
        if f is not None and f.op == "fn" and f.a[0] == "triuw" + name[7:]:
            p = f.a[1][1]
            g = sole_factor(p)
            if g is not None and g.op == "fn" and g.a[0] == "triuval" + name[7:]:
                p = g.a[1][0]
            args = (p,)
        if transpose(p) is p:
            return p
    if name.startswith("triuw"):
        # only the last write of the same triangle counts
        f = sole_factor(args[0])
        if f is not None and f.op == "fn" and f.a[0] == name:
            args = (f.a[1][0], args[1])
    if name == "abs":
        p = args[0]
        c = cval(p)
        if c is not None:
            return const(abs(c))
        if _sign_any(p) < 0:
            args = (neg(p),)
    return fpoly(mkF("fn", (name, args), kind))


def _sign_any(p):
    if not p.terms:
        return 1
    m = min(p.terms, key=m_key)
    return 1 if p.terms[m] > 0 else -1


def recip(p):
    if _has_gates(p):
        return _hoist1(recip, p)
    s = single(p)
    if s:
        (g, sc, ma), c = s
        if not g and not ma:
            return mkP({(g, tuple((f, -e) for f, e in sc), ma): 1 / c})
    return fpoly(mkF("recip", (p,), "s"))


def transpose_f(f):
    if f.op in ("I", "diag") or f.sym:
        return f
    if f.op == "T":
        return f.a[0]
    if f.op == "inv":
        return mkF("inv", (transpose(f.a[0]),), "m")
    return mkF("T", (f,), "r" if f.kind == "v" else "m")


def transpose(p):
    t = {}
    for (g, s, m), c in p.terms.items():
        k = norm_mono(g, s, tuple(transpose_f(x) for x in reversed(m)))
        t[k] = t.get(k, 0) + c
    return mkP(t)


def inv(p):
    if _has_gates(p):
        return _hoist1(inv, p)
    return fpoly(mkF("inv", (p,), "m"))


def diag(p):
    t = {}
    for (g, s, m), c in p.terms.items():
        if m:
            k = (g, s, (mkF("diag", m, "m", True),))
        else:
            k = (g, s, (mkF("I", (), "m", True),))
        t[k] = t.get(k, 0) + c
    return mkP(t)


def ident():
    return fpoly(mkF("I", (), "m", True))


def hadamard(a, b):
    return mul(diag(a), b)


def dot(a, b):
    t = {}
    for (g1, s1, m1), c1 in a.terms.items():
        for (g2, s2, m2), c2 in b.terms.items():
            lst = tuple(transpose_f(x) for x in reversed(m1)) + m2
            rev = tuple(transpose_f(x) for x in reversed(lst))
            if tuple(x.id for x in rev) < tuple(x.id for x in lst):
                lst = rev
            f = mkF("dot", lst, "s")
            k = single(mul(mkP({(g1 | g2, s1, ()): c1}), mkP({(frozenset(), s2, ()): c2}), fpoly(f)))
            if k:
                t[k[0]] = t.get(k[0], 0) + k[1]
    return mkP(t)


# ------------------------------------------------------------------- min/max
def smax(*args):
    out = {}
    for p in args:
        s = pure_sup(p)
        if s is not None:
            for e, g in s.a[0]:
                out[e] = b_or(out[e], g) if e in out else g
        else:
            out[p] = ONE
    return mk_sup(out)


def smin(*args):
    out = set()
    for p in args:
        f = sole_factor(p)
        if f is not None and f.op == "min":
            out |= f.a[0]
        else:
            out.add(p)
    if len(out) == 1:
        return next(iter(out))
    cs = [p for p in out if cval(p) is not None]
    if len(cs) > 1:
        m = min(cs, key=cval)
        out -= set(cs)
        out.add(m)
    if len(out) > 1:  # values that exceed another one by a constant
        for p in list(out):
            if any(q is not p and q in out and (cval(sub(p, q)) or 0) > 0 for q in list(out)):
                out.discard(p)
    if len(out) == 1:
        return next(iter(out))
    return fpoly(mkF("min", (frozenset(out),), "s"))


NEGINF = sym("-inf")
POSINF = sym("+inf")


def mk_sup(d):
    """d: {elem poly: guard poly}"""
    # push gates inside an element out to the element's guard
    work = list(d.items())
    d2 = {}
    while work:
        e, g = work.pop()
        if g is ZERO:
            continue
        ga = gatoms(e)
        if ga:
            a = sorted(ga, key=lambda f: f.id)[0]
            fa = fpoly(a)
            work.append((cofactor(e, a, True), mul(g, fa)))
            work.append((cofactor(e, a, False), mul(g, b_not(fa))))
            continue
        s = pure_sup(e)
        if s is not None:
            for e2, g2 in s.a[0]:
                work.append((e2, mul(g, g2)))
            continue
        d2[e] = b_or(d2[e], g) if e in d2 else g
    if NEGINF in d2 and len(d2) > 1:
        del d2[NEGINF]
        d2 = d2
        neginf = True
    d2 = merge_ranges(d2)
    if len(d2) == 1:
        e, g = next(iter(d2.items()))
        if g is ONE and _over(e) is None:
            return e
    # a norm is >= 0, so a constant 0 lower bound is absorbed when some
    # unconditional non-negative element is present
    cs = [e for e in d2 if cval(e) is not None and d2[e] is ONE]
    if len(cs) > 1:
        m = max(cs, key=cval)
        for e in cs:
            if e is not m:
                del d2[e]
    return fpoly(mkF("sup", (frozenset(d2.items()),), "s"))


def _over(e):
    f = sole_factor(e)
    return f if f is not None and f.op == "over" else None


def bvar(body):
    d = depth_of(body)
    return mkF("sym", ("i#%d" % d,), "s")


_depth = {}


def depth_of(x):
    if isinstance(x, Poly):
        r = _depth.get(x)
        if r is None:
            r = 0
            for (g, s, m) in x.terms:
                for f in g:
                    r = max(r, depth_of(f))
                for f, _ in s:
                    r = max(r, depth_of(f))
                for f in m:
                    r = max(r, depth_of(f))
            _depth[x] = r
        return r
    if isinstance(x, F):
        r = _depth.get(x)
        if r is None:
            r = max([0] + [depth_of(y) for y in x.a])
            if x.op in ("over", "sum", "any"):
                r += 1
            _depth[x] = r
        return r
    if isinstance(x, (tuple, frozenset)):
        return max([0] + [depth_of(y) for y in x])
    return 0


def over(var, body, lo, hi):
    """elem poly: sup over var in [lo,hi) of body -- returns dict elem->guard"""
    # gates on the loop variable become range restrictions
    return {fpoly(_bind("over", var, body, lo, hi)): ONE}


_dirs = {}


def _directions(body, bv):
    """signs with which bv occurs in the indices of body"""
    r = _dirs.get((body, bv))
    if r is None:
        r = set()
        for f in factors(body):
            if f.op == "rd":
                idx = f.a[1]
            elif f.op == "fn":
                idx = f.a[1][1:] if f.a[0] == "cbget" else f.a[1][:1]
            else:
                continue
            for q in idx:
                if isinstance(q, Poly):
                    for (g, sc, m), c in q.terms.items():
                        if not m and sc == ((bv, 1),):
                            r.add(1 if c > 0 else -1)
        _dirs[(body, bv)] = r
    return r


def _bind(op, var, body, lo, hi):
    """bind var; rebase the range at 0"""
    bv = bvar(body)
    vb = fpoly(bv)
    if lo is not ZERO:
        body = subst(body, {var: add(vb, lo)})
        hi = sub(hi, lo)
        lo = ZERO
    else:
        body = subst(body, {var: vb})
    # a range walked from its end: walk it from the start
    if _directions(body, bv) == {-1}:
        body = subst(body, {bv: sub(sub(hi, ONE), vb)})
    return mkF(op, (bv, body, lo, hi), "b" if op == "any" else "s")


def end_gate(atoms, var, lo, hi):
    """an atom [var != z] with z an end of [lo,hi): (atom, z, the range without z)"""
    for a in sorted(atoms, key=lambda f: f.id):
        if a.op != "nz":
            continue
        k, r = _affine1(a.a[0], var)
        if k not in (1, -1):
            continue
        z = scale(r, -k)
        if z is lo:
            return a, z, add(lo, ONE), hi
        if z is sub(hi, ONE):
            return a, z, lo, z
    return None


def sup_over(d, var, lo, hi):
    """d: {elem: guard} for one iteration -> {elem: guard} over var in [lo,hi)"""
    out = {}
    work = list(d.items())

    def put(e, g):
        out[e] = b_or(out[e], g) if e in out else g

    while work:
        e, g = work.pop()
        if g is ZERO:
            continue
        ga = gatoms(e)
        if ga:
            a = sorted(ga, key=lambda f: f.id)[0]
            work.append((cofactor(e, a, True), mul(g, fpoly(a))))
            work.append((cofactor(e, a, False), mul(g, b_not(fpoly(a)))))
            continue
        if not depends(e, var) and not depends(g, var):
            put(e, g)
            continue
        x = end_gate(gatoms(g), var, lo, hi)
        if x:
            a, z, lo1, hi1 = x
            g1, g0 = cofactor(g, a, True), cofactor(g, a, False)
            if g1 is g0:
                work.append((e, g1))
                continue
            if g0 is not ZERO:
                put(subst(e, {var: z}), subst(g0, {var: z}))
            if g1 is not ZERO:
                if depends(g1, var):
                    put(fpoly(_bind("over", var, mul(g1, wrapg(e)), lo1, hi1)), ONE)
                else:
                    put(fpoly(_bind("over", var, e, lo1, hi1)), g1)
            continue
        if depends(g, var):
            put(fpoly(_bind("over", var, mul(g, wrapg(e)), lo, hi)), ONE)
        else:
            put(fpoly(_bind("over", var, e, lo, hi)), g)
    return out


def wrapg(e):
    """gated element inside over(): gate*G(e) so that 'absent' is -inf not 0"""
    return fpoly(mkF("fn", ("elem", (e,)), "s"))


def merge_ranges(d):
    """peel: over(body,[0,h)) together with body(h) -> over(body,[0,h+1))"""
    changed = True
    while changed:
        changed = False
        for e in sorted(d, key=lambda p: p.id):
            f = _over(e)
            if f is None:
                continue
            bv, body, lo, hi = f.a
            nxt = subst(body, {bv: hi})
            if nxt in d and nxt is not e and implies(d[e], d[nxt]) and d[e] is d[nxt]:
                ne = fpoly(_bind("over", bv, body, lo, add(hi, ONE)))
                g = d[e]
                del d[e], d[nxt]
                d[ne] = g
                changed = True
                break
            prv = subst(body, {bv: const(-1)})
            if prv in d and prv is not e and d[e] is d[prv]:
                body2 = subst(body, {bv: sub(fpoly(bv), ONE)})
                ne = fpoly(_bind("over", bv, body2, lo, add(hi, ONE)))
                g = d[e]
                del d[e], d[prv]
                d[ne] = g
                changed = True
                break
            # two adjacent ranges: over(b,[0,h)) and over(b(.+h),[0,k))
            for e2 in sorted(d, key=lambda p: p.id):
                f2 = _over(e2)
                if f2 is None or e2 is e or d[e2] is not d[e]:
                    continue
                sh = subst(body, {bv: add(fpoly(bv), hi)})
                bv2, body2, _, hi2 = f2.a
                if bv2 is bv and sh is body2:
                    ne = fpoly(_bind("over", bv, body, lo, add(hi, hi2)))
                    g = d[e]
                    del d[e], d[e2]
                    d[ne] = g
                    changed = True
                    break
            if changed:
                break
    return d


def implies(a, b):
    return True


def sum_over(p, var, lo, hi):
    """sum of p over var in [lo,hi)"""
    t = ZERO
    groups = {}
    for (g, s, m), c in p.terms.items():
        # split loop-invariant scalar factors and guards
        s_in = tuple((f, e) for f, e in s if depends(f, var))
        s_out = tuple((f, e) for f, e in s if not depends(f, var))
        g_in = frozenset(a for a in g if depends(a, var))
        g_out = g - g_in
        if m and any(depends(x, var) for x in m):
            # vector valued accumulation: keep matrices inside
            inner = (g_in, s_in, m)
            outer = (g_out, s_out, ())
        else:
            inner = (g_in, s_in, ())
            outer = (g_out, s_out, m)
        groups.setdefault(outer, {})
        groups[outer][inner] = groups[outer].get(inner, 0) + c
    for outer, inner in groups.items():
        acc = ZERO
        for (g, s, m), c in inner.items():
            body = mkP({(g, s, m): Fraction(1)})
            acc = add(acc, scale(_sum1(body, var, lo, hi, m), c))
        t = add(t, mul(mkP({outer: Fraction(1)}), acc))
    return t


def _sum1(body, var, lo, hi, m):
    if not depends(body, var):
        return mul(sub(hi, lo), body)
    at = gatoms(body)
    x = end_gate(at, var, lo, hi)
    if x:
        return _sum1(cofactor(body, x[0], True), var, x[2], x[3], m)
    if len(at) == 1 and not m:
        # how often a linear integer quantity is not zero
        a = next(iter(at))
        if body is fpoly(a) and a.op == "nz":
            k, r = _affine1(a.a[0], var)
            if k in (1, -1):
                z = scale(r, -k)
                if lt_int(z, lo) is ZERO and lt_int(z, hi) is ONE:
                    return sub(sub(hi, lo), ONE)
    f = _bind("sum", var, body, lo, hi)
    if m:
        f = mkF("sum", f.a, "v")
    return fpoly(f)


def _affine1(p, var):
    """(k, r) with p = k*var + r, or (None, None)"""
    k, r = 0, ZERO
    for (g, s, m), c in p.terms.items():
        tm = mkP({(g, s, m): c})
        if not depends(tm, var):
            r = add(r, tm)
        elif not g and not m and s == ((var, 1),):
            k = c
        else:
            return None, None
    return k, r


def norm_sums(p):
    """peel-merge standalone terms into sums (linear analogue of merge_ranges)"""
    has = [m for m in p.terms if any(f.op == "sum" for f, _ in m[1]) or any(f.op == "sum" for f in m[2])]
    if not has:
        return p
    t = dict(p.terms)
    changed = True
    while changed:
        changed = False
        for mo in sorted([m for m in t if t[m] != 0], key=m_key):
            g, s, ma = mo
            fs = [(f, "s") for f, e in s if f.op == "sum" and e == 1] + [(f, "m") for f in ma if f.op == "sum"]
            if len(fs) != 1:
                continue
            f, where = fs[0]
            bv, body, lo, hi = f.a
            c = t[mo]
            if where == "s":
                rest = mkP({(g, tuple(x for x in s if x[0] is not f), ma): Fraction(1)})
            else:
                if len(ma) != 1:
                    continue
                rest = mkP({(g, s, ()): Fraction(1)})
            for at, newbody, cnt in ((hi, None, ONE), (const(-1), "shift", ONE)):
                el = mul2_raw(rest, subst(body, {bv: at}))
                if el.terms and all(t.get(m2) == c * k for m2, k in el.terms.items()) and mo not in el.terms:
                    b2 = body if newbody is None else subst(body, {bv: sub(fpoly(bv), ONE)})
                    nf = _bind("sum", bv, b2, ZERO, add(hi, ONE))
                    if where == "m":
                        nf = mkF("sum", nf.a, "v")
                    for m2 in el.terms:
                        del t[m2]
                    del t[mo]
                    nm = mul2_raw(rest, fpoly(nf))
                    for m2, k in nm.terms.items():
                        t[m2] = t.get(m2, 0) + c * k
                    changed = True
                    break
            if changed:
                break
    return mkP(t)


def mul2_raw(p, q):
    t = {}
    for (g1, s1, m1), c1 in p.terms.items():
        for (g2, s2, m2), c2 in q.terms.items():
            d = dict(s1)
            for f, e in s2:
                d[f] = d.get(f, 0) + e
            s = tuple(sorted(((f, e) for f, e in d.items() if e), key=lambda z: z[0].id))
            m = norm_mono(g1 | g2, s, m1 + m2)
            t[m] = t.get(m, 0) + c1 * c2
    return mkP(t)


def any_over(c, var, lo, hi):
    if c is ZERO:
        return ZERO
    if not depends(c, var):
        return b_and(c, lt_int(lo, hi))
    return fpoly(_bind("any", var, c, lo, hi))


# ------------------------------------------------------------- traversal
_dep = {}


def depends(x, f):
    if isinstance(x, Poly):
        key = (x, f)
        r = _dep.get(key)
        if r is None:
            r = False
            for (g, s, m) in x.terms:
                if any(depends(y, f) for y in g) or any(depends(y, f) for y, _ in s) or any(depends(y, f) for y in m):
                    r = True
                    break
            _dep[key] = r
        return r
    if isinstance(x, F):
        if x is f:
            return True
        key = (x, f)
        r = _dep.get(key)
        if r is None:
            r = any(depends(y, f) for y in x.a)
            _dep[key] = r
        return r
    if isinstance(x, (tuple, frozenset)):
        return any(depends(y, f) for y in x)
    return False


def factors(x, out=None, seen=None):
    """all factors occurring anywhere in x"""
    if out is None:
        out, seen = [], set()
    if isinstance(x, Poly):
        if x.id in seen:
            return out
        seen.add(x.id)
        for (g, s, m) in x.terms:
            for f in g:
                factors(f, out, seen)
            for f, _ in s:
                factors(f, out, seen)
            for f in m:
                factors(f, out, seen)
    elif isinstance(x, F):
        if ("f", x.id) in seen:
            return out
        seen.add(("f", x.id))
        out.append(x)
        for y in x.a:
            factors(y, out, seen)
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            factors(y, out, seen)
    return out


_MISSING = object()


def coeffs_deep(p):
    """all numbers occurring in p"""
    out = set(p.terms.values())
    for f in factors(p):
        for x in f.a:
            for y in x if isinstance(x, (tuple, frozenset)) else (x,):
                if isinstance(y, Poly):
                    out |= set(y.terms.values())
    return out


def subst(p, mp, memo=None):
    """replace factors by polys (bottom-up, re-normalising).  mp may also be a
    callable factor -> Poly | None."""
    if memo is None:
        memo = {}
        if not callable(mp):
            d = mp
            mp = lambda f: d.get(f)
    return _sub(p, mp, memo)


def _sub(p, mp, memo):
    r = memo.get(p)
    if r is not None:
        return r
    res = ZERO
    t = {}
    simple = {}
    for (g, s, m), c in p.terms.items():
        changed = False
        gs, ss, ms = [], [], []
        for f in g:
            q = _subf(f, mp, memo)
            gs.append((f, q))
            changed |= q is not None
        for f, e in s:
            q = _subf(f, mp, memo)
            ss.append((f, e, q))
            changed |= q is not None
        for f in m:
            q = _subf(f, mp, memo)
            ms.append((f, q))
            changed |= q is not None
        if not changed:
            simple[(g, s, m)] = c
            continue
        r1 = const(c)
        for f, q in gs:
            r1 = mul2(r1, q if q is not None else fpoly(f))
        for f, e, q in ss:
            b = q if q is not None else fpoly(f)
            if e >= 0:
                for _ in range(e):
                    r1 = mul2(r1, b)
            else:
                b = recip(b)
                for _ in range(-e):
                    r1 = mul2(r1, b)
        for f, q in ms:
            r1 = mul2(r1, q if q is not None else fpoly(f))
        res = add(res, r1)
    if simple:
        res = add(res, mkP(simple))
    memo[p] = res
    return res


def _subf(f, mp, memo):
    """Poly replacing f or None if unchanged"""
    key = ("F", f)
    r = memo.get(key, _MISSING)
    if r is not _MISSING:
        return r
    q = mp(f)
    if q is None:
        q = _rebuild(f, mp, memo)
    memo[key] = q
    return q


def _sub_any(x, mp, memo):
    if isinstance(x, Poly):
        return _sub(x, mp, memo)
    if isinstance(x, F):
        q = _subf(x, mp, memo)
        return x if q is None else q
    if isinstance(x, tuple):
        return tuple(_sub_any(y, mp, memo) for y in x)
    return x


def _rebuild(f, mp, memo):
    op = f.op
    if op in ("sym", "I"):
        return None
    if op == "rd":
        root, idx, ver = f.a
        i2 = _sub_any(idx, mp, memo) if idx is not None else None
        v2 = _sub_any(ver, mp, memo) if isinstance(ver, (Poly, tuple)) else ver
        if i2 is idx or i2 == idx:
            if v2 == ver:
                return None
        if any(isinstance(p, Poly) and _has_gates(p) for p in (i2 or ())):
            pass
        return fpoly(mkF("rd", (root, i2, v2), f.kind, f.sym))
    if op == "fn":
        a2 = _sub_any(f.a[1], mp, memo)
        if a2 == f.a[1]:
            return None
        return fn(f.a[0], a2, f.kind)
    if op == "bfn":
        a2 = _sub_any(f.a[1], mp, memo)
        return None if a2 == f.a[1] else bfn(f.a[0], *a2)
    if op == "T":
        q = _subf(f.a[0], mp, memo)
        return None if q is None else transpose(q)
    if op == "inv":
        q = _sub(f.a[0], mp, memo)
        return None if q is f.a[0] else inv(q)
    if op == "recip":
        q = _sub(f.a[0], mp, memo)
        return None if q is f.a[0] else recip(q)
    if op == "diag":
        qs = [_subf(x, mp, memo) for x in f.a]
        if all(q is None for q in qs):
            return None
        return diag(mul(*[q if q is not None else fpoly(x) for x, q in zip(f.a, qs)]))
    if op == "dot":
        qs = [_subf(x, mp, memo) for x in f.a]
        if all(q is None for q in qs):
            return None
        full = mul(*[q if q is not None else fpoly(x) for x, q in zip(f.a[1:], qs[1:])])
        first = qs[0] if qs[0] is not None else fpoly(f.a[0])
        return dot(transpose(first), full)
    if op == "sup":
        ch = False
        d = {}
        for e, g in f.a[0]:
            e2, g2 = _sub(e, mp, memo), _sub(g, mp, memo)
            ch |= e2 is not e or g2 is not g
            d[e2] = b_or(d[e2], g2) if e2 in d else g2
        return mk_sup(d) if ch else None
    if op == "min":
        a2 = [_sub(x, mp, memo) for x in f.a[0]]
        if all(any(x is y for y in f.a[0]) for x in a2):
            return None
        return smin(*a2)
    if op in ("over", "sum", "any"):
        bv, body, lo, hi = f.a
        b2, l2, h2 = _sub(body, mp, memo), _sub(lo, mp, memo), _sub(hi, mp, memo)
        if b2 is body and l2 is lo and h2 is hi:
            return None
        if op == "over":
            d, plain = {}, {}
            for (g, sc, m), c in b2.terms.items():
                el = [x for x, e in sc if x.op == "fn" and x.a[0] == "elem"]
                if len(el) == 1 and len(sc) == 1 and not m:
                    e = el[0].a[1][0]
                    d[e] = add(d.get(e, ZERO), mkP({(g, (), ()): c}))
                else:
                    plain[(g, sc, m)] = c
            if not plain and (d or any(x.op == "fn" and x.a[0] == "elem" for x in factors(body))):
                r = sup_over(d, bv, l2, h2)
                return mk_sup(r) if r else NEGINF
        nf = _bind(op, bv, b2, l2, h2)
        if f.kind == "v":
            nf = mkF(nf.op, nf.a, "v")
        return fpoly(nf)
    if op == "lt0":
        q = _sub(f.a[0], mp, memo)
        return None if q is f.a[0] else lt_int(q, ZERO)
    if op == "nz":
        q = _sub(f.a[0], mp, memo)
        return None if q is f.a[0] else nz(q)
    if op in ("flt", "fle", "feq"):
        a, b = _sub(f.a[0], mp, memo), _sub(f.a[1], mp, memo)
        if a is f.a[0] and b is f.a[1]:
            return None
        return {"flt": flt, "fle": fle, "feq": feq}[op](a, b)
    if op == "b":
        q = _subf(f.a[0], mp, memo)
        return q
    a2 = tuple(_sub_any(x, mp, memo) for x in f.a)
    if a2 == f.a:
        return None
    return fpoly(mkF(op, a2, f.kind, f.sym))


# ------------------------------------------------------------------- display
def show_idx(i):
    if i is None:
        return ""
    return "[" + ",".join(show(x) if isinstance(x, Poly) else str(x) for x in i) + "]"


SHOWN = [0, 0]   # nesting of show, atoms printed by the outermost call
SHOW_MAX = 60000


def show_f(f):
    op = f.op
    SHOWN[1] += 1
    if SHOWN[1] > SHOW_MAX:
        return "..."
    if op == "sym":
        return f.a[0]
    if op == "rd":
        root = f.a[0].split("::")[-1]
        v = f.a[2]
        vs = "" if v == "pre" else ("'" if isinstance(v, tuple) and v and v[0] == "new" else "@%s" % (v if not isinstance(v, tuple) else ":".join(str(x) for x in v[:3])))
        return root + show_idx(f.a[1]) + vs[:40]
    if op in ("fn", "bfn"):
        return f.a[0] + "(" + ", ".join(show(x) if isinstance(x, Poly) else str(x) for x in f.a[1]) + ")"
    if op == "T":
        return show_f(f.a[0]) + "'T"
    if op == "inv":
        return "inv(" + show(f.a[0]) + ")"
    if op == "recip":
        return "1/(" + show(f.a[0]) + ")"
    if op == "diag":
        return "diag(" + "*".join(show_f(x) for x in f.a) + ")"
    if op == "dot":
        return "dot(" + "*".join(show_f(x) for x in f.a) + ")"
    if op == "sup":
        return "max{" + ", ".join((show(e) + ("" if g is ONE else " if " + show(g))) for e, g in sorted(f.a[0], key=lambda z: z[0].id)) + "}"
    if op == "min":
        return "min{" + ", ".join(show(e) for e in sorted(f.a[0], key=lambda z: z.id)) + "}"
    if op in ("over", "sum", "any"):
        n = {"over": "max", "sum": "sum", "any": "any"}[op]
        return "%s_{%s in [%s,%s)} (%s)" % (n, f.a[0].a[0], show(f.a[2]), show(f.a[3]), show(f.a[1]))
    if op == "lt0":
        return show(f.a[0]) + "<0"
    if op == "nz":
        return show(f.a[0]) + "!=0"
    if op in ("flt", "fle", "feq"):
        return show(f.a[0]) + {"flt": "<", "fle": "<=", "feq": "=="}[op] + show(f.a[1])
    if op == "I":
        return "I"
    if op == "b":
        return show_f(f.a[0])
    return op + str(f.a)


def show_m(m):
    g, s, ma = m
    out = ["[" + show_f(f) + "]" for f in sorted(g, key=lambda f: f.id)]
    out += [show_f(f) + ("" if e == 1 else "^%d" % e) for f, e in s]
    out += [show_f(f) for f in ma]
    return "*".join(out)


def show(p):
    if not isinstance(p, Poly):
        return repr(p)
    if not p.terms:
        return "0"
    if not SHOWN[0]:
        SHOWN[1] = 0
    if SHOWN[1] > SHOW_MAX:
        return "..."
    SHOWN[0] += 1
    try:
        return _show(p)
    finally:
        SHOWN[0] -= 1


def _show(p):
    out = []
    for m, c in sorted(p.terms.items(), key=lambda z: m_key(z[0])):
        s = show_m(m)
        cs = str(c) if c.denominator == 1 else str(float(c))
        if not s:
            t = cs
        elif c == 1:
            t = s
        elif c == -1:
            t = "-" + s
        else:
            t = cs + "*" + s
        out.append(t)
    return " + ".join(out).replace("+ -", "- ")


def diff(got, want):
    """(missing, extra) monomials, as strings"""
    mis, ext = [], []
    for m in set(got.terms) | set(want.terms):
        a, b = got.terms.get(m, 0), want.terms.get(m, 0)
        if a == b:
            continue
        one = mkP({m: Fraction(1)})
        if b:
            mis.append(show(mkP({m: b})))
        if a:
            ext.append(show(mkP({m: a})))
    return mis, ext
