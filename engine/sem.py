"""Dataflow over the resolved program: computes, for every variable a function
writes, its value as a canonical gated polynomial (alg.py) over the values at
function entry -- a global value numbering in which loops are closed
(sum / max / any / per-element definitions / recurrences), calls of named unit
functions are opaque events with mod-sets, and every other function of the
repository (helpers, lambdas) is seen through."""
import struct, json
import re
from fractions import Fraction
import alg
from alg import (Poly, F, mkF, mkP, ZERO, ONE, const, fpoly, sym, add, sub, neg, mul, scale, ite, b_not, b_and, b_or,
                 fn, bfn, flt, fle, feq, lt_int, eq_int, nz, recip, transpose, inv, diag, ident, hadamard, dot, smax,
                 smin, NEGINF, POSINF, cval, sole_factor, subst, depends, cofactor, gatoms, RANGES, TSYM, is_const)
from ir import Broken, walk

NDX, NX = sym("ndx"), sym("nx")


# ------------------------------------------------------------------ types
def strip(ty):
    ty = ty.strip()
    while True:
        o = ty
        if ty.startswith("const "):
            ty = ty[6:]
        if ty.endswith("&"):
            ty = ty[:-1]
        if ty.endswith(" const"):
            ty = ty[:-6]
        ty = ty.strip()
        if ty == o:
            return ty


UINTS = {"unsigned long", "unsigned int", "size_t", "std::size_t", "unsigned long long"}


class TypeTab(dict):
    """types of the locations; unsigned scalars are known to be non-negative"""

    def __setitem__(self, root, ty):
        if ty in UINTS and root.split("::")[0].startswith("Solver"):
            alg.UNSIGNED.add(root)
        dict.__setitem__(self, root, ty)

    def setdefault(self, root, ty):
        if root not in self:
            self[root] = ty
        return self[root]


INTS = {"int", "unsigned long", "long", "unsigned int", "size_t", "std::size_t", "short", "unsigned short", "char",
        "unsigned char", "long long", "unsigned long long"}


SMALL = {"short": 15, "unsigned short": 16, "char": 7, "signed char": 7, "unsigned char": 8, "float": 0}


def truncated(v):
    """a floating-point number converted to an integer"""
    c = cval(v)
    return const(int(c)) if c is not None else fn("trunc", (v,))


def narrowed(v, t):
    """a number converted to a type that cannot hold every value of the original one"""
    c = cval(v)
    if t == "float":
        if c is not None:
            return const(Fraction(struct.unpack("f", struct.pack("f", float(c)))[0]))
        return fn("float", (v,))
    if t in SMALL:
        return v if c is not None and abs(c) < 2 ** SMALL[t] else fn("narrow", (v, const(SMALL[t])))
    return v


def kind_of(ty):
    ty = strip(ty)
    if ty == "bool":
        return "b"
    if ty in INTS or ty in ("double", "float"):
        return "s"
    if ty.startswith("Eigen::Matrix<"):
        d = ty[14:-1].split(",")
        if len(d) >= 3:
            if d[2] == "1":
                return "v"
            if d[1] == "1":
                return "r"
        return "m"
    if ty.startswith("Eigen::LLT"):
        return "m"
    if ty.startswith("Eigen::Ref<"):
        return kind_of(ty[11:-1])
    if ty.startswith("Eigen::"):
        return "m"
    return "o"


def elem_ty(ty):
    ty = strip(ty)
    if ty.startswith("std::vector<"):
        return ty[12:-1]
    return None


def is_cont(ty):
    return strip(ty).startswith("boost::circular_buffer")


class Ref:
    __slots__ = ("root", "idx", "ty", "view")

    def __init__(self, root, idx, ty, view=None):
        self.root, self.idx, self.ty, self.view = root, idx, ty, view

    def __repr__(self):
        return "&%s%s%s" % (self.root, list(self.idx), self.view or "")


class Obj:
    __slots__ = ("kind", "idx", "x")

    def __init__(self, kind, idx=None, x=None):
        self.kind, self.idx, self.x = kind, idx, x

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.idx)


class Iter:
    def __init__(self, base, pos):
        self.base, self.pos = base, pos


class Up:
    """array update: for all binder values with guard: A[idx] = val"""
    __slots__ = ("binders", "idx", "guard", "val")

    def __init__(self, binders, idx, guard, val):
        self.binders, self.idx, self.guard, self.val = binders, idx, guard, val

    def key(self):
        return (self.binders, self.idx, self.guard, self.val)


class Arr:
    __slots__ = ("tag", "ups", "defs")

    def __init__(self, tag, ups=(), defs=None):
        self.tag, self.ups, self.defs = tag, ups, defs


PRE = Arr("pre")


class State:
    __slots__ = ("s", "env")

    def __init__(self, s=None, env=None):
        self.s = s if s is not None else {}
        self.env = env if env is not None else {}

    def copy(self):
        return State(dict(self.s), self.env)


class Flow:
    __slots__ = ("kind", "q", "st", "val", "l")

    def __init__(self, kind, q, st, val=None, l=None):
        self.kind, self.q, self.st, self.val, self.l = kind, q, st, val, l


class Event:
    def __init__(self, **k):
        self.__dict__.update(k)
        self.res = []

    def r(self, p):
        """apply loop resolutions to a value seen at this event"""
        if isinstance(p, Poly):
            for f in self.res:
                p = subst(p, f, {})
            return p
        return p

    @property
    def guard(self):
        return self.r(self.g)

    def read(self, root, idx=()):
        return self.r(self.E.read_store(self.snap, root, tuple(idx)))

    def arg(self, i):
        return self.r(self.args[i])


def factor_tags(p):
    return [f for f in alg.factors(p) if f.op == "rd"]


class Eval:
    def __init__(self, prog, cls, units=(), inline=(), lens=None, kinds=None):
        self.rng = {}       # loop symbol -> its range
        self.P, self.cls = prog, cls
        self.assume = {}
        self.units = set(units)
        self.inline_names = set(inline)
        self.events = []
        self.throws = []
        self.accs = []       # element accesses and matrix assignments
        self.seq = {}
        self.loops = []      # [(L, symF)]
        self.ctx = ONE
        self.ctxs = []
        self.trydepth = 0
        self.pend = []
        self.nloop = 0
        self.omp = None
        self.depth = 0
        self.lens = lens if lens is not None else {}
        self.ktab = kinds if kinds is not None else {}
        self.tytab = TypeTab()
        self.summaries = {}
        self.unks = []
        self.callstack = []
        self.inlined = set()
        self.shapes = {}
        self.callshape = {}
        self.silent = 0

    # ------------------------------------------------------------- utilities
    def unk(self, why, node, kind="s"):
        l = node.get("l", "?") if isinstance(node, dict) else "?"
        self.unks.append((why, l))
        return fpoly(mkF("unk", ("%s@%s" % (why, l),), kind))

    def loopvars(self):
        return tuple(fpoly(s) for _, s in self.loops if s is not None)

    def fresh(self, base):
        n = self.seq.get(base, 0) + 1
        self.seq[base] = n
        return n

    # ------------------------------------------------------------- reading
    def kind_root(self, root, idx):
        ty = self.tytab.get(root)
        if ty is None:
            return "s"
        t = strip(ty)
        n = len(idx)
        while n > 0 and elem_ty(t):
            t = elem_ty(t)
            n -= 1
        if n > 0:
            return "s"
        return kind_of(t)

    def rd(self, root, idx, tag):
        k = self.kind_root(root, idx)
        if k == "o":
            k = "s"
        return fpoly(mkF("rd", (root, tuple(idx), tag), k))

    def read_store(self, s, root, idx):
        v = s.get(root)
        if v is None:
            return self.gate_read(root, idx, PRE)
        if isinstance(v, Arr):
            return self.gate_read(root, idx, v)
        if isinstance(v, Poly):
            if not idx:
                return v
            return self.elem(v, idx)
        return v

    def gate_read(self, root, idx, arr):
        # hoist gates inside index expressions
        for j, p in enumerate(idx):
            ga = gatoms(p)
            if ga:
                a = sorted(ga, key=lambda f: f.id)[0]
                i1 = idx[:j] + (cofactor(p, a, True),) + idx[j + 1:]
                i0 = idx[:j] + (cofactor(p, a, False),) + idx[j + 1:]
                return ite(fpoly(a), self.gate_read(root, i1, arr), self.gate_read(root, i0, arr))
        return self.read_arr(root, idx, arr, len(arr.ups))

    def match(self, up, idx):
        """(cond, binding dict) for reading idx of an update with same arity"""
        m, cond = {}, ONE
        left = dict((b[0], b) for b in up.binders)
        eqs = []
        for pat, p in zip(up.idx, idx):
            done = False
            for b in list(left):
                if depends(pat, b):
                    c = affine(pat, b)
                    if c is None:
                        return None, None
                    k, off = c
                    if k not in (1, -1):
                        return None, None
                    m[b] = scale(sub(p, off), k)
                    del left[b]
                    done = True
                    break
            if not done:
                eqs.append((pat, p))
        if left:
            return None, None
        for b, lo, hi in up.binders:
            lo2, hi2 = subst(lo, m), subst(hi, m)
            cond = mul(cond, b_not(lt_int(m[b], lo2)), lt_int(m[b], hi2))
            if cond is ZERO:
                return ZERO, m
        for pat, p in eqs:
            cond = mul(cond, eq_int(subst(pat, m), p))
        if cond is ZERO:
            return ZERO, m
        return mul(cond, subst(up.guard, m)), m

    def read_arr(self, root, idx, arr, n):
        while n > 0:
            up = arr.ups[n - 1]
            if up.idx == "all":
                v = up.val
                n0 = self.depth_of_root(root)
                if len(idx) > n0 and isinstance(v, Poly):
                    v = self.elem(v, idx[n0:])
                if up.guard is ONE:
                    return v
                return ite(up.guard, v, self.read_arr(root, idx, arr, n - 1))
            if len(up.idx) == len(idx):
                c, m = self.match(up, idx)
                if c is None:
                    return self.rd(root, idx, ("opq", id_of(arr, n)))
                if c is ZERO:
                    n -= 1
                    continue
                v = subst(up.val, m) if m else up.val
                if c is ONE:
                    return v
                return ite_at(c, v, self.read_arr(root, idx, arr, n - 1))
            if len(up.idx) < len(idx):
                c, m = self.match(up, idx[:len(up.idx)])
                if c is ZERO:
                    n -= 1
                    continue
                if c is None:
                    return self.rd(root, idx, ("opq", id_of(arr, n)))
                v = subst(up.val, m) if m else up.val
                v = self.elem(v, idx[len(up.idx):])
                if c is ONE:
                    return v
                return ite(c, v, self.read_arr(root, idx, arr, n - 1))
            # element update seen by a whole-vector read
            c, m = self.match_prefix(up, idx)
            if c is ZERO:
                n -= 1
                continue
            return self.rd(root, idx, ("opq", id_of(arr, n)))
        if isinstance(arr.tag, tuple) and arr.tag[0] == "gm":
            c, x, y = _GM[arr.tag[1]]
            return ite(c, self.gate_read(root, idx, x), self.gate_read(root, idx, y))
        return self.rd(root, idx, arr.tag)

    def match_prefix(self, up, idx):
        u2 = Up(tuple(b for b in up.binders if any(depends(p, b[0]) for p in up.idx[:len(idx)])), up.idx[:len(idx)],
                ONE, ZERO)
        return self.match(u2, idx)

    def depth_of_root(self, root):
        t = strip(self.tytab.get(root, "double"))
        n = 0
        while elem_ty(t):
            t = elem_ty(t)
            n += 1
        return n + (1 if pair_ty(t) else 0)

    def elem(self, v, idx):
        """element of a vector/matrix value"""
        if v is ZERO:
            return ZERO
        out = ZERO
        for (g, s, m), c in v.terms.items():
            base = mkP({(g, s, ()): c})
            if not m:
                e = fn("el", (ONE,) + tuple(idx))
            elif len(m) == 1 and m[0].op == "rd":
                f = m[0]
                e = fpoly(mkF("rd", (f.a[0], f.a[1] + tuple(idx), f.a[2]), "s"))
            elif len(m) == 1 and m[0].op == "fn" and m[0].a[0] == "ones":
                e = ONE
            else:
                e = fn("el", (mkP({(frozenset(), (), m): Fraction(1)}),) + tuple(idx))
            out = add(out, mul(base, e))
        return out

    def read(self, st, ref):
        if isinstance(ref, Ref):
            v = self.read_store(st.s, ref.root, ref.idx)
            if ref.view:
                return self.view_read(v, ref.view)
            return v
        return ref

    def view_read(self, v, view):
        if not isinstance(v, Poly):
            return v
        for w in view:
            if w[0] == "diag":
                v = fn("diagof", (v,), "v")
            elif w[0] == "triu" or w[0] == "triu_strict":
                v = fn("triuval" + str(w[1]), (v,), "m")
            elif w[0] in ("seg", "block", "row", "col"):
                v = blk_read(v, w)
            elif w[0] == "array":
                pass
        return v

    # ------------------------------------------------------------- writing
    def write(self, st, ref, val, node=None):
        if isinstance(ref, Obj) or not isinstance(ref, Ref):
            self.unk("write to non-lvalue", node)
            return
        self.note("wr", st, node, root=ref.root, idx=ref.idx, view=ref.view, val=val)
        if ref.view:
            old = self.read_store(st.s, ref.root, ref.idx)
            val = self.view_write(old, ref.view, val, node)
        self.write_raw(st, ref.root, ref.idx, val)

    def write_raw(self, st, root, idx, val):
        d = self.depth_of_root(root)
        cur = st.s.get(root)
        if not idx and d == 0:
            st.s[root] = val
            return
        if len(idx) > d and d == 0:
            # element of a plain vector/matrix variable
            if isinstance(cur, Poly):
                st.s[root] = fpoly(mkF("rd", (root + "#up", (), ("elw", cur, tuple(idx), val)), self.kind_root(root, ())))
                return
            cur = cur if isinstance(cur, Arr) else PRE
            st.s[root] = Arr(cur.tag, cur.ups + (Up((), tuple(idx), ONE, val),), cur.defs)
            return
        cur = cur if isinstance(cur, Arr) else PRE
        if not idx:
            st.s[root] = Arr(cur.tag, cur.ups + (Up((), "all", ONE, val),), cur.defs)
            return
        ups = cur.ups
        # drop an update of exactly the same element
        if ups and ups[-1].idx == tuple(idx) and not ups[-1].binders and ups[-1].guard is ONE:
            ups = ups[:-1]
        st.s[root] = Arr(cur.tag, ups + (Up((), tuple(idx), ONE, val),), cur.defs)

    def view_write(self, old, view, val, node):
        view = tuple(w for w in view if w[0] != "array")
        if not view:
            return val
        w = view[-1]
        if len(view) == 1 and w[0] == "triu":
            return fn("triuw" + str(w[1]), (old, val), "m")
        if len(view) == 1 and w[0] in ("seg", "block", "row", "col"):
            return blk_write(old, w, val)
        if len(view) == 2 and view[0][0] in ("seg", "block", "row", "col") and view[1][0] == "diag":
            return blk_write(old, view[0] + ("diag",), val)
        if len(view) == 1 and w[0] == "diag":
            return fn("diagset", (old, val), "m")
        if len(view) == 2 and all(x[0] in ("seg", "block", "row", "col") for x in view):
            return blk_write(old, compose(view[0], view[1]), val)
        return self.unk("write through view %s" % (view,), node, "m")

    # ------------------------------------------------------------- merging
    def merge_states(self, c, a, b):
        """state: if c then a else b"""
        if a is b:
            return a
        s = {}
        for k in set(a.s) | set(b.s):
            x, y = a.s.get(k), b.s.get(k)
            if x is y:
                s[k] = x
                continue
            s[k] = self.merge_val(k, c, x, y)
        return State(s, a.env)

    def merge_val(self, k, c, x, y):
        if c is ONE:
            return x if x is not None else PRE_or(self, k)
        if c is ZERO:
            return y if y is not None else PRE_or(self, k)
        if isinstance(x, Arr) or isinstance(y, Arr) or (self.depth_of_root(k) > 0):
            if isinstance(x, Poly) or isinstance(y, Poly):
                if x is None:
                    x = self.read_store({}, k, ())
                if y is None:
                    y = self.read_store({}, k, ())
                if isinstance(x, Poly) and isinstance(y, Poly):
                    return ite(c, x, y)
                return Arr(("mix", k, c, id(x), id(y)))
            x = x or PRE
            y = y or PRE
            if x.tag == y.tag:
                n = 0
                while n < len(x.ups) and n < len(y.ups) and (x.ups[n] is y.ups[n] or x.ups[n].key() == y.ups[n].key()):
                    n += 1
                ups = x.ups[:n]
                rx, ry = list(x.ups[n:]), list(y.ups[n:])
                # same element written once in both branches
                out = []
                if len(rx) == len(ry) and all(p.idx == q.idx and p.binders == q.binders and p.idx != "all" for p, q in zip(rx, ry)):
                    for p, q in zip(rx, ry):
                        if p.guard is q.guard:
                            out.append(Up(p.binders, p.idx, p.guard, ite(c, p.val, q.val)))
                        else:
                            out = None
                            break
                else:
                    out = None
                if out is None:
                    out = [Up(p.binders, p.idx, mul(c, p.guard), p.val) for p in rx]
                    out += [Up(p.binders, p.idx, mul(b_not(c), p.guard), p.val) for p in ry]
                return Arr(x.tag, ups + tuple(out), x.defs)
            return Arr(gm_tag(c, x, y))
        if x is None:
            x = self.read_store({}, k, ())
        if y is None:
            y = self.read_store({}, k, ())
        if isinstance(x, Poly) and isinstance(y, Poly):
            return ite(c, x, y)
        return x if x is y else fpoly(mkF("unk", ("merge of objects " + k,), "s"))

    def merge_flows(self, flows):
        """[(q, st, val)] -> (q, st, val); disjoint conditions"""
        q, st, val = flows[-1]
        for q2, st2, val2 in reversed(flows[:-1]):
            st = self.merge_states(q2, st2, st)
            if val2 is not None or val is not None:
                if isinstance(val2, Poly) and isinstance(val, Poly):
                    val = ite(q2, val2, val)
                elif val is not val2:
                    val = val if val2 is None else val2
            q = add(q, q2)
        return q, st, val

    # ------------------------------------------------------------- statements
    def exec(self, s, st):
        if s is None:
            return [Flow("n", ONE, st)]
        m = getattr(self, "s_" + s["k"], None)
        if m is None:
            self.unk("statement " + s["k"], s)
            return [Flow("n", ONE, st)]
        return m(s, st)

    def s_nop(self, s, st):
        return [Flow("n", ONE, st)]

    def s_block(self, s, st):
        out, q = [], ONE
        ctx = self.ctx
        for x in s["b"]:
            self.ctx = mul(ctx, q)
            fl = self.exec(x, st)
            ns = [f for f in fl if f.kind == "n"]
            for f in fl:
                if f.kind != "n":
                    f.q = mul(q, f.q)
                    out.append(f)
            if not ns:
                self.ctx = ctx
                return out
            f = ns[0]
            st = f.st
            q = mul(q, f.q)
            if q is ZERO:
                self.ctx = ctx
                return out
        self.ctx = ctx
        out.append(Flow("n", q, st))
        return out

    def finish_expr(self, st, n0, kind="n", val=None, l=None):
        """flows of a statement whose expressions may have thrown"""
        out, q = [], ONE
        for a, tst in self.pend[n0:]:
            out.append(Flow("t", mul(q, a), tst))
            q = mul(q, b_not(a))
        del self.pend[n0:]
        out.append(Flow(kind, q, st, val, l))
        return out

    def s_expr(self, s, st):
        n0 = len(self.pend)
        x = s["x"]
        if x and x["k"] == "throw":
            return self.do_throw(x, st)
        if x and x["k"] == "call" and x.get("q") in ("std::abort", "std::terminate", "exit", "abort", "std::exit"):
            return self.do_throw(x, st)
        st = st.copy()
        r = self.ev(x, st)
        if isinstance(r, CommaInit):
            self.fill_commas(r, st, x)
        if r is NORETURN:
            del self.pend[n0:]
            return [Flow("t", ONE, st)] if self.trydepth else []
        return self.finish_expr(st, n0)

    def fill_commas(self, r, st, x):
        """vector << a, b, c;"""
        t = strip(self.ref_ty(r.ref)) or ""
        if r.ref.view:
            return self.unk("comma initialiser", x)
        if len(r.vals) == 1 and kind_of(t) in "vm" and (is_vec(r.vals[0]) or is_mat(r.vals[0])):
            return self.write(st, r.ref, r.vals[0], x)
        if kind_of(t) != "v" or any(is_vec(v) or is_mat(v) for v in r.vals):
            return self.unk("comma initialiser", x)
        for k, v in enumerate(r.vals):
            self.write(st, Ref(r.ref.root, r.ref.idx + (const(k),), "double"), v, x)

    def do_throw(self, x, st):
        self.throws.append(Event(name="throw", g=self.ctx, snap=dict(st.s), l=x.get("l"), loops=list(self.loops), E=self,
                                 args=[], tried=self.trydepth))
        if self.trydepth:
            return [Flow("t", ONE, st)]
        return []

    def s_decl(self, s, st):
        n0 = len(self.pend)
        st = st.copy()
        for v in s["v"]:
            self.declare(v, st)
        return self.finish_expr(st, n0)

    def declare(self, v, st):
        ty = v["ty"]
        init = v.get("init")
        if "bindings" in v:
            self.unk("structured binding", v)
            return
        if init is None:
            root = "%s:%s#%d" % ("static" if v.get("static") else "l", v["n"], v["id"])
            self.tytab[root] = ty
            st.env[v["id"]] = Ref(root, (), ty)
            if not v.get("static"):
                st.s.pop(root, None)
            return
        t = strip(ty)
        val = self.ev(init, st)
        if val is NORETURN:
            return
        if v.get("static") and not self.fixed(v, val):
            # initialised once per process, by whichever solver comes first, and kept between the calls
            root = "static:%s#%d" % (v["n"], v["id"])
            if isinstance(val, Obj):
                st.env[v["id"]] = Obj("opaque", None, "static " + v["n"])
            else:
                self.tytab[root] = t
                st.env[v["id"]] = Ref(root, (), t)
            return
        if isinstance(val, Obj):
            if val.kind == "opaque" and t.startswith("proxsuite::"):
                val = Obj("ext", None, v["n"])
            if t == "std::basic_string" and val.kind not in ("str", "field"):
                n = list(texts(init, st))
                val = Obj("strs", None, n) if n else val
            st.env[v["id"]] = val
            return
        root = "l:%s#%d" % (v["n"], v["id"])
        if isinstance(val, Iter):
            self.tytab[root] = "long"
            st.s[root] = val.pos
            st.env[v["id"]] = ("iter", val.base, root)
            return
        if ty.endswith("&") and isinstance(val, Ref):
            st.env[v["id"]] = val
            return
        if isinstance(val, Ref) and (ty.endswith("*")):
            st.env[v["id"]] = val
            return
        if (t.startswith("Eigen::") and not t.startswith("Eigen::Matrix<") and not t.startswith("Eigen::LLT")) and isinstance(val, Ref):
            st.env[v["id"]] = val  # expression/view object held by auto
            return
        if t.startswith(LAZY) and isinstance(val, Poly):
            st.env[v["id"]] = ("lazy", init)  # an unevaluated expression: every use reads its operands anew
            return
        self.tytab[root] = t
        st.env[v["id"]] = Ref(root, (), t)
        if isinstance(val, Ref) and (elem_ty(t) or is_cont(t)):
            # copy of a whole array
            cur = st.s.get(val.root)
            if not val.idx and not val.view:
                st.s[root] = fpoly(mkF("unk", ("copy of array " + val.root,), "s"))
                st.env[v["id"]] = Ref(root, (), t)
                a = cur if isinstance(cur, Arr) else Arr(("pre-of", val.root))
                i = mkF("sym", ("cp",), "s")
                self.lens[root] = self.length(val, st)
                st.s[root] = Arr(("copy", val.root), (Up(((i, ZERO, POSINF),), (fpoly(i),), ONE,
                                                      self.read_store(st.s, val.root, (fpoly(i),))),))
                return
        if elem_ty(t) and isinstance(val, Poly):
            f = sole_factor(val)
            if f is not None and f.op == "fn" and f.a[0] == "vec":
                n, x = f.a[1]
                self.lens[root] = n
                st.s[root] = Arr(("loc", root), (Up((), "all", ONE, x),)) if x is not None else Arr(("loc", root))
                return
            self.unk("array initialised by value", v)
        p = self.poly(val, st, v)
        if kind_of(t) == "b" and False:
            pass
        if t in INTS and isinstance(p, Poly):
            pass
        st.s[root] = p

    def fixed(self, v, val):
        """a static local whose value is the same in every call"""
        if isinstance(val, Obj):
            return val.kind not in ("model", "data", "models", "datas", "problem", "this")
        if not isinstance(val, Poly) or not v["ty"].startswith("const "):
            return False
        return all(f.op == "sym" and str(f.a[0]).startswith(("limits.", "+inf", "NAN", "nan")) for f in alg.factors(val)
                   if f.op in ("sym", "rd", "ev", "it", "hav", "unk", "rec"))

    def s_if(self, s, st):
        n0 = len(self.pend)
        st = st.copy()
        pre = []
        if s.get("init"):
            fl = self.exec(s["init"], st)
            st = [f for f in fl if f.kind == "n"][0].st
        if s.get("cv"):
            for v in s["cv"]["v"]:
                self.declare(v, st)
        c = self.cond(s["c"], st)
        heads = self.finish_expr(st, n0)
        qn = heads[-1].q
        out = heads[:-1]
        ctx = self.ctx
        base = mul(ctx, qn)
        res = []
        for cc, br in ((c, s["t"]), (b_not(c), s.get("e"))):
            if cc is ZERO:
                res.append((cc, []))
                continue
            self.ctx = mul(base, cc)
            fl = self.exec(br, st.copy()) if br else [Flow("n", ONE, st)]
            res.append((cc, fl))
        self.ctx = ctx
        (c1, f1), (c2, f2) = res
        n1 = [f for f in f1 if f.kind == "n"]
        n2 = [f for f in f2 if f.kind == "n"]
        # a branch which only throws out of the function does not gate the rest
        dead1 = not f1 and c1 is not ZERO
        dead2 = not f2 and c2 is not ZERO
        for cc, fl, other_dead in ((c1, f1, dead2), (c2, f2, dead1)):
            k = ONE if other_dead else cc
            for f in fl:
                if f.kind != "n":
                    f.q = mul(qn, k, f.q)
                    out.append(f)
        if n1 and n2:
            a, b = n1[0], n2[0]
            st2 = self.merge_states(c1, a.st, b.st)
            if a.q is ONE and b.q is ONE:
                q = qn
            else:
                q = mul(qn, add(mul(c1, a.q), mul(c2, b.q)))
            out.append(Flow("n", q, st2))
        elif n1:
            out.append(Flow("n", mul(qn, ONE if dead2 else c1, n1[0].q), n1[0].st))
        elif n2:
            out.append(Flow("n", mul(qn, ONE if dead1 else c2, n2[0].q), n2[0].st))
        return out

    def s_ret(self, s, st):
        n0 = len(self.pend)
        st = st.copy()
        val = None
        if s.get("x"):
            v = self.ev(s["x"], st)
            val = v
            if isinstance(v, Ref) and not self.ret_ref:
                val = self.poly(v, st, s) if (self.kind_root(v.root, v.idx) != "o" and not elem_ty(self.ref_ty(v))) else v
        if not self.callstack or len(self.callstack) == 1:
            self.events.append(self.mk_event("return", [val], st, s))
        return self.finish_expr(st, n0, "r", val, s.get("l"))

    ret_ref = False

    def s_break(self, s, st):
        return [Flow("b", ONE, st)]

    def s_continue(self, s, st):
        return [Flow("c", ONE, st)]

    def s_omp(self, s, st):
        self.omp = s
        return self.exec(s["b"], st)

    def s_try(self, s, st):
        self.trydepth += 1
        fl = self.exec(s["b"], st)
        self.trydepth -= 1
        ts = [f for f in fl if f.kind == "t"]
        out = [f for f in fl if f.kind not in ("t", "n")]
        ns = [f for f in fl if f.kind == "n"]
        if ts:
            q, tst, _ = self.merge_flows([(f.q, f.st, None) for f in ts])
            ctx = self.ctx
            # handlers catch everything the repository throws (std::exception based)
            hs = s["h"]
            h = hs[0]
            self.ctx = mul(ctx, q)
            hf = self.exec(h["b"], tst.copy())
            self.ctx = ctx
            hn = []
            for f in hf:
                f.q = mul(q, f.q)
                if f.kind == "n":
                    hn.append(f)
                else:
                    out.append(f)
            if ns and hn:
                a, b = ns[0], hn[0]
                out.append(Flow("n", add(a.q, b.q), self.merge_states(q, b.st, a.st)))
            elif hn:
                out.append(hn[0])
            elif ns:
                out.append(ns[0])
        elif ns:
            out.append(ns[0])
        return out

    def s_switch(self, s, st):
        # cases ending in break/return; no fallthrough between non-empty cases
        n0 = len(self.pend)
        st = st.copy()
        v = self.poly(self.ev(s["c"], st), st, s)
        groups = []   # (list of values or 'default', stmts)
        def flat(x, labels):
            while x["k"] in ("case", "default"):
                labels.append(self.poly(self.ev(x["v"], st), st, x) if x["k"] == "case" else "default")
                x = x["b"]
            return x
        for x in (s["b"]["b"] if s["b"]["k"] == "block" else [s["b"]]):
            if x["k"] in ("case", "default"):
                labels = []
                x = flat(x, labels)
                groups.append((labels, [x]))
            elif groups:
                groups[-1][1].append(x)
        chain = None
        others = [(ls, b) for ls, b in groups if "default" not in ls]
        dflt = [b for ls, b in groups if "default" in ls]
        out, ns = [], []
        rest = ONE
        ctx = self.ctx
        for ls, b in others + [(None, dflt[0] if dflt else [])]:
            if ls is None:
                c = rest
            else:
                c = ZERO
                for lv in ls:
                    c = b_or(c, eq_int(v, lv))
                rest = mul(rest, b_not(c))
            if c is ZERO:
                continue
            self.ctx = mul(ctx, c)
            fl = self.exec({"k": "block", "b": b}, st.copy())
            for f in fl:
                f.q = mul(c, f.q)
                if f.kind in ("n", "b"):
                    ns.append((f.q, f.st, None))
                else:
                    out.append(f)
        self.ctx = ctx
        if ns:
            q, st2, _ = self.merge_flows(ns)
            out.append(Flow("n", q, st2))
        return out

    # ------------------------------------------------------------- loops
    def s_for(self, s, st):
        if s.get("init"):
            fl = self.exec(s["init"], st)
            st = [f for f in fl if f.kind == "n"][0].st
        return self.loop(st, s, cond=s.get("c"), inc=s.get("inc"), body=s["b"])

    def s_while(self, s, st):
        return self.loop(st, s, cond=s["c"], inc=None, body=s["b"])

    def s_do(self, s, st):
        c = s["c"]
        while c.get("k") in ("icast", "cast", "paren"):
            c = c["x"]
        if c.get("k") == "bin" and c.get("op") in ("<", "<=", ">", ">=", "!=") and not leaves(s["b"]):
            # a counting loop: its first pass needs no test
            return self.exec({"k": "block", "l": s["l"], "b": [s["b"], {"k": "while", "l": s["l"], "c": s["c"], "b": s["b"]}]}, st)
        # body once, then a while loop
        b = {"k": "block", "l": s["l"], "b": [s["b"], {"k": "if", "l": s["l"], "c": {"k": "un", "op": "!", "x": s["c"], "l": s["l"], "ty": "bool"},
                                              "t": {"k": "break", "l": s["l"]}}]}
        return self.loop(st, s, cond=None, inc=None, body=b)

    def s_rfor(self, s, st):
        st = st.copy()
        if s["r"].get("k") == "init":
            r = Obj("initlist", None, [self.ev(x, st) for x in s["r"]["a"]])
        else:
            r = self.ev(s["r"], st)
        if isinstance(r, Obj) and r.kind == "initlist" and len(r.x) <= 32:
            return self.unrolled(s, r.x, st)
        return self.loop(st, s, cond=None, inc=None, body=s["b"], rng=(s["v"], r))

    def unrolled(self, s, xs, st):
        """a loop over the elements of a braced list: one copy of the body per element"""
        out, left, q, ctx = [], [], ONE, self.ctx
        for x in xs:
            n0 = len(self.pend)
            st = st.copy()
            self.ctx = mul(ctx, q)
            self.declare(dict(s["v"], init={"k": "val", "v": x, "l": s.get("l", "?")}), st)
            del self.pend[n0:]
            on = []
            for f in self.exec(s["b"], st):
                f.q = mul(q, f.q)
                if f.kind in "nc":
                    on.append((f.q, f.st, None))
                elif f.kind == "b":
                    left.append((f.q, f.st, None))
                else:
                    out.append(f)
            if not on:
                q = ZERO
                break
            q, st, _ = self.merge_flows(on)
        self.ctx = ctx
        if q is not ZERO or not (left or out):
            left.append((q, st, None))
        if left:
            q, st, _ = self.merge_flows(left)
            out.append(Flow("n", q, st))
        return out

    def e_val(self, e, st):
        return e["v"]

    def run_iter(self, st, s, cond, inc, body, rng, isym):
        """one iteration from st; returns dict"""
        st = st.copy()
        st.env = dict(st.env)
        ctx, self.ctx = self.ctx, ONE
        n0 = len(self.pend)
        c = ONE
        if rng is not None:
            v, r = rng
            self.bind_range_var(v, r, fpoly(isym), st)
        elif cond is not None:
            c = self.cond(cond, st)
        out = {"c": c, "cst": st.copy(), "b": [], "r": [], "t": [], "n": None}
        fl = self.exec(body, st.copy())
        nf = [(f.q, f.st, None) for f in fl if f.kind in ("c",)] + [(f.q, f.st, None) for f in fl if f.kind == "n"]
        for f in fl:
            if f.kind in "brt":
                out[f.kind].append(f)
        if nf:
            q, st2, _ = self.merge_flows(nf)
            st2 = st2.copy()
            if inc is not None:
                self.ctx = q
                self.ev(inc, st2)
            out["n"] = (q, st2)
        self.ctx = ctx
        del self.pend[n0:]
        return out

    def bind_range_var(self, v, r, i, st):
        ty = v["ty"]
        if isinstance(r, Span):
            r, i = r.base, add(r.lo, i)
        if isinstance(r, Ref):
            ety = elem_ty(self.ref_ty(r)) or "double"
            if is_cont(self.ref_ty(r)):
                ety = "double"
            ref = Ref(r.root, r.idx + (i,), ety)
            if kind_of(ety) == "o" and not elem_ty(ety):
                st.env[v["id"]] = Obj("opaque", (i,), r)
                return
            if ty.endswith("&"):
                st.env[v["id"]] = ref
            else:
                root = "l:%s#%d" % (v["n"], v["id"])
                self.tytab[root] = strip(ty)
                st.env[v["id"]] = Ref(root, (), strip(ty))
                st.s[root] = self.read(st, ref)
        elif isinstance(r, Obj) and r.kind in ("models", "datas"):
            st.env[v["id"]] = Obj(r.kind[:-1], i)
        else:
            st.env[v["id"]] = Obj("opaque", (i,), r)

    def loop(self, st, s, cond, inc, body, rng=None):
        # for (c) { if (flag) break; ... }  is  for (c && !flag) { ... }
        b = body["b"] if body["k"] == "block" else None
        if b and rng is None and b[0]["k"] == "if" and not b[0].get("e") and not b[0].get("init") and is_flag(b[0]["c"]):
            t = b[0]["t"]
            t = t["b"][0] if t["k"] == "block" and len(t["b"]) == 1 else t
            if t["k"] == "break":
                x = {"k": "un", "op": "!", "x": b[0]["c"], "ty": "bool", "l": b[0].get("l", "?")}
                cond = x if cond is None else {"k": "bin", "op": "&&", "L": cond, "R": x, "ty": "bool", "l": b[0].get("l", "?")}
                body = dict(body, b=b[1:])
        self.nloop += 1
        L = self.nloop
        omp, self.omp = self.omp, None
        st = st.copy()
        isym = mkF("sym", ("it%d" % L,), "s")
        save_seq, nev, nth, nunk = dict(self.seq), len(self.events), len(self.throws), len(self.unks)
        nacc = len(self.accs)
        nl0 = self.nloop

        def reset():
            self.seq = dict(save_seq)
            del self.events[nev:]
            del self.throws[nth:]
            del self.accs[nacc:]
            del self.unks[nunk:]
            self.nloop = nl0

        self.loops.append((L, isym))
        self.ranged(isym, None)
        W = set()
        out = None
        for _ in range(8):
            reset()
            s0 = self.havoc(st, W, L)
            out = self.run_iter(s0, s, cond, inc, body, rng, isym)
            W2 = set(W)
            for q, x in [out["n"]] if out["n"] else []:
                W2 |= changed(s0, x)
            for k in "brt":
                for f in out[k]:
                    W2 |= changed(s0, f.st)
            W2 |= changed(s0, out["cst"])
            if W2 == W:
                break
            W = W2
        else:
            raise Broken("loop analysis does not stabilise at " + s.get("l", "?"))
        # -------- induction variables
        prim = None
        lo = hi = None
        flagc = ONE
        if rng is not None:
            lo, hi = ZERO, self.range_len(rng[1], st)
            prim = ("range", isym, 1)
        elif out["n"] is not None:
            q, E = out["n"]
            steps = {}
            for r in W:
                if isinstance(self.read_root(s0, r), Poly) and self.depth_of_root(r) == 0:
                    a, b = self.read_root(s0, r), self.read_root(E, r)
                    if isinstance(b, Poly):
                        d = cval(sub(b, a))
                        if d in (1, -1):
                            steps[r] = int(d)
            conj, rest = conjuncts(out["c"])
            for r, d in steps.items():
                itf = sole_factor(self.read_root(s0, r))
                los, his, used = [], [], []
                for a, pol in conj:
                    b = bound_of(a, pol, itf, d)
                    if b is None:
                        continue
                    if has_it(b[1], L):
                        continue
                    used.append((a, pol))
                    (his if b[0] == "hi" else los).append(b[1])
                init = self.read_root(st, r)
                if not isinstance(init, Poly) or has_it(init, L):
                    continue
                if d == 1 and his and not los:
                    prim = (r, itf, 1)
                    lo, hi = init, smin(*his)
                elif d == -1 and los and not his:
                    prim = (r, itf, -1)
                    hi = add(init, ONE)
                    lo = los[0] if len(los) == 1 else None
                    if lo is None:
                        prim = None
                        continue
                else:
                    continue
                flagc = rest
                for a, pol in conj:
                    if (a, pol) not in used:
                        flagc = mul(flagc, fpoly(a) if pol else b_not(fpoly(a)))
                break
        if prim is None and rng is None and out["n"] is not None:
            # while (!done) { ... done = true; ... } with a local flag: leaves at the end of the iteration which sets it
            fl = {}
            for a, pol in conjuncts(out["c"])[0]:
                for r in W:
                    v = self.read_root(s0, r)
                    if r.startswith("l:") and isinstance(v, Poly) and v is fpoly(a) and self.read_root(st, r) is (ONE if pol else ZERO):
                        fl[r] = ONE if pol else ZERO
            if fl:
                reset()
                s0 = self.havoc(st, W, L, fl)
                out = self.run_iter(s0, s, cond, inc, body, rng, isym)
                if out["n"] is not None:
                    q, E = out["n"]
                    stay = ONE
                    for r, v in fl.items():
                        x = self.read_root(E, r)
                        stay = mul(stay, x if v is ONE else b_not(x))
                    if stay is not ONE:
                        go, end = mul(q, stay), mul(q, b_not(stay))
                        if end is not ZERO:
                            out["b"].append(Flow("b", end, state_under(E, end), None, s.get("l")))
                        out["n"] = (go, state_under(E, go)) if go is not ZERO else None
        if prim is None and rng is None:
            flagc = out["c"]
        # second pass with range knowledge and secondary induction variables
        iv = {}
        if prim is not None:
            r0, itf, d0 = prim
            # the loop symbol is the primary variable itself
            reset()
            ivals = {}
            isy = fpoly(isym)
            self.ranged(isym, lo, hi)
            if r0 != "range":
                ivals[r0] = isy
            s0 = self.havoc(st, W, L, ivals)
            out = self.run_iter(s0, s, cond, inc, body, rng, isym)
            if out["n"]:
                E = out["n"][1]
                k = sub(isy, lo) if d0 == 1 else sub(sub(hi, ONE), isy)
                for r in sorted(W):
                    if r == r0 or self.depth_of_root(r) or r in ivals:
                        continue
                    a, b = self.read_root(s0, r), self.read_root(E, r)
                    if not (isinstance(a, Poly) and isinstance(b, Poly)) or kind_of(self.tytab.get(r, "double")) != "s" \
                            or strip(self.tytab.get(r, "double")) not in INTS:
                        continue
                    dlt = sub(b, a)
                    if has_it(dlt, L, isym) or dlt is ZERO:
                        continue
                    init = self.read_root(st, r)
                    if not isinstance(init, Poly):
                        continue
                    if not depends(dlt, isym):
                        ivals[r] = add(init, mul(dlt, k))
                        iv[r] = add(init, mul(dlt, sub(hi, lo)))
                    elif d0 == 1:
                        j = mkF("sym", ("psum%d" % L,), "s")
                        ivals[r] = add(init, alg.sum_over(subst(dlt, {isym: fpoly(j)}), j, lo, isy))
                        iv[r] = add(init, alg.sum_over(subst(dlt, {isym: fpoly(j)}), j, lo, hi))
                if len(ivals) > (1 if r0 != "range" else 0):
                    reset()
                    s0 = self.havoc(st, W, L, ivals)
                    out = self.run_iter(s0, s, cond, inc, body, rng, isym)
            if r0 != "range":
                if d0 == 1:
                    iv[r0] = ite(lt_int(lo, hi), hi, lo)
                else:
                    iv[r0] = ite(lt_int(lo, hi), sub(lo, ONE), sub(hi, ONE))
            # an ascending loop whose arrays are written from the end (index c - i): the loop symbol follows the index
            c = self.mirror(s0, out, W, isym) if r0 != "range" and d0 == 1 and flagc is ONE else None
            if c is not None:
                lo, hi = sub(add(c, ONE), hi), sub(add(c, ONE), lo)
                self.ranged(isym, lo, hi)
                ivals = {r: subst(v, {isym: sub(c, isy)}) for r, v in ivals.items()}
                reset()
                s0 = self.havoc(st, W, L, ivals)
                out = self.run_iter(s0, s, cond, inc, body, rng, isym)
                prim = (r0, itf, -1)
        self.loops.pop()
        self.loopinfo[L] = dict(s0=s0, frame=len(self.callstack), entry=st, out=out, W=set(W), isym=isym, prim=prim, lo=lo, hi=hi, flagc=flagc, l=s.get("l"),
                                ctx=self.ctx, outer=[x[0] for x in self.loops], omp=omp)
        return self.close_loop(st, s0, out, W, L, isym, prim, lo, hi, flagc, iv, s, nev, nth, nacc)

    def ranged(self, isym, lo, hi=None):
        """the range of a loop's symbol (None: not known)"""
        self.rng.pop(isym, None)
        RANGES.pop(isym, None)
        if lo is not None and is_int_bound(lo) and is_int_bound(hi):
            self.rng[isym] = RANGES[isym] = (lo, hi)

    def mirror(self, s0, out, W, isym):
        """c when every array element that a (search-free) loop writes lies at an index c' - isym; c is the smallest c'"""
        if out["b"] or out["r"] or out["n"] is None:
            return None
        E = out["n"][1]
        best = None
        for r in W:
            v = E.s.get(r)
            if not isinstance(v, Arr):
                continue
            b = s0.s.get(r)
            n = len(b.ups) if isinstance(b, Arr) else 0
            for u in v.ups[n:]:
                if not u.idx or not isinstance(u.idx[0], Poly) or not depends(u.idx[0], isym):
                    continue
                k, c = alg._affine1(u.idx[0], isym)
                if k != -1:
                    return None
                if best is None:
                    best = c
                else:
                    d = cval(sub(c, best))
                    if d is None:
                        return None
                    if d < 0:
                        best = c
        return best

    def read_root(self, st, r):
        v = st.s.get(r)
        if v is None:
            if self.depth_of_root(r):
                return PRE
            return self.read_store({}, r, ())
        return v

    def havoc(self, st, W, L, vals=None):
        s0 = st.copy()
        for r in W:
            if vals and r in vals:
                s0.s[r] = vals[r]
                continue
            cur = st.s.get(r)
            if self.depth_of_root(r) or isinstance(cur, Arr):
                s0.s[r] = Arr(("it", L, r))
            else:
                k = self.kind_root(r, ())
                s0.s[r] = fpoly(mkF("rd", (r, (), ("it", L, r)), "s" if k == "o" else k))
        return s0

    def range_len(self, r, st):
        if isinstance(r, Span):
            return sub(r.hi, r.lo)
        if isinstance(r, Ref):
            return self.length(r, st)
        if isinstance(r, Obj) and r.kind in ("models", "datas"):
            return TSYM
        return sym("len:opaque")

    def length(self, ref, st=None):
        n = self.lens.get(ref.root)
        if n is not None and not ref.idx:
            return n
        if ref.root.endswith("SolverAbstract::xs_") or ref.root.endswith("SolverAbstract::fs_"):
            return add(TSYM, ONE)
        if ref.root.endswith("SolverAbstract::us_"):
            return TSYM
        f = mkF("rd", ("len:" + ref.root, tuple(ref.idx), "pre"), "s")
        alg.NONNEG.add(f)
        return fpoly(f)

    # -------- closing a loop
    def close_loop(self, st, s0, out, W, L, isym, prim, lo, hi, flagc, iv, s, nev, nth, nacc):
        B, R, Th = out["b"], out["r"], out["t"]
        evs = self.events[nev:] + self.throws[nth:] + self.accs[nacc:]
        flows = []
        # exception flows leave with an opaque condition
        simple = prim is not None and not B and not R and flagc is ONE and out["n"] is not None
        if simple:
            final, resolver = self.closed_forms(st, s0, out["n"][1], W, L, isym, lo, hi, prim[2], iv)
            if L in self.loopinfo:
                self.loopinfo[L]["resolver"] = resolver
            for e in evs:
                e.res.append(resolver)
            st2 = st.copy()
            st2.s.update(final)
            for f in Th:
                flows.append(Flow("t", alg.any_over(subst(f.q, resolver, {}), isym, lo, hi), self.havoc(st, W, "x%d" % L)))
            flows.append(Flow("n", ONE, st2))
            return flows
        if prim is not None and out["n"] is not None:
            r = self.search_loop(st, s0, out, W, L, isym, lo, hi, prim, flagc, iv, evs)
            if r is not None:
                return r
        # ---- general loop: state at exit expressed over the exiting iteration's start values
        ns = []
        c = out["c"]
        cont = (rng_exit(prim, L) if prim is not None and prim[0] == "range" else None)
        if cont is not None:
            x = out["cst"].copy()
            ns.append((b_not(cont), self.havoc(st, W, L), None))
            c = cont
        elif c is not ONE:
            ns.append((b_not(c), out["cst"], None))
        for f in B:
            ns.append((mul(c, f.q), f.st, None))
        ex = ONE
        k = 0
        for f in R:
            k += 1
            a = fpoly(mkF("bfn", ("exit%d.%d" % (L, k), self.loopvars()), "b"))
            flows.append(Flow("r", mul(ex, a), f.st, f.val, f.l))
            ex = mul(ex, b_not(a))
        for f in Th:
            k += 1
            a = fpoly(mkF("bfn", ("exit%d.%d" % (L, k), self.loopvars()), "b"))
            flows.append(Flow("t", mul(ex, a), f.st))
            ex = mul(ex, b_not(a))
        if ns:
            q, st2, _ = self.merge_flows(ns)
            flows.append(Flow("n", ex, st2))
        return flows

    def closed_forms(self, st, s0, E, W, L, isym, lo, hi, d, iv):
        """final values of everything written, and a resolver for values seen inside"""
        isy = fpoly(isym)
        arrs = [r for r in W if isinstance(self.read_root(s0, r), Arr)]
        offs = {}
        bad = set()
        for r in arrs:
            v = self.read_root(E, r)
            if not isinstance(v, Arr) or v.tag != ("it", L, r):
                bad.add(r)
                continue
            o = set()
            for u in v.ups:
                if u.idx == "all":
                    o.add(None)
                    continue
                p = u.idx[0]
                if depends(p, isym):
                    a = affine(p, isym)
                    if a is None or a[0] != 1 or cval(sub(p, isy)) is None:
                        o.add(None)
                    else:
                        o.add(cval(sub(p, isy)))
                else:
                    o.add(("inv", p))
            offs[r] = o
        newtag = {}
        used_new = set()
        last = sub(hi, ONE) if d == 1 else lo

        def res_arr(r, idx):
            """value of A[idx] at the start of iteration isym"""
            if r in bad or r not in offs:
                return None
            o = offs[r]
            prearr = self.read_root(st, r)
            if not o:
                return self.read_store(st.s, r, idx)
            if None in o:
                return None
            p = idx[0] if idx else None
            invs = [x[1] for x in o if isinstance(x, tuple)]
            num = [x for x in o if not isinstance(x, tuple)]
            if p is None:
                return None
            for q in invs:
                e = eq_int(q, p)
                if e is not ZERO:
                    return None
            if not num:
                return self.read_store(st.s, r, idx)
            dd = cval(sub(p, isy))
            if dd is None:
                # fixed element: outside the written range?
                alln = True
                for c in num:
                    # written range [lo+c, hi+c)
                    inside = mul(b_not(lt_int(p, add(lo, const(c)))), lt_int(p, add(hi, const(c))))
                    if inside is not ZERO:
                        alln = False
                return self.read_store(st.s, r, idx) if alln else None
            if len(num) > 1:
                rel = {((dd < c) if d == 1 else (dd > c)) for c in num}
                if rel == {False}:
                    return self.read_store(st.s, r, idx)
                return None
            c = num[0]
            written = (dd < c) if d == 1 else (dd > c)
            if written:
                used_new.add(r)
                return self.rd(r, idx, newt(r))
            return self.read_store(st.s, r, idx)

        def newt(r):
            if r not in newtag:
                newtag[r] = ("rec", r, self.fresh("rec:" + r))
            return newtag[r]

        scal = {}
        escal = {}

        def resolver(f):
            if f.op == "rd" and isinstance(f.a[2], tuple) and len(f.a[2]) == 3 and f.a[2][:2] == ("it", L):
                if f in escal:
                    return escal[f]
                r = f.a[2][2]
                if r in scal:
                    return scal[r]
                if r in offs or r in bad:
                    idx = tuple(subst(p, resolver, {}) for p in f.a[1])
                    v = res_arr(r, idx)
                    return v
            return None

        # values at iteration end with array reads resolved
        ev = {}
        scalars = [r for r in W if r not in arrs and r not in iv]
        for r in scalars:
            v = self.read_root(E, r)
            ev[r] = subst(v, resolver, {}) if isinstance(v, Poly) else v
        final = {}
        for r, v in iv.items():
            final[r] = v
        nonempty = lt_int(lo, hi)
        pendg = list(scalars)
        # arrays of which only fixed elements are written: each element is a scalar of its own
        elems, efin = {}, {}
        for r in arrs:
            if r not in bad and offs.get(r) and all(isinstance(x, tuple) and cval(x[1]) is not None for x in offs[r]):
                cs = sorted({x[1] for x in offs[r]}, key=lambda q: cval(q))
                if all(sole_factor(self.read_store(s0.s, r, (q,))) is not None for q in cs):
                    elems[r] = cs
                    for q in cs:
                        ev[(r, q)] = subst(self.read_store(E.s, r, (q,)), resolver, {})
                        pendg.append((r, q))
        progress = True
        while pendg and progress:
            progress = False
            for r in list(pendg):
                v = ev[r]
                if not isinstance(v, Poly):
                    final[r] = v
                    pendg.remove(r)
                    progress = True
                    continue
                if isinstance(r, tuple):
                    own = sole_factor(self.read_store(s0.s, r[0], (r[1],)))
                    v = subst(v, resolver, {})
                    others = its_of(v, L)
                    pre = self.read_store(st.s, r[0], (r[1],))
                    if not others:
                        efin[r] = ite(nonempty, subst(v, {isym: last}), pre)
                    elif others == {own}:
                        cf = self.accumulate(v, own, pre, isym, lo, hi, d)
                        if cf is None:
                            continue
                        efin[r] = cf[0]
                        if cf[1] is not None:
                            escal[own] = cf[1]
                    else:
                        continue
                    pendg.remove(r)
                    progress = True
                    continue
                own = sole_factor(self.read_root(s0, r))
                v = subst(v, resolver, {})
                others = its_of(v, L)
                pre = self.read_root(st, r)
                if not isinstance(pre, Poly):
                    pre = self.read_store({}, r, ())
                if not others:
                    fin = ite(nonempty, subst(v, {isym: last}), pre)
                    final[r] = fin
                    pendg.remove(r)
                    progress = True
                    continue
                if others != {own}:
                    continue
                cf = self.accumulate(v, own, pre, isym, lo, hi, d)
                if cf is not None:
                    final[r], part = cf
                    if part is not None:
                        scal[r] = part
                    pendg.remove(r)
                    progress = True
        for r in pendg:
            if isinstance(r, tuple):
                continue
            n = self.fresh("hav:" + r)
            k = self.kind_root(r, ())
            final[r] = fpoly(mkF("rd", (r, self.loopvars(), ("hav", r, n)), "s" if k == "o" else k))
        # scalars that are overwritten and never carried need no entry in scal
        defs = {}
        for r in arrs:
            if r in bad:
                final[r] = Arr(("hav", r, self.fresh("hav:" + r)))
                continue
            if r in elems and all((r, q) in efin for q in elems[r]):
                defs[r] = [Up((), (q,), ONE, efin[(r, q)]) for q in elems[r]]
                continue
            v = self.read_root(E, r)
            ups = []
            for u in v.ups:
                g = subst(u.guard, resolver, {})
                val = subst(u.val, resolver, {}) if isinstance(u.val, Poly) else u.val
                if u.idx == "all":
                    if depends(val, isym) or depends(g, isym):
                        val = subst(val, {isym: last})
                        g = subst(g, {isym: last})
                    ups.append(Up(u.binders, "all", mul(g, nonempty), val))
                    continue
                idx = tuple(subst(p, resolver, {}) for p in u.idx)
                binders = tuple((b, subst(l, resolver, {}), subst(h, resolver, {})) for b, l, h in u.binders)
                if any(depends(p, isym) for p in idx):
                    # fresh binder
                    nb = mkF("sym", ("b%d" % L,), "s")
                    m = {isym: fpoly(nb)}
                    ups.append(Up(((nb, lo, hi),) + tuple((b, subst(l, m), subst(h, m)) for b, l, h in binders),
                                  tuple(subst(p, m) for p in idx), subst(g, m), subst(val, m)))
                else:
                    if depends(g, isym):
                        ups.append(Up(binders, idx, alg.any_over(g, isym, lo, hi), self.rd(r, idx, ("lastg", r, L))))
                    else:
                        ups.append(Up(binders, idx, mul(g, nonempty), subst(val, {isym: last})))
            defs[r] = ups
        for r in defs:
            pre = self.read_root(st, r)
            if not isinstance(pre, Arr):
                pre = PRE
            if r in newtag:
                final[r] = Arr(newtag[r], (), (pre, tuple(defs[r])))
            else:
                ups = pre.ups
                final[r] = Arr(pre.tag, ups + tuple(defs[r]), pre.defs)
        return final, resolver

    def accumulate(self, v, own, pre, isym, lo, hi, d):
        """closed form of r = v(own, i) over the loop: (final, value at start of iteration)"""
        o = fpoly(own)
        j = mkF("sym", ("acc",), "s")
        jj = fpoly(j)
        prel, preh = (lo, fpoly(isym)) if d == 1 else (add(fpoly(isym), ONE), hi)
        # block assembly
        asm = as_blk(v)
        if asm is not None and asm[0] is o:
            ups = asm[1]
            if not any(depends(u, own) for u in ups):
                return blk_loop(pre, ups, isym, lo, hi), None
            return None
        # max accumulation
        s = alg.pure_sup(v)
        if s is not None:
            dct = dict(s.a[0])
            g = dct.pop(o, None)
            if g is ONE and not any(depends(e, own) or depends(x, own) for e, x in dct.items()):
                tot = dict()
                tot[pre] = ONE
                m = {isym: jj}
                dj = {}
                for e, x in dct.items():
                    dj[subst(e, m)] = subst(x, m)
                oldr = RANGES.get(j)
                if is_int_bound(lo) and is_int_bound(hi):
                    RANGES[j] = (lo, hi)
                o2 = alg.sup_over(dj, j, lo, hi)
                RANGES.pop(j, None)
                for e, x in o2.items():
                    tot[e] = b_or(tot[e], x) if e in tot else x
                return alg.mk_sup(tot), None
            return None
        # v = own + g
        g = sub(v, o)
        if not depends(g, own):
            m = {isym: jj}
            tot = alg.sum_over(subst(g, m), j, lo, hi)
            part = alg.sum_over(subst(g, m), j, prel, preh)
            return add(pre, tot), add(pre, part)
        # v = c*X + (1-c)*own with X independent of i : last-wins constant
        if own.kind == "b" or True:
            k = coeff_of(v, own)
            if k is not None:
                c = b_not(k)
                rest = sub(v, mul(k, o))
                # rest should be c*X
                X = None
                if is_guard(k):
                    for cand in const_candidates(rest, c):
                        if mul(c, cand) is rest:
                            X = cand
                            break
                if X is not None and not depends(X, isym) and not depends(c, own) and not depends(X, own):
                    m = {isym: jj}
                    a = alg.any_over(subst(c, m), j, lo, hi)
                    pa = alg.any_over(subst(c, m), j, prel, preh)
                    return ite(a, X, pre), ite(pa, X, pre)
                # product accumulations  own*g
            # scaling: v = own * g  with g const -> own * g^n : leave opaque
        return None

    def search_loop(self, st, s0, out, W, L, isym, lo, hi, prim, flagc, iv, evs):
        E = out["n"][1]
        qn = out["n"][0]
        B, R, Th = out["b"], out["r"], out["t"]
        scalars = [r for r in W if r not in iv and isinstance(self.read_root(s0, r), Poly)]
        pres = {}
        for r in scalars:
            p = self.read_root(st, r)
            pres[r] = p if isinstance(p, Poly) else self.read_store({}, r, ())
        S = set(scalars)

        def asg(S):
            d = {}
            for r in S:
                f = sole_factor(self.read_root(s0, r))
                if f is not None:
                    d[f] = pres[r]
            return d

        flag_end = None
        for _ in range(len(scalars) + 2):
            m = asg(S)
            xb = ZERO
            for f in B:
                xb = add(xb, f.q)
            xr = ZERO
            for f in R:
                xr = add(xr, f.q)
            Xe = add(xb, xr)
            if flagc is not ONE:
                # flag condition evaluated on the state at the end of the iteration
                fm = {}
                for r in scalars:
                    f = sole_factor(self.read_root(s0, r))
                    v = self.read_root(E, r)
                    if f is not None and isinstance(v, Poly):
                        fm[f] = v
                fend = subst(flagc, fm)
                Xf = mul(qn, b_not(fend))
                Xe = add(Xe, Xf)
            X = subst(Xe, m)
            nx = b_not(X)
            drop = set()
            for r in S:
                v = self.read_root(E, r)
                if not isinstance(v, Poly):
                    drop.add(r)
                    continue
                v = subst(v, m)
                if mul(nx, v) is not mul(nx, pres[r]):
                    drop.add(r)
            if not drop:
                break
            S -= drop
        m = asg(S)
        if its_of(X, L) - set():
            rest = its_of(X, L)
            # arrays written in the loop and read by the exit condition: give up
            return None
        def res(f):
            return m.get(f)
        for e in evs:
            e.res.append(res)
        isy = fpoly(isym)
        found = alg.any_over(X, isym, lo, hi)
        first = fpoly(mkF("first", (_bindvar(X, isym), subst(X, {isym: fpoly(_bindvar(X, isym))}), lo, hi), "s")) if depends(X, isym) else lo
        # entry check of the flag condition
        c0 = ONE
        if flagc is not ONE:
            im = {}
            for r in scalars:
                f = sole_factor(self.read_root(s0, r))
                if f is not None:
                    im[f] = pres[r]
            c0 = subst(flagc, im)
            if depends(c0, isym):
                return None
        found = mul(c0, found)
        # state at exit
        exits = []
        for f in B:
            exits.append((subst(f.q, m), f.st, None))
        if flagc is not ONE:
            exits.append((subst(Xf, m), E, None))
        final = {}
        for r in W:
            if r in iv:
                pass
            p0 = self.read_root(st, r)
            if r in S:
                v = None
                for q, x, _ in exits:
                    y = self.read_root(x, r)
                    y = subst(y, m) if isinstance(y, Poly) else y
                    y = under(y, q)
                    v = y if v is None else ite(q, y, v)
                if v is None:
                    final[r] = p0
                    continue
                v = under(v, X)
                if depends(v, isym):
                    v = subst(v, {isym: first})
                if mul(found, v) is mul(found, pres[r]):
                    final[r] = pres[r]
                else:
                    final[r] = ite(found, v, pres[r])
            elif isinstance(p0, Poly):
                n = self.fresh("hav:" + r)
                k = self.kind_root(r, ())
                final[r] = fpoly(mkF("rd", (r, self.loopvars(), ("hav", r, n)), "s" if k == "o" else k))
                if r in iv and not B and not R and False:
                    final[r] = iv[r]
            else:
                # arrays: written only in the exiting iteration?
                y = self.read_root(E, r)
                if isinstance(y, Arr) and y.tag == ("it", L, r) and not y.ups:
                    pa = p0 if isinstance(p0, Arr) else PRE

                    def fresh_arr(z):
                        if z.tag == ("it", L, r):
                            z = Arr(pa.tag, pa.ups + z.ups, pa.defs)
                        return arr_subst(arr_subst(z, m), {isym: first})
                    vs = [self.read_root(x, r) for q, x, _ in exits]
                    if vs and all(isinstance(z, Arr) for z in vs) and not any(arr_mentions(z, L, r) for z in vs if z.tag != ("it", L, r)):
                        comb = None
                        for (q, x, _), z in zip(exits, vs):
                            z = fresh_arr(z)
                            comb = z if comb is None else self.merge_val(r, subst(under(q, X), {isym: first}), z, comb)
                        final[r] = self.merge_val(r, found, comb, pa)
                        continue
                final[r] = Arr(("hav", r, self.fresh("hav:" + r)))
        st2 = st.copy()
        st2.s.update(final)
        flows = []
        qret = ZERO
        for f in R:
            if not B and flagc is ONE and len(R) == 1:
                q = found
            else:
                q = mul(found, subst(under(subst(f.q, m), X), {isym: first}))
            fs = st.copy()
            for r in W:
                y = self.read_root(f.st, r)
                if isinstance(y, Poly) and r in S:
                    fs.s[r] = subst(subst(y, m), {isym: first})
                elif isinstance(y, Poly):
                    fs.s[r] = subst(y, {isym: first})
                else:
                    fs.s[r] = Arr(("hav", r, self.fresh("hav:" + r))) if self.depth_of_root(r) else y
            v = f.val
            if isinstance(v, Poly):
                v = subst(subst(v, m), {isym: first})
            flows.append(Flow("r", q, fs, v, f.l))
            qret = add(qret, q)
        for f in Th:
            flows.append(Flow("t", alg.any_over(subst(f.q, m), isym, lo, hi), self.havoc(st, W, "x%d" % L)))
        flows.append(Flow("n", b_not(qret), st2))
        return flows

    # ------------------------------------------------------------- expressions
    def cond(self, e, st):
        v = self.ev(e, st)
        return self.tobool(v, st, e)

    def tobool(self, v, st, e):
        if isinstance(v, Ref):
            v = self.read(st, v)
        if isinstance(v, Poly):
            return v
        if isinstance(v, Obj):
            return bfn("nonnull:" + v.kind, *([v.idx] if isinstance(v.idx, Poly) else []))
        return self.unk("condition", e, "b")

    def poly(self, v, st, e=None):
        if isinstance(v, Ref):
            v = self.read(st, v)
        if isinstance(v, Poly):
            return v
        if isinstance(v, Iter):
            return v.pos
        return self.unk("value of %r" % (v,), e if isinstance(e, dict) else {})

    def evp(self, e, st):
        return self.poly(self.ev(e, st), st, e)

    def ev(self, e, st):
        if e is None:
            return None
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            return self.unk("expression " + e["k"], e)
        return m(e, st)

    def e_int(self, e, st):
        return const(int(e["v"]))

    def e_float(self, e, st):
        return const(Fraction(repr(float(e["v"]))))

    def e_bool(self, e, st):
        return ONE if e["v"] else ZERO

    def e_null(self, e, st):
        return Obj("null")

    def e_str(self, e, st):
        return Obj("str", None, e["v"])

    def e_char(self, e, st):
        return Obj("char")

    def e_this(self, e, st):
        return Obj("this")

    def e_zero(self, e, st):
        return ZERO

    def e_defarg(self, e, st):
        return self.ev(e["x"], st)

    def e_new(self, e, st):
        return Obj("opaque")

    def e_unk(self, e, st):
        return self.unk("clang " + e.get("cls", "?"), e)

    def e_lambda(self, e, st):
        env = dict(st.env)
        for c in e.get("caps", []):
            if "id" not in c or c.get("this"):
                continue
            b = self.ev(c["init"], st) if c.get("init") else env.get(c["id"])
            if isinstance(b, Ref) and not c["byref"] and kind_of(self.ref_ty(b)) in ("s", "b", "v", "m") and not is_cont(self.ref_ty(b)):
                # a copy made where the lambda is written
                root = "cap:%s#%d" % (c["n"], self.fresh("cap"))
                self.tytab[root] = strip(self.ref_ty(b))
                st.s[root] = self.read(st, b)
                b = Ref(root, (), strip(self.ref_ty(b)))
            elif isinstance(b, Poly) and c.get("init"):
                root = "cap:%s#%d" % (c["n"], self.fresh("cap"))
                self.tytab[root] = "double"
                st.s[root] = b
                b = Ref(root, (), "double")
            if b is not None:
                env[c["id"]] = b
        return Obj("closure", None, (e, env if e.get("caps") else st.env))

    def e_init(self, e, st):
        if len(e["a"]) == 1:
            return self.ev(e["a"][0], st)
        if not e["a"] and strip(e.get("ty", "")).startswith(("std::plus", "std::multiplies")):
            return Obj("opaque", None, strip(e["ty"]))
        return Obj("initlist", None, [self.ev(x, st) for x in e["a"]])

    def e_throw(self, e, st):
        self.do_throw(e, st)
        return NORETURN

    def e_icast(self, e, st):
        x = self.ev(e["x"], st)
        if e["ck"] == "PointerToBoolean":
            return self.tobool(x, st, e)
        v = self.poly(x, st, e)
        if e["ck"] in ("IntegralToBoolean",):
            return nz(v)
        if e["ck"] == "FloatingToBoolean":
            return b_not(feq(v, ZERO)) if not is01(v) else v
        if e["ck"] == "FloatingToIntegral":
            return truncated(v)
        return narrowed(v, strip(e["ty"]))

    def e_cast(self, e, st):
        x = self.ev(e["x"], st)
        t, s = strip(e["ty"]), strip(e.get("sty", ""))
        if isinstance(x, Ref) and not (kind_of(t) in "sb"):
            return x
        if isinstance(x, Obj):
            if e.get("ck") == "BaseToDerived":
                self.events.append(self.mk_event("downcast", [sym("class:" + t.rstrip("*&").strip().split("::")[-1])], st, e))
            return x
        if x is None or t == "void":
            return x
        v = self.poly(x, st, e)
        if t in INTS and s in ("double", "float"):
            return truncated(v)
        if (t == "float" and s == "double") or (t in SMALL and s in INTS and s not in SMALL):
            return narrowed(v, t)
        if t == "bool" and s in INTS:
            return nz(v)
        if t == "bool" and s in ("double", "float"):
            return b_not(feq(v, ZERO))
        return v

    def e_ref(self, e, st):
        if e["dk"] == "enum":
            return const(int(e["v"]))
        if e["dk"] == "func":
            return Obj("func", None, e)
        if e["dk"] == "binding" and e.get("x"):
            return self.ev(e["x"], st)
        b = st.env.get(e.get("id"))
        if b is None:
            if e["dk"] == "global":
                root = "g:" + e.get("q", e["n"])
                self.tytab.setdefault(root, strip(e["ty"]))
                return Ref(root, (), strip(e["ty"]))
            if kind_of(e["ty"]) == "o" and not elem_ty(e["ty"]):
                return Obj("opaque", None, e["n"])
            root = "l:%s#%d" % (e["n"], e["id"])
            self.tytab.setdefault(root, strip(e["ty"]))
            return Ref(root, (), strip(e["ty"]))
        if isinstance(b, tuple) and b[0] == "iter":
            return Iter2(b[1], st.s.get(b[2], ZERO), b[2])
        if isinstance(b, tuple) and b[0] == "lazy":
            return self.ev(b[1], st)
        return b

    def root_of_field(self, cls, f, ty):
        root = cls.split("::")[-1] + "::" + f
        self.tytab.setdefault(root, strip(ty))
        return root

    def e_mem(self, e, st):
        b = self.ev(e["b"], st)
        f = e["f"]
        if isinstance(b, Obj):
            if b.kind == "ext":
                t = strip(e["ty"])
                path = b.x + "." + f
                if kind_of(t) == "o":
                    return Obj("ext", None, path)
                root = "X:" + path
                if ".results." in path:
                    root += "@%d" % self.seq.get("ext:" + path.split(".")[0], 0)
                self.tytab.setdefault(root, t)
                return Ref(root, (), t)
            if b.kind == "this":
                if f == "problem_":
                    return Obj("problem")
                t = strip(e["ty"])
                root = self.root_of_field(e["cls"], f, t)
                if kind_of(t) == "o" and not elem_ty(t) and not is_cont(t):
                    return Obj("field", None, root)
                et = t
                while elem_ty(et):
                    et = elem_ty(et)
                if et.startswith("std::shared_ptr") and "ActionModel" not in et:
                    pass
                return Ref(root, (), t)
            if b.kind == "data":
                t = strip(e["ty"])
                root = "D." + f
                k = kind_of(t)
                if k == "o" and not elem_ty(t):
                    return Obj("opaque", b.idx, root)
                if k == "s" or k == "b":
                    t = "double" if k == "s" else "bool"
                self.tytab.setdefault(root, "std::vector<%s>" % t)
                return Ref(root, (b.idx,), t)
            if b.kind == "model":
                return Obj("opaque", b.idx, "M." + f)
            return Obj("opaque", b.idx, (b.kind, f))
        if isinstance(b, Ref):
            root = b.root + "." + f
            self.tytab.setdefault(root, strip(e["ty"]))
            return Ref(root, b.idx, strip(e["ty"]))
        return self.unk("member " + f, e)

    def ref_ty(self, r):
        return r.ty

    def e_cond(self, e, st):
        c = self.cond(e["c"], st)
        if has_effect(e["t"]) or has_effect(e["e"]):
            s1, s2 = st.copy(), st.copy()
            ctx = self.ctx
            self.ctx = mul(ctx, c)
            a = self.ev(e["t"], s1)
            self.ctx = mul(ctx, b_not(c))
            b = self.ev(e["e"], s2)
            self.ctx = ctx
            pa = self.poly(a, s1, e) if not isinstance(a, Obj) and a is not None else None
            pb = self.poly(b, s2, e) if not isinstance(b, Obj) and b is not None else None
            m = self.merge_states(c, s1, s2)
            st.s = m.s
            if pa is None or pb is None:
                return Obj("opaque")
            return ite(c, pa, pb)
        if c is ONE:
            return self.ev(e["t"], st)
        if c is ZERO:
            return self.ev(e["e"], st)
        a, b = self.ev(e["t"], st), self.ev(e["e"], st)
        if isinstance(a, Obj) or isinstance(b, Obj) or a is None:
            if isinstance(a, Obj) and isinstance(b, Obj) and a.kind == b.kind == "model" or \
                    (isinstance(a, Obj) and isinstance(b, Obj) and a.kind == b.kind == "data"):
                return Obj(a.kind, ite(c, a.idx, b.idx))
            return Obj("opaque")
        if isinstance(a, Ref) and isinstance(b, Ref) and a.root == b.root and len(a.idx) == len(b.idx) and a.view == b.view:
            return Ref(a.root, tuple(ite(c, x, y) for x, y in zip(a.idx, b.idx)), a.ty, a.view)
        return ite(c, self.poly(a, st, e), self.poly(b, st, e))

    def e_sub(self, e, st):
        b, i = self.ev(e["b"], st), self.evp(e["i"], st)
        if isinstance(b, Ref):
            return Ref(b.root, b.idx + (i,), b.ty)
        return self.unk("subscript", e)

    # operators -------------------------------------------------------
    def e_un(self, e, st):
        op = e["op"]
        if op in ("++", "--"):
            x = self.ev(e["x"], st)
            if isinstance(x, Iter2):
                st.s[x.root] = add(x.pos, ONE) if op == "++" else sub(x.pos, ONE)
                return Iter(x.base, x.pos if e.get("post") else st.s[x.root])
            old = self.poly(x, st, e)
            new = add(old, ONE) if op == "++" else sub(old, ONE)
            self.write(st, x, new, e)
            return old if e.get("post") else x
        x = self.ev(e["x"], st)
        if op == "!":
            return b_not(self.tobool(x, st, e))
        if op == "-":
            p = self.poly(x, st, e)
            if p is POSINF:
                return NEGINF
            if p is NEGINF:
                return POSINF
            return neg(p)
        if op == "+":
            return self.poly(x, st, e)
        if op in ("*", "&"):
            if op == "*" and isinstance(x, (Iter, Iter2)):
                return self.deref(x, st, e)
            if op == "*" and isinstance(x, Single):
                return x.ref
            return x
        return self.unk("unary " + op, e)

    def deref(self, it, st, e):
        ety = elem_ty(it.base.ty) or "double"
        return self.elem_ref(it.base, it.pos, ety, st, e)

    def e_bin(self, e, st):
        op = e["op"]
        if op in ("&&", "||"):
            a = self.cond(e["L"], st)
            if has_effect(e["R"]):
                g = a if op == "&&" else b_not(a)
                s2 = st.copy()
                ctx = self.ctx
                self.ctx = mul(ctx, g)
                b = self.cond(e["R"], s2)
                self.ctx = ctx
                m = self.merge_states(g, s2, st)
                st.s = m.s
            else:
                b = self.cond(e["R"], st)
            return b_and(a, b) if op == "&&" else b_or(a, b)
        if op == ",":
            self.ev(e["L"], st)
            return self.ev(e["R"], st)
        a, b = self.ev(e["L"], st), self.ev(e["R"], st)
        return self.binop(op, a, b, e.get("oty", ""), st, e)

    def obj_key(self, x, st, e):
        if isinstance(x, Obj):
            if x.kind == "str":
                return sym("str:" + x.x)
            return x.idx if isinstance(x.idx, Poly) else sym("obj:%s:%s" % (x.kind, x.x if isinstance(x.x, (str, tuple)) else ""))
        return self.poly(x, st, e)

    def binop(self, op, a, b, oty, st, e):
        if isinstance(a, Obj) or isinstance(b, Obj):
            if op in ("==", "!="):
                k = "same"
                p = bfn("objeq", *[self.obj_key(x, st, e) for x in (a, b)]) \
                    if not (isinstance(a, Obj) and a.kind == "null" or isinstance(b, Obj) and b.kind == "null") else \
                    b_not(self.tobool(a if not (isinstance(a, Obj) and a.kind == "null") else b, st, e))
                return p if op == "==" else b_not(p)
            return Obj("opaque")
        if isinstance(a, (Iter, Iter2)) and isinstance(b, (Iter, Iter2)):
            if op == "==":
                return eq_int(a.pos, b.pos)
            if op == "!=":
                return nz(sub(a.pos, b.pos))
            if op == "<":
                return lt_int(a.pos, b.pos)
            if op == "-":
                return sub(a.pos, b.pos)
        if isinstance(a, (Iter, Iter2)) and op in "+-":
            p = self.poly(b, st, e)
            return Iter(a.base, add(a.pos, p) if op == "+" else sub(a.pos, p))
        p, q = self.poly(a, st, e), self.poly(b, st, e)
        t = strip(oty)
        isint = t in INTS
        if op == "+":
            return add(p, q)
        if op == "-":
            return sub(p, q)
        if op == "*":
            return smul(p, q)
        if op == "/":
            if isint:
                c, d = cval(p), cval(q)
                if c is not None and d:
                    return const(int(c / d))
                return fn("idiv", (p, q))
            if q is POSINF:
                return ZERO
            return smul(p, recip(q)) if q is not ZERO else fn("div0", (p,))
        if op == "%":
            return fn("mod", (p, q))
        if op in ("<", ">", "<=", ">="):
            if t == "bool" or isint:
                if op == "<":
                    return lt_int(p, q)
                if op == ">":
                    return lt_int(q, p)
                if op == "<=":
                    return b_not(lt_int(q, p))
                return b_not(lt_int(p, q))
            if op == "<":
                return flt(p, q)
            if op == ">":
                return flt(q, p)
            if op == "<=":
                return fle(p, q)
            return fle(q, p)
        if op in ("==", "!="):
            if t == "bool":
                r = add(mul(p, q), mul(b_not(p), b_not(q)))
            elif isint or not t:
                r = eq_int(p, q)
            elif t in ("double", "float"):
                r = feq(p, q)
            else:
                r = eq_int(p, q)
            return r if op == "==" else b_not(r)
        if op == "&" and t == "bool":
            return b_and(p, q)
        if op == "|" and t == "bool":
            return b_or(p, q)
        if op in ("&", "|", "^"):
            if is01(p) and is01(q):
                return {"&": b_and(p, q), "|": b_or(p, q), "^": add(p, q, scale(mul(p, q), -2))}[op]
        if op == "<<" and isint:
            return mul(p, fn("pow", (const(2), q)))
        return self.unk("operator " + op, e)

    def e_asg(self, e, st):
        op = e["op"]
        if op == "=":
            r = self.ev(e["R"], st)
            l = self.ev(e["L"], st)
            return self.assign(l, r, st, e)
        l = self.ev(e["L"], st)
        r = self.ev(e["R"], st)
        return self.compound(op[:-1], l, r, e.get("oty", ""), st, e)

    def assign(self, l, r, st, e):
        if isinstance(l, Iter2):
            if isinstance(r, (Iter, Iter2)):
                st.s[l.root] = r.pos
            return l
        if isinstance(l, Obj):
            if l.kind == "field":
                root = l.x
                st.s[root] = self.objval(r)
                return l
            x = e.get("L") or (e.get("a") or [None])[0]
            if isinstance(x, dict) and x.get("k") == "ref" and x.get("id") in st.env:
                if isinstance(r, Obj):
                    st.env[x["id"]] = r
                return l
            return l
        if isinstance(l, Ref) and isinstance(r, Ref) and (elem_ty(l.ty) or is_cont(l.ty)) and not l.view:
            self.copy_array(l, r, st)
            return l
        if isinstance(l, Ref) and elem_ty(l.ty) and isinstance(r, Obj) and r.kind == "initlist":
            self.lens[l.root] = const(len(r.x))
            for n, x in enumerate(r.x):
                self.write(st, Ref(l.root, l.idx + (const(n),), elem_ty(l.ty)), self.poly(x, st, e), e)
            return l
        if isinstance(r, Obj):
            v = self.objval(r)
        else:
            v = self.poly(r, st, e)
        if isinstance(l, Ref) and not l.view:
            sh = self.shape_of(e.get("R") or (e.get("a") or [None])[-1])
            if not sh and isinstance(r, Ref) and not r.view:
                sh = self.shapes.get((r.root, r.idx))
            if sh:
                self.shapes[(l.root, l.idx)] = sh
        self.write(st, l, self.through_alias(l, v, e, st), e)
        return l

    def through_alias(self, l, v, e, st):
        """the value an assignment leaves when Eigen overwrites an operand it still reads: a product
        assigned with noalias() to one of its operands, a matrix combined with its own transpose"""
        A = e.get("a") or [e.get("L"), e.get("R")]
        if not isinstance(l, Ref) or kind_of(self.ref_ty(l)) not in "vm" or len(A) != 2 or not all(isinstance(x, dict) for x in A) \
                or not isinstance(v, Poly):
            return v
        L = A[0]
        while L.get("k") == "paren":
            L = L["x"]
        na = L.get("k") == "mcall" and L["n"] == "noalias"
        square = kind_of(self.ref_ty(l)) == "m" and not (L.get("k") == "mcall" and L["n"] == "triangularView")
        if not na and not square:
            return v
        hit = []

        def visit(n, prod, tr):
            if isinstance(n, list):
                for x in n:
                    visit(x, prod, tr)
                return
            if not isinstance(n, dict):
                return
            k, ty = n.get("k"), n.get("ty") or ""
            if k == "lambda" or k == "mcall" and (n["n"] in ("eval", "selfadjointView") or ty in ("double", "bool", "int")):
                return
            if k == "op" and n["op"] == "*" and ty.endswith("Eigen::Product"):
                prod = prod or not any(x.get("n") == "asDiagonal" for x in n["a"])
            if k == "mcall" and n["n"] in ("transpose", "adjoint"):
                tr = True
            if (k in ("mem", "ref") or k == "op" and n["op"] == "[]" or k == "mcall" and n["n"] in ("back", "front", "at")) \
                    and strip(ty).startswith("Eigen::Matrix<") or k == "mcall" and strip(ty).startswith(("Eigen::Block", "Eigen::VectorBlock")):
                if prod and na or tr and not prod and square:
                    hit.append(n)
                return
            for x in n.values():
                visit(x, prod, tr)
        visit(A[1], False, False)
        if not hit:
            return v
        keep = [(x, len(x)) for x in (self.events, self.throws, self.accs, self.pend, self.unks)]
        seq, same = dict(self.seq), False
        for n in hit:
            r = self.ev(n, st)
            same = same or isinstance(r, Ref) and r.root == l.root and r.idx == l.idx and (not l.view or not r.view or l.view == r.view)
        for x, n in keep:
            del x[n:]
        self.seq = seq
        return fpoly(mkF("fn", ("overwritten operand", (v,)), "m" if is_mat(v) else "v")) if same else v

    def shape_of(self, x):
        """sizes when the expression is a freshly sized matrix"""
        for _ in range(6):
            if not isinstance(x, dict):
                return None
            sh = self.callshape.get(id(x))
            if sh:
                return sh
            if isinstance(x.get("x"), dict):
                x = x["x"]
            elif x.get("k") == "ctor" and len(x.get("a") or []) == 1:
                x = x["a"][0]
            else:
                return None
        return None

    def objval(self, r):
        if isinstance(r, Obj):
            return fpoly(mkF("fn", ("obj:%s:%s" % (r.kind, r.x if isinstance(r.x, str) else ""), (r.idx,) if isinstance(r.idx, Poly) else ()), "s"))
        if isinstance(r, Poly):
            return r
        return sym("objv")

    def copy_array(self, l, r, st):
        i = mkF("sym", ("cp",), "s")
        n = self.length(r, st)
        v = self.read_store(st.s, r.root, r.idx + (fpoly(i),))
        # whole-array assignment: every element defined, old content gone
        st.s[l.root] = Arr(("copy",), (Up(((i, NEGHUGE, POSHUGE),), l.idx + (fpoly(i),), ONE, v),)) if not l.idx else \
            Arr(("mixcopy", l.root, self.fresh("mc")))

    def compound(self, op, l, r, oty, st, e):
        if op == "+" and isinstance(l, Obj) and "basic_string" in json.dumps([e.get("ty"), oty, e.get("q")]):
            self.events.append(self.mk_event("append", [l, Obj("strs", None, [v for y in e["a"][1:] for v in texts(y, st)])], st, e))
            return l
        if isinstance(l, Obj) or isinstance(r, Obj):
            return l if isinstance(l, Obj) else self.unk("compound with object", e)
        if isinstance(l, Iter2):
            p = self.poly(r, st, e)
            st.s[l.root] = add(l.pos, p) if op == "+" else sub(l.pos, p)
            return l
        p = self.poly(r, st, e)
        if isinstance(l, Ref) and l.view:
            vw = tuple(w for w in l.view if w[0] != "array")
            if vw and vw[-1][0] == "diag" and op in "+-":
                s = p if op == "+" else neg(p)
                if is_vec(p):
                    s = diag(s)
                else:
                    s = smul(s, ident())
                if len(vw) == 1:
                    old = self.read_store(st.s, l.root, l.idx)
                    self.write_raw(st, l.root, l.idx, add(old, s))
                else:
                    old = self.read_store(st.s, l.root, l.idx)
                    sub_ = blk_read(old, vw[0])
                    self.write_raw(st, l.root, l.idx, blk_write(old, vw[0], add(sub_, s)))
                return l
            old = self.read(st, l)
            isarr = any(w[0] == "array" for w in l.view)
            if isarr and op in "+-" and not is_vec(p) and not is_mat(p):
                p = smul(p, fpoly(mkF("fn", ("ones", ()), "v")))
        else:
            old = self.poly(l, st, e)
        t = strip(oty)
        wide = strip(e.get("cty") or "") in ("double", "float") and t in INTS  # computed in floating point, stored as a count
        if op == "+":
            v = add(old, p)
        elif op == "-":
            v = sub(old, p)
        elif op == "*":
            v = smul(old, p)
        elif op == "/":
            v = smul(old, recip(p)) if t not in INTS or wide else fn("idiv", (old, p))
        elif op == "%":
            v = fn("mod", (old, p))
        elif op in ("&", "|") and (t == "bool" or is01(old)):
            v = b_and(old, p) if op == "&" else b_or(old, p)
        else:
            v = self.unk("compound " + op, e)
        if wide:
            v = truncated(v)
        elif t in SMALL or t == "float" and strip(e.get("cty") or "") == "double":
            v = narrowed(v, t)
        self.write(st, l, self.through_alias(l, v, e, st), e)
        return l

    def e_op(self, e, st):
        op, A = e["op"], e["a"]
        q = e.get("q", "")
        if op == "()":
            f = self.ev(A[0], st)
            if isinstance(f, Obj) and f.kind == "closure":
                return self.call_closure(f, A[1:], st, e)
            if isinstance(f, Obj):
                args = [self.ev(x, st) for x in A[1:]]
                self.events.append(self.mk_event("call:" + str(f.kind), args, st, e, fobj=f))
                return None
            idx = tuple(self.evp(x, st) for x in A[1:])
            if isinstance(f, Ref):
                if f.view:
                    return self.elem(self.read(st, f), idx)
                self.note("coef", st, e, root=f.root, idx=f.idx, pos=idx)
                return Ref(f.root, f.idx + idx, "double")
            return self.elem(self.poly(f, st, e), idx)
        if op == "[]":
            b = self.ev(A[0], st)
            i = self.evp(A[1], st)
            if isinstance(b, Obj):
                if b.kind == "models":
                    self.note("node", st, e, kind="model", pos=i)
                    return Obj("model", i)
                if b.kind == "datas":
                    self.note("node", st, e, kind="data", pos=i)
                    return Obj("data", i)
                return Obj("opaque", i, b)
            if isinstance(b, Ref):
                if is_cont(b.ty):
                    return fn("cbget", (self.read(st, b), i))
                if b.view:
                    return self.elem(self.read(st, b), (i,))
                t = elem_ty(b.ty)
                if t and kind_of(t) == "o" and not elem_ty(t):
                    self.elem_ref(b, i, t, st, e)
                    return Obj("opaque", i, b)
                return self.elem_ref(b, i, t or "double", st, e)
            if isinstance(b, (Iter, Iter2)):
                return self.elem_ref(b.base, add(b.pos, i), elem_ty(b.base.ty) or "double", st, e)
            return self.elem(self.poly(b, st, e), (i,))
        if op in ("->", "*") and len(A) == 1:
            x = self.ev(A[0], st)
            if isinstance(x, (Iter, Iter2)):
                return self.deref(x, st, e)
            if isinstance(x, Single):
                return x.ref
            return x
        if op == "=":
            r = self.ev(A[1], st)
            l = self.ev(A[0], st)
            return self.assign(l, r, st, e)
        if op in ("+=", "-=", "*=", "/="):
            l = self.ev(A[0], st)
            r = self.ev(A[1], st)
            return self.compound(op[0], l, r, "double", st, e)
        if op == "<<":
            l = self.ev(A[0], st)
            if isinstance(l, Ref) and kind_of(l.ty) in "vm":
                r = self.evp(A[1], st)
                return CommaInit(l, [r])
            for x in A[1:]:
                v = self.ev(x, st)
                if isinstance(l, Ref) and l.root == "g:std::cout" or isinstance(l, Obj) and l.kind == "stream" and l.x == "cout":
                    self.events.append(self.mk_event("print", [v], st, e))
                    l = Obj("stream", None, "cout")
            return l if isinstance(l, Obj) and l.kind == "stream" else Obj("stream")
        if op == ",":
            l = self.ev(A[0], st)
            r = self.ev(A[1], st)
            if isinstance(l, CommaInit):
                return CommaInit(l.ref, l.vals + [self.poly(r, st, e)])
            return r
        if op in ("++", "--"):
            x = self.ev(A[0], st)
            if isinstance(x, Iter2):
                st.s[x.root] = add(x.pos, ONE) if op == "++" else sub(x.pos, ONE)
                return Iter2(x.base, x.pos if len(A) > 1 else st.s[x.root], x.root)
            return self.unk("operator" + op, e)
        if len(A) == 1:
            p = self.evp(A[0], st)
            if op == "-":
                return neg(p)
            if op == "!":
                return b_not(p)
            return self.unk("operator " + op, e)
        a, b = self.ev(A[0], st), self.ev(A[1], st)
        if isinstance(a, Obj) or isinstance(b, Obj):
            if op in ("==", "!="):
                return self.binop(op, a, b, "", st, e)
            return Obj("opaque")
        if isinstance(a, (Iter, Iter2)):
            return self.binop(op, a, b, "long", st, e)
        return self.binop(op, a, b, "double", st, e)

    # calls -------------------------------------------------------------
    def mk_event(self, name, args, st, e, **k):
        vals = []
        for a in args:
            if isinstance(a, Ref) and not elem_ty(a.ty) and not is_cont(a.ty):
                vals.append(self.read(st, a))
            else:
                vals.append(a)
        g = ONE
        return Event(name=name, args=vals, snap=dict(st.s), g=self.ctx, loops=list(self.loops),
                     l=e.get("l") if isinstance(e, dict) else None, E=self, stack=list(self.callstack), ctxs=list(self.ctxs),
                     tried=self.trydepth, refs=[a if isinstance(a, Ref) else None for a in args], **k)

    def note(self, name, st, e, **k):
        """records an element access or a matrix assignment"""
        self.accs.append(Event(name=name, g=self.ctx, loops=list(self.loops), l=e.get("l") if isinstance(e, dict) else None, E=self,
                               stack=list(self.callstack), ctxs=list(self.ctxs), nthr=len(self.throws), **k))

    def elem_ref(self, base, i, ty, st, e):
        self.note("elem", st, e, root=base.root, pre=base.idx, pos=i, len=self.length(base, st) if elem_ty(base.ty) and not base.view else None,
                  ty=base.ty)
        return Ref(base.root, base.idx + (i,), ty)

    def call_closure(self, f, args, st, e):
        lam, env = f.x
        return self.inline({"ps": lam["ps"], "body": lam["body"], "q": "lambda", "fid": "lambda@" + lam.get("l", ""), "n": "lambda"},
                           [self.ev(a, st) for a in args], st, e, env=dict(env))

    def inline(self, f, args, st, e, env=None):
        fid = f["fid"]
        if self.callstack.count(fid) > 1 or len(self.callstack) > 12:
            return self.unk("recursion " + fid, e)
        self.callstack.append(fid)
        self.inlined.add(fid)
        env0 = st.env
        st.env = dict(env) if env is not None else {}
        for p, a in zip(f["ps"], args):
            self.bind_param(p, a, st, e)
        inner = State(st.s, st.env)
        base = self.ctx
        fl = self.exec(f["body"], inner.copy())
        self.ctx = base
        self.callstack.pop()
        done = [(x.q, x.st, x.val) for x in fl if x.kind in ("r", "n")]
        for x in fl:
            if x.kind == "t":
                self.pend.append((x.q, State(x.st.s, env0)))
        if not done:
            st.env = env0
            return NORETURN
        # refs/objs returned
        if len(done) > 1 and any(isinstance(v, (Ref, Obj)) for _, _, v in done):
            vals = [v for _, _, v in done if v is not None]
            if all(isinstance(v, Ref) and repr(v) == repr(vals[0]) for v in vals):
                q, s2, _ = self.merge_flows([(a, b, None) for a, b, _ in done])
                v = vals[0]
            else:
                done = [(a, b, self.read(b, v) if isinstance(v, Ref) else v) for a, b, v in done]
                q, s2, v = self.merge_flows(done)
        else:
            q, s2, v = self.merge_flows(done)
        st.s = s2.s
        st.env = env0
        return v

    def bind_param(self, p, a, st, e):
        ty = p["ty"]
        root = "l:%s#%d" % (p["n"], p["id"])
        if a is None:
            a = self.unk("missing argument", e)
        if isinstance(a, (Obj,)):
            st.env[p["id"]] = a
            return
        if isinstance(a, (Iter, Iter2)):
            self.tytab[root] = "long"
            st.s[root] = a.pos
            st.env[p["id"]] = ("iter", a.base, root)
            return
        if isinstance(a, Ref) and (ty.endswith("&") or ty.endswith("*") or strip(ty).startswith("Eigen::Ref")):
            st.env[p["id"]] = a
            return
        if isinstance(a, Ref) and elem_ty(a.ty):
            st.env[p["id"]] = a
            return
        self.tytab[root] = strip(ty)
        st.s[root] = self.poly(a, st, e)
        st.env[p["id"]] = Ref(root, (), strip(ty))

    def user_target(self, e):
        """resolved definition in the repository for this call, or None"""
        fid = e.get("fid")
        if not fid:
            return None
        if e["k"] == "mcall":
            n = e["n"]
            sig = fid.split(n + "(", 1)[1]
            if e.get("virt") and not e.get("nonvirt"):
                return self.P.method(self.cls, n, sig)
            return self.P.funcs.get(fid)
        return self.P.funcs.get(fid)

    def e_mcall(self, e, st):
        o = self.ev(e["o"], st)
        n = e["n"]
        if isinstance(o, Obj):
            h = getattr(self, "o_" + o.kind, None)
            if h:
                return h(o, e, st)
            args = [self.ev(x, st) for x in e["a"]]
            return Obj("opaque", None, n)
        if isinstance(o, CommaInit):
            return o
        return self.eigen(o, e, st)

    def o_this(self, o, e, st):
        f = self.user_target(e)
        n = e["n"]
        args = [self.ev(x, st) for x in e["a"]]
        if f is None:
            # implemented outside the repository: crocoddyl::SolverAbstract
            return self.base_method(e, args, st)
        q = f["q"].split("::")[-2] + "::" + n
        if (n in self.units or q in self.units) and n not in self.inline_names and q not in self.inline_names:
            return self.unit_call(f, e, args, st)
        return self.inline(f, args, st, e)

    def unit_call(self, f, e, args, st):
        n = e["n"]
        ev = self.mk_event(n, args, st, e, fid=f["fid"], cls=f["cls"])
        self.events.append(ev)
        cnt = self.fresh("ev:" + n)
        ev.ver = (n, cnt)
        lv = self.loopvars()
        W, thr = self.summary(f)
        tag = ("ev", n, cnt)
        for r, ty in W.items():
            self.tytab.setdefault(r, ty)
            if self.depth_of_root(r) or r.startswith("D."):
                st.s[r] = Arr(tag + (lv,))
            else:
                k = self.kind_root(r, ())
                st.s[r] = fpoly(mkF("rd", (r, lv, tag), "s" if k == "o" else k))
        if thr and self.trydepth:
            a = fpoly(mkF("rd", ("threw:" + n, lv, tag), "b"))
            self.pend.append((a, State(dict(st.s), st.env)))
        ev.post = dict(st.s)
        ty = strip(e.get("ty", "void"))
        if ty == "void":
            return None
        k = kind_of(ty)
        if k == "o":
            return Obj("opaque")
        return fpoly(mkF("rd", ("ret:" + n, lv, tag), k))

    def summary(self, f):
        """(roots written -> type, may throw)"""
        key = (self.cls, f["fid"])
        c = _SUMM.get((id(self.P),) + key)
        if c is not None:
            return c
        _SUMM[(id(self.P),) + key] = ({}, True)
        ev = Eval(self.P, self.cls, units=self.units, inline=self.inline_names, lens=self.lens)
        r = ev.run(f)
        activate(self)
        W = {}
        for fl in r.flows:
            for k in changed(State({}), fl.st):
                if not k.startswith("l:") and not k.startswith("p:"):
                    W[k] = ev.tytab.get(k, "double")
        for t in ev.throws:
            for k in changed(State({}), State(t.snap)):
                if not k.startswith("l:") and not k.startswith("p:"):
                    W[k] = ev.tytab.get(k, "double")
        thr = bool(ev.throws) or any(x.kind == "t" for x in r.flows) or any(
            e.name in self.units and self.summary_thr(e) for e in ev.events)
        _SUMM[(id(self.P),) + key] = (W, thr)
        return W, thr

    def summary_thr(self, e):
        f = self.P.funcs.get(getattr(e, "fid", None))
        if f is None:
            return False
        return self.summary(f)[1]

    def base_method(self, e, args, st):
        """crocoddyl::SolverAbstract / CallbackAbstract methods (outside the repository)"""
        n = e["n"]
        if n == "setCandidate":
            ev = self.mk_event(n, args, st, e, fid=n, cls="SolverAbstract")
            self.events.append(ev)
            i = mkF("sym", ("cp",), "s")
            for nm, a, ty in (("xs_", args[0], VV), ("us_", args[1], VV)):
                root = self.root_of_field("SolverAbstract", nm, ty)
                if isinstance(a, Ref):
                    v = self.read_store(st.s, a.root, a.idx + (fpoly(i),))
                    if a.root.startswith("p:") or a.root.startswith("g:"):
                        # an empty candidate means "default": keep as function of the argument
                        st.s[root] = Arr(("cand", a.root, self.fresh("cand")))
                    else:
                        st.s[root] = Arr(("copy",), (Up(((i, NEGHUGE, POSHUGE),), (fpoly(i),), ONE, v),))
                else:
                    st.s[root] = Arr(("cand", nm, self.fresh("cand")))
            root = self.root_of_field("SolverAbstract", "is_feasible_", "bool")
            st.s[root] = self.poly(args[2], st, e) if len(args) > 2 and not isinstance(args[2], Obj) else ZERO
            ev.post = dict(st.s)
            return None
        self.events.append(self.mk_event(n, args, st, e, fid=n, cls="SolverAbstract"))
        W = BASE_EFFECTS.get(n, {})
        cnt = self.fresh("ev:" + n)
        for (nm, ty) in W:
            root = self.root_of_field("SolverAbstract", nm, ty)
            if elem_ty(ty):
                st.s[root] = Arr(("ev", n, cnt, self.loopvars()))
            else:
                k = kind_of(ty)
                st.s[root] = fpoly(mkF("rd", (root, self.loopvars(), ("ev", n, cnt)), k))
        k = kind_of(strip(e.get("ty", "void")))
        if n == "computeDynamicFeasibility":
            # the defects: fs[0] = diff(xs[0], x0), fs[t+1] = diff(xs[t+1], xnext(t))
            i = mkF("sym", ("pc",), "s")
            ii = fpoly(i)
            i1 = add(ii, ONE)
            RANGES[i] = (ZERO, TSYM)
            self.tytab.setdefault("SolverAbstract::xs_", VV)
            self.tytab.setdefault("D.xnext", VV)
            x = lambda k: self.read_store(st.s, "SolverAbstract::xs_", (k,))
            x0 = fpoly(mkF("rd", ("x0", (), "pre"), "v"))
            d = lambda a, b: fn("S.diff", (a, b), "v")
            st.s["SolverAbstract::fs_"] = Arr(("ev", n, cnt, self.loopvars()), (
                Up((), (ZERO,), ONE, d(x(ZERO), x0)),
                Up(((i, ZERO, TSYM),), (i1,), ONE, d(x(i1), self.read_store(st.s, "D.xnext", (ii,))))))
            RANGES.pop(i, None)
            return fpoly(mkF("rd", ("ret:" + n, self.loopvars(), ("ev", n, cnt)), "s"))
        if k in "sbvm":
            g = BASE_GETTERS.get(n)
            if g:
                return Ref(self.root_of_field("SolverAbstract", g[0], g[1]), (), g[1])
            return fpoly(mkF("rd", ("ret:" + n, self.loopvars(), ("ev", n, cnt)), k))
        g = BASE_GETTERS.get(n)
        if g:
            return Ref(self.root_of_field("SolverAbstract", g[0], g[1]), (), g[1])
        return Obj("opaque", None, n)

    # crocoddyl objects -------------------------------------------------
    def o_problem(self, o, e, st):
        n = e["n"]
        if n == "get":  # of the smart pointer
            return o
        a = [self.ev(x, st) for x in e["a"]]
        if n == "get_T":
            return TSYM
        if n == "get_ndx":
            return NDX
        if n == "get_nx":
            return NX
        if n == "get_runningModels":
            return Obj("models")
        if n == "get_runningDatas":
            return Obj("datas")
        if n == "get_terminalModel":
            return Obj("model", TSYM)
        if n == "get_terminalData":
            return Obj("data", TSYM)
        if n == "get_x0":
            self.tytab["x0"] = "Eigen::Matrix<double,-1,1>"
            return Ref("x0", (), "Eigen::Matrix<double,-1,1>")
        if n in ("get_nthreads", "get_nu_max"):
            return sym(n[4:])
        if n == "is_updated":
            return fpoly(mkF("bfn", ("problem_updated", ()), "b"))
        if n in ("calc", "calcDiff", "rollout", "rollout_us", "quasiStatic", "updateModel", "updateNode", "circularAppend"):
            ev = self.mk_event("problem." + n, a, st, e)
            self.events.append(ev)
            if n == "calc" or n == "calcDiff":
                return self.problem_calc(n, a, st, e)
            if n == "rollout":
                i = mkF("sym", ("cp",), "s")
                if len(a) > 1 and isinstance(a[1], Ref):
                    st.s[a[1].root] = Arr(("rollout", self.fresh("rollout")))
            return Obj("opaque", None, n)
        return Obj("opaque", None, n)

    def arrval(self, a, i, st):
        if isinstance(a, Ref):
            return self.read_store(st.s, a.root, a.idx + (i,))
        return self.unk("trajectory argument", {})

    def data_fields(self, which):
        return CALC_FIELDS if which == "calc" else DIFF_FIELDS

    def model_calc(self, n, t, x, u, st):
        """effects of model->calc / calcDiff on node t (u None: terminal call)"""
        fields = self.data_fields(n)
        for f, k in fields:
            root = "D." + f
            ty = {"s": "double", "v": "Eigen::Matrix<double,-1,1>", "m": "Eigen::Matrix<double,-1,-1>"}[k]
            self.tytab.setdefault(root, "std::vector<%s>" % ty)
            args = (t, x) + ((u,) if u is not None else ())
            if n == "calcDiff":
                args = args + (self.calcpt(st, t),)
            self.write_raw(st, root, (t,), fn("f." + f, args, k))
        if n == "calc":
            self.tytab.setdefault("D.calcpt", "std::vector<double>")
            self.write_raw(st, "D.calcpt", (t,), fn("pt", (x,) + ((u,) if u is not None else ())))

    def calcpt(self, st, t):
        self.tytab.setdefault("D.calcpt", "std::vector<double>")
        return self.read_store(st.s, "D.calcpt", (t,))

    def problem_calc(self, n, a, st, e):
        i = mkF("sym", ("pc",), "s")
        ii = fpoly(i)
        RANGES[i] = (ZERO, TSYM)
        x, u = self.arrval(a[0], ii, st), self.arrval(a[1], ii, st)
        xT = self.arrval(a[0], TSYM, st)
        s1 = st.copy()
        s1.s = dict(st.s)
        for f, k in self.data_fields(n):
            self.tytab.setdefault("D." + f, "std::vector<%s>" % {"s": "double", "v": "Eigen::Matrix<double,-1,1>", "m": "Eigen::Matrix<double,-1,-1>"}[k])
        self.tytab.setdefault("D.calcpt", "std::vector<double>")
        ptI, ptT = self.calcpt(st, ii), self.calcpt(st, TSYM)
        for f, k in self.data_fields(n):
            root = "D." + f
            cur = st.s.get(root)
            cur = cur if isinstance(cur, Arr) else PRE
            ar, at = (ii, x, u), (TSYM, xT)
            if n == "calcDiff":
                ar, at = ar + (ptI,), at + (ptT,)
            st.s[root] = Arr(cur.tag, cur.ups + (Up(((i, ZERO, TSYM),), (ii,), ONE, fn("f." + f, ar, k)),
                                                 Up((), (TSYM,), ONE, fn("f." + f, at, k))), cur.defs)
        if n == "calc":
            cur = st.s.get("D.calcpt")
            cur = cur if isinstance(cur, Arr) else PRE
            st.s["D.calcpt"] = Arr(cur.tag, cur.ups + (Up(((i, ZERO, TSYM),), (ii,), ONE, fn("pt", (x, u))),
                                                       Up((), (TSYM,), ONE, fn("pt", (xT,)))), cur.defs)
        # both return the sum of the node costs held by the datas
        c = self.read_store(st.s, "D.cost", (ii,))
        tot = add(alg.sum_over(c, i, ZERO, TSYM), self.read_store(st.s, "D.cost", (TSYM,)))
        RANGES.pop(i, None)
        return tot

    def o_model(self, o, e, st):
        n = e["n"]
        if n == "get":  # of the smart pointer
            return o
        t = o.idx
        if n in ("get_nu", "get_ng", "get_nh", "get_nr"):
            root = "M." + n[4:]
            self.tytab.setdefault(root, "std::vector<unsigned long>")
            return fpoly(mkF("rd", (root, (t,), "pre"), "s"))
        if n in ("get_g_lb", "get_g_ub", "get_u_lb", "get_u_ub"):
            root = "M." + n[4:]
            self.tytab.setdefault(root, "std::vector<Eigen::Matrix<double,-1,1>>")
            return Ref(root, (t,), "Eigen::Matrix<double,-1,1>")
        if n == "get_state":
            return Obj("state", t)
        if n in ("get_has_control_limits",):
            return bfn("M.has_limits", t)
        a = [self.ev(x, st) for x in e["a"]]
        if n in ("calc", "calcDiff"):
            d = a[0]
            self.events.append(self.mk_event("model." + n, a, st, e, node=t))
            x = self.poly(a[1], st, e)
            u = self.poly(a[2], st, e) if len(a) > 2 else None
            if not (isinstance(d, Obj) and d.kind == "data" and d.idx is t):
                self.unk("model evaluated on another node's data", e)
            self.model_calc(n, d.idx if isinstance(d, Obj) and isinstance(d.idx, Poly) else t, x, u, st)
            return None
        return Obj("opaque", t, "model." + n)

    def o_state(self, o, e, st):
        n = e["n"]
        if n == "get":  # of the smart pointer
            return o
        a = [self.ev(x, st) for x in e["a"]]
        if n in ("get_nx",):
            return NX
        if n == "get_ndx":
            return NDX
        if n == "zero":
            return fn("xzero", (), "v")
        if n in ("diff", "integrate"):
            x, y = self.poly(a[0], st, e), self.poly(a[1], st, e)
            v = fn("S." + n, (x, y), "v")
            if len(a) > 2 and isinstance(a[2], Ref):
                self.write(st, a[2], v, e)
                return None
            if len(a) > 2:
                self.unk("state." + n + " output", e)
            return v
        if n in ("diff_dx", "integrate_x"):
            return fn("S." + n[:-3], (self.poly(a[0], st, e), self.poly(a[1], st, e)), "v")
        if n in ("Jdiff", "Jintegrate"):
            x, y = self.poly(a[0], st, e), self.poly(a[1], st, e)
            comp = [const(int(cval(self.poly(z, st, e)))) if isinstance(z, Poly) and cval(z) is not None else z for z in a[4:5]]
            for j, z in enumerate(a[2:4]):
                if isinstance(z, Ref):
                    self.write(st, z, fn("S." + n + str(j), (x, y), "m"), e)
            return None
        return Obj("opaque", o.idx, "state." + n)

    def o_data(self, o, e, st):
        if e["n"] == "get":
            return o
        [self.ev(x, st) for x in e["a"]]
        return Obj("opaque", o.idx, "data." + e["n"])

    def o_models(self, o, e, st):
        n = e["n"]
        if n == "size":
            return TSYM
        if n == "back":
            return Obj(o.kind[:-1], sub(TSYM, ONE))
        if n == "front":
            return Obj(o.kind[:-1], ZERO)
        if n in ("begin", "cbegin", "end", "cend"):
            return Obj("opaque", None, n)
        if n == "at":
            return Obj(o.kind[:-1], self.evp(e["a"][0], st))
        return Obj("opaque", None, n)

    o_datas = o_models

    def o_opaque(self, o, e, st):
        args = [self.ev(x, st) for x in e["a"]]
        ty = strip(e.get("ty", "void"))
        k = kind_of(ty)
        if e["n"] == "take_time":
            return fpoly(mkF("rd", ("clock", self.loopvars(), ("ev", "clock", self.fresh("clock"))), "s"))
        if elem_ty(ty) and kind_of(elem_ty(ty)) == "v" and not args and not isinstance(o.idx, Poly):
            root = "X:opq." + e["n"]
            self.tytab.setdefault(root, ty)
            return Ref(root, (), ty)
        if k in "sbv" or (k == "m" and ty.startswith("Eigen::Matrix")):
            return fpoly(mkF("rd", ("opq:%s" % e["n"], ((o.idx,) if isinstance(o.idx, Poly) else ()) + tuple(x for x in args if isinstance(x, Poly)), "pre"), k))
        return Obj("opaque", o.idx, (o.x, e["n"]) if not isinstance(o.x, str) else o.x + "." + e["n"])

    o_null = o_str = o_stream = o_initlist = o_char = o_func = o_opaque

    def o_field(self, o, e, st):
        """solver members of non-numeric type (ProxQP solver, callbacks, ...)"""
        n = e["n"]
        args = [self.ev(x, st) for x in e["a"]]
        f = o.x.split("::")[-1]
        if n in ("size", "begin", "end", "empty", "back", "front", "reset", "get", "c_str") and not f.startswith("qp"):
            if n == "size":
                return sym("len:" + o.x)
            return Obj("opaque", None, o)
        self.events.append(self.mk_event("obj." + f + "." + n, args, st, e))
        # may change the object and what it produces
        return Obj("opaque", None, o.x + "." + n)

    def o_ext(self, o, e, st):
        """object of an external library (QP back end): every method call is an event and a new version of its results"""
        args = [self.ev(x, st) for x in e["a"]]
        self.fresh("ext:" + o.x.split(".")[0])
        self.events.append(self.mk_event("ext." + e["n"], args, st, e, obj=o.x))
        return Obj("opaque", None, o.x + "." + e["n"])

    def o_closure(self, o, e, st):
        return self.call_closure(o, e["a"], st, e)

    # free functions -----------------------------------------------------
    def e_call(self, e, st):
        q = e.get("q", "")
        n = e.get("n", "")
        if not n and e.get("c"):
            f = self.ev(e["c"], st)
            if isinstance(f, Obj) and f.kind == "closure":
                return self.call_closure(f, e["a"], st, e)
            return self.unk("indirect call", e)
        f = self.user_target(e)
        if f is not None:
            args = [self.ev(x, st) for x in e["a"]]
            return self.inline(f, args, st, e)
        if q == "crocoddyl::raiseIfNaN":
            return bfn("nanormax", self.evp(e["a"][0], st))
        if q == "crocoddyl::getProfiler":
            return Obj("opaque", None, "profiler")
        args = [self.ev(x, st) for x in e["a"]]
        if q.startswith("Eigen::") and n in ("Zero", "Ones", "Identity", "Constant"):
            self.callshape[id(e)] = tuple(self.poly(x, st, e) for x in (args[:-1] if n == "Constant" else args))
            if n == "Zero":
                return ZERO
            if n == "Ones":
                return ONE
            if n == "Identity":
                return ident()
            return self.poly(args[-1], st, e)
        if q in ("std::fma", "fma") and len(args) == 3:
            a, b, d = [self.poly(x, st, e) for x in args]
            return add(mul(a, b), d)
        if q in ("std::max", "std::fmax", "fmax", "std::min", "std::fmin", "fmin") and len(args) == 2:
            a, b = self.poly(args[0], st, e), self.poly(args[1], st, e)
            return smax(a, b) if "max" in n else smin(a, b)
        if q in ("std::max", "std::min") and len(args) == 1 and isinstance(args[0], Obj) and args[0].kind == "initlist":
            vs = [self.poly(x, st, e) for x in args[0].x]
            return smax(*vs) if n == "max" else smin(*vs)
        if q == "std::clamp":
            v, lo, hi = [self.poly(x, st, e) for x in args]
            return smin(smax(v, lo), hi)
        if q.startswith("std::numeric_limits"):
            if n == "infinity":
                return POSINF
            return sym("limits." + n)
        if n in ("abs", "fabs", "labs"):
            return fn("abs", (self.poly(args[0], st, e),))
        if n in ("isnan",):
            return bfn("isnan", self.poly(args[0], st, e))
        if n in ("isfinite", "isinf"):
            return bfn(n, self.poly(args[0], st, e))
        if n in ("sqrt", "pow", "exp", "log", "floor", "ceil", "round", "log10", "cbrt", "tanh"):
            return fn(n, tuple(self.poly(x, st, e) for x in args))
        if n in ("move", "forward", "cref", "ref", "as_const", "addressof"):
            return args[0]
        if n == "swap" and len(args) == 2 and all(isinstance(a, Ref) for a in args):
            self.swap(args[0], args[1], st, e)
            return None
        if n in ("begin", "cbegin", "end", "cend") and len(args) == 1 and isinstance(args[0], Ref):
            return Iter(args[0], ZERO if n.endswith("begin") else self.length(args[0], st))
        if n in ("isTooLarge", "isnormal"):
            return bfn(n, self.poly(args[0], st, e))
        if q.startswith("std::") and any(isinstance(x, (Iter, Iter2)) for x in args):
            r = self.std_algo(n, args, st, e)
            return r if r is not None else self.unk("algorithm " + q, e)
        k = kind_of(strip(e.get("ty", "void")))
        self.events.append(self.mk_event("ext." + q, args, st, e))
        for j in e.get("outs", []):
            if j < len(args) and isinstance(args[j], Ref):
                r = args[j]
                self.write(st, r, fn("ext.%s.%d" % (q, j), tuple(self.poly(x, st, e) for i, x in enumerate(args) if isinstance(x, (Ref, Poly)) and i != j),
                                     self.kind_root(r.root, r.idx)), e)
        if k in "sbvm" and strip(e.get("ty", "")) != "void":
            try:
                vals = tuple(self.poly(x, st, e) for x in args if isinstance(x, (Ref, Poly)))
            except Broken:
                vals = ()
            if k == "b":
                return bfn("ext." + q, *vals)
            return fn("ext." + q, vals, k)
        return Obj("opaque", None, q)

    def std_algo(self, n, args, st, e):
        """algorithms over [first,last) rewritten as the loop they are"""
        if len(args) < 3 or not isinstance(args[0], (Iter, Iter2)) or not isinstance(args[1], (Iter, Iter2)):
            return None
        base, lo, hi = args[0].base, args[0].pos, args[1].pos
        ety = elem_ty(base.ty) or "double"
        scalar = kind_of(ety) in "sb"
        if n in ("for_each", "accumulate", "transform_reduce", "reduce", "max_element", "min_element", "transform", "count_if"):
            vid, acc, one = -1 - self.fresh("alg"), "l:%s#%d" % (n, self.fresh("alg")), None
            call = lambda f, xs, s: self.poly(self.apply(f, xs, s, e), s, e)
            el = lambda s: s.env[vid] if not scalar else self.read(s, s.env[vid])
            if n == "for_each":
                one = lambda s: self.apply(args[2], [s.env[vid]], s, e)
            elif n in ("accumulate", "reduce"):
                if len(args) < 3:
                    return None
                f = args[3] if len(args) > 3 else None
                st.s[acc] = self.poly(args[2], st, e)
                def one(s):
                    v = call(f, [Ref(acc, (), "double"), s.env[vid]], s) if f is not None else add(s.s[acc], self.poly(el(s), s, e))
                    s.s[acc] = v
            elif n == "transform_reduce":
                if len(args) != 5:
                    return None
                st.s[acc] = self.poly(args[2], st, e)
                def one(s):
                    v = self.apply(args[4], [s.env[vid]], s, e)
                    s.s[acc] = call(args[3], [Ref(acc, (), "double"), self.poly(v, s, e)], s)
            elif n == "count_if":
                st.s[acc] = ZERO
                def one(s):
                    v = call(args[2], [s.env[vid]], s)
                    s.s[acc] = add(s.s[acc], v)
            elif n in ("max_element", "min_element"):
                if len(args) != 2 or not scalar:
                    return None
                # only the value is modelled: the iterator can be dereferenced, not moved
                st.s[acc] = self.read_store(st.s, base.root, base.idx + (lo,))
                one = lambda s: s.s.__setitem__(acc, (smax if n[1] == "a" else smin)(s.s[acc], self.poly(el(s), s, e)))
            elif n == "transform":
                if len(args) != 4 or not isinstance(args[2], (Iter, Iter2)):
                    return None
                out = args[2]
                def one(s):
                    v = call(args[3], [s.env[vid]], s)
                    pos = s.env[vid].idx[-1]
                    oty = elem_ty(out.base.ty) or "double"
                    self.write(s, Ref(out.base.root, out.base.idx + (add(out.pos, sub(pos, lo)),), oty), v, e)
            self.tytab[acc] = "double"
            fl = self.loop(st, {"k": "rfor", "l": e.get("l", "?")}, None, None, {"k": "py", "f": one, "l": e.get("l", "?")},
                           rng=({"id": vid, "n": "elem", "ty": strip(ety) + " &"}, Span(base, lo, hi)))
            nf = [f for f in fl if f.kind == "n"]
            if len(nf) != 1:
                return None
            st.s, st.env = nf[0].st.s, nf[0].st.env
            if n in ("for_each", "transform"):
                return Obj("opaque")
            v = st.s.pop(acc)
            if n in ("max_element", "min_element"):
                root = acc + "@"
                self.tytab[root] = "double"
                st.s[root] = v
                return Single(Ref(root, (), "double"))
            if n in ("accumulate", "reduce", "transform_reduce") and strip(e.get("ty") or "") in INTS and isinstance(v, Poly) and \
                    any(f.kind in ("v", "m", "r") or f.op == "rd" and strip(self.tytab.get(f.a[0]) or "") in ("double", "float") for f in alg.factors(v)):
                v = truncated(v)  # the type of the initial value is the type of every partial sum
            return v
        i = mkF("sym", ("alg%d" % self.fresh("alg"),), "s")
        if n in ("all_of", "any_of", "none_of") and isinstance(args[2], Obj) and args[2].kind == "closure":
            s2 = st.copy()
            RANGES[i] = (lo, hi)
            lam, env = args[2].x
            r = self.inline({"ps": lam["ps"], "body": lam["body"], "q": "lambda", "fid": "lambda@" + lam.get("l", ""), "n": "lambda"},
                            [Ref(base.root, base.idx + (fpoly(i),), elem_ty(base.ty) or "double")], s2, e, env=dict(env))
            p = self.poly(r, s2, e)
            RANGES.pop(i, None)
            if n == "all_of":
                return b_not(alg.any_over(b_not(p), i, lo, hi))
            a = alg.any_over(p, i, lo, hi)
            return a if n == "any_of" else b_not(a)
        if n == "fill":
            v = self.poly(args[2], st, e)
            cur = st.s.get(base.root)
            cur = cur if isinstance(cur, Arr) else PRE
            st.s[base.root] = Arr(cur.tag, cur.ups + (Up(((i, lo, hi),), base.idx + (fpoly(i),), ONE, v),), cur.defs)
            return Obj("opaque")
        if n == "copy":
            out = args[2]
            if isinstance(out, (Iter, Iter2)):
                v = self.read_store(st.s, base.root, base.idx + (fpoly(i),))
                cur = st.s.get(out.base.root)
                cur = cur if isinstance(cur, Arr) else PRE
                st.s[out.base.root] = Arr(cur.tag, cur.ups + (Up(((i, lo, hi),), out.base.idx + (add(out.pos, sub(fpoly(i), lo)),), ONE, v),), cur.defs)
                return Obj("opaque")
        return None

    def apply(self, f, xs, st, e):
        """calls a function object with evaluated arguments"""
        if isinstance(f, Obj) and f.kind == "closure":
            lam, env = f.x
            return self.inline({"ps": lam["ps"], "body": lam["body"], "q": "lambda", "fid": "lambda@" + lam.get("l", ""), "n": "lambda"}, xs, st, e, env=dict(env))
        if isinstance(f, Obj) and f.kind == "opaque":
            t = str(f.x)
            if "std::plus" in t:
                return add(self.poly(xs[0], st, e), self.poly(xs[1], st, e))
            if "std::multiplies" in t:
                return mul(self.poly(xs[0], st, e), self.poly(xs[1], st, e))
        return self.unk("call of an unknown function object", e)

    def s_py(self, s, st):
        """one step of an algorithm, given as a function on states"""
        n0 = len(self.pend)
        st = st.copy()
        s["f"](st)
        return self.finish_expr(st, n0)

    def swap(self, a, b, st, e):
        if not a.idx and not b.idx and self.depth_of_root(a.root) and self.depth_of_root(b.root):
            x = st.copy()
            self.copy_array(a, b, st)
            va = st.s[a.root]
            y = x
            self.copy_array(b, a, x)
            st.s[b.root] = x.s[b.root]
            st.s[a.root] = va
            return
        x, y = self.poly(a, st, e), self.poly(b, st, e)
        self.write(st, a, y, e)
        self.write(st, b, x, e)

    def e_ctor(self, e, st):
        t = strip(e["ty"])
        A = e["a"]
        if t.startswith("std::vector"):
            if not A or (len(A) == 1 and A[0].get("k") == "defarg"):
                return fn("vec", (ZERO, ZERO))
            if len(A) >= 1 and A[0].get("k") == "init":
                return Obj("initlist", None, [self.ev(x, st) for x in A[0]["a"]])
            a0 = self.ev(A[0], st)
            if isinstance(a0, Obj):
                return a0
            if isinstance(a0, Ref):
                return a0
            x = self.ev(A[1], st) if len(A) > 1 and A[1]["k"] != "defarg" else ZERO
            return fn("vec", (self.poly(a0, st, e), self.poly(x, st, e) if not isinstance(x, Obj) else ZERO))
        if t.startswith(("Eigen::Ref", "Eigen::Map")) and A:
            return self.ev(A[0], st)
        if t.startswith("Eigen::LLT"):
            if not A:
                return ZERO
            a0 = self.ev(A[0], st)
            if t.startswith("Eigen::LLT") and isinstance(a0, (Ref, Poly)):
                p = self.poly(a0, st, e)
                if not is_mat(p):
                    self.callshape[id(e)] = (p, p)
                return fn("llt_alloc", ()) if not is_mat(p) else p
            return ZERO
        if t.startswith("Eigen::"):
            if not A:
                return ZERO if kind_of(t) != "o" else Obj("opaque")
            a0 = self.ev(A[0], st)
            if len(A) == 1 and isinstance(a0, Ref) and (a0.view or kind_of(a0.ty) != "s"):
                return a0
            if len(A) == 1 and isinstance(a0, Poly) and (is_mat(a0) or is_vec(a0) or a0 is ZERO):
                return a0
            if len(A) == 1 and isinstance(a0, Obj):
                return a0
            k = kind_of(t)
            self.callshape[id(e)] = tuple(self.poly(self.ev(x, st), st, e) for x in A)
            return fpoly(mkF("fn", ("alloc", tuple(self.poly(self.ev(x, st), st, e) for x in A)), k))
        if len(A) == 1:
            v = self.ev(A[0], st)
            return v
        args = [self.ev(x, st) for x in A]
        if t == "std::basic_string" and isinstance(args[0], Obj) and args[0].kind == "str" and A[1].get("k") == "defarg":
            return args[0]
        return Obj("opaque", None, (t, args))

    # Eigen / std containers ---------------------------------------------
    def eigen(self, o, e, st):
        n = e["n"]
        A = e["a"]
        if isinstance(o, (Iter, Iter2)):
            return self.unk("iterator method " + n, e)
        if n in ("noalias", "eval", "derived", "matrix", "const_cast_derived", "template_cast", "cast", "real", "nestedExpression", "get", "sparseView", "toDense"):
            return o
        if n == "array":
            if isinstance(o, Ref):
                return Ref(o.root, o.idx, o.ty, (o.view or ()) + (("array",),))
            return o
        isr = isinstance(o, Ref)
        arr = isr and elem_ty(o.ty) is not None and not o.view
        cont = isr and is_cont(o.ty)
        if n in ("size", "rows", "cols"):
            if arr or cont:
                if cont:
                    return fn("len", (self.read(st, o),))
                return self.length(o, st)
            if isr and not o.view:
                r = mkF("rd", (n + ":" + o.root, o.idx, "pre"), "s")
                alg.NONNEG.add(r)
                return fpoly(r)
            return fn(n, (self.poly(o, st, e),))
        if n in ("begin", "cbegin") and isr:
            return Iter(o, ZERO)
        if n in ("end", "cend") and isr:
            return Iter(o, self.length(o, st))
        if n in ("rbegin", "crbegin", "rend", "crend") and isr:
            return self.unk("reverse iterator", e)
        if n in ("back", "front") and (arr or cont):
            if cont:
                return fn("cb" + n, (self.read(st, o),))
            t = elem_ty(o.ty)
            i = ZERO if n == "front" else sub(self.length(o, st), ONE)
            if kind_of(t) == "o" and not elem_ty(t):
                return Obj("opaque", i, o)
            return self.elem_ref(o, i, t, st, e)
        if n == "at" and (arr or cont):
            i = self.evp(A[0], st)
            if cont:
                return fn("cbget", (self.read(st, o), i))
            t = elem_ty(o.ty)
            return self.elem_ref(o, i, t, st, e)
        if n == "empty":
            return eq_int(self.length(o, st), ZERO) if isr else bfn("empty", self.poly(o, st, e))
        if n in ("push_back", "emplace_back"):
            v = self.ev(A[0], st)
            if cont:
                self.write(st, o, fn("push", (self.read(st, o), self.poly(v, st, e))), e)
                return None
            if arr and isinstance(v, (Ref, Poly)):
                self.write(st, Ref(o.root, o.idx + (self.length(o, st),), elem_ty(o.ty)), self.poly(v, st, e), e)
                self.lens[o.root] = add(self.length(o, st), ONE) if not o.idx else self.lens.get(o.root)
                return None
            return None
        if n in ("resize", "reserve", "conservativeResize", "assign", "clear", "set_capacity", "rset_capacity", "rresize", "shrink_to_fit"):
            args = [self.ev(x, st) for x in A if x["k"] != "defarg"]
            if isr:
                self.events.append(self.mk_event("resize", args, st, e, target=o, how=n))
                if n == "reserve" or n == "shrink_to_fit":
                    return None
                if cont:
                    self.write(st, o, fn("cb." + n, (self.read(st, o),) + tuple(self.poly(x, st, e) for x in args)), e)
                    return None
                if arr:
                    if not o.idx:
                        if n == "clear":
                            self.lens[o.root] = ZERO
                        elif args:
                            self.lens[o.root] = self.poly(args[0], st, e)
                        if len(args) > 1 and isinstance(args[1], (Ref, Poly)):
                            cur = st.s.get(o.root)
                            cur = cur if isinstance(cur, Arr) else PRE
                            st.s[o.root] = Arr(cur.tag, cur.ups + (Up((), "all", ONE, self.poly(args[1], st, e)),), cur.defs)
                    return None
                # content after resize is unspecified unless size is unchanged
                self.shapes[(o.root, o.idx)] = tuple(self.poly(x, st, e) for x in args)
            return None
        if n in ("setZero", "setOnes", "setConstant", "fill", "setIdentity", "setRandom"):
            args = [self.ev(x, st) for x in A]
            if n == "setZero":
                v = ZERO
            elif n == "setIdentity":
                v = ident()
            elif n == "setOnes":
                v = fpoly(mkF("fn", ("ones", ()), "v"))
            elif n == "setRandom":
                v = self.unk("random", e, "v")
            else:
                c = self.poly(args[0], st, e)
                v = smul(c, fpoly(mkF("fn", ("ones", ()), "v")))
            if isr:
                if isinstance(o.ty, str) and pair_ty(strip(o.ty)) and not o.view and not o.idx and n in ("setZero", "setConstant", "fill"):
                    cur = st.s.get(o.root)
                    cur = cur if isinstance(cur, Arr) else PRE
                    st.s[o.root] = Arr(cur.tag, cur.ups + (Up((), "all", ONE, ZERO if n == "setZero" else self.poly(args[-1], st, e)),), cur.defs)
                    return o
                if arr:
                    return self.unk("setX on array", e)
                dims = args[:-1] if n in ("setConstant", "fill") else args
                if dims and not o.view:
                    self.shapes[(o.root, o.idx)] = tuple(self.poly(x, st, e) for x in dims)
                self.write(st, o, v, e)
                return o
            return v
        if n in ("Zero", "Identity", "Ones", "Constant"):
            pass
        if n in ("lu", "partialPivLu", "fullPivLu", "llt", "ldlt", "householderQr", "colPivHouseholderQr",
                 "fullPivHouseholderQr", "completeOrthogonalDecomposition"):
            return self.poly(o, st, e)  # a factorisation stands for the matrix; solve() multiplies by its inverse
        if n in ("compute",):
            v = self.evp(A[0], st)
            if isr:
                self.write(st, o, v, e)
            return o
        if n == "info":
            return fn("lltinfo", (self.poly(o, st, e),))
        if n == "solveInPlace":
            t = self.ev(A[0], st)
            m = self.poly(o, st, e)
            if isinstance(t, Ref):
                self.write(st, t, smul(inv(m), self.poly(t, st, e)), e)
                return None
            return self.unk("solveInPlace", e)
        if n == "solve":
            return smul(inv(self.poly(o, st, e)), self.evp(A[0], st))
        if n == "swap":
            b = self.ev(A[0], st)
            if isr and isinstance(b, Ref):
                self.swap(o, b, st, e)
                return None
            return self.unk("swap", e)
        if n == "diagonal":
            if isr:
                return Ref(o.root, o.idx, o.ty, (o.view or ()) + (("diag",),))
            return fn("diagof", (self.poly(o, st, e),), "v")
        if n in ("triangularView",):
            if isr:
                return Ref(o.root, o.idx, o.ty, (o.view or ()) + (("triu", e.get("ta", ["?"])[0]),))
            return fn("triuval" + str(e.get("ta", ["?"])[0]), (self.poly(o, st, e),), "m")
        if n == "selfadjointView":
            return fn("selfadj" + str(e.get("ta", ["?"])[0]), (self.poly(o, st, e),), "m")
        if n in ("segment", "head", "tail", "middleRows", "topRows", "bottomRows", "middleCols", "leftCols", "rightCols",
                 "block", "topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner", "col", "row"):
            args = [self.evp(x, st) for x in A]
            w = self.viewof(n, o, args, st)
            if isr and not (o.view and o.view[-1][0] == "array"):
                return Ref(o.root, o.idx, o.ty, (o.view or ()) + (w,))
            return blk_read(self.poly(o, st, e), w)
        args = [self.ev(x, st) for x in A]
        p = self.poly(o, st, e)
        if n == "transpose" or n == "adjoint":
            return transpose(p)
        if n == "asDiagonal":
            return diag(p)
        if n == "cwiseProduct":
            return hadamard(p, self.poly(args[0], st, e))
        if n == "cwiseQuotient":
            return hadamard(p, fn("cwinv", (self.poly(args[0], st, e),), "v"))
        if n == "cwiseInverse" or (n == "inverse" and is_vec(p)):
            return fn("cwinv", (p,), "v")
        if n in ("cwiseMax", "max") and args:
            return fn("cmax", (p, self.poly(args[0], st, e)), "v")
        if n in ("cwiseMin", "min") and args:
            return fn("cmin", (p, self.poly(args[0], st, e)), "v")
        if n in ("cwiseAbs", "abs"):
            return fn("cabs", (p,), "v")
        if n == "lpNorm":
            k = (e.get("ta") or ["?"])[0]
            return norm({"1": "norm1", "-1": "norminf", "2": "norm2"}.get(k, "norm" + k), p)
        if n == "norm":
            return norm("norm2", p)
        if n == "squaredNorm":
            return dot(p, p)
        if n == "dot":
            return dot(p, self.poly(args[0], st, e))
        if n == "inverse":
            return inv(p)
        if n == "sum" or n in ("maxCoeff", "minCoeff", "mean", "prod", "trace", "determinant"):
            return fn(n, (p,))
        if n in ("hasNaN", "allFinite", "isZero", "isApprox", "all", "any"):
            return bfn(n, p, *[self.poly(x, st, e) for x in args if isinstance(x, (Ref, Poly))])
        if n == "matrixLLT" or n == "reconstructedMatrix":
            return p
        if n == "data":
            return o
        if n in ("value", "coeff", "coeffRef", "operator()"):
            if not args:
                return scalarize(p)
            idx = tuple(self.poly(x, st, e) for x in args)
            if isr and not o.view:
                return Ref(o.root, o.idx + idx, "double")
            return self.elem(p, idx)
        if e.get("conv"):
            return scalarize(p)
        return self.unk("method " + n, e, kind_of(strip(e.get("ty", "double"))) if kind_of(strip(e.get("ty", "double"))) in "svmb" else "s")

    def viewof(self, n, o, a, st):
        if n == "segment":
            return ("seg", a[0], a[1])
        if n == "head":
            return ("seg", ZERO, a[0])
        if n == "tail":
            return ("seg", sub(self.total(o), a[0]), a[0])
        if n == "middleRows":
            return ("block", a[0], ALL, a[1], ALL)
        if n == "topRows":
            return ("block", ZERO, ALL, a[0], ALL)
        if n == "bottomRows":
            return ("block", sub(self.total(o), a[0]), ALL, a[0], ALL)
        if n == "middleCols":
            return ("block", ALL, a[0], ALL, a[1])
        if n == "leftCols":
            return ("block", ALL, ZERO, ALL, a[0])
        if n == "rightCols":
            return ("block", ALL, sub(self.total(o, 1), a[0]), ALL, a[0])
        if n == "block":
            return ("block", a[0], a[1], a[2], a[3])
        if n == "topLeftCorner":
            return ("block", ZERO, ZERO, a[0], a[1])
        if n == "topRightCorner":
            return ("block", ZERO, sub(self.total(o, 1), a[1]), a[0], a[1])
        if n == "bottomLeftCorner":
            return ("block", sub(self.total(o), a[0]), ZERO, a[0], a[1])
        if n == "bottomRightCorner":
            return ("block", sub(self.total(o), a[0]), sub(self.total(o, 1), a[1]), a[0], a[1])
        return (n, a[0])

    def total(self, o, dim=0):
        if isinstance(o, Ref):
            sh = self.shapes.get((o.root, o.idx))
            if sh is None and o.idx:
                for (r, ix), s in self.shapes.items():
                    if r == o.root:
                        sh = s
            if sh and len(sh) > dim:
                return sh[dim]
            f = mkF("rd", (("rows:" if dim == 0 else "cols:") + o.root, o.idx, "pre"), "s")
            return fpoly(f)
        return fn("rows" if dim == 0 else "cols", (o,))

    # ------------------------------------------------------------- running
    def run(self, f, args=None):
        activate(self)
        st = State({}, {})
        self.callstack = [f["fid"]]
        self.loopinfo = {}
        for p in f["ps"]:
            t = strip(p["ty"])
            root = "p:" + p["n"]
            if elem_ty(t) or is_cont(t) or kind_of(t) != "o":
                self.tytab[root] = t
                st.env[p["id"]] = Ref(root, (), t)
            elif "ShootingProblem" in t:
                st.env[p["id"]] = Obj("problem")
            elif "ActionModel" in t:
                st.env[p["id"]] = Obj("model", sym("p:" + p["n"]))
            elif "ActionData" in t:
                st.env[p["id"]] = Obj("data", sym("p:" + p["n"]))
            else:
                st.env[p["id"]] = Obj("opaque", None, root)
        flows = []
        for r, v in (self.assume or {}).items():
            st.s[r] = v
        if f.get("ctor"):
            st = self.run_inits(f, st)
        flows = self.exec(f["body"], st)
        return Result(self, f, flows)

    def run_inits(self, f, st):
        """member initialisers, base constructors and in-class initialisers"""
        cls = f["cls"]
        inits = f.get("inits") or []
        done = set()
        for i in inits:
            if i.get("base"):
                b = i["base"]
                args = [self.ev(x, st) for x in ((i["x"] or {}).get("a") or [])] if i.get("x") else []
                cs = [g for g in self.P.by_name.get(b + "::" + b.split("::")[-1], []) if g.get("ctor")]
                if cs:
                    g = cs[0]
                    env0 = st.env
                    st.env = {}
                    for p, a in zip(g["ps"], args):
                        self.bind_param(p, a, st, i)
                    st = self.run_inits(g, st)
                    self.callstack.append(g["fid"])
                    fl = self.exec(g["body"], st)
                    self.callstack.pop()
                    ns = [(x.q, x.st, None) for x in fl if x.kind in "nr"]
                    _, st, _ = self.merge_flows(ns)
                    st = st.copy()
                    st.env = env0
        rec = self.P.recs.get(cls)
        fin = {i["f"]: i for i in inits if i.get("f")}
        for fd in (rec["fields"] if rec else []):
            t = strip(fd["ty"])
            root = self.root_of_field(cls, fd["n"], t)
            x = None
            if fd["n"] in fin:
                x = fin[fd["n"]].get("x")
            elif fd.get("init"):
                x = fd["init"]
            if x is None:
                continue
            if elem_ty(t) or is_cont(t) or kind_of(t) == "o":
                continue
            v = self.ev(x, st)
            if isinstance(v, (Ref, Poly)):
                st.s[root] = self.poly(v, st, fd)
        return st


class Result:
    def __init__(self, ev, f, flows):
        self.E, self.f, self.flows = ev, f, flows
        done = [(x.q, x.st, x.val) for x in flows if x.kind in ("n", "r")]
        self.ok = bool(done)
        if done:
            q, st, v = ev.merge_flows([(a, b, (c if not isinstance(c, Ref) else ev.read(b, c)) if c is not None else None) for a, b, c in done])
            self.st, self.ret = st, v

    def value(self, root, *idx):
        """final value (one recurrence step expanded)"""
        idx = tuple(idx)
        v = self.st.s.get(root)
        if isinstance(v, Arr) and v.defs is not None:
            pre, ups = v.defs
            return self.E.gate_read(root, idx, Arr(pre.tag, pre.ups + ups + v.ups, pre.defs))
        return self.E.read_store(self.st.s, root, idx)

    def final(self, root, *idx):
        """the final value as later code sees it (recurrences stay symbolic)"""
        return self.E.read_store(self.st.s, root, tuple(idx))

    def pre(self, root, *idx):
        return self.E.read_store({}, root, tuple(idx))

    def written(self):
        return {k for k in changed(State({}), self.st) if not k.startswith("l:")}

    def evs(self, name):
        return [e for e in self.E.events if e.name == name]


LAZY = tuple("Eigen::" + x for x in ("Cwise", "Product", "Transpose", "Block", "VectorBlock", "Diagonal", "ArrayWrapper", "MatrixWrapper",
                                     "Inverse", "SelfAdjointView", "TriangularView", "Replicate", "Reverse", "Select", "Reshaped"))


def texts(n, st):
    """the literals a string expression is put together from"""
    for x in walk(n):
        if x.get("k") == "str":
            yield x["v"]
        elif x.get("k") == "ref":
            b = st.env.get(x.get("id"))
            if isinstance(b, Obj) and b.kind in ("str", "strs"):
                yield from ([b.x] if b.kind == "str" else b.x)


def leaves(b):
    """can the statement be left, or go on with the next pass, from its middle?"""
    return any(x.get("k") in ("break", "continue", "ret", "throw", "goto", "try") for x in walk(b))


ACTIVE = [None]


def activate(E):
    """from here on loop symbols have the ranges they have in the function analysed by E"""
    if ACTIVE[0] is E:
        return
    if ACTIVE[0] is not None:
        for f in ACTIVE[0].rng:
            RANGES.pop(f, None)
    RANGES.update(E.rng)
    ACTIVE[0] = E


def is_flag(x):
    """a variable or member, possibly negated"""
    while x.get("k") in ("icast", "un", "cast", "paren"):
        if x["k"] == "un" and x["op"] != "!":
            return False
        x = x["x"]
    return x.get("k") in ("ref", "mem")


class Single:
    """iterator of which only the value is known"""
    def __init__(self, ref):
        self.ref = ref


class Span:
    """the elements [lo, hi) of a container"""
    def __init__(self, base, lo, hi):
        self.base, self.lo, self.hi = base, lo, hi


class Iter2(Iter):
    def __init__(self, base, pos, root):
        self.base, self.pos, self.root = base, pos, root


class CommaInit:
    def __init__(self, ref, vals):
        self.ref, self.vals = ref, vals


NORETURN = Obj("noreturn")
_SUMM = {}
VV = "std::vector<Eigen::Matrix<double,-1,1>>"
NEGHUGE, POSHUGE = sym("-huge"), sym("+huge")
ALL = sym("all")
CALC_FIELDS = (("cost", "s"), ("xnext", "v"), ("g", "v"), ("h", "v"), ("r", "v"))
DIFF_FIELDS = (("Lx", "v"), ("Lu", "v"), ("Lxx", "m"), ("Lxu", "m"), ("Luu", "m"), ("Fx", "m"), ("Fu", "m"),
               ("Gx", "m"), ("Gu", "m"), ("Hx", "m"), ("Hu", "m"))
BASE_EFFECTS = {
    "computeDynamicFeasibility": (("fs_", VV), ("ffeas_", "double")),
    "computeEqualityFeasibility": (("hfeas_", "double"),),
    "computeInequalityFeasibility": (("gfeas_", "double"),),
    "resizeData": (("xs_", VV), ("us_", VV), ("fs_", VV)),
}
BASE_GETTERS = {"get_xs": ("xs_", VV), "get_us": ("us_", VV), "get_fs": ("fs_", VV), "get_cost": ("cost_", "double"),
                "get_stop": ("stop_", "double"), "get_iter": ("iter_", "unsigned long"), "get_xreg": ("preg_", "double"),
                "get_preg": ("preg_", "double"), "get_dreg": ("dreg_", "double"), "get_steplength": ("steplength_", "double"),
                "get_is_feasible": ("is_feasible_", "bool")}


def PRE_or(ev, k):
    return PRE if ev.depth_of_root(k) else ev.read_store({}, k, ())


_GM = []
_GMK = {}


def gm_tag(c, x, y):
    """tag of an array that is x where c holds and y elsewhere"""
    k = (c, arr_key(x), arr_key(y), id(x.defs) if x.defs else 0, id(y.defs) if y.defs else 0)
    if k not in _GMK:
        _GMK[k] = len(_GM)
        _GM.append((c, x, y))
    return ("gm", _GMK[k])


def tag_subst(t, m):
    if isinstance(t, Poly):
        return subst(t, m)
    if isinstance(t, tuple):
        if t and t[0] == "gm":
            c, x, y = _GM[t[1]]
            return gm_tag(subst(c, m), arr_subst(x, m), arr_subst(y, m))
        return tuple(tag_subst(x, m) for x in t)
    return t


def up_subst(u, m):
    return Up(tuple((b, subst(l, m), subst(h, m)) for b, l, h in u.binders), u.idx if u.idx == "all" else tuple(subst(p, m) for p in u.idx),
              subst(u.guard, m), subst(u.val, m) if isinstance(u.val, Poly) else u.val)


def arr_subst(a, m):
    if not m:
        return a
    d = a.defs
    if d is not None:
        d = (arr_subst(d[0], m), tuple(up_subst(u, m) for u in d[1]))
    return Arr(tag_subst(a.tag, m), tuple(up_subst(u, m) for u in a.ups), d)


def state_under(st, q):
    """the state in the case q"""
    m = {a: ONE if pol else ZERO for a, pol in conjuncts(q)[0]}
    if not m:
        return st
    st = st.copy()
    for r, v in list(st.s.items()):
        if isinstance(v, Poly):
            st.s[r] = subst(v, m)
        elif isinstance(v, Arr):
            if isinstance(v.tag, tuple) and v.tag and v.tag[0] == "gm":
                c, x, y = _GM[v.tag[1]]
                c = subst(c, m)
                if c is ONE or c is ZERO:
                    b = x if c is ONE else y
                    v = Arr(b.tag, b.ups + v.ups, b.defs)
            ups = tuple(Up(u.binders, u.idx, subst(u.guard, m), subst(u.val, m) if isinstance(u.val, Poly) else u.val) for u in v.ups)
            st.s[r] = Arr(v.tag, tuple(u for u in ups if u.guard is not ZERO), v.defs)
    return st


def arr_mentions(a, L, r):
    if a.tag == ("it", L, r):
        return True
    if isinstance(a.tag, tuple) and a.tag[0] == "gm":
        c, x, y = _GM[a.tag[1]]
        return arr_mentions(x, L, r) or arr_mentions(y, L, r)
    return False


def arr_key(a):
    return (a.tag, tuple(u.key() for u in a.ups))


_IDS = {}


def id_of(arr, n):
    k = (arr.tag, tuple(u.key() for u in arr.ups[:n]))
    return _IDS.setdefault(k, len(_IDS) + 1)


def changed(a, b):
    out = set()
    for k, v in b.s.items():
        w = a.s.get(k)
        if v is w:
            continue
        if isinstance(v, Arr) and isinstance(w, Arr) and arr_key(v) == arr_key(w):
            continue
        if w is None and isinstance(v, Arr) and v.tag == "pre" and not v.ups:
            continue
        out.add(k)
    return out


def ite_at(c, v, rest):
    """c ? v : rest; when c pins an index to one value and rest already is v at that value, rest covers both"""
    r = ite(c, v, rest)
    f = sole_factor(b_not(c))
    if f is not None and f.op == "nz" and isinstance(r, Poly) and f in gatoms(r):
        p = f.a[0]
        a, b = cofactor(r, f, True), cofactor(r, f, False)
        for x in sorted({g for (_, s, m) in p.terms for g, e in s}, key=lambda g: g.id):
            if x.op == "sym":
                af = affine(p, x)
                if af and af[0] in (1, -1):
                    m = {x: scale(neg(af[1]), af[0])}
                    if subst(a, m) is subst(b, m):
                        return a
                    break
    return r


def affine(p, f):
    """(coef, offset) with p = coef*f + offset, offset free of f"""
    k = ZERO
    rest = {}
    for (g, s, m), c in p.terms.items():
        if any(x is f for x, _ in s):
            if len(s) == 1 and s[0][1] == 1 and not g and not m:
                k = add(k, const(c))
            else:
                return None
        else:
            rest[(g, s, m)] = c
    off = mkP(rest)
    if depends(off, f):
        return None
    c = cval(k)
    if c is None or c == 0:
        return None
    return c, off


def conjuncts(c):
    out = []
    ch = True
    while ch:
        ch = False
        for a in sorted(gatoms(c), key=lambda f: f.id):
            if cofactor(c, a, False) is ZERO:
                out.append((a, True))
                c = cofactor(c, a, True)
                ch = True
                break
            if cofactor(c, a, True) is ZERO:
                out.append((a, False))
                c = cofactor(c, a, False)
                ch = True
                break
    return out, c


def bound_of(a, pol, itf, d):
    if a.op == "lt0":
        p = a.a[0]
        k = affine(p, itf)
        if k is None or k[0] not in (1, -1):
            return None
        c, off = k
        if pol:
            # c*i + off < 0
            return ("hi", neg(off)) if c == 1 else ("lo", add(off, ONE))
        # c*i + off >= 0
        return ("lo", neg(off)) if c == 1 else ("hi", add(off, ONE))
    if a.op == "nz" and pol:
        k = affine(a.a[0], itf)
        if k is None or k[0] not in (1, -1):
            return None
        b = scale(k[1], -k[0])
        return ("hi", b) if d == 1 else ("lo", add(b, ONE))
    return None


def has_it(p, L, but=None):
    if not isinstance(p, Poly):
        return True
    for f in alg.factors(p):
        if f.op == "rd" and isinstance(f.a[2], tuple) and f.a[2][:2] == ("it", L):
            return True
        if f.op == "sym" and f.a[0] == "it%d" % L and f is not but:
            return True
    return False


def pair_ty(t):
    """two-element vectors are used as pairs of named numbers: their elements are separate locations"""
    return isinstance(t, str) and re.match(r"Eigen::(Vector2d|Matrix<double, ?2, ?1\b)", t) is not None


def its_of(p, L):
    return {f for f in alg.factors(p) if f.op == "rd" and isinstance(f.a[2], tuple) and len(f.a[2]) == 3 and f.a[2][:2] == ("it", L)}


def is_int_bound(p):
    return isinstance(p, Poly) and not gatoms(p)


def coeff_of(v, own):
    """k with v = k*own + rest, rest free of own (own scalar or bool atom)"""
    if own.kind == "b":
        a1, a0 = cofactor(v, own, True), cofactor(v, own, False)
        if depends(a1, own) or depends(a0, own):
            return None
        return sub(a1, a0)
    k = {}
    for (g, s, m), c in v.terms.items():
        hit = [e for f, e in s if f is own]
        if hit:
            if hit[0] != 1:
                return None
            k[(g, tuple(x for x in s if x[0] is not own), m)] = c
    k = mkP(k)
    if depends(k, own):
        return None
    return k


def is_guard(p):
    return mul(p, p) is p and not any(s or m for (_, s, m) in p.terms)


def is01(p):
    return is_guard(p)


def const_candidates(rest, c):
    out = [ZERO, ONE]
    # rest = c*X : take X = rest with guards of c removed
    x = rest
    for a in sorted(gatoms(c), key=lambda f: f.id):
        x1, x0 = cofactor(x, a, True), cofactor(x, a, False)
        if x0 is ZERO:
            x = x1
        elif x1 is ZERO:
            x = x0
    out.append(x)
    return out


def under(v, q):
    """v simplified under the assumption q == 1"""
    if not isinstance(v, Poly):
        return v
    if mul(v, q) is q:
        return ONE
    if mul(v, q) is ZERO:
        return ZERO
    cj, rest = conjuncts(q)
    for a, pol in cj:
        v = cofactor(v, a, pol)
    if rest is not ONE and is_guard(v):
        if mul(v, rest) is rest:
            return ONE
        if mul(v, rest) is ZERO:
            return ZERO
    return v


def rng_exit(prim, L):
    return fpoly(mkF("bfn", ("more%d" % L, ()), "b"))


def _bindvar(X, isym):
    return mkF("sym", ("i#%d" % alg.depth_of(X),), "s")


def is_vec(p):
    return any(m and m[-1].kind == "v" and m[0].kind != "r" for (_, _, m) in p.terms)


def is_mat(p):
    return any(m and m[-1].kind == "m" for (_, _, m) in p.terms)


def scalarize(p):
    """1x1 products r*..*v become dot factors"""
    if not any(m and m[-1].kind == "v" and m[0].kind == "r" for (_, _, m) in p.terms):
        return p
    out = ZERO
    for (g, s, m), c in p.terms.items():
        if m and m[-1].kind == "v" and m[0].kind == "r":
            a = transpose(mkP({(frozenset(), (), (m[0],)): Fraction(1)}))
            b = mkP({(frozenset(), (), m[1:]): Fraction(1)})
            out = add(out, mul(mkP({(g, s, ()): c}), dot(a, b)))
        else:
            out = add(out, mkP({(g, s, m): c}))
    return out


def smul(p, q):
    return scalarize(mul(p, q))


def norm(name, p):
    a = as_blk(p)
    if a is not None:
        r = blk_norm(name, a)
        if r is not None:
            return r
    return fn(name, (p,))


# ---- block assembled vectors / matrices
def as_blk(p):
    f = sole_factor(p)
    if f is not None and f.op == "blk":
        return f.a
    return None


def blk_write(old, w, val):
    """w: ('seg',off,len) or ('block',r,c,nr,nc)/(row/col)"""
    a = as_blk(old)
    base, ups = a if a is not None else (old, ())
    kind = "v" if w[0] == "seg" else "m"
    u = ((), ONE, w, val)
    # overwriting exactly the same block drops the previous one
    ups = tuple(x for x in ups if not (x[0] == () and x[1] is ONE and x[2] == w))
    return fpoly(mkF("blk", (base, ups + (u,)), kind))


def blk_read(v, w):
    if v is ZERO:
        return ZERO
    a = as_blk(v)
    if a is not None:
        base, ups = a
        for u in reversed(ups):
            if u[0] == () and u[1] is ONE and u[2] == w:
                return u[3]
        # block of a loop-assembled matrix
        for u in reversed(ups):
            if len(u[0]) == 1 and u[2][0] == w[0] and u[1] is ONE:
                b, lo, hi = u[0][0]
                m = None
                for x, y in zip(u[2][1:], w[1:]):
                    if depends(x, b):
                        af = affine(x, b)
                        if af and af[0] in (1, -1):
                            m = {b: scale(sub(y, af[1]), af[0])}
                            break
                if m and all(subst(x, m) is y for x, y in zip(u[2][1:], w[1:])):
                    return subst(u[3], m)
        if base is ZERO and False:
            return ZERO
    out = ZERO
    k = "v" if w[0] in ("seg", "col") else ("r" if w[0] == "row" else "m")
    for (g, s, m), c in v.terms.items():
        if not m:
            return fpoly(mkF("view", (v,) + tuple(w), k))
        f = fpoly(mkF("view", (mkP({(frozenset(), (), m): Fraction(1)}),) + tuple(w), k))
        out = add(out, mul(mkP({(g, s, ()): c}), f))
    return out


def compose(a, b):
    if a[0] == "seg" and b[0] == "seg":
        return ("seg", add(a[1], b[1]), b[2])
    if a[0] == "block" and b[0] == "block":
        r = b[1] if a[1] is ALL else (a[1] if b[1] is ALL else add(a[1], b[1]))
        c = b[2] if a[2] is ALL else (a[2] if b[2] is ALL else add(a[2], b[2]))
        nr = a[3] if b[3] is ALL else b[3]
        nc = a[4] if b[4] is ALL else b[4]
        return ("block", r, c, nr, nc)
    return a + b


def blk_loop(pre, ups, isym, lo, hi):
    """close an assembly over a loop"""
    a = as_blk(pre)
    base, old = a if a is not None else (pre, ())
    out = list(old)
    for (bs, g, w, v) in ups:
        dep = any(depends(x, isym) for x in w[1:] if isinstance(x, Poly))
        if not dep:
            m = {isym: sub(hi, ONE)}
            out.append((bs, subst(g, m), w, subst(v, m)))
            continue
        nb = mkF("sym", ("j#%d" % (len(bs),),), "s")
        m = {isym: add(fpoly(nb), lo)}
        out.append((((nb, ZERO, sub(hi, lo)),) + tuple((b, subst(l, m), subst(h, m)) for b, l, h in bs), subst(g, m),
                    tuple(subst(x, m) if isinstance(x, Poly) else x for x in w), subst(v, m)))
    f = sole_factor(pre)
    kind = "m" if ups and ups[0][2][0] != "seg" else "v"
    return fpoly(mkF("blk", (base, tuple(out)), kind))


def blk_norm(name, a):
    base, ups = a
    # a norm of an assembled vector: combine block norms (base fully overwritten)
    if name not in ("norminf", "norm1"):
        return None
    d = {}
    tot = ZERO
    off_seen = []
    for bs, g, w, v in ups:
        if w[0] != "seg" or g is not ONE:
            return None
        if not bs:
            off_seen.append((w[1], w[2]))
            d[fn(name, (v,))] = ONE
            tot = add(tot, fn(name, (v,)))
        elif len(bs) == 1:
            b, lo, hi = bs[0]
            af = affine_any(w[1], b)
            if af is None or af[0] is not w[2] or depends(w[2], b):
                return None
            off_seen.append((subst(w[1], {b: lo}), mul(w[2], sub(hi, lo))))
            RANGES[b] = (lo, hi)
            dd = alg.sup_over({fn(name, (v,)): ONE}, b, lo, hi)
            tot = add(tot, alg.sum_over(fn(name, (v,)), b, lo, hi))
            RANGES.pop(b, None)
            d.update(dd)
        else:
            return None
    # contiguous cover starting at 0
    pos = ZERO
    left = list(off_seen)
    while left:
        nxt = [x for x in left if x[0] is pos]
        if not nxt:
            return None
        left.remove(nxt[0])
        pos = add(pos, nxt[0][1])
    return alg.mk_sup(d) if name == "norminf" else tot


def affine_any(p, f):
    """(coef poly, offset) with p = coef*f + offset"""
    k, rest = {}, {}
    for (g, s, m), c in p.terms.items():
        hit = [e for x, e in s if x is f]
        if hit:
            if hit[0] != 1:
                return None
            k[(g, tuple(x for x in s if x[0] is not f), m)] = c
        else:
            rest[(g, s, m)] = c
    k, off = mkP(k), mkP(rest)
    if depends(k, f) or depends(off, f):
        return None
    return k, off


def has_effect(e):
    if e is None:
        return False
    k = e.get("k")
    if k == "asg" or (k == "un" and e["op"] in ("++", "--")):
        return True
    if k in ("mcall", "call") and e.get("fid"):
        return True
    if k == "op" and e["op"] in ("=", "+=", "-=", "*=", "/=", "++", "--", "()"):
        return True
    if k == "lambda":
        return False
    if k == "throw":
        return True
    for v in e.values():
        if isinstance(v, dict) and has_effect(v):
            return True
        if isinstance(v, list) and any(isinstance(x, dict) and has_effect(x) for x in v):
            return True
    return False
