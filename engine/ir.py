"""Loads /repo's resolved program (via the clang based extractor)."""
import hashlib, json, os, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(os.path.dirname(HERE), ".build"))
VENV = "/opt/mim-venv"
PREFIX = VENV + "/lib/python3.12/site-packages/cmeel.prefix"


class Broken(Exception):
    """the check cannot decide (missing anchor, tool failure): neither pass nor violation"""


def build_dumper():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, "dumper.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "dumper-" + h)
    if os.path.exists(exe):
        return exe
    cxx = subprocess.run(["llvm-config-18", "--cxxflags"], capture_output=True, text=True, check=True).stdout.split()
    lib = "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1"
    tmp = exe + ".%d.tmp" % os.getpid()
    r = subprocess.run(["g++", "-O1", "-fno-rtti"] + cxx + [src, "-o", tmp, lib, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"],
                       capture_output=True, text=True)
    if r.returncode:
        raise Broken("cannot build the AST extractor: " + r.stderr[-2000:])
    os.replace(tmp, exe)
    return exe


def flags(mt, bindings=False):
    f = ["-std=c++17", "-DMIM_SOLVERS_WITH_PROXQP", "-DNDEBUG", "-I" + REPO + "/include", "-I" + REPO + "/bindings",
         "-I" + REPO + "/bindings/utils"]
    if mt:
        f += ["-fopenmp", "-DCROCODDYL_WITH_MULTITHREADING", "-DCROCODDYL_WITH_NTHREADS=4", "-I" + HERE + "/stubs"]
    f += ["-isystem", PREFIX + "/include", "-isystem", PREFIX + "/include/eigen3"]
    if bindings:
        f += ["-isystem", "/usr/include/python3.12", "-isystem",
              VENV + "/lib/python3.12/site-packages/numpy/_core/include"]
    f += ["-w", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]
    return f


def tu_list(which):
    if which == "src":
        return sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    if which == "bindings":
        return sorted(glob.glob(REPO + "/bindings/**/*.cpp", recursive=True))
    raise ValueError(which)


_tree = None


def tree_hash():
    """hash over everything a parse can depend on inside /repo"""
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for d in ("src", "include", "bindings"):
            for root, ds, fs in sorted(os.walk(os.path.join(REPO, d))):
                ds.sort()
                for f in sorted(fs):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
        h.update(open(os.path.join(HERE, "dumper.cpp"), "rb").read())
        h.update(open(os.path.join(HERE, "ir.py"), "rb").read())
        _tree = h.hexdigest()[:24]
    return _tree


def dump(path, mt=False):
    exe = build_dumper()
    b = "/bindings/" in path[len(REPO):]
    key = hashlib.sha256((tree_hash() + path + str(mt)).encode()).hexdigest()[:24]
    cache = os.path.join(BUILD, "ast-" + key + ".json")
    if not os.path.exists(cache):
        r = subprocess.run([exe, REPO, path, "--"] + flags(mt, b), capture_output=True, text=True, cwd="/")
        if r.returncode or not r.stdout:
            raise Broken("clang cannot parse %s:\n%s" % (path, r.stderr[-3000:]))
        tmp = cache + ".%d.tmp" % os.getpid()
        with open(tmp, "w") as f:
            f.write(r.stdout)
        os.replace(tmp, cache)
    with open(cache) as f:
        return json.load(f)


class Program:
    def __init__(self, paths, mt=False):
        self.funcs, self.recs = {}, {}
        build_dumper()
        os.makedirs(BUILD, exist_ok=True)
        with ThreadPoolExecutor(8) as ex:
            ds = list(ex.map(lambda p: dump(p, mt), paths))
        n = 0
        for path, d in zip(paths, ds):
            if d["errors"]:
                raise Broken("parse errors in " + path)
            n += 1
            # ids of local variables are per TU: make them unique
            off = n * 1000000
            for f in d["funcs"]:
                if f["fid"] not in self.funcs:
                    _shift(f, off)
                    self.funcs[f["fid"]] = f
            for r in d["recs"]:
                self.recs.setdefault(r["q"], r)
        self.by_name = {}
        for f in self.funcs.values():
            self.by_name.setdefault(f["q"], []).append(f)
        self.mt = mt
        self.paths = paths

    # ---- classes
    def chain(self, cls):
        """cls and its bases, most derived first (single inheritance chains)"""
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in self.recs and c not in out:
                out.append(c)
                todo += self.recs[c]["bases"]
        return out

    def field_cls(self, cls, field):
        for c in self.chain(cls):
            for f in self.recs[c]["fields"]:
                if f["n"] == field:
                    return c, f
        return None, None

    def method(self, cls, name, sig=None):
        """definition that a call of `name` on an object of exactly class cls reaches"""
        for c in self.chain(cls):
            for f in self.by_name.get(c + "::" + name, []):
                if sig is None or f["fid"].split(name + "(", 1)[1] == sig:
                    return f
        return None

    def declared_in(self, cls, name, sig=None):
        for c in self.chain(cls):
            for m in self.recs[c]["methods"]:
                if m["n"] == name and (sig is None or m["fid"].split(name + "(", 1)[1] == sig):
                    return c, m
        return None, None


def _shift(n, off):
    if isinstance(n, dict):
        if "id" in n and isinstance(n["id"], int):
            n["id"] += off
        for v in n.values():
            if isinstance(v, (dict, list)):
                _shift(v, off)
    elif isinstance(n, list):
        for v in n:
            if isinstance(v, (dict, list)):
                _shift(v, off)


_progs = {}


def program(which="src", mt=False):
    key = (which, mt)
    if key not in _progs:
        _progs[key] = Program(tu_list(which), mt)
    return _progs[key]


def walk(n):
    """all dict nodes below n"""
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            if isinstance(v, (dict, list)):
                yield from walk(v)
