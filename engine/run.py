"""entry point of every check: run.py PXX [--tier quick|thorough]"""
import argparse, hashlib, importlib, json, os, signal, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, "rules"))
sys.setrecursionlimit(20000)
import spec, ir
from ir import Broken

KNOWN = os.path.join(ROOT, "known-findings.txt")


LIMIT_S = 780


class Late(Exception):
    pass


def late(*_):
    raise Late()


def known():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding:"):
                d = dict(p.split("=", 1) for p in l[len("finding:"):].split(" :: ")[0].split() if "=" in p)
                d["text"] = l.split(" :: ", 1)[1] if " :: " in l else ""
                out.append(d)
    return out


def key_of(v):
    d = v.get("detail", {})
    s = v["name"] + "|" + v["message"] + "|" + json.dumps([d.get("missing"), d.get("unexpected"), d.get("key")], sort_keys=True)
    return hashlib.sha256(s.encode()).hexdigest()[:16]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--setup", action="store_true", help="build the program database only")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.setup:
        c = spec.Ctx("setup", a.tier)
        print("program database: %d functions" % len(c.prog.funcs if hasattr(c.prog, "funcs") else c.prog.by_name))
        c.bindings
        return 0
    for f in sorted(os.listdir(os.path.join(ROOT, "rules"))):
        if f.endswith(".py"):
            importlib.import_module(f[:-3])
    c = spec.Ctx(a.pid, a.tier)
    fn = spec.PROPS[a.pid]
    try:
        signal.signal(signal.SIGALRM, late)
        signal.alarm(LIMIT_S)
        fn(c)
        signal.alarm(0)
    except Late:
        c.broken.append("the analysis did not finish within %d s" % LIMIT_S)
    except Broken as e:
        c.broken.append(str(e))
    except Exception:
        c.broken.append(traceback.format_exc()[-3000:])
    signal.alarm(0)
    for rule, n in c.expect_min.items():
        got = sum(1 for o in c.obl if o["name"].startswith(rule))
        if got < n:
            c.broken.append("rule '%s' matched %d instances, expected at least %d" % (rule, got, n))
    kf = [k for k in known() if k.get("property") == a.pid]
    new, seen = [], []
    for v in c.viol:
        k = key_of(v)
        m = [x for x in kf if x.get("key") == k]
        if m:
            seen.append((m[0], v))
        else:
            new.append((k, v))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    funcs = sorted({u.where for u in c.units.values()} | set(c.extra_cov.pop("functions", [])))
    inl = sorted({f.split("(")[0] for u in c.units.values() for f in u.E.inlined if not f.startswith("lambda")})
    rules = {}
    for o in c.obl:
        rules[o["rule"] or "rule"] = rules.get(o["rule"] or "rule", 0) + 1
    cov = {"obligations": len(c.obl), "discharged": sum(1 for o in c.obl if o["ok"]),
           "functions_analysed": funcs, "helpers_seen_through": inl, "obligations_per_rule": rules,
           "samples": [{"obligation": o["name"], "at": o["where"], "rule": o["rule"]} for o in c.obl[:: max(1, len(c.obl) // 8)]][:10],
           "explanation": "Static dataflow over the type-checked program (clang AST of the current /repo sources): values are "
                          "numbered as gated polynomials over the state at function entry and compared with the property's "
                          "formulas / ordering rules; every obligation is listed with its construct when it fails.",
           "undecided": c.broken, "exhaustive": not c.broken}
    cov.update(c.extra_cov)
    ev = {"property": a.pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "other",
          "coverage": cov, "assumptions": c.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(ROOT, "evidence", a.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, v in seen:
        print("KNOWN-FINDING: property=%s %s" % (a.pid, k["text"] or v["name"]))
    if a.v:
        for o in c.obl:
            print(("ok   " if o["ok"] else "FAIL ") + o["name"], "|", o["where"])
    print("%s: %d obligations, %d discharged, %d functions, %.1f s" % (a.pid, len(c.obl), cov["discharged"], len(funcs), ev["wall_s"]))
    if new:
        path = os.path.join(ROOT, "evidence", "replay-%s.json" % a.pid)
        with open(path, "w") as f:
            json.dump([dict(v, key=k) for k, v in new], f, indent=1)
        for k, v in new[:30]:
            print("  violated: %s at %s: %s [%s]" % (v["name"], v["where"], v["message"], k))
            d = v.get("detail", {})
            for w in ("missing", "unexpected"):
                for x in (d.get(w) or [])[:4]:
                    print("      %s: %s" % (w, x[:400]))
            if d.get("note"):
                print("      " + str(d["note"])[:600])
        for b in c.broken:
            print("  undecided:", b[:500])
        print("VIOLATION property=%s replay=%s" % (a.pid, path))
        return 1
    if c.broken:
        for b in c.broken:
            print("  undecided:", b[:2000], file=sys.stderr)
            print("  undecided:", b[:2000])
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
