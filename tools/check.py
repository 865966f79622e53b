#!/usr/bin/env python3
"""Runs the static analysis that decides one property and writes its evidence.

Every deciding step inspects the sources in /repo; nothing of the library is
executed.  Exit 0: property holds; exit 1 and a VIOLATION line: it does not (or
the analysis could not establish it, which is reported as such).
"""
import json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
DRIVER = os.path.join(TARGET, "absint", "release", "absint")
sys.path.insert(0, os.path.join(VERIF, "tools"))


def sh(cmd, env=None, cwd=None, timeout=850):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(env or {})
    try:
        p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")


def fail_internal(msg):
    print(msg)
    sys.exit(2)


def build_driver():
    rc, out = sh(["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", os.path.join(TARGET, "absint")], cwd=os.path.join(VERIF, "absint"))
    if rc != 0:
        fail_internal("the analyser does not build:\n" + out[-3000:])


def sysroot():
    rc, out = sh(["rustc", "+nightly", "--print", "sysroot"])
    return out.strip().splitlines()[-1]


def run_roots(prop, sel=None, secs=None, extra_env=None):
    """Abstract interpretation of the roots of a property (roots/src/cNN.rs)."""
    feat = prop.lower()
    deep = os.environ.get("VERIF_TIER") == "thorough"
    secs = secs or (5400 if deep else 760)
    out = os.path.join(TARGET, f"{feat}.json")
    if os.path.exists(out):
        os.remove(out)
    env = {
        "LD_LIBRARY_PATH": sysroot() + "/lib",
        "CARGO_INCREMENTAL": "0",
        "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=on --cap-lints=allow",
        "RUSTC_WRAPPER": DRIVER,
        "ABSINT_PROP": sel or feat,
        "ABSINT_OUT": out,
        "ABSINT_SECS": str(secs),
    }
    env.update(extra_env or {})
    # always analyse again (cargo would reuse the result of an unchanged tree)
    os.utime(os.path.join(VERIF, "roots", "src", "lib.rs"))
    rc, log = sh(["cargo", "+nightly", "check", "--offline", "--features", feat, "--target-dir", os.path.join(TARGET, "roots")], env=env, cwd=os.path.join(VERIF, "roots"), timeout=secs + 90)
    if not os.path.exists(out):
        # the library or the roots do not compile: the interface the property is about is gone
        errs = "\n".join(l for l in log.splitlines() if "error" in l or "-->" in l)[:2000]
        return None, errs or log[-2000:]
    return json.load(open(out)), log


def repo_fns(data):
    s = set()
    for r in data["roots"]:
        for f in r["functions"]:
            if "(/repo/" in f:
                s.add(f)
    return sorted(s)


def evidence_from_roots(data):
    roots = data["roots"]
    obl = sum(r["obligations"] for r in roots)
    bad = sum(len(r["violations"]) for r in roots)
    reqs = sorted({x for r in roots for x in r["requires"]})
    asserts = sorted({x for r in roots for x in r["asserts"] if "/repo/" in x})
    return {
        "obligations": obl,
        "discharged": obl - bad,
        "analysed_roots": len(roots),
        "roots": [r["name"] for r in roots],
        "library_functions_analysed": len(repo_fns(data)),
        "library_functions": repo_fns(data),
        "call_sites": sum(r["call_sites"] for r in roots),
        "abstract_statements": sum(r["statements"] for r in roots),
        "joins": sum(r["joins"] for r in roots),
        "fixpoint_iterations": sum(r["fixpoint_iterations"] for r in roots),
        "max_partitions": max([r["partitions"] for r in roots] or [0]),
        "frequency_chunks": sum(r["chunks"] for r in roots),
        "panic_sites": asserts,
        "requirements": reqs,
        "samples": [f"{r['name']}: {r['obligations']} obligations over {len(r['functions'])} functions, {r['fixpoint_iterations']} fixpoint iterations" for r in roots[:6]],
    }


def violations_of(data):
    out = []
    for r in data["roots"]:
        for v in r["violations"]:
            out.append({"root": r["name"], **v})
    return out


def text_of(v):
    t = f"[{v.get('kind')}] {v.get('msg')}"
    if v.get("at"):
        t += f"\n    at {v['at']}"
    if v.get("func"):
        t += f" in {v['func']}"
    if v.get("chain"):
        t += "\n    call chain: " + " > ".join(v["chain"])
    if v.get("root"):
        t += f"\n    analysis root: {v['root']}"
    if v.get("state"):
        t += f"\n    abstract state: {v['state']}"
    return t


def known(prop):
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path)).get("known", []) if f["property"] == prop]


def main():
    if sys.argv[1:] == ["--setup"]:
        build_driver()
        # warm the dependency builds
        run_roots("C99")
        return 0
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    os.environ["VERIF_TIER"] = tier
    t0 = time.time()
    build_driver()
    import props
    spec = props.PROPS[prop]
    viol, cov = [], {}
    for step in spec["steps"]:
        v, c = step(sys.modules[__name__], prop, tier)
        viol += v
        for k, x in c.items():
            if k in cov and isinstance(x, (int, list)) and not isinstance(x, bool):
                cov[k] = cov[k] + x
            else:
                cov[k] = x
    rest = []
    for v in viol:
        k = [f for f in known(prop) if f["kind"] == v.get("kind") and f["msg"] == v.get("msg") and f["at"] == re.sub(r":\d+$", "", v.get("at", "")) and f["func"] == v.get("func")]
        if k:
            print(f"KNOWN-FINDING: property={prop} {k[0]['what']}")
        else:
            rest.append(v)
    cov.setdefault("explanation", spec["rule"])
    cov["rule"] = spec["rule"]
    cov["checker_cmd"] = f"./check.sh {prop} {tier}"
    cov["trusted_base"] = props.TRUSTED
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": spec["level"],
        "coverage": cov,
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(rest),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rest:
        rp = os.path.join(VERIF, "evidence", f"{prop}.violations.txt")
        with open(rp, "w") as f:
            f.write(f"property {prop}: {len(rest)} violation(s)\nreproduce: ./check.sh {prop} {tier}\n\n")
            for v in rest:
                f.write(text_of(v) + "\n\n")
        for v in rest[:5]:
            print(text_of(v))
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    for f in (f"{prop}.violations.txt",):
        p = os.path.join(VERIF, "evidence", f)
        if os.path.exists(p):
            os.remove(p)
    print(f"{prop} holds: {cov.get('obligations', 0)} obligations discharged in {ev['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
