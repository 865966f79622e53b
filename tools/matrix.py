"""Type-checks the library and a witness program in every selection of features."""
import itertools, os, re, shutil, threading

PROTO = ["nec", "rc5", "rc6", "sbp", "denon"]
EMB = [[], ["hal"], ["time"], ["hal", "time"], ["embedded"]]
LOG = [[], ["log"], ["defmt"]]


def selections():
    for n in range(len(PROTO) + 1):
        for ps in itertools.combinations(PROTO, n):
            for rem in ([], ["remotes"]):
                for e in EMB:
                    for l in LOG:
                        yield list(ps) + rem + e + l


NAMES = {"hal": "embedded-hal", "time": "fugit"}


def shown(sel):
    return " ".join(NAMES.get(x, x) for x in sel) or "(none)"


def run(ck, prop, tier):
    sels = list(selections())
    base = os.path.join(ck.TARGET, "matrix")
    shutil.rmtree(base, ignore_errors=True)
    crate = os.path.join(ck.VERIF, "witness", "matrix")
    work, viol, done = list(sels), [], []
    lock = threading.Lock()
    # the dependencies once, then a copy for every worker
    env = {"CARGO_INCREMENTAL": "0", "RUSTFLAGS": "--cap-lints=allow -Cdebuginfo=0", "CARGO_BUILD_JOBS": "8"}
    first = os.path.join(base, "w0")
    for l in ("log", "defmt"):
        ck.sh(["cargo", "check", "--offline", "--features", "embedded," + l, "--target-dir", first], env=env, cwd=crate)
    n = min(8, os.cpu_count() or 1)
    for i in range(1, n):
        shutil.copytree(first, os.path.join(base, f"w{i}"), symlinks=True)
    env["CARGO_BUILD_JOBS"] = "1"

    def worker(i):
        tgt = os.path.join(base, f"w{i}")
        k = 0
        while True:
            with lock:
                if not work:
                    return
                sel = work.pop()
            cmd = ["cargo", "check", "--offline", "--features", ",".join(sel), "--target-dir", tgt]
            rc, log = ck.sh(cmd, env=env, cwd=crate)
            with lock:
                done.append(sel)
                if rc != 0:
                    errs = re.findall(r"^(error[^\n]*)\n\s*--> ([^\n]*)", log, re.M)
                    viol.append((len(sel), sel, errs, log[-800:]))
            k += 1
            if k % 20 == 0:
                for d in ("debug/deps", "debug/.fingerprint", "debug/build"):
                    p = os.path.join(tgt, d)
                    for f in os.listdir(p) if os.path.isdir(p) else []:
                        if f.startswith(("infrared-", "libinfrared-", "matrix-", "libmatrix-")):
                            q = os.path.join(p, f)
                            shutil.rmtree(q) if os.path.isdir(q) else os.remove(q)

    ts = [threading.Thread(target=worker, args=(i,)) for i in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree(base, ignore_errors=True)
    out, seen = [], set()
    for _, sel, errs, tail in sorted(viol):
        e = errs[0] if errs else (tail, "")
        key = (e[0], re.sub(r":\d+:\d+$", "", e[1]))
        if key in seen:
            continue
        seen.add(key)
        n = sum(1 for v in viol if (v[2][0] if v[2] else (v[3], ""))[0] == e[0])
        out.append({"kind": "configuration", "msg": f"with features {shown(sel)} (and {n - 1} more selections): {e[0]}", "at": e[1], "func": "feature selection"})
    return out, {
        "obligations": len(done),
        "discharged": len(done) - len(viol),
        "selections_checked": len(done),
        "explanation": "32 protocol subsets x remotes x {none, embedded-hal, fugit, both, embedded} x {none, log, defmt}; each type-checked by cargo from /repo's manifest together with a witness program that uses what the selection must offer",
        "samples": [shown(s) for s in sels[:3] + sels[-3:]],
        "covered": [shown(s) for s in sels],
    }
