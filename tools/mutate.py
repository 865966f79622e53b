#!/usr/bin/env python3
"""Mechanical mutants of the library: which do the repository's tests let pass, and which of those do the checks catch?

usage: mutate.py N SEED [file-prefix]   every mutant in a mount namespace of its own; /repo is not touched
Survivors are listed for inspection: most are equivalent, the others are gaps.
"""
import os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
R = "/repo"
CH = [  # file prefix -> checks, cheap ones first
    ("src/protocol/nec/decoder", "C08 C02 C07 C24 C10 C25 C09 C01"),
    ("src/protocol/nec/encoder", "C09 C15 C16"),
    ("src/protocol/nec/", "C18 C19 C17 C02 C08 C07 C22 C10 C09 C01"),
    ("src/protocol/rc5/encoder", "C09"),
    ("src/protocol/rc5/mod", "C18 C19 C03 C17 C07 C09"),
    ("src/protocol/rc5", "C03 C07 C24 C10 C25 C09 C01"),
    ("src/protocol/rc6/encoder", "C09"),
    ("src/protocol/rc6/cmd", "C19 C04 C17 C09"),
    ("src/protocol/rc6", "C04 C07 C24 C10 C25 C09 C01"),
    ("src/protocol/sbp", "C05 C19 C07 C24 C10 C17 C25 C01"),
    ("src/protocol/denon", "C06 C07 C19 C24 C10 C25 C01"),
    ("src/protocol/utils", "C05 C25 C09 C10 C01"),
    ("src/protocol", "C19 C18 C23"),
    ("src/receiver/time", "C05 C11 C07 C10 C25 C01"),
    ("src/receiver/iter", "C13 C25 C01"),
    ("src/receiver/bufferinput", "C13 C20 C25 C01"),
    ("src/receiver/multi", "C14 C20 C23 C25"),
    ("src/receiver/ppoll", "C12 C24 C20 C25 C01"),
    ("src/receiver/builder", "C20 C23 C22"),
    ("src/receiver/error", "C24 C11 C12"),
    ("src/receiver", "C11 C20 C24 C12 C14 C13 C07 C23 C25 C01"),
    ("src/sender", "C15 C16 C09 C23 C25"),
    ("src/cmd", "C19 C14 C18"),
    ("src/remotecontrol", "C17 C23 C11"),
]
OPS = [(r" <= ", [" < "]), (r" >= ", [" > "]), (r" < ", [" <= "]), (r" > ", [" >= "]), (r" == ", [" != "]), (r" != ", [" == "]),
       (r" \+ ", [" - "]), (r" - ", [" + "]), (r" << ", [" >> "]), (r" >> ", [" << "]), (r" & ", [" | "]), (r" \| ", [" & "]),
       (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+= ", [" -= "]), (r" \^ ", [" | "]), (r" \* ", [" + "]), (r" % ", [" / "]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\|= ", ["= ", "^= "]), (r"!self", ["self"]), (r"\(!", ["("]), (r" !", [" "]),
       (r"\b(\d+)\b", ["+1", "-1"]), (r"saturating_add", ["wrapping_add"]), (r"wrapping_add", ["saturating_add"]), (r"wrapping_sub", ["saturating_sub"]), (r"Some\((\w+)\)", ["None"]),
       (r"unwrap_or", ["unwrap_or"])]
def mutants():
    out = []
    fs = subprocess.check_output("cd /repo; git ls-files src", shell=True, text=True).split()
    for f in fs:
        if not f.endswith(".rs") or "test" in f or f.endswith("fmt.rs"):
            continue
        c = next((c for p, c in CH if f.startswith(p)), None)
        if c is None:
            continue
        L = open(os.path.join(R, f)).read().split("\n")
        for i, l in enumerate(L):
            s = l.strip()
            if s.startswith("mod test") and not s.endswith(";"):
                break
            if not s or s.startswith(("//", "#", "use ", "pub use", "impl", "where", "pub trait", "trait", "pub mod", "mod ", "type ")):
                continue
            if f.startswith("src/remotecontrol/") and re.search(r"=>|\(\d+, ", s) and "mod.rs" not in f and "mapper" not in f:
                continue  # code tables: another code is another (consistent) remote
            for pat, reps in OPS:
                for m in re.finditer(pat, l):
                    for r in reps:
                        if pat.startswith(r"\b(\d"):
                            if s.startswith(("const fn", "pub fn", "fn ")) :
                                continue
                            v = int(m.group(1)) + (1 if r == "+1" else -1)
                            if v < 0: continue
                            n = str(v)
                        else:
                            n = r
                        nl = l[:m.start()] + n + l[m.end():]
                        if nl != l:
                            out.append((f, i, l, nl, c))
            if re.match(r"\s+(self|state|\*?\w+)(\.\w+)* [-+|^]?= .*;$", l) or re.match(r"\s+self(\.\w+)+\(.*\);$", l):
                out.append((f, i, l, "", c))
    return out
def sh(c, t=890):
    try:
        p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"
def one(f, i, new, checks):
    p = os.path.join(R, f)
    L = open(p).read().split("\n")
    old = L[int(i)]
    L[int(i)] = new
    open(p, "w").write("\n".join(L))
    tag = f"{f}:{int(i)+1}: {old.strip()[:90]}  ==>  {new.strip()[:90]}"
    rc, out = sh("cd /repo && timeout 100 cargo test --workspace --no-fail-fast --offline 2>&1", 200)
    if "could not compile" in out or "error[" in out:
        print("BUILD   ", tag); return
    if rc:
        print("TESTS   ", tag); return
    t0 = time.time()
    for c in checks.split():
        if os.environ.get('FAST') and c in os.environ['FAST'].split(','):
            continue
        rc, out = sh(f"cd /verif && bash check.sh {c}")
        if rc:
            l = [x.strip() for x in out.splitlines() if x.strip() and not x.startswith("VIOLATION") and "call chain" not in x and "analysis root" not in x and "abstract state" not in x]
            print(f"CAUGHT   {tag}   by {c} rc={rc} {time.time()-t0:.0f}s {l[0][:120] if l else ''}"); return
    print("SURVIVED", tag, f"{time.time()-t0:.0f}s")
if __name__ == "__main__":
    if sys.argv[1] == "--one":
        one(*sys.argv[2:6]); sys.exit()
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    M = [m for m in mutants() if len(sys.argv) < 4 or m[0].startswith(sys.argv[3])]
    print(len(M), "mutants", flush=True)
    random.Random(seed).shuffle(M)
    B = "/tmp/mutx"
    def work(k):
        f, i, l, nl, c = M[k]
        d = f"{B}/{seed}-{k}"
        os.makedirs(d)
        sh(f"cp -a /repo {d}/repo; mkdir {d}/tmp; mkdir {d}/verif; cd /verif; tar c --exclude=./seeded --exclude=./.git . | tar x -C {d}/verif")
        import shlex
        inner = f"mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && mount --bind {d}/tmp /tmp && exec python3 /verif/tools/mutate.py --one {f} {i} {shlex.quote(nl)} {shlex.quote(c)}"
        rc, out = sh(f"unshare -m bash -c {shlex.quote(inner)}", t=4000)
        print(out.strip(), flush=True)
        shutil.rmtree(d)
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
        list(ex.map(work, range(min(n, len(M)))))
