#!/usr/bin/env python3
"""Makes and verifies planted bugs (never committed in /repo).

usage: seed.py make [id..]    build seeded/<id>/ from seeds_def.py, verified in a scratch copy
       seed.py try [id..]     apply each to /repo, run its check, undo
"""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import seeds_def
SCR = "/tmp/seedwt"

DEMO_SH = '''#!/bin/bash
# exit 0: behaves as the property says
d=$(cd "$(dirname "$0")" && pwd); r=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$d/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
infrared = { path = "$r"%s }
embedded-hal = { version = "0.2.7", features = ["unproven"] }
fugit = "0.3.5"
[profile.dev]
opt-level = 2
debug-assertions = true
overflow-checks = true
X
unset RUSTFLAGS RUSTC_WRAPPER
timeout 250 cargo run -q --offline --target-dir "$t/target" --manifest-path "$t/Cargo.toml"
'''

def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def make(ids):
    for sid, s in seeds_def.SEEDS.items():
        if ids and sid not in ids:
            continue
        d = os.path.join(V, "seeded", sid)
        if os.path.exists(SCR):
            shutil.rmtree(SCR)
        os.makedirs(SCR)
        run(["cp", "-a", "/repo", SCR + "/repo"])
        R = SCR + "/repo"
        for f, old, new in s["edits"]:
            p = os.path.join(R, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(sid, "EDIT MISMATCH", f, t.count(old)); break
            open(p, "w").write(t.replace(old, new))
        else:
            os.makedirs(d, exist_ok=True)
            diff = run(["git", "-C", R, "diff"]).stdout
            open(d + "/patch.diff", "w").write(diff)
            if s["demo"]:
                open(d + "/demo.rs", "w").write(seeds_def.PRELUDE + s["demo"] if not s.get("noprelude") else s["demo"])
            open(d + "/demo.sh", "w").write(s.get("sh") or DEMO_SH % s.get("deps", ""))
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            ok = True
            a = run(["bash", d + "/demo.sh"], cwd="/repo")
            if a.returncode != 0:
                ok = False; print(sid, "demo fails on clean tree:\n", a.stdout[-1500:])
            b = run(["bash", d + "/demo.sh"], cwd=R)
            if b.returncode == 0:
                ok = False; print(sid, "demo passes with the bug")
            elif "panicked" not in b.stdout and "error" not in b.stdout:
                ok = False; print(sid, "demo fails oddly:\n", b.stdout[-1500:])
            # the repository's tests, in the scratch copy
            t = run(["cargo", "test", "--offline", "-q"], cwd=R, env={**os.environ, "CARGO_TARGET_DIR": "/tmp/seedtarget"})
            if t.returncode != 0:
                ok = False; print(sid, "repo tests fail:\n", t.stdout[-1500:])
            print(sid, "OK" if ok else "BAD")
            if not ok:
                shutil.rmtree(d)
        shutil.rmtree(SCR)

def tryit(ids):
    for sid in sorted(os.listdir(os.path.join(V, "seeded"))):
        d = os.path.join(V, "seeded", sid)
        if ids and sid not in ids or not os.path.exists(d + "/patch.diff"):
            continue
        m = json.load(open(d + "/meta.json"))
        a = run(["git", "-C", "/repo", "apply", d + "/patch.diff"])
        if a.returncode:
            print(sid, "does not apply", a.stdout); continue
        try:
            c = run(["bash", os.path.join(V, "check.sh"), m["property"], "quick"])
        finally:
            run(["git", "-C", "/repo", "checkout", "--", "."])
        caught = c.returncode == 1 and f"VIOLATION property={m['property']}" in c.stdout
        print(sid, m["property"], "caught" if caught else f"MISSED rc={c.returncode}", "|", c.stdout.splitlines()[0][:150] if c.stdout else "", flush=True)

if __name__ == "__main__":
    {"make": make, "try": tryit}[sys.argv[1]](sys.argv[2:])
