"""Makes and tries out the planted bugs: python3 tools/plant.py make ID | check ID [PROP..] | tests ID | blame ID

The bugs are described in tools/plants_*.py (edits, demo, meta); the result is seeded/<id>/.
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, "seeded")
PRE = '''import sys
import jax
jax.config.update("jax_enable_x64", %s)
import jax.numpy as jnp
import numpy as np


def check(ok, what):
    if not ok:
        print("FAIL:", what)
        sys.exit(1)


'''
SH = '''#!/bin/bash
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
def load():
    P = {}
    for f in sorted(glob.glob(os.path.join(HERE, "plants_*.py"))):
        s = importlib.util.spec_from_file_location("p", f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        for p in m.PLANTS:
            assert p["id"] not in P, p["id"]
            P[p["id"]] = p
    return P
def scratch(pid, patched=True):
    d = f"/tmp/sw/{pid}"
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs("/tmp/sw", exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    if patched:
        subprocess.run(["git", "-C", d, "apply", f"{SEEDED}/{pid}/patch.diff"], check=True)
    return d
def run_demo(pid, d):
    r = subprocess.run(["bash", f"{SEEDED}/{pid}/demo.sh"], cwd=d, capture_output=True, text=True, timeout=400)
    return r.returncode, (r.stdout + r.stderr)[-600:]
def make(p):
    pid = p["id"]; out = f"{SEEDED}/{pid}"; os.makedirs(out, exist_ok=True)
    d = scratch(pid, False)
    for fn, old, new in p["edits"]:
        path = f"{d}/src/ripplegw/{fn}"; s = open(path).read()
        n = s.count(old)
        assert n == 1, (pid, fn, n, old)
        open(path, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
    # touched lines must be original
    base = "c4d4dd6"
    removed = []
    for fn in {e[0] for e in p["edits"]}:
        orig = set(subprocess.run(["git", "-C", d, "show", f"{base}:src/ripplegw/{fn}"], capture_output=True, text=True).stdout.splitlines())
        dd = subprocess.run(["git", "-C", d, "diff", "-U0", "--", f"src/ripplegw/{fn}"], capture_output=True, text=True).stdout
        for l in dd.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:] not in orig:
                removed.append(l)
    if removed: print(pid, "WARNING: changes lines of our fixes:", removed)
    if not any(l.startswith("-") and not l.startswith("---") for l in diff.splitlines()):
        print(pid, "note: no original line removed")
    open(f"{out}/patch.diff", "w").write(diff)
    open(f"{out}/demo.py", "w").write(PRE % p.get("x64", True) + p["demo"].strip("\n") + '\nprint("ok")\n')
    open(f"{out}/demo.sh", "w").write(SH); os.chmod(f"{out}/demo.sh", 0o755)
    json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(f"{out}/meta.json", "w"), indent=1)
    subprocess.run(["git", "-C", d, "stash", "-q"]); a = run_demo(pid, d)
    subprocess.run(["git", "-C", d, "stash", "pop", "-q"]); b = run_demo(pid, d)
    ok = a[0] == 0 and b[0] != 0
    print(pid, "DEMO OK" if ok else f"DEMO BAD unpatched={a} patched={b}", b[1].strip().splitlines()[-1:] , flush=True)
    shutil.rmtree(d)
    return ok
def check(pid, props):
    d = scratch(pid)
    res = []
    for pr in props:
        env = dict(os.environ, VERIF_REPO=d, VERIF_TIER="quick", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_EVIDENCE="/tmp/sw/ev_" + pid)
        r = subprocess.run(["bash", f"{VERIF}/check", pr], capture_output=True, text=True, env=env)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        res.append((pr, r.returncode, len(v)))
        print(pid, pr, "rc", r.returncode, "violations", len(v), (r.stdout + r.stderr)[-300:].replace("\n", " | ") if r.returncode not in (0, 1) else "", flush=True)
    shutil.rmtree(d)
    return res
if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    P = load()
    if cmd == "make":
        for i in ids or P:
            if ids or not os.path.exists(f"{SEEDED}/{i}/patch.diff"): make(P[i])
    elif cmd == "check":
        check(ids[0], ids[1:] or [P[ids[0]]["property"]])
    elif cmd == "own":   # every bug against its own property, 3 at a time
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(3) as ex:
            list(ex.map(lambda i: check(i, [P[i]["property"]]), ids or list(P)))
