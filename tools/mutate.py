"""Random small changes to the package, and which check notices each: python3 tools/mutate.py SEED N [FILE..]

Every mutant is made in a scratch copy; the checks of PLAN[file] run on it in order until one
reports.  Survivors are printed with their diff, to be judged by hand (equivalent, dead code, or a gap).
"""
import ast, concurrent.futures as cf, os, random, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
SRC = "/repo/src/ripplegw/"
REST = "C22 C21 C13 C16 C15 C14 C12 C05 C06 C01 C02 C03 C04 C20 C17 C18 C19".split()
PLAN = {
    "__init__.py": "C01 C02 C03 C05 C06".split(), "noise.py": ["C04"], "constants.py": "C01 C07 C08 C09 C10 C11 C12".split(), "FD_waveform.py": ["C18"],
    "waveforms/IMRPhenomD.py": ["C07", "C09", "C11"], "waveforms/IMRPhenomD_utils.py": ["C07", "C09", "C11"], "waveforms/IMRPhenomD_NRTidalv2.py": ["C11"],
    "waveforms/IMRPhenom_tidal_utils.py": ["C11", "C10"], "waveforms/IMRPhenomPv2.py": ["C09"], "waveforms/IMRPhenomPv2_utils.py": ["C09"],
    "waveforms/IMRPhenomXAS.py": ["C08"], "waveforms/IMRPhenomX_utils.py": ["C08"], "waveforms/TaylorF2.py": ["C10"], "waveforms/SineGaussian.py": ["C12"],
    "waveforms/IMRPhenomD_QNMdata.py": ["C07", "C09"],
}
SWAPF = dict(sin="cos", cos="sin", maximum="minimum", minimum="maximum", exp="expm1", sqrt="cbrt", abs="real", arctan2="arctan", log="log1p", real="imag", imag="real", max="min", min="max")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}


def sites(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    pos = lambda ln, c: off[ln - 1] + c
    b = src.encode()
    out = []
    parents = {}
    for n in ast.walk(tree):
        for ch in ast.iter_child_nodes(n):
            parents[ch] = n
    ann = set()
    for n in ast.walk(tree):
        for a in ("annotation", "returns"):
            x = getattr(n, a, None)
            if x is not None:
                ann |= set(ast.walk(x))
    for n in ast.walk(tree):
        if n in ann or not hasattr(n, "lineno"):
            continue
        s, e = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
        t = b[s:e].decode()
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((s, e, str(not n.value), n.lineno))
        elif isinstance(n, ast.Constant) and isinstance(n.value, float):
            out.append((s, e, "(%s * 1.02)" % t if n.value else "0.02", n.lineno))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            out.append((s, e, str(n.value + random.choice([-1, 1])), n.lineno))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            ls, le = pos(n.left.end_lineno, n.left.end_col_offset), pos(n.right.lineno, n.right.col_offset)
            mid = b[ls:le].decode()
            o = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}[type(n.op)]
            if mid.count(o) == 1 and "#" not in mid:
                out.append((ls, le, mid.replace(o, BIN[type(n.op)]), n.lineno))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            out.append((s, e, "(" + b[pos(n.operand.lineno, n.operand.col_offset):e].decode() + ")", n.lineno))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            ls, le = pos(n.left.end_lineno, n.left.end_col_offset), pos(n.comparators[0].lineno, n.comparators[0].col_offset)
            out.append((ls, le, " %s " % CMP[type(n.ops[0])], n.lineno))
        elif isinstance(n, ast.Attribute) and n.attr in SWAPF and isinstance(parents.get(n), ast.Call):
            out.append((e - len(n.attr), e, SWAPF[n.attr], n.lineno))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            m = {"m1": "m2", "m2": "m1", "chi1": "chi2", "chi2": "chi1", "m1_s": "m2_s", "m2_s": "m1_s", "eta": "eta2", "eta2": "eta", "eta3": "eta2", "h1s": "h2s", "f_RD": "f_damp",
                 "lambda1": "lambda2", "lambda2": "lambda1", "chi_eff": "chi1", "s1x": "s2x", "s1z": "s2z"}.get(n.id)
            if m:
                out.append((s, e, m, n.lineno))
    return out


def one(args):
    i, fn, (s, e, new, line) = args
    d = "/tmp/mut/m%d" % i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo/src", d + "/src"], check=True)
    p = d + "/src/ripplegw/" + fn
    b = open(p, "rb").read()
    nb = b[:s] + new.encode() + b[e:]
    open(p, "wb").write(nb)
    a = b.decode().splitlines()
    z = nb.decode().splitlines()
    l = next((k for k in range(min(len(a), len(z))) if a[k] != z[k]), 0)
    text = "%s:%d\n   - %s\n   + %s" % (fn, l + 1, a[l].strip(), z[l].strip())
    try:
        compile(nb, fn, "exec")
    except SyntaxError:
        shutil.rmtree(d)
        return None
    if os.environ.get("QUICKPLAN"):
        plan = PLAN[fn]
    else:
        plan = PLAN[fn] + [c for c in REST if c not in PLAN[fn]]
    env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE="/tmp/mut/ev%d" % i, VERIF_TIER="quick", VERIF_SEED="1")
    got = []
    for c in plan:
        try:
            r = subprocess.run(["bash", VERIF + "/check", c], capture_output=True, text=True, env=env, timeout=900)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
        if rc:
            got.append("%s:%s" % (c, rc))
        if rc == 1:
            break
    shutil.rmtree(d)
    shutil.rmtree("/tmp/mut/ev%d" % i, ignore_errors=True)
    st = "CAUGHT" if got and got[-1].endswith(":1") else "SURVIVED"
    print("%d %s %s %s" % (i, st, ",".join(got), text), flush=True)
    return st


if __name__ == "__main__":
    seed, n = int(sys.argv[1]), int(sys.argv[2])
    random.seed(seed)
    files = sys.argv[3:] or [f for f in PLAN if "QNM" not in f]
    pool = []
    for f in files:
        for s in sites(open(SRC + f).read()):
            pool.append((f, s))
    # (files weighted equally up to their size's square root)
    w = {f: sum(1 for x in pool if x[0] == f) for f in files}
    picks, seen = [], set()
    while len(picks) < n and len(seen) < len(pool):
        f = random.choices(files, [w[x] ** 0.5 for x in files])[0]
        c = random.choice([x for x in pool if x[0] == f])
        if c in seen:
            continue
        seen.add(c)
        picks.append((seed * 1000 + len(picks), *c))
    with cf.ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        r = [x for x in ex.map(one, picks) if x]
    print("caught %d of %d" % (r.count("CAUGHT"), len(r)))
