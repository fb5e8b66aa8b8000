"""Monitor runtime: event counters, verdicts, replay files, evidence.

A check is a module of vmon.checks with
    PROP, TECH, RULE      strings
    NEED                  {event name: minimum number of observations for a verdict}
    cases(ctx)            generator of JSON-able dicts, a function of (seed, tier) only
    run(ctx, case)        executes the real code on the case and calls the monitors
    x64 = True            whether the process enables double precision
A monitor reports through ctx.ok(...)/ctx.bad(...).  Verdicts are three-valued: violated
(exit 1), held on what was observed (exit 0), inconclusive (exit 2: the deciding monitor
was not reached often enough).
"""
import collections
import hashlib
import json
import os
import sys
import time
import traceback

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(ROOT, "evidence")


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.floating, float)):
        x = float(x)
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, complex):
        return [x.real, x.imag]
    if x is None or isinstance(x, (str, int, bool)):
        return x
    return repr(x)


def brief(x):
    if isinstance(x, dict):
        return {k: brief(v) for k, v in x.items()}
    if isinstance(x, list):
        return [brief(v) for v in x[:12]] + (["... %d in all" % len(x)] if len(x) > 12 else [])
    return x


class Ctx:
    MAX_PRINT = 6
    MAX_BAD = 40

    def __init__(self, mod, seed, tier, replay=None):
        self.mod, self.prop, self.seed, self.tier = mod, mod.PROP, seed, tier
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.events = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.nviol = 0
        self.viol_kinds = collections.Counter()
        self.known = collections.OrderedDict()
        self.worst = {}
        self.case = None
        self.evaluations = 0
        self.replaying = replay is not None
        self.findings = load_findings(self.prop)

    # -- observations -----------------------------------------------------------------
    def ev(self, name, n=1):
        self.events[name] += int(n)

    def sig(self, *parts):
        """Register the (coarse) state a non-trivial execution was in."""
        self.sigs.add(hashlib.md5(repr(parts).encode()).hexdigest())

    def track(self, name, value):
        """Worst deviation seen by a monitor (goes to the evidence file)."""
        v = float(value)
        if not (v <= self.worst.get(name, -np.inf)):
            self.worst[name] = v

    # -- verdicts ---------------------------------------------------------------------
    def ok(self, cond, monitor, detail=None, mech=None):
        """One monitor evaluation.  `mech` names the mechanism of a known finding this
        observation would belong to (decided by the caller from the inputs and the way
        it fails, never from the values drawn)."""
        self.ev("monitor:" + monitor)
        if bool(cond):
            return True
        self.bad(monitor, detail, mech)
        return False

    def close(self, got, want, tol, monitor, detail=None, mech=None):
        """|got-want| <= tol elementwise; nan or shape mismatch fails."""
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            return self.ok(False, monitor, dict(detail or {}, shapes=[got.shape, want.shape]), mech)
        with np.errstate(all="ignore"):
            same_inf = (got == want)
            err = np.where(same_inf, 0.0, np.abs(got - want))
            rel = err / tol
        w = np.max(rel) if rel.size else 0.0
        self.track(monitor, w if np.isfinite(w) else np.inf)
        if rel.size and not np.all(rel <= 1.0):
            i = int(np.argmax(np.where(np.isnan(rel), np.inf, rel)))
            d = dict(detail or {}, index=i, got=got.ravel()[i], want=want.ravel()[i],
                     tol=np.broadcast_to(tol, got.shape).ravel()[i], nbad=int((~(rel <= 1)).sum()), n=int(rel.size))
            return self.ok(False, monitor, d, mech)
        return self.ok(True, monitor)

    def bad(self, monitor, detail=None, mech=None):
        if mech is not None and mech in self.findings:
            self.known.setdefault(mech, 0)
            self.known[mech] += 1
            return
        self.nviol += 1
        self.viol_kinds[monitor] += 1
        if self.viol_kinds[monitor] <= 2 and len(self.viol_kinds) <= self.MAX_PRINT:
            path = os.path.join(EVID, "replay", "%s-%s-%d-%s%d.json" % (
                self.prop, self.tier, self.seed, (self.case or {}).get("model", ""), self.nviol))
            if not self.replaying:
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "w") as fh:
                    json.dump(jsonable(dict(property=self.prop, monitor=monitor, seed=self.seed, tier=self.tier,
                                            case=self.case, detail=detail)), fh, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  monitor=%s detail=%s" % (monitor, json.dumps(jsonable(detail))[:1500]))
            sys.stdout.flush()
        if self.nviol >= self.MAX_BAD:
            raise Stop()


class Stop(Exception):
    pass


def load_findings(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as fh:
        d = json.load(fh)
    return {e["mechanism"]: e for e in d.get("findings", []) if e["property"] == prop}


def main(mod, argv):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    replay = None
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as fh:
            replay = json.load(fh)
        seed, tier = replay["seed"], replay["tier"]
    if "--thorough" in argv:
        tier = "thorough"
    ctx = Ctx(mod, seed, tier, replay)
    parts, part = getattr(mod, "PARTS", None), None
    if "--part" in argv:
        part = argv[argv.index("--part") + 1]
    if parts and not replay and part is None:
        return in_parts(ctx, mod, parts, argv)
    cap = float(os.environ.get("VERIF_CAP", "600" if tier != "thorough" else "3000"))
    capped = False
    try:
        it = [replay["case"]] if replay else mod.cases(ctx)
        for case in it:
            if time.time() - ctx.t0 > cap:
                capped = True
                break
            if part is not None and case.get("part", case["model"]) not in part.split("+"):
                continue
            ctx.case = case
            ctx.evaluations += 1
            try:
                mod.run(ctx, case)
            except (Stop, MemoryError, KeyboardInterrupt):
                raise
            except Exception as e:  # the code under test (or the oracle) raised on an in-domain input
                where = traceback.extract_tb(e.__traceback__)
                src = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
                hit = any(os.path.realpath(fr.filename).startswith(src + os.sep) for fr in where)
                if not hit:
                    raise
                ctx.bad("raised-in-domain", dict(error=repr(e)[:600], at=str(where[-1])))
            if len(ctx.samples) < 3 and ctx.nviol == 0:
                ctx.samples.append(brief(jsonable(case)))
        if hasattr(mod, "finish") and not replay:
            mod.finish(ctx)
    except Stop:
        pass
    if part is not None:
        with open(argv[argv.index("--out") + 1], "w") as fh:
            json.dump(jsonable(dict(events=ctx.events, sigs=sorted(ctx.sigs), samples=ctx.samples, nviol=ctx.nviol, kinds=ctx.viol_kinds,
                                    known=ctx.known, worst=ctx.worst, evaluations=ctx.evaluations, capped=capped, case=ctx.case)), fh)
        return 1 if ctx.nviol else 0
    return report(ctx, mod, capped, replay)


def in_parts(ctx, mod, parts, argv):
    """Run the cases of different models in parallel processes and merge what they observed."""
    import subprocess
    import tempfile
    capped, failed = False, []
    with tempfile.TemporaryDirectory() as tmp:
        procs = []
        for i, part in enumerate(parts):
            out = os.path.join(tmp, "%d.json" % i)
            log = open(os.path.join(tmp, "%d.log" % i), "w+")
            cmd = [sys.executable, "-u", "-m", "vmon.run", ctx.prop] + argv + ["--part", part, "--out", out]
            procs.append((part, out, log, subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT)))
        for part, out, log, pr in procs:
            rc = pr.wait()
            log.seek(0)
            text = log.read()
            log.close()
            if rc not in (0, 1) or not os.path.exists(out):
                failed.append(part)
                print("part %s ended with %s\n%s" % (part, rc, text[-3000:]))
                continue
            with open(out) as fh:
                d = json.load(fh)
            for line in text.splitlines():
                if line.startswith("VIOLATION") or line.startswith("  monitor="):
                    print(line)
            ctx.events.update(d["events"])
            ctx.sigs.update(d["sigs"])
            ctx.samples += d["samples"][:1]
            ctx.nviol += d["nviol"]
            ctx.viol_kinds.update(d["kinds"])
            for k, v in d["known"].items():
                ctx.known[k] = ctx.known.get(k, 0) + v
            for k, v in d["worst"].items():
                ctx.track(k, v if not isinstance(v, str) else np.inf)
            ctx.evaluations += d["evaluations"]
            ctx.case = d["case"]
            capped |= d["capped"]
    rc = report(ctx, mod, capped, None)
    return rc if rc == 1 or not failed else 3


def report(ctx, mod, capped, replay):
    short = {k: [ctx.events.get(k, 0), n] for k, n in getattr(mod, "NEED", {}).items()
             if ctx.events.get(k, 0) < (n if ctx.quick or not isinstance(n, tuple) else n[1])}
    write_evidence(ctx, capped)
    for mech, n in ctx.known.items():
        print("KNOWN-FINDING: property=%s %s (%s; %d observations)" % (
            ctx.prop, ctx.findings[mech]["what"], mech, n))
    print("%s tier=%s seed=%d cases=%d distinct=%d violations=%d wall=%.1fs%s" % (
        ctx.prop, ctx.tier, ctx.seed, ctx.evaluations, len(ctx.sigs), ctx.nviol, time.time() - ctx.t0, " CAPPED" if capped else ""))
    for k, v in sorted(ctx.worst.items()):
        print("   worst/tol %-40s %.3g" % (k, v))
    if ctx.nviol:
        return 1
    if short and not replay:
        print("INCONCLUSIVE: too few observations %s" % short)
        return 2
    return 0


def write_evidence(ctx, capped):
    if ctx.replaying:
        return
    os.makedirs(EVID, exist_ok=True)
    mons = {k[8:]: v for k, v in ctx.events.items() if k.startswith("monitor:")}
    other = {k: v for k, v in ctx.events.items() if not k.startswith("monitor:")}
    d = dict(
        property=ctx.prop, tier=ctx.tier if ctx.tier in ("quick", "thorough") else "quick", seed=ctx.seed, level="exploration",
        coverage=dict(
            evaluations=ctx.evaluations, distinct_nontrivial=len(ctx.sigs), rule=ctx.mod.RULE,
            samples=ctx.samples or [brief(jsonable(ctx.case))], monitor_evaluations=mons, events=other,
            worst_deviation_over_tolerance={k: jsonable(v) for k, v in ctx.worst.items()},
            known_findings_observed=dict(ctx.known), violation_kinds=dict(ctx.viol_kinds), capped_by_time=capped),
        assumptions=getattr(ctx.mod, "ASSUME", []),
        wall_s=round(time.time() - ctx.t0, 2), violations=ctx.nviol)
    with open(os.path.join(EVID, ctx.prop + ".json"), "w") as fh:
        json.dump(jsonable(d), fh, indent=1)
