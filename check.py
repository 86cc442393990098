#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property: TLC explores the specification and writes its behaviours, the harness
(built here from /repo's working tree) replays them against the library, and for some
properties records runs of the library which TLC then checks against the specification.

Exit 0: held. Exit 1 with VIOLATION line: broken. Exit 2: the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, time, threading, traceback
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
sys.path.insert(0, os.path.join(ROOT, "checks"))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.out = os.path.join(ROOT, "out", prop)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.target = os.path.join(ROOT, "build", "target")
        self.states = self.transitions = 0
        self.models, self.replays, self.samples, self.fails = [], [], [], []
        self.n_fails = 0
        self.cases = self.checks = self.nontrivial = 0
        self.lock = threading.Lock()
        self.pool = ThreadPoolExecutor(8)
        self._build = self.pool.submit(self._do_build)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def path(self, name):
        return os.path.join(self.out, name)

    # ---- building the harness against /repo's working tree
    def _do_build(self):
        env = dict(os.environ, CARGO_TARGET_DIR=self.target, CARGO_NET_OFFLINE="true",
                   RUSTUP_TOOLCHAIN="stable", CARGO_INCREMENTAL="1")
        env.pop("RUSTFLAGS", None)
        # cargo goes by modification times; forget the units built from /repo
        fp = os.path.join(self.target, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith("quantmath-") or n.startswith("conf-"):
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
        t = time.time()
        p = subprocess.run(["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(ROOT, "conf", "Cargo.toml")],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise CheckError("build failed:\n" + p.stdout[-4000:])
        self.build_s = time.time() - t
        return os.path.join(self.target, "debug", "conf")

    # ---- running TLC
    def tlc(self, module, cfg=None, env=None, workers=1, simulate=None, depth=None, timeout=600,
            consts=None, expect_ok=True, xmx="3g", label=None, cfg_text=None, fpset=None):
        """Runs TLC on spec/<module>.tla. env maps names to file names in the output directory
        (values starting with '=' are passed literally)."""
        label = label or (cfg or module)
        meta = self.path("tlc-" + label)
        os.makedirs(meta, exist_ok=True)
        cfgpath = os.path.join(SPEC, (cfg or module) + ".cfg")
        text = cfg_text if cfg_text is not None else open(cfgpath).read()
        if consts:
            for k, v in consts.items():
                text, n = re.subn(r"(?m)^(\s*(?:CONSTANTS?\s+)?%s\s*=\s*).*$" % re.escape(k), lambda m: m.group(1) + str(v), text)
                if n != 1:
                    raise CheckError("constant %s not found once in %s" % (k, cfgpath))
        cfgpath = self.path(label + ".cfg")
        with open(cfgpath, "w") as f:
            f.write(text)
        e = dict(os.environ)
        for k, v in (env or {}).items():
            if isinstance(v, str) and v.startswith("="):
                e[k] = v[1:]
            else:
                e[k] = self.path(v)
                if k.startswith("OUT") and os.path.exists(e[k]):
                    os.remove(e[k])
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss16m", "-cp", CP, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-config", cfgpath, "-noGenerateSpecTE", "-lncheck", "final"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-seed", str(self.seed)]
            if depth:
                cmd += ["-depth", str(depth)]
        cmd.append(os.path.join(SPEC, module + ".tla"))
        t = time.time()
        try:
            p = subprocess.run(cmd, env=e, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % label)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        log = p.stdout
        with open(self.path(label + ".log"), "w") as f:
            f.write(log)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", log)
        if simulate:
            g = re.findall(r"(\d+) states checked", log) or re.findall(r"The number of states generated: (\d+)", log)
            gen = dist = int(g[-1]) if g else 0
        else:
            gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        ok = p.returncode == 0
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.models.append({"model": label, "distinct": dist, "generated": gen, "s": round(time.time() - t, 1)})
        if expect_ok and not ok:
            raise CheckError("TLC failed on %s (exit %d):\n%s" % (label, p.returncode, "\n".join(log.splitlines()[-40:])))
        return ok, log

    # ---- running the harness
    def conf(self, module, ins, label=None, extra=None, env=None, timeout=600):
        exe = self._build.result()
        label = label or module
        res = self.path(label + ".result.json")
        cmd = [exe, module, "--out", res, "--seed", str(self.seed), "--tier", self.tier] + (extra or []) + \
              [x[1:] if x.startswith("=") else self.path(x) for x in ins]
        t = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                               env=dict(os.environ, **(env or {})), cwd=self.out)
        except subprocess.TimeoutExpired:
            raise CheckError("harness timed out: " + " ".join(cmd))
        if p.returncode != 0 or not os.path.exists(res):
            if p.returncode < 0:
                # the library took the whole process down (abort, stack overflow): that is a finding
                self.add_fails([{"key": "process-died", "case": {"module": module, "inputs": ins},
                                 "detail": "signal %d: %s" % (-p.returncode, p.stdout[-500:])}], label, 1)
                return {"cases": 0}
            raise CheckError("harness failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-3000:]))
        r = json.load(open(res))
        with self.lock:
            self.cases += r["cases"]
            self.checks += r["checks"]
            self.nontrivial += r["nontrivial"]
            self.samples += r["samples"]
            self.replays.append({"replay": label, "cases": r["cases"], "checks": r["checks"], "counts": r.get("counts", {}),
                                 "s": round(time.time() - t, 1)})
        self.add_fails(r["fails"], label, r["n_fails"], " ".join(cmd))
        return r

    def trace(self, module, trace, cfg=None, timeout=600, label=None):
        """Has TLC judge a recorded trace: rejected means the library did something the
        specification does not allow."""
        label = label or (cfg or module)
        ok, log = self.tlc(module, cfg=cfg, env={"TRACE": trace}, expect_ok=False, timeout=timeout, label=label)
        if ok:
            return
        m = re.search(r'"TRACE-REJECTED", (\d+), (.*)>>', log)
        if not m:
            m = re.search(r"(Invariant \S+ is violated)", log)
            if not m:
                raise CheckError("TLC failed on trace %s:\n%s" % (label, "\n".join(log.splitlines()[-40:])))
            self.add_fails([{"key": "trace-invariant", "case": {"trace": trace}, "detail": m.group(1)}], label, 1)
            return
        n = int(m.group(1))
        lines = open(self.path(trace)).read().splitlines()
        keep = self.path(label + ".rejected.ndjson")
        with open(keep, "w") as f:
            f.write("\n".join(lines[:n]) + "\n")
        self.add_fails([{"key": "trace-rejected", "case": {"event": json.loads(lines[n - 1]), "prefix": keep},
                         "detail": "event %d of the recorded trace is not allowed by %s" % (n, module)}], label, 1)

    def refused(self, name, module):
        """Reports the events of a recorded trace that TLC wrote down as not allowed."""
        if not os.path.exists(self.path(name)):
            return
        bad = []
        for l in open(self.path(name)):
            x = json.loads(l)
            x = json.loads(x) if isinstance(x, str) else x
            bad.append({"key": "refused", "case": x["e"], "detail": "event %d of the recorded trace is not allowed by %s" % (x["n"], module)})
        self.add_fails(bad, module, len(bad))

    def add_fails(self, fails, label, n, cmd=None):
        with self.lock:
            for f in fails:
                f = dict(f, replay=label)
                if cmd:
                    f["command"] = cmd
                self.fails.append(f)
            self.n_fails += n

    def par(self, *thunks):
        """Runs thunks in parallel, raising the first error."""
        futs = [self.pool.submit(t) for t in thunks]
        return [f.result() for f in futs]


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def matches(entry, fail):
    """A known finding names the failure key and the fields of the case that identify it."""
    if entry.get("key") != fail["key"]:
        return False
    case = fail.get("case")
    for k, v in entry.get("where", {}).items():
        if not isinstance(case, dict) or case.get(k) != v:
            return False
    return True


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import registry
    spec = registry.CHECKS[prop]
    ctx = Ctx(prop, tier, seed)
    try:
        spec["run"](ctx)
        ctx._build.result()
    except CheckError as e:
        print("ERROR", e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    known = [k for k in load_known() if k.get("status") == "known" and k["property"] == prop]
    new, hit = [], {}
    for f in ctx.fails:
        k = next((e for e in known if matches(e, f)), None)
        if k is None:
            new.append(f)
        else:
            hit[k["what"]] = hit.get(k["what"], 0) + 1
    for e in known:
        print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (prop, e["what"], hit.get(e["what"], 0)))
    wall = round(time.time() - t0, 2)
    samples = (ctx.samples or [{"models": ctx.models}])[:4]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "wall_s": wall,
          "coverage": {"states": ctx.states, "transitions": ctx.transitions,
                       "traces_validated_against_impl": ctx.cases, "comparisons": ctx.checks,
                       "nontrivial": ctx.nontrivial, "samples": samples, "models": ctx.models, "replays": ctx.replays},
          "assumptions": spec.get("assumptions", []), "violations": len(new)}
    if spec["level"] == "exploration":
        ev["coverage"].update(evaluations=ctx.checks, distinct_nontrivial=ctx.nontrivial, rule=spec["rule"])
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d states, %d transitions, %d behaviours replayed, %d comparisons, %.1f s" %
          (prop, tier, ctx.states, ctx.transitions, ctx.cases, ctx.checks, wall))
    if ctx.cases == 0 and not new:
        print("ERROR nothing was replayed")
        sys.exit(2)
    if new:
        path = ctx.path("violation.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, "total": ctx.n_fails, "failures": new}, f, indent=1)
        seen = {}
        for f in new:
            seen[f["key"]] = seen.get(f["key"], 0) + 1
            if seen[f["key"]] > 1 or len(seen) > 15:
                continue
            print("  %s: %s  %s" % (f["key"], f["detail"][:300], json.dumps(f["case"])[:300]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
