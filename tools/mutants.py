#!/usr/bin/env python3
"""Systematic small changes of the library (development only; no check uses this).

mutants.py COUNT SEED WORKERS OUT [FILE-REGEX]

Works in copies of /repo and /verif under /tmp/mut. For each change drawn: build, run the stable tests,
and where they pass run the checks that concern the file until one reports a violation."""
import json, os, random, re, shutil, subprocess, sys, threading, time

MAP = [("core/dedup", "P17 P16"), ("core/factories", "P16 P17"), ("core/", "P16 P18"), ("data/bumptime", "P05"), ("data/bumpspotdate", "P05 P16"),
       ("data/bumpvol", "P04 P14 P02 P16"), ("data/bumpyield", "P13 P02 P16"), ("data/bumpdivs", "P12 P02 P16"), ("data/bump", "P02 P16"), ("data/curves", "P13 P12 P21 P02 P16"),
       ("data/divstream", "P12 P21 P02 P16"), ("data/forward", "P12 P21 P02 P14"), ("data/fixings", "P07 P06 P05 P16"), ("data/vol", "P14 P21 P20 P02 P04 P05 P03 P16"),
       ("dates/calendar", "P09 P10 P14 P16"), ("dates/rules", "P10 P12 P16 P21"), ("dates/", "P11 P09 P16 P21"), ("facade", "P18 P16 P17"),
       ("instruments/options", "P21 P06 P08 P05 P03 P02 P04 P16"), ("instruments/", "P21 P06 P08 P05 P03 P02 P16 P17"), ("math/brent", "P22"), ("math/interp", "P15 P13 P14 P16"),
       ("math/optionpricing", "P20 P21"), ("math/numerics", "P19 P20"), ("models/", "P03"), ("pricers/montecarlo", "P03 P05 P18"), ("pricers/", "P01 P02 P04 P05 P06 P03 P18"),
       ("risk/bumptime", "P05 P03"), ("risk/cache", "P01 P02 P04 P05 P08 P03"), ("risk/dependencies", "P08 P02 P01"), ("risk/marketdata", "P01 P02 P21 P16 P03"),
       ("risk/deltagamma", "P04 P19 P16 P18"), ("risk/vegavolga", "P04 P19 P16 P18"), ("risk/timebumped", "P05 P04 P19 P16"), ("risk/mod", "P19 P16 P18"), ("solvers/", "P22")]


def muts(line):
    s = line.strip()
    if not s or s.startswith(("//", "use ", "#[", "pub use", "mod ", "extern", "impl", "pub trait", "pub struct", "where", "type ")):
        return
    code = line.split("//")[0]
    if '"' in code and ("Error::new" in code or "println" in code):
        return
    for pat, new in [(r" <= ", " < "), (r" >= ", " > "), (r" < ", " <= "), (r" > ", " >= "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
                     (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" \+= ", " -= "), (r"\.max\(", ".min("), (r"\.min\(", ".max("),
                     (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\.0\b", "1e-3"), (r"\b1\.0\b", "1.001"), (r"\b0\b(?!\.)", "1"), (r"(?<![\w.])1\b(?!\.)", "2"), (r"(?<![\w.])2\.0\b", "2.001"),
                     (r"\bif !", "if "), (r"\bif (?!let)(?!!)", "if !"), (r"\.unwrap_or\(", ".unwrap_or_default_(")]:
        if "fn " in code and pat in (r" < ", r" > "):
            continue
        for m in re.finditer(pat, code):
            if "unwrap_or" in pat:
                continue
            if new == "if !":
                rest = code[m.end():]
                k = rest.rfind("{")
                if k < 0:
                    continue
                yield code[:m.start()] + "if !(" + rest[:k].rstrip() + ") " + rest[k:]
                continue
            yield code[:m.start()] + new + code[m.end():]
    if s.endswith(";") and not s.startswith(("let", "return", "fn", "pub", "const", "static", "}", ")")) and s.count("(") == s.count(")") and "{" not in s:
        yield re.match(r"\s*", line).group(0) + "{}\n"


def main():
    count, seed, workers, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    want = re.compile(sys.argv[5] if len(sys.argv) > 5 else ".")
    rng = random.Random(seed)
    files = subprocess.run(["git", "-C", "/repo", "ls-files", "src"], capture_output=True, text=True).stdout.split()
    every = []
    for f in files:
        if not want.search(f) or not any(f[4:].startswith(k) for k, _ in MAP):
            continue
        lines = open("/repo/" + f).read().split("\n")
        for n, l in enumerate(lines):
            if "#[cfg(test)]" in l:
                break
            for new in muts(l):
                every.append((f, n, l, new.rstrip("\n")))
    rng.shuffle(every)
    per, picked = {}, []
    for m in every:         # not too many of one file
        if per.get(m[0], 0) < max(3, count // 8):
            per[m[0]] = per.get(m[0], 0) + 1
            picked.append(m)
    picked = picked[:count]
    print(len(every), "possible,", len(picked), "picked", flush=True)
    lock, todo = threading.Lock(), list(picked)

    def work(i):
        base = "/tmp/mut/%d" % i
        repo, verif = base + "/repo", base + "/verif"
        if not os.path.isdir(base):
            os.makedirs(base)
            subprocess.run(["cp", "-a", "/repo", repo])
            subprocess.run(["cp", "-a", "/verif", verif])
        for d in ("spec", "checks", "conf", "check.py", "known_findings.json"):
            subprocess.run(["rsync", "-a", "/verif/" + d, verif + "/"]) if shutil.which("rsync") else subprocess.run(["cp", "-a", "/verif/" + d, verif + "/"])
        p = verif + "/conf/Cargo.toml"
        t = open(p).read().replace('"/repo"', '"%s"' % repo)
        open(p, "w").write(t)
        subprocess.run("cargo generate-lockfile --offline >/dev/null 2>&1 || true", shell=True, cwd=verif + "/conf") if not os.path.exists(verif + "/conf/Cargo.lock") else None
        env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TARGET_DIR=repo + "/target", VERIF_SEED="1", VERIF_TIER="quick")
        env.pop("RUSTFLAGS", None)
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        while True:
            with lock:
                if not todo:
                    return
                f, n, old, new = todo.pop(0)
            lines = open("/repo/" + f).read().split("\n")
            lines[n] = new
            open(repo + "/" + f, "w").write("\n".join(lines))
            subprocess.run("rm -rf %s/target/debug/.fingerprint/quantmath-*" % repo, shell=True)
            verdict, caught = None, []
            try:
                with open(base + "/test.log", "w") as log:
                    rc = subprocess.run("timeout 120 cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 4 --skip pricers::montecarlo::tests::", shell=True, cwd=repo, env=env, stdout=log, stderr=subprocess.STDOUT).returncode
                log = open(base + "/test.log", errors="replace").read()
                if "could not compile" in log:
                    verdict = "nobuild"
                else:
                    subprocess.run(["python3", "/opt/vp/results.py", base + "/res.json", "cargo:" + base + "/test.log"], capture_output=True)
                    got = json.load(open(base + "/res.json"))
                    if stable - set(got["passed"]):
                        verdict = "tests"
                if not verdict:
                    for c in next(v for k, v in MAP if f[4:].startswith(k)).split():
                        q = subprocess.run("timeout 900 python3 check.py %s quick" % c, shell=True, cwd=verif, env={k: v for k, v in env.items() if k != "CARGO_TARGET_DIR"}, capture_output=True, text=True)
                        if q.returncode == 1 and "VIOLATION" in q.stdout:
                            caught.append(c)
                            verdict = "caught"
                            break
                        if q.returncode not in (0, 1):
                            caught.append("%s=%d" % (c, q.returncode))
                    verdict = verdict or "MISSED"
            finally:
                shutil.copy("/repo/" + f, repo + "/" + f)
            with lock:
                open(out, "a").write(json.dumps(dict(f=f, n=n + 1, old=old.strip(), new=new.strip(), verdict=verdict, by=caught)) + "\n")
                if verdict in ("MISSED",) or any("=" in c for c in caught):
                    print(verdict, caught, "%s:%d" % (f, n + 1), old.strip(), "-->", new.strip(), flush=True)

    ts = [threading.Thread(target=work, args=(i,)) for i in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
