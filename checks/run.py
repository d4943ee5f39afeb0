#!/usr/bin/env python3
"""run.py ID: decide one property. Builds what it needs from /repo's working tree, runs the generated-case search of the
C++ harness (irh) and of the Python modules registered for the property, replays listed known findings, writes
evidence/ID.json, and prints VIOLATION lines (exit 1) or exits 0. Exit 2: the check itself could not run."""
import importlib, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import registry


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build(targets):
    r = subprocess.run(["bash", os.path.join(ROOT, "tools/build.sh"), "plain"] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-3000:])
        print("build failed")
        sys.exit(2)


def main():
    pid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    spec = registry.SPECS[pid]
    t0 = time.time()
    build(spec.targets())
    tb = time.time() - t0
    work = os.path.join(ROOT, "work", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    subs, viols, known = [], [], []
    # 1. API level
    if spec.irh:
        out = os.path.join(work, "irh.json")
        for ent in spec.irh:
            prop, tq, tt = ent[:3]
            flavor = "plain"
            t = tq if tier == "quick" else tt
            if "--time" in sys.argv: t = float(sys.argv[sys.argv.index("--time") + 1])
            env = dict(os.environ, CODON_PATH="/repo/stdlib")
            r = subprocess.run([os.path.join(ROOT, "build", flavor, "harness/irh"), prop, "--seed", str(seed), "--time", str(t), "--out", out, "--replays", work],
                               env=env, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            try:
                d = json.load(open(out))
                os.unlink(out)
            except Exception:
                # the harness itself died while setting up: the compiler cannot even be initialised
                p = os.path.join(work, "setup.txt")
                open(p, "w").write(r.stdout)
                viols.append(dict(sub=prop, sig="setup", message="harness died in setup, status %d: %s" % (r.returncode, r.stdout[-800:]), replay=p))
                continue
            subs += d["subs"]
            viols += d["violations"]
    # 2. program level
    for name, tq, tt in spec.py:
        m = importlib.import_module(name)
        t = tq if tier == "quick" else tt
        if "--time" in sys.argv: t = float(sys.argv[sys.argv.index("--time") + 1])
        s, v = m.run(pid=pid, seed=seed, budget=t, work=work, tier=tier)
        subs += s
        viols += v
    # 3. known findings: still failing as listed?
    for k in registry.known(pid):
        ok, what = k.still_fails(work)
        if ok: known.append(k.text)
        else: log("known finding no longer reproduces: %s (%s)" % (k.text, what))
    ev = sum(s["evaluations"] for s in subs)
    dn = sum(s["distinct"] for s in subs)
    rule = "; ".join("%s: %s" % (s["name"], s["rule"]) for s in subs)
    samples = [{"sub": s["name"], "case": x} for s in subs for x in s["samples"][:2]]
    cov = dict(evaluations=ev, distinct_nontrivial=dn, rule=rule, samples=samples or [{"sub": "none", "case": "no non-trivial case was sampled"}],
               by_sub={s["name"]: {k: s[k] for k in ("evaluations", "nontrivial", "distinct", "discards") if k in s} for s in subs}, build_s=round(tb, 1))
    json.dump(dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(time.time() - t0, 1),
                   violations=[{k: v[k] for k in ("sub", "sig", "message", "replay")} for v in viols], known_findings=known),
              open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    for k in known: print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for v in viols:
        print("%s/%s: %s" % (v["sub"], v["sig"], v["message"][:700].replace("\n", " | ")))
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
    print("%s: %d evaluations, %d distinct non-trivial, %d violations, %.0f s (build %.0f s)" % (pid, ev, dn, len(viols), time.time() - t0, tb))
    if ev == 0 and not viols:
        print("no case was evaluated")
        sys.exit(2)
    sys.exit(1 if viols else 0)


main()
