#!/usr/bin/env python3
"""check.py ID [--only-proof]: decide one property on /repo's working tree.

1. build the verifier (engine/) if needed, verify every function the property
   depends on against its contract (govc -prop ID);
2. run the bounded replay driver of the property on the real code (a concrete
   cross-check, never counted as proved);
3. write evidence/ID.json; exit 0 or 1.
"""
import json, os, re, subprocess, sys, tempfile, time, shutil, hashlib

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ID = sys.argv[1]
T0 = time.time()
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"

ENV = dict(os.environ)
ENV.update(HOME=ENV.get("HOME", "/root"), GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off")
TIMEOUT = 6000 if TIER == "thorough" else 840
PROPS = json.load(open(os.path.join(V, "drivers", "checks.json")))


def build():
    subprocess.run(["bash", os.path.join(V, "build.sh")], check=True, env=ENV, stdout=sys.stderr)


# a property whose contracts come in two layers that are verified separately
LAYERS = {"C10": ["C10", "C10m"]}


def prove(tmp):
    """start the verifier, once per layer of the property"""
    out = []
    for lay in LAYERS.get(ID, [ID]):
        rep = os.path.join(tmp, "report_%s.json" % lay)
        cmd = [os.path.join(V, "bin", "govc"), "-prop", lay, "-json", rep, "-repo", REPO]
        if TIER == "thorough":
            cmd += ["-vacuity", "-th", "60"]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
        out.append((p, rep, cmd))
    return out


def drive(tmp):
    """start the replay drivers; returns a list of (package, process)"""
    out = []
    conf = PROPS.get(ID, {})
    procs = []
    for pkg in conf.get("drivers", []):
        d = os.path.join(V, "drivers", os.path.basename(pkg))
        repl = {}
        for f in sorted(os.listdir(d)):
            if f.endswith("_test.go"):
                repl[os.path.join(REPO, pkg, "zz_" + f)] = os.path.join(d, f)
        name = re.search(r"^package (\w+)", open(next(iter(repl.values()))).read(), re.M).group(1)
        com = os.path.join(tmp, name + "_common.go")
        open(com, "w").write(open(os.path.join(V, "drivers", "common.go.txt")).read().replace("package PKG", "package " + name))
        repl[os.path.join(REPO, pkg, "zz_common_verif_test.go")] = com
        if any("vListen" in open(f).read() for f in repl.values()):
            fake = os.path.join(tmp, name + "_fake.go")
            open(fake, "w").write(open(os.path.join(V, "drivers", "fake.go.txt")).read().replace("package PKG", "package " + name))
            repl[os.path.join(REPO, pkg, "zz_fake_verif_test.go")] = fake
        # the package's own tests are replaced by nothing: they are not needed
        for f in os.listdir(os.path.join(REPO, pkg)):
            if f.endswith("_test.go"):
                repl[os.path.join(REPO, pkg, f)] = ""
        ov = os.path.join(tmp, name + "_overlay.json")
        json.dump({"Replace": repl}, open(ov, "w"))
        env = dict(ENV)
        env.update(GOFLAGS="-mod=readonly", VERIF_SEED=str(SEED), VERIF_BUDGET=str(conf.get("budget", 6) * (10 if TIER == "thorough" else 1)))
        args = ["go", "test", "-overlay", ov, "-vet=off", "-count=1", "-timeout", "600s" if TIER == "thorough" else "200s", "-run", "^TestVerif%s$" % ID]
        if conf.get("race"):
            args.append("-race")
        args += ["-v", "./" + pkg]
        procs.append((pkg, args, subprocess.Popen(args, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")))
    return procs


def main():
    build()
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % ID)
    try:
        return run(tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def known():
    out = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#") and not l.startswith("fixed:"):
                m = re.match(r"property=(\S+) match=(\S+) (.*)", l)
                if m and m.group(1) == ID:
                    out.append((m.group(2), m.group(3)))
    return out


def run(tmp):
    runs = prove(tmp)
    drivers = drive(tmp)
    log, broken = "", False
    funcs, solver, queries, lower = [], {}, {}, set()
    for pp, rep, cmd in runs:
        try:
            out, _ = pp.communicate(timeout=max(10, TIMEOUT - (time.time() - T0)))
        except subprocess.TimeoutExpired:
            pp.kill()
            out, _ = pp.communicate()
            out += "\ntime limit reached"
            broken = True
        log += out
        data = json.load(open(rep)) if os.path.exists(rep) else {}
        if not data.get("Funcs") or pp.returncode not in (0, 1):
            broken = True
        funcs += data.get("Funcs") or []
        lower |= set(data.get("Lower") or [])
        for src, dst in ((data.get("Solver"), solver), (data.get("Queries"), queries)):
            for k, n in (src or {}).items():
                dst[k] = round(dst.get(k, 0) + n, 2)
    cmd = " ; ".join(" ".join(c) for _, _, c in runs)
    dres, fails, cases, kinds = [], [], 0, 0
    for pkg, args, p in drivers:
        try:
            out, _ = p.communicate(timeout=700)
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
        f = [l for l in out.splitlines() if l.startswith("VERIFFAIL")]
        for m in re.finditer(r"VERIFCASES \S+ (\d+) (\d+)", out):
            cases += int(m.group(1))
            kinds += int(m.group(2))
        state = "passed"
        if f:
            state = "failed"
            fails += f
        elif p.returncode != 0:
            if "[build failed]" in out or "[setup failed]" in out:
                state = "did not build"
            elif "DATA RACE" in out:
                state = "failed"
                fails.append("VERIFFAIL data race reported by the race detector")
            elif "panic:" in out or "fatal error:" in out or "panic: test timed out" in out:
                state = "failed"
                m = re.search(r"^(panic: .*|fatal error: .*)$", out, re.M)
                fails.append("VERIFFAIL " + (m.group(1) if m else "crash"))
            else:
                state = "failed to run"
        dres.append({"package": pkg, "state": state, "cmd": " ".join(args), "output_tail": out[-3000:] if state != "passed" else ""})
    obl = sum(f["Obligations"] for f in funcs)
    dis = sum(f["Proved"] for f in funcs)
    bad = [o for f in funcs for o in (f.get("Failed") or [])]
    kf = known()
    hits = set()
    def listed(text):
        for m, what in kf:
            if m in text:
                hits.add(what)
                return True
        return False
    bad2 = [o for o in bad if not listed("%s:%s:%s" % (o["Func"], o["Kind"], o["Label"]))]
    fails2 = [f for f in fails if not listed(f.replace(" ", "_"))]
    viol = 0
    rc = 0
    lines = []
    if bad2 or fails2 or broken:
        rdir = os.path.join(V, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s.json" % ID)
        json.dump({"property": ID, "failed_obligations": bad2, "verifier_output": log[-20000:], "verifier_cmd": cmd,
                   "failing_inputs": fails2, "drivers": dres, "seed": SEED}, open(path, "w"), indent=1)
        for o in bad2[:20]:
            lines.append("  obligation not discharged: %s [%s] %s %s (%s)" % (o["Func"], o["Kind"], o["Label"], o["Pos"], o["Result"]))
        for f in fails2[:5]:
            lines.append("  " + f[:1500])
        if broken:
            lines.append("  verifier did not produce a result: " + log[-1500:])
        viol = 1
        rc = 1
        lines.append("VIOLATION property=%s replay=%s%s" % (ID, path, "" if fails2 else " no-failing-input-found"))
    for h in sorted(hits):
        lines.append("KNOWN-FINDING: property=%s %s" % (ID, h))
    by = {}
    kindsn = {}
    for f in funcs:
        for k, n in f["By"].items():
            by[k] = by.get(k, 0) + n
        for k, n in f["Kinds"].items():
            kindsn[k] = kindsn.get(k, 0) + n
    lower = sorted(lower)
    assumed = sorted({a for f in funcs for a in (f.get("Assumed") or [])})
    base = json.load(open(os.path.join(V, "drivers", "trusted.json")))
    ev = {
        "property": ID, "tier": TIER, "seed": SEED, "level": "proof",
        "coverage": {
            "obligations": obl, "discharged": dis, "checker_cmd": cmd,
            "trusted_base": base["always"] + assumed,
            "functions_under_contract": [{"function": f["Name"], "obligations": f["Obligations"], "discharged": f["Proved"], "loop_invariant_obligations": f["Invariants"], "paths": f["Paths"], "seconds": round(f["Time"], 2), "inlined": f.get("Inlined") or []} for f in funcs],
            "contracts_proved_by_the_checks_of_lower_layers": lower,
            "obligations_by_kind": kindsn, "obligations_by_back_end": by,
            "solver_seconds": solver, "solver_queries": queries,
            "replay_driver_bounded_not_proof": {"cases": cases, "distinct_shapes": kinds, "runs": dres},
        },
        "assumptions": base["always"] + base.get(ID, []) + assumed,
        "wall_s": round(time.time() - T0, 2), "violations": viol,
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", ID + ".json"), "w"), indent=1)
    print("%s: %d functions, %d/%d obligations discharged, driver cases %d, %.1fs" % (ID, len(funcs), dis, obl, cases, time.time() - T0))
    for l in lines:
        print(l)
    return rc


sys.exit(main())
