#!/usr/bin/env python3
"""Runs the checks of one property.

    check.py PROPERTY [--tier quick|thorough] [--only ENTRY] [--keep]

1. builds the symbolic executor (engine/), the harness crate's LLVM IR (which contains /repo's
   current sources, dependencies and std) and two native replay binaries of the same harnesses;
2. runs the executor on every entry point of the property: path conditions, feasibility of branches
   and assertions are decided by z3 over all values within the bounds;
3. replays every counterexample against the natively compiled code (debug and release profile);
   only what reproduces is reported;
4. replays sampled path models natively and compares the observed values with the executor's;
5. rewrites evidence/<PROPERTY>.json.

Exit 0: held on everything explored.  1: VIOLATION lines.  2: the check itself failed.
"""
import sys, os, json, subprocess, time, threading, shutil, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from registry import CHECKS, COMMON_ASSUMPTIONS

def log(*a): print(*a, file=sys.stderr, flush=True)
def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)

def env(**kw):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTFLAGS="", CARGO_INCREMENTAL="0")
    e.pop("CARGO_BUILD_TARGET", None)
    e.update(kw)
    return e

def sh(cmd, cwd, tgt, out, timeout=600):
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env(CARGO_TARGET_DIR=tgt), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out["rc"], out["log"] = p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        out["rc"], out["log"] = 124, "timeout"
    out["s"] = time.time() - t

class Builds:
    def __init__(self, work, group, nodefault=False, crate="harness"):
        self.w, self.g = work, group
        nd = ["--no-default-features"] if nodefault else []
        self.r = {k: {} for k in ("engine", "ir", "rdev", "rrel")}
        e, h = os.path.join(HERE, "engine"), os.path.join(HERE, crate)
        jobs = [
            ("engine", ["cargo", "build", "--release", "--offline", "-q"], e),
            ("ir", ["cargo", "rustc", "--offline", "-q", "--lib", "--crate-type", "cdylib", *nd, "--features", group, "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], h),
            ("rdev", ["cargo", "build", "--offline", "-q", "--bin", "replay", "--profile", "rdev", *nd, "--features", group + ",replay"], h),
            ("rrel", ["cargo", "build", "--offline", "-q", "--bin", "replay", "--profile", "rrel", *nd, "--features", group + ",replay"], h),
        ]
        self.th = {}
        for k, cmd, cwd in jobs:
            t = threading.Thread(target=sh, args=(cmd, cwd, os.path.join(work, "t-" + k), self.r[k]))
            t.start()
            self.th[k] = t
    def need(self, k):
        self.th[k].join()
        if self.r[k].get("rc") != 0:
            log(self.r[k].get("log", "")[-4000:])
            die("build of %s failed" % k)
        d = os.path.join(self.w, "t-" + k)
        if k == "engine": return os.path.join(d, "release", "symx")
        if k == "ir": return os.path.join(d, "debug", "deps", "harness.ll")
        return os.path.join(d, k, "replay")

def replay(binary, entry, inputs, timeout=60):
    try:
        p = subprocess.run([binary, entry, ",".join(inputs)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
        lines = p.stdout.decode(errors="replace").split("\n")
        rc = p.returncode
    except subprocess.TimeoutExpired:
        lines, rc = [], "timeout"
    r = {"rc": rc, "obs": [], "end": None}
    for l in lines:
        if l.startswith("OBS "): r["obs"].append(l[4:])
        elif l.startswith(("ASSERT_FAIL", "PANIC ", "ASSUME_FAIL", "FINDING", "END", "NO_SUCH")): r["end"] = r["end"] or l.strip()
        elif l.startswith("PANIC_OK"): r["panic_ok"] = True
    if rc == "timeout": r["end"] = "HANG"
    elif r["end"] is None: r["end"] = "SIGNAL %s" % rc if rc != 0 else "NOTHING"
    return r

def main():
    pid = sys.argv[1]
    a = sys.argv[2:]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    only = a[a.index("--only") + 1] if "--only" in a else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[pid]
    t0 = time.time()
    work = os.path.join(HERE, "work", pid)
    os.makedirs(work, exist_ok=True)
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    rdir = os.path.join(ev, "replays")
    os.makedirs(rdir, exist_ok=True)
    b = Builds(work, c["group"], c.get("nodefault"), c.get("crate", "harness"))
    symx, ll = b.need("engine"), b.need("ir")
    build_s = time.time() - t0
    entries = [e for e in c["entries"] if (tier == "thorough" and e.get("tier") != "quick") or (tier == "quick" and e.get("tier") != "thorough")]
    if only: entries = [e for e in c["entries"] if e["entry"] == only]
    res, problems, failed = [], [], []
    hard = 780 if tier == "quick" else 6 * 3600
    def relevant(v):
        if v["kind"] != "assert": return not c.get("only_asserts")
        return not c.get("only_panics") and not (c.get("asserts") and v["id"] not in c["asserts"])
    confirmed = {}
    def confirm(r, v):
        """Replays a counterexample in the natively compiled code, debug and release."""
        key = (r["entry"], json.dumps(v, sort_keys=True))
        if key in confirmed: return confirmed[key]
        conf = None
        for prof, k in (("debug", "rdev"), ("release", "rrel")):
            q = replay(b.need(k), r["entry"], v["inputs"], 60)
            if v["kind"] == "assert": ok = q["end"].startswith(("ASSERT_FAIL", "PANIC "))
            elif v["kind"] in ("hang", "stack"): ok = q["end"] == "HANG" or q["end"].startswith(("SIGNAL", "PANIC "))
            else: ok = q["end"].startswith(("PANIC ", "SIGNAL", "HANG", "ASSERT_FAIL"))
            if ok:
                conf = (prof, q["end"])
                break
        confirmed[key] = conf
        return conf
    for e in entries:
        left = hard - (time.time() - t0)
        if left < 5:
            problems.append("%s: not run, time budget used up" % e["entry"])
            continue
        secs = int(min(e.get("time", 120) if tier == "quick" else e.get("ttime", e.get("time", 120) * 4), left))
        out = os.path.join(work, e["entry"] + ".json")
        if os.path.exists(out): os.remove(out)
        cmd = [symx, ll, "--entry", e["entry"], "--jobs", str(e.get("jobs", os.cpu_count() or 8)), "--time", str(secs), "--out", out, "--workdir", work, "--seed", str(seed),
               "--rlimit", str(e.get("rlimit", 20000000)), "--ext", str(e.get("ext", 30)), "--cross", "400" if tier == "thorough" else "0", "--max-samples", str(e.get("samples", 8))]
        if e.get("lazy"): cmd.append("--lazy")
        if "max_steps" in e: cmd += ["--max-steps", str(e["max_steps"])]
        for attempt in (0, 1):
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs + 120)
                rc, lg = p.returncode, p.stdout.decode(errors="replace")
            except subprocess.TimeoutExpired:
                rc, lg = 124, "timeout"
            if (rc == 0 and os.path.exists(out)) or rc == 124 or hard - (time.time() - t0) < secs: break
            cmd[cmd.index("--seed") + 1] = str(seed + 1)
        if rc != 0 or not os.path.exists(out):
            failed.append("executor failed on %s (rc %s): %s" % (e["entry"], rc, lg[-600:]))
            log(failed[-1])
            continue
        r = json.load(open(out))[0]
        r["cfg"] = e
        res.append(r)
        log("%s %s: paths %d, queries %d, %.1fs, violations %d, incomplete %d, errors %s" % (pid, e["entry"], r["paths"], r["queries"], r["wall_s"], len(r["violations"]), r["incomplete"], dict(list(r["errors"].items())[:4])))
        if time.time() - t0 > 180 and tier == "quick" and any(relevant(v) and confirm(r, v) for v in r["violations"][:2]):
            skipped = [x["entry"] for x in entries[entries.index(e) + 1:]]
            if skipped: problems.append("not run after the violation: " + ", ".join(skipped))
            break
    rdev = b.need("rdev")
    # --- violations
    vio, unconfirmed, known = [], [], []
    for r in res:
        for v in r["violations"]:
            if not relevant(v): continue
            if vio and time.time() - t0 > hard: continue
            conf = confirm(r, v)
            if conf is None:
                unconfirmed.append("%s: %s id=%s %s inputs=%s" % (r["entry"], v["kind"], v["id"], v["loc"], ",".join(v["inputs"])))
                continue
            body = {"property": pid, "entry": r["entry"], "what": e_text(CHECKS[r["cfg"].get("of", pid)], v), "violation": v, "reproduced": {"profile": conf[0], "outcome": conf[1]},
                    "inputs": v["inputs"], "command": "cd %s/%s && RUSTUP_TOOLCHAIN=stable cargo run --offline --profile %s --bin replay %s--features %s,replay -- %s %s" % (HERE, c.get("crate", "harness"), "rdev" if conf[0] == "debug" else "rrel", "--no-default-features " if c.get("nodefault") else "", c["group"], r["entry"], ",".join(v["inputs"]))}
            h = hashlib.sha1(json.dumps([r["entry"], v["kind"], v["id"], v["loc"]]).encode()).hexdigest()[:8]
            path = os.path.join(rdir, "%s-%s.json" % (pid, h))
            json.dump(body, open(path, "w"), indent=1)
            vio.append((path, body))
        for f in r["findings"]:
            q = replay(rdev, r["entry"], f["inputs"], 60)
            if not q["end"].startswith("FINDING"): unconfirmed.append("known finding %s of %s does not replay: %s" % (f["id"], r["entry"], q["end"]))
            known.append((f["id"], r["entry"]))
    # --- path models against the native build
    valid, bad = 0, []
    samples = []
    if not vio:
        for r in res:
            for s in r["samples"]:
                if s["end"] not in ("done", "panic-ok", "killed"): continue
                q = replay(rdev, r["entry"], s["inputs"], 60)
                want = {"done": "END", "panic-ok": "PANIC", "killed": "ASSUME_FAIL"}[s["end"]]
                if s["end"] == "killed": continue
                if not q["end"].startswith(want) or (q["obs"] != s["obs"] and not r["cfg"].get("noobs")):
                    bad.append("%s inputs=%s: executor %s %s, native %s %s" % (r["entry"], ",".join(s["inputs"]), s["end"], s["obs"], q["end"], q["obs"]))
                else:
                    valid += 1
                    if len(samples) < 40: samples.append({"entry": r["entry"], "inputs": s["inputs"], "obs": s["obs"], "end": s["end"]})
    # --- vacuity
    vac = []
    for r in res:
        if r["cfg"].get("cover") and not any(v["kind"] for v in r["violations"]):
            for cv in r["cfg"]["cover"]:
                if not r["covers"].get(str(cv)): vac.append("%s: cover point %d never reached" % (r["entry"], cv))
    tot = lambda k: sum(r[k] for r in res)
    fn = sorted({f for r in res for f in r["functions"] if "prexel" in f or "carray" in f or "Circular" in f or "server" in f or any("harness::" + m in f for m in ("repl", "services", "models", "collections", "writer", "EvalExpr"))})
    inc = []
    for r in res:
        if r["incomplete"] or r["errors"]: inc.append("%s: %d path(s) not explored: %s" % (r["entry"], r["incomplete"] + sum(r["errors"].values()), "; ".join("%s (%d)" % (k[:160], n) for k, n in sorted(r["errors"].items(), key=lambda x: -x[1])[:4])))
    evd = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("forks"), "traces_validated_against_impl": valid, "samples": samples or [{"entry": r["entry"], "inputs": v["inputs"]} for r in res for v in r["violations"]][:20] or ["none"],
            "explanation": "states = symbolic paths executed to their end; transitions = two-way branch splits decided feasible by the solver",
            "exhaustive_within_bounds": not inc and not problems and not failed,
            "harnesses": [{"entry": r["entry"], "bounds": r["cfg"]["bounds"], "paths": r["paths"], "infeasible_or_assumed_away": r["killed"], "instructions": r["instrs"], "assertions_checked": r["asserts"], "assertions_decided_without_solver": r["asserts_const"], "queries": r["queries"], "sat": r["sat"], "unsat": r["unsat"], "unknown": r["unknown"], "query_cache_hits": r["cache_hits"], "branches_followed_both_ways_undecided": r["unsure"], "solver_s": r["solver_s"], "wall_s": r["wall_s"], "paths_not_explored": r["incomplete"], "reached": r["covers"]} for r in res],
            "queries": tot("queries"), "solver_s": round(tot("solver_s"), 2), "second_solver_checked": tot("cross"), "second_solver_disagreements": tot("cross_bad"),
            "functions_encoded": fn, "functions_encoded_total": len({f for r in res for f in r["functions"]}),
            "outside_the_claim": c.get("outside", ""), "not_explored": inc + problems + failed, "build_s": round(build_s, 1),
            "unconfirmed_counterexamples": unconfirmed, "known_findings_seen": sorted({str(k) for k in known}),
        },
        "assumptions": COMMON_ASSUMPTIONS + c.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(vio),
    }
    json.dump(evd, open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    for k in sorted(set(known)):
        txt = c.get("findings", {}).get(k[0], "finding %s" % k[0])
        print("KNOWN-FINDING: property=%s %s" % (pid, txt), flush=True)
    for p, body in vio:
        print("%s: %s; inputs %s; %s (%s build)" % (body["entry"], body["what"], ",".join(body["inputs"]), body["reproduced"]["outcome"], body["reproduced"]["profile"]), flush=True)
        print("VIOLATION property=%s replay=%s" % (pid, p), flush=True)
    if vio: sys.exit(1)
    for x in inc + problems: print("note: " + x)
    if failed: die(failed[0])
    if unconfirmed: die("counterexample does not reproduce natively: " + unconfirmed[0])
    if bad: die("%d sampled path(s) differ from the native build: %s" % (len(bad), bad[0]))
    if tot("cross_bad"): die("solvers disagree")
    if vac: die("vacuous: " + "; ".join(vac))
    print("OK property=%s tier=%s paths=%d queries=%d validated=%d wall=%.1fs%s" % (pid, tier, tot("paths"), tot("queries"), valid, time.time() - t0, "" if not inc and not problems else " (incomplete exploration, see evidence)"))

def e_text(c, v):
    if v["kind"] == "assert": return c.get("texts", {}).get(v["id"], "assertion %s" % v["id"])
    return "%s at %s" % (v["kind"], v["loc"])

main()
