#!/usr/bin/env python3
"""check.py <property id>: decide one property of /repo by static analysis.

Builds the analyser (if needed) and the obligation crate /verif/harness against /repo's current
source, analyses the MIR of every obligation of the property in every configuration, writes
evidence/<id>.json and replay/<id>.json, and exits 0 or 1 (with a VIOLATION line)."""
import json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
import plan

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def toolchain():
    r = sh(["rustc", "+nightly", "--print", "sysroot"])
    return r.stdout.strip().splitlines()[-1]

def build_analyzer():
    exe = os.path.join(V, "analyzer/target/release/pm2-analyzer")
    r = sh(["cargo", "+nightly", "build", "--release", "--offline"], cwd=os.path.join(V, "analyzer"))
    if r.returncode != 0 or not os.path.exists(exe):
        print(r.stdout[-4000:]); print("the analyser does not build"); sys.exit(2)
    return exe

def run_config(exe, sysroot, pid, cfg, deadline, seconds):
    """Analyse the obligations of one configuration; returns (json, log)."""
    tdir = os.path.join(V, "target", "%s-%s-%d" % (pid, cfg["name"], os.getpid()))
    shutil.rmtree(tdir, ignore_errors=True)
    os.makedirs(tdir)
    out = os.path.join(tdir, "out.json")
    env = dict(os.environ)
    flags = "-Zalways-encode-mir -Zmir-opt-level=0 -Zub-checks=no " + cfg.get("flags", "")
    for k in ("RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_BOOTSTRAP"): env.pop(k, None)
    env.update(CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=tdir, LD_LIBRARY_PATH=sysroot + "/lib", RUSTFLAGS=flags.strip(),
               RUSTC_WORKSPACE_WRAPPER=exe, PM2_ANALYZE="1", PM2_OBLIGATIONS=",".join(cfg["obligations"]), PM2_OUT=out,
               PM2_SECONDS=str(seconds), PM2_DEADLINE=str(max(5, int(deadline - time.time()))), PM2_WORKERS="8", TMPDIR=tdir,
               CARGO_TERM_COLOR="never")
    try:
        r = sh(["cargo", "+nightly", "check", "--offline", "--no-default-features", "--features", cfg["features"]], cwd=os.path.join(V, "harness"), env=env,
               timeout=max(30, deadline - time.time() + 60))
        log = r.stdout
    except subprocess.TimeoutExpired as e:
        log = "timeout"
    try: d = json.load(open(out))
    except Exception: d = None
    shutil.rmtree(tdir, ignore_errors=True)
    return d, log

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = plan.PLAN[pid]
    t0 = time.time()
    exe = build_analyzer()
    sysroot = toolchain()
    total = 700 if tier == "quick" else 850
    deadline = time.time() + total
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(V, "replay"), exist_ok=True)
    obls, viol, covered, errors, samples, unknown = [], [], set(), [], [], []
    for cfg in P["configs"]:
        if cfg.get("tier") == "thorough" and tier == "quick": continue
        cfg = dict(cfg)
        if tier == "quick": cfg["obligations"] = [o for o in cfg["obligations"]]
        secs = cfg.get("seconds", 120) if tier == "quick" else cfg.get("seconds_thorough", 300)
        d, log = run_config(exe, sysroot, pid, cfg, deadline, secs)
        if d is None:
            tail = "\n".join(l for l in log.splitlines() if l.strip())[-1500:]
            if not re.search(r"could not compile `(pm2-harness|proc-macro2)`", log) or "error[E" not in log:
                # the analyser itself gave up (time, memory, internal error): nothing is decided
                errors.append("no result in configuration %s: %s" % (cfg["name"], tail[-300:]))
                unknown.append("%s: no result" % cfg["name"])
                continue
            viol.append(dict(config=cfg["name"], obligation="(build)", kind="error", msg="the obligations no longer build against /repo: a public item they name is missing or has another type", inputs=[], trace=[tail]))
            continue
        names = set(o["name"] for o in d["obligations"])
        for want in cfg["obligations"]:
            if not any(n.startswith(want) for n in names): errors.append("no obligation %s in %s" % (want, cfg["name"]))
        for o in d["obligations"]:
            o["config"] = cfg["name"]
            obls.append(o)
            covered.update(o["covered"])
            samples += ["%s: %s" % (o["name"], s) for s in o["samples"][:2] if s]
            for u in o["unknown"]: unknown.append("%s/%s: %s" % (cfg["name"], o["name"], u))
            for e in o["ends"]:
                if e["kind"] in ("fail", "panic") and not e["weak"]:
                    viol.append(dict(config=cfg["name"], obligation=o["name"], kind=e["kind"], msg=e["msg"], inputs=e["inputs"], trace=e["trace"]))
    floor = P.get("floor", 1)
    anchors = P.get("anchors", [])
    missing = [a for a in anchors if not any(re.search(a, c) for c in covered)]
    tot = lambda k: sum(o[k] for o in obls)
    done = [o for o in obls if o["fails"] == 0 and not o["truncated"] and o["unknown_total"] == 0 and o["weak"] == 0 and o["returns"] > 0]
    known = []
    kf = os.path.join(V, "known_findings.json")
    if os.path.exists(kf): known = [k for k in json.load(open(kf)) if k.get("property") == pid and k.get("status") == "known"]
    real = []
    for v in viol:
        if any(k["obligation"] == v["obligation"] and k["msg"] == v["msg"] for k in known): continue
        real.append(v)
    for k in known:
        if any(k["obligation"] == v["obligation"] and k["msg"] == v["msg"] for v in viol): print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    cov = dict(explanation=P["rule"], obligations=len(obls), obligations_decided=len(done), abstract_paths=tot("paths"), assertions_decided=tot("checks"),
               mir_steps=tot("steps"), undecided_paths=tot("unknown_total") + tot("weak"), functions_analysed=len(covered), functions=sorted(covered)[:200],
               configurations=[c["name"] for c in P["configs"]], samples=samples[:12], undecided=unknown[:20], truncated=[o["name"] for o in obls if o["truncated"]],
               anchors_not_reached=missing, per_obligation=[dict(name=o["name"], config=o["config"], paths=o["paths"], checks=o["checks"], undecided=o["unknown_total"], seconds=o["seconds"]) for o in obls])
    if P["level"] == "proof":
        cov["discharged"] = len(done)
        cov["checker_cmd"] = "python3 check.py %s" % pid
        cov["trusted_base"] = plan.TRUSTED
    ev = dict(property=pid, tier=tier, seed=seed, level=P["level"], coverage=cov, assumptions=P.get("assumptions", plan.ASSUME), wall_s=round(time.time() - t0, 2), violations=len(real))
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1, ensure_ascii=False)
    print("%s: %d obligations (%d fully decided), %d abstract paths, %d assertions, %d undecided paths, %d functions of the crate analysed, %.1fs" % (pid, len(obls), len(done), tot("paths"), tot("checks"), cov["undecided_paths"], len(covered), time.time() - t0))
    for e in errors: print("note:", e)
    if tot("checks") < floor and not real:
        # fewer assertions than confirmed by hand: the analysis lost its subject
        print("note: only %d assertions were decided, %d expected" % (tot("checks"), floor))
    if unknown: print("note: undecided: " + "; ".join(unknown[:3]))
    if real:
        rp = os.path.join(V, "replay", pid + ".json")
        json.dump(real[:200], open(rp, "w"), indent=1, ensure_ascii=False)
        seen = set()
        for v in real:
            key = (v["obligation"], v["msg"])
            if key in seen: continue
            seen.add(key)
            if len(seen) > 8: break
            fn = [t for t in v["trace"] if not t.startswith("@")]
            print("  %s [%s] %s: %s\n     for %s\n     last functions: %s" % (v["obligation"], v["config"], v["kind"], v["msg"], "; ".join(v["inputs"])[:600], " > ".join(fn[-4:])[:900]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    sys.exit(0)

if __name__ == "__main__": main()
