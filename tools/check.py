#!/usr/bin/env python3
"""Decide one property: symbolic execution of the real code (LLVM IR regenerated from /repo's
working tree) + SMT, with native replay of every counterexample.

usage: check.py PROPERTY [quick|thorough]      exit 0 held, 1 VIOLATION, 2 no answer
"""
import concurrent.futures as cf
import fcntl
import glob
import json
import os
import random
import re
import signal
import subprocess
import sys
import threading
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, COMMON_ASSUMPTIONS, TRUSTED  # noqa: E402

TGT = os.path.join(V, "target")
SYMX = os.path.join(V, "symx/target/release/symx")
FLAGS = "--cfg iota_mam_verif"
IRFLAGS = "--emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp -C relocation-model=static -Zshare-generics=no " + FLAGS


def env(target, flags):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable", RUSTC_BOOTSTRAP="1", CARGO_TARGET_DIR=target, RUSTFLAGS=flags, CARGO_NET_OFFLINE="true")
    for k in ("CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS"):
        e.pop(k, None)
    return e


def run(cmd, cwd, e, what):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print("ERROR: %s failed" % what)
        sys.exit(2)


def setup():
    run(["cargo", "build", "--release", "--offline"], V + "/symx", env(V + "/symx/target", ""), "building symx")


def build_ir(profile):
    """LLVM IR of iota_mam and of the harness crate; always regenerated."""
    tgt = TGT + "/ir-" + profile
    e = env(tgt, IRFLAGS)
    sub = "debug" if profile == "dev" else "release"
    for p in ("iota-mam", "mamh"):
        subprocess.run(["cargo", "clean", "--offline", "-p", p, "--profile", profile], cwd=V + "/harness", env=e,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for f in glob.glob(tgt + "/" + sub + "/deps/*.ll"):
        os.remove(f)
    run(["cargo", "build", "--offline", "--lib", "--profile", profile], V + "/harness", e, "building the IR")
    out = []
    for n in ("iota_mam", "mamh"):
        fs = glob.glob("%s/%s/deps/%s-*.ll" % (tgt, sub, n))
        if len(fs) != 1:
            print("ERROR: IR of %s not found (%s)" % (n, fs))
            sys.exit(2)
        out.append(fs[0])
    return out


def build_replay(profile, asan=False):
    tgt = TGT + "/replay" + ("-asan" if asan else "") + "-" + profile
    e = env(tgt, FLAGS + (" -Zsanitizer=address" if asan else ""))
    cmd = ["cargo", "build", "--offline", "--bin", "replay", "--profile", profile]
    sub = "debug" if profile == "dev" else "release"
    if asan:
        cmd += ["--target", "x86_64-unknown-linux-gnu"]
        sub = "x86_64-unknown-linux-gnu/" + sub
    for p in ("iota-mam", "mamh"):
        subprocess.run(["cargo", "clean", "--offline", "-p", p, "--profile", profile], cwd=V + "/harness", env=e,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    run(cmd, V + "/harness", e, "building the native replay")
    return tgt + "/" + sub + "/replay"


def jobname(j):
    return "%s(%s)%s" % (j["h"], ",".join(map(str, j["p"])), "" if j["profile"] == "dev" else "@" + j["profile"])


STOP = threading.Event()
ASAN_LOCK = threading.Lock()
ASAN = {}


def run_job(j, irs, bins, seed, logdir):
    out = "%s/%s.json" % (logdir, re.sub(r"[^A-Za-z0-9_.-]", "_", jobname(j)))
    cmd = [SYMX, "--harness", j["h"], "--out", out, "--timeout", str(j["t"]), "--one", str(j["one"]), "--solver", j["solver"]]
    for f in irs[j["profile"]]:
        cmd += ["--ll", f]
    for x in j["p"]:
        cmd += ["--param", str(x)]
    if j["validate"]:
        cmd += ["--validate", str(j["validate"]), "--validate-s", "3" if j["t"] <= 240 else "20"]
    if j["probe"]:
        cmd += ["--probe", "probe_layout"]
    if j["cross"]:
        cmd += ["--cross"]
    cmd += j["opts"]
    t0 = time.time()
    if STOP.is_set():
        return {"result": "skipped", "error": "not run: a violation was already confirmed", "job": j, "took": 0}
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True,
                         env=dict(os.environ, RUST_BACKTRACE="0"))
    rc, txt = None, ""
    while rc is None:
        try:
            txt, _ = p.communicate(timeout=1)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            if STOP.is_set() or time.time() - t0 > j["t"] + 60:
                os.killpg(p.pid, signal.SIGKILL)
                p.communicate()
                if STOP.is_set():
                    return {"result": "skipped", "error": "stopped: a violation was already confirmed", "job": j, "took": time.time() - t0}
                rc, txt = 124, "time limit"
    try:
        r = json.load(open(out))
    except Exception:
        r = {"result": "error", "error": "engine ended with %s: %s" % (rc, txt[-400:])}
    r["job"] = j
    r["took"] = time.time() - t0
    if r["result"] == "violation":
        confirm(r, bins, seed, logdir)
    return r


def confirm(r, bins, seed, tmp):
    """Replays a counterexample against the natively compiled code."""
    j, v = r["job"], r["violation"]
    for tr in range(j["replay_tries"] if v["uf"] else 2):
        rc, txt = native(bins[j["profile"]], j, v["inputs"], seed + tr, tmp)
        r["native"] = "exit %d: %s" % (rc, txt.strip()[-300:])
        if rc not in (0, 11):
            r["confirmed"] = True
            break
    else:
        with ASAN_LOCK:
            if j["profile"] not in ASAN:
                ASAN[j["profile"]] = build_replay(j["profile"], True)
        rc, txt = native(ASAN[j["profile"]], j, v["inputs"], seed, tmp, 200)
        if rc not in (0, 11):
            r["confirmed"] = True
            r["native"] = "asan, exit %d: %s" % (rc, " ".join(re.findall(r"(?:ERROR|SUMMARY).*", txt))[:300])
    if r.get("confirmed") and not any(x in vkey(r, v) for x in load_known(j["pid"])):
        STOP.set()


def vkey(r, v):
    return "%s/%s" % (jobname(r["job"]), v["msg"])


def native(binary, j, inputs, seed, tmp, t=60):
    f = "%s/in-%d-%d.txt" % (tmp, os.getpid(), random.getrandbits(48))
    with open(f, "w") as h:
        h.write(" ".join(map(str, inputs)))
    try:
        p = subprocess.run([binary, j["h"], f] + [str(x) for x in j["p"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=t, env=dict(os.environ, REPLAY_SEED=str(seed), ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1"))
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "time limit"
    finally:
        os.remove(f)


def main():
    pid = sys.argv[1]
    rest = [a for a in sys.argv[2:] if not a.startswith("-")]
    tier = rest[0] if rest else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    random.seed()
    t0 = time.time()
    spec = PROPS[pid]
    os.makedirs(TGT, exist_ok=True)
    lock = open(TGT + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    jobs = []
    for js in spec["jobs"]:
        ps = js["quick"] if tier == "quick" else js.get("thorough", js["quick"])
        for p in ps:
            p = p if isinstance(p, tuple) else (p,)
            j = dict(pid=pid, h=js["h"], p=list(p), profile=js.get("profile", "dev"), t=js.get("t", 240 if tier == "quick" else 600), one=js.get("one", 120),
                     solver=js.get("solver", "z3-new -in"), validate=js.get("validate", 3000), probe=js.get("probe", True),
                     opts=js.get("opts", []), covers=js.get("covers", [1]), cross=tier == "thorough" and js.get("cross", True),
                     replay_tries=js.get("tries", 6), cost=js.get("cost", 1), anycover=js.get("anycover", []))
            jobs.append(j)
    setup()
    irs = {}
    profiles = sorted(set(j["profile"] for j in jobs))
    for p in profiles:
        irs[p] = build_ir(p)
    bins = {p: build_replay(p) for p in profiles}
    fcntl.flock(lock, fcntl.LOCK_UN)
    tmp = TGT + "/run-%s-%d" % (pid, os.getpid())
    os.makedirs(tmp, exist_ok=True)
    jobs.sort(key=lambda j: -j["cost"])
    print("%s (%s): %d symbolic runs; build %.1f s" % (pid, tier, len(jobs), time.time() - t0))
    results = []
    with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        for r in ex.map(lambda j: run_job(j, irs, bins, seed, tmp), jobs):
            results.append(r)
    known = load_known(pid)
    viol, errors, validated, nat_fail = [], [], 0, 0
    for r in results:
        j = r["job"]
        line = "  %-40s %-9s paths %s asserts %s (solver %s, rewritten %s) queries %s  %.1f s" % (
            jobname(j), r["result"], r.get("paths"), r.get("asserts"), r.get("asserts_smt"), r.get("asserts_simplified"), r.get("queries"), r["took"])
        print(line)
        if r["result"] == "violation":
            v = r["violation"]
            print("    counterexample: %s %s" % (v["kind"], v["msg"]))
            last = r["native"]
            if r.get("confirmed"):
                print("    native replay confirms: %s" % last)
                viol.append((r, v, last))
            else:
                errors.append("%s: counterexample does not reproduce natively (%s %s; %s)" % (jobname(j), v["kind"], v["msg"], last))
        elif r["result"] == "skipped":
            continue
        elif r["result"] != "ok":
            errors.append("%s: %s" % (jobname(j), r.get("error")))
        else:
            got = {c[0] for c in r["covers"]}
            miss = [c for c in j["covers"] if c not in got]
            if miss:
                errors.append("%s: vacuous, reachability witnesses %s not reached" % (jobname(j), miss))
        # sampled symbolic paths, run natively: the real code must agree
        for s in r.get("samples", [])[:3]:
            rc, txt = native(bins[j["profile"]], j, s, seed, tmp)
            if rc == 0:
                validated += 1
            elif rc not in (11, 124) and r["result"] == "ok":
                viol.append((r, {"kind": "native", "msg": "the real code fails on a sampled path", "inputs": s, "uf": False, "trace": []},
                             "exit %d: %s" % (rc, txt.strip()[-300:])))
    # coverage witnesses required over all runs of a harness
    for h in {j["h"] for j in jobs}:
        want = set()
        got = set()
        for r in results:
            if r["job"]["h"] == h:
                want |= set(r["job"]["anycover"])
                got |= {c[0] for c in r.get("covers", [])}
        if want - got and not viol:
            errors.append("%s: vacuous, witnesses %s not reached by any run" % (h, sorted(want - got)))
    rc = 0
    newviol = 0
    outdir = os.environ.get("VERIF_EVIDENCE", V + "/evidence")
    os.makedirs(outdir + "/replay", exist_ok=True)
    for k, (r, v, last) in enumerate(viol):
        j = r["job"]
        key = vkey(r, v)
        hit = [x for x in known if x in key]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, hit[0]))
            continue
        newviol += 1
        path = "%s/replay/%s-%d.json" % (outdir, pid, k)
        with open(path, "w") as f:
            json.dump(dict(property=pid, harness=j["h"], params=j["p"], kind=v["kind"], message=v["msg"], inputs=v["inputs"], trace=v["trace"], native=last,
                           how="tools/replay.sh %s" % path), f)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    if errors:
        for e in errors:
            print("ERROR: " + e)
        if rc == 0:
            rc = 2
    fns = sorted({f for r in results for f in r.get("functions", []) if "iota_mam" in f})
    tot = lambda k: sum(r.get(k, 0) for r in results)
    ok = [r for r in results if r["result"] == "ok"]
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("instrs"),
            "traces_validated_against_impl": validated,
            "samples": [{"run": jobname(r["job"]), "inputs": s[:60]} for r in results for s in r.get("samples", [])[:1]][:12],
            "explanation": "states: symbolic paths completed; transitions: LLVM instructions executed symbolically; "
                           "traces_validated: solver-chosen inputs of sampled paths re-run through the natively compiled code.",
            "symbolic_runs": [{"run": jobname(r["job"]), "result": r["result"], "paths": r.get("paths"), "dead_paths": r.get("dead"), "merges": r.get("merges", 0) + r.get("quick_merges", 0),
                               "assertions": r.get("asserts"), "by_rewriting": r.get("asserts_simplified"), "by_solver": r.get("asserts_smt"), "queries": r.get("queries"),
                               "solver_s": r.get("solver_s"), "uf_applications": r.get("uf_apps"), "wall_s": round(r["took"], 2)} for r in results],
            "obligations": tot("asserts"),
            "discharged": sum(r.get("asserts", 0) for r in ok),
            "queries": tot("queries"),
            "unsat": tot("unsat"),
            "sat": tot("sat"),
            "cross_checked_by_second_solver": tot("crosschecked"),
            "solver_s": round(tot("solver_s"), 3),
            "rewrite_templates": tot("templates"),
            "rewrite_templates_proved_by_solver": tot("validated"),
            "rewrite_templates_not_attempted": tot("validate_skipped") + tot("validate_unknown"),
            "functions_encoded": fns,
            "bounds": spec["bounds"] if isinstance(spec["bounds"], str) else spec["bounds"][tier],
            "outside_bounds": spec.get("outside", ""),
            "checker_cmd": "python3 tools/check.py %s %s" % (pid, tier),
            "trusted_base": TRUSTED,
        },
        "assumptions": COMMON_ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": newviol,
    }
    with open("%s/%s.json" % (outdir, pid), "w") as f:
        json.dump(ev, f, indent=1)
    subprocess.run(["rm", "-r", tmp])
    print("%s: %s in %.1f s" % (pid, {0: "held", 1: "VIOLATED", 2: "no answer"}[rc], time.time() - t0))
    sys.exit(rc)


def load_known(pid):
    out = []
    try:
        for l in open(V + "/known_findings.txt"):
            m = re.match(r"known: property=(\S+) key=(.*)$", l.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    except FileNotFoundError:
        pass
    return out


if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        setup()
        sys.exit(0)
    main()
