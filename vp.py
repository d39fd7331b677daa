#!/usr/bin/env python3
"""Driver of the checks.

  vp.py setup                    build the symbolic executor
  vp.py check ID [quick|thorough]  decide one property on /repo's working tree
  vp.py selftest                 compare the executor with native runs on code of its own

Exit status of a check: 0 the property held on everything explored, 1 a violation was found and
reproduced natively, 2 no answer (build failure, time limit, unsupported code, or a counterexample
that the native run does not confirm).
"""
import sys

sys.dont_write_bytecode = True
import hashlib, json, os, re, shutil, subprocess, threading, traceback, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
ENGINE = os.path.join(VERIF, "engine")
SYMEX = os.path.join(ENGINE, "target", "release", "symex")
HARNESS = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
LIMIT = {"quick": 700, "thorough": 3000}

sys.path.insert(0, VERIF)
import jobs as J


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        e.pop(k, None)
    return e


class NoAnswer(Exception):
    pass


def sh(cmd, cwd, timeout):
    p = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")


def build_engine():
    rc, out = sh(["cargo", "build", "--release", "--offline"], ENGINE, 1500)
    if rc != 0:
        raise NoAnswer("engine does not build:\n" + out[-3000:])


def tree_hash():
    """Content hash of everything the harness is built from."""
    h = hashlib.sha256()
    roots = [REPO, HARNESS]
    for root in roots:
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in (".git", "target"))
            for f in sorted(files):
                p = os.path.join(d, f)
                if os.path.islink(p) or not os.path.isfile(p):
                    continue
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def fresh(target, th):
    """Forget compiled forms of whasm and the harness made from other sources (the time stamps that
    cargo goes by are not reliable across copies of the sandbox)."""
    stamp = os.path.join(target, "tree")
    try:
        if open(stamp).read() == th:
            return
    except OSError:
        pass
    for prof in ("release", "replay", "debug"):
        for sub in (".fingerprint", "deps", "incremental", "build"):
            d = os.path.join(target, prof, sub)
            if os.path.isdir(d):
                for n in os.listdir(d):
                    if re.match(r"(lib)?(vh|whasm|parser|vpcli|tool|replay)[-.]", n):
                        p = os.path.join(d, n)
                        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    os.makedirs(target, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(th)


def copy_cli():
    """The tool's sources as a crate whose main can be called by the harness."""
    d = os.path.join(BUILD, "cli")
    if os.path.isdir(d):
        shutil.rmtree(d)
    shutil.copytree(os.path.join(REPO, "parser", "src"), d)
    main = open(os.path.join(d, "main.rs")).read()
    with open(os.path.join(d, "tool.rs"), "w") as f:
        f.write(main)
    with open(os.path.join(d, "main.rs"), "w") as f:
        f.write(main + """
#[allow(missing_docs, unreachable_pub, clippy::all)]
pub extern "C" fn vp_main() -> u64 {
    let c = ::std::process::Termination::report(main());
    let _ = ::std::io::Write::flush(&mut ::std::io::stdout());
    (c != ::std::process::ExitCode::SUCCESS) as u64
}
""")
    if not os.path.exists(os.path.join(d, "lib.rs")):
        open(os.path.join(d, "lib.rs"), "w").close()


def build(prop):
    """Compiles harness and whasm to LLVM IR, and to the native replay program."""
    feat = prop.lower()
    th = tree_hash()
    res = {}
    if prop == "C19":
        copy_cli()

    def ir():
        t = os.path.join(BUILD, "ir")
        fresh(t, th)
        ll = os.path.join(t, "release", "deps", "vh.ll")
        if os.path.exists(ll):
            os.unlink(ll)
        # cargo would not run rustc again for an unchanged crate whose output we removed
        for n in os.listdir(os.path.join(t, "release", ".fingerprint")) if os.path.isdir(os.path.join(t, "release", ".fingerprint")) else []:
            if n.startswith("vh-"):
                shutil.rmtree(os.path.join(t, "release", ".fingerprint", n))
        rc, out = sh(["cargo", "rustc", "--offline", "--locked", "--release", "--lib", "--crate-type", "cdylib", "--features", feat,
                      "--target-dir", t, "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], HARNESS, 600)
        if rc != 0 or not os.path.exists(ll):
            res["err"] = "harness does not compile:\n" + out[-4000:]
            return
        res["ll"] = ll

    def native():
        t = os.path.join(BUILD, "native")
        fresh(t, th)
        rc, out = sh(["cargo", "build", "--offline", "--locked", "--profile", "replay", "--bin", "replay", "--features", "native," + feat,
                      "--target-dir", t], HARNESS, 600)
        if rc == 0 and prop == "C19":
            rc, out = sh(["cargo", "build", "--offline", "--locked", "--profile", "replay", "-p", "vpcli", "--bin", "tool", "--target-dir", t], HARNESS, 600)
        if rc != 0:
            res["err"] = "replay program does not compile:\n" + out[-4000:]
            return
        res["replay"] = os.path.join(t, "replay", "replay")

    ts = [threading.Thread(target=f) for f in (ir, native)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if "err" in res:
        raise NoAnswer(res["err"])
    res["tree"] = th
    return res


def replay(exe, entry, model, args, timeout=60):
    """Runs the native harness. Returns (kind, detail, observations)."""
    cmd = [exe, entry, "x" + model] + [str(a) for a in args]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd="/")
    except subprocess.TimeoutExpired:
        return "hang", "no result after %d s" % timeout, []
    out = p.stdout.decode("utf8", "replace")
    obs = [int(l[4:], 16) for l in out.split("\n") if l.startswith("OBS ")]
    err = p.stderr.decode("utf8", "replace").strip()
    last = out.strip().split("\n")[-1] if out.strip() else ""
    if p.returncode == 0 and last == "DONE":
        return "ok", "", obs
    if p.returncode == 1 and last.startswith("FAIL "):
        return "fail", last[5:], obs
    if p.returncode == 77:
        return "assume", "", obs
    if p.returncode == 78:
        return "alloc", last, obs
    return "crash", "status %d %s" % (p.returncode, err[:300].replace("\n", " | ")), obs


def known_findings(prop):
    """Lines 'known: property=ID key=KEY text' of the known-findings file."""
    res = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3).strip()))
    except OSError:
        pass
    return res


def demangle(n):
    n = re.sub(r"^_R[A-Za-z]*", "", n)
    parts = re.findall(r"(\d+)_?([A-Za-z_][A-Za-z0-9_]*)", n)
    out = []
    for k, s in parts:
        k = int(k)
        if 0 < k <= len(s):
            out.append(s[:k])
    return "::".join(out)[:160] or n[:160]


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = J.SELF if prop == "ST" else J.PROPS[prop]
    build_engine()
    b = build(prop)
    t_build = time.time() - t0
    jobs = spec["quick"] + (spec.get("thorough", []) if tier == "thorough" else [])
    if tier == "thorough" and "thorough_only" in spec:
        jobs = spec["thorough_only"]
    out = os.path.join(BUILD, "symex-%s.json" % prop)
    if os.path.exists(out):
        os.unlink(out)
    left = int(LIMIT[tier] - (time.time() - t0))
    cmd = [SYMEX, "--ll", b["ll"], "--out", out, "--threads", str(os.cpu_count() or 8), "--secs", str(max(60, left)), "--seed", str(seed), "--samples", "24", "--first"]
    for k, v in spec.get("opts", {}).items():
        cmd += ["--" + k, str(v)]
    for j in jobs:
        cmd.append("%s:%s" % (j[0], ",".join(str(x) for x in j[1])))
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=left + 60)
    if p.returncode != 0 or not os.path.exists(out):
        raise NoAnswer("symbolic executor failed (status %d):\n%s" % (p.returncode, p.stdout.decode("utf8", "replace")[-2000:]))
    r = json.load(open(out))
    for j in r["jobs"]:
        for s in j["samples"] + j["found"]:
            s["obs"] = [int(x, 16) for x in s["obs"]]

    violations, unclear = [], []
    validated, samples, checked = 0, [], 0
    for i, j in enumerate(r["jobs"]):
        name = "%s(%s)" % (j["entry"], ",".join(map(str, j["args"])))
        real = 0
        for f in j["found"]:
            if f["kind"] == "unsupported":
                if not any(name in u and "unsupported" in u for u in unclear):
                    unclear.append("%s: unsupported: %s in %s" % (name, f["detail"], demangle(f["at"][0]) if f["at"] else "?"))
                continue
            if real >= 4:
                continue
            real += 1
            kind, det, _ = replay(b["replay"], j["entry"], f["model"], j["args"])
            what = "%s: %s %s on input %s; native run: %s %s" % (name, f["kind"], f["detail"], f["model"], kind, det)
            if f["kind"] == "fail" and str(f["detail"]) == "99":
                unclear.append(what + " (reference model too small)")
            elif kind in ("fail", "crash", "alloc", "hang") and not (kind == "fail" and det == "99"):
                violations.append((j, f, what))
            elif f["kind"] == "ub" and kind in ("ok",):
                # memory errors need not show natively: confirm under valgrind, else with the
                # debug build's checks
                k2, d2 = memcheck(b["replay"], j["entry"], f["model"], j["args"])
                if k2:
                    violations.append((j, f, what + "; " + d2))
                else:
                    unclear.append(what + "; " + d2)
            else:
                unclear.append(what + " (not reproduced)")
        if not j["complete"] and not real:
            unclear.append("%s: stopped at the time limit after %d paths" % (name, j["paths"]))
        if j["unknown"]:
            unclear.append("%s: %d solver queries without answer" % (name, j["unknown"]))
    if not violations:
        if len(r["jobs"]) < len(jobs):
            unclear.append("only %d of %d jobs were run" % (len(r["jobs"]), len(jobs)))
        for j, jb in zip(r["jobs"], jobs):
            name = "%s(%s)" % (j["entry"], ",".join(map(str, j["args"])))
            want = set(jb[2]) if len(jb) > 2 else set()
            if not want <= set(j["reach"]) and not unclear:
                unclear.append("%s: points %s were not reached" % (name, sorted(want - set(j["reach"]))))
            # the executor against the real thing: replay sampled paths, compare observations
            for s in j["samples"]:
                checked += 1
                kind, det, obs = replay(b["replay"], j["entry"], s["model"], j["args"])
                if kind == "ok" and obs == s["obs"]:
                    validated += 1
                else:
                    unclear.append("%s: symbolic and native runs differ on %s: %s %s %s / %s" % (name, s["model"], kind, det, obs[:8], s["obs"][:8]))
            for s in j["samples"][:1]:
                samples.append({"entry": name, "input": s["model"], "observed": ["%x" % x for x in s["obs"][:12]]})

        missing = set(spec.get("reach", [])) - set(x for j in r["jobs"] for x in j["reach"])
        if missing and not unclear:
            unclear.append("points %s were not reached by any job" % sorted(missing))

    known = []
    for key, text in known_findings(prop):
        ok, det = J.KNOWN[key](b, replay)
        if ok:
            known.append("KNOWN-FINDING: property=%s %s" % (prop, text))
        else:
            print("note: known finding %s of %s no longer shows (%s)" % (key, prop, det))

    fns = set()
    for j in r["jobs"]:
        for n in j["functions"]:
            if "whasm" in n or "vpcli" in n:
                fns.add(demangle(n))
    cov = {
        "states": sum(j["paths"] for j in r["jobs"]),
        "transitions": sum(j["steps"] for j in r["jobs"]),
        "traces_validated_against_impl": validated,
        "samples": samples[:12],
        "queries": sum(j["queries"] for j in r["jobs"]),
        "queries_answered_by_cache": sum(j["cache_hits"] for j in r["jobs"]),
        "solver_unsat": sum(j["unsat"] for j in r["jobs"]),
        "solver_sat": sum(j["sat"] for j in r["jobs"]),
        "solver_unknown": sum(j["unknown"] for j in r["jobs"]),
        "solver_s": round(sum(j["solver_s"] for j in r["jobs"]), 2),
        "solver": r["z3"],
        "whasm_functions_executed": sorted(fns),
        "functions_executed": len(set(n for j in r["jobs"] for n in j["functions"])),
        "bounds": spec["bounds"],
        "jobs": [{"job": "%s(%s)" % (j["entry"], ",".join(map(str, j["args"]))), "paths": j["paths"], "queries": j["queries"],
                  "complete": j["complete"], "wall_s": round(j["wall_s"], 2)} for j in r["jobs"]],
        "meaning": "states = symbolic paths explored to their end, transitions = IR instructions executed on them",
        "exhaustive": bool(not unclear and not violations),
        "tree": b["tree"],
        "build_s": round(t_build, 1),
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
        "assumptions": J.ASSUME + spec.get("assume", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(EVID, exist_ok=True)
    lines = []
    for n, (j, f, what) in enumerate(violations):
        path = os.path.join(EVID, "%s.replay.%d.sh" % (prop, n))
        with open(path, "w") as fh:
            fh.write("#!/bin/sh\n# %s\n# build/native must hold the replay program built by the check\nexec %s %s x%s %s\n" % (
                what.replace("\n", " "), b["replay"], j["entry"], f["model"], " ".join(map(str, j["args"]))))
        os.chmod(path, 0o755)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        print("  " + what)
    with open(os.path.join(BUILD if prop == "ST" else EVID, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for k in known:
        print(k)
    for l in lines:
        print(l)
    if violations:
        return 1
    if unclear:
        for u in unclear[:12]:
            print("NO ANSWER: " + u)
        return 2
    print("%s: held; %d paths, %d queries (%.1f s in solver), %d traces validated, %.1f s (build %.1f s)" % (
        prop, cov["states"], cov["queries"], cov["solver_s"], validated, ev["wall_s"], t_build))
    return 0


def memcheck(exe, entry, model, args):
    if not shutil.which("valgrind"):
        return False, "valgrind not available"
    cmd = ["valgrind", "-q", "--error-exitcode=99", exe, entry, "x" + model] + [str(a) for a in args]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, cwd="/")
    except subprocess.TimeoutExpired:
        return False, "valgrind timed out"
    if p.returncode == 99:
        return True, "valgrind: " + p.stderr.decode("utf8", "replace")[:300].replace("\n", " | ")
    return False, "valgrind reports nothing"


def main(a):
    if a[:1] == ["setup"]:
        try:
            build_engine()
        except NoAnswer as e:
            print(e)
            return 2
        return 0
    if a == ["selftest"]:
        a = ["check", "ST", "quick"]
    if a[:1] == ["check"] and len(a) >= 2 and (a[1] in J.PROPS or a[1] == "ST"):
        tier = a[2] if len(a) > 2 else (os.environ.get("VERIF_TIER") or "quick")
        try:
            return check(a[1], tier)
        except NoAnswer as e:
            print("NO ANSWER: %s" % e)
            return 2
        except subprocess.TimeoutExpired as e:
            print("NO ANSWER: timed out: %s" % (e.cmd,))
            return 2
        except Exception:
            traceback.print_exc()
            return 2
    print(__doc__)
    return 2


sys.exit(main(sys.argv[1:]))
