#!/usr/bin/env python3
"""check.py <ID> [--replay FILE]   model-check one property of /repo's current tree.

Builds the property's explorer (mc/src/bin/<id>.rs) against /repo, runs the
exhaustive exploration, confirms anything it reports in isolation and writes
evidence/<ID>.json.  Exit 0: held on everything explored.  Exit 1 with a
VIOLATION line: broken.  Exit 2: the check itself could not give an answer.
"""
import json, os, re, resource, shutil, struct, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
MC = os.path.join(ROOT, "mc")
TARGET = os.path.join(ROOT, "target")
REPO = "/repo"
MEM = 20 << 30
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
DEADLINE = time.time() + (840 if TIER == "quick" else 6 * 3600)


def env():
    e = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", VERIF_TIER=TIER)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    return e


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def die(msg):
    print("check.py: " + msg, file=sys.stderr)
    sys.exit(2)


def forget_builds():
    """Make cargo rebuild everything that depends on /repo, whatever the file times say."""
    fp = os.path.join(TARGET, "release", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if re.match(r"(parsel|parsel_derive|mc|gen|pm)-[0-9a-f]+$", d):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)


def cargo_build(args, cwd=MC):
    p = subprocess.run(["cargo", "build", "--offline", "--release"] + args, cwd=cwd, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                       timeout=max(30, DEADLINE - time.time()))
    return p.returncode, p.stdout


def refused_uses(name):
    """Why a program that uses parsel (mc/src/must/<name>.rs) does not compile, if that is what
    keeps the explorer from building."""
    rel = os.path.join("src", "must", name + ".rs")
    if not os.path.exists(os.path.join(MC, rel)):
        return None
    rc, out = cargo_build(["--bin", name, "--message-format=json"])
    errs = []
    for l in out.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        m, target = m["message"], m["target"]["name"]
        spans = [s for s in m["spans"] if s["is_primary"]]
        for s in spans:  # where the macros are used
            if s.get("expansion"):
                spans.append(s["expansion"]["span"])
        if target != name or "internal compiler error" in m["message"]:
            return None
        if any(os.path.normpath(s["file_name"]) == rel for s in spans):
            errs.append(m["rendered"] or m["message"])
    return "\n".join(errs)[:2500] or None


def run(args, timeout):
    """Runs the explorer; returns its exit status, or 'timeout'."""
    p = subprocess.Popen(args, env=env(), preexec_fn=limits, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            p.kill()
        p.communicate()
        return "timeout", "", ""


def one(binary, suite, idx, timeout=60):
    """Re-runs one case in a process of its own. None if it passes, else what happens."""
    rc, out, err = run([binary, "--suite", suite, "--idx", str(idx)], timeout)
    if rc == 0:
        return None
    if rc == "timeout":
        return "does not terminate within %d s" % timeout
    if rc == 1:
        try:
            return "; ".join(json.loads(out.strip().splitlines()[-1])["fails"])[:4000]
        except Exception:
            return "fails"
    if rc == 2:
        die("replay of %s/%s: %s" % (suite, idx, err))
    why = [l for l in err.splitlines() if "overflow" in l or "alloc" in l]
    return "process dies (status %s)%s" % (rc, ": " + why[0] if why else "")


def violation(prop, what):
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    path = os.path.join("replays", "%s.json" % prop)
    what["property"] = prop
    with open(os.path.join(ROOT, path), "w") as f:
        json.dump(what, f, indent=1)
    print("%s: %s" % (prop, json.dumps(what)[:3000]))
    print("VIOLATION property=%s replay=%s" % (prop, path))


def evidence(prop, t0, rep, violations, extra=None):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    suites = rep.get("suites", [])
    cov = {
        "states": rep.get("states", 0),
        "transitions": rep.get("transitions", 0),
        "traces_validated_against_impl": rep.get("impl_runs", 0),
        "samples": rep.get("samples", []) or ["none"],
        "exhaustive": bool(suites) and all(s["complete"] for s in suites),
        "suites": suites,
    }
    if extra:
        cov.update(extra)
    e = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "model_checking",
         "coverage": cov, "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": violations}
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(e, f, indent=1)


ASSUME = [
    "the reference model in mc/src states what parsel documents (every enumerated case is run on the real code and compared with it)",
    "syn, proc-macro2, quote, ordered-float and the Rust toolchain behave as released",
    "the bounds given per suite; grammars are well-founded (no repeated production that consumes nothing)",
]


def judge(prop, binary, t0, extra=None, pre=None):
    """Runs the exploration and decides. Returns the exit status."""
    tmp = os.path.join(TARGET, "out.%s.%d.json" % (prop, os.getpid()))
    try:
        rc, out, err = run([binary, "--out", tmp], max(30, DEADLINE - time.time() - 60))
        if rc == "timeout":
            die("the exploration did not finish in time")
        rep = None
        if os.path.exists(tmp):
            try:
                rep = json.load(open(tmp))
            except ValueError:
                rep = None
        journal = []
        if os.path.exists(tmp + ".journal"):
            b = open(tmp + ".journal", "rb").read()
            journal = [struct.unpack_from("<QQ", b, o) for o in range(0, len(b) - 15, 16)]
    finally:
        for p in (tmp, tmp + ".journal"):
            if os.path.exists(p):
                os.remove(p)

    if rep is not None and "hang" in rep:
        h = rep["hang"]
        w = one(binary, h["suite"], h["idx"])
        if w is None:
            die("a hang at %s/%s did not reproduce" % (h["suite"], h["idx"]))
        evidence(prop, t0, {"samples": ["%s/%s %s" % (h["suite"], h["idx"], w)]}, 1, extra)
        violation(prop, {"suite": h["suite"], "idx": h["idx"], "what": w})
        return 1
    if rep is None:
        # died: the journal says what was being explored
        names = json.loads(subprocess.run([binary, "--suites"], env=env(), stdout=subprocess.PIPE, text=True).stdout or "[]")
        for s, i in journal:
            if 0 < s <= len(names):
                w = one(binary, names[s - 1], i)
                if w is not None:
                    evidence(prop, t0, {"samples": ["%s/%s %s" % (names[s - 1], i, w)]}, 1, extra)
                    violation(prop, {"suite": names[s - 1], "idx": i, "what": w})
                    return 1
        die("the explorer died (%s) and no explored case reproduces it: %s" % (rc, err[-2000:]))
    fails = rep.get("fails", [])
    for f in fails:
        if f["msg"].startswith("harness:") or "panic: harness:" in f["msg"]:
            die("harness failure in %s/%s: %s" % (f["suite"], f["idx"], f["msg"]))
    if fails:
        for f in fails[:8]:
            w = one(binary, f["suite"], f["idx"])
            if w is not None:
                evidence(prop, t0, rep, len(fails), extra)
                violation(prop, {"suite": f["suite"], "idx": f["idx"], "what": w})
                return 1
        # not reproducible alone: it depends on what ran before, on the same thread or at all.
        # Is there a failure again in that suite, run by one thread or by many, or in everything?
        f = fails[0]
        for how in (["--only", f["suite"], "--threads", "1"], ["--only", f["suite"]], []):
            left = DEADLINE - time.time()
            if left < 20:
                break
            rc2, _, _ = run([binary, "--out", tmp] + how, left if not how else min(left, 200))
            for p in (tmp, tmp + ".journal"):
                if os.path.exists(p):
                    os.remove(p)
            if rc2 == 1:
                evidence(prop, t0, rep, len(fails), extra)
                violation(prop, {"suite": f["suite"], "idx": None, "run": how, "what": "depends on what ran before: " + f["msg"]})
                return 1
        die("a failure did not reproduce: %s" % json.dumps(f))
    if rc != 0:
        die("the explorer ended with status %s" % rc)
    if rep["vacuous"]:
        die("vacuous exploration: " + "; ".join(rep["vacuous"]))
    evidence(prop, t0, rep, 0, extra)
    print("%s: held on %d model states, %d transitions, %d runs of the real code (%d suites, %.1f s)" % (
        prop, rep["states"], rep["transitions"], rep["impl_runs"], len(rep["suites"]), time.time() - t0))
    return 0


def replay(prop, binary, path):
    r = json.load(open(path))
    if r["suite"] in ("compile", "unions"):
        print("passes")  # decided before this point, see tools/c25.py
        return 0
    if r.get("idx") is None:
        tmp = os.path.join(TARGET, "replay.json")
        rc, _, _ = run([binary, "--out", tmp] + r.get("run", ["--only", r["suite"]]), 3600)
        print(open(tmp).read()[-3000:] if os.path.exists(tmp) else rc)
        return 0 if rc == 0 else 1
    w = one(binary, r["suite"], r["idx"])
    print("passes" if w is None else w)
    return 0 if w is None else 1


def main():
    prop = sys.argv[1]
    t0 = time.time()
    name = prop.lower()
    os.makedirs(TARGET, exist_ok=True)
    if not os.path.exists(os.path.join(MC, "src", "bin", name + ".rs")):
        die("no explorer for " + prop)
    forget_builds()
    extra = None
    if prop == "C25":
        sys.path.insert(0, os.path.join(ROOT, "tools"))
        import c25
        st = c25.prepare(sys.modules[__name__], prop, t0)
        if isinstance(st, int):
            return st
        extra = st
    try:
        if prop == "C31":  # the procedural macro its programs use
            rc, out = cargo_build([], cwd=os.path.join(ROOT, "pm"))
            if rc != 0:
                die("the procedural macro does not build against /repo:\n" + out[-3000:])
        rc, out = cargo_build(["--bin", name])
    except subprocess.TimeoutExpired:
        die("the build did not finish")
    if rc != 0:
        bad = refused_uses(name)
        if bad:
            evidence(prop, t0, {"samples": [bad[:500]]}, 1, extra)
            violation(prop, {"suite": "compile", "idx": None, "what": "uses that must compile do not: " + bad})
            return 1
        die("the explorer does not build against /repo:\n" + out[-3000:])
    binary = os.path.join(TARGET, "release", name)
    if "--replay" in sys.argv:
        return replay(prop, binary, sys.argv[sys.argv.index("--replay") + 1])
    return judge(prop, binary, t0, extra)


if __name__ == "__main__":
    sys.exit(main())
