#!/usr/bin/env python3
"""Builds the check binary from /repo's working tree into a scratch directory and runs one check."""
import json, os, re, shutil, signal, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
env = dict(os.environ)
env.setdefault("HOME", "/root")
env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOENV="off")
for k in ("GODEBUG", "GOGC", "GOMAXPROCS", "GORACE"):
    env.pop(k, None)


def sh(cmd, **kw):
    return subprocess.run(cmd, env=env, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def build(tmp, kind):
    """kind 'plain' or 'sched'; returns the binary."""
    mc = os.path.join(ROOT, "mc")
    if REPO != "/repo":
        mc2 = os.path.join(tmp, "mc")
        if not os.path.exists(mc2):
            shutil.copytree(mc, mc2)
            g = open(mc2 + "/go.mod").read().replace("=> /repo", "=> " + REPO)
            open(mc2 + "/go.mod", "w").write(g)
        mc = mc2
    out = os.path.join(tmp, "bin-" + kind)
    if kind == "plain":
        r = sh(["go", "test", "-c", "-vet=off", "-o", out, "./checks"], cwd=mc)
    else:
        r = sh(["go", "build", "-o", os.path.join(tmp, "instr"), "./instr"], cwd=mc)
        if r.returncode == 0:
            r = sh([os.path.join(tmp, "instr"), REPO, os.path.join(tmp, "ov"), mc], cwd=mc)
        if r.returncode == 0:
            r = sh(["go", "test", "-c", "-race", "-vet=off", "-overlay", os.path.join(tmp, "ov", "overlay.json"), "-o", out, "./schedchecks"], cwd=mc)
        if r.returncode == 0:  # the same without race detection, for searches that need no scheduler
            r = sh(["go", "test", "-c", "-vet=off", "-overlay", os.path.join(tmp, "ov", "overlay.json"), "-o", out + "-norace", "./schedchecks"], cwd=mc)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print("check.py: build failed (%s)" % kind)
        sys.exit(2)
    return out


def run(binary, prop, tier, level, outdir, tmp, part, limit):
    e = dict(env)
    e.update(MC_PROP=prop, MC_TIER=tier, MC_LEVEL=level, MC_OUT=outdir, MC_PART=part, TMPDIR=tmp,
             MC_KNOWN=os.path.join(ROOT, "known_findings.txt"))
    if "sched" in os.path.basename(binary):
        e["GORACE"] = "halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path=" + os.path.join(tmp, "race")
        e["MC_NORACE_BIN"] = binary + "-norace"
    p = subprocess.Popen([binary, "-test.run", "^TestMC$", "-test.timeout", "0"], env=e, cwd=tmp, text=True, errors="replace",
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        return "timeout", o
    return p.returncode, o


def crash_kind(o):
    for l in o.splitlines():
        if re.match(r"(fatal error:|panic:|runtime: goroutine stack exceeds|SIG|unexpected fault)", l):
            return l
    return None


def main():
    if sys.argv[1] == "--warm":
        tmp = tempfile.mkdtemp(prefix="gofremc-")
        try:
            build(tmp, "plain")
            if os.path.isdir(os.path.join(ROOT, "mc", "schedchecks")):
                build(tmp, "sched")
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print("setup ok")
        return 0
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    man = {c["property"]: c for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]}
    level = man.get(prop, {}).get("level", "exploration")
    parts = json.load(open(os.path.join(ROOT, "tools", "parts.json"))).get(prop, ["plain"])
    outdir = os.environ.get("MC_OUT", os.path.join(ROOT, "evidence"))
    os.makedirs(outdir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="gofremc-")
    limit = 820 if tier == "quick" else 880
    if tier == "thorough":
        env["MC_BUDGET_S"] = str(760 // len(parts))
    else:
        env["MC_BUDGET_S"] = str(240 // len(parts))
    rc = 0
    evs = []
    try:
        for part in parts:
            b = build(tmp, part)
            code, o = run(b, prop, tier, level, outdir, tmp, part, limit)
            if code not in (0, 1, 3) or (code == 1 and "VIOLATION property=" not in o):
                k = crash_kind(o)
                if k or code == "timeout":
                    code2, o2 = run(b, prop, tier, level, outdir, tmp, part, limit // 2)
                    k2 = crash_kind(o2)
                    if k2:
                        rp = os.path.join(outdir, "replay-%s-crash.json" % prop)
                        json.dump(dict(space="crash", key="crash", msg=k2, output=o2[-8000:]), open(rp, "w"))
                        print(o2[-3000:])
                        print("VIOLATION property=%s replay=%s" % (prop, rp))
                        print("  the code under test ended the process: " + k2)
                        return 1
                    code, o = code2, o2
            print(o.rstrip().removesuffix("PASS"))
            if code == 1:
                return 1
            if code != 0:
                print("check.py: the check ended with", code)
                return 2
            evs.append(json.load(open(os.path.join(outdir, prop + ".json"))))
        if len(evs) > 1:
            merge(evs, os.path.join(outdir, prop + ".json"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rc


def merge(evs, path):
    out = evs[0]
    c = out["coverage"]
    for e in evs[1:]:
        d = e["coverage"]
        for k in ("evaluations", "distinct_nontrivial", "states", "transitions", "traces_validated_against_impl", "distinct_outcomes"):
            if k in d or k in c:
                c[k] = c.get(k, 0) + d.get(k, 0)
        c["samples"] = c["samples"] + d["samples"]
        c["bounds"] = (c["bounds"] or []) + (d["bounds"] or [])
        c["counters"].update(d["counters"])
        c["rule"] = c["rule"] + " || " + d["rule"]
        c["exhaustive"] = c["exhaustive"] and d["exhaustive"]
        out["wall_s"] += e["wall_s"]
        out["assumptions"] = (out.get("assumptions") or []) + (e.get("assumptions") or [])
        out["known_findings"] = (out.get("known_findings") or []) + (e.get("known_findings") or [])
    json.dump(out, open(path, "w"), indent=1)


sys.exit(main())
