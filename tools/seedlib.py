#!/usr/bin/env python3
"""Makes and confirms planted bugs. A spec file calls add(...); usage: seedlib.py SPEC.py [ID...]
Options by environment: NOCHECK=1 skips running the property's check, TIER=quick|thorough."""
import json, os, re, subprocess, sys, textwrap

WT = "/tmp/seedwt"
BASE = "32fd975"
env = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
specs = []

DEMO_SH = '''#!/bin/bash
# runs demo_test.go inside the repository (cwd), laid over it
d=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
t=$(mktemp -d)
echo "{\\"Replace\\":{\\"$PWD/%(pkg)szz_seed_demo_test.go\\":\\"$d/demo_test.go\\"}}" > "$t/ov.json"
go test -count=1 -vet=off %(flags)s-timeout 120s -overlay "$t/ov.json" -run 'TestSeedDemo$' ./%(pkg)s
rc=$?
rm -f "$t/ov.json"; rmdir "$t"
exit $rc
'''


def add(id, prop, needs, breaks, edits, demo, pkg="", flags=""):
    specs.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, pkg=pkg, flags=flags))


def sh(cmd, **kw):
    kw.setdefault("cwd", WT)
    return subprocess.run(cmd, env=kw.pop("env", env), text=True, errors="replace", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def clean():
    if not os.path.exists(WT):
        subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", WT, "HEAD"], check=True)
    sh(["git", "checkout", "-q", "--detach", subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()])
    sh(["git", "checkout", "-q", "--", "."])
    sh(["git", "clean", "-fdq"])


def baseline():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("passed", "pass", "stable"):
        if k in b:
            return set(map(str, b[k]))
    raise SystemExit("baseline format")


def tests_pass():
    """names of baseline tests that no longer pass"""
    r = sh(["bash", "-c", "go test -vet=off -count=1 -json $(go list -e ./... | grep -v gofre/response$)"])
    failed = set()
    for l in r.stdout.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("Action") in ("fail",) and e.get("Test"):
            failed.add(e["Package"].split("gofre", 1)[1].strip("/") + ":" + e["Test"])
        if e.get("Action") in ("build-fail",):
            failed.add("build")
    if r.returncode != 0 and not failed:
        failed.add("rc")
    return failed


def main():
    spec = sys.argv[1]
    only = sys.argv[2:]
    exec(compile(open(spec).read(), spec, "exec"), {"add": add, "textwrap": textwrap})
    for s in specs:
        if only and s["id"] not in only:
            continue
        clean()
        d = "/verif/seeded/" + s["id"]
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(DEMO_SH % dict(pkg=s["pkg"] + "/" if s["pkg"] else "", flags=s["flags"] + " " if s["flags"] else ""))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo_test.go", "w").write(textwrap.dedent(s["demo"]).lstrip())
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        out = []
        r = sh(["bash", d + "/demo.sh"])
        if r.returncode != 0:
            print(s["id"], "BAD: demo fails on the unchanged tree\n", r.stdout[-1500:])
            continue
        bad = False
        for f, old, new in s["edits"]:
            t = open(WT + "/" + f).read()
            if t.count(old) != 1:
                print(s["id"], "BAD: text occurs", t.count(old), "times in", f, repr(old)[:80])
                bad = True
                break
            open(WT + "/" + f, "w").write(t.replace(old, new))
        if bad:
            continue
        sh(["gofmt", "-w"] + sorted({e[0] for e in s["edits"]}))
        g = sh(["gofmt", "-l", "."]).stdout.split()
        p = sh(["git", "diff"]).stdout
        open(d + "/patch.diff", "w").write(p)
        orig = 0
        cur = None
        for l in p.splitlines():
            if l.startswith("--- a/"):
                cur = set(x.strip() for x in sh(["git", "show", BASE + ":" + l[6:]]).stdout.splitlines())
            elif l.startswith("-") and not l.startswith("---"):
                if l[1:].strip() in cur and len(l[1:].strip()) > 3:
                    orig += 1
        f = tests_pass()
        r = sh(["bash", d + "/demo.sh"])
        caught = "-"
        if not os.environ.get("NOCHECK"):
            e = dict(env, MC_REPO=WT, MC_OUT="/tmp/ev")
            c = subprocess.run(["/verif/check.sh", s["prop"], os.environ.get("TIER", "quick")], env=e, text=True, errors="replace", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            v = re.findall(r"VIOLATION property=(\w+)", c.stdout)
            key = re.findall(r"key=(\S+)", c.stdout)
            caught = "CAUGHT %s" % key[:2] if c.returncode == 1 and s["prop"] in v else "MISSED rc=%d" % c.returncode
            if "MISSED" in caught:
                open("/tmp/missed-%s.txt" % s["id"], "w").write(c.stdout)
        ok = not f and r.returncode != 0 and orig > 0 and not g
        print(s["id"], s["prop"], "ok" if ok else "BAD", "tests failing: %s" % sorted(f)[:3] if f else "", "" if r.returncode else "DEMO PASSES WITH THE BUG", "orig lines %d" % orig if not orig else "", "gofmt %s" % g if g else "", caught, flush=True)
    clean()


main()
