#!/usr/bin/env python3
"""mutants.py OUT.jsonl [WORKERS]: measures what the checks detect. Every small change that tools' mc/mutate lists is
made in a scratch copy of the repository; if it builds and the repository's tests pass, the quick plain checks that cover the
file run against it, cheapest first, until one reports a violation. Survivors are to be read by hand: equivalent, or a hole."""
import json, os, shutil, subprocess, sys, threading, queue, random, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = sys.argv[1]
W = int(sys.argv[2]) if len(sys.argv) > 2 else 4
ONLY = re.compile(os.environ.get("ONLY", "."))
env = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOCACHE="/tmp/mgocache", GOMAXPROCS="3")
MAP = [
 ("router/path/", "R04 R05 R01 R02 R03 R07 R08"), ("router/router.go", "R06 L02 R08 R04 R03"),
 ("gofre.go", "M01 M02 R06 O03 O04 O01 R08 S05 S06 N02 L02"), ("middleware/cors.go", "M05 M08"), ("middleware/security.go", "M04 M08"),
 ("middleware/csrf.go", "C01 N02 M08"), ("middleware/compress.go", "M06 M08"), ("response/compress.go", "M06 S04 M08"),
 ("middleware/dump.go", "M07 M08"), ("middleware/errors.go", "M03 L02 M08"), ("middleware/panic.go", "M03 L02"), ("errors/", "M03"),
 ("middleware/auth", "A03 M08"), ("auth/auth.go", "A01 A02 A04 A03"), ("auth/oauth", "O02 O04 O03 N02 O01"), ("cache/", "K01"),
 ("response/sse.go", "S03 S04 S01 M08"), ("response/template.go", "S01 S06 M08 S05"), ("response/", "S01 S04 M07 M08 M06 R08"), ("handler/", "R06"),
]
lock = threading.Lock()

def sh(cmd, cwd, t, e=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=e or env, text=True, errors="replace", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 99, "timeout"

def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def tests(repo, st):
    rc, o = sh(["bash", "-c", "go test -json -vet=off -count=1 -timeout 60s $(go list ./... | grep -v '^github.com/ixtendio/gofre/response$')"], repo, 150)
    ok = set()
    for l in o.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("Action") == "pass" and d.get("Test"):
            ok.add(d["Package"] + "/" + d["Test"])
    return st <= ok

def worker(n, q, st):
    base = "/tmp/mw/%d" % n
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    shutil.copytree("/repo", base + "/repo", ignore=shutil.ignore_patterns(".git"))
    shutil.copytree(ROOT + "/mc", base + "/mc")
    g = open(base + "/mc/go.mod").read().replace("=> /repo", "=> " + base + "/repo")
    open(base + "/mc/go.mod", "w").write(g)
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            return
        rel = m["file"][len("/repo/"):]
        src = open("/repo/" + rel, "rb").read()
        open(base + "/repo/" + rel, "wb").write(src[:m["off"]] + m["new"].encode() + src[m["end"]:])
        res = "?"
        try:
            rc, o = sh(["go", "build", "./..."], base + "/repo", 120)
            if rc:
                res = "nobuild"
                continue
            if not tests(base + "/repo", st):
                res = "tests"
                continue
            rc, o = sh(["go", "test", "-c", "-vet=off", "-o", base + "/bin", "./checks"], base + "/mc", 120)
            if rc:
                res = "checkbuild"
                continue
            props = next((p for f, p in MAP if rel.startswith(f)), "M08").split()
            res = "SURVIVED"
            for p in props:
                e = dict(env, MC_PROP=p, MC_TIER="quick", MC_LEVEL="x", MC_OUT=base + "/ev", MC_PART="plain", TMPDIR=base, MC_KNOWN=ROOT + "/known_findings.txt", MC_BUDGET_S="120")
                os.makedirs(base + "/ev", exist_ok=True)
                rc, o = sh([base + "/bin", "-test.run", "^TestMC$", "-test.timeout", "0"], base, 240, e)
                if rc == 1 and "VIOLATION property=" in o:
                    res = "caught " + p
                    break
                if rc == 99:
                    res = "HANG " + p
                    break
                if rc != 0:
                    res = "rc%d %s %s" % (rc, p, o[-300:])
                    break
        finally:
            with lock:
                open(OUT, "a").write(json.dumps(dict(m, res=res)) + "\n")
            open(base + "/repo/" + rel, "wb").write(src)

def main():
    files = [f for f in subprocess.run(["git", "-C", "/repo", "ls-files", "*.go"], text=True, stdout=subprocess.PIPE).stdout.split() if not f.endswith("_test.go") and not f.startswith("examples/") and ONLY.search(f)]
    rc, o = sh(["go", "run", "./mutate"] + ["/repo/" + f for f in files], ROOT + "/mc", 100)
    ms = []
    seen = set()
    if os.path.exists(OUT):
        for l in open(OUT):
            d = json.loads(l)
            if d["res"] == "SURVIVED" and os.environ.get("RETRY"):
                continue
            seen.add((d["file"], d["off"], d["end"], d["new"]))
    for l in o.splitlines():
        d = json.loads(l)
        k = (d["file"], d["off"], d["end"], d["new"])
        if k not in seen and d["what"] != "other string":
            seen.add(k)
            ms.append(d)
    random.Random(1).shuffle(ms)
    print(len(ms), "mutants")
    q = queue.Queue()
    for m in ms:
        q.put(m)
    st = stable()
    ts = [threading.Thread(target=worker, args=(i, q, st)) for i in range(W)]
    [t.start() for t in ts]
    [t.join() for t in ts]

main()
