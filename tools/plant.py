#!/usr/bin/env python3
"""Development tool: builds /verif/seeded/<id> from a spec file and confirms it in a scratch copy.
A spec is a Python file defining ID, PROP, NEEDS, BREAKS, EDITS [(file, old, new)], PKG, DEMO (a Go test)
and optionally RACE. usage: plant.py SPEC... """
import sys, os, subprocess, json, re, shutil, time
env = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    return p.returncode, p.stdout
DEMO_SH = r'''#!/bin/bash
# Runs demo_test.go inside @PKG@ (through an overlay). cwd: the repository.
dir=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap '/bin/rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/@PKG@/zz_seeded_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$dir" > "$tmp/overlay.json"
go test @FLAGS@-overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestSeededDemo$' ./@PKG@
'''
for spec in sys.argv[1:]:
    s = {}
    exec(open(spec).read(), s)
    sid, sw = s["ID"], "/tmp/sw-" + s["ID"]
    shutil.rmtree(sw, ignore_errors=True)
    sh("git clone -q /repo " + sw)
    bad = False
    for f, old, new in s["EDITS"]:
        p = os.path.join(sw, f); t = open(p).read()
        if t.count(old) != 1:
            print(sid, "EDIT does not match once:", f, t.count(old)); bad = True; break
        open(p, "w").write(t.replace(old, new))
    if bad: continue
    rc, o = sh("gofmt -l pkg internal", sw)
    if o.strip(): print(sid, "gofmt", o)
    rc, patch = sh("git diff", sw)
    # blame of removed lines
    cur, mine, n = None, [], 0
    for l in patch.splitlines():
        if l.startswith("--- a/"): cur = l[6:]
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m.group(1)); continue
        if l.startswith("-") and not l.startswith("---"):
            _, b = sh("git blame -l -L %d,%d %s" % (n, n, cur), "/repo")
            if "a0ff089" not in b[:12] and not b.startswith("^a0ff089"): mine.append((cur, n))
        if not l.startswith("+") and not l.startswith("\\") and not l.startswith("---"): n += 1
    d = "/verif/seeded/" + sid
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo_test.go", "w").write(s["DEMO"])
    fl = "-race " if s.get("RACE") else ""
    open(d + "/demo.sh", "w").write(DEMO_SH.replace("@PKG@", s["PKG"]).replace("@FLAGS@", fl)); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    rc, o = sh("go build ./... && go vet ./... 2>&1 | tail -5", sw)
    if rc: print(sid, "BUILD", o[-500:]); continue
    rt, ot = sh("go test -vet=off -count=1 ./... 2>&1 | grep -v '^ok\\|no test files' | head -20", sw)
    r0, o0 = sh(d + "/demo.sh", "/repo")
    r1, o1 = sh(d + "/demo.sh", sw)
    t0 = time.time()
    rp, op = sh("/verif/tools/against.sh %s %s" % (sw, s["PROP"]), "/verif")
    ok = not ot.strip() and r0 == 0 and r1 != 0 and not mine
    v = [l for l in op.splitlines() if "VIOLATION" in l]
    print(("%-28s %s" % (sid, "valid" if ok else "INVALID")), s["PROP"], "CAUGHT" if rp == 1 and v else "MISSED rc=%d" % rp, "%.0fs" % (time.time() - t0))
    if not ok:
        print("   tests:", ot[:600].strip() or "pass", "| demo clean:", r0, "| demo patched:", r1, "| lines of mine:", mine)
        if r0: print(o0[-800:])
    elif rp == 1: print("   ", [l for l in op.splitlines() if "VIOLATION" not in l][:1])
    sys.stdout.flush()
    shutil.rmtree(sw, ignore_errors=True)
