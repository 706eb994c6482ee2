#!/usr/bin/env python3
"""Helper to plant a bug: make(id, property, edits=[(file, old, new)], demo=go test source, needs, breaks).
Confirms in a scratch copy of /repo that the bug builds, passes the stable tests, and that the demonstration
tells the changed tree from the unchanged one; only then writes /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile
SEED = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off",
           GOFLAGS="-mod=mod", GOWORK="off")
DEMO_SH = r'''#!/bin/bash
# Exits 0 if the demonstrated behaviour is right, nonzero otherwise. Run with cwd /repo.
export PATH="/opt/veriftools/go1.27.3/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/@DIR@/zzdemo_test.go":"%s/demo_test.go"}}' "$R" "$D" > "$T/overlay.json"
exec_flags="@FLAGS@"
go test -c -vet=off $exec_flags -o "$T/demo" -overlay "$T/overlay.json" ./@DIR@/ || exit 2
cd "$T" && timeout 250 ./demo -test.count=1 -test.run TestDemo
'''
HEAD = '''package %s

import (
%s
)

'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def stable(repo):
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    pk = sorted({"./" + "/".join(t.split("/")[3:-1]) for t in base})
    r = sh("go test -json -vet=off -count=1 " + " ".join(pk), repo)
    ok = set()
    for l in r.stdout.splitlines():
        try: o = json.loads(l)
        except Exception: continue
        if o.get("Action") == "pass" and "Test" in o: ok.add(o["Package"] + "/" + o["Test"])
    return [t for t in base if t not in ok]

def make(sid, prop, edits, imports, demo, needs, breaks, flags="", pkg="internal/zzdemo"):
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        repo = tmp + "/repo"
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        sd = tmp + "/sd"; os.mkdir(sd)
        open(sd + "/demo_test.go", "w").write(HEAD % (os.path.basename(pkg), "\n".join('\t' + (i if ' ' in i else '"%s"' % i.replace("@", "github.com/GottfriedHerold/Bandersnatch")) .replace("@", "github.com/GottfriedHerold/Bandersnatch") for i in imports)) + demo)
        sh("gofmt -w demo_test.go", sd)
        open(sd + "/demo.sh", "w").write(DEMO_SH.replace("@FLAGS@", flags).replace("@DIR@", pkg)); os.chmod(sd + "/demo.sh", 0o755)
        r0 = sh("bash %s/demo.sh" % sd, repo)
        if r0.returncode != 0:
            print(sid, "DEMO FAILS ON UNCHANGED:", r0.stdout[-2500:]); return False
        for f, old, new in edits:
            p = repo + "/" + f; s = open(p).read()
            if s.count(old) != 1: print(sid, "edit matches", s.count(old), "times in", f, ":", old[:80]); return False
            open(p, "w").write(s.replace(old, new))
        r = sh("go build ./bandersnatch/... ./internal/... && gofmt -l bandersnatch internal", repo)
        if r.returncode != 0: print(sid, "BUILD:", r.stdout[-2000:]); return False
        bad = stable(repo)
        if bad: print(sid, "STABLE TESTS FAIL:", bad); return False
        r1 = sh("bash %s/demo.sh" % sd, repo)
        if r1.returncode == 0: print(sid, "DEMO PASSES WITH BUG"); return False
        if "panic: test timed out" in r1.stdout: print(sid, "demo hangs")
        out = SEED + "/" + sid
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(sh("git diff", repo).stdout)
        for n in ("demo_test.go", "demo.sh"): shutil.copy(sd + "/" + n, out + "/" + n)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + "/meta.json", "w"), indent=1)
        print(sid, "ok:", [l for l in r1.stdout.splitlines() if "demo_test.go" in l or "FAIL" in l or "panic" in l][:2])
        return True
    finally:
        shutil.rmtree(tmp)
