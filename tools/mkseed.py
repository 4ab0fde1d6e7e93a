#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]: makes and confirms the planted bugs of a spec file in a scratch copy of /repo.

A spec defines SEEDS = {id: dict(property, needs, breaks, edits=[(file, old, new)], pkg, demo=<Go test source with
TestDemo>, or sh=<script body>, race=bool)}.  Kept only if it builds, passes the stable tests, and the demo passes
without and fails with the change.  No check uses this."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#!/bin/bash
# run with cwd = the repository
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
export TMPDIR=$T GOFLAGS=-mod=readonly GOTOOLCHAIN=local GOPROXY=off
'''


def sh(cmd, cwd):
    return subprocess.run(cmd, shell=True, cwd=cwd, text=True, errors="replace", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, executable="/bin/bash")


def demo_ok(d, repo):
    r = sh(". /opt/vp/env.sh; timeout 280 bash %s/demo.sh" % d, repo)
    return r.returncode, r.stdout


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    only = sys.argv[2:]
    for sid, s in seeds.items():
        if only and sid not in only:
            continue
        if not only and os.path.exists(os.path.join(V, "seeded", sid)):
            continue
        work = tempfile.mkdtemp(prefix="seed-")
        repo = work + "/repo"
        try:
            shutil.copytree("/repo", repo, symlinks=True)
            d = work + "/demo"
            os.makedirs(d)
            if "demo" in s:
                open(d + "/demo_test.go.txt", "w").write(s["demo"])
                body = '''printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%s/zz_demo_test.go" "$D/demo_test.go.txt" > "$T/o.json"
go test -vet=off -count=1 %s -overlay "$T/o.json" -run '^TestDemo' ./%s
''' % (s["pkg"], "-race" if s.get("race") else "", s["pkg"])
            else:
                body = s["sh"]
                for n, c in s.get("files", {}).items():
                    open(d + "/" + n, "w").write(c)
            open(d + "/demo.sh", "w").write(HEAD + body)
            os.chmod(d + "/demo.sh", 0o755)
            rc, out = demo_ok(d, repo)
            if rc:
                print(sid, "REJECTED: demo fails on the unchanged tree\n", out[-3000:])
                continue
            for f, old, new in s["edits"]:
                p = repo + "/" + f
                t = open(p).read()
                assert t.count(old) == 1, (sid, f, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            r = sh(". /opt/vp/env.sh; gofmt -l pkg cmd; go build ./... && go test -vet=off -count=1 $(go list ./... | grep -vE 'pkg/(bencode|tracker)$')", repo)
            if r.returncode:
                print(sid, "REJECTED: build or tests fail\n", r.stdout[-3000:])
                continue
            rc, out = demo_ok(d, repo)
            if rc == 0:
                print(sid, "REJECTED: demo passes with the change")
                continue
            if "build failed" in out or "setup failed" in out:
                print(sid, "REJECTED: demo does not build with the change\n", out[-2000:])
                continue
            diff = sh("git diff", repo).stdout
            dst = os.path.join(V, "seeded", sid)
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
            open(dst + "/patch.diff", "w").write(diff)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
            print(sid, "kept;", out.strip().splitlines()[-3:] if "-v" in sys.argv else "")
        finally:
            shutil.rmtree(work, ignore_errors=True)


main()
