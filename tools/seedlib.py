"""Helper for writing planted bugs: edits a scratch copy, confirms that it builds, passes the
stable tests and is shown by its demonstration, and stores it under seeded/."""
import json
import os
import shutil
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/seedwork"

DEMO = """#!/bin/bash
# Runs demo_test.go inside the package in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp go.mod "$work/ics.mod"
cat go.sum /opt/vp/parser.sum > "$work/ics.sum"
GOFLAGS= go mod edit -replace vimagination.zapto.org/parser@v1.0.3=github.com/MJKWoolnough/parser@v1.0.3 "$work/ics.mod" || exit 3
export GOFLAGS="-mod=mod -modfile=$work/ics.mod"
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" > "$work/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$work/overlay.json" -run '^TestDemo$' .
"""

HEAD = """package ics

import (
%s)

"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def seed(sid, prop, needs, breaks, edits, imports, body):
    d = os.path.join(VERIF, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    with open(d + "/demo.sh", "w") as f:
        f.write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    with open(d + "/demo_test.go", "w") as f:
        f.write(HEAD % "".join('\t"%s"\n' % i for i in imports) + body.strip("\n") + "\n")
    with open(d + "/meta.json", "w") as f:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
        f.write("\n")
    shutil.rmtree(SCRATCH, ignore_errors=True)
    shutil.copytree("/repo", SCRATCH)
    ok = True
    p = sh("bash %s/demo.sh" % d, SCRATCH)
    if p.returncode != 0:
        print(sid, "DEMO FAILS ON THE UNCHANGED TREE\n", p.stdout[-1500:])
        ok = False
    for name, old, new in edits:
        fn = os.path.join(SCRATCH, name)
        s = open(fn).read()
        if s.count(old) != 1:
            print(sid, "edit does not apply once:", name, s.count(old), repr(old)[:80])
            return False
        open(fn, "w").write(s.replace(old, new))
    with open(d + "/patch.diff", "w") as f:
        f.write(sh("git diff", SCRATCH).stdout)
    p = sh("gofmt -l . ; . /opt/vp/env.sh; make_modfile; go build ./... && go test -vet=off -count=1 ./...", SCRATCH, executable="/bin/bash")
    if p.returncode != 0:
        print(sid, "BUILD OR TESTS FAIL\n", p.stdout[-1500:])
        ok = False
    p = sh("bash %s/demo.sh" % d, SCRATCH)
    if p.returncode == 0 or "FAIL" not in p.stdout or "build failed" in p.stdout:
        print(sid, "DEMO DOES NOT SHOW THE BUG\n", p.stdout[-1500:])
        ok = False
    shutil.rmtree(SCRATCH, ignore_errors=True)
    print(sid, "ok" if ok else "NOT OK")
    return ok
