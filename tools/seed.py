#!/usr/bin/env python3
"""Development aid for planted bugs: seed.py SPECFILE [id...]

SPECFILE defines BUGS = {id: dict(prop, needs, breaks, edits=[(file, old, new)], demo=C++ text, cfg="ndim=2 ..." or None for a
program without the solver, files={name: text}, sh=text of demo.sh (optional))}.  For each bug: writes /verif/seeded/<id>/ and checks in a
scratch copy of /repo that the patch applies, builds, passes the tests and that the demonstration tells the two trees apart.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

V = "/verif"
KIT_H = ["vck.hpp", "vcase.hpp", "vsys.hpp", "vphys.hpp", "vunit.hpp", "setup/setup.hpp"]


def sh(cmd, cwd=None, timeout=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return r.returncode, r.stdout


SOLVER_SH = """#!/bin/bash
# runs the real solver of the current tree (built with the stand-ins beside this file) and looks at what comes out
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export VERIF_REPO=$PWD VERIF_BUILD=$t/build
python3 "$d/kit/tools/vbuild.py" demo drivers="$d/demo.cpp" CFG > "$t/log" 2>&1 || { tail -30 "$t/log"; exit 3; }
timeout 250 "$(tail -1 "$t/log")" dir="$t"
"""
PLAIN_SH = """#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
set -e
CMDS
timeout 100 "$t/demo" "$t"
"""


def write(bid, b):
    d = os.path.join(V, "seeded", bid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    if b.get("cfg") is not None:
        k = os.path.join(d, "kit")
        shutil.copytree(os.path.join(V, "shim"), os.path.join(k, "shim"))
        os.makedirs(os.path.join(k, "tools"))
        shutil.copy(os.path.join(V, "tools/vbuild.py"), os.path.join(k, "tools"))
        for h in KIT_H:
            os.makedirs(os.path.dirname(os.path.join(k, "harness", h)), exist_ok=True)
            shutil.copy(os.path.join(V, "harness", h), os.path.join(k, "harness", h))
        text = SOLVER_SH.replace("CFG", b["cfg"] + ("" if "san=" in b["cfg"] else " san=plain"))
    else:
        text = b.get("sh") or PLAIN_SH.replace("CMDS", b["build"])
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(text)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    if b.get("demo"):
        with open(os.path.join(d, "demo.cpp"), "w") as f:
            f.write(b["demo"])
    for n, t in b.get("files", {}).items():
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
        f.write("\n")


def check(bid, b):
    d = os.path.join(V, "seeded", bid)
    w = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    out = []
    try:
        r = os.path.join(w, "repo")
        sh("cp -a /repo %s" % r)
        base = {f: open(os.path.join(r, f)).read() for f, _, _ in b["edits"]}
        for f, old, new in b["edits"]:
            p = os.path.join(r, f)
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                return "EDIT %s matches %d times" % (f, n)
            with open(p, "w") as fh:
                fh.write(t.replace(old, new))
        rc, diff = sh("git diff", cwd=r)
        with open(os.path.join(d, "patch.diff"), "w") as fh:
            fh.write(diff)
        # demonstration with the patch
        rc1, o1 = sh("bash %s/demo.sh" % d, cwd=r)
        # build and tests: the harness builds /repo only, so compile the way it does, on /repo itself under a lock
        for f, t in base.items():
            with open(os.path.join(r, f), "w") as fh:
                fh.write(t)
        rc0, o0 = sh("bash %s/demo.sh" % d, cwd=r)
        out.append("demo clean rc=%d patched rc=%d" % (rc0, rc1))
        if rc0 != 0:
            out.append("CLEAN OUTPUT:\n" + o0[-1500:])
        if rc1 == 0 or rc1 == 3:
            out.append("PATCHED OUTPUT:\n" + o1[-1500:])
        else:
            out.append("says: " + o1.strip()[-300:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return "\n   ".join(out)


def tests(bid):
    """apply to /repo, run the stable tests, undo"""
    p = os.path.join(V, "seeded", bid, "patch.diff")
    rc, o = sh("git apply %s" % p, cwd="/repo")
    if rc:
        return "does not apply: " + o
    try:
        rc, o = sh("bash /opt/vp/test.sh /tmp/seed-tests.json")
        j = json.load(open("/tmp/seed-tests.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        miss = [x for x in base if x not in j["passed"]]
        return "tests ok" if not miss else "TESTS FAIL " + str(miss[:3])
    finally:
        sh("git checkout -- .", cwd="/repo")


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:] or list(bugs)
    for i in ids:
        write(i, bugs[i])
        print(i, check(i, bugs[i]), "|", "" if os.environ.get("NOTEST") else tests(i), flush=True)
