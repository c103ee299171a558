#!/usr/bin/env python3
"""Plant a bug: validate it in scratch copies of /repo and write /verif/seeded/<id>/.
usage: plant.py spec.py   (spec defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], csp=..., expect=rc | demo=shell text, files={})])
"""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: behaves as specified
H="$(cd "$(dirname "$0")" && pwd)"
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
mkdir -p "$D/.cache"
cp "$H"/* "$D"/
R="$PWD"
cd "$D"
cspc() { HOME="$D" timeout 60 "$R/build/bin/cspc" "$@"; }
'''


def sh(c, cwd, t=900):
    try:
        p = subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return -1, "timeout"


def gccbuild(wt):
    """build like the repo's own build: into <wt>/build/bin/cspc"""
    code = '''
import sys; sys.path.insert(0, %r)
import core, shutil, os
core.REPO=%r
r = core.Repo(want=("cspc","lint"))
os.makedirs(%r + "/build/bin", exist_ok=True)
shutil.copy(r.cspc, %r + "/build/bin/cspc")
shutil.copy(r.lint, %r + "/build/bin/csp-lint")
''' % (VERIF + "/mc", wt, wt, wt, wt)
    p = subprocess.run([sys.executable, "-c", code], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode()


def stable(wt):
    """run the repository's tests against the copy: bind the copy onto /repo in a private user namespace"""
    out = tempfile.mktemp()
    rc, o = sh("unshare -Urm bash -c 'mount --bind %s /repo && bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh %s'" % (wt, out), "/")
    try:
        a = json.load(open(out))
        os.unlink(out)
    except Exception:
        return None, o[-800:]
    b = json.load(open("/opt/vp/BASELINE.json"))
    return sorted(set(b["stable"]) - set(a["passed"])), o[-300:]


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        wt = tempfile.mkdtemp(prefix="plant-")
        try:
            sh("cp -a /repo/. %s" % wt, "/")
            ok = True
            for f, old, new in b["edits"]:
                p = os.path.join(wt, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b["id"], "EDIT does not match once:", f, s.count(old), old[:60])
                    ok = False
                    break
                open(p, "w").write(s.replace(old, new))
            if not ok:
                continue
            rc, patch = sh("git diff", wt)
            d = os.path.join(VERIF, "seeded", b["id"])
            os.makedirs(d, exist_ok=True)
            for n in os.listdir(d):
                os.unlink(os.path.join(d, n))
            open(d + "/patch.diff", "w").write(patch)
            demo = DEMO
            if "csp" in b:
                open(d + "/t.csp", "w").write(b["csp"])
                demo += 'cspc build t.csp -p "$R/src/std" -o t.out --silent > log 2>&1\n[ -x t.out ] || { cat log; echo "no executable"; exit 1; }\ntimeout 20 ./t.out %s > out.txt; rc=$?\n' % b.get("args", "")
                if "stdout" in b:
                    open(d + "/expected.txt", "w").write(b["stdout"])
                    demo += 'cmp out.txt expected.txt || exit 1\n'
                demo += '[ $rc = %d ] || { echo "exit code $rc"; exit 1; }\n' % b.get("expect", 0)
            demo += b.get("demo", "")
            for n, t in b.get("files", {}).items():
                open(d + "/" + n, "w").write(t)
            open(d + "/demo.sh", "w").write(demo)
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            rc0, o0 = sh("bash %s/demo.sh" % d, "/repo", 300)
            rcb, ob = gccbuild(wt)
            if rcb:
                print(b["id"], "DOES NOT BUILD", ob[-500:])
                continue
            rc1, o1 = sh("bash %s/demo.sh" % d, wt, 300)
            miss, log = stable(wt)
            good = rc0 == 0 and rc1 != 0 and miss == []
            env = dict(os.environ, CSP_REPO=wt, VERIF_TIER="quick")
            p = subprocess.run([sys.executable, VERIF + "/mc/run.py", b["property"], "quick"], cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = p.stdout.decode(errors="replace")
            caught = p.returncode == 1 and "VIOLATION property=" + b["property"] in o
            print(b["id"], "VALID" if good else "INVALID clean=%s patched=%s missing=%s %s %s" % (rc0, rc1, miss, o0[-300:], log if miss is None else ""), "CAUGHT" if caught else "MISSED rc=%s" % p.returncode, "|", o.strip().splitlines()[0][:200] if o.strip() else "")
            sys.stdout.flush()
        finally:
            shutil.rmtree(wt, ignore_errors=True)


main()
