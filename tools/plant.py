"""Plants a bug: applies edits to /repo, confirms build, tests and demo, stores /verif/seeded/<id>, undoes.
   plant(id, prop, [(file, old, new)...], demo_cpp, needs, breaks, srcs=[], flags='')"""
import json, os, subprocess
VP = "/opt/vp"
DEMO = """#!/bin/bash
# exit 0: the property holds in the demonstrated case
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -w -I. -Idatas %(flags)s "$here/demo.cpp" %(srcs)s -o "$tmp/demo" -pthread %(libs)s || exit 2
cd "$tmp" && timeout 120 ./demo
"""


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def clean():
    sh("git -C /repo checkout -q -- .")


def plant(id, prop, edits, demo, needs, breaks, srcs=(), flags="", libs=""):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --short").stdout.strip(), "dirty"
    try:
        open(d + "/demo.cpp", "w").write(demo)
        open(d + "/demo.sh", "w").write(DEMO % dict(flags=flags, libs=libs, srcs=" ".join('"$PWD/%s"' % s for s in srcs)))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        if r.returncode:
            print(id, "DEMO FAILS CLEAN", r.returncode, (r.stdout + r.stderr)[-1500:])
            return False
        for f, a, b in edits:
            p = "/repo/" + f
            s = open(p, newline="").read()
            if s.count(a) != 1:
                print(id, "EDIT MATCHES", s.count(a), a)
                return False
            open(p, "w", newline="").write(s.replace(a, b))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        r = sh("bash %s/build.sh" % VP)
        if r.returncode:
            print(id, "BUILD", r.stdout[-1500:])
            return False
        sh("bash %s/test.sh /tmp/pl_o.json" % VP)
        b = json.load(open(VP + "/BASELINE.json"))["stable"]
        o = json.load(open("/tmp/pl_o.json"))
        miss = [x for x in b if x not in o["passed"]]
        if miss:
            print(id, "TESTS CATCH IT", miss)
            return False
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        if r.returncode in (0, 2):
            print(id, "DEMO WITH PATCH", r.returncode, (r.stdout + r.stderr)[-1500:])
            return False
        c = sh("./check.py %s" % prop, cwd="/verif")
        print(id, "planted;", "CAUGHT" if c.returncode == 1 and "VIOLATION property=" + prop in c.stdout else "MISSED rc=%d" % c.returncode,
              c.stdout[-160:].replace("\n", " | "))
        return True
    finally:
        clean()
