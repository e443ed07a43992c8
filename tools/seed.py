#!/usr/bin/env python3
"""seed.py: create and confirm planted bugs.  Usage: from seed import seed (see the seeds script of a session).
Confirms in a scratch copy: builds, passes the stable tests, demo passes before and fails after."""
import os, subprocess, shutil, json, tempfile, sys

SEEDED = "/verif/seeded"
DEMO = '''#!/bin/bash
# builds and runs the demonstration beside this file against the ttl headers of the current directory
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
g++ -std=gnu++17 -g -O0 %s-fno-builtin -w -I"$PWD" -o "$d/demo" "$here/demo.cpp" || exit 2
timeout 60 "$d/demo"
'''


def sh(cmd, cwd=None, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def seed(id, prop, edits, demo, needs, breaks, san=True, script=None):
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        wt = d + "/repo"
        sh("cp -a /repo %s" % wt)
        for path, old, new in edits:
            p = os.path.join(wt, path)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "EDIT does not match once:", path, s.count(old), repr(old[:60]))
                return False
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", cwd=wt).stdout
        out = os.path.join(SEEDED, id)
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        for name, text in (demo if isinstance(demo, dict) else {"demo.cpp": demo}).items():
            open(out + "/" + name, "w").write(text)
        open(out + "/demo.sh", "w").write(script or DEMO % ("-fsanitize=address,undefined " if san else ""))
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
        a = sh("ASAN_OPTIONS=detect_leaks=1 " + out + "/demo.sh", cwd="/repo")
        b = sh("ASAN_OPTIONS=detect_leaks=1 " + out + "/demo.sh", cwd=wt)
        # tests, natively in the copy
        tests = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        bad = []
        sh("make -j8 -k -C t", cwd=wt)
        names = [t for t in tests if t != "test_list_with_operator_decl"]
        sh("cd t && for t in %s; do rm -f $t $t.o; done" % " ".join(names), cwd=wt)
        procs = []
        for t in names:
            procs.append((t, subprocess.Popen("g++ -ggdb -O1 -foptimize-sibling-calls -finline-small-functions -findirect-inlining -fstrict-aliasing -fstrict-overflow -I%s -I%s/t -fno-exceptions -fno-rtti -w %s.cpp t.cpp -o %s.bin && timeout 60 ./%s.bin >/dev/null 2>&1" %
                                              (wt, wt, t, t, t), shell=True, cwd=wt + "/t", stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        for t, p in procs:
            e = p.communicate()[1]
            if p.returncode:
                bad.append(t + ":" + str(p.returncode) + (e or b"")[-200:].decode())
        ok = a.returncode == 0 and b.returncode not in (0, 2) and not bad
        print(id, "ok" if ok else "BAD", "clean=%d patched=%d tests=%s" % (a.returncode, b.returncode, bad))
        if not ok:
            print("   ", a.stderr[-500:], b.stderr[-500:] if b.returncode in (0, 2) else "")
        return ok
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_checks(ids=None):
    """apply every planted bug to a copy and run its property's check (TTL_REPO)"""
    for id in sorted(ids or os.listdir(SEEDED)):
        out = os.path.join(SEEDED, id)
        prop = json.load(open(out + "/meta.json"))["property"]
        d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
        try:
            wt = d + "/repo"
            sh("mkdir %s && cp -a /repo/ttl /repo/.git %s/ && cd %s && git checkout -q -- . && git apply %s/patch.diff" % (wt, wt, wt, out))
            r = sh("TTL_REPO=%s python3 run.py %s" % (wt, prop), cwd="/verif", timeout=900)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s " % prop)]
            n = [l for l in r.stdout.splitlines() if l.startswith("  ")]
            print("%-24s %s rc=%d %s %s" % (id, prop, r.returncode, "CAUGHT" if v else "missed", n[0].strip()[:150] if n else r.stdout.strip()[-200:]))
        finally:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    run_checks(sys.argv[1:])
