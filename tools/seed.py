#!/usr/bin/env python3
"""seed.py new ID PROP: takes the change in /repo's working tree as the planted
bug ID, whose demo.py was written in seeded/ID (or given), and confirms it.
seed.py verify ID...: confirms again. seed.py catch ID...: runs its check."""
import json
import os
import shutil
import subprocess
import sys

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(TOP, "seeded")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def demo(folder):
    tmp = "/tmp/seed-demo-%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(folder, tmp, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    proc = sh("timeout 300 bash %s/demo.sh" % tmp, cwd="/repo")
    shutil.rmtree(tmp, ignore_errors=True)
    return proc.returncode, proc.stdout.decode(errors="replace")[-600:]


def confirm(name):
    folder = os.path.join(SEEDED, name)
    patch = os.path.join(folder, "patch.diff")
    assert sh("git -C /repo status --porcelain").stdout.strip() == b"", "the tree of /repo is not clean"
    sh("bash /opt/vp/build.sh")
    rc, text = demo(folder)
    if rc != 0:
        return "demo fails on the clean tree: %s %s" % (rc, text)
    proc = sh("git -C /repo apply %s" % patch)
    if proc.returncode:
        return "does not apply: %s" % proc.stdout.decode()
    try:
        base = sh("git -C /repo log --format=%H --reverse | head -1").stdout.decode().strip()
        original = False
        for line in open(patch, "rb").read().decode("latin-1").split("\n"):
            if line.startswith("-") and not line.startswith("---"):
                path = [l for l in open(patch, "rb").read().decode("latin-1").split("\n") if l.startswith("--- a/")]
                for p in path:
                    old = sh("git -C /repo show %s:%s" % (base, p[6:].strip())).stdout.decode("latin-1")
                    if line[1:].strip() and line[1:].strip() in old:
                        original = True
        proc = sh("bash /opt/vp/build.sh")
        if proc.returncode:
            return "does not build: %s" % proc.stdout.decode(errors="replace")[-600:]
        sh("bash /opt/vp/test.sh /tmp/seed-t.json")
        passed = set(json.load(open("/tmp/seed-t.json"))["passed"])
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        if stable - passed:
            return "tests fail: %s" % (stable - passed)
        rc, text = demo(folder)
        if rc == 0:
            return "demo passes with the patch"
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    return "ok%s (%s)" % ("" if original else " BUT NO ORIGINAL LINE CHANGED", text.strip().split("\n")[-1][:150])


def catch(name, tier="quick"):
    folder = os.path.join(SEEDED, name)
    pid = json.load(open(os.path.join(folder, "meta.json")))["property"]
    assert sh("git -C /repo status --porcelain").stdout.strip() == b""
    sh("git -C /repo apply %s" % os.path.join(folder, "patch.diff"))
    try:
        proc = sh("VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py %s --tier %s" % (pid, tier), cwd=TOP)
    finally:
        sh("git -C /repo checkout -- .")
    out = proc.stdout.decode(errors="replace")
    hit = [l for l in out.split("\n") if l.startswith("%s [" % pid)]
    print("%s %s: %s exit %d %s" % (name, pid, "CAUGHT" if proc.returncode == 1 and "VIOLATION property=%s" % pid in out else "MISSED",
                                    proc.returncode, hit[0][:200] if hit else out[-300:]), flush=True)


def new(name, pid, needs, breaks):
    folder = os.path.join(SEEDED, name)
    os.makedirs(folder, exist_ok=True)
    diff = sh("git -C /repo diff").stdout
    assert diff.strip(), "no change in /repo"
    with open(os.path.join(folder, "patch.diff"), "wb") as handle:
        handle.write(diff)
    with open(os.path.join(folder, "meta.json"), "w") as handle:
        json.dump({"property": pid, "needs": needs, "what_it_breaks": breaks}, handle, indent=1)
        handle.write("\n")
    if not os.path.exists(os.path.join(folder, "demo.sh")):
        with open(os.path.join(folder, "demo.sh"), "w") as handle:
            handle.write('#!/bin/bash\nexec timeout 250 python3 -B "$(dirname "$0")/demo.py"\n')
    text = open(os.path.join(folder, "demo.py")).read() if os.path.exists(os.path.join(folder, "demo.py")) else ""
    if "from h import" in text:
        shutil.copy(os.path.join(TOP, "tools", "seedlib", "h.py"), folder)
        shutil.copy(os.path.join(TOP, "conf", "config.h"), folder)
    sh("git -C /repo checkout -- .")
    print(name, confirm(name))
    catch(name)


if __name__ == "__main__":
    if sys.argv[1] == "new":
        new(*sys.argv[2:6])
    else:
        names = sys.argv[2:] or sorted(os.listdir(SEEDED))
        for n in names:
            if sys.argv[1] == "verify":
                print(n, confirm(n), flush=True)
            else:
                catch(n)
