#!/usr/bin/env python3
"""Try planted bugs in a scratch copy of /repo, never in /repo itself.

  seed.py ID...            confirm each bug (builds, tests pass, demo fails) and run its check
  seed.py --checks P01,P04 ID...   run these checks instead
  seed.py --only-checks ID...      skip the confirmation

The scratch copy is /tmp/mut; it is made from /repo's HEAD and can be removed at any time.
"""
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MUT = "/tmp/mut"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def reset():
    head = sh("git -C /repo rev-parse HEAD").stdout.decode().strip()
    if not os.path.isdir(MUT):
        sh("cp -a /repo %s" % MUT)
    sh("git -C %s fetch -q /repo && git -C %s checkout -q -f %s && git -C %s checkout -- ." % (MUT, MUT, head, MUT))
    for n in ("build", "test"):
        s = open("/opt/vp/%s.sh" % n).read().replace("/repo", MUT).replace("/opt/vp/build.sh", MUT + "/_vpbuild.sh")
        open("%s/_vp%s.sh" % (MUT, n), "w").write(s)
    sh("printf '_vp*\\n' >> %s/.git/info/exclude" % MUT)
    cache = open(MUT + "/_build/CMakeCache.txt").read() if os.path.exists(MUT + "/_build/CMakeCache.txt") else ""
    if "/repo" in cache:
        sh("rm -rf /tmp/mut/_build")


def demo(sid):
    p = sh("timeout 300 bash %s/seeded/%s/demo.sh" % (VERIF, sid), cwd=MUT)
    return p.returncode, p.stdout.decode(errors="replace")


def main():
    args, checks, confirm = sys.argv[1:], None, True
    while args and args[0].startswith("--"):
        a = args.pop(0)
        if a == "--checks":
            checks = args.pop(0).split(",")
        elif a == "--only-checks":
            confirm = False
    ok = True
    for sid in args:
        d = os.path.join(VERIF, "seeded", sid)
        meta = json.load(open(d + "/meta.json"))
        reset()
        line = [sid, meta["property"]]
        if confirm:
            b = sh("bash %s/_vpbuild.sh" % MUT)
            rc, out = demo(sid)
            line.append("clean-demo=%d" % rc)
            if rc:
                print(out[-2000:])
        p = sh("git -C %s apply %s/patch.diff" % (MUT, d))
        if p.returncode:
            print(sid, "patch does not apply", p.stdout.decode())
            ok = False
            continue
        if confirm:
            b = sh("bash %s/_vpbuild.sh" % MUT)
            if b.returncode:
                print(sid, "does not build", b.stdout.decode()[-3000:])
                ok = False
                continue
            sh("bash %s/_vptest.sh /tmp/mut-test.json" % MUT)
            t = json.load(open("/tmp/mut-test.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            line.append("tests=%d/%d" % (len(t["passed"]), len(t["failed"])))
            rc, out = demo(sid)
            line.append("bug-demo=%d" % rc)
            if rc == 0:
                print(out[-2000:])
        for c in checks or [meta["property"]]:
            t0 = time.time()
            env = dict(os.environ, VERIF_REPO=MUT, VERIF_EVIDENCE="/tmp/mut-ev")
            p = sh("python3 %s/run.py %s" % (VERIF, c), env=env)
            out = p.stdout.decode(errors="replace")
            line.append("%s=%d(%ds)" % (c, p.returncode, time.time() - t0))
            if p.returncode != 1 or "VIOLATION property=%s" % c not in out:
                print(out[-1500:])
            else:
                print("   ", [x for x in out.splitlines() if "VIOLATION" in x or "violat" in x.lower()][:2])
        print(*line, flush=True)
        reset()


main()
