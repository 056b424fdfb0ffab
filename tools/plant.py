#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo.

  plant.py confirm ID...      apply, build, run the stable tests, run the demo with and without
  plant.py catch ID... [-- CHECK...]   run checks against the scratch copy with the patch applied
"""
import json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seed"; R = S + "/repo"

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

def prepare():
    os.makedirs(S, exist_ok=True)
    if not os.path.isdir(R):
        r = sh("git clone -q /repo %s" % R); assert r.returncode == 0, r.stdout
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    r = sh("git -C %s fetch -q origin && git -C %s checkout -q -f %s && git -C %s clean -qfd -e _build" % (R, R, head, R)); assert r.returncode == 0, r.stdout

def build():
    return sh("cmake -S %s -B %s/_build/main -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON -DLA_BINARY_TRANSLATION=OFF "
              "-DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS && ninja -C %s/_build/main -j8" % (R, R, R),
              env=dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++"))

def demo(i):
    d = S + "/demo"; shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(HERE, "seeded", i), d, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    try:
        r = subprocess.run(["bash", d + "/demo.sh"], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def tests():
    rep = S + "/rep"; shutil.rmtree(rep, ignore_errors=True); os.makedirs(rep)
    shutil.rmtree("/tmp/loongarch_tests", ignore_errors=True)
    sh("python3 /opt/vp/run_tests.py %s/_build/main %s; python3 /opt/vp/results.py %s/out.json lines:%s/results.txt" % (R, rep, S, rep))
    got = json.load(open(S + "/out.json"))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [t for t in stable if t not in got["passed"]]

def apply(i):
    r = sh("git -C %s apply %s/seeded/%s/patch.diff" % (R, HERE, i))
    return r.returncode == 0 or print(i, "DOES NOT APPLY", r.stdout)

def undo():
    sh("git -C %s checkout -q -- ." % R)

mode, ids = sys.argv[1], sys.argv[2:]
chk = []
if "--" in ids:
    k = ids.index("--"); chk = ids[k + 1:]; ids = ids[:k]
if ids == ["all"]:
    ids = sorted(os.listdir(HERE + "/seeded"))
prepare()
bad = 0
for i in ids:
    undo()
    if mode == "confirm":
        b = build()
        if b.returncode: print("clean build failed", b.stdout[-800:]); sys.exit(1)
        rc0, o0 = demo(i)
        if not apply(i): bad += 1; continue
        b = build()
        if b.returncode: print(i, "build failed\n", "\n".join(l for l in b.stdout.split("\n") if "error" in l)[:1500]); bad += 1; undo(); continue
        rc1, o1 = demo(i)
        t = tests()
        undo()
        ok = rc0 == 0 and rc1 != 0 and not t
        bad += not ok
        print(i, "OK" if ok else "BAD", "demo clean=%d patched=%d" % (rc0, rc1), "tests failing:", t[:6])
        if rc0: print("   clean:", o0[-600:])
        print("   patched:", o1[-300:].strip())
    else:
        if not apply(i): continue
        prop = json.load(open("%s/seeded/%s/meta.json" % (HERE, i)))["property"]
        for c in chk or [prop]:
            r = subprocess.run([sys.executable, HERE + "/run.py", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                               env=dict(os.environ, VERIF_REPO=R, VERIF_BUILD=S + "/vbuild"))
            lines = r.stdout.strip().split("\n")
            k = next((n for n, l in enumerate(lines) if l.startswith("FAILED")), None)
            print(i, c, "caught" if r.returncode == 1 else "MISSED rc=%d" % r.returncode, "|", (lines[k] + " :: " + lines[k + 1])[:260] if k is not None else lines[-1][:200])
        undo()
sys.exit(bad != 0)
