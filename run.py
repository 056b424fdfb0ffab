#!/usr/bin/env python3
"""Runs the check of one property.

  run.py ID [--tier quick|thorough] [--replay FILE] [--build-only]

Builds the library from the repository's working tree together with the
harnesses the property needs, runs its generated-case properties in parallel
shards, replays and reports any failure, and writes evidence/ID.json.
Exit 0: held on everything explored. Exit 1: VIOLATION line printed.
"""
import argparse, json, os, re, shutil, signal, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks

REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def log(*a):
    print(*a, flush=True)


def build(variant, harnesses):
    """Configure and build; returns the directory of the executables."""
    v = checks.VARIANTS[variant]
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    stamp = os.path.join(d, "verif.stamp")
    key = json.dumps([v, REPO])
    if not os.path.exists(os.path.join(d, "build.ninja")) or not os.path.exists(stamp) or open(stamp).read() != key:
        shutil.rmtree(d)
        os.makedirs(d)
    cmd = ["cmake", "-S", os.path.join(HERE, "cmake"), "-B", d, "-G", "Ninja",
           "-DREPO=" + REPO, "-DVARIANT_FLAGS=" + v["flags"], "-DCMAKE_BUILD_TYPE="]
    cmd += ["-DCMAKE_CXX_COMPILER=" + v.get("cxx", "g++"), "-DCMAKE_C_COMPILER=" + v.get("cc", "gcc")]
    cmd += v.get("cmake", [])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log("ERROR: cmake failed for variant", variant)
        log(r.stdout[-4000:])
        sys.exit(2)
    open(stamp, "w").write(key)
    r = subprocess.run(["ninja", "-C", d, "-j", str(JOBS)] + sorted(set(harnesses)),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log("ERROR: build failed for variant", variant)
        errs = [l for l in r.stdout.split("\n") if "error" in l or "undefined" in l]
        log("\n".join(errs[:40]) or r.stdout[-4000:])
        sys.exit(2)
    return d


def load_known(pid):
    """KNOWN property=ID prop=P sig=S :: description"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN property=(\S+) prop=(\S+) sig=(\S+) :: (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4).strip()))
    return out


def run_env(variant):
    env = dict(os.environ)
    env.update(checks.VARIANTS[variant].get("env", {}))
    env["VERIF_DIR"] = HERE
    env["VERIF_REPO"] = REPO
    return env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    chk = checks.CHECKS[a.id]
    tasks = chk["tasks"]

    dirs = {}
    for variant in sorted(set(t["variant"] for t in tasks)):
        dirs[variant] = build(variant, [t["harness"] for t in tasks if t["variant"] == variant])
    if a.build_only:
        return 0
    for prep in chk.get("prepare", []):
        r = subprocess.run(prep, shell=True, cwd=HERE, env=dict(os.environ, VERIF_REPO=REPO, VERIF_BUILD=BUILD, VERIF_SEED=str(seed), VERIF_TIER=tier),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            log("ERROR: preparation failed:", prep)
            log(r.stdout[-3000:])
            return 2
    t_build = time.time() - t0

    if a.replay:
        text = open(a.replay).read()
        m = re.search(r"^prop (\S+)", text, re.M)
        hv = re.search(r"^variant (\S+)", text, re.M)
        for t in tasks:
            if t["prop"] == m.group(1) and (not hv or hv.group(1) == t["variant"]):
                r = subprocess.run([os.path.join(dirs[t["variant"]], t["harness"]), "--replay", a.replay, "--out", os.path.join(BUILD),
                                    "--cpu-limit", str(t.get("cpu", 20))], env=run_env(t["variant"]))
                if r.returncode == 1:
                    log("VIOLATION property=%s replay=%s" % (a.id, a.replay))
                return r.returncode
        log("ERROR: no such property in this check")
        return 2

    out = os.path.join(BUILD, "out", a.id)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    known = load_known(a.id)
    for prop, sig, desc in known:
        log("KNOWN-FINDING: property=%s %s" % (a.id, desc))
    jobs = []
    for t in tasks:
        total = t["quick"] if tier == "quick" else t.get("thorough", t["quick"] * 20)
        total = max(1, int(total * a.scale))
        shards = t.get("shards", JOBS)
        kf = os.path.join(out, "known." + t["prop"])
        open(kf, "w").write("".join(s + "\n" for p, s, _ in known if p == t["prop"]))
        for s in range(shards):
            jobs.append((t, s, max(1, (total + shards - 1) // shards), kf))
    jobs.sort(key=lambda j: -j[0].get("weight", 1))
    max_s = checks.MAX_S[tier]
    stop = []

    running = {}

    def kill(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass

    def one(job):
        t, s, n, kf = job
        if stop:
            return (job, 0, "", "")
        d = os.path.join(out, t["variant"])
        os.makedirs(d, exist_ok=True)
        cmd = [os.path.join(dirs[t["variant"]], t["harness"]), "--prop", t["prop"], "--seed", str(seed), "--shard", str(s),
               "--cases", str(n), "--out", d, "--known", kf, "--max-ms", str(int(max_s * 1000)),
               "--cpu-limit", str(t.get("cpu", 20))] + (["--racy"] if t.get("racy") else [])
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                             env=run_env(t["variant"]), start_new_session=True)
        running[id(job)] = p
        try:
            o, e = p.communicate(timeout=max_s + 400)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            kill(p)
            rc, o, e = 3, "", "timeout"
        running.pop(id(job), None)
        if rc < 0 and stop:
            return (job, 0, "", "")   # ended because another shard failed
        if rc == 1:
            stop.append(1)   # one violation is enough
            for q in list(running.values()):
                kill(q)
        return (job, rc, o, e)

    with ThreadPoolExecutor(JOBS) as ex:
        results = list(ex.map(one, jobs))

    violations, errors, notes = [], [], []
    for (t, s, n, kf), rc, o, e in results:
        for line in o.split("\n"):
            if line.startswith("FLAKY"):
                notes.append(line)
        if rc == 1:
            m = re.search(r"^FAILED (.*) replay=(\S+)\n(.*)", o, re.M | re.S)
            rp = m.group(2)
            keep = os.path.join(HERE, "replays") if BUILD == os.path.join(HERE, "build") else os.path.join(BUILD, "replays")
            os.makedirs(keep, exist_ok=True)
            dst = os.path.join(keep, "%s.%s.%d.replay" % (a.id, t["prop"], s))
            txt = open(rp).read()
            open(dst, "w").write(txt.replace("\n", "\nvariant %s\n" % t["variant"], 1))
            violations.append((dst, m.group(1), m.group(3).strip()))
        elif rc != 0:
            errors.append("%s/%s shard %d exited %d: %s" % (t["harness"], t["prop"], s, rc, e[-600:]))

    # merge statistics
    ev = nt = excl = flaky = 0
    budget = 0
    labels, samples, hashes = {}, [], set()
    distinct_over = 0
    per = {}
    for (t, s, n, kf), rc, o, e in results:
        base = os.path.join(out, t["variant"], "%s.%d" % (t["prop"], s))
        if not os.path.exists(base + ".stats"):
            continue
        pp = per.setdefault(t["prop"] + ("@" + t["variant"] if t["variant"] != "plain" else ""), dict(evaluations=0, nontrivial=0, labels={}))
        for line in open(base + ".stats", errors="replace"):
            k, _, v = line.rstrip("\n").partition(" ")
            if k == "evaluations":
                ev += int(v); pp["evaluations"] += int(v)
            elif k == "nontrivial":
                nt += int(v); pp["nontrivial"] += int(v)
            elif k == "excluded":
                excl += int(v)
            elif k == "flaky":
                flaky += int(v)
            elif k == "budget_hit":
                budget += int(v)
            elif k == "label":
                c, _, nm = v.partition(" ")
                pp["labels"][nm] = pp["labels"].get(nm, 0) + int(c)
            elif k == "sample" and len([x for x in samples if x.startswith(t["prop"] + ":")]) < 3:
                samples.append(t["prop"] + ": " + v.replace("~", "\n")[:1200])
        hb = open(base + ".hashes", "rb").read()
        salt = hash(t["prop"] + t["variant"]) & 0
        for (x,) in struct.iter_unpack("<Q", hb):
            hashes.add((x, t["prop"]))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evid = {
        "property": a.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(hashes), "nontrivial": nt,
            "rule": chk["rule"], "samples": samples[:12] or ["(no case ran)"],
            "properties": per, "excluded_known": excl, "flaky_not_reported": flaky,
            "shards_stopped_by_time_budget": budget, "build_s": round(t_build, 1),
        },
        "wall_s": round(time.time() - t0, 1),
    }
    ed = os.path.join(HERE, "evidence") if BUILD == os.path.join(HERE, "build") else BUILD
    json.dump(evid, open(os.path.join(ed, a.id + ".json"), "w"), indent=1)
    log("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs (build %.1fs)%s" % (
        a.id, tier, seed, ev, len(hashes), time.time() - t0, t_build, ", %d shards hit the time budget" % budget if budget else ""))
    for n in notes[:10]:
        log(n[:600])
    if violations:
        for dst, head, msg in violations:
            log(head)
            log("\n".join(msg.split("\n")[:25]))
            log("VIOLATION property=%s replay=%s" % (a.id, dst))
        return 1
    if errors:
        for x in errors[:10]:
            log("ERROR:", x)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
