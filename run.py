#!/usr/bin/env python3
"""Build a check from /repo's working tree, run it, replay what it reports, write the evidence.

  run.py PROPERTY [--tier quick|thorough]   run one check
  run.py --replay FILE                      run the single case stored in a replay file
  run.py --setup                            compile everything once

Exit status of a check: 0 the property held on everything explored, 1 a violation was found and
reproduced (with a VIOLATION line), 2 the check itself failed.
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
CXX = "g++"
SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
       "-fno-omit-frame-pointer"]
COMMON = ["harness/vh.cpp", "harness/shim.cpp", "harness/model.cpp", "harness/ref57.cpp",
          "harness/refw57.cpp"]

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


def say(*a):
    print(*a, flush=True)


class CheckError(Exception):
    pass


# ---------------------------------------------------------------------------------------- build
def digest(parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree(root, exts):
    out = []
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


EXPORT_H = """#ifndef E57_DLL_H
#define E57_DLL_H
#define E57_DLL
#define E57FORMAT_NO_EXPORT
#define E57FORMAT_DEPRECATED __attribute__ ((__deprecated__))
#define E57FORMAT_DEPRECATED_EXPORT
#define E57FORMAT_DEPRECATED_NO_EXPORT
#endif
"""


def compile_all(jobs):
    """jobs: list of (source, object, argv). Only the missing objects are built."""
    todo = [j for j in jobs if not os.path.exists(j[1])]
    # biggest first
    todo.sort(key=lambda j: -os.path.getsize(j[0]))

    def one(j):
        src, obj, argv = j
        tmp = "%s.%d.tmp" % (obj, os.getpid())
        p = subprocess.run(argv + ["-c", src, "-o", tmp], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if p.returncode != 0:
            return src, p.stdout.decode(errors="replace")
        os.replace(tmp, obj)
        return None
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        bad = [r for r in ex.map(one, todo) if r]
    if bad:
        for src, txt in bad:
            say("compilation of %s failed:\n%s" % (src, txt[-4000:]))
        raise CheckError("compilation failed")


def build(prop, variants):
    """Returns {variant: path of the harness executable}."""
    os.makedirs(BUILD, exist_ok=True)
    gen = os.path.join(BUILD, "gen")
    os.makedirs(gen, exist_ok=True)
    exp = os.path.join(gen, "E57Export.h")
    if not os.path.exists(exp) or open(exp).read() != EXPORT_H:
        with open(exp + ".tmp", "w") as f:
            f.write(EXPORT_H)
        os.replace(exp + ".tmp", exp)
    src = tree(os.path.join(REPO, "src"), (".cpp", ".cc", ".cxx"))
    hdr = []
    for d in ("src", "include", "extern"):
        hdr += [f for f in tree(os.path.join(REPO, d), ("",))
                if not f.endswith((".cpp", ".cc", ".cxx", ".txt", ".md"))]
    lib_h = digest([x for f in hdr for x in (os.path.relpath(f, REPO), read(f))] + [EXPORT_H])
    inc = ["-I" + gen, "-I" + os.path.join(REPO, "include"),
           "-I" + os.path.join(REPO, "extern/CRCpp/inc"), "-I" + os.path.join(REPO, "src")]
    pub_h = digest([x for f in hdr if "/include/" in f for x in (f, read(f))] + [EXPORT_H])
    har_h = digest([x for f in sorted(glob.glob(HARNESS + "/*.hpp")) for x in (f, read(f))])
    jobs, exes = [], {}
    chk = CHECKS[prop]
    for var in variants:
        defs = ["-DREVISION_ID=\"E57Format-verif\"", "-DE57_ENABLE_DIAGNOSTIC_OUTPUT",
                "-DCRCPP_USE_CPP11", "-DCRCPP_BRANCHLESS"]
        level = "2"
        if "level1" in var:
            level = "1"
        defs.append("-DE57_VALIDATION_LEVEL=" + level)
        if "crazy" in var:
            defs.append("-DE57_WRITE_CRAZY_PACKET_MODE")
        flags = ["-std=c++14", "-O1", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS"] + SAN
        objs = []
        for s in src:
            key = digest([lib_h, os.path.relpath(s, REPO), read(s)] + flags + defs)
            o = os.path.join(BUILD, "lib-%s.o" % key)
            jobs.append((s, o, [CXX] + flags + defs + inc))
            objs.append(o)
        hflags = ["-std=c++17", "-O1", "-g1", "-w",
                  "-DVERIF_LEVEL=" + level] + SAN
        hs = [os.path.join(VERIF, c) for c in COMMON] + [os.path.join(HARNESS, chk["harness"])]
        for s in hs:
            key = digest([pub_h, har_h, s, read(s)] + hflags)
            o = os.path.join(BUILD, "har-%s.o" % key)
            jobs.append((s, o, [CXX] + hflags + inc[:2] + ["-I" + HARNESS]))
            objs.append(o)
        exe = os.path.join(BUILD, "%s-%s" % (prop, digest(objs)))
        exes[var] = (exe, objs)
    seen, uniq = set(), []
    for j in jobs:
        if j[1] not in seen:
            seen.add(j[1])
            uniq.append(j)
    compile_all(uniq)
    out = {}

    def link(item):
        var, (exe, objs) = item
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            p = subprocess.run([CXX] + SAN + objs + ["-o", tmp, "-lxerces-c", "-lpthread", "-ldl"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode != 0:
                say(p.stdout.decode(errors="replace")[-4000:])
                raise CheckError("link failed")
            os.replace(tmp, exe)
        return var, exe
    with concurrent.futures.ThreadPoolExecutor(max_workers=4) as ex:
        for var, exe in ex.map(link, exes.items()):
            out[var] = exe
    return out


# ------------------------------------------------------------------------------------------ run
def scratch_dir():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    return tempfile.mkdtemp(prefix="verif-", dir=base)


def run_case(exe, key, tier):
    """Replay one case in a fresh process: (reproduced, text)"""
    sc = scratch_dir()
    try:
        p = subprocess.run([exe, "--replay", key, "--tier", tier, "--scratch", sc + "/verif-r"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
        txt = p.stdout.decode(errors="replace")
        if p.returncode == 0:
            return False, txt
        if p.returncode == 2 and "no such case" in txt:
            raise CheckError("case '%s' cannot be replayed" % key)
        return True, txt
    except subprocess.TimeoutExpired:
        return True, "the replay did not end within 400 s"
    finally:
        shutil.rmtree(sc, ignore_errors=True)


def load_known(prop):
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return [k for k in json.load(f)["findings"]
                if k["property"] == prop and k["status"] == "known"]


def explore(prop, var, exe, tier, budget, jobs, known):
    sc = scratch_dir()
    out = os.path.join(sc, "out")
    os.mkdir(out)
    try:
        kf = os.path.join(sc, "known.txt")
        with open(kf, "w") as f:
            for k in known:
                f.write("%s\t%s\t%s\n" % (k["id"], k.get("key", ""), k.get("msg", "")))
        p = subprocess.run([exe, "--tier", tier, "--out", out, "--scratch", sc + "/verif-w",
                            "--jobs", str(jobs), "--budget", str(budget), "--known", kf],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            say(p.stdout.decode(errors="replace")[-3000:])
            raise CheckError("the explorer ended with status %d" % p.returncode)
        summary = json.load(open(out + "/summary.json"))
        summary.update(total=0, capped=summary["stopped"], counters={}, samples=[],
                       outcome_samples=[])
        for s in sorted(glob.glob(out + "/stats.*.json")):
            st = json.load(open(s))
            summary["total"] = max(summary["total"], st["total"])
            summary["capped"] |= st["capped"]
            for k, v in st["counters"].items():
                summary["counters"][k] = summary["counters"].get(k, 0) + v
            summary["samples"] += st["samples"][:3]
            for x in st["outcome_samples"]:
                if x not in summary["outcome_samples"]:
                    summary["outcome_samples"].append(x)
        viol = []
        for v in sorted(glob.glob(out + "/viol.*.jsonl")):
            viol += [json.loads(line) for line in open(v) if line.strip()]
        return summary, viol
    finally:
        shutil.rmtree(sc, ignore_errors=True)


def match_known(known, v):
    for k in known:
        if re.search(k.get("key", ""), v["key"]) and re.search(k.get("msg", ""), v["msg"]):
            return k["id"]
    return None


def dev_report(viol):
    """While developing: all violations, grouped by message"""
    groups = {}
    for v in viol:
        sig = re.sub(r"0x[0-9a-f]+", "X", re.sub(r"-?\d+", "#", squeeze(v["msg"], 400)))[:160]
        groups.setdefault(sig, []).append(v)
    for sig, vs in sorted(groups.items(), key=lambda g: -len(g[1])):
        vs.sort(key=lambda v: len(v["key"]))
        say("--- %d x %s" % (len(vs), squeeze(vs[0]["msg"], 700)))
        for v in vs[:4]:
            say("      case %s%s" % (v["key"], " KNOWN " + v["known"] if v.get("known") else ""))


def squeeze(s, n=600):
    return re.sub(r"\s+", " ", s).strip()[:n]


def check(prop, tier):
    t0 = time.time()
    chk = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    variants = chk.get("variants", ["level2"])
    known = load_known(prop)
    exes = build(prop, variants)
    t_build = time.time() - t0
    say("%s: built %s in %.1f s" % (prop, ", ".join(variants), t_build))
    total_budget = 780 if tier == "quick" else float(os.environ.get("VERIF_BUDGET", "800"))
    confirmed, pending, seen_known, summaries, slow = [], [], {}, {}, 0
    for n, var in enumerate(variants):
        left = total_budget - (time.time() - t0) - 60
        budget = max(20, left / (len(variants) - n))
        summary, viol = explore(prop, var, exes[var], tier, budget, os.cpu_count() or 4, known)
        summaries[var] = summary
        say("%s[%s]: %d of %d cases, %d transitions, %d states, %d outcomes, %d crashes, %.1f s%s" %
            (prop, var, summary["ran"], summary["total"], summary["transitions"],
             summary["states"], summary["outcomes"], summary["crashes"], summary["wall"],
             " (CAPPED)" if summary["capped"] else ""))
        if os.environ.get("VERIF_DEV"):
            dev_report(viol)
            continue
        viol.sort(key=lambda v: (len(v["key"]), v["key"]))
        for v in viol:
            k = v.get("known") or match_known(known, v)
            if k:
                seen_known[k] = v
                continue
            if len(confirmed) >= 3 or len(pending) >= 12:
                break
            if confirmed and time.time() - t0 > 200:
                break
            again, txt = run_case(exes[var], v["key"], tier)
            if again:
                confirmed.append(dict(v, variant=var, replay_output=txt[-3000:]))
            elif v["msg"].startswith("hang") and slow < 12:
                # Too slow on a busy machine, but it has been carried out now, and holds
                slow += 1
                say("%s: case '%s' took long" % (prop, v["key"]))
            else:
                pending.append((var, v))
    if pending and not confirmed:
        # The cases hold on their own: see whether they fail again after the cases before them
        var = pending[0][0]
        keys = {v["key"]: v for x, v in pending if x == var}
        _, viol = explore(prop, var, exes[var], tier, 300, os.cpu_count() or 4, known)
        for v in viol:
            if v["key"] in keys and len(confirmed) < 3:
                confirmed.append(dict(v, variant=var, replay_output="", whole=True))
        if not confirmed:
            var, v = pending[0]
            raise CheckError("case '%s' was reported (%s) but holds when replayed" %
                             (v["key"], squeeze(v["msg"])))
    for k in known:
        if k["id"] in seen_known:
            say("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    os.makedirs(os.path.join(EVIDENCE, "replays"), exist_ok=True)
    for i, v in enumerate(confirmed):
        path = os.path.join(EVIDENCE, "replays", "%s-%d.json" % (prop, i))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "variant": v["variant"], "case": v["key"],
                       "message": v["msg"], "whole": v.get("whole", False), "replay_output": v["replay_output"],
                       "replay_cmd": "python3 %s/run.py --replay %s" % (VERIF, path)}, f, indent=1)
        say("case %s: %s" % (v["key"], squeeze(v["msg"])))
        say("VIOLATION property=%s replay=%s" % (prop, path))
    write_evidence(prop, tier, seed, summaries, confirmed, time.time() - t0)
    return 1 if confirmed else 0


def write_evidence(prop, tier, seed, summaries, confirmed, wall):
    chk = CHECKS[prop]
    S = summaries.values()
    capped = any(s["capped"] for s in S) or any(s["ran"] != s["total"] for s in S)
    cov = {}
    ran = sum(s["ran"] for s in S)
    samples = [k for s in S for k in s["samples"]][:12]
    if chk["level"] == "model_checking":
        cov.update(states=max(s["states"] for s in S),
                   transitions=sum(s["transitions"] for s in S),
                   traces_validated_against_impl=ran, samples=samples)
    else:
        cov.update(evaluations=ran, distinct_nontrivial=max(s["outcomes"] for s in S),
                   rule=chk["rule"], samples=samples)
        if any(s["transitions"] for s in S):
            cov["library_calls_checked"] = sum(s["transitions"] for s in S)
    cov["exhaustive"] = not capped
    cov["cases_in_space"] = {v: s["total"] for v, s in summaries.items()}
    if chk["level"] == "model_checking":
        cov["distinct_outcomes"] = max(s["outcomes"] for s in S)
    counters = {}
    for s in S:
        for k, v in s["counters"].items():
            counters[k] = counters.get(k, 0) + v
    if counters:
        cov["counters"] = counters
    cov["outcome_samples"] = [k for s in S for k in s["outcome_samples"]][:20]
    cov["bounds"] = chk["bounds"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": chk["level"], "coverage": cov,
          "assumptions": chk["assumptions"], "wall_s": round(wall, 2),
          "violations": len(confirmed)}
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, "%s.json.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(EVIDENCE, "%s.json" % prop))


def main(argv):
    if argv and argv[0] == "--setup":
        for p in CHECKS:
            build(p, CHECKS[p].get("variants", ["level2"]))
        return 0
    if len(argv) == 2 and argv[0] == "--replay":
        r = json.load(open(argv[1]))
        exe = build(r["property"], [r["variant"]])[r["variant"]]
        if r.get("whole"):
            _, viol = explore(r["property"], r["variant"], exe, r["tier"], 600, os.cpu_count() or 4,
                              load_known(r["property"]))
            again = any(v["key"] == r["case"] for v in viol)
            txt = "the case was run after the cases before it"
        else:
            again, txt = run_case(exe, r["case"], r["tier"])
        say(txt)
        if again:
            say("VIOLATION property=%s replay=%s" % (r["property"], os.path.abspath(argv[1])))
        return 1 if again else 0
    if not argv or argv[0] not in CHECKS:
        say(__doc__)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return check(argv[0], tier)


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except CheckError as e:
        say("CHECK ERROR: %s" % e)
        sys.exit(2)
