#!/usr/bin/env python3
"""Decides one property by deterministic simulation.

check.py --prop C01 [--tier quick|thorough]     search; exit 0, or 1 with a VIOLATION line
check.py --replay FILE                          replay with a full trace
"""
import argparse
import json
import os
import select
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

HERE = build.HERE
LEVEL = "exploration"

# indices per property and tier (one index may hold many runs)
PLAN = json.load(open(os.path.join(HERE, "plan.json")))

REAL = ["SQLParser", "SQLParserResult", "generated scanner and parser", "statement and expression classes", "sqlhelper printing", "libstdc++, glibc string/number/locale functions", "pthreads (one runs at a time)", "AddressSanitizer heap (behind the failure and fill seam)"]
STUB = ["thread scheduler (simulator)", "malloc/new failure and fill seam", "stderr and std::cout sinks", "mutex, rwlock, spin lock, semaphore, once, condition and sleep waits, timed ones too (simulator decides)",
        "clocks (simulated: 1 us per step, jumps, stalls)", "strcasecmp/strncasecmp (locale-aware replacement, ASan's ignore the locale)", "C string and memory functions (passed through, they are yield points on static storage)"]


def sh_env():
    e = dict(os.environ)
    e.pop("ASAN_OPTIONS", None)
    e["LC_ALL"] = "C"
    return e


def base_args():
    return ["--corpus=" + os.path.join(HERE, "sim", "corpus"), "--loc=" + os.path.join(HERE, ".build", "loc")]


def replay(exe, path, trace=False):
    r = subprocess.run([exe, "replay", "--file=" + path] + base_args() + (["--trace=1"] if trace else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=sh_env(), timeout=300)
    out = r.stdout.decode("utf-8", "replace")
    cls = h = None
    for l in out.splitlines():
        if l.startswith("REPLAY class="):
            cls = l.split()[1][6:]
            h = l.split("hash=")[1].split()[0]
    return r.returncode, cls, h, out


def load_known(prop):
    """known-findings.txt: lines "finding: property=<id> class=<class> replay=<file> <text>" (open) and "fixed: ..." (suppress nothing)."""
    res = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.isfile(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                f = dict(x.split("=", 1) for x in l.split()[1:4] if "=" in x)
                if f.get("property") == prop:
                    f["text"] = l.split(" ", 4)[4] if len(l.split(" ", 4)) > 4 else ""
                    res.append(f)
    return res


def spec_texts(path):
    return sorted(l for l in open(path, errors="replace").read().splitlines() if l.startswith(("text ", "op ")))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED") or "1")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    ap.add_argument("--evidence", default=None)
    a = ap.parse_args()
    t0 = time.time()
    exe = build.build()
    if a.replay:
        rc, cls, h, out = replay(exe, os.path.abspath(a.replay), trace=True)
        sys.stdout.write(out)
        return 1 if rc == 1 else rc
    prop, tier = a.prop, a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(a.seed)
    except ValueError:
        seed = 1
    useed = seed & 0xFFFFFFFFFFFF
    plan = PLAN[prop]
    cpus = sorted(os.sched_getaffinity(0))
    nw = 8
    total = int(plan[tier]["indices"] * a.scale)
    cap = plan[tier].get("time", 240)
    outdir = os.path.join(HERE, "replays")
    os.makedirs(outdir, exist_ok=True)
    build_s = time.time() - t0

    violation = None
    problems = []
    known = load_known(prop)
    known_seen = []

    # 1. replays of defects that were found and repaired once
    rdir = os.path.join(HERE, "regress", prop)
    nreg = 0
    if os.path.isdir(rdir):
        for n in sorted(os.listdir(rdir)):
            if not n.endswith(".replay"):
                continue
            p = os.path.join(rdir, n)
            rc, cls, h, out = replay(exe, p)
            nreg += 1
            if rc == 1:
                rc2, cls2, h2, _ = replay(exe, p)
                if cls2 == cls and h2 == h:
                    dst = os.path.join(outdir, n)
                    shutil.copyfile(p, dst)
                    violation = {"class": cls, "path": dst, "message": out.split("\n", 1)[1][:1500] if "\n" in out else out, "hash": h, "index": -1}
                    break
                problems.append("replay %s did not repeat" % n)
    for k in known:
        p = os.path.join(HERE, k.get("replay", ""))
        if os.path.isfile(p):
            rc, cls, h, out = replay(exe, p)
            if rc == 1 and cls == k["class"]:
                known_seen.append(k)

    # 2. seeded search
    sums = []
    confirmed = []

    class W:
        pass

    workers = []

    def spawn(w, start):
        cmd = [exe, "run", "--prop=" + prop, "--seed=%d" % useed, "--from=%d" % w.i, "--step=%d" % nw, "--count=%d" % ((total - w.i + nw - 1) // nw), "--start=%d" % start,
               "--time=%g" % max(1, cap - (time.time() - t0 - build_s)), "--shrink=%g" % (15 if tier == "quick" else 40), "--tier=" + tier, "--out=" + outdir] + base_args()
        if len(cpus) > 1:
            cmd.append("--cpu=%d" % cpus[w.i % len(cpus)])
        w.p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=sh_env())
        w.buf = b""
        w.sum = False

    if not violation:
        for i in range(nw):
            w = W()
            w.i = i
            spawn(w, 0)
            workers.append(w)
    alive = list(workers)
    while alive and not violation:
        r, _, _ = select.select([w.p.stdout for w in alive], [], [], 5)
        for w in list(alive):
            if w.p.stdout not in r:
                continue
            d = os.read(w.p.stdout.fileno(), 1 << 20)
            if d:
                w.buf += d
            while b"\n" in w.buf:
                line, w.buf = w.buf.split(b"\n", 1)
                line = line.decode("utf-8", "replace")
                if line.startswith("VIOL "):
                    v = json.loads(line[5:])
                    rc, cls, h, out = replay(exe, v["path"])
                    if rc != 1 or cls != v["class"] or h != v["hash"]:
                        problems.append("violation of index %d does not replay in a fresh process (%s, %s)" % (v["index"], v["class"], cls))
                        w.resume = v["index"] + 1
                        continue
                    k = [k for k in known if k["class"] == cls and os.path.isfile(os.path.join(HERE, k.get("replay", ""))) and spec_texts(os.path.join(HERE, k["replay"])) == spec_texts(v["path"])]
                    if k:
                        if k[0] not in known_seen:
                            known_seen.append(k[0])
                        w.resume = v["index"] + 1
                        continue
                    violation = v
                elif line.startswith("SUM "):
                    w.sum = True
                    sums.append(json.loads(line[4:]))
            if violation:
                break
            if not d:
                w.p.wait()
                if not w.sum:
                    problems.append("worker %d ended with status %s" % (w.i, w.p.returncode))
                if getattr(w, "resume", None) and time.time() - t0 < cap:
                    s = w.resume
                    w.resume = None
                    spawn(w, s)
                else:
                    alive.remove(w)
    # one violation is enough; collect the summary of its worker
    if violation:
        end = time.time() + 2
        for w in alive:
            try:
                left = max(0.05, end - time.time()) if w.p.poll() is None and b"SUM" not in w.buf else 0.05
                time.sleep(0 if w.p.poll() is not None else min(left, 0.05))
                w.p.kill()
                rest = w.buf + w.p.stdout.read()
                for l in rest.decode("utf-8", "replace").splitlines():
                    if l.startswith("SUM "):
                        sums.append(json.loads(l[4:]))
            except Exception:
                pass
            w.p.wait()

    # 3. evidence
    def tot(k):
        return sum(s.get(k, 0) for s in sums)

    fired = {}
    emap = ""
    samples = []
    for s in sums:
        for k, v in s["fired"].items():
            fired[k] = fired.get(k, 0) + v
        m = s["edge_map"]
        emap = "".join("1" if "1" in (x, y) else "0" for x, y in zip(emap, m)) if emap else m
        samples += s["samples"][:1]
        if s["note"] and (s["infra"] or s["nondeterministic"] or s["double_mismatch"]):
            problems.append(s["note"][:400])
    wall = time.time() - t0
    search = max(0.01, wall - build_s)
    runs = tot("runs")
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": LEVEL,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": tot("distinct_histories"),
            "rule": plan["rule"] + " Counted as distinct by the hash of the executed event history (operations, outcomes, context switches with their yield points, faults fired), per worker.",
            "samples": samples[:3],
            "indices_of_seed": tot("indices"),
            "indices_planned": total,
            "stopped_by_time_cap": any(s["capped"] for s in sums),
            "runs_per_hour": int(runs / search * 3600),
            "seeds_per_hour": int(tot("indices") / search * 3600),
            "simulated_time": {"unit": "yield points (basic blocks and static accesses) executed in the library, 1 us each on the simulated clock, plus seconds of stalls; the library itself reads no clock", "steps": tot("steps"),
                               "simulated_seconds": round(tot("steps") / 1e6 + fired.get("stalled_seconds", 0), 1), "operations": tot("ops"), "events": tot("events")},
            "faults_fired": fired,
            "context_switches": tot("switches"),
            "distinct_schedules": tot("distinct_schedules"),
            "distinct_specs": tot("distinct_specs"),
            "library_edges_reached": emap.count("1"),
            "library_edges_total": max([s["edges_total"] for s in sums] or [0]),
            "baselines_in_pristine_processes": tot("baselines"),
            "texts_failing_alone": tot("baseline_failed"),
            "runs_skipped_for_such_texts": tot("skipped"),
            "run_twice_to_check_determinism": tot("double_checked"),
            "run_twice_with_different_hash": tot("double_mismatch"),
            "processes_forked": tot("forks"),
            "regression_replays": nreg,
            "components_real": REAL,
            "components_stubbed": STUB,
            "problems": problems[:10],
        },
        "assumptions": plan["assumptions"],
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }
    evp = a.evidence or os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    with open(evp + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(evp + ".tmp", evp)
    for k in known_seen:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    for p in problems[:5]:
        print("note: " + p[:400])
    print("%s %s seed %d: %d runs, %d distinct histories, %d schedules, %d of %d library edges, %.1f s (build %.1f s)" % (
        prop, tier, seed, runs, tot("distinct_histories"), tot("distinct_schedules"), emap.count("1"), ev["coverage"]["library_edges_total"], wall, build_s))
    if violation:
        print("class %s: %s" % (violation["class"], violation["message"][:1500].replace("\n", "\n  ")))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(violation["path"], HERE) if violation["path"].startswith(HERE) else violation["path"]))
        return 1
    if not sums or runs == 0 or any("ended with status" in p or "does not replay" in p for p in problems) or tot("nondeterministic") or tot("infra") > 20:
        print("error: the check gives no answer")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
