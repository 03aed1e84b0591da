#!/usr/bin/env python3
"""Decides one property: ./check.py PROPERTY  (VERIF_SEED, VERIF_TIER)

Every check has the same parts:
  mc     TLC checks invariants / action properties of a specification exhaustively
  replay TLC generates behaviours of a specification (all transitions breadth first, or random
         walks); every one is replayed on the real code and compared after every call
  record the real code is run (concurrently) and the recorded histories are validated by TLC
Exit 0: held on everything explored, 1: VIOLATION, 2: the check itself could not answer.
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")


# seconds after which a quick check reports what it knows
DEADLINE = 720 if TIER == "quick" else None
LATE = threading.Event()


class ToolError(Exception):
    pass


def kill_children():
    """ends the processes started by this one"""
    for _ in range(3):
        for pid in filter(str.isdigit, os.listdir("/proc")):
            try:
                stat = open("/proc/%s/stat" % pid).read()
                if int(stat.rsplit(")", 1)[1].split()[1]) == os.getpid():
                    os.kill(int(pid), 9)
            except (OSError, IndexError, ValueError):
                pass
        time.sleep(0.2)


def build():
    env = dict(os.environ, RUSTUP_TOOLCHAIN="1.76.0", CARGO_INCREMENTAL="0", CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--bins"], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-4000:])
        raise ToolError("the harness does not build")
    return os.path.join(HARNESS, "target", "debug", "verif-harness")


def tla(v):
    if v is True:
        return "TRUE"
    if v is False:
        return "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset, list, tuple)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    raise ValueError(v)


def write_cfg(path, job):
    lines = []
    if "spec" in job:
        lines.append("SPECIFICATION " + job["spec"])
    else:
        lines += ["INIT " + job.get("init", "GInit"), "NEXT " + job["next"]]
    if job.get("consts"):
        lines.append("CONSTANTS")
        lines += ["  %s = %s" % (k, tla(v)) for k, v in job["consts"].items()]
    for key in ("invariants", "properties"):
        if job.get(key):
            lines.append(key.upper() + " " + " ".join(job[key]))
    for key in ("view", "constraint", "action_constraint", "postcondition"):
        if job.get(key):
            lines.append(key.upper() + " " + job[key])
    lines.append("CHECK_DEADLOCK FALSE")
    open(path, "w").write("\n".join(lines) + "\n")


def tlc_cmd(job, d, extra):
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    write_cfg(os.path.join(d, "job.cfg"), job)
    heap = job.get("heap", "3g")
    return (["java", "-XX:+UseSerialGC" if job.get("workers", 1) == 1 else "-XX:+UseParallelGC",
             "-Xmx" + heap, "-Xss32m", "-Djava.io.tmpdir=" + d] + job.get("jvm", [])
            + ["-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(d, "states"),
               "-workers", str(job.get("workers", 1)), "-config", "job.cfg"] + extra + [job["module"] + ".tla"])


def stats(text):
    """distinct states and transitions of a TLC run"""
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
    if m:
        g, d = m[-1]
        return int(d.replace(",", "")), int(g.replace(",", ""))
    m = re.findall(r"The number of states generated: ([\d,]+)", text)
    if m:
        n = int(m[-1].replace(",", ""))
        return n, n
    m = re.findall(r"Progress\S*: ([\d,]+) states checked", text)
    if m:
        n = int(m[-1].replace(",", ""))
        return n, n
    return 0, 0


def run_mc(job, d, harness):
    """exhaustive check of the specification itself"""
    cmd = tlc_cmd(job, d, job.get("args", []))
    r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=job.get("timeout", 800))
    open(os.path.join(d, "tlc.log"), "w").write(r.stdout)
    ok = "No error has been found" in r.stdout and r.returncode == 0
    if not ok:
        raise ToolError("specification %s of job %s is violated or broken:\n%s"
                        % (job["module"], job["name"], r.stdout[-3000:]))
    s, t = stats(r.stdout)
    if t < job.get("min_states", 100):
        raise ToolError("job %s explored only %d states" % (job["name"], t))
    return {"states": s, "transitions": t}


def run_replay(job, d, harness):
    """behaviours of the specification replayed on the real code"""
    out = os.path.join(d, "out.json")
    seed = SEED * 1000 + job.get("seed", 0)
    if "num" in job:
        extra = ["-simulate", "num=%d" % job["num"], "-depth", str(job.get("sim_depth") or job["consts"]["Depth"] + 1), "-seed", str(seed)]
    else:
        extra = []
    cmd = tlc_cmd(job, d, extra + job.get("args", []))
    hcmd = [harness, job["mode"], "--out", out, "--seed", str(seed), "--threads", str(job.get("threads", 2))]
    hcmd += ["%s=%s" % kv for kv in job.get("params", {}).items()]
    tlcp = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        with open(os.path.join(d, "harness.log"), "w") as log:
            h = subprocess.run(hcmd, stdin=tlcp.stdout, stdout=subprocess.DEVNULL, stderr=log,
                               timeout=job.get("timeout", 800))
    finally:
        tlcp.stdout.close()
        if os.path.exists(out) and json.load(open(out)).get("hang"):
            tlcp.kill()
        try:
            tlcp.wait(60)
        except subprocess.TimeoutExpired:
            tlcp.kill()
    if h.returncode != 0 or not os.path.exists(out):
        raise ToolError("job %s: harness exit %s: %s" % (
            job["name"], h.returncode, open(os.path.join(d, "harness.log")).read()[-2000:]))
    res = json.load(open(out))
    text = "\n".join(res["tlc"])
    if not res["hang"] and not res["skipped"]:
        if tlcp.returncode != 0 or "Error:" in text:
            raise ToolError("job %s: generation failed (%s)\n%s" % (job["name"], tlcp.returncode, text[-1500:]))
        need = job.get("min_traces", job.get("num", 100))
        if res["replayed"] < need:
            raise ToolError("job %s: only %d behaviours generated\n%s" % (job["name"], res["replayed"], text[-2000:]))
        for k in job.get("must", []):
            if not res["compared"].get(k):
                raise ToolError("job %s: no observation of kind %s" % (job["name"], k))
    s, t = stats(text)
    r = {"states": s, "transitions": t, "replayed": res["replayed"], "steps": res["steps"],
         "compared": res["compared"], "kinds": res["kinds"], "failed": res["failed"], "sample": res["sample"],
         "lines": res["lines"]}
    return validate(job, d, r, seed) if "validate" in job else r


def run_direct(job, d, harness):
    """inputs made by the check itself (given as JSON lines) run on the real code"""
    out = os.path.join(d, "out.json")
    seed = SEED * 1000 + job.get("seed", 0)
    hcmd = [harness, job["mode"], "--out", out, "--seed", str(seed), "--threads", str(job.get("threads", 4))]
    hcmd += ["%s=%s" % kv for kv in job.get("params", {}).items()]
    with open(os.path.join(d, "harness.log"), "w") as log:
        h = subprocess.run(hcmd, input="\n".join(json.dumps(x) for x in job["lines"]) + "\n", text=True,
                           stdout=subprocess.DEVNULL, stderr=log, timeout=job.get("timeout", 800))
    if h.returncode != 0 or not os.path.exists(out):
        raise ToolError("job %s: harness exit %s: %s" % (
            job["name"], h.returncode, open(os.path.join(d, "harness.log")).read()[-2000:]))
    res = json.load(open(out))
    r = {"states": 0, "transitions": 0, "replayed": res["replayed"], "steps": res["steps"],
         "compared": res["compared"], "kinds": res["kinds"], "failed": res["failed"], "sample": res["sample"],
         "lines": res["lines"]}
    return validate(job, d, r, seed) if "validate" in job else r


def blame(ev):
    """which call of a history is not explained"""
    if not ev or ev[-1].get("e") != "ret":
        return "unexplained"
    x = ev[-1]["x"]
    op = [e["op"] for e in ev if e.get("e") == "call" and e["x"] == x][-1]
    return "unexplained_" + ("snapshot" if op.get("saved") else str(op.get("t")))


def validate(job, d, r, seed):
    """histories recorded from the real code are judged by TLC"""
    hist = [json.loads(x) for x in r.pop("lines")]
    v = job["validate"]
    failed, accepted, states = [], 0, 0
    size = v.get("batch", 400)
    for n in range(0, len(hist), size):
        if LATE.is_set():
            raise ToolError("too late")
        part = hist[n:n + size]
        dd = os.path.join(d, "v%d" % n)
        os.makedirs(dd)
        with open(os.path.join(dd, "hist.ndjson"), "w") as f:
            for x in part:
                f.write(json.dumps(x["h"]) + "\n")
        cmd = tlc_cmd(dict({"spec": "Spec"}, **v), dd, [])
        p = subprocess.run(cmd, cwd=dd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        bad = {}
        for m in re.finditer(r'REJECT (\d+) (\d+) ([^\s"]+)', p.stdout):
            bad.setdefault(int(m.group(1)), (int(m.group(2)), m.group(3)))
        good = len(set(re.findall(r"ACCEPT (\d+)", p.stdout)))
        if p.returncode != 0 or good + len(bad) != len(part):
            raise ToolError("job %s: validation failed (%d of %d histories judged)\n%s" % (
                job["name"], good + len(bad), len(part), p.stdout[-3000:]))
        accepted += good
        states += stats(p.stdout)[1]
        for k, (i, why) in sorted(bad.items()):
            h = part[k - 1]
            ev = h["h"]["h"][:i]
            failed.append({"trace": h["trace"], "seed": seed, "history": ev,
                           "mismatches": [{"kind": why if why != "unexplained" else blame(ev), "step": i, "detail": json.dumps(ev[-6:])}]})
        shutil.rmtree(dd, ignore_errors=True)
    r["failed"] = r["failed"] + failed[:60]
    r["validated"] = accepted
    r["transitions"] += states
    r["states"] += states
    for f in failed:
        k = f["mismatches"][0]["kind"]
        r["kinds"][k] = r["kinds"].get(k, 0) + 1
    return r


RUN = {"mc": run_mc, "replay": run_replay, "direct": run_direct}


def run_job(job, prop, harness):
    d = os.path.join(VERIF, "work", prop, job["name"])
    os.makedirs(d)
    t = time.time()
    r = RUN[job["type"]](job, d, harness)
    r["wall"] = round(time.time() - t, 1)
    shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    return r


def known_findings(prop):
    """lines KNOWN-FINDING: property=<id> trace=<file> <what fails>"""
    found = []
    for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
        m = re.match(r"KNOWN-FINDING: property=(\S+) trace=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            found.append((m.group(2), m.group(3).strip()))
    return found


def main():
    prop = sys.argv[1]
    start = time.time()
    import jobs as jobs_mod
    plan = jobs_mod.plan(prop, TIER)
    work = os.path.join(VERIF, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    harness = build()
    results = {}
    errors = []
    with concurrent.futures.ThreadPoolExecutor(max_workers=plan.get("parallel", 6)) as pool:
        futs = {pool.submit(run_job, j, prop, harness): j for j in plan["jobs"]}
        try:
            for f in concurrent.futures.as_completed(futs, timeout=DEADLINE - (time.time() - start) if DEADLINE else None):
                j = futs[f]
                try:
                    results[j["name"]] = f.result()
                except (ToolError, subprocess.TimeoutExpired, OSError, ValueError, KeyError) as e:
                    errors.append("%s: %s: %s" % (j["name"], type(e).__name__, str(e)[-3500:]))
        except concurrent.futures.TimeoutError:
            # what was seen by the other jobs still counts
            LATE.set()
            pool.shutdown(wait=False, cancel_futures=True)
            errors.append("not finished in %d s: %s" % (DEADLINE, [j["name"] for j in plan["jobs"] if j["name"] not in results]))
            kill_children()
    violations = []
    notes = []
    for j in plan["jobs"]:
        r = results.get(j["name"])
        if not r:
            continue
        kinds = set(j["kinds"]) if "kinds" in j else None
        for f in r.get("failed", []):
            ms = [m for m in f["mismatches"] if kinds is None or m["kind"] in kinds or m["kind"] in ("panic", "hang")]
            if ms:
                violations.append((j, f, ms))
            else:
                notes.append("%s: %s" % (j["name"], f["mismatches"][0]))
    # recorded findings: histories on which the code is known to differ from what it should do
    for name, what in known_findings(prop):
        path = os.path.join(SPEC, "known", name)
        lines = [json.loads(l) for l in open(path) if l.strip()]
        kj = dict(type="direct", name="known-" + name.replace(".", "-"), mode=lines[0]["mode"],
                  params=lines[0].get("params", {}), lines=lines[1:])
        try:
            r = run_job(kj, prop, harness)
        except (ToolError, subprocess.TimeoutExpired) as e:
            errors.append(str(e))
            continue
        if r["failed"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    wall = round(time.time() - start, 1)
    tot = lambda k: sum(r.get(k, 0) for r in results.values())
    compared = {}
    for r in results.values():
        for k, v in r.get("compared", {}).items():
            compared[k] = compared.get(k, 0) + v
    samples = []
    for j in plan["jobs"]:
        for s in results.get(j["name"], {}).get("sample", [])[:1]:
            samples.append({"job": j["name"], "trace": s[:1200]})
    coverage = {
        "states": tot("states"), "transitions": tot("transitions"),
        "traces_validated_against_impl": tot("replayed"),
        "steps_replayed": tot("steps"),
        "observations_compared": compared,
        "samples": samples[:6] or [{"job": j["name"]} for j in plan["jobs"][:3]],
        "jobs": {n: {k: v for k, v in r.items() if k in ("states", "transitions", "replayed", "steps", "wall", "validated")}
                 for n, r in results.items()},
    }
    json.dump({"property": prop, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": coverage,
               "assumptions": plan.get("assumptions", []), "wall_s": wall, "violations": len(violations)},
              open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d states, %d transitions, %d behaviours (%d calls) replayed, compared %s, %.1f s" % (
        prop, tot("states"), tot("transitions"), tot("replayed"), tot("steps"), compared, wall))
    if violations:
        rep = os.path.join(VERIF, "work", "replays")
        os.makedirs(rep, exist_ok=True)
        for i, (j, f, ms) in enumerate(violations[:5]):
            path = os.path.join(rep, "%s-%d.json" % (prop, i))
            json.dump({"mode": j["mode"], "params": j.get("params", {}), "seed": f["seed"], "trace": f["trace"],
                       "mismatches": f["mismatches"], "history": f.get("history", [])}, open(path, "w"))
            print("  %s step %s: %s: %s" % (j["name"], ms[0]["step"], ms[0]["kind"], ms[0]["detail"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if errors:
        print("ERROR: " + "\n".join(errors))
        sys.exit(2)
    for n in notes[:3]:
        print("note (not this property): " + n[:500])
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except ToolError as e:
        print("ERROR: %s" % e)
        sys.exit(2)
