#!/usr/bin/env python3
"""Runs one property check: builds the harness of property <ID> against /repo's
current working tree, runs its jobs in parallel, writes evidence/<ID>.json.

  check.py C01               run (VERIF_SEED, VERIF_TIER from the environment)
  check.py replay FILE       re-run a replay file without the generator library
  check.py setup             build every harness once (warms the build cache)
Exit: 0 held, 1 VIOLATION, 2 error of the check.
"""
import concurrent.futures as cf
import json, os, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
RACE = {"C21"}
NPROC = os.cpu_count() or 8


def env():
    e = dict(os.environ)
    e.update(GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-mod=readonly", GOWORK="off", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")
    e.setdefault("HOME", "/root")
    if "GOCACHE" in e and not e["GOCACHE"]:
        del e["GOCACHE"]
    return e


def die(msg, code=2):
    print("CHECK-ERROR:", msg, flush=True)
    sys.exit(code)


def build(pid, tmp, race):
    exe = os.path.join(tmp, pid.lower() + ("_race" if race else ""))
    cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", exe, "./cmd/" + pid.lower()]
    p = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-4000:])
        die("harness does not build against /repo")
    return exe


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def main():
    if len(sys.argv) < 2:
        die("usage: check.py ID | replay FILE | setup")
    if sys.argv[1] == "setup":
        tmp = tempfile.mkdtemp(prefix="verif_setup_")
        try:
            for d in sorted(os.listdir(os.path.join(HARNESS, "cmd"))):
                pid = d.upper()
                build(pid, tmp, False)
                if pid in RACE:
                    build(pid, tmp, True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print("setup ok")
        return 0
    if sys.argv[1] == "replay":
        rp = json.load(open(sys.argv[2]))
        pid = rp["property"]
        tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        try:
            exe = build(pid, tmp, bool(rp.get("race")))
            rep = sys.argv[3] if len(sys.argv) > 3 else "3"
            return subprocess.run([exe, "-replay", os.path.abspath(sys.argv[2]), "-repeat", rep], cwd=tmp).returncode
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        die("bad tier " + tier)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    except ValueError:
        seed = 1
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        return run(pid, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(pid, tier, seed, tmp, t0):
    exe = build(pid, tmp, False)
    plan = json.loads(subprocess.run([exe, "-list", "-tier", tier], cwd=tmp, stdout=subprocess.PIPE, text=True, check=True).stdout)
    njobs = len(plan["jobs"])
    rexe = build(pid, tmp, True) if any(j.get("Race") for j in plan["jobs"]) else None
    evid = os.path.join(HERE, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(evid), exist_ok=True)
    replays = os.path.join(HERE, "replays")
    os.makedirs(replays, exist_ok=True)
    hard = 800 if tier == "quick" else 6600
    soft = 450 if tier == "quick" else 5400
    procs, lock, stop = {}, threading.Lock(), threading.Event()
    useed = seed & 0xFFFFFFFF

    def job(i):
        if stop.is_set():
            return (i, "cancelled", None, "", "")
        out = os.path.join(tmp, "out%d.json" % i)
        rpl = os.path.join(tmp, "replay%d.json" % i)
        inf = os.path.join(tmp, "inflight%d.json" % i)
        left = max(5.0, soft - (time.time() - t0))
        cmd = [rexe if plan["jobs"][i].get("Race") else exe, "-tier", tier, "-job", str(i), "-seed", str(useed), "-out", out, "-replayout", rpl, "-inflight", inf, "-deadline", "%.0f" % left]
        e = env()
        e["GORACE"] = "halt_on_error=1 exitcode=66"
        e.pop("GOMAXPROCS", None)
        with open(os.path.join(tmp, "log%d" % i), "w+") as log:
            p = subprocess.Popen(cmd, cwd=tmp, stdout=log, stderr=subprocess.STDOUT, env=e, start_new_session=True)
            with lock:
                procs[i] = p
            try:
                rc = p.wait(timeout=max(5.0, hard - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = "timeout"
            log.seek(0)
            text = log.read()
        with lock:
            procs.pop(i, None)
        if stop.is_set() and rc not in (0, 1):
            return (i, "cancelled", None, "", "")
        res = json.load(open(out)) if os.path.exists(out) else None
        return (i, rc, res, text, (rpl, inf))

    results, violation, error = [], None, None
    # C20 keeps the cloud keys of several levels in each job
    par = int(os.environ.get("VERIF_PAR", min(NPROC, {"C20": 5}.get(pid, NPROC))))
    with cf.ThreadPoolExecutor(max_workers=par) as ex:
        futs = [ex.submit(job, i) for i in range(njobs)]
        for f in cf.as_completed(futs):
            i, rc, res, text, files = f.result()
            if rc == "cancelled":
                continue
            if res is not None:
                results.append((i, res))
            if rc == 0 and res is not None:
                continue
            bad = None
            if rc == 1 and res is not None and os.path.exists(files[0]):
                bad = (files[0], res["violation"])
            elif rc == 66 and "DATA RACE" in text and os.path.exists(files[1]):
                bad = (files[1], "data race\n" + text[-3000:])
            elif rc == 2 and os.path.exists(files[1]) and ("fatal error: all goroutines are asleep" in text or "fatal error: concurrent map" in text or "\ngoroutine " in text) and "harness error" not in text and "out of memory" not in text:
                # the process died inside the library (panic in a goroutine, deadlock, ...)
                bad = (files[1], "process died\n" + text[:3000])
            if bad:
                if violation is None:
                    violation = (i,) + bad
            else:
                error = error or "job %d ended with %s\n%s" % (i, rc, text[-3000:])
            stop.set()
            with lock:
                for p in procs.values():
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass

    results.sort()
    ev, nt, classes, counts, known, samples, persub, trunc = 0, set(), {}, {}, {}, [], {}, False
    for i, r in results:
        ev += r["evaluations"]
        nt.update(r["nontrivial"] or [])
        trunc = trunc or r["truncated"]
        for k, v in (r["classes"] or {}).items():
            classes[k] = classes.get(k, 0) + v
        for k, v in (r["counts"] or {}).items():
            counts[k] = max(counts.get(k, v), v) if k.startswith("max_") else counts.get(k, 0) + v
        for k, v in (r["known"] or {}).items():
            known[k] = known.get(k, 0) + v
        for k, v in (r["per_sub"] or {}).items():
            persub[k] = persub.get(k, 0) + v
        for k, v in (r["samples"] or {}).items():
            if sum(1 for s in samples if s["check"] == k) < 3:
                samples.append({"check": k, "level": plan["jobs"][i]["Level"], "case": v})
    doc = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(nt), "rule": plan["rule"], "samples": samples,
            "cases_per_subcheck": persub, "classes": dict(sorted(classes.items())), "counters": dict(sorted(counts.items())),
            "known_finding_occurrences": known, "jobs": njobs, "jobs_completed": len(results), "truncated_by_time": trunc,
        },
        "assumptions": plan["assume"] or [],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    with open(evid, "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    listed = {k["id"]: k for k in load_known() if k["property"] == pid and k.get("status") == "known"}
    if violation is None:
        for k in sorted(known):
            if k not in listed:
                error = error or "unlisted finding id " + k
    if violation:
        i, path, msg = violation
        dst = os.path.join(replays, "%s_%s_seed%d_job%d.json" % (pid, tier, seed, i))
        shutil.copyfile(path, dst)
        try:
            d = json.load(open(dst))
            d["error"] = msg[:6000]
            json.dump(d, open(dst, "w"), indent=1)
        except ValueError:
            pass
        print(msg[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, dst), flush=True)
        return 1
    if error:
        die(error)
    for k in sorted(listed):
        if known.get(k, 0) > 0:
            print("KNOWN-FINDING: property=%s %s" % (pid, listed[k]["what"]))
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (pid, tier, seed, ev, len(nt), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
