"""Parent process of a check: builds, schedules jobs on workers, writes evidence, decides."""
import argparse
import ast
import json
import os
import queue
import signal
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "vlib"))
import build  # noqa: E402

CASE_CPU_S = float(os.environ.get("VERIF_CASE_CPU_S", "150"))


def say(*x):
    print(*x, flush=True)


def meta_of(prop):
    """META = {...} literal of checks/<id>.py, read without importing the module."""
    path = os.path.join(ROOT, "checks", f"{prop.lower()}.py")
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "META":
            return ast.literal_eval(node.value)
    return {}


class Worker:
    def __init__(self, prop, native, k, tmp, env):
        self.cur = os.path.join(tmp, f"cur{k}.json")
        self.err = os.path.join(tmp, f"err{k}.txt")
        self.p = subprocess.Popen(
            ["/opt/venv/bin/python", "-s", os.path.join(ROOT, "vlib", "worker.py"), prop, ",".join(native), self.cur],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(self.err, "w"), text=True, env=env, cwd=tmp)
        self.k = k

    def ask(self, o=None):
        try:
            if o is not None:
                self.p.stdin.write(json.dumps(o) + "\n")
                self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            line = ""
        if not line:
            rc = self.p.wait()
            return {"died": rc}
        return json.loads(line)

    def cpu(self):
        try:
            f = open(f"/proc/{self.p.pid}/stat").read().rsplit(")", 1)[1].split()
            return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError):
            return None

    def stop(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)  # VERIF_TIER wins only if no option is given
    ap.add_argument("--replay")
    ap.add_argument("--facet")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=0)
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop.upper()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    meta = meta_of(prop)
    try:
        build.ensure_deps()
        native = [build.ensure_build(k) for k in meta.get("native", ["plain"])]
    except build.BuildError as e:
        say(f"ERROR property={prop}: {e}")
        return 2
    t_build = time.time() - t0
    import shutil
    import tempfile
    tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        return drive(a, prop, tier, seed, meta, native, tmp, t0, t_build)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def drive(a, prop, tier, seed, meta, native, tmp, t0, t_build):
    env = dict(os.environ, VERIF_META=json.dumps(meta), VERIF_TIER=tier)
    env.update(meta.get("env", {}))
    if meta.get("preload"):
        pre = [subprocess.run(["gcc", f"-print-file-name={x}"], capture_output=True, text=True).stdout.strip() for x in meta["preload"]]
        env["LD_PRELOAD"] = ":".join(pre)
    nw = a.jobs or meta.get("workers", min(8, os.cpu_count() or 8))
    findings = load_findings(prop)
    env["VERIF_KNOWN"] = json.dumps([f["tag"] for f in findings if "tag" in f])
    if a.replay:
        case = json.load(open(a.replay))
        w = Worker(prop, native, 0, tmp, env)
        r = w.ask()
        if "ready" not in r:
            say(f"ERROR property={prop}: {r} {open(w.err).read()[-2000:]}")
            return 2
        r = w.ask({"facet": case["facet"], "replay": case["case"]})
        w.stop()
        if "error" in r:
            say(r["error"])
            return 2
        if "died" in r:
            say(f"worker died: {r['died']}\n{open(w.err).read()[-3000:]}")
        elif r["replayed"] is None:
            say("replay: property holds on this case", r["labels"])
            return 0
        else:
            say("replay:", r["replayed"])
        say(f"VIOLATION property={prop} replay={a.replay}")
        return 1

    soft = {"quick": float(meta.get("quick_s", 420)), "thorough": float(meta.get("thorough_s", 5400))}[tier]
    deadline = t0 + soft
    workers = [Worker(prop, native, k, tmp, env) for k in range(nw)]
    lock = threading.Lock()
    S = {"facets": None, "jobs": None, "res": [], "fail": [], "errors": [], "notrun": 0, "fatal": None}
    stop = threading.Event()

    def make_jobs(facets):
        jobs = []
        for name, q, th, shards, weight, doc in facets:
            if a.facet and name not in a.facet.split(","):
                continue
            n = int(max(1, round((q if tier == "quick" else th) * a.scale)))
            sh = shards or max(1, min(nw, n // 20)) if tier == "quick" else max(shards or 1, min(4 * nw, n // 20), 1)
            sh = max(1, min(sh, n))
            for s in range(sh):
                k = n // sh + (1 if s < n % sh else 0)
                jobs.append((weight * k, dict(facet=name, shard=s, n=k, seed=(seed * 1000003 + zcrc(name) * 97 + s * 7919) % (2**31), deadline=deadline)))
        jobs.sort(key=lambda x: -x[0])
        q = queue.Queue()
        for _, j in jobs:
            q.put(j)
        return q

    busy = {}

    def loop(w):
        r = w.ask()
        if "ready" not in r:
            with lock:
                S["fatal"] = S["fatal"] or (r.get("fatal") or f"worker died at start: {r}\n" + open(w.err).read()[-3000:])
            return
        with lock:
            if S["facets"] is None:
                S["facets"] = r["ready"]
                S["jobs"] = make_jobs(r["ready"])
        while not stop.is_set():
            try:
                job = S["jobs"].get_nowait()
            except queue.Empty:
                break
            if time.time() > deadline:
                with lock:
                    S["notrun"] += 1
                continue
            busy[w.k] = w
            r = w.ask(job)
            busy.pop(w.k, None)
            with lock:
                if "died" in r:
                    if stop.is_set():
                        return
                    hung = getattr(w, "hung", None)
                    try:
                        cur = json.load(open(w.cur))
                    except Exception:
                        cur = None
                    S["fail" if cur else "errors"].append(dict(
                        facet=job["facet"], case=(cur or {}).get("case"), message=hung or f"process died with status {r['died']} while running this case",
                        died=r["died"], hung=bool(hung), stderr=open(w.err).read()[-3000:]))
                    stop.set()
                    return
                S["res"].append(r)
                if r["fail"]:
                    if r["fail"]["confirmed"]:
                        S["fail"].append(r["fail"])
                        stop.set()
                    else:
                        S["errors"].append(dict(message="a failure did not reproduce: " + r["fail"]["message"], case=r["fail"]["case"], facet=job["facet"]))
                if r["err"]:
                    S["errors"].append(dict(facet=job["facet"], message=r["err"]["trace"], case=r["err"]["case"]))

    def watchdog():
        seen = {}
        while not stop.wait(2.0):
            for k, w in list(busy.items()):
                try:
                    m = os.stat(w.cur).st_mtime_ns
                except OSError:
                    continue
                c = w.cpu()
                if c is None:
                    continue
                if seen.get(k, (None,))[0] != m:
                    seen[k] = (m, c)
                elif c - seen[k][1] > CASE_CPU_S:
                    w.hung = f"no answer after {CASE_CPU_S:.0f} s of CPU time on this case"
                    w.stop()
            if time.time() > deadline + 240:
                S["timeout"] = True
                stop.set()
                for w in workers:
                    w.stop()

    th = [threading.Thread(target=loop, args=(w,)) for w in workers]
    wd = threading.Thread(target=watchdog, daemon=True)
    for t in th:
        t.start()
    wd.start()
    for t in th:
        while t.is_alive():
            t.join(0.2)
            if stop.is_set():
                time.sleep(0.1)
                for w in workers:
                    w.stop()
    # crashes and hangs: confirm in a fresh process (a crash must happen again to count)
    fails = []
    for f in S["fail"]:
        if f.get("died") is not None and not f.get("hung"):
            w = Worker(prop, native, 90, tmp, env)
            r = w.ask()
            r = w.ask({"facet": f["facet"], "replay": f["case"]}) if "ready" in r else r
            w.stop()
            if "died" in r:
                f["stderr"] = open(w.err).read()[-3000:] or f["stderr"]
                fails.append(f)
            elif r.get("replayed"):
                f["message"] = r["replayed"]
                fails.append(f)
            else:
                S["errors"].append(dict(facet=f["facet"], case=f["case"], message="a crash did not reproduce: " + f["message"] + " " + f["stderr"][-500:]))
        else:
            fails.append(f)
    # known findings: replay each listed input
    seen = {k for r in S["res"] for k in r["labels"]}
    known_msgs = [f for f in findings if "known:" + f.get("tag", "") in seen]
    findings = [f for f in findings if "tag" not in f]
    if not S["fatal"] and not fails and findings:
        w = Worker(prop, native, 91, tmp, env)
        r = w.ask()
        for kf in findings:
            if "ready" not in r:
                break
            q = w.ask({"facet": kf["facet"], "replay": kf["case"]})
            if q.get("replayed") or "died" in q:
                known_msgs.append(kf)
            if "died" in q:
                w = Worker(prop, native, 91, tmp, env)
                r = w.ask()
        w.stop()
    for w in workers:
        w.stop()
    wall = time.time() - t0
    write_evidence(prop, tier, seed, meta, S, fails, wall, t_build, known_msgs)
    for kf in known_msgs:
        say(f"KNOWN-FINDING: property={prop} {kf['what']}")
    if S["fatal"] and not fails:
        say(f"ERROR property={prop}: the harness could not start\n{S['fatal']}")
        return 2
    if fails:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        f = fails[0]
        path = os.path.join(ROOT, "replays", f"{prop}-{f['facet']}-{seed}.json")
        json.dump({"property": prop, "facet": f["facet"], "case": f["case"], "message": f["message"]}, open(path, "w"), indent=1)
        say(f"facet {f['facet']}: {f['message']}")
        say("case:", json.dumps(f["case"])[:1500])
        if f.get("stderr"):
            say(f["stderr"][-2500:])
        say(f"VIOLATION property={prop} replay={path}")
        return 1
    if S["errors"]:
        for e in S["errors"][:1]:
            say(f"ERROR property={prop} facet={e.get('facet')}: {e['message']}\ncase: {json.dumps(e.get('case'))[:1500]}")
        return 2
    tot = sum(r["n"] for r in S["res"])
    say(f"{prop} {tier} seed={seed}: held on {tot} cases ({sum(len(r['hashes']) for r in S['res'])} non-trivial) in {wall:.1f} s"
        + (f", {S['notrun']} jobs not run (time budget)" if S["notrun"] else ""))
    return 0


def zcrc(s):
    import zlib
    return zlib.crc32(s.encode())


def load_findings(prop):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [x for x in json.load(open(path))["findings"] if x["property"] == prop and x.get("status") == "known"]


def trim(x, n=1200):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "...(cut)"


def write_evidence(prop, tier, seed, meta, S, fails, wall, t_build, known):
    fac = {}
    docs = {f[0]: f[5] for f in (S["facets"] or [])}
    for r in S["res"]:
        d = fac.setdefault(r["done"][0], dict(evaluations=0, hashes=set(), labels={}, samples=[], cpu_s=0.0, slowest_case_s=0.0, late=0))
        d["evaluations"] += r["n"]
        d["hashes"].update(r["hashes"])
        d["cpu_s"] += r["t"]
        d["slowest_case_s"] = max(d["slowest_case_s"], r["tmax"])
        d["late"] += bool(r["late"])
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        if len(d["samples"]) < 2:
            d["samples"] += r["samples"][: 2 - len(d["samples"])]
    ev = sum(d["evaluations"] for d in fac.values())
    nt = sum(len(d["hashes"]) for d in fac.values())
    per = {k: dict(oracle=docs.get(k, "")[:400], evaluations=d["evaluations"], distinct_nontrivial=len(d["hashes"]),
                   labels=dict(sorted(d["labels"].items(), key=lambda x: -x[1])[:40]), cpu_s=round(d["cpu_s"], 2),
                   slowest_case_s=round(d["slowest_case_s"], 3), cut_by_time_budget=d["late"]) for k, d in fac.items()}
    samples = [dict(facet=k, case=trim(c)) for k, d in fac.items() for c in d["samples"]]
    while len(json.dumps(samples)) > 24000:
        samples.pop()
    out = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=ev, distinct_nontrivial=nt,
            rule=meta.get("rule", "Cases are drawn by Hypothesis from the facet generators; a case counts as non-trivial when its facet's run() says so (solver converged, problem not degenerate to a closed form) and its JSON text is new."),
            samples=samples, facets=per, jobs_not_run=S["notrun"], build_s=round(t_build, 1),
            errors=[trim(e, 500) for e in S["errors"][:1]], known_findings_seen=[k["what"] for k in known]),
        assumptions=meta.get("assumptions", []), wall_s=round(wall, 2), violations=len(fails))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    p = os.path.join(ROOT, "evidence", f"{prop}.json")
    with open(p + ".tmp", "w") as f:
        json.dump(out, f, indent=1)
    os.replace(p + ".tmp", p)


if __name__ == "__main__":
    sys.exit(main())
