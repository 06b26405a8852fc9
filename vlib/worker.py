"""Worker process: runs (facet, shard) jobs under Hypothesis and reports JSON lines."""
import importlib
import json
import os
import sys
import time
import traceback

SHRINK_S = float(os.environ.get("VERIF_SHRINK_S", "40"))


def main():
    prop, native, curfile = sys.argv[1], sys.argv[2].split(","), sys.argv[3]
    # keep fd 1 for the protocol, silence what the library prints
    proto = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)

    def send(o):
        proto.write(json.dumps(o) + "\n")
        proto.flush()

    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    try:
        import boot
        meta = json.loads(os.environ.get("VERIF_META", "{}"))
        boot.boot(native, meta.get("backends", ()))
        import core
        core.KNOWN.update(json.loads(os.environ.get("VERIF_KNOWN", "[]")))
        mod = importlib.import_module(f"checks.{prop.lower()}")
        if hasattr(mod, "setup"):
            mod.setup()
    except Exception:
        # a library that cannot even be imported is reported as such by the parent
        send({"fatal": traceback.format_exc()[-3000:]})
        return
    facets = {f.name: f for f in core.FACETS}
    send({"ready": [[f.name, f.quick, f.thorough, f.shards, f.weight, f.doc] for f in core.FACETS]})
    for line in sys.stdin:
        job = json.loads(line)
        if "replay" in job:
            send(replay(core, facets, job, curfile))
            continue
        send(run_job(core, facets[job["facet"]], job, curfile, prop))


def note(curfile, facet, case):
    with open(curfile, "w") as f:
        f.write(json.dumps({"facet": facet, "case": case}))


def replay(core, facets, job, curfile):
    note(curfile, job["facet"], job["replay"])
    try:
        rec, msg = core.execute(facets[job["facet"]], job["replay"])
        return {"replayed": msg, "labels": rec.labels}
    except Exception:
        return {"error": traceback.format_exc()[-3000:]}


def run_job(core, fc, job, curfile, prop):
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, seed, settings
    st = {"n": 0, "nt": 0, "hash": set(), "labels": {}, "samples": [], "fail": None, "err": None, "first": None, "t": 0.0, "tmax": 0.0}
    t_stop = job.get("deadline")

    class Stop(BaseException):
        pass

    def body(case):
        now = time.time()
        if st["first"] is None and t_stop and now > t_stop:
            st["late"] = True
            return
        if st["first"] is not None and now - st["first"] > SHRINK_S:
            return  # stop shrinking; the best failing case is already recorded
        note(curfile, fc.name, case)
        t0 = time.time()
        try:
            rec, msg = core.execute(fc, case)
        except Exception:
            st["err"] = {"trace": traceback.format_exc()[-3000:], "case": case}
            raise
        dt = time.time() - t0
        if st["first"] is None:
            st["n"] += 1
            st["t"] += dt
            st["tmax"] = max(st["tmax"], dt)
            for lab in rec.labels:
                st["labels"][lab] = st["labels"].get(lab, 0) + 1
            if rec._nt:
                h = core.fnv(json.dumps(case, sort_keys=True))
                if h not in st["hash"]:
                    st["hash"].add(h)
                    if len(st["samples"]) < 3:
                        st["samples"].append(case)
        if msg is not None:
            if st["first"] is None:
                st["first"] = time.time()
            st["fail"] = {"facet": fc.name, "case": case, "message": msg}
            raise AssertionError(msg)

    gen = fc.gen() if callable(fc.gen) else fc.gen
    test = given(gen)(body)
    test = settings(max_examples=job["n"], deadline=None, database=None, derandomize=False,
                    suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink),
                    report_multiple_bugs=False, verbosity=Verbosity.quiet, print_blob=False)(test)
    test = seed(job["seed"])(test)
    try:
        test()
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        if st["err"] is None and st["fail"] is None:
            st["err"] = {"trace": traceback.format_exc()[-3000:], "case": None}
    if st["fail"] is not None:
        st["err"] = None
        ok = None
        for _ in range(3):  # the failing case must reproduce outside Hypothesis
            rec, msg = core.execute(fc, st["fail"]["case"])
            if msg is not None:
                ok = msg
                break
        st["fail"]["confirmed"] = ok is not None
        if ok is not None:
            st["fail"]["message"] = ok
    return {"done": [job["facet"], job["shard"]], "n": st["n"], "hashes": sorted(st["hash"]),
            "labels": st["labels"], "samples": st["samples"], "fail": st["fail"], "err": st["err"],
            "late": st.get("late", False), "t": st["t"], "tmax": st["tmax"]}


if __name__ == "__main__":
    main()
