"""Run one check: `python -m mc.run C01 [quick|thorough] [--only NAME] [--replay FILE]`."""

import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback


VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)


def _worker(check, tier, tasks, results):
    from mc import common

    common.quiet()
    try:
        module = importlib.import_module(f"mc.{check.lower()}")
        scenarios = dict(module.SCENARIOS(tier))
    except Exception:
        results.put((None, {"error": traceback.format_exc()}, 0.0))
        return
    while True:
        name = tasks.get()
        if name is None:
            return
        t = time.time()
        results.put((name, None, os.getpid()))
        try:
            out = scenarios[name]().to_json()
        except Exception:
            # Nothing in the harness raises on a tree where the property holds: an
            # exception is the implementation failing on an input it must accept.
            out = dict(
                states=0,
                transitions=0,
                traces=0,
                samples=[],
                outcomes={},
                violations=[
                    {
                        "what": "the implementation raised an exception",
                        "case": {"traceback": traceback.format_exc()[-4000:]},
                    }
                ],
            )
        results.put((name, out, time.time() - t))


# A scenario of the quick tier takes seconds, and up to a minute or two of processor time.
# One that has used this much is taken not to terminate (an implementation that keeps on
# stepping); measured in processor time, so that the load of the machine does not matter.
HANG_CPU = 400.0
# Not having been given the processor for this long is not a verdict: exit code 2.
GIVE_UP = 860.0
# Violations that were found are reported, even if other scenarios never finish.
ENOUGH = 300.0


def cpu_time(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            fields = f.read().rsplit(")", 1)[1].split()
        return (int(fields[11]) + int(fields[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def known_findings(check):
    """Lines of KNOWN_FINDINGS.json for this check: matched on scenario and text."""
    path = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [x for x in data.get("known", []) if x["property"] == check]


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("check")
    parser.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--only", default=None)
    parser.add_argument("--replay", default=None)
    parser.add_argument("--verbose", action="store_true")
    args = parser.parse_args()
    check, tier = args.check, args.tier
    if args.replay is not None:
        with open(args.replay) as f:
            rep = json.load(f)
        args.only, tier = rep["scenario"], rep["tier"]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.environ["VERIF_TIER"] = tier

    from mc import common  # noqa: F401  (sets the environment of the workers)

    start = time.time()
    ctx = mp.get_context("spawn")
    tasks, results = ctx.Queue(), ctx.Queue()
    # The list of scenario names is needed here, too; get it from a worker-free import.
    module = importlib.import_module(f"mc.{check.lower()}")
    names = [name for name, _ in module.SCENARIOS(tier)]
    assert len(names) == len(set(names)), "duplicate scenario"
    if args.only is not None:
        names = [n for n in names if n == args.only or n.startswith(args.only)]
    nworkers = min(8, os.cpu_count() or 1, len(names))
    for n in names:
        tasks.put(n)
    for _ in range(nworkers):
        tasks.put(None)
    procs = [
        ctx.Process(target=_worker, args=(check, tier, tasks, results), daemon=True)
        for _ in range(nworkers)
    ]
    for p in procs:
        p.start()
    known = known_findings(check)
    unknown = lambda name, v: not any(
        k["scenario"] == name and k["what"] in v["what"] for k in known
    )
    reports, errors, times = {}, [], {}
    running, hung, gave_up = {}, [], False
    import queue

    while len(reports) < len(names):
        if tier == "quick":
            for n, (pid, cpu) in running.items():
                if cpu_time(pid) - cpu > HANG_CPU and n not in hung:
                    hung.append(n)
            wall = time.time() - start
            found = any(unknown(n, v) for n, r in reports.items() for v in r["violations"])
            if hung or (found and wall > ENOUGH):
                break
            if wall > GIVE_UP:
                gave_up = True
                break
        try:
            name, out, dt = results.get(timeout=5)
        except queue.Empty:
            if not any(p.is_alive() for p in procs):
                missing = [n for n in names if n not in reports]
                errors.append(f"workers died before finishing {missing}")
                break
            continue
        if name is not None and out is None:
            running[name] = (dt, cpu_time(dt))
            continue
        running.pop(name, None)
        if name is None:
            errors.append(out["error"])
            if len(errors) >= nworkers:
                break
        else:
            reports[name], times[name] = out, dt
            if args.verbose:
                print(
                    f"{name}: {dt:.1f}s states={out['states']} "
                    f"transitions={out['transitions']} traces={out['traces']} "
                    f"violations={len(out['violations'])} {out['outcomes']}",
                    flush=True,
                )
    for p in procs:
        if hung or gave_up or len(reports) < len(names):
            p.kill()
        p.join(timeout=10)

    violations = [
        (name, v) for name in names if name in reports for v in reports[name]["violations"]
    ]
    for e in errors:
        # e.g. `import diffrax` itself fails.
        violations.append(("worker", {"what": "worker failed", "case": {"error": e}}))

    for n in hung:
        violations.append((n, {"what": "does not terminate", "case": {"processor_time_s": HANG_CPU}}))

    unlisted = []
    listed = {}
    for name, v in violations:
        hit = [k for k in known if k["scenario"] == name and k["what"] in v["what"]]
        if hit:
            listed[hit[0]["text"]] = True
        else:
            unlisted.append((name, v))

    wall = time.time() - start
    coverage = dict(
        states=sum(r["states"] for r in reports.values()),
        transitions=sum(r["transitions"] for r in reports.values()),
        traces_validated_against_impl=sum(r["traces"] for r in reports.values()),
        exhaustive=len(reports) == len(names),
        scenarios={
            n: dict(
                states=r["states"],
                transitions=r["transitions"],
                traces=r["traces"],
                outcomes=r["outcomes"],
                wall_s=round(times[n], 2),
            )
            for n, r in reports.items()
        },
        samples=[
            dict(scenario=n, case=s) for n in names if n in reports
            for s in reports[n]["samples"]
        ][:12],
        bounds=getattr(module, "BOUNDS", ""),
    )
    if args.only is None:
        evidence = dict(
            property=check,
            tier=tier,
            seed=seed,
            level="model_checking",
            coverage=coverage,
            assumptions=list(getattr(module, "ASSUMPTIONS", [])),
            wall_s=round(wall, 2),
            violations=len(unlisted),
        )
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{check}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
    print(
        f"{check} {tier}: scenarios={len(reports)} states={coverage['states']} "
        f"transitions={coverage['transitions']} "
        f"traces={coverage['traces_validated_against_impl']} wall={wall:.1f}s"
    )
    for text in listed:
        print(f"KNOWN-FINDING: property={check} {text}")
    if unlisted:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, (name, v) in enumerate(unlisted[:5]):
            path = os.path.join(rdir, f"{check}-{i}.json")
            with open(path, "w") as f:
                json.dump(
                    dict(
                        property=check,
                        scenario=name,
                        tier=tier,
                        how="python -m mc.run "
                        f"{check} --replay {path}   (re-runs this scenario)",
                        **v,
                    ),
                    f,
                    indent=1,
                )
            print(f"  {name}: {v['what']}: {json.dumps(v['case'])[-1500:]}")
            print(f"VIOLATION property={check} replay={path}")
        sys.stdout.flush()
        os._exit(1)
    if gave_up:
        print(f"{check}: gave up after {wall:.0f} s; not finished: {sorted(set(names) - set(reports))}")
    sys.stdout.flush()
    os._exit(2 if gave_up else 0)


if __name__ == "__main__":
    main()
